# One entry per property. With "technique" it is claimed, otherwise "na" says why not.
NA_REASON = ""
PROPS = [
dict(id="C01", title="The metric index tolerates concurrent readers and writers",
 statement="Any number of goroutines may update the metric index and look up names, dimensions and values in it at the same time: no two of these calls ever make conflicting accesses to the same memory without a common lock. This includes the accesses made by whatever the calls hand data to.",
 over=["schedules","histories"], q="all interleavings of all pairs of index calls on one index, on all paths through them",
 why="A test runs a handful of schedules; a missing or too weak lock shows only in an unlucky interleaving, and the race detector only sees the accesses of the schedule that happened.",
 files=["promq/prom/indexer.go"], mech=[("index lock","promq/prom/indexer.go indexer.metricNameMu"),("index methods","promq/prom/indexer.go Indexer")],
 technique="static lockset analysis on top of a context-sensitive abstract interpretation of the SSA form", note="every pair of conflicting accesses reachable from the index's methods is checked for a common lock; sound up to the model of code outside the repository"),
dict(id="C02", title="Sets returned by the metric index are the caller's own",
 statement="A set that a lookup in the metric index returns is independent of the index: later updates never change it, and changing it never changes the index or the result of another lookup.",
 over=["histories","schedules"], q="all results of all lookups, for all later sequences of calls",
 why="Whether a result aliases live state only shows when a particular later update hits the aliased part; tests compare results at one moment.",
 files=["promq/prom/indexer.go","notstdlib/sets/string.go"], mech=[("lookups","promq/prom/indexer.go indexer.Get*")],
 technique="static escape/alias analysis of returned memory (abstract interpretation of the SSA form)", note="all memory reachable from each result is compared with all memory that the index keeps reachable"),
dict(id="C03", title="The data engine tolerates concurrent scrapes, queries and query changes",
 statement="Scraping, running the current query by hand and changing the query may all happen at the same time on one data engine: no two of these calls make conflicting accesses to stored samples, postings, the index or the query text without a common lock.",
 over=["schedules","histories"], q="all interleavings of all pairs of exported calls on one engine, including what the query evaluation reads while it runs",
 why="Conflicts need two goroutines at particular points inside long operations; tests call the methods one after the other.",
 files=["promq/prom/query.go","promq/prom/postings.go","promq/prom/multi.go","promq/prom/indexer.go"], mech=[("storage lock","promq/prom/multi.go PeriodicData.storageMu"),("query lock","promq/prom/multi.go PeriodicData.queryMu"),("postings lock","promq/prom/postings.go memPostings.mtx")],
 technique="static lockset analysis on top of a context-sensitive abstract interpretation of the SSA form", note="outside code (query engine, data source, callback) is modelled as calling everything it was handed in any order"),
dict(id="C04", title="The running program has no data races",
 statement="Between the goroutines that the program starts itself or has started for it (main, periodic scraping, event loop, prompt and its input reader), conflicting accesses to the same memory are always ordered by the start of a goroutine or by a common lock.",
 over=["schedules","histories","configurations"], q="all interleavings of all goroutines reachable from the command, in both modes, for all user input",
 why="The interactive mode is barely tested at all, and the conflicting windows (set-up against first events, redraw against typing) are narrow.",
 files=["cmd/metrics/metrics.go","promq/term/withprompt.go","promq/term/prompt.go","promq/term/runner.go","promq/prom/multi.go"], mech=[("goroutines","cmd/metrics/metrics.go runInteractiveChart"),("prompt widget locks","promq/term/withprompt.go PromptView.mu, promq/term/prompt.go cellWriter.textMu, screenParser.mu"),("screen lock","promq/term/runner.go Runner.screenMu")],
 technique="static lockset and may-happen-in-parallel analysis over all goroutines of the program (abstract interpretation of the SSA form)", note="orders goroutines by their start only; channel hand-over is modelled as publication"),
dict(id="C05", title="Locks are always released, never re-taken, and taken in a fixed order",
 statement="On every path through every operation, each lock is released exactly once after it was taken, also when the operation fails; no goroutine takes a lock that it already holds; and the order in which several locks are taken is free of cycles, so no combination of operations can deadlock on them.",
 over=["schedules","inputs","fault_sequences"], q="all paths through all functions that use locks, in all calling contexts, for all interleavings",
 why="A forgotten unlock on an error path or a lock-order inversion needs a specific failure or interleaving to show.",
 files=["promq/prom/multi.go","promq/prom/postings.go","promq/prom/indexer.go","promq/term/prompt.go","promq/term/runner.go","promq/term/withprompt.go","debug/log.go"], mech=[("lock operations","every sync.Mutex/RWMutex in the repository")],
 technique="static typestate analysis of locks and cycle check of the lock-order graph (abstract interpretation of the SSA form)", note="read locks count as re-taken, too, since a waiting writer blocks the second read lock"),
dict(id="C06", title="Slow work never freezes the interactive interface",
 statement="Scraping, query evaluation, network and timer waits never happen while holding a lock that the screen's event loop or the prompt needs, directly or through other locks; and the event loop itself never waits for another goroutine without a way out at shutdown.",
 over=["schedules","fault_sequences"], q="all interleavings of the interactive mode's goroutines, with arbitrarily slow servers and queries",
 why="Freezes need a slow server or a shutdown at a particular moment; tests use instantaneous fakes.",
 files=["promq/term/runner.go","promq/term/withprompt.go","promq/term/prompt.go","cmd/metrics/metrics.go","promq/prom/multi.go"], mech=[("event loop","promq/term/runner.go Runner.Run"),("key hand-over","promq/term/prompt.go screenParser.AddKey"),("chart axes lock","cmd/metrics/metrics.go runInteractiveChart axesMu")],
 technique="static effect analysis: waiting operations against held locks and the locks' dependants (abstract interpretation of the SSA form)", note="list of waiting operations is part of the model; channel operations and locks are found in the code"),
dict(id="C07", title="A failed step never ends as success",
 statement="When fetching, parsing, constructing or evaluating a query, or formatting its result fails, the operation that did it returns an error, and so does every operation on top of it, up to the one-shot command, which then ends with a non-zero exit status. Data from before the failure is never passed off as a complete result.",
 over=["inputs","fault_sequences"], q="all failures of all outside calls on all paths from the command and from every exported operation that reports errors",
 why="Each error path needs its own fault; tests inject few of them, and combinations (second target fails after the first succeeded) hardly ever.",
 files=["promq.go","cmd/promq.go","cmd/metrics/metrics.go","cmd/metrics/data.go","promq/prom/multi.go","promq/prom/output.go","promq/prom/parse.go"], mech=[("exit status","promq.go main"),("scraping","promq/prom/multi.go PeriodicData.Scrape"),("sources","cmd/metrics/metrics.go DataSources.ScrapePrometheusEndpoint")],
 technique="static error-flow analysis: every fallible outside call forks into success and failure, and no path from a failure reaches a successful return (abstract interpretation of the SSA form)", note="closing and writing output don't count as steps; goroutines that nobody waits for may drop errors"),
dict(id="C08", title="A failed scrape or rejected query leaves the data engine unchanged",
 statement="When fetching from the data source fails or a new query is rejected by the parser, the data engine stays exactly as it was before the call: stored samples, the metric index and the current query are not touched. Nothing is evaluated or delivered to the callback for the failed call.",
 over=["inputs","fault_sequences","histories"], q="all exported calls on the engine, all points at which the source or the parser may fail, all earlier histories",
 why="What is lost or half-updated by a failed call shows only in later results after a fault; tests check the returned error.",
 files=["promq/prom/multi.go"], mech=[("scraping","promq/prom/multi.go PeriodicData.Scrape"),("query change","promq/prom/multi.go PeriodicData.SetQuery")],
 technique="static effect analysis along failure paths (abstract interpretation of the SSA form)", note="on no path with a failed fetch or parse is there a write to shared memory, before or after the failure, or an evaluation or callback after it"),
dict(id="C09", title="A query result that failed is never displayed",
 statement="When evaluating a query ends in an error, nothing from its result is printed or drawn, and no redraw is requested for it, until a later evaluation succeeded. This holds for the chart, for plain output, and for the one-shot command.",
 over=["inputs","fault_sequences","configurations"], q="all paths from every evaluation to every output operation, in all modes",
 why="Evaluation errors (ambiguous matches, bad types at run time) depend on data that tests don't have, and partial results look plausible.",
 files=["cmd/metrics/metrics.go","cmd/metrics/data.go","promq/prom/output.go"], mech=[("chart callback","cmd/metrics/metrics.go runInteractiveChart"),("one-shot output","cmd/metrics/metrics.go MetricsCommand.Run"),("chart","promq/term/runner.go Runner.RequestUpdate")],
 technique="static typestate analysis: result error state against output operations (abstract interpretation of the SSA form)", note="every evaluation forks into a failed and a sound result; no output is reachable on the failed side"),
dict(id="C10", title="Query results are neither leaked nor used after their query was closed",
 statement="Every query that is created is closed on every path, also when its evaluation fails; nothing of its result is looked at after that, and no part of a result is kept in memory that outlives the evaluation and its callback.",
 over=["inputs","fault_sequences","histories"], q="all creations of queries on all paths through the engine and the program, all uses of results",
 why="Closing hands sample buffers back to a pool, so keeping a part of a result corrupts charts only when a later evaluation happens to reuse the buffer.",
 files=["promq/prom/multi.go","promq/term/plot/plot.go","cmd/metrics/metrics.go","cmd/metrics/data.go"], mech=[("evaluation","promq/prom/multi.go PeriodicData.ManuallyExecuteQuery"),("chart data","promq/term/plot/plot.go DataToPoints")],
 technique="static typestate and escape analysis of query results (abstract interpretation of the SSA form)", note="results are tagged at evaluation and followed through all copies and conversions"),
dict(id="C11", title="HTTP responses are checked, closed, and read only while open",
 statement="Whenever fetching metrics over HTTP receives a response, its body is closed before the fetch returns, also when the status is bad or reading fails, and it is not read after that. A response whose status is not a success never counts as metrics data: the fetch then reports an error.",
 over=["inputs","fault_sequences"], q="all paths through the fetches of all data sources, for all response statuses and read failures",
 why="A leaked connection per failed scrape only shows after hours of scraping, and an error page that happens to parse only shows with particular servers; no test makes an HTTP request.",
 files=["cmd/metrics/metrics.go"], mech=[("HTTP source","cmd/metrics/metrics.go httpSource.ScrapePrometheusEndpoint")],
 technique="static typestate analysis of HTTP responses with value ranges of the status code (abstract interpretation of the SSA form)", note="data sources and requests are found by their types; the status must be known to lie in 200-299 on every error-free return"),
dict(id="C12", title="Cancellation reaches everything that an operation starts",
 statement="Every operation that is given a context hands that context, or one derived from it, on to the HTTP requests, fetches and query evaluations that it makes, and to the goroutines that it starts; it never waits for or asks any other context. So cancelling the caller's context ends all of them.",
 over=["schedules","histories"], q="all uses of contexts on all paths through all operations that are given one",
 why="A lost context shows only when something is cancelled while slow work is under way; tests never cancel a scrape or a query.",
 files=["cmd/metrics/metrics.go","promq/prom/multi.go","promq/term/runner.go","promq/term/withprompt.go"], mech=[("HTTP requests","cmd/metrics/metrics.go httpSource.ScrapePrometheusEndpoint"),("evaluation","promq/prom/multi.go PeriodicData.ManuallyExecuteQuery"),("interactive mode","cmd/metrics/metrics.go runInteractiveChart")],
 technique="static data-flow analysis of contexts (abstract interpretation of the SSA form)", note="contexts are tagged at the entry of each function that takes one and followed through derivation, requests, closures, fields and goroutines"),
dict(id="C13", title="Cancelling ends scraping, the prompt and the event loop in order",
 statement="After cancellation, periodic scraping and the prompt loop start nothing new: they look for cancellation before each new input, never wait for a timer without also waiting for cancellation, and do not go on after seeing it; a stop request by the input handler always stops the screen. The screen is shut down exactly once after it was set up, only after cancellation, and running it returns only after the event loop has ended.",
 over=["schedules","histories","fault_sequences"], q="all moments of cancellation relative to all loops in operations that are given a context",
 why="Shutdown bugs (a restored terminal drawn over, a loop that never ends, a hang on quit) depend on what each goroutine is doing at the moment of cancellation.",
 files=["promq/term/runner.go","promq/term/withprompt.go","cmd/metrics/metrics.go"], mech=[("screen","promq/term/runner.go Runner.Run"),("prompt loop","promq/term/withprompt.go PromptView.Run"),("periodic scraping","cmd/metrics/metrics.go MetricsCommand.scrape")],
 technique="static typestate analysis of cancellation, screen and goroutine ends (abstract interpretation of the SSA form)", note="between looking for cancellation and acting on it, work that is already under way may still finish; contexts end it by C12"),
dict(id="C14", title="Only the event loop draws, and nothing else touches the terminal",
 statement="In the interactive mode, the screen is drawn on and shown only by the goroutine that handles its events, apart from the first paint before that goroutine starts; all others ask it for a redraw. While the screen may be up, nothing is printed to the terminal past it, and every prompt reads keys from and writes to the screen's widgets rather than the terminal itself.",
 over=["schedules","fault_sequences","configurations"], q="all interleavings of the interactive mode's goroutines, all failures of scrapes and queries",
 why="A stray print or a draw from another goroutine garbles the terminal only when it meets a redraw or a failed scrape; tests use a simulated screen and see no terminal.",
 files=["cmd/metrics/metrics.go","promq/term/runner.go","promq/term/withprompt.go","promq/term/prompt.go"], mech=[("event loop","promq/term/runner.go Runner.Run"),("redraw requests","promq/term/runner.go Runner.RequestRepaint, RequestUpdate"),("prompt options","promq/term/withprompt.go PromptView.Run, cmd/metrics/metrics.go runInteractiveChart")],
 technique="static effect analysis of all goroutines of the interactive mode: drawing and output operations against goroutines and screen state (abstract interpretation of the SSA form)", note="output is found by a list of printing operations of the standard library; writes into memory buffers don't count"),
dict(id="C15", title="No scraped sample is lost, doubled or altered on its way into the engine",
 statement="Every URL given becomes a target, and a fetch that succeeds holds, for each target, one sample per series entry of the text it served: with the entry's value, its own timestamp or else the time of the scrape in milliseconds, and the entry's labels plus the target's. Before the next query is evaluated or the scrape returns, each fetched sample has been given to the completion index and added, with its value and time, to the series of exactly its labels, and that series is listed under each of its labels.",
 over=["inputs","histories"], q="all texts, numbers and orders of entries, targets, samples and labels, and all histories of series already stored",
 why="Tests parse one line and load a handful of points; a sample that is skipped for its value, time, hash, position or order shows only for inputs they don't contain.",
 files=["promq/prom/parse.go","promq/prom/multi.go","promq/prom/query.go","promq/prom/postings.go","promq/prom/map.go","cmd/metrics/metrics.go"], mech=[("parsing","promq/prom/parse.go ParseTextDataWithAdditionalLabels"),("targets","cmd/metrics/metrics.go DataSources, httpSource"),("stores","promq/prom/query.go rangeStorage.LoadData, promq/prom/map.go, promq/prom/postings.go"),("scrape","promq/prom/multi.go PeriodicData.Scrape")],
 technique="static element-flow analysis: elements of the collections are followed by name through all loops and paths (abstract interpretation of the SSA form)", note="the text parser of the Prometheus library is trusted to deliver each entry once; where in a series a late sample is placed is C23's"),
dict(id="C16", title="Set operations give exactly the right elements and keep their operands",
 statement="For all six kinds of sets and any contents, inserting, deleting, union, intersection, difference and building from a list or a map's keys give exactly the elements that set theory says; membership, superset and equality answer truly; sorted and unsorted listing give each element once, the sorted one in ascending order; taking out any element removes precisely the one it returns. Nothing but inserting, deleting and taking out changes a set, and results never share storage with the operands.",
 over=["inputs","histories"], q="all contents of receiver, operand and item list, all iteration orders",
 why="An operation that is wrong only for sets of certain relative sizes, overlaps or iteration orders, or in one of the six copies of the code, passes the few examples that tests try.",
 files=["notstdlib/sets/string.go","notstdlib/sets/int.go","notstdlib/sets/int32.go","notstdlib/sets/int64.go","notstdlib/sets/byte.go","notstdlib/sets/uint64.go"], mech=[("operations","notstdlib/sets/string.go String methods and its five siblings"),("constructors","notstdlib/sets/string.go NewString, StringKeySet")],
 technique="static per-element abstract interpretation of the SSA form of every operation", note="an arbitrary element is followed through all cases of membership and all loop rounds; other elements are reduced to the facts found about them, so answers need grounds"),
dict(id="C17", title="Nothing of a query's result is missing from its text or its chart series",
 statement="When formatting a query's result as JSON, YAML or Prometheus text succeeds, the text holds the whole result: the text is made from the result's whole value, and the Prometheus format has a line for every sample with its name, all other labels, value and time. When converting a result for the chart succeeds, there is one series for each of the result's, with all of its points in order with unaltered time and value, all of its labels' values in its title, and a number other than the one that means 'no series'.",
 over=["inputs"], q="all results: all kinds, numbers, orders and values of series, points, samples and labels",
 why="Tests format one or two samples; a sample, label or point that's dropped for its value (NaN, no name, a duplicate), its position or the size of the result shows only for results they don't contain.",
 files=["promq/prom/output.go","cmd/metrics/data.go"], mech=[("formats","promq/prom/output.go ToPrettyFormat and the functions it chooses from"),("chart series","cmd/metrics/data.go PromResultToPromSeriesSet, PromSeries, PromPoint")],
 technique="static element-flow analysis: series, points, samples and labels are followed by name through all loops and paths (abstract interpretation of the SSA form)", note="the JSON and YAML encoders and the Prometheus library's String methods are trusted to write all of what they're given"),
dict(id="C18", title="Completion offers only words of the query language and knows them again",
 statement="Every function, aggregation, keyword and operator in completion's lists is known to the query parser in exactly the role it is offered for (functions by their return type), and after it was typed completion takes it for that role. Every token the parser's lexer can deliver for such a role, for braces, brackets, commas, strings, numbers, durations or names is taken for that role and for none that the grammar distinguishes from it; the lists never change.",
 over=["inputs","configurations"], q="all words of all lists and all of the parser's types of tokens for operators, keywords, aggregations, functions and punctuation",
 why="One word or token type that's misfiled ends completion (or offers a query that cannot be parsed) only for queries that use it; tests type a few queries.",
 files=["promq/autocomplete/earley/luthor.go","promq/autocomplete/earley/promql.go","promq/autocomplete/earley/grammar.go"], mech=[("lists","promq/autocomplete/earley/promql.go tokenTypeMatching"),("classifier","promq/autocomplete/earley/luthor.go createTokenFromItem, mapParserItemTypeToTokhanType"),("terminals","promq/autocomplete/earley/grammar.go isMatchingTerminal")],
 technique="static constant propagation through the classifier and the grammar's terminals for every word and type of token, compared with tables read from the parser's source", note="the parser's lexer is trusted to read words as its tables say; whether the grammar's rules combine the roles as the parser does isn't decided"),
dict(id="C19", title="The completion index lists exactly the names, labels and values it was given",
 statement="After the index was given a series with a name, looking up the metric names gives that name, looking up its labels gives each of the series' labels except the name, and looking up the label's values gives its value; whatever the index held before, it still holds. Lookups never give a name, label or value that no series had, or had only under another name or label; this holds whatever other goroutines add at the same time.",
 over=["inputs","histories","schedules"], q="all histories of series, all names, labels and values in them, all moments at which others add to the index",
 why="An update that drops, replaces or misfiles entries only for certain contents of the index (a known label, a repeated value, a concurrent first sighting) goes unseen when tests add a few fresh series.",
 files=["promq/prom/indexer.go","notstdlib/sets/string.go"], mech=[("index","promq/prom/indexer.go indexer.UpdateMetric, GetMetricNames, GetStoredDimensionsForMetric, GetStoredValuesForMetricAndDimension"),("sets","notstdlib/sets/string.go")],
 technique="static per-element abstract interpretation of the SSA form: an arbitrary name, label and value are followed through nested maps, sets and loops, with growth by others at every lock", note="the hashes of different label sets are presumed to differ, as the index itself presumes; each method is judged from every state of the index, which covers all histories"),
dict(id="C20", title="Completion offers exactly the fitting words that begin as typed",
 statement="For whatever stands before the cursor, completion asks the grammar about exactly the text before the last separator and offers, for each kind of word that may come next, exactly the words of that kind that begin with the rest: metric names in the index, labels of the last metric named, quoted values of the last metric and label named, or the kind's list of words. The parser's units of time are offered after a number and only then, nothing is offered for labels or values before their metric is known, and no kind takes another kind's words away. The prompt completes the text up to its cursor and shows every one of these words and nothing else.",
 over=["inputs","configurations"], q="all queries and cursor positions, all contents of the index, all kinds of words that the grammar can ask for, alone and together with others",
 why="A filter, guard or early exit that is wrong only for certain kinds, prefixes, label contexts or numbers of matches hides words or offers wrong ones; tests try a few queries against a tiny index.",
 files=["promq/autocomplete/earley/completer.go","promq/autocomplete/earley/completion_context.go","promq/autocomplete/earley/promql.go","promq/autocomplete/filter.go","cmd/metrics/autocompleter.go"], mech=[("matches","promq/autocomplete/earley/completer.go promQLCompleter.GenerateSuggestions, getPrefix"),("filters","promq/autocomplete/filter.go FilterPrefix, filterSet, Enquote"),("context","promq/autocomplete/earley/completion_context.go completionContext.BuildContext"),("prompt","cmd/metrics/autocompleter.go Completer.Complete")],
 technique="static per-element abstract interpretation of the SSA form: an arbitrary word, query and cursor are followed through all paths for each kind of word", note="which kinds of words may come next (the Earley parser) isn't decided; when several kinds may come next, that none loses words is checked for pairs, units of time last"),
dict(id="C21", title="Selecting series gives exactly those that every matcher accepts",
 statement="Selecting stored series with any matchers (equal, not equal, regular expression, negated) gives exactly the series that every matcher accepts, where a label that a series doesn't have counts as empty; each is given once and under its own labels. A new series can be found under all of its labels from then on, and adding it leaves every other series as findable as before.",
 over=["inputs","histories"], q="all kinds, values and numbers of matchers, for series with and without the label, among any number of other series",
 why="A fast path or a missing-label case that is wrong only for one kind of matcher, an empty value or an absent label gives queries with silently missing or foreign series; tests select by name from a few series.",
 files=["promq/prom/query.go","promq/prom/postings.go"], mech=[("selection","promq/prom/query.go memQuerier.Select, newSeriesSet, seriesSet"),("postings","promq/prom/postings.go memPostings.Get, UnsafeGet, All, IterValues, Add, addFor")],
 technique="static per-element abstract interpretation of the SSA form: membership of an arbitrary series in every set of references, for each kind of matcher and each way the series can stand to the matcher's label", note="the index package's operations on sets of references (intersect, merge, without) and the matchers' Matches are trusted; there is at least one matcher and each has a label name, as the query engine guarantees"),
dict(id="C22", title="Reading a series steps through its samples one by one and never goes back",
 statement="Reading a series gives its stored samples with their own time and value, in order, one per step from the first to the last, and then ends for good. Seeking goes to the first sample that isn't before the given time, says truly whether there is one, and never goes back; every reader of a series has its own position.",
 over=["inputs","histories"], q="all numbers of samples, positions, times that are sought and readers of the same series",
 why="A step or seek that is wrong only at the ends, at equal times, after another seek or for a second reader changes query results for particular data; tests read one short series once.",
 files=["promq/prom/query.go"], mech=[("reader","promq/prom/query.go blockSeries.Iterator, Next, At, Seek")],
 technique="static symbolic sequence analysis (abstract interpretation of the SSA form), by induction over the steps: position and number of samples are arbitrary, bounds are proved from the conditions on each path", note="sort.Search is trusted to find the first index at which its condition holds"),
dict(id="C23", title="A series keeps every sample in time order, and only older ones expire",
 statement="Adding a sample to a series, whenever its time is, keeps all the samples the series had and their order and puts the new one, with its time and value, where the whole is in time order; a new series has just the sample it was made for. Expiry drops from each series exactly the samples before the given time, and forgets a series only if none are left.",
 over=["inputs","histories"], q="all series in time order, all times of a new sample, all expiry times",
 why="Late, equal and out-of-order timestamps take paths that shift samples in place; one index that's off by one loses or doubles a sample, or breaks the order on which reading depends, only for such data.",
 files=["promq/prom/query.go"], mech=[("adding","promq/prom/query.go rangeStorage.LoadData"),("expiry","promq/prom/query.go rangeStorage.Clean")],
 technique="static symbolic sequence analysis (abstract interpretation of the SSA form): the samples are an arbitrary sequence, and what is copied, appended and cut is followed as segments of it whose bounds and order are proved from the conditions on each path", note="sort.Search is trusted; each sample of a batch is judged from an arbitrary series in time order, which covers batches and histories by induction"),
dict(id="C24", title="Expiry makes a series unfindable everywhere, or leaves it as findable as before",
 statement="After expiry, every series that still has samples can be found as before: among all series, under each of its labels, and by the next sample that has its labels. A series that has none left is found in none of these ways, so that its next sample makes it a new series. This holds whatever other series are stored, share labels with it or expire at the same time.",
 over=["inputs","histories"], q="all sets of stored series, all labels they share, all samples and expiry times",
 why="Expiry rewrites shared lists of references in place; a slip that drops, keeps or overwrites one only when labels are shared in a certain way loses live series from queries or leaves dead ones that crash them; tests expire one series at a time, if any.",
 files=["promq/prom/query.go","promq/prom/postings.go","promq/prom/map.go"], mech=[("expiry","promq/prom/query.go rangeStorage.Clean"),("postings","promq/prom/postings.go memPostings.Delete"),("known series","promq/prom/map.go seriesHashmap.del")],
 technique="static per-element abstract interpretation of the SSA form: an arbitrary series, one of its labels, and its reference are followed through the maps and lists of all three structures, including lists that share memory", note="different label sets may have the same hash; no two stored series have the same labels; sort.Search is trusted"),
dict(id="C25", title="Each key reaches the prompt once, in order, and as the key that it is",
 statement="Each key event that the terminal delivers is given to the prompt's queue exactly once while the prompt runs, and a query given at the start is queued as its characters followed by Enter. What the prompt's library reads from there is the typed characters in order, unchanged, and each special key (control, function, arrow and editing keys, with or without Ctrl or Shift) as bytes that the library takes for this same key, in a read of its own. A special key that the library has no bytes for is dropped and never becomes text or another key.",
 over=["inputs","histories"], q="all characters, all special keys of the terminal's library with any modifiers, all sequences of them and all ways they're spread over reads",
 why="Keys are renumbered between two libraries by ranges, aliases and a shared table of byte sequences, and typed text is collapsed into chunks; a slip affects single keys, modifiers or multi-byte characters, or keys that come faster than they're read. The tests type slowly and know a handful of keys.",
 files=["promq/term/keytobytes.go","promq/term/prompt.go","promq/term/withprompt.go","promq/term/runner.go"], mech=[("translation","promq/term/keytobytes.go nonRuneKeyToBytes"),("reader","promq/term/prompt.go screenParser.Read, AddKey, AddString"),("handler","promq/term/withprompt.go PromptView.HandleKey, Run"),("events","promq/term/runner.go Runner.Run")],
 technique="static constant propagation with memory on all paths, against the tables in the source of both libraries: each special key with each modifier, and sequences of an arbitrary character and special keys over several reads", note="sequences of up to three waiting keys and two more that come between reads, where a counter of keys read may have any value; the prompt's library and the terminal's do as their sources in the module cache say"),
dict(id="C26", title="Each scrape is evaluated once, with the latest query, up to the current time",
 statement="Each scrape that succeeds, even one without samples, stamps its samples with its own time, stores them, and then evaluates the accepted query that was set last against the same store exactly once and hands that result to the callback exactly once; a manual evaluation does so without scraping, for the callback it was given. A one-shot query is evaluated at the current time, a continuous one from the current time minus the window up to the current time in steps of the interval. A query that's rejected never takes an earlier one's place.",
 over=["inputs","histories"], q="all sequences of setting queries, scrapes and manual evaluations, all queries, windows and intervals, all data",
 why="A cached query or time, a shortcut for empty or unchanged data, or a time taken too early gives stale or empty results only after a certain history or with slow targets; the tests neither scrape nor evaluate.",
 files=["promq/prom/multi.go"], mech=[("engine","promq/prom/multi.go NewPeriodicData, SetQuery, Scrape, ManuallyExecuteQuery, executeQuery")],
 technique="static constant propagation with memory on all paths, over histories of calls: what the query engine is asked and the callback handed is compared with the named values that were set, scraped and returned", note="histories of two accepted and one rejected query with scrapes and manual evaluations between them; that each sample is stored is C15, what failures leave behind is C07 and C08; the query engine does as it documents"),
dict(id="C27", title="Each command-line option does what it says, alone and with others",
 statement="For each combination of options, exactly the targets given are fetched, or the kubeconfig's server without any; --list prints each scraped name with its label names and evaluates nothing; otherwise the query given, or without one every metric, is evaluated once at the current time and its text printed once in the format asked for, an unknown format being an error. With --continuous the screen is taken, the prompt starts with the query given, only :q and :quit end it, and each periodic scrape evaluates what was entered last, in steps as far apart as the scrapes, and draws it. Output goes to the output stream.",
 over=["inputs","configurations","histories"], q="all combinations of options, queries, targets and scraped names, and all inputs to the prompt between scrapes",
 why="Options are wired up by hand through several layers; a slip shows only for a combination of options, several targets, metrics with unusual names or a later input. The tests run none of the command.",
 files=["cmd/promq.go","cmd/metrics/metrics.go","cmd/cli/flags.go","promq/prom/output.go"], mech=[("options","cmd/promq.go addFlags, NewCmdPromQ"),("command","cmd/metrics/metrics.go MetricsCommand.Run, setupSources, outputMetricNames, runInteractiveChart, scrape"),("formats","promq/prom/output.go ToPrettyFormat")],
 technique="static constant propagation with memory on all paths, from the registration of the options to what is fetched, asked, formatted, printed and drawn, as named values; whether a selector takes all metrics is decided by an automaton over all names", note="up to two targets with two samples each, one format of each kind, two inputs after each other; that nothing of the result is missing is C17, that failures end as errors C07"),
dict(id="C28", title="The screen is divided without gaps, and each view learns of each change",
 statement="A split view gives its two panes boxes that together are exactly its own, at any place and size and on any side; the docked pane is as large as asked, but smaller than the whole and within its share. When the terminal's size changes or another view comes, the view shown from then on is given the whole current screen, and is then drawn on the cleared screen and shown, both panes of a split view. A repaint draws and shows the latest view, requests reach the event loop, and having no view yet does no harm.",
 over=["inputs","configurations","histories"], q="all positions, sizes, caps and sides, and all orders of resizes, new views, repaints and other events",
 why="An uneven size, a cap on the edge, a place other than the origin or an order of events that no test has is where a row is lost, panes overlap or a view keeps its old size.",
 files=["promq/term/split.go","promq/term/runner.go"], mech=[("division","promq/term/split.go SplitView.SetBox, dockedBox, flexedBox, FlushTo"),("event loop","promq/term/runner.go Runner.Run, RequestUpdate, RequestRepaint")],
 technique="static constant propagation with memory on all paths: boxes as sums of the named position, size and caps, compared by Fourier-Motzkin elimination over the path's conditions; the event loop over sequences of events, with what each view is given and when it is shown", note="sequences of three events; the rounding of the share is taken as exact; sizes don't overflow; which key goes where is C25"),
dict(id="N01", title="Completion's grammar predicts exactly what may come next in a query",
 statement="For every prefix of a query in the query language, the kinds of words that completion considers next are exactly those with which the prefix can be continued to a valid query. The answer depends on the prefix only, not on the prefixes it was asked about before.",
 over=["inputs","histories"], q="all token sequences, and all orders in which prefixes are parsed",
 why="A missing prediction shows only for particular nestings and re-used parse states.",
 files=["promq/autocomplete/earley/earley.go","promq/autocomplete/earley/promql.go"], mech=[("parser","promq/autocomplete/earley/earley.go"),("grammar","promq/autocomplete/earley/promql.go")],
 na="The completeness of a chart parser is an inductive statement about its fixed-point loops over an unbounded chart, and whether the hand-written ambiguous grammar generates the query language compares two context-free languages, which is undecidable in general. No sound static abstraction in reach decides either; running the parser on samples would be testing. What is decidable statically around it (tokens, terminal symbols and offered words against the real parser's tables, and what is offered for an answer) is C18 and C20."),
dict(id="N02", title="The chart draws every sample where its time and value say",
 statement="For every data set and screen size, each finite sample of each series is drawn at the cell and dot that its time and value scale to, lines join neighbouring samples, and the axes' labels name the values at their places.",
 over=["inputs","configurations"], q="all finite samples, ranges and screen sizes",
 why="Rounding and clipping slips show for particular ranges and sizes only.",
 files=["promq/term/plot/plot.go","promq/term/plot/axes.go","promq/term/graph.go"], mech=[("scaling","promq/term/plot/plot.go DataToPlatonicGraph, PlatonicGraph.ToScreen"),("axes","promq/term/plot/axes.go")],
 na="It equates floating-point scaling and integer line drawing with real arithmetic, up to a rounding tolerance. That is a relation between runtime numbers which abstract domains for floats (intervals, octagons) are far too coarse for; it would need a solver or sampling, both outside of static analysis. That all samples reach the chart is C17, that a stale one is never drawn is C09."),
dict(id="N03", title="Text on the screen wraps without losing or doubling characters",
 statement="For every text, including wide and combining characters, and every width of the area, the lines that the text area and the prompt show hold exactly the text's characters in order, each line as full as its width allows.",
 over=["inputs","configurations"], q="all texts, character widths and screen widths",
 why="Off-by-one wraps show at exact widths with wide characters only.",
 files=["promq/term/textbox.go","promq/term/wrapper.go","promq/term/prompt.go"], mech=[("text area","promq/term/textbox.go TextBox"),("cursor","promq/term/wrapper.go")],
 na="Where a line breaks depends on sums of character widths that come from tables outside the repository, over byte offsets within an unbounded text. Deciding it needs relational invariants between the remaining text, the column and the table's values, which no static domain in reach expresses."),
dict(id="N04", title="Memory stays bounded by the retention period",
 statement="However long the program runs, the memory it keeps is bounded by what was scraped within the retention period.",
 over=["histories"], q="all running times and all scraped data",
 why="Leaks show after days.",
 files=["promq/prom/query.go","promq/prom/postings.go","promq/prom/indexer.go"], mech=[("expiry","promq/prom/query.go rangeStorage.Clean")],
 na="A quantitative bound on heap size over unbounded histories needs amortised resource analysis with the capacities of slices and maps, which isn't in reach. It doesn't hold as stated either: the metric index keeps the names of expired series on purpose. The part that can be decided, that nothing of an expired series stays, is C24."),
dict(id="N05", title="What keys do in the prompt doesn't depend on how fast they come",
 statement="For every sequence of keys, what the prompt shows and what it runs in the end are the same however fast the keys come and whatever is being redrawn or completed meanwhile.",
 over=["schedules"], q="all interleavings of typing, redrawing and completion",
 why="Differences need bursts of keys during a slow redraw.",
 files=["promq/term/prompt.go","promq/term/runner.go"], mech=[("hand-over","promq/term/prompt.go screenParser.Read"),("events","promq/term/runner.go Runner.Run")],
 na="The prompt's library reads from goroutines of its own that it stops and starts for each input, and discards what it had read by then; what is lost depends on its timing, in code that isn't this repository's. That the keys are handed over once, in order and unchanged is C25, that this can't block the screen is C06."),
]
