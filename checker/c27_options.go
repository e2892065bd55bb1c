package main

import (
	"fmt"
	"go/types"
	"regexp"
	"regexp/syntax"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C27", Rule: "constant propagation with memory, on all paths, from the command's constructor through its flags' registration to what the command does with them: queries, targets, samples and outputs are named values; what is fetched, asked, formatted and printed is compared with what the flags say", Run: runC27})
}

// options follows the command from its constructor on.
type options struct {
	evals
	went []kdefer // goroutines
	tick int
}

// the labels of the second sample of each target are numbered from this on
const otherLabels = 1000

type flagAt struct {
	ptr   *kv
	short string
	def   *kv
}

func runC27(p *Program, r *Report) {
	e, err := newKexec(p)
	if err != nil {
		r.undecided("the program", err.Error())
		return
	}
	v := &options{evals: evals{p: p, r: r, e: e}}
	e.ext, e.stub, e.recv, e.spawn = v.ext, v.stub, v.recv, v.spawn
	e.send = func(s *kstate, ch types.Type, x *kv) []kout { return []kout{{s: s}} }
	var paths []string
	for path := range e.pkgs {
		paths = append(paths, path)
	}
	sort.Strings(paths)
	for _, path := range paths {
		if path == modPath+"/cmd" || strings.HasPrefix(path, modPath+"/cmd/") || path == modPath+"/promq/prom" || path == modPath+"/notstdlib/sets" {
			e.tables(path)
		}
	}
	sp := e.pkgs[modPath+"/cmd"]
	var mk *ssa.Function
	if sp != nil {
		mk = sp.Func("NewCmdPromQ")
	}
	if mk == nil || mk.Signature.Params().Len() != 1 {
		r.undecided("the command", "its constructor wasn't found")
		return
	}
	where := p.position(mk.Pos())
	s := &kstate{mem: map[*kobj]*kv{}, base: e.base, rng: map[int][2]int64{}}
	streams := kzero(mk.Signature.Params().At(0).Type())
	st, ok := mk.Signature.Params().At(0).Type().Underlying().(*types.Struct)
	if !ok {
		r.undecided(where, "the constructor isn't given the streams")
		return
	}
	for i := range streams.fs {
		streams.fs[i] = ksym("some "+st.Field(i).Name(), 0)
	}
	made := v.clean(e.run(mk, []*kv{streams}, nil, s, 0), where)
	if len(made) != 1 || len(made[0].res) != 1 || made[0].res[0].k != kPtr {
		r.undecided(where, "what the constructor makes wasn't followed")
		return
	}
	s = made[0].s
	cmd, run := v.command(s, made[0].res[0], mk.Signature.Results().At(0).Type())
	if run == nil || run.k != kFn {
		r.undecided(where, "what the command runs wasn't found")
		return
	}
	flags := map[string]flagAt{}
	for _, l := range s.log {
		if l.what == "flag" {
			name := v.plain(l.v.fs[0])
			if _, ok := flags[name]; ok {
				r.violate("options", where, "an option is there twice", "--"+name)
			}
			flags[name] = flagAt{l.v.fs[1], v.plain(l.v.fs[2]), l.v.fs[3]}
		}
	}
	for name, short := range map[string]string{"query": "q", "output": "o", "targets": "t", "list": "l", "continuous": "c"} {
		f, ok := flags[name]
		if !ok || f.ptr.k != kPtr {
			r.violate("options", where, "an option isn't there, or isn't kept anywhere", "--"+name)
			continue
		}
		if f.short != short {
			r.violate("options", where, "an option's short form isn't the documented one", fmt.Sprintf("--%s has -%s", name, f.short))
		}
		delete(flags, name)
		flags[name] = f
	}
	if r.failed() {
		return
	}
	// one: what the options say
	type run1 struct {
		list, cont bool
		query      int // none, one that's like a command or not
		out        string
		hosts      int
	}
	var runs []run1
	for _, hosts := range []int{0, 1, 2} {
		runs = append(runs, run1{list: true, hosts: hosts}, run1{list: true, query: 1, out: "yaml", hosts: hosts}, run1{list: true, cont: true, hosts: hosts})
		for _, q := range []int{0, 1} {
			for _, out := range []string{"", "json", "yaml", "prometheus", "table"} {
				runs = append(runs, run1{query: q, out: out, hosts: hosts})
			}
			runs = append(runs, run1{query: q, cont: true, hosts: hosts})
		}
	}
	for _, c := range runs {
		t := s.clone()
		t.log, t.steps, t.forks = nil, 0, 0
		v.went = nil
		asked := &kv{k: kText}
		if c.query > 0 {
			asked = v.query(t)
			e.store(t, flags["query"].ptr, asked)
		}
		e.store(t, flags["list"].ptr, kbool(c.list))
		e.store(t, flags["continuous"].ptr, kbool(c.cont))
		if c.out != "" {
			e.store(t, flags["output"].ptr, ktext(c.out))
		}
		urls := []string{}
		if c.hosts > 0 {
			l := &kv{k: kTree}
			for i := 0; i < c.hosts; i++ {
				u := v.text(t)
				l.fs = append(l.fs, u)
				urls = append(urls, u.String())
			}
			o := e.obj("targets")
			t.mem[o] = l
			e.store(t, flags["targets"].ptr, &kv{k: kSlice, o: o, hi: c.hosts})
		} else {
			urls = append(urls, (&kv{k: kText, fs: append([]*kv{ksym("host", 0)}, ktext("/metrics").fs...)}).String())
		}
		what := fmt.Sprintf("with %d targets", c.hosts)
		if c.query > 0 {
			what += ", a query"
		}
		if c.list {
			what += ", --list"
		}
		if c.cont {
			what += ", --continuous"
		}
		if c.out != "" {
			what += ", --output " + c.out
		}
		good := 0
		for _, o := range v.clean(e.run(run.fn, []*kv{cmd, {k: kNil}}, run.fs, t, 0), where) {
			failed := false
			for _, l := range o.s.log {
				failed = failed || l.what == "failed"
			}
			if failed {
				continue
			}
			res := kunk
			if len(o.res) == 1 {
				res = o.res[0]
			}
			if c.out == "table" && !c.list && !c.cont {
				if res.k == kNil {
					r.violate("options", where, "a format that isn't known ends as success", what)
				}
				good++
				continue
			}
			if res.k != kNil {
				r.violate("options", where, "the command ends with an error though nothing failed", what+": "+res.String())
				continue
			}
			good++
			switch {
			case c.list:
				v.listed(where, what, o.s, urls)
			case c.cont:
				v.continuous(where, what, o.s, urls, asked)
			default:
				form := c.out
				if form == "" {
					form = "json"
				}
				v.shot(where, what, o.s, urls, asked, form)
			}
			if r.failed() {
				return
			}
		}
		if r.failed() {
			return
		}
		if good == 0 {
			r.undecided(where, "no way was found in which the command succeeds "+what)
			return
		}
		v.seen += good
	}
	r.atLeast("runs_followed", v.seen, len(runs))
	r.cover("combinations_of_options", len(runs))
	r.cover("functions_analysed", len(e.funcs))
	r.assume("the flags' library stores what's given where it was told to, and the default otherwise", "a target's response that's fetched and parsed without an error holds its samples (C11, C15)")
}

func (v *options) plain(t *kv) string {
	var sb strings.Builder
	if t.k != kText {
		return "?"
	}
	for _, p := range t.fs {
		n, ok := p.isInt()
		if !ok {
			return "?"
		}
		sb.WriteByte(byte(n))
	}
	return sb.String()
}

// query is a letter and another one: neither a command nor empty.
func (v *options) query(s *kstate) *kv {
	v.n++
	s.rng[v.n] = [2]int64{'a', 'z'}
	return &kv{k: kText, fs: []*kv{ksym("utf8", v.n), kint('p')}}
}

// command finds the library's command and what it runs.
func (v *options) command(s *kstate, x *kv, t types.Type) (cmd, run *kv) {
	for i := 0; i < 3; i++ {
		pt, ok := t.Underlying().(*types.Pointer)
		if !ok || x.k != kPtr {
			return nil, nil
		}
		st, ok := pt.Elem().Underlying().(*types.Struct)
		if !ok {
			return nil, nil
		}
		c := kget(s.content(x.o), x.path)
		var next types.Type
		for k := 0; k < st.NumFields(); k++ {
			if f := st.Field(k); f.Name() == "RunE" {
				return x, kget(c, []int{k})
			} else if f.Name() == "Command" {
				next = f.Type()
				x = kget(c, []int{k})
			}
		}
		if next == nil {
			return nil, nil
		}
		t = next
	}
	return nil, nil
}

func (v *options) fetched(where, what string, log []kevent, urls []string) bool {
	have := map[string]int{}
	for _, l := range log {
		if l.what == "fetch" {
			have[l.v.String()]++
		}
	}
	n := 0
	for _, u := range urls {
		if have[u] == 0 {
			v.r.violate("options", where, "a target isn't fetched", what)
			return false
		}
		if n++; have[u] != have[urls[0]] {
			v.r.violate("options", where, "targets aren't fetched equally often", what)
			return false
		}
	}
	if len(have) != n {
		v.r.violate("options", where, "something is fetched that isn't a target", what)
		return false
	}
	return true
}

func (v *options) listed(where, what string, s *kstate, urls []string) {
	if !v.fetched(where, what, s.log, urls) {
		return
	}
	lines := map[string]int{}
	for _, l := range s.log {
		switch l.what {
		case "asked", "screen":
			v.r.violate("options", where, "a query is evaluated, or the screen taken, for a list of names", what)
			return
		case "print":
			v.toOut(where, what, l)
			for _, a := range l.v.fs[1:] {
				lines[a.String()]++
			}
		}
	}
	// each target has two samples with its own name, each with labels of its own
	for i := 0; i < 2*len(urls); i++ {
		n := 0
		at := i/2 + i%2*otherLabels
		for l, times := range lines {
			if strings.Contains(l, fmt.Sprintf("name(%d)", i/2)) && strings.Contains(l, fmt.Sprintf("label(%d)", at)) && strings.Contains(l, fmt.Sprintf("another(%d)", at)) {
				n += times
			}
		}
		if n == 0 {
			v.r.violate("options", where, "a scraped metric's name, or one of its label's names, isn't listed", what)
			return
		}
	}
}

func (v *options) toOut(where, what string, l kevent) {
	if w := l.v.fs[0]; w.k != kSym || w.sym != "some Out" {
		v.r.violate("options", where, "output doesn't go to the output stream", what)
	}
}

func (v *options) shot(where, what string, s *kstate, urls []string, query *kv, form string) {
	if !v.fetched(where, what, s.log, urls) {
		return
	}
	asked, printed := 0, 0
	for _, l := range s.log {
		switch l.what {
		case "screen":
			v.r.violate("options", where, "a one-shot query takes the screen", what)
		case "asked":
			asked++
			a := l.v.fs
			if len(a) != 3 || a[2].k != kSym || a[2].sym != "now" {
				v.r.violate("options", where, "a one-shot query isn't evaluated at the current time alone", what)
				return
			}
			if len(query.fs) == 0 {
				if !everything(v.plain(a[1])) {
					v.r.violate("options", where, "without a query, what's evaluated doesn't select every metric", what+": "+v.plain(a[1]))
					return
				}
			} else if a[1].String() != query.String() {
				v.r.violate("options", where, "the query that's evaluated isn't the one given", what)
				return
			}
		case "print":
			v.toOut(where, what, l)
			for _, a := range l.v.fs[1:] {
				if a.k == kSym && a.sym == "some output" {
					printed++
					if got := map[int]string{1: "json", 2: "yaml", 3: "prometheus"}[a.ev]; got != form {
						v.r.violate("options", where, "the output isn't in the format asked for", what+": in "+got)
						return
					}
				}
			}
		}
	}
	if asked != 1 {
		v.r.violate("options", where, fmt.Sprintf("a one-shot query is evaluated %d times", asked), what)
	} else if printed != 1 {
		v.r.violate("options", where, fmt.Sprintf("the result's text is printed %d times", printed), what)
	}
}

// everything tells whether a query selects all metrics.
func everything(q string) bool {
	m := regexp.MustCompile(`^\s*\{\s*__name__\s*(=~|!=|!~)\s*("(?:[^"\\]|\\.)*")\s*,?\s*\}\s*$`).FindStringSubmatch(q)
	if m == nil {
		return false
	}
	x, err := strconv.Unquote(m[2])
	if err != nil {
		return false
	}
	if m[1] == "!=" {
		return x == ""
	}
	if m[1] != "=~" {
		return false
	}
	re, err := syntax.Parse("^(?:"+x+")$", syntax.Perl)
	if err != nil {
		return false
	}
	prog, err := syntax.Compile(re.Simplify())
	if err != nil {
		return false
	}
	// all sets of the automaton's states that a name's beginning leads to
	closure := func(pcs []uint32, flag syntax.EmptyOp) map[uint32]bool {
		set := map[uint32]bool{}
		for len(pcs) > 0 {
			pc := pcs[len(pcs)-1]
			pcs = pcs[:len(pcs)-1]
			if set[pc] {
				continue
			}
			set[pc] = true
			switch i := prog.Inst[pc]; i.Op {
			case syntax.InstAlt, syntax.InstAltMatch:
				pcs = append(pcs, i.Out, i.Arg)
			case syntax.InstCapture, syntax.InstNop:
				pcs = append(pcs, i.Out)
			case syntax.InstEmptyWidth:
				if syntax.EmptyOp(i.Arg)&^flag == 0 {
					pcs = append(pcs, i.Out)
				}
			}
		}
		return set
	}
	const begin = syntax.EmptyBeginText | syntax.EmptyBeginLine
	const end = syntax.EmptyEndText | syntax.EmptyEndLine
	chars := "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_:0123456789"
	step := func(set map[uint32]bool, c rune) (next []uint32) {
		for pc := range set {
			switch i := prog.Inst[pc]; i.Op {
			case syntax.InstRune, syntax.InstRune1, syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
				if i.MatchRune(c) {
					next = append(next, i.Out)
				}
			}
		}
		return
	}
	for i := range prog.Inst {
		if in := prog.Inst[i]; in.Op == syntax.InstEmptyWidth && syntax.EmptyOp(in.Arg)&^(begin|end) != 0 {
			return false // word boundaries
		}
	}
	seen := map[string]bool{}
	type at struct {
		pcs   []uint32
		first bool
	}
	todo := []at{{[]uint32{uint32(prog.Start)}, true}}
	for len(todo) > 0 && len(seen) < 5000 {
		a := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		flag := syntax.EmptyOp(0)
		if a.first {
			flag = begin
		} else {
			ok := false
			for pc := range closure(a.pcs, end) {
				ok = ok || prog.Inst[pc].Op == syntax.InstMatch
			}
			if !ok {
				return false
			}
		}
		set := closure(a.pcs, flag)
		key := ""
		for i := range prog.Inst {
			if set[uint32(i)] {
				key += fmt.Sprint(i, " ")
			}
		}
		key += fmt.Sprint(a.first)
		if seen[key] {
			continue
		}
		seen[key] = true
		for i, c := range chars {
			if a.first && i >= len(chars)-10 {
				break
			}
			todo = append(todo, at{step(set, c), false})
		}
	}
	return len(todo) == 0
}

// continuous looks at what runs once the screen is up.
func (v *options) continuous(where, what string, s *kstate, urls []string, query *kv) {
	if !v.fetched(where, what, s.log, urls) {
		return
	}
	screen := false
	for _, l := range s.log {
		screen = screen || l.what == "screen"
	}
	if !screen {
		v.r.violate("options", where, "the interactive mode doesn't take the screen", what)
		return
	}
	// what the goroutines do: one of them is the prompt's, another scrapes
	var went []kdefer
	for _, l := range s.log {
		if l.what == "went" {
			went = append(went, v.went[l.n])
		}
	}
	start := func(s *kstate) *kstate {
		t := s.clone()
		t.log, t.steps, t.forks = nil, 0, 0
		return t
	}
	var prompt *kv
	for _, g := range went {
		for _, o := range v.clean(v.e.call(g.call, g.fn, g.args, start(s), 1), where) {
			for _, l := range o.s.log {
				if l.what == "prompt" {
					prompt = l.v
				}
			}
		}
	}
	if v.r.failed() {
		return
	}
	if prompt == nil {
		v.r.violate("options", where, "the interactive mode has no prompt", what)
		return
	}
	given := kunk
	for _, a := range prompt.fs[1:] {
		if a.k == kPtr {
			given = kget(s.content(a.o), a.path)
			if given.k == kText {
				break
			}
		} else if a.k == kNil && len(query.fs) == 0 {
			given = query
		}
	}
	if given.String() != query.String() {
		v.r.violate("options", where, "the prompt doesn't start with the query given", what)
		return
	}
	handle := kunk
	if t := v.p.lookupType(modPath+"/promq/term", "PromptView"); t != nil {
		if st, ok := t.Underlying().(*types.Struct); ok && prompt.fs[0].k == kPtr {
			c := kget(s.content(prompt.fs[0].o), prompt.fs[0].path)
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == "HandleInput" {
					handle = kget(c, []int{i})
				}
			}
		}
	}
	if handle.k != kFn {
		v.r.undecided(where, "what handles the prompt's input wasn't found")
		return
	}
	put := func(in *kstate, text *kv) []kout {
		return v.clean(v.e.run(handle.fn, []*kv{text}, handle.fs, start(in), 0), where)
	}
	for _, quit := range []string{":quit", ":q"} {
		for _, o := range put(s, ktext(quit)) {
			if len(o.res) != 2 || o.res[1].String() != "true" {
				v.r.violate("options", where, "the command that ends the program doesn't", quit)
				return
			}
		}
	}
	for _, other := range []string{"", ":", ":x", ":quitt", "q", "up", "quit", "exit"} {
		for _, o := range put(s, ktext(other)) {
			if len(o.res) != 2 || o.res[1].String() != "false" {
				v.r.violate("options", where, "input that's not the command to end the program ends it", strconv.Quote(other))
				return
			}
		}
	}
	// what's entered last is evaluated at the next scrape
	good := 0
	set := []*kstate{}
	for i := 0; i < 2; i++ {
		typed := v.query(s)
		from := append([]*kstate{s}, set...)
		set = nil
		for _, in := range from {
			in = in.clone()
			in.rng[typed.fs[0].ev] = s.rng[typed.fs[0].ev]
			for _, o := range put(in, typed) {
				failed := false
				for _, l := range o.s.log {
					failed = failed || l.what == "failed"
				}
				if failed {
					continue
				}
				if i == 0 {
					set = append(set, o.s)
				}
				for _, g := range went {
					in := start(o.s)
					in.log = []kevent{{what: "ticks"}}
					for _, e := range v.clean(v.e.call(g.call, g.fn, g.args, in, 1), where) {
						if v.scraped(where, what, e.s, urls, typed) {
							good++
						}
						if v.r.failed() {
							return
						}
					}
				}
			}
		}
		set = v.distinct(set)
	}
	if good == 0 {
		v.r.violate("options", where, "no goroutine of the interactive mode scrapes periodically and evaluates what was entered", what)
	}
}

// scraped looks at a scrape in the background.
func (v *options) scraped(where, what string, s *kstate, urls []string, query *kv) bool {
	period := kunk
	asked, ticked, updated := 0, false, 0
	for _, l := range s.log {
		switch l.what {
		case "failed":
			return false
		case "ticked":
			ticked = true
		case "period":
			period = l.v
		}
	}
	if !ticked {
		return false
	}
	if !v.fetched(where, what, s.log, urls) {
		return false
	}
	for _, l := range s.log {
		switch l.what {
		case "update":
			updated++
		case "asked":
			asked++
			a := l.v.fs
			switch {
			case a[1].String() != query.String():
				v.r.violate("options", where, "what's evaluated after a scrape isn't what was entered last", what)
			case len(a) != 5 || a[2].k != kSym || !strings.HasPrefix(a[2].sym, "now-") || a[3].k != kSym || a[3].sym != "now":
				v.r.violate("options", where, "a continuous query isn't evaluated over a window up to the current time", what)
			case a[4].k != kConst || a[4].String() != period.String():
				v.r.violate("options", where, "scrapes aren't as far apart as the steps of the evaluation", fmt.Sprintf("%s: %s and %s", what, period, a[4]))
			}
			if v.r.failed() {
				return false
			}
		}
	}
	if asked != 1 || updated != 1 {
		v.r.violate("options", where, fmt.Sprintf("after a scrape the query is evaluated %d times, and the result drawn %d times", asked, updated), what)
		return false
	}
	return true
}

func (v *options) spawn(s *kstate, d kdefer) {
	v.went = append(v.went, d)
	s.log = append(s.log, kevent{what: "went", n: len(v.went) - 1})
}

// recv: a timer fires once, and then the program ends.
func (v *options) recv(s *kstate, ch types.Type, ok bool) []kout {
	c, _ := ch.Underlying().(*types.Chan)
	n := 0
	ticks := false
	for _, l := range s.log {
		if l.what == "ticked" {
			n++
		}
		ticks = ticks || l.what == "ticks"
	}
	timer := c != nil && types.Identical(c.Elem(), v.timeType())
	if timer && (n > 0 || !ticks) || !timer && ticks && n == 0 {
		return []kout{{s: s, end: true}}
	}
	t := s.clone()
	if timer {
		t.log = append(t.log, kevent{what: "ticked"})
	}
	return []kout{{s: t, res: []*kv{{k: kTuple, fs: []*kv{kunk, kbool(timer)}}}}}
}

func pkgOf(fn *ssa.Function) string {
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	return ""
}

// named tells whether a type is, or points to, one of a package.
func namedAs(t types.Type, pkg, name string) bool {
	n, ok := deref(t).(*types.Named)
	return ok && n.Obj().Name() == name && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkg
}

func (v *options) stub(s *kstate, fn *ssa.Function, args []*kv) []kout {
	sig := fn.Signature
	pkg := pkgOf(fn)
	termPkg := modPath + "/promq/term"
	if sig.Recv() != nil && pkg == termPkg {
		switch {
		case namedAs(sig.Recv().Type(), pkg, "Runner") && fn.Name() == "Run":
			s.log = append(s.log, kevent{what: "screen"})
			return v.outcomes(s, sig)
		case namedAs(sig.Recv().Type(), pkg, "Runner") && fn.Name() == "RequestUpdate":
			s.log = append(s.log, kevent{what: "update"})
			return v.outcomes(s, sig)
		case namedAs(sig.Recv().Type(), pkg, "PromptView") && fn.Name() == "Run":
			s.log = append(s.log, kevent{what: "prompt", v: &kv{k: kTuple, fs: args}})
			return v.outcomes(s, sig)
		}
	}
	if pkg == termPkg || strings.HasPrefix(pkg, modPath+"/promq/autocomplete") || pkg == termPkg+"/plot" {
		return v.outcomes(s, sig, "some view")
	}
	for i := 0; i < sig.Params().Len(); i++ {
		t := sig.Params().At(i).Type()
		if sl, ok := t.Underlying().(*types.Slice); ok && sig.Results().Len() == 2 && isSamples(sig.Results().At(0).Type()) {
			if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				// what a target serves
				n := 0
				for _, l := range s.log {
					if l.what == "fetch" {
						n++
					}
				}
				elem := sig.Results().At(0).Type().Underlying().(*types.Slice).Elem()
				outs := v.outcomes(s, sig)
				o := v.e.obj("data")
				outs[0].s.mem[o] = &kv{k: kTree, fs: []*kv{v.sample(elem, n-1), v.sample(elem, n-1+otherLabels)}}
				outs[0].res[0] = &kv{k: kSlice, o: o, hi: 2}
				return outs
			}
		}
		if namedAs(t, promqlPkg, "Result") && sig.Results().Len() == 2 && pkg == modPath+"/cmd/metrics" {
			if _, ok := sig.Results().At(0).Type().Underlying().(*types.Slice); ok {
				outs := v.outcomes(s, sig)
				outs[0].res[0] = &kv{k: kNil}
				return outs
			}
		}
	}
	if pkg == modPath+"/promq/prom" {
		return v.evals.stub(s, fn, args)
	}
	return nil
}

// sample is one whose labels can be told.
func (v *options) sample(t types.Type, i int) *kv {
	z := kzero(t)
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return kunk
	}
	for k := 0; k < st.NumFields(); k++ {
		if n, ok := st.Field(k).Type().(*types.Named); ok && n.Obj().Name() == "Labels" {
			z.fs[k] = ksym("some labels", i)
		}
	}
	return z
}

func (v *options) object(s *kstate, t types.Type, fields map[string]*kv) *kv {
	o := v.e.obj("object")
	z := kzero(deref(t))
	if st, ok := deref(t).Underlying().(*types.Struct); ok && z.k == kTree {
		for i := 0; i < st.NumFields(); i++ {
			if f, ok := fields[st.Field(i).Name()]; ok {
				z.fs[i] = f
			}
		}
	}
	s.mem[o] = z
	return &kv{k: kPtr, o: o}
}

var flagFunc = regexp.MustCompile(`^(Bool|String|StringArray|StringSlice)(Var)?(P)?$`)

func (v *options) ext(s *kstate, c *ssa.CallCommon, fv *kv, args []*kv) []kout {
	sig := c.Signature()
	one := func(x ...*kv) []kout { return []kout{{s: s, res: x}} }
	// what a formatter of text makes of its arguments
	join := func(ps []*kv) *kv {
		t := &kv{k: kText}
		for _, p := range ps {
			if p.k == kIface {
				p = p.fs[0]
			}
			if p.k == kSym && p.sym == "some output" {
				return p
			}
			if p.k == kText {
				t.fs = append(t.fs, p.fs...)
			} else {
				t.fs = append(t.fs, kunk)
			}
		}
		return t
	}
	if fv.k == kSym && fv.sym == "some paint" {
		ps, _ := s.at(args[len(args)-1])
		return one(join(ps))
	}
	if c.IsInvoke() {
		pkg := ""
		if c.Method.Pkg() != nil {
			pkg = c.Method.Pkg().Path()
		}
		switch {
		case c.Method.Name() == "Exec" && pkg == promqlPkg:
			t := s.clone()
			s.log = append(s.log, kevent{what: "run"})
			t.log = append(t.log, kevent{what: "failed"})
			rt := sig.Results().At(0).Type()
			return []kout{
				{s: s, res: []*kv{v.object(s, rt, map[string]*kv{"Value": v.value()})}},
				{s: t, res: []*kv{v.object(t, rt, map[string]*kv{"Err": ksym("some error", 0)})}},
			}
		case c.Method.Name() == "Write" && len(args) == 1:
			s.log = append(s.log, kevent{what: "print", v: &kv{k: kTuple, fs: []*kv{fv, args[0]}}})
			return one(kunk, &kv{k: kNil})
		}
		return v.outcomes(s, sig, "some thing")
	}
	fn := c.StaticCallee()
	if fn == nil && fv.k == kFn {
		fn = fv.fn
	}
	if fn == nil {
		return v.outcomes(s, sig)
	}
	pkg, name := pkgOf(fn), fn.Name()
	for i := 0; i < sig.Results().Len(); i++ {
		switch t := sig.Results().At(i).Type(); {
		case namedAs(t, "k8s.io/client-go/rest", "Config"):
			outs := v.outcomes(s, sig)
			outs[0].res[i] = v.object(s, t, map[string]*kv{"Host": {k: kText, fs: []*kv{ksym("host", 0)}}})
			return outs
		case namedAs(t, "net/http", "Response"):
			outs := v.outcomes(s, sig)
			outs[0].res[i] = v.object(s, t, map[string]*kv{"StatusCode": kint(200), "Body": ksym("some body", 0)})
			for _, a := range args {
				if a.k == kText {
					outs[0].s.log = append(outs[0].s.log, kevent{what: "fetch", v: a})
				}
			}
			return outs
		case namedAs(t, "net/http", "Request"):
			for i := len(args) - 1; i >= 0; i-- {
				if args[i].k == kText {
					s.log = append(s.log, kevent{what: "fetch", v: args[i]})
					break
				}
			}
			return v.outcomes(s, sig, "some request")
		}
	}
	switch {
	case pkg == "github.com/spf13/cobra" && strings.HasSuffix(name, "Flags"):
		return one(ksym("some flags", 0))
	case pkg == "github.com/spf13/pflag" && flagFunc.MatchString(name):
		m := flagFunc.FindStringSubmatch(name)
		rest := args[1:]
		ptr := kunk
		if m[2] != "" {
			ptr, rest = rest[0], rest[1:]
		} else {
			o := v.e.obj("flag")
			s.mem[o] = kunk
			ptr = &kv{k: kPtr, o: o}
		}
		short := &kv{k: kText}
		flag := rest[0]
		if m[3] != "" {
			short, rest = rest[1], rest[1:]
		}
		v.e.store(s, ptr, rest[1])
		s.log = append(s.log, kevent{what: "flag", v: &kv{k: kTuple, fs: []*kv{flag, ptr, short, rest[1]}}})
		if m[2] != "" {
			return one()
		}
		return one(ptr)
	case pkg == "github.com/fatih/color" && sig.Results().Len() == 1:
		if _, ok := sig.Results().At(0).Type().Underlying().(*types.Signature); ok {
			return one(ksym("some paint", 0))
		}
		return v.outcomes(s, sig, "some color")
	case strings.HasSuffix(pkg, "pkg/labels") && name == "Map" && args[0].k == kSym:
		o := v.e.obj("labels")
		m := &kv{k: kTree}
		txt := func(x string) *kv { return &kv{k: kText, fs: []*kv{ksym(x, args[0].ev)}} }
		m = kput(m, ktext("__name__"), &kv{k: kText, fs: []*kv{ksym("name", args[0].ev%otherLabels)}})
		m = kput(m, ktext("instance"), txt("url"))
		m = kput(m, txt("label"), txt("value"))
		m = kput(m, txt("another"), txt("value"))
		s.mem[o] = m
		return one(&kv{k: kMap, o: o})
	case strings.HasSuffix(pkg, "pkg/labels") && name == "Get" && len(args) == 2 && args[0].k == kSym && v.plain(args[1]) == "__name__":
		return one(&kv{k: kText, fs: []*kv{ksym("name", args[0].ev%otherLabels)}})
	case strings.Contains(pkg, "json") && strings.HasPrefix(name, "Marshal"), strings.Contains(pkg, "yaml") && strings.HasPrefix(name, "Marshal"):
		outs := v.outcomes(s, sig)
		kind := 1
		if strings.Contains(pkg, "yaml") {
			kind = 2
		}
		outs[0].res[0] = ksym("some output", kind)
		return outs
	case name == "String" && sig.Recv() != nil && namedAs(sig.Recv().Type(), promqlPkg, "Result"):
		return one(ksym("some output", 3))
	case strings.HasSuffix(pkg, "/proto") && name == "String":
		o := v.e.obj("text")
		s.mem[o] = args[0]
		return one(&kv{k: kPtr, o: o})
	case pkg == "strings" && name == "Join":
		ps, ok := s.at(args[0])
		if !ok {
			return one(kunk)
		}
		return one(join(ps))
	case pkg == "strings" && (name == "HasPrefix" || name == "HasSuffix" || name == "EqualFold" || name == "Contains"):
		a, b := args[0], args[1]
		x, y := v.plain(a), v.plain(b)
		switch {
		case x != "?" && y != "?":
			return one(kbool(map[string]func(x, y string) bool{"HasPrefix": strings.HasPrefix, "HasSuffix": strings.HasSuffix, "EqualFold": strings.EqualFold, "Contains": strings.Contains}[name](x, y)))
		case a.k == kText && b.k == kText && strings.HasPrefix(name, "Has") && s.klen(a.fs).k == kConst && s.klen(b.fs).k == kConst:
			if len(a.fs) < len(b.fs) {
				return one(kbool(false))
			}
			part := a.fs[:len(b.fs)]
			if name == "HasSuffix" {
				part = a.fs[len(a.fs)-len(b.fs):]
			}
			if same := s.sameText(part, b.fs); same != 0 {
				return one(kbool(same == 1))
			}
		}
		return one(kunk)
	case pkg == "strings" && name == "ToLower":
		if x := v.plain(args[0]); x != "?" {
			return one(ktext(strings.ToLower(x)))
		}
		return one(args[0])
	case pkg == "strings" && (name == "TrimSpace" || strings.HasPrefix(name, "Trim")):
		if len(args[0].fs) == 0 {
			return one(args[0])
		}
		if x := v.plain(args[0]); x != "?" && name == "TrimSpace" {
			return one(ktext(strings.TrimSpace(x)))
		}
		return one(args[0])
	case pkg == "fmt" && name == "Sprintf":
		return one(v.sprintf(s, args, join))
	case pkg == "fmt" && strings.HasPrefix(name, "Sprint"):
		ps, _ := s.at(args[0])
		return one(join(ps))
	case pkg == "fmt" && (strings.HasPrefix(name, "Fprint")):
		x := kunk
		if name == "Fprintf" {
			x = v.sprintf(s, args[1:], join)
		} else {
			ps, _ := s.at(args[1])
			x = join(ps)
		}
		s.log = append(s.log, kevent{what: "print", v: &kv{k: kTuple, fs: []*kv{args[0], x}}})
		return one(kunk, &kv{k: kNil})
	case pkg == "io" && name == "WriteString":
		s.log = append(s.log, kevent{what: "print", v: &kv{k: kTuple, fs: []*kv{args[0], args[1]}}})
		return one(kunk, &kv{k: kNil})
	case pkg == "fmt" && strings.HasPrefix(name, "Print"):
		x := kunk
		if name == "Printf" {
			x = v.sprintf(s, args, join)
		} else {
			ps, _ := s.at(args[0])
			x = join(ps)
		}
		s.log = append(s.log, kevent{what: "print", v: &kv{k: kTuple, fs: []*kv{ksym("some stdout", 0), x}}})
		return one(kunk, &kv{k: kNil})
	case pkg == "time" && (name == "NewTicker" || name == "Tick" || name == "After" || name == "NewTimer"):
		s.log = append(s.log, kevent{what: "period", v: args[0]})
		return v.outcomes(s, sig)
	}
	if fn.String() == "(time.Time).Add" && args[0].k == kSym && args[1].k == kConst {
		if n, ok := args[1].isInt(); ok && n < 0 {
			return one(ksym(args[0].sym+args[1].String(), args[0].ev))
		}
		return one(ksym(args[0].sym+"+"+args[1].String(), args[0].ev))
	}
	return v.evals.ext(s, c, fv, args)
}

// value is a query's result that's text in each format.
func (v *options) value() *kv {
	if pk := v.p.Dep[promqlPkg]; pk != nil {
		if o := pk.Types.Scope().Lookup("Matrix"); o != nil {
			return &kv{k: kIface, typ: o.Type(), fs: []*kv{ksym("some data", 0)}}
		}
	}
	for _, pk := range v.p.Pkgs {
		for _, imp := range pk.Types.Imports() {
			if imp.Path() == promqlPkg {
				if o := imp.Scope().Lookup("Matrix"); o != nil {
					return &kv{k: kIface, typ: o.Type(), fs: []*kv{ksym("some data", 0)}}
				}
			}
		}
	}
	return kunk
}

func (v *options) sprintf(s *kstate, args []*kv, join func([]*kv) *kv) *kv {
	form := args[0]
	ps, ok := s.at(args[1])
	if form.k != kText || !ok {
		return kunk
	}
	var out []*kv
	for i := 0; i < len(form.fs); i++ {
		n, ok := form.fs[i].isInt()
		if !ok || n != '%' || i+1 >= len(form.fs) {
			out = append(out, &kv{k: kText, fs: []*kv{form.fs[i]}})
			continue
		}
		i++
		verb, _ := form.fs[i].isInt()
		switch {
		case verb == '%':
			out = append(out, ktext("%"))
		case (verb == 's' || verb == 'v') && len(ps) > 0:
			out = append(out, ps[0])
			ps = ps[1:]
		default:
			// others say nothing about what's known
			if len(ps) > 0 {
				ps = ps[1:]
			}
			out = append(out, kunk)
			for ; i < len(form.fs); i++ {
				if n, ok := form.fs[i].isInt(); ok && strings.IndexByte("dgqvsxftT", byte(n)) >= 0 {
					break
				}
			}
		}
	}
	return join(out)
}
