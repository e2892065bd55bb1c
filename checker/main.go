package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Violation is one broken instance of a rule.
type Violation struct {
	Rule   string `json:"rule"`
	Where  string `json:"where"`  // file:line
	What   string `json:"what"`   // the construct that breaks the rule
	Detail string `json:"detail"` // how
	Key    string `json:"key"`    // stable name of the instance, without line numbers
}

// Report is the result of one check.
type Report struct {
	Violations  []Violation
	Coverage    map[string]interface{}
	Assumptions []string
	tier        string
}

func (r *Report) violate(rule, where, what, detail string) {
	key := rule + "|" + what
	reportMu.Lock()
	defer reportMu.Unlock()
	for _, v := range r.Violations {
		if v.Rule == rule && v.Where == where && v.What == what {
			return
		}
	}
	r.Violations = append(r.Violations, Violation{rule, where, what, detail, key})
}

var reportMu sync.Mutex

// failed tells whether something was found.
func (r *Report) failed() bool { return len(r.Violations) > 0 }

// undecided: whatever the analysis can't decide counts as a violation.
func (r *Report) undecided(what, detail string) {
	r.violate("undecided", "-", what, detail)
}

// atLeast guards against a check that has lost sight of what it is about.
func (r *Report) atLeast(name string, got, min int) {
	r.Coverage[name] = got
	if got < min {
		r.undecided("coverage of "+name, fmt.Sprintf("found %d, expected at least %d: the code the rule is about can't be found any more", got, min))
	}
}

func (r *Report) cover(name string, v interface{}) { r.Coverage[name] = v }
func (r *Report) assume(s ...string)               { r.Assumptions = append(r.Assumptions, s...) }

// Check decides one property.
type Check struct {
	ID    string
	Rule  string // the rule applied, in one or two sentences
	Run   func(p *Program, r *Report)
	Extra []string // dependency packages to load with syntax
}

var checks = map[string]*Check{}

func register(c *Check) { checks[c.ID] = c }

type known struct{ prop, key, text string }

// knownFindings reads the committed list of findings that aren't repaired.
func knownFindings(file string) ([]known, error) {
	b, err := os.ReadFile(file)
	if err != nil {
		if os.IsNotExist(err) {
			return nil, nil
		}
		return nil, err
	}
	var out []known
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "finding:") {
			continue // comments and "fixed:" entries suppress nothing
		}
		k := known{text: strings.TrimSpace(strings.TrimPrefix(l, "finding:"))}
		for _, f := range strings.Fields(k.text) {
			if strings.HasPrefix(f, "property=") {
				k.prop = strings.TrimPrefix(f, "property=")
			}
		}
		if i := strings.Index(k.text, "key=\""); i >= 0 {
			rest := k.text[i+5:]
			if j := strings.Index(rest, "\""); j >= 0 {
				k.key = rest[:j]
			}
		}
		if k.prop != "" && k.key != "" {
			out = append(out, k)
		}
	}
	return out, nil
}

func runCheck(c *Check, tier string) (r *Report) {
	r = &Report{Coverage: map[string]interface{}{}, tier: tier}
	defer func() {
		if e := recover(); e != nil {
			r.undecided("the analysis", fmt.Sprintf("internal failure: %v\n%s", e, debug.Stack()))
		}
	}()
	p, err := loadProgram(c.Extra...)
	if err != nil {
		r.undecided("the program", err.Error())
		return r
	}
	r.cover("packages", len(p.Pkgs))
	r.cover("functions_in_repository", len(p.Funcs))
	// an answer is due within the time that a check gets
	done := make(chan struct{})
	go func() {
		tick := time.NewTicker(time.Second)
		defer tick.Stop()
		end := time.After(780 * time.Second)
		for {
			what := ""
			select {
			case <-done:
				return
			case <-end:
				what = "takes too long"
			case <-tick.C:
				var m runtime.MemStats
				runtime.ReadMemStats(&m)
				if m.HeapAlloc > 12<<30 {
					what = "takes too much memory"
				}
			}
			if what != "" {
				fmt.Printf("the analysis of %s %s to decide\nVIOLATION property=%s replay=%s\n", c.ID, what, c.ID, "/dev/null")
				os.Exit(1)
			}
		}
	}()
	defer close(done)
	c.Run(p, r)
	return r
}

func main() {
	tier := flag.String("tier", "", "quick or thorough")
	out := flag.String("out", "/verif", "where evidence and reports go")
	repo := flag.String("repo", "/repo", "tree to analyse")
	dump := flag.String("dump", "", "development: print events matching this")
	prof := flag.String("cpuprofile", "", "development: write a CPU profile")
	list := flag.Bool("list", false, "list the checks")
	flag.Parse()
	debug.SetGCPercent(1500)
	debug.SetMemoryLimit(6 << 30)
	dumpFilter = *dump
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	repoDir = *repo
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	seed := 1
	if s, err := strconv.Atoi(os.Getenv("VERIF_SEED")); err == nil {
		seed = s
	}
	var ids []string
	for id := range checks {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	if *list {
		for _, id := range ids {
			fmt.Println(id, checks[id].Rule)
		}
		return
	}
	if flag.NArg() > 0 && flag.Arg(0) != "all" {
		ids = flag.Args()
	}
	kf, err := knownFindings(filepath.Join(*out, "known-findings.txt"))
	if err != nil {
		fmt.Println("reading known findings:", err)
		os.Exit(2)
	}
	code := 0
	for _, id := range ids {
		c := checks[id]
		if c == nil {
			fmt.Println("no check for", id)
			os.Exit(2)
		}
		start := time.Now()
		r := runCheck(c, *tier)
		sort.Slice(r.Violations, func(i, j int) bool {
			if r.Violations[i].Where != r.Violations[j].Where {
				return r.Violations[i].Where < r.Violations[j].Where
			}
			return r.Violations[i].Rule < r.Violations[j].Rule
		})
		var left []Violation
		for _, v := range r.Violations {
			matched := false
			for _, k := range kf {
				if k.prop == id && k.key == v.Key {
					matched = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.text)
				}
			}
			if !matched {
				left = append(left, v)
			}
		}
		os.MkdirAll(filepath.Join(*out, "evidence"), 0o755)
		r.Coverage["explanation"] = "static analysis of the current source: " + c.Rule
		ev := map[string]interface{}{
			"property": id, "tier": *tier, "seed": seed, "level": "other",
			"coverage": r.Coverage, "assumptions": r.Assumptions,
			"wall_s": time.Since(start).Seconds(), "violations": len(left),
		}
		b, _ := json.MarshalIndent(ev, "", " ")
		if err := os.WriteFile(filepath.Join(*out, "evidence", id+".json"), append(b, '\n'), 0o644); err != nil {
			fmt.Println("writing evidence:", err)
			os.Exit(2)
		}
		rep := filepath.Join(*out, "evidence", id+".violations.txt")
		os.Remove(rep)
		if len(left) > 0 {
			var sb strings.Builder
			fmt.Fprintf(&sb, "property %s\nrule: %s\n\n", id, c.Rule)
			for _, v := range left {
				fmt.Fprintf(&sb, "%s: [%s] %s\n    %s\n", v.Where, v.Rule, v.What, strings.ReplaceAll(v.Detail, "\n", "\n    "))
			}
			os.WriteFile(rep, []byte(sb.String()), 0o644)
			fmt.Print(sb.String())
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, rep)
			code = 1
		} else {
			fmt.Printf("%s: held (%.1fs)\n", id, time.Since(start).Seconds())
		}
	}
	if *prof != "" {
		pprof.StopCPUProfile()
	}
	os.Exit(code)
}

var dumpFilter string
