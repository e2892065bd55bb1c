package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C26", Rule: "constant propagation with memory, on all paths, from the engine's constructor through changes of the query, scrapes and manual evaluations: times, durations, queries, results and the callback are named values; what the query engine is asked and what the callback is handed are compared with what was set and scraped", Run: runC26})
}

// evals follows the data engine from its constructor on.
type evals struct {
	p     *Program
	r     *Report
	e     *kexec
	n     int
	data  []*kv
	seen  int
	where string
}

func runC26(p *Program, r *Report) {
	e, err := newKexec(p)
	if err != nil {
		r.undecided("the program", err.Error())
		return
	}
	v := &evals{p: p, r: r, e: e}
	e.tables(modPath + "/promq/prom")
	e.ext, e.stub = v.ext, v.stub
	e.recv = func(s *kstate, ch types.Type, ok bool) []kout {
		t := s.clone()
		t.log = append(t.log, kevent{what: "failed"})
		return []kout{{s: t, res: []*kv{kunk}}}
	}
	e.send = func(s *kstate, ch types.Type, x *kv) []kout { return []kout{{s: s}} }
	const pkg = modPath + "/promq/prom"
	sp := e.pkgs[pkg]
	t := p.lookupType(pkg, "PeriodicData")
	if sp == nil || t == nil {
		r.undecided("the data engine", "its type wasn't found")
		return
	}
	mk := sp.Func("NewPeriodicData")
	method := func(name string) *ssa.Function { return e.prog.LookupMethod(types.NewPointer(t), sp.Pkg, name) }
	set, scrape, manual := method("SetQuery"), method("Scrape"), method("ManuallyExecuteQuery")
	if mk == nil || set == nil || scrape == nil || manual == nil {
		r.undecided("the data engine", "its constructor or methods weren't found")
		return
	}
	for _, instant := range []bool{true, false} {
		for _, samples := range []int{2, 0} {
			v.data = nil
			s := &kstate{mem: map[*kobj]*kv{}, base: e.base, rng: map[int][2]int64{}}
			for i := 0; i < samples; i++ {
				v.data = append(v.data, ksym("sample", i))
			}
			made := v.clean(e.run(mk, []*kv{ksym("some source", 0), kunk}, nil, s, 0), p.position(mk.Pos()))
			if len(made) != 1 || len(made[0].res) != 1 || made[0].res[0].k != kPtr {
				r.undecided(p.position(mk.Pos()), "what the constructor makes wasn't followed")
				return
			}
			q, s := made[0].res[0], made[0].s
			if !v.configure(s, q, t, instant) {
				r.undecided(p.position(mk.Pos()), "the fields for the callback and the times weren't found")
				return
			}
			one, two := v.text(s), v.text(s)
			ctx := ksym("some context", 0)
			sc := []*kv{q, ctx}
			ma := []*kv{q, ctx, ksym("some callback", 2)}
			states := v.setTo(set, []*kv{q, ctx, one}, []*kstate{s}, true)
			states = v.evaluate(scrape, sc, states, one, instant, true, 1)
			// the same query again
			states = v.evaluate(scrape, sc, states, one, instant, true, 1)
			v.evaluate(manual, ma, states, one, instant, false, 2)
			// another one, after one that's rejected
			states = v.setTo(set, []*kv{q, ctx, two}, states, false)
			states = v.evaluate(scrape, sc, states, one, instant, true, 1)
			states = v.setTo(set, []*kv{q, ctx, two}, states, true)
			states = v.evaluate(manual, ma, states, two, instant, false, 2)
			states = v.evaluate(scrape, sc, states, two, instant, true, 1)
			if r.failed() {
				return
			}
			if len(states) == 0 {
				r.undecided(p.position(scrape.Pos()), "no path was followed on which a scrape succeeds")
				return
			}
		}
	}
	r.atLeast("evaluations_followed", v.seen, 24)
	r.cover("functions_analysed", len(e.funcs))
	r.assume("no time passes backwards", "the query engine evaluates what it's asked")
}

// configure sets what users of the engine set.
func (v *evals) configure(s *kstate, q *kv, t types.Type, instant bool) bool {
	st, ok := t.Underlying().(*types.Struct)
	c := kget(s.content(q.o), q.path)
	if !ok || c.k != kTree {
		return false
	}
	n := 0
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		switch f.Name() {
		case "Callback":
			c = kset(c, []int{i}, ksym("some callback", 1))
			n++
		case "Times":
			ts, ok := f.Type().Underlying().(*types.Struct)
			if !ok {
				return false
			}
			z := kzero(f.Type())
			for k := 0; k < ts.NumFields(); k++ {
				switch ts.Field(k).Name() {
				case "Window":
					z.fs[k] = ksym("window", 0)
					n++
				case "Interval":
					z.fs[k] = ksym("interval", 0)
					n++
				case "Instant":
					z.fs[k] = kbool(instant)
					n++
				}
			}
			c = kset(c, []int{i}, z)
		}
	}
	v.e.store(s, q, c)
	return n == 4
}

func (v *evals) text(s *kstate) *kv {
	t := &kv{k: kText}
	for i := 0; i < 2; i++ {
		v.n++
		s.rng[v.n] = [2]int64{0x21, 0x10ffff}
		t.fs = append(t.fs, ksym("utf8", v.n))
	}
	return t
}

// clean gives the ways that come back.
func (v *evals) clean(outs []kout, where string) (live []kout) {
	for _, o := range outs {
		if o.s.odd != "" {
			v.r.undecided(where, o.s.odd)
			continue
		}
		if !o.end {
			live = append(live, o)
		}
	}
	return
}

func (v *evals) start(in *kstate) *kstate {
	s := in.clone()
	s.steps, s.forks = 0, 0
	// what came before is done with
	s.log = []kevent{{what: "mark", n: v.n}}
	return s
}

// setTo sets a query that's accepted or not.
func (v *evals) setTo(fn *ssa.Function, args []*kv, in []*kstate, accepted bool) (out []*kstate) {
	if v.r.failed() {
		return nil
	}
	where := v.p.position(fn.Pos())
	for _, s := range in {
		for _, o := range v.clean(v.e.run(fn, args, nil, v.start(s), 0), where) {
			failed := false
			for _, l := range o.s.log {
				failed = failed || l.what == "failed"
			}
			if failed != accepted {
				out = append(out, o.s)
			}
		}
	}
	if len(out) == 0 {
		v.r.undecided(where, "no way was found in which a query is accepted, or none in which it's rejected")
	}
	return v.distinct(out)
}

// distinct leaves out states that hold the same.
func (v *evals) distinct(in []*kstate) (out []*kstate) {
	seen := map[string]bool{}
	for _, s := range in {
		var ids []string
		for o, c := range s.mem {
			ids = append(ids, fmt.Sprintf("%d=%s", o.id, c))
		}
		sort.Strings(ids)
		key := strings.Join(ids, ";")
		if seen[key] {
			continue
		}
		seen[key] = true
		out = append(out, s)
		if len(out) >= 12 {
			break
		}
	}
	return
}

// evaluate runs something that's to evaluate the query once.
func (v *evals) evaluate(fn *ssa.Function, args []*kv, in []*kstate, query *kv, instant, scrapes bool, cb int) (out []*kstate) {
	if v.r.failed() {
		return nil
	}
	where := v.p.position(fn.Pos())
	for _, s := range in {
		for _, o := range v.clean(v.e.run(fn, args, nil, v.start(s), 0), where) {
			if v.judge(where, o.s, query, instant, scrapes, cb) {
				out = append(out, o.s)
			}
			if v.r.failed() {
				return nil
			}
		}
	}
	if len(out) == 0 && !v.r.failed() {
		v.r.undecided(where, "no path was found on which everything succeeds")
	}
	return v.distinct(out)
}

func (v *evals) judge(where string, s *kstate, query *kv, instant, scrapes bool, cb int) bool {
	mark, scraped, stored := 0, 0, 0
	asked, run, called := 0, 0, 0
	var at int
	store := ""
	bad := func(what, detail string) bool {
		v.r.violate("evaluation", where, what, detail)
		return false
	}
	for _, l := range s.log {
		switch l.what {
		case "mark":
			mark = l.n
		case "failed":
			return false
		case "scrape":
			if scraped++; l.v.k != kSym || l.v.sym != "now" || l.v.ev <= mark {
				return bad("samples aren't stamped with the time of this scrape", "stamped with "+l.v.String())
			}
			at = l.n
		case "stored":
			if asked > 0 {
				return bad("samples are stored after the query was evaluated", "")
			}
			stored++
			if l.n == 1 {
				store = l.v.String()
			}
		}
		switch l.what {
		case "asked":
			asked++
			a := l.v.fs // store, query, times
			if !scrapes {
				at = mark
			}
			if store != "" && a[0].String() != store {
				return bad("the query isn't evaluated against the store that has the samples", "")
			}
			if a[1].String() != query.String() {
				return bad("the query that's evaluated isn't the one set last", "")
			}
			now := func(t *kv, sym string) bool {
				return t.k == kSym && t.sym == sym && t.ev > at
			}
			if instant {
				if len(a) != 3 || !now(a[2], "now") {
					return bad("a one-shot query isn't evaluated at the current time", fmt.Sprint("evaluated at ", a[2:]))
				}
				break
			}
			if len(a) != 5 || !now(a[2], "now-window") || !now(a[3], "now") || a[4].k != kSym || a[4].sym != "interval" {
				return bad("a continuous query isn't evaluated from the window's start up to the current time in steps of the interval", fmt.Sprint("from, to and step: ", a[2:]))
			}
		case "run":
			run++
		case "called":
			called++
			if l.v.fs[0].k != kSym || l.v.fs[0].ev != cb {
				return bad("the result is handed to a callback that isn't the one given", "")
			}
			if len(l.v.fs) != 2 || l.v.fs[1].k != kSym || l.v.fs[1].sym != "some result" {
				return bad("what the callback is handed isn't the query's result", "")
			}
		}
	}
	switch {
	case scrapes && scraped != 1:
		return bad(fmt.Sprintf("the targets are scraped %d times at once", scraped), "")
	case !scrapes && scraped > 0:
		return bad("an evaluation without a scrape scrapes", "")
	case scrapes && stored == 0 && len(v.data) > 0:
		return bad("samples that were scraped aren't stored", "")
	case asked != 1 || run != 1:
		return bad(fmt.Sprintf("the query is evaluated %d times after everything else succeeded", run), "")
	case called != 1:
		return bad(fmt.Sprintf("the result is handed to the callback %d times", called), "")
	}
	v.seen++
	return true
}

// outcomes gives the ways that a call may end whose results have the given names.
func (v *evals) outcomes(s *kstate, sig *types.Signature, names ...string) []kout {
	n := sig.Results().Len()
	res := make([]*kv, n)
	fails := false
	for i := range res {
		res[i] = kunk
		if i < len(names) && names[i] != "" {
			v.n++
			res[i] = ksym(names[i], v.n)
		}
		if isError(sig.Results().At(i).Type()) {
			res[i] = &kv{k: kNil}
			fails = true
		}
	}
	outs := []kout{{s: s, res: res}}
	if fails {
		t := s.clone()
		t.log = append(t.log, kevent{what: "failed"})
		bad := make([]*kv, n)
		for i := range bad {
			bad[i] = kunk
			if isError(sig.Results().At(i).Type()) {
				bad[i] = ksym("some error", 0)
			}
		}
		outs = append(outs, kout{s: t, res: bad})
	}
	return outs
}

func isError(t types.Type) bool { return types.Identical(t, types.Universe.Lookup("error").Type()) }

func isSamples(t types.Type) bool {
	if sl, ok := t.Underlying().(*types.Slice); ok {
		t = sl.Elem()
	}
	n, ok := deref(t).(*types.Named)
	return ok && n.Obj().Name() == "ParsedSeries"
}

// stub stands for the methods that take samples in.
func (v *evals) stub(s *kstate, fn *ssa.Function, args []*kv) []kout {
	sig := fn.Signature
	if sig.Recv() == nil {
		return nil
	}
	if n, ok := deref(sig.Recv().Type()).(*types.Named); ok && n.Obj().Name() == "PeriodicData" {
		return nil
	}
	for i := 0; i < sig.Params().Len(); i++ {
		if !isSamples(sig.Params().At(i).Type()) {
			continue
		}
		whole := 0
		if _, ok := sig.Params().At(i).Type().Underlying().(*types.Slice); ok && sig.Results().Len() > 0 {
			whole = 1
		}
		s.log = append(s.log, kevent{what: "stored", v: args[0], n: whole})
		return v.outcomes(s, sig)
	}
	return nil
}

func (v *evals) ext(s *kstate, c *ssa.CallCommon, fv *kv, args []*kv) []kout {
	sig := c.Signature()
	one := func(x *kv) []kout { return []kout{{s: s, res: []*kv{x}}} }
	if fv.k == kSym && fv.sym == "some callback" {
		s.log = append(s.log, kevent{what: "called", v: &kv{k: kTuple, fs: append([]*kv{fv}, args...)}})
		return one(kunk)
	}
	if c.IsInvoke() {
		switch {
		case sig.Results().Len() == 2 && isSamples(sig.Results().At(0).Type()):
			var now *kv = kunk
			for i, a := range args {
				if types.Identical(sig.Params().At(i).Type(), v.timeType()) {
					now = a
				}
			}
			s.log = append(s.log, kevent{what: "scrape", v: now, n: v.n})
			outs := v.outcomes(s, sig)
			o := v.e.obj("data")
			outs[0].s.mem[o] = &kv{k: kTree, fs: v.data}
			outs[0].res[0] = &kv{k: kSlice, o: o, hi: len(v.data)}
			return outs
		case c.Method.Name() == "Exec" && c.Method.Pkg() != nil && c.Method.Pkg().Path() == promqlPkg:
			s.log = append(s.log, kevent{what: "run", v: fv})
			if fv.k != kSym || fv.sym != "some query" {
				return one(kunk)
			}
			return v.outcomes(s, sig, "some result")
		}
		return v.outcomes(s, sig)
	}
	fn := c.StaticCallee()
	if fn == nil {
		return v.outcomes(s, sig)
	}
	switch name := fn.String(); name {
	case "time.Now":
		v.n++
		return one(ksym("now", v.n))
	case "(time.Time).Add":
		if args[0].k == kSym && args[1].k == kSym {
			return one(ksym(args[0].sym+plus(args[1].sym), args[0].ev))
		}
		return one(kunk)
	case "(time.Time).UTC", "(time.Time).Local", "(time.Time).Round", "(time.Time).In":
		return one(args[0])
	case "fmt.Errorf", "errors.New":
		return one(ksym("some error", 0))
	case "(*" + promqlPkg + ".Engine).NewInstantQuery", "(*" + promqlPkg + ".Engine).NewRangeQuery":
		st := args[1]
		if st.k == kIface {
			st = st.fs[0]
		}
		s.log = append(s.log, kevent{what: "asked", v: &kv{k: kTuple, fs: append([]*kv{st}, args[2:]...)}})
		return v.outcomes(s, sig, "some query")
	}
	return v.outcomes(s, sig)
}

func plus(d string) string {
	if strings.HasPrefix(d, "-") {
		return d
	}
	return "+" + d
}

func (v *evals) timeType() types.Type {
	for _, pk := range v.p.Pkgs {
		for _, imp := range pk.Types.Imports() {
			if imp.Path() == "time" {
				return imp.Scope().Lookup("Time").Type()
			}
		}
	}
	return types.Typ[types.Invalid]
}
