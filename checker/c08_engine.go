package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C08", Rule: "effect analysis: on every path on which the source's fetch or the parsing of a new query fails, the engine's exported methods have written no shared memory since they were called, and neither evaluate a query nor call the callback afterwards", Run: runC08})
	register(&Check{ID: "C09", Rule: "output-effect analysis: no output operation (printing, posting a redraw, drawing) happens on a path on which the latest query result holds an error, before the next query was evaluated", Run: runC09})
	register(&Check{ID: "C10", Rule: "typestate and escape analysis of query results: every query is closed on every path, nothing derived from its result is used after that, and none of it is reachable from memory that outlives the callback", Run: runC10})
}

// ---------------------------------------------------------------- C08

type keepClient struct {
	failClient
}

func (k *keepClient) Access(in *Interp, fr *Frame, ps *PState, l Loc, write bool, instr ssa.Instruction) {
	if write && strings.HasPrefix(fr.th.id, "api:") && !ps.st.has("wrote") {
		ps.st = ps.st.withFacts("wrote", "wroteat:"+in.p.instrPos(instr)).clone()
	}
}

func runC08(p *Program, r *Report) {
	src := p.lookupIface(modPath+"/promq/prom", "DataSource")
	if src == nil {
		r.undecided("data sources", "prom.DataSource is gone")
		return
	}
	fetch := map[string]bool{}
	for i := 0; i < src.NumMethods(); i++ {
		fetch[src.Method(i).FullName()] = true
	}
	k := &keepClient{failClient{sites: map[string]bool{}}}
	k.only = func(c *ExtCall) bool {
		return fetch[c.Name] || c.Name == "github.com/prometheus/prometheus/promql/parser.ParseExpr"
	}
	in := dataHarness(p, r, k)
	if in == nil {
		return
	}
	exits, after := 0, 0
	for _, e := range in.events {
		if !strings.HasPrefix(e.Thread, "api:") {
			continue
		}
		f := failIn(e.Facts)
		if f == "" || f == "query" {
			continue
		}
		switch e.Kind {
		case "exit":
			exits++
			if hasStr(e.Facts, "wrote") {
				where := ""
				for _, x := range e.Facts {
					if strings.HasPrefix(x, "wroteat:") {
						where = x[8:]
					}
				}
				r.violate("a failed call changes stored data", where, e.Fn+" writes shared memory", "and fails because of "+f)
			}
		case "write":
			r.violate("a failed call changes stored data", e.Pos, e.Fn+" writes "+noPos(e.Loc.String()), "after the failure of "+f)
		case "ext":
			after++
			if e.Detail == "(func value)" || e.Detail == queryExec {
				r.violate("a failed call still delivers results", e.Pos, e.Fn+" goes on after a failure", "calls "+e.Detail+" after the failure of "+f)
			}
		}
	}
	r.atLeast("failing_steps", len(k.sites), 2)
	r.atLeast("failing_returns_examined", exits, 2)
	r.cover("outside_calls_after_failures", after)
	in.finish(r)
}

// ---------------------------------------------------------------- C09

func isOutput(name string) bool {
	for _, s := range []string{"fmt.Print", "fmt.Fprint", "io.WriteString", "(io.Writer).Write", "(*os.File).Write", "(github.com/gdamore/tcell.Screen).Post", "(github.com/gdamore/tcell.Screen).Show", "(github.com/gdamore/tcell.Screen).Set", "(github.com/gdamore/tcell.Screen).Sync", "print"} {
		if strings.HasPrefix(name, s) {
			return true
		}
	}
	return false
}

func runC09(p *Program, r *Report) {
	fc := &failClient{sites: map[string]bool{}, everywhere: true, latest: true}
	fc.only = func(c *ExtCall) bool { return strings.HasPrefix(c.Name, "(*"+resultPkg+".Result).") }
	in := appHarness(p, r, fc)
	if in == nil {
		return
	}
	outputs, failed := 0, 0
	for _, e := range in.events {
		if e.Kind != "ext" {
			continue
		}
		if hasStr(e.Facts, "fail:query") {
			failed++
		}
		if !isOutput(e.Detail) {
			continue
		}
		outputs++
		if hasStr(e.Facts, "fail:query") {
			r.violate("a failed query is shown", e.Pos, e.Detail+" in "+e.Fn, "on a path on which the query's result holds an error")
		}
	}
	r.atLeast("query_evaluations", len(fc.sites), 1)
	r.atLeast("output_operations_examined", outputs, 6)
	r.cover("outside_calls_on_failed_paths", failed)
	in.finish(r)
}

// ---------------------------------------------------------------- C10

type lifeClient struct {
	failClient
	used map[string]bool
}

func isQueryCtor(name string) bool {
	return strings.HasPrefix(name, "(*"+resultPkg+".Engine).New") && strings.HasSuffix(name, "Query")
}

func (lc *lifeClient) Ext(in *Interp, fr *Frame, ps *PState, c *ExtCall) ([]Outcome, bool) {
	for _, a := range append(append([]*Val{}, c.Args...), c.Recv) {
		lc.use(in, fr, ps, a, c.Instr)
	}
	if c.Name == "("+resultPkg+".Query).Close" {
		ps.st = ps.st.withoutFact("open:query").clone()
	}
	return nil, false
}

// use: something of a query's result is looked at.
func (lc *lifeClient) use(in *Interp, fr *Frame, ps *PState, v *Val, i ssa.Instruction) {
	if v == nil {
		return
	}
	for _, l := range v.refs {
		if l.o.tag == successTag {
			lc.used[in.p.instrPos(i)] = true
			if !ps.st.has("open:query") {
				in.event(fr, ps, &Event{Kind: "stale", Loc: l}, i)
			}
		}
	}
}

func (lc *lifeClient) Instr(in *Interp, fr *Frame, ps *PState, i ssa.Instruction) {
	switch x := i.(type) {
	case *ssa.UnOp:
		lc.use(in, fr, ps, in.val(ps, x.X), i)
	case *ssa.Lookup:
		lc.use(in, fr, ps, in.val(ps, x.X), i)
	case *ssa.Range:
		lc.use(in, fr, ps, in.val(ps, x.X), i)
	}
}

func (lc *lifeClient) Post(in *Interp, fr *Frame, ps *PState, c *ExtCall, outs []Outcome) []Outcome {
	if c.Name == queryExec {
		lc.sites["Query.Exec@"+in.p.instrPos(c.Instr)] = true
		var res []Outcome
		for _, o := range outs {
			v := in.resultObj(o.st, c.Key, successTag, c.Sig.Results().At(0).Type(), o.res[0])
			o.st.own(v.refs[0].o)
			res = append(res, Outcome{o.st, []*Val{v}})
		}
		return res
	}
	if !isQueryCtor(c.Name) {
		return outs
	}
	var res []Outcome
	for _, o := range outs {
		ok := Outcome{o.st.withFacts("open:query").clone(), append([]*Val{}, o.res...)}
		v := ok.res[0].clone()
		v.nl = mayNonNil
		ok.res[0], ok.res[1] = v, nilVal
		fl := Outcome{o.st.clone(), []*Val{o.res[0], {nl: mayNonNil, b: 3}}}
		res = append(res, ok, fl)
		lc.sites[shortCallee(c.Name)+"@"+in.p.instrPos(c.Instr)] = true
	}
	return res
}

func (lc *lifeClient) Callback(in *Interp, before *State, fn *ssa.Function, o Outcome) *State {
	return o.st
}

func runC10(p *Program, r *Report) {
	lifetime := func(name string, run func(c Client) *Interp) {
		lc := &lifeClient{failClient{sites: map[string]bool{}}, map[string]bool{}}
		in := run(lc)
		if in == nil {
			return
		}
		exits := 0
		for _, e := range in.events {
			switch e.Kind {
			case "stale":
				r.violate("a result is used after its query was closed", e.Pos, e.Fn+" uses a query's result", "the query may be closed at this point")
			case "exit":
				exits++
				if hasStr(e.Facts, "open:query") {
					r.violate("a query isn't closed", e.Pos, e.Fn+" may return without closing its query", "")
				}
			}
		}
		// what keeps parts of results
		held := 0
		for _, o := range in.objList {
			if o.kind == objExt || o.tag == successTag {
				continue
			}
			outlives := o.kind == objGlobal || o.kind == objRoot || in.everPub[o]
			if !outlives {
				continue
			}
			for path, v := range in.heap[o] {
				held++
				for _, l := range allRefs(v) {
					if l.o.tag == successTag {
						where := "-"
						if o.site != nil {
							where = p.instrPos(o.site)
						}
						r.violate("a part of a result outlives its query", where, noPos(o.name)+path+" keeps a part of a query's result", fmt.Sprintf("it refers to %s", noPos(l.o.name)))
					}
				}
			}
		}
		r.atLeast("places_that_use_results_"+name, len(lc.used), 1)
		r.atLeast("query_operations_"+name, len(lc.sites), 2)
		r.atLeast("returns_examined_"+name, exits, 2)
		r.cover("long_lived_memory_examined_"+name, held)
		sub := &Report{Coverage: map[string]interface{}{}}
		in.finish(sub)
		for _, v := range sub.Violations {
			r.undecided(v.What, v.Detail)
		}
		r.cover(name, sub.Coverage)
	}
	lifetime("engine", func(c Client) *Interp { return dataHarness(p, r, c) })
	lifetime("program", func(c Client) *Interp { return appHarness(p, r, c) })
	r.assume("converting, formatting and hashing functions outside of the repository return copies, not parts, of numbers and strings")
}

func allRefs(v *Val) []Loc {
	var out []Loc
	var visit func(v *Val)
	visit = func(v *Val) {
		if v == nil {
			return
		}
		out = append(out, v.refs...)
		for _, f := range v.fields {
			visit(f)
		}
	}
	visit(v)
	return out
}
