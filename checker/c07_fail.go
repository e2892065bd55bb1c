package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C07", Rule: "error-flow analysis: from every call of outside code that reports an error, and every failed query result, no path leads to a normal return of an exported operation without a (definitely non-nil) error, nor to a successful end of the command", Run: runC07})
}

const (
	queryExec  = "(github.com/prometheus/prometheus/promql.Query).Exec"
	resultPkg  = "github.com/prometheus/prometheus/promql"
	failedTag  = "failed-result"
	successTag = "successful-result"
)

// failClient forks every fallible outside call into its success and its failure.
type failClient struct {
	NoClient
	sites map[string]bool
	r     *Report
	// only: when set, tells which calls fork
	only func(c *ExtCall) bool
	// everywhere: fork in all goroutines
	everywhere bool
	// latest: a new query replaces the failure of an earlier one
	latest bool
}

// notAStep: outside calls whose error isn't a failed step of the work.
func notAStep(name string) bool {
	n := strings.TrimLeft(name, "(*")
	for _, p := range []string{"fmt.", "errors.", "github.com/pkg/errors.", "strings.", "bytes.", "log.", "context."} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	for _, s := range []string{".Close", ".PostEvent", ".Write", ".WriteString", ".Err", ".Error", ".Unwrap", ".Sync", ".Flush"} {
		if strings.HasSuffix(name, s) {
			return true
		}
	}
	return strings.HasPrefix(name, "io.Write") || strings.HasPrefix(name, "io.Fprint")
}

// endMarker: calls for which io.EOF only marks the regular end of the data.
func endMarker(name string) bool {
	for _, s := range []string{").Next", ").Read", ").Decode", ").ReadString", ").ReadBytes", ").ReadRune", ").ReadByte", ").Token"} {
		if strings.HasSuffix(name, s) {
			return true
		}
	}
	return false
}

func errorResult(sig *types.Signature) int {
	r := sig.Results()
	if r != nil && r.Len() > 0 && isErrorType(r.At(r.Len()-1).Type()) {
		return r.Len() - 1
	}
	return -1
}

func hasFail(st *State) string {
	for _, f := range st.facts {
		if strings.HasPrefix(f, "fail:") {
			return f[5:]
		}
	}
	return ""
}

func (fc *failClient) Ambient(in *Interp, l Loc, t types.Type) *Val {
	if l.o.kind == objExt && isErrorType(t) {
		if strings.HasSuffix(l.o.name, "io.EOF") {
			return &Val{nl: mayNonNil, b: 3, sym: "const:io.EOF"}
		}
		if l.p == ".Err" {
			switch l.o.tag {
			case failedTag:
				return &Val{nl: mayNonNil, b: 3, sym: "err:query"}
			case successTag:
				return nilVal
			}
		}
	}
	return nil
}

func (fc *failClient) Ext(in *Interp, fr *Frame, ps *PState, c *ExtCall) ([]Outcome, bool) {
	switch c.Name {
	case "errors.Is":
		if len(c.Args) == 2 && c.Args[1].sym == "const:io.EOF" && strings.HasPrefix(c.Args[0].sym, "err:") {
			return in.one(ps, &Val{nl: 3, b: 3, im: &implied{onTrue: []string{"-fail:" + c.Args[0].sym[4:]}}}), true
		}
	case "(*github.com/spf13/cobra.Command).Execute", "(*github.com/spf13/cobra.Command).ExecuteContext":
		return fc.cobra(in, fr, ps, c), true
	case "os.Exit":
		f := hasFail(ps.st)
		if f != "" && fc.r != nil {
			v := c.Args[0]
			if v.cst == nil || v.cst.ExactString() == "0" {
				in.event(fr, ps, &Event{Kind: "success", Detail: "os.Exit with a status that may be 0"}, c.Instr)
			}
		}
		return nil, true
	}
	return nil, false
}

// cobra: a command runs the hooks that it was given, in order, until one fails.
func (fc *failClient) cobra(in *Interp, fr *Frame, ps *PState, c *ExtCall) []Outcome {
	var cmds []Loc
	for _, l := range in.carriedAll(c.Args[0]) {
		if t := in.typeAt(l.o, l.p); t != nil && isCobraCommand(t) {
			cmds = append(cmds, l)
		}
	}
	n := 0
	var outs []Outcome
	// the command line may be wrong
	bad := ps.st.withFacts("fail:parsing the command line").clone()
	outs = append(outs, Outcome{bad, []*Val{{nl: mayNonNil, b: 3}}})
	for _, l := range cmds {
		cur := []Outcome{{ps.st.clone(), []*Val{nilVal}}}
		for _, hook := range []string{"PersistentPreRun", "PersistentPreRunE", "PreRun", "PreRunE", "Run", "RunE", "PostRun", "PostRunE", "PersistentPostRun", "PersistentPostRunE"} {
			fnv := in.heapAt(l.o, l.p+"."+hook)
			if fnv == nil || len(fnv.refs) == 0 {
				continue
			}
			var next []Outcome
			for _, o := range cur {
				if o.res[0].nl == mayNonNil {
					next = append(next, o)
					continue
				}
				for _, f := range fnv.refs {
					if f.o.fn == nil {
						continue
					}
					n++
					s := &PState{st: o.st.clone(), env: map[ssa.Value]*Val{}}
					var args []*Val
					sig := f.o.fn.Signature
					for i := 0; i < sig.Params().Len(); i++ {
						if i == 0 {
							args = append(args, refVal(l))
							continue
						}
						args = append(args, in.outside(s.st, fmt.Sprintf("cobra:%s:%d", c.Key, i), sig.Params().At(i).Type()))
					}
					for _, ro := range in.callFn(fr, s, f.o.fn, c.Instr, args, in.bindings(f.o), nil) {
						res := nilVal
						if len(ro.res) == 1 {
							res = ro.res[0]
						}
						for _, nl := range []uint8{mayNil, mayNonNil} {
							if res.nl&nl == 0 {
								continue
							}
							st := ro.st.clone()
							if res.im != nil {
								fs := res.im.onNil
								if nl == mayNonNil {
									fs = res.im.onNonNil
								}
								if st = in.applyFacts(st, fs); st == nil {
									continue
								}
							}
							next = append(next, Outcome{st, []*Val{{nl: nl, b: 3}}})
						}
					}
				}
			}
			cur = mergeOuts(next)
		}
		outs = append(outs, cur...)
	}
	if n == 0 {
		in.problem("the command's entry point can't be found")
	}
	return mergeOuts(outs)
}

func (fc *failClient) Post(in *Interp, fr *Frame, ps *PState, c *ExtCall, outs []Outcome) []Outcome {
	if !fr.th.root && !fc.everywhere {
		return outs // nobody waits for what other goroutines do
	}
	if c.Name == queryExec {
		return fc.exec(in, c, outs)
	}
	ei := errorResult(c.Sig)
	if ei < 0 || notAStep(c.Name) || fc.only != nil && !fc.only(c) {
		return outs
	}
	known := 0
	if strings.HasPrefix(c.Name, "(*"+resultPkg+".Result).") && len(c.Args) > 0 {
		for _, l := range c.Args[0].refs {
			if l.o.tag == failedTag {
				known |= 2
			} else {
				known |= 1
			}
		}
	}
	if c.Name == "(func value)" {
		// a callback is told about the failed query: it decides what to make of it
		for _, a := range c.Args {
			for _, l := range a.refs {
				if l.o.tag == failedTag {
					for i := range outs {
						outs[i].st = outs[i].st.withoutFact("fail:query").clone()
					}
				}
			}
		}
	}
	fact := shortCallee(c.Name) + "@" + in.p.instrPos(c.Instr)
	if fc.sites != nil {
		fc.sites[fact] = true
	}
	var res []Outcome
	for _, o := range outs {
		if len(o.res) <= ei {
			res = append(res, o)
			continue
		}
		if known != 2 {
			ok := Outcome{o.st.clone(), append([]*Val{}, o.res...)}
			ok.res[ei] = nilVal
			for i := 0; i < ei; i++ {
				t := c.Sig.Results().At(i).Type().Underlying()
				switch t.(type) {
				case *types.Pointer, *types.Interface:
					v := ok.res[i].clone()
					v.nl = mayNonNil
					ok.res[i] = v
				}
			}
			res = append(res, ok)
		}
		fl := Outcome{o.st.clone(), append([]*Val{}, o.res...)}
		fl.res[ei] = &Val{nl: mayNonNil, b: 3, sym: "err:" + fact}
		if known != 2 && hasFail(fl.st) == "" {
			fl.st = fl.st.withFacts("fail:" + fact).clone()
		}
		if !endMarker(c.Name) {
			fl.res[ei].sym = ""
		}
		res = append(res, fl)
	}
	return res
}

// exec: a query fails by returning a result that holds an error.
func (fc *failClient) exec(in *Interp, c *ExtCall, outs []Outcome) []Outcome {
	if fc.sites != nil {
		fc.sites["Query.Exec@"+in.p.instrPos(c.Instr)] = true
	}
	var res []Outcome
	for _, o := range outs {
		if len(o.res) == 0 {
			continue
		}
		if fc.latest {
			o.st = o.st.withoutFact("fail:query")
		}
		for _, tag := range []string{successTag, failedTag} {
			n := Outcome{o.st.clone(), []*Val{in.resultObj(o.st, c.Key, tag, c.Sig.Results().At(0).Type(), o.res[0])}}
			if tag == failedTag && hasFail(n.st) == "" {
				n.st = n.st.withFacts("fail:query").clone()
			}
			n.st.own(n.res[0].refs[0].o)
			res = append(res, n)
		}
	}
	return res
}

func (in *Interp) resultObj(st *State, key, tag string, t types.Type, from *Val) *Val {
	ro := in.obj(objExt, "result:"+tag+":"+key, tag, deref(t))
	ro.tag = tag
	if from != nil {
		in.heapJoin(ro, "$c", justRefs(from))
	}
	return &Val{refs: []Loc{{ro, ""}}, nl: mayNonNil, b: 3}
}

func shortCallee(name string) string {
	if i := strings.LastIndex(name, "/"); i >= 0 {
		name = name[i+1:]
	}
	return strings.Trim(name, "()*")
}

// Callback: an error that the repository's code returns to outside code is reported.
func (fc *failClient) Callback(in *Interp, before *State, fn *ssa.Function, o Outcome) *State {
	ei := errorResult(fn.Signature)
	if ei >= 0 && ei < len(o.res) && o.res[ei].nl == mayNonNil && hasFail(before) == "" {
		st := o.st.clone()
		var keep []string
		for _, f := range st.facts {
			if !strings.HasPrefix(f, "fail:") {
				keep = append(keep, f)
			}
		}
		st.facts = keep
		return st
	}
	return o.st
}

func runC07(p *Program, r *Report) {
	fc := &failClient{sites: map[string]bool{}, r: r}
	in := newInterp(p, fc)
	main := p.fn("", "main")
	if main == nil {
		r.undecided("the program", "main.main is gone")
		return
	}
	in.Root("main", "the program", false, func(in *Interp, th *Thread) {
		in.runInit(th)
		fr := &Frame{th: th, ctx: "main"}
		for _, o := range in.call(fr, main, nil, nil, emptyState(), nil) {
			in.event(fr, &PState{st: o.st}, &Event{Kind: "exit", Fn: "main", Pos: p.position(main.Pos())}, nil)
		}
	})
	in.Solve()
	for _, e := range in.events {
		if e.Kind == "success" && e.Thread == "main" {
			r.violate("a failure ends as success", e.Pos, e.Detail+" in "+e.Fn, "after "+failIn(e.Facts))
		}
		if e.Kind == "exit" && e.Thread == "main" {
			if f := failIn(e.Facts); f != "" {
				r.violate("a failure ends as success", e.Pos, "main returns normally", "after the failure of "+f)
			}
		}
	}
	if len(in.events) == 0 || !in.visited[main] {
		r.undecided("main", "not analysed")
	}
	r.cover("fallible_calls_from_main", len(fc.sites))
	in.finish(r)

	// every exported operation that reports errors
	var fns []*ssa.Function
	for _, f := range p.Funcs {
		if f.Parent() != nil || f.Blocks == nil || f.Synthetic != "" || errorResult(f.Signature) < 0 {
			continue
		}
		o, ok := f.Object().(*types.Func)
		if !ok || !o.Exported() {
			continue
		}
		fns = append(fns, f)
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	fc2 := &failClient{sites: map[string]bool{}}
	in2 := newInterp(p, fc2)
	in2.Root("setup", "the set-up", false, func(in *Interp, th *Thread) { in.runInit(th) })
	var names []string
	for _, fn := range fns {
		fn := fn
		names = append(names, fnName(fn))
		in2.Root("fn:"+fn.String(), "a call of "+fnName(fn), false, func(in *Interp, th *Thread) {
			fr := &Frame{th: th, ctx: "fn:" + fn.String()}
			base := emptyState()
			variants := []string{""}
			args := make([]*Val, len(fn.Params))
			ri := -1
			for i, pa := range fn.Params {
				args[i] = in.outside(base, fmt.Sprintf("fn:%s:%d", fn.String(), i), pa.Type())
				if n := namedOf(pa.Type()); n != nil && n.Obj().Name() == "Result" && n.Obj().Pkg().Path() == resultPkg {
					ri = i
					variants = []string{successTag, failedTag}
				}
			}
			for _, v := range variants {
				st := base.clone()
				as := append([]*Val{}, args...)
				if v != "" {
					as[ri] = in.resultObj(st, "arg:"+fn.String(), v, fn.Params[ri].Type(), nil)
					if v == failedTag {
						st = st.withFacts("fail:query").clone()
					}
				}
				for _, o := range in.call(fr, fn, as, nil, st, nil) {
					in.event(fr, &PState{st: o.st}, &Event{Kind: "exit", Fn: fnName(fn), Pos: p.position(fn.Pos()), Vals: o.res}, nil)
				}
			}
		})
	}
	in2.Solve()
	exits := 0
	for _, e := range in2.events {
		if e.Kind != "exit" || !strings.HasPrefix(e.Thread, "fn:") || len(e.Vals) == 0 {
			continue
		}
		exits++
		if f := failIn(e.Facts); f != "" && e.Vals[len(e.Vals)-1].nl&mayNil != 0 {
			r.violate("a failure is returned as success", e.Pos, e.Fn+" may return no error", "after the failure of "+f)
		}
	}
	sub := &Report{Coverage: map[string]interface{}{}}
	in2.finish(sub)
	for _, v := range sub.Violations {
		r.undecided(v.What, v.Detail)
	}
	r.cover("operations", names)
	r.atLeast("operations_that_report_errors", len(fns), 15)
	r.atLeast("fallible_calls", len(fc2.sites), 12)
	r.atLeast("returns_examined", exits, 30)
	r.assume("closing, flushing and writing output, wrapping errors, and posting screen events don't count as failing steps; io.EOF from an iterator marks its regular end")
}

func failIn(facts []string) string {
	for _, f := range facts {
		if strings.HasPrefix(f, "fail:") {
			return f[5:]
		}
	}
	return ""
}
