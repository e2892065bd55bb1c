package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C03", Rule: "no two calls of the data engine's exported methods (with everything they reach: storage, postings, index, query evaluation) make conflicting accesses without a common lock; user code and the query engine are modelled as calling back everything they were handed", Run: runC03})
	register(&Check{ID: "C04", Rule: "lockset and happens-before analysis of all goroutines that the program, its widgets and the prompt library start: conflicting accesses are ordered by goroutine start or by a common lock", Run: runC04})
}

// exportedMethods lists the exported methods of *T.
func (p *Program) exportedMethods(t *types.Named) []*ssa.Function {
	var out []*ssa.Function
	ms := types.NewMethodSet(types.NewPointer(t))
	for i := 0; i < ms.Len(); i++ {
		f, ok := ms.At(i).Obj().(*types.Func)
		if !ok || !f.Exported() {
			continue
		}
		if fn := p.SSA.FuncValue(f); fn != nil && fn.Blocks != nil && len(ms.At(i).Index()) == 1 {
			out = append(out, fn)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name() < out[j].Name() })
	return out
}

// shareMethods starts a goroutine (any number of times) for each exported method of v.
func (in *Interp) shareMethods(t *types.Named, v *Val, added map[string]bool, skip func(name string) bool, post func(in *Interp, fr *Frame, name string, o Outcome)) {
	for _, fn := range in.p.exportedMethods(t) {
		name := t.Obj().Name() + "." + fn.Name()
		if added[name] || skip != nil && skip(fn.Name()) {
			continue
		}
		added[name] = true
		recv := v
		in.apiThread("setup", apiCall{name: name, fn: fn, recv: recv, post: func(in *Interp, fr *Frame, o Outcome) {
			if post != nil {
				post(in, fr, name, o)
			}
		}}, true)
		in.changed = true
	}
}

func namedOf(t types.Type) *types.Named {
	n, _ := deref(t).(*types.Named)
	return n
}

// dataHarness: one data engine, built by its constructor with an outside source, whose
// callback was set, shared by any number of goroutines.
func dataHarness(p *Program, r *Report, c Client) *Interp {
	ctor := p.fn("promq/prom", "NewPeriodicData")
	if ctor == nil {
		r.undecided("the data engine", "prom.NewPeriodicData is gone")
		return nil
	}
	in := newInterp(p, c)
	added := map[string]bool{}
	in.setupThread(func(fr *Frame) *State {
		st := emptyState()
		var args []*Val
		for i := 0; i < ctor.Signature.Params().Len(); i++ {
			args = append(args, in.outside(st, fmt.Sprintf("client:arg%d", i), ctor.Signature.Params().At(i).Type()))
		}
		st, res := in.callJoined(fr, ctor, args, st)
		if st == nil {
			return nil
		}
		t := namedOf(ctor.Signature.Results().At(0).Type())
		// the user sets the exported fields before sharing
		s := t.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			if f := s.Field(i); f.Exported() {
				for _, l := range res[0].refs {
					in.storeVal(st, Loc{l.o, l.p + "." + f.Name()}, in.outside(st, "client:"+f.Name(), f.Type()), f.Type())
				}
			}
		}
		in.publishAll(st, res...)
		in.shareMethods(t, res[0], added, nil, nil)
		return st
	})
	in.Solve()
	r.atLeast("methods", len(added), 3)
	return in
}

func runC03(p *Program, r *Report) {
	in := dataHarness(p, r, NoClient{})
	if in == nil {
		return
	}
	pairs := in.races(r, nil)
	r.atLeast("conflicting_pairs_examined", pairs, 10)
	in.finish(r)
}

// appHarness: the whole program, from the command's entry point.
func appHarness(p *Program, r *Report, c Client) *Interp { return modeHarness(p, r, c, nil) }

// modeHarness: the same with some flags fixed.
func modeHarness(p *Program, r *Report, c Client, flags map[string]bool) *Interp {
	run := p.namedMethod("cmd/metrics", "MetricsCommand", "Run")
	if run == nil {
		r.undecided("the command", "(*metrics.MetricsCommand).Run is gone")
		return nil
	}
	in := newInterp(p, c)
	set := 0
	in.Root("main", "the main goroutine", false, func(in *Interp, th *Thread) {
		in.runInit(th)
		fr := &Frame{th: th, ctx: "main"}
		st := emptyState()
		var args []*Val
		set = 0
		for i, pa := range run.Params {
			v := in.outside(st, fmt.Sprintf("main:arg%d", i), pa.Type())
			for f, on := range flags {
				if v.fields["."+f] == nil {
					continue
				}
				v = v.clone()
				fs := map[string]*Val{}
				for k, x := range v.fields {
					fs[k] = x
				}
				b := uint8(mayFalse)
				if on {
					b = mayTrue
				}
				fs["."+f] = &Val{nl: 3, b: b, cst: constant.MakeBool(on)}
				v.fields = fs
				set++
			}
			args = append(args, v)
		}
		for _, o := range in.call(fr, run, args, nil, st, nil) {
			in.event(fr, &PState{st: o.st}, &Event{Kind: "exit", Fn: fnName(run), Pos: p.position(run.Pos())}, nil)
		}
	})
	in.Solve()
	if set != len(flags) {
		r.undecided("the command's flags", fmt.Sprintf("%v can't be found", flags))
	}
	return in
}

func runC04(p *Program, r *Report) {
	in := appHarness(p, r, NoClient{})
	if in == nil {
		return
	}
	pairs := in.races(r, nil)
	r.atLeast("threads_found", len(in.threads), 4)
	r.atLeast("conflicting_pairs_examined", pairs, 10)
	in.finish(r)
}
