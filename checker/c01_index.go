package main

import (
	"fmt"
	"strings"
)

func init() {
	register(&Check{ID: "C01", Rule: "no two calls of the index's methods on one index, from different goroutines, make conflicting accesses without a common lock (lockset analysis over all pairs of methods, all paths, all callees)", Run: runC01})
	register(&Check{ID: "C02", Rule: "nothing reachable from a set that an index method returned is reachable by a later call on the index (escape analysis of the returned memory)", Run: runC02})
}

// indexHarness: one index, any number of goroutines in each of its methods.
func indexHarness(p *Program, r *Report, post func(in *Interp, fr *Frame, name string, o Outcome)) *Interp {
	ctor := p.fn("promq/prom", "NewIndex")
	it := p.lookupIface(modPath+"/promq/prom", "Indexer")
	if ctor == nil || it == nil {
		r.undecided("the index", "prom.NewIndex or prom.Indexer is gone")
		return nil
	}
	in := newInterp(p, NoClient{})
	in.k = 4
	var idx *Val
	added := map[string]bool{}
	in.setupThread(func(fr *Frame) *State {
		st, res := in.callJoined(fr, ctor, nil, emptyState())
		if st == nil {
			return nil
		}
		in.publishAll(st, res...)
		idx = joinVal(idx, res[0])
		for _, m := range ifaceMethods(it) {
			for _, l := range idx.refs {
				fn, rv := in.lookupMethod(st, l, m)
				if fn == nil {
					continue
				}
				name := fmt.Sprintf("%s#%d", m.Name(), l.o.id)
				if added[name] {
					continue
				}
				added[name] = true
				mname := m.Name()
				in.apiThread("setup", apiCall{name: name, fn: fn, recv: rv, post: func(in *Interp, fr *Frame, o Outcome) {
					if post != nil {
						post(in, fr, mname, o)
					}
				}}, true)
				in.changed = true
			}
		}
		return st
	})
	in.Solve()
	r.atLeast("methods", len(added), 4)
	return in
}

func runC01(p *Program, r *Report) {
	in := indexHarness(p, r, nil)
	if in == nil {
		return
	}
	pairs := in.races(r, nil)
	r.atLeast("conflicting_pairs_examined", pairs, 4)
	in.finish(r)
	r.assume("code outside of the repository that gets passed index memory only reads it, except for sort.* and reflection (modelled)")
}

func runC02(p *Program, r *Report) {
	n := 0
	in := indexHarness(p, r, func(in *Interp, fr *Frame, name string, o Outcome) {
		for _, v := range o.res {
			if len(v.refs) > 0 {
				n++
			}
			in.readDeep(fr, &PState{st: o.st}, v, true, true, nil, "client of "+name)
		}
	})
	if in == nil {
		return
	}
	for _, e := range in.events {
		if e.Kind == "write" && strings.HasPrefix(e.Detail, "client of ") {
			m := strings.TrimPrefix(e.Detail, "client of ")
			r.violate("shared memory returned", "-", "result of "+m+" aliases "+noPos(e.Loc.String()), "a caller that keeps or changes the result sees (or causes) later changes of the index; object "+e.Loc.String())
		}
	}
	r.atLeast("results_examined", n, 3)
	in.finish(r)
}
