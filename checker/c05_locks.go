package main

import (
	"fmt"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C05", Rule: "typestate and lock-order analysis of every lock in the repository: on every path through every entry point a lock is released exactly once after it's taken, isn't taken again by its holder, and the order in which locks are taken has no cycle", Run: runC05})
	register(&Check{ID: "C06", Rule: "effect analysis: no operation that waits for the network, for a query, for a timer, for user input or for another goroutine happens while a lock is held that the event loop or the prompt (transitively) waits for, and the event loop itself performs none", Run: runC06})
}

// usesLocks: the function calls a lock operation itself.
func usesLocks(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			c, ok := i.(ssa.CallInstruction)
			if !ok {
				continue
			}
			if f := c.Common().StaticCallee(); f != nil {
				if _, ok := lockOp(f.RelString(nil)); ok {
					return true
				}
			}
			if c.Common().IsInvoke() && c.Common().Method.FullName() == "(sync.Locker).Lock" {
				return true
			}
		}
	}
	return false
}

// rest runs functions that no other harness reached, each on its own.
func restHarness(p *Program, fns []*ssa.Function) *Interp {
	in := newInterp(p, NoClient{})
	in.Root("setup", "the set-up", false, func(in *Interp, th *Thread) { in.runInit(th) })
	for _, fn := range fns {
		fn := fn
		in.Root("fn:"+fn.String(), "a call of "+fnName(fn), false, func(in *Interp, th *Thread) {
			fr := &Frame{th: th, ctx: "fn:" + fn.String()}
			st := emptyState()
			var args []*Val
			for i, pa := range fn.Params {
				args = append(args, in.outside(st, fmt.Sprintf("fn:%s:%d", fn.String(), i), pa.Type()))
			}
			for _, o := range in.call(fr, fn, args, nil, st, nil) {
				in.event(fr, &PState{st: o.st}, &Event{Kind: "exit", Fn: fnName(fn), Pos: p.position(fn.Pos())}, nil)
			}
		})
	}
	in.Solve()
	return in
}

func runC05(p *Program, r *Report) {
	reached := map[*ssa.Function]bool{}
	locks := 0
	one := func(name string, in *Interp) {
		if in == nil {
			return
		}
		sub := &Report{Coverage: map[string]interface{}{}}
		locks += in.lockOrder(r)
		in.finish(sub)
		for _, v := range sub.Violations {
			r.undecided(v.What, v.Detail)
		}
		r.cover("harness_"+name, sub.Coverage)
		for f := range in.visited {
			reached[f] = true
		}
	}
	tmp := &Report{Coverage: map[string]interface{}{}}
	one("index", indexHarness(p, tmp, nil))
	one("data", dataHarness(p, tmp, NoClient{}))
	one("program", appHarness(p, tmp, NoClient{}))
	for _, v := range tmp.Violations {
		r.undecided(v.What, v.Detail)
	}
	var rest []*ssa.Function
	n := 0
	for _, f := range p.Funcs {
		if usesLocks(f) {
			n++
			if !reached[f] && f.Parent() == nil {
				rest = append(rest, f)
			}
		}
	}
	sort.Slice(rest, func(i, j int) bool { return rest[i].String() < rest[j].String() })
	in := restHarness(p, rest)
	one("others", in)
	for _, f := range p.Funcs {
		if usesLocks(f) && !reached[f] {
			r.undecided("lock use in "+fnName(f), "no entry point reaches it")
		}
	}
	r.atLeast("functions_that_lock", n, 30)
	r.atLeast("lock_acquisitions_examined", locks, 40)
	r.assume("code outside of the repository takes none of the repository's locks except through the methods and callbacks that it was handed")
}

func runC06(p *Program, r *Report) {
	in := appHarness(p, r, NoClient{})
	if in == nil {
		return
	}
	// who must stay responsive
	inter := map[string]string{}
	for _, e := range in.events {
		if e.Kind != "block" {
			continue
		}
		switch e.Detail {
		case "wait for a terminal event":
			inter[e.Thread] = "event loop"
		case "wait for user input":
			if inter[e.Thread] == "" {
				inter[e.Thread] = "prompt"
			}
		}
	}
	for id, th := range in.threads {
		if strings.HasPrefix(id, "promptreader@") || strings.Contains(th.name, "input goroutine") {
			inter[id] = "prompt input"
		}
	}
	loops := map[string]bool{}
	for _, k := range inter {
		loops[k] = true
	}
	if !loops["event loop"] || !loops["prompt"] {
		r.undecided("the interactive goroutines", fmt.Sprintf("found %v", inter))
		return
	}
	// locks they wait for, and what the holders of those wait for in turn
	need := map[Loc]string{}
	for _, e := range in.events {
		if e.Kind == "lock" && inter[e.Thread] != "" {
			need[e.Loc] = inter[e.Thread] + " takes it at " + e.Pos
		}
	}
	for ch := true; ch; {
		ch = false
		for _, e := range in.events {
			if e.Kind != "lock" {
				continue
			}
			for _, h := range e.Locks {
				if w, ok := need[h.loc]; ok && need[e.Loc] == "" && e.Loc != h.loc {
					need[e.Loc] = fmt.Sprintf("taken at %s while holding %s, and the %s", e.Pos, noPos(h.loc.String()), w)
					ch = true
				}
			}
		}
	}
	blocks := 0
	for _, e := range in.events {
		if e.Kind != "block" {
			continue
		}
		blocks++
		for _, h := range e.Locks {
			if w, ok := need[h.loc]; ok {
				r.violate("wait under an interactive lock", e.Pos, fmt.Sprintf("%s in %s while holding %s", e.Detail, e.Fn, noPos(h.loc.String())),
					fmt.Sprintf("lock taken at %s; %s", h.pos, w))
			}
		}
		if inter[e.Thread] == "event loop" && slowOp(e.Detail) {
			r.violate("the event loop waits", e.Pos, e.Detail+" in "+e.Fn+" on the event loop's goroutine", "the interface freezes meanwhile")
		}
	}
	r.atLeast("waiting_operations_examined", blocks, 10)
	r.atLeast("interactive_goroutines", len(inter), 2)
	r.atLeast("interactive_locks", len(need), 3)
	in.finish(r)
}

// slowOp: operations whose end somebody else determines.
func slowOp(d string) bool {
	switch d {
	case "wait for a terminal event", "select":
		return false
	}
	return true
}
