package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- who runs concurrently

func (in *Interp) chain(id string) []string {
	var out []string
	for t := in.threads[id]; t != nil; t = in.threads[t.parent] {
		out = append([]string{t.id}, out...)
		if t.parent == "" {
			break
		}
	}
	return out
}

// concurrent tells whether two events may happen at the same time.
func (in *Interp) concurrent(a, b *Event) bool {
	if a.Thread == b.Thread {
		return in.threads[a.Thread].multi
	}
	ca, cb := in.chain(a.Thread), in.chain(b.Thread)
	i := 0
	for i < len(ca) && i < len(cb) && ca[i] == cb[i] {
		if in.threads[ca[i]].multi {
			return true
		}
		i++
	}
	switch {
	case i == len(ca): // a's thread is an ancestor of b's
		return hasStr(a.Start, cb[i])
	case i == len(cb):
		return hasStr(b.Start, ca[i])
	}
	return true
}

// overlap: one location contains the other.
func overlap(a, b Loc) bool {
	if a.o != b.o {
		return false
	}
	if len(a.p) > len(b.p) {
		a, b = b, a
	}
	if !strings.HasPrefix(b.p, a.p) {
		return false
	}
	rest := b.p[len(a.p):]
	return rest == "" || rest[0] == '.' || rest[0] == '['
}

// guarded: both hold a common lock, strongly enough.
func guarded(a, b *Event) bool {
	for _, x := range a.Locks {
		for _, y := range b.Locks {
			if x.ambig || y.ambig || x.loc != y.loc {
				continue
			}
			if x.loc.o.kind == objExt {
				continue
			}
			// one of them excludes the other
			if x.write || y.write {
				if a.Kind == "write" && !x.write || b.Kind == "write" && !y.write {
					// a write under a read lock is excluded by the other's write lock
					if !(x.write || y.write) {
						continue
					}
				}
				return true
			}
		}
	}
	return false
}

// raceSummary finds unordered conflicting accesses.
func (in *Interp) races(r *Report, want func(l Loc) bool) (pairs int) {
	byObj := map[*Obj][]*Event{}
	for _, e := range in.events {
		if (e.Kind == "read" || e.Kind == "write") && !e.Atomic && (want == nil || want(e.Loc)) {
			byObj[e.Loc.o] = append(byObj[e.Loc.o], e)
		}
	}
	var objs []*Obj
	for o := range byObj {
		objs = append(objs, o)
	}
	sort.Slice(objs, func(i, j int) bool { return objs[i].id < objs[j].id })
	for _, o := range objs {
		es := byObj[o]
		for i, a := range es {
			if a.Kind != "write" {
				continue
			}
			for j, b := range es {
				if b.Kind == "write" && j < i {
					continue
				}
				if !overlap(a.Loc, b.Loc) || !in.concurrent(a, b) {
					continue
				}
				pairs++
				if guarded(a, b) {
					continue
				}
				r.violate("data race", a.Pos, fmt.Sprintf("%s in %s / %s in %s on %s%s", a.Kind, a.Fn, b.Kind, b.Fn, noPos(a.Loc.o.name), a.Loc.p),
					fmt.Sprintf("%s (%s) of %s by %s, holding %v\nunordered with\n%s: %s (%s) of %s by %s, holding %v", a.Kind, a.Detail, a.Loc, in.threads[a.Thread].name, heldSet(a.Locks),
						b.Pos, b.Kind, b.Detail, b.Loc, in.threads[b.Thread].name, heldSet(b.Locks)))
			}
		}
	}
	return pairs
}

func noPos(s string) string {
	if i := strings.Index(s, "@"); i >= 0 {
		return s[:i] + ")"
	}
	return s
}

// lockOrder looks for deadlocks: locks that never get released, locks taken again while held,
// and cycles in the order in which locks are taken.
func (in *Interp) lockOrder(r *Report) (nlock int) {
	type edge struct{ a, b Loc }
	edges := map[edge]*Event{}
	for _, e := range in.events {
		switch e.Kind {
		case "exit":
			for _, h := range e.Locks {
				r.violate("lock not released", h.pos, "lock "+noPos(h.loc.String())+" still held at the end of "+e.Fn, fmt.Sprintf("taken at %s", h.pos))
			}
		case "relock":
			r.violate("lock taken twice", e.Pos, "lock "+noPos(e.Loc.String())+" taken in "+e.Fn+" while already held", "already taken at "+e.Detail)
		case "badunlock":
			r.violate("unlock of a free lock", e.Pos, "unlock of "+noPos(e.Loc.String())+" in "+e.Fn, "the lock isn't held (in this mode) on some path")
		case "lock":
			nlock++
			for _, h := range e.Locks {
				if h.loc != e.Loc {
					edges[edge{h.loc, e.Loc}] = e
				}
			}
		}
	}
	// a lock is only part of a deadlock if there are two threads (or more) involved
	succ := map[Loc]map[Loc]bool{}
	for e := range edges {
		if succ[e.a] == nil {
			succ[e.a] = map[Loc]bool{}
		}
		succ[e.a][e.b] = true
	}
	for e, ev := range edges {
		seen := map[Loc]bool{}
		var reach func(x Loc) bool
		reach = func(x Loc) bool {
			if x == e.a {
				return true
			}
			if seen[x] {
				return false
			}
			seen[x] = true
			for y := range succ[x] {
				if reach(y) {
					return true
				}
			}
			return false
		}
		if reach(e.b) {
			r.violate("lock order cycle", ev.Pos, fmt.Sprintf("%s taken in %s while holding %s", noPos(e.b.String()), ev.Fn, noPos(e.a.String())),
				"elsewhere the locks are taken the other way round")
		}
	}
	return nlock
}

// ---------------------------------------------------------------- harnesses

// api is a thread that calls a method on shared values, as often as it likes.
type apiCall struct {
	name string
	fn   *ssa.Function
	recv *Val
	args []*Val // nil entries: values from outside
	post func(in *Interp, fr *Frame, o Outcome)
}

// apiThread adds a root thread that performs the call.
func (in *Interp) apiThread(parent string, c apiCall, multi bool) string {
	id := "api:" + c.name
	th := &Thread{id: id, name: "a goroutine calling " + c.name, parent: parent, multi: multi, root: true}
	th.run = func(in *Interp, th *Thread) {
		fr := &Frame{th: th, ctx: "api:" + c.name, fn: c.fn}
		ps := &PState{st: emptyState(), env: map[ssa.Value]*Val{}}
		var args []*Val
		sig := c.fn.Signature
		if c.recv != nil {
			args = append(args, c.recv)
		}
		for i := 0; i < sig.Params().Len(); i++ {
			if i < len(c.args) && c.args[i] != nil {
				args = append(args, c.args[i])
				continue
			}
			args = append(args, in.outside(ps.st, fmt.Sprintf("%s:arg%d", id, i), sig.Params().At(i).Type()))
		}
		for _, o := range in.call(fr, c.fn, args, nil, ps.st, nil) {
			in.event(fr, &PState{st: o.st}, &Event{Kind: "exit", Fn: c.name, Pos: in.p.position(c.fn.Pos()), Vals: o.res}, nil)
			if c.post != nil {
				c.post(in, fr, o)
			}
		}
	}
	in.threads[id] = th
	in.order = append(in.order, id)
	return id
}

// setup runs the constructor once, before everything else.
func (in *Interp) setupThread(run func(fr *Frame) *State) {
	in.Root("setup", "the set-up", false, func(in *Interp, th *Thread) {
		in.runInit(th)
		fr := &Frame{th: th, ctx: "setup"}
		run(fr)
	})
}

// callJoined calls a function and joins its results.
func (in *Interp) callJoined(fr *Frame, fn *ssa.Function, args []*Val, st *State) (*State, []*Val) {
	outs := in.call(fr, fn, args, nil, st, nil)
	var s *State
	var res []*Val
	for i, o := range outs {
		if i == 0 {
			s, res = o.st, o.res
			continue
		}
		s = joinState(s, o.st)
		nr := make([]*Val, len(res))
		for j := range res {
			nr[j] = joinVal(res[j], o.res[j])
		}
		res = nr
	}
	return s, res
}

func (in *Interp) publishAll(st *State, vs ...*Val) {
	for _, v := range vs {
		in.publish(st, v)
	}
}

// ---------------------------------------------------------------- shared bits

func (in *Interp) finish(r *Report) {
	for _, p := range in.problems {
		r.undecided(p, "the abstract interpreter gave up")
	}
	add := func(name string, k int) {
		old, _ := r.Coverage[name].(int)
		r.cover(name, old+k)
	}
	add("rounds", in.rounds)
	add("functions_analysed", len(in.visited))
	add("calls_interpreted", in.calls)
	add("abstract_objects", len(in.objList))
	add("threads", len(in.threads))
	n, _ := r.Coverage["events"].(map[string]int)
	if n == nil {
		n = map[string]int{}
	}
	for _, e := range in.events {
		n[e.Kind]++
	}
	r.cover("events", n)
	if dumpFilter != "" {
		for _, e := range in.events {
			l := "-"
			if e.Loc.o != nil {
				l = e.Loc.String() + "#" + fmt.Sprint(e.Loc.o.id) + " " + e.Loc.o.ctx
			}
			s := fmt.Sprintf("%s %s %s %s %s locks=%v facts=%v start=%d", e.Kind, e.Pos, e.Fn, e.Detail, l, heldSet(e.Locks), e.Facts, len(e.Start))
			if strings.HasPrefix(s, dumpFilter) || dumpFilter == "all" {
				fmt.Println(s, "["+in.threads[e.Thread].name+"]")
			}
		}
	}
}

func ifaceMethods(it *types.Interface) []*types.Func {
	var out []*types.Func
	for i := 0; i < it.NumMethods(); i++ {
		out = append(out, it.Method(i))
	}
	return out
}
