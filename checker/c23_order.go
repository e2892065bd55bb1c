package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func runC23(p *Program, r *Report) {
	x := &selRun{p: p, r: r, fns: map[*ssa.Function]bool{}, others: map[string]bool{}, arr: selData}
	if !x.storageOf() {
		return
	}
	for _, points := range []int{1, 2} {
		x.storing(points)
	}
	x.expiring()
	r.atLeast("paths", x.paths, 8)
	r.atLeast("functions", len(x.fns), 4)
	r.cover("steps", x.steps)
	r.assume("a sample's time is a number of milliseconds in an int64", "sort.Search finds the first index from which on the condition holds, if it is false before one index and true from there on")
}

// searched is a search among a series' samples by their time.
type searched struct {
	k, n, base tm
	late       bool // for the first that is later, otherwise for the first that isn't earlier
}

// searches lists the searches on the path for a place among the samples in time order.
func (x *selRun) searches(st *nstate, when string, ts int) []searched {
	var out []searched
	for m, v := range st.mem {
		if !strings.HasPrefix(m, "search:") {
			continue
		}
		c := v.parts[1].id
		late := !strings.HasPrefix(c, "!")
		ps := splitKey(strings.TrimPrefix(c, "!"))
		if len(ps) != 2 || !strings.HasPrefix(strings.TrimPrefix(c, "!"), "lt(") {
			continue
		}
		if late {
			ps[0], ps[1] = ps[1], ps[0]
		}
		// !lt(sample, when) or lt(when, sample)
		i, ok := x.sampleIndex(ps[0], ts)
		if !ok || ps[1] != when {
			continue
		}
		base := addTm(i, tmSym("·"), -1)
		if hasSym(base, "·") {
			continue
		}
		out = append(out, searched{tmSym(strings.TrimPrefix(m, "search:")), v.parts[0], base, late})
	}
	return out
}

func hasSym(v tm, s string) bool {
	for _, p := range v.parts {
		if p.id == s {
			return true
		}
	}
	return false
}

// sampleIndex gives the index of the sample whose time it is.
func (x *selRun) sampleIndex(k string, ts int) (tm, bool) {
	k, ok := strings.CutPrefix(k, x.arr+"[")
	if !ok {
		return tm{}, false
	}
	i, f, ok := strings.Cut(k, "]")
	if !ok || f != "."+tmInt(int64(ts)).key() {
		return tm{}, false
	}
	return parseLin(i)
}

// notLater: the sample at the index isn't later; strictly: it is earlier.
func (x *selRun) notLater(st *nstate, i tm, when string, ts int, strictly bool) bool {
	for f, yes := range st.facts {
		ps := splitKey(f)
		if len(ps) != 2 || !strings.HasPrefix(f, "lt(") {
			continue
		}
		if j, ok := x.sampleIndex(ps[0], ts); ok && ps[1] == when && yes && st.atLeast(j, i) {
			return true
		}
		if j, ok := x.sampleIndex(ps[1], ts); ok && ps[0] == when && !yes && !strictly && st.atLeast(j, i) {
			return true
		}
	}
	for _, s := range x.searches(st, when, ts) {
		if (!s.late || !strictly) && st.atLeast(addTm(addTm(s.base, s.k, 1), tmInt(1), -1), i) && (s.base.key() == "0" || st.atLeast(i, s.base)) {
			return true
		}
	}
	return false
}

// notEarlier: the sample at the index isn't earlier.
func (x *selRun) notEarlier(st *nstate, i tm, when string, ts int) bool {
	for f, yes := range st.facts {
		ps := splitKey(f)
		if len(ps) != 2 || !strings.HasPrefix(f, "lt(") {
			continue
		}
		if j, ok := x.sampleIndex(ps[0], ts); ok && ps[1] == when && !yes && st.atLeast(i, j) {
			return true
		}
		if j, ok := x.sampleIndex(ps[1], ts); ok && ps[0] == when && yes && st.atLeast(i, j) {
			return true
		}
	}
	for _, s := range x.searches(st, when, ts) {
		end := addTm(s.base, s.n, 1)
		if st.atLeast(i, addTm(s.base, s.k, 1)) && st.atLeast(addTm(end, tmInt(1), -1), i) {
			return true
		}
	}
	return false
}

// storing: after adding a sample the series has all it had before and the new one, in time order. The second sample
// of a batch finds a series that is arbitrary again.
func (x *selRun) storing(points int) {
	load := x.loader()
	st, ok := x.seqState("label")
	if load == nil || !ok {
		return
	}
	run, ok := x.loading(load, st, points)
	if !ok {
		return
	}
	run.seqs = true
	run.skip = func(g *ssa.Function) bool { return !x.touches(g) }
	f, _ := x.samples()
	data, size, point := selData, symLen, "@p."
	defer func() { x.arr = selData }()
	if points > 1 {
		data, size, point = "@data1", tmSym("@n1"), pointName(1)+"."
		x.arr = data
		second := st.lists["@points"].items[1].key()
		run.begin = func(s *nstate, coll, e tm) {
			if coll.id == "@points" && e.key() == second {
				s.mem["≥:n1"] = addTm(size, tmInt(0), 1)
				s.mem["@series."+f] = newSeq(s, data, size)
			}
		}
	}
	ts, val, _ := sampleFields(x.sampleType())
	pt := load.Params[1].Type().Underlying().(*types.Slice).Elem().Underlying().(*types.Struct)
	when, what := "", ""
	for i := 0; i < pt.NumFields(); i++ {
		if b, ok := pt.Field(i).Type().Underlying().(*types.Basic); ok {
			switch b.Kind() {
			case types.Int64:
				when = point + pt.Field(i).Name()
			case types.Float64:
				what = point + pt.Field(i).Name()
			}
		}
	}
	pos, where := x.p.position(load.Pos()), fnName(load)
	added, made := 0, 0
	for _, o := range x.call(run, load, []tm{x.self, {k: "list", id: "@points"}}, st) {
		if _, begun := o.st.mem["≥:n1"]; points > 1 && !begun || !o.st.possible() {
			continue
		}
		isNew := func(e tm) bool {
			return run.field(e, ts, nil).key() == when && run.field(e, val, nil).key() == what
		}
		// a new series
		for _, e := range run.lookup(o.st, tm{k: "map", id: x.data}, tmSym("@next")) {
			if !e.in || points > 1 || len(o.res) == 1 && o.res[0].k != "nil" {
				continue
			}
			made++
			v := e.st.mem[e.v.id+"."+f]
			var l *nlist
			if v.k == "list" {
				l = e.st.lists[v.id]
			}
			if l == nil || l.open || l.rest || len(l.maybe) > 0 || len(l.items) != 1 || !isNew(l.items[0]) {
				x.r.violate("not its samples", pos, where, "a new series doesn't have just the sample it was made for: "+v.key()+" "+e.v.key())
			}
		}
		c, ok := x.after(o.st, f, where)
		if !ok {
			return
		}
		var rest []tm
		n, at := 0, 0
		for i, g := range c {
			if g.k == "elem" {
				n, at = n+1, i
				if !isNew(g.parts[0]) {
					x.r.violate("not its samples", pos, where, "on some path a series gets a sample with another time or value")
				}
				continue
			}
			rest = append(rest, g)
		}
		rest = o.st.joined(rest)
		if len(rest) > 1 || len(rest) == 1 && rest[0].key() != tmSeg(data, tmInt(0), size).key() || len(rest) == 0 && !o.st.atLeast(tmInt(0), size) {
			x.r.violate("not its samples", pos, where, "on some path a series doesn't keep its samples in their order when another one is added: they are "+segStr(c))
			continue
		}
		its := false
		for f, yes := range o.st.facts {
			ps := splitKey(f)
			its = its || yes && strings.HasPrefix(f, "eq(") && len(ps) == 2 && (ps[0] == symRef.key() || ps[1] == symRef.key())
		}
		if n > 1 || n == 0 && its && points == 1 {
			x.r.violate("not its samples", pos, where, "on some path a sample isn't added exactly once")
		}
		if n != 1 {
			continue
		}
		added++
		if len(o.res) == 1 && o.res[0].k != "nil" {
			continue
		}
		if at > 0 && !x.notLater(o.st, addTm(c[at-1].parts[1], tmInt(1), -1), when, ts, false) {
			x.r.violate("out of order", pos, where, "on some path a sample is put after one that may be later")
		}
		if at < len(c)-1 && !x.notEarlier(o.st, c[at+1].parts[0], when, ts) {
			x.r.violate("out of order", pos, where, "on some path a sample is put before one that may be earlier")
		}
	}
	if (added == 0 || made == 0 && points == 1) && !x.stop {
		x.r.undecided(where, "no path adds a sample to a series, or to a new one")
	}
}

// after gives what a series' samples are.
func (x *selRun) after(st *nstate, f, where string) ([]tm, bool) {
	v := st.mem["@series."+f]
	ok := v.k == "seq" || v.k == "nil"
	var c []tm
	if ok {
		c, ok = st.content(v)
	}
	if !ok {
		x.r.undecided(where, "what a series' samples are then isn't known: "+v.key())
		return nil, false
	}
	return c, true
}

func segStr(segs []tm) string {
	var out []string
	for _, g := range segs {
		s := "the new one"
		if g.k == "seg" {
			s = "those from " + g.parts[0].key() + " to " + g.parts[1].key()
		}
		out = append(out, s)
	}
	return strings.Join(out, ", ")
}

// expiring: what is older than a time is dropped, and nothing else; only a series without samples is forgotten.
func (x *selRun) expiring() {
	ms := x.p.SSA.MethodSets.MethodSet(x.typ)
	n := 0
	for i := 0; i < ms.Len(); i++ {
		m := x.p.method(x.typ, ms.At(i).Obj().Name())
		if m == nil || m.Blocks == nil || len(m.Params) != 2 {
			continue
		}
		if b, ok := m.Params[1].Type().Underlying().(*types.Basic); ok && b.Kind() == types.Int64 {
			n++
			x.expiry(m)
		}
	}
	x.r.cover("ways of expiry", n)
}

func (x *selRun) expiry(fn *ssa.Function) {
	st, ok := x.seqState("label")
	if !ok {
		return
	}
	run := x.newRun(false)
	run.seqs = true
	load := run.ext
	run.ext = func(r *nrun, st *nstate, name string, sig *types.Signature, args []tm, at string) ([]nout, bool) {
		switch name {
		case "(" + labelsPkg + ".Labels).Hash":
			return []nout{{st, []tm{app("hash", args[0])}}}, true
		case labelsPkg + ".Equal":
			return []nout{{st, []tm{app("equal", args...)}}}, true
		}
		return load(r, st, name, sig, args, at)
	}
	run.skip = func(g *ssa.Function) bool { return !x.touches(g) }
	f, _ := x.samples()
	ts, _, _ := sampleFields(x.sampleType())
	const when = "@older"
	pos, where := x.p.position(fn.Pos()), fnName(fn)
	paths := 0
	for _, o := range x.call(run, fn, []tm{x.self, tmSym(when)}, st) {
		if !o.st.possible() {
			continue
		}
		for _, e := range run.lookup(o.st, tm{k: "map", id: x.data}, symRef) {
			paths++
			s := e.st
			if !e.in {
				if !s.atLeast(tmInt(0), symLen) && !x.notLater(s, addTm(symLen, tmInt(1), -1), when, ts, true) {
					x.r.violate("forgotten", pos, where, "on some path a series is forgotten although it may have a sample that isn't older")
				}
				continue
			}
			c, ok := x.after(s, f, where)
			if !ok {
				return
			}
			if len(c) > 1 || len(c) == 1 && (c[0].k != "seg" || c[0].id != selData || addTm(c[0].parts[1], symLen, -1).key() != "0") {
				x.r.violate("not its samples", pos, where, "on some path a series doesn't keep its last samples: they are "+segStr(c))
				continue
			}
			from := symLen
			if len(c) == 1 {
				from = c[0].parts[0]
			}
			if !s.atLeast(tmInt(0), from) && !x.notLater(s, addTm(from, tmInt(1), -1), when, ts, true) {
				x.r.violate("dropped", pos, where, "on some path a sample is dropped although it may not be older")
			}
			if !s.atLeast(from, symLen) && !x.notEarlier(s, from, when, ts) {
				x.r.violate("kept", pos, where, "on some path a sample is kept although it may be older")
			}
		}
	}
	if paths == 0 && !x.stop {
		x.r.undecided(where, "no path was found")
	}
}

// touches: the function, or what it calls, reads or changes a series or the map of series.
func (x *selRun) touches(fn *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	data := x.dataType()
	isIt := func(t types.Type) bool {
		t = deref(t)
		if types.Identical(t, x.seriesType()) || types.Identical(t, x.sampleType()) || types.Identical(t, deref(x.typ)) || types.Identical(t, data) {
			return true
		}
		_, iface := t.Underlying().(*types.Interface)
		return iface
	}
	var walk func(fn *ssa.Function) bool
	walk = func(fn *ssa.Function) bool {
		if seen[fn] {
			return false
		}
		seen[fn] = true
		for _, v := range append(fn.Params, []*ssa.Parameter{}...) {
			if isIt(v.Type()) {
				return true
			}
			if _, ok := v.Type().Underlying().(*types.Signature); ok {
				return true
			}
		}
		for _, v := range fn.FreeVars {
			if isIt(v.Type()) {
				return true
			}
		}
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				if v, ok := i.(ssa.Value); ok && isIt(v.Type()) {
					return true
				}
				switch i := i.(type) {
				case *ssa.MapUpdate:
					if t, ok := i.Map.Type().Underlying().(*types.Map); ok && isInteger(t.Key()) {
						return true
					}
				case ssa.CallInstruction:
					if i.Common().IsInvoke() {
						return true
					}
					if b, ok := i.Common().Value.(*ssa.Builtin); ok {
						if t, isMap := i.Common().Args[0].Type().Underlying().(*types.Map); isMap && b.Name() != "len" && isInteger(t.Key()) {
							return true
						}
						continue
					}
					g := i.Common().StaticCallee()
					if g == nil || x.p.isRepo[g.Pkg] && walk(g) {
						return true
					}
				case *ssa.MakeClosure:
					if walk(i.Fn.(*ssa.Function)) {
						return true
					}
				}
			}
		}
		return false
	}
	return walk(fn)
}

// dataType is the type of the map of series.
func (x *selRun) dataType() types.Type {
	s := deref(x.typ).Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if v := x.base.mem[fmt.Sprintf("%s.%d", x.self.id, i)]; v.k == "map" && v.id == x.data {
			return s.Field(i).Type()
		}
	}
	return types.NewStruct(nil, nil)
}
