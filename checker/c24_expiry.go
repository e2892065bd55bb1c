package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C24", Rule: "per-element abstract interpretation of expiry: for an arbitrary stored series among any others, with any number of samples, listed under all its labels and known by its label set, all paths through expiry are followed; if the series is kept it is still listed everywhere and known, and otherwise it's listed nowhere and unknown", Run: runC24})
}

func runC24(p *Program, r *Report) {
	x := &selRun{p: p, r: r, fns: map[*ssa.Function]bool{}, others: map[string]bool{}, arr: selData}
	if !x.storageOf() {
		return
	}
	x.forgetting()
	r.atLeast("paths", x.paths, 4)
	r.atLeast("functions", len(x.fns), 3)
	r.cover("steps", x.steps)
}

// known finds the map of what series are known by the hash of their labels; it gives the addresses of the reference's
// number and labels in an entry.
func (x *selRun) known(st *nstate) (m string, num, lset int, elem types.Type) {
	s := deref(x.typ).Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		t, ok := s.Field(i).Type().Underlying().(*types.Map)
		if !ok || !isInteger(t.Key()) {
			continue
		}
		l, ok := t.Elem().Underlying().(*types.Slice)
		if !ok {
			continue
		}
		e, ok := deref(l.Elem()).Underlying().(*types.Struct)
		if !ok {
			continue
		}
		num, lset = -1, -1
		for j := 0; j < e.NumFields(); j++ {
			if isInteger(e.Field(j).Type()) {
				num = j
			}
			if isNamed(e.Field(j).Type(), labelsPkg, "Labels") {
				lset = j
			}
		}
		if v := st.mem[fmt.Sprintf("%s.%d", x.self.id, i)]; v.k == "map" && num >= 0 && lset >= 0 {
			return v.id, num, lset, l.Elem()
		}
	}
	return "", 0, 0, nil
}

func (x *selRun) forgetting() {
	ms := x.p.SSA.MethodSets.MethodSet(x.typ)
	n := 0
	for i := 0; i < ms.Len(); i++ {
		m := x.p.method(x.typ, ms.At(i).Obj().Name())
		if m == nil || m.Blocks == nil || len(m.Params) != 2 {
			continue
		}
		if b, ok := m.Params[1].Type().Underlying().(*types.Basic); ok && b.Kind() == types.Int64 {
			n++
			x.forgets(m)
		}
	}
	x.r.cover("ways of expiry", n)
}

func (x *selRun) forgets(fn *ssa.Function) {
	st, ok := x.seqState("label")
	if !ok {
		return
	}
	where := fnName(fn)
	by, num, lset, elem := x.known(st)
	lf := -1
	ss := x.seriesType().Underlying().(*types.Struct)
	for i := 0; i < ss.NumFields(); i++ {
		if isNamed(ss.Field(i).Type(), labelsPkg, "Labels") {
			lf = i
		}
	}
	if by == "" || lf < 0 {
		x.r.undecided("the storage", "what series are known by their labels, or a series' labels, weren't found")
		return
	}
	lbls := tmSym(fmt.Sprintf("@series.%d", lf))
	hash := app("hash", lbls)
	var ref tm
	if _, ok := elem.Underlying().(*types.Pointer); ok {
		ref = tm{k: "addr", id: "@known"}
		st.mem[fmt.Sprintf("@known.%d", num)] = symRef
		st.mem[fmt.Sprintf("@known.%d", lset)] = lbls
	} else {
		x.r.undecided("the storage", "how series are known by their labels isn't understood")
		return
	}
	st.maps[by] = &nmap{open: true, maybe: map[string]bool{}, ents: []nent{{hash, tm{k: "list", id: "@knowns"}}}}
	st.lists["@knowns"] = &nlist{open: true, items: []tm{ref}, maybe: map[string]bool{}}

	run := x.newRun(false)
	run.tracked = []tm{symRef, ref}
	run.types = map[string]types.Type{symRef.key(): types.Typ[types.Uint64], ref.key(): elem}
	run.max = 400000
	run.byPart = true
	run.seqs = true
	named := run.elem
	run.elem = func(st *nstate, coll, e tm) {
		if strings.HasPrefix(coll.id, "map:"+by+"[") {
			// those with another hash are others
			st.facts[eqKey(e, ref)] = false
		}
		named(st, coll, e)
	}
	load := run.ext
	run.ext = func(r *nrun, st *nstate, name string, sig *types.Signature, args []tm, at string) ([]nout, bool) {
		switch name {
		case "(" + labelsPkg + ".Labels).Hash":
			return []nout{{st, []tm{app("hash", args[0])}}}, true
		case labelsPkg + ".Equal":
			if st.eq(args[0], args[1]) == 1 {
				return []nout{{st, []tm{tmBool(true)}}}, true
			}
			// no two series have the same labels
			if args[0].key() == lbls.key() || args[1].key() == lbls.key() {
				return []nout{{st, []tm{tmBool(false)}}}, true
			}
			return []nout{{st, []tm{app("equal", args...)}}}, true
		}
		return load(r, st, name, sig, args, at)
	}
	pos := x.p.position(fn.Pos())
	kept, gone := 0, 0
	// in tells whether the element is in the list at the keys.
	in := func(s *nstate, m tm, e tm, keys ...tm) string {
		for _, k := range keys {
			fs := run.lookup(s, m, k)
			if len(fs) != 1 {
				return "?"
			}
			if !fs[0].in {
				return "out"
			}
			m = fs[0].v
		}
		if m.k == "nil" {
			return "out"
		}
		l := s.lists[m.id]
		if m.k != "list" || l == nil {
			return "?"
		}
		for _, i := range l.items {
			if s.eq(i, e) == 1 {
				return "in"
			}
		}
		for k := range l.maybe {
			if strings.Contains(k, e.key()) {
				return "?"
			}
		}
		if l.open {
			for _, a := range l.absent {
				if s.eq(a, e) == 1 {
					return "out"
				}
			}
			return "?"
		}
		return "out"
	}
	post, names := tm{k: "map", id: x.post}, tm{k: "map", id: by}
	for _, o := range x.call(run, fn, []tm{x.self, tmSym("@older")}, st) {
		if !o.st.possible() {
			continue
		}
		for _, e := range run.lookup(o.st, tm{k: "map", id: x.data}, symRef) {
			s := e.st
			for _, c := range []struct {
				what, at string
			}{
				{"among all series", in(s, post, symRef, tmStr(""), tmStr(""))},
				{"under each of its labels", in(s, post, symRef, symMN, symVal)},
				{"as known by its labels", in(s, names, ref, hash)},
			} {
				if e.in {
					kept++
					if c.at != "in" {
						x.r.violate("no longer found", pos, where, "on some path a series that is kept may not be listed "+c.what+" anymore")
					}
				} else {
					gone++
					if c.at != "out" {
						x.r.violate("still found", pos, where, "on some path a series that is forgotten may still be listed "+c.what)
					}
				}
			}
		}
	}
	if (kept == 0 || gone == 0) && !x.stop {
		x.r.undecided(where, fmt.Sprintf("paths on which a series is kept, or on which it's forgotten, weren't found (%d, %d)", kept, gone))
	}
}
