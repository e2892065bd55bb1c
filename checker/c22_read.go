package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C22", Rule: "symbolic sequence analysis of reading a series: by induction over the number of steps, with the position and the number of samples being arbitrary, each step moves on by one and succeeds exactly if there is another sample, and the current sample is the one at the position; seeking is decided from the condition that is searched for. Each reader's position is an object of its own", Run: runC22})
	register(&Check{ID: "C23", Rule: "symbolic sequence analysis of storing and expiring samples: the series' samples are an arbitrary sequence in time order; on every path of adding a sample they are afterwards all those from before, in their order, with the new one in a place where the conditions on the path prove the order in time; on every path of expiring they are those from some place on that the conditions prove to be the first not too old", Run: runC23})
}

const selData = "@data"

var symLen = tmSym("@n")

// seqState gives a storage with a series that has any number of samples.
func (x *selRun) seqState(series string) (*nstate, bool) {
	st := x.at(series, "MatchEqual")
	f, ok := x.samples()
	if !ok {
		x.r.undecided("the storage", "where a series' samples are isn't known")
		return nil, false
	}
	st.mem["≥:n"] = addTm(symLen, tmInt(0), 1)
	st.mem["@series."+f] = newSeq(st, selData, symLen)
	return st, true
}

// samples finds the field with a series' samples.
func (x *selRun) samples() (string, bool) {
	var walk func(t types.Type, at string, d int) []string
	walk = func(t types.Type, at string, d int) []string {
		s, ok := t.Underlying().(*types.Struct)
		if !ok || d > 3 {
			return nil
		}
		var out []string
		for i := 0; i < s.NumFields(); i++ {
			a := fmt.Sprint(at, i)
			switch u := s.Field(i).Type().Underlying().(type) {
			case *types.Struct:
				out = append(out, walk(u, a+".", d+1)...)
			case *types.Slice:
				if _, _, ok := sampleFields(u.Elem()); ok {
					out = append(out, a)
				}
			}
		}
		return out
	}
	fs := walk(x.seriesType(), "", 0)
	if len(fs) != 1 {
		return "", false
	}
	return fs[0], true
}

// sampleFields finds a sample's time and value.
func sampleFields(t types.Type) (int, int, bool) {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return 0, 0, false
	}
	ts, v := -1, -1
	for i := 0; i < s.NumFields(); i++ {
		if b, ok := s.Field(i).Type().Underlying().(*types.Basic); ok {
			switch b.Kind() {
			case types.Int64:
				ts = i
			case types.Float64:
				v = i
			}
		}
	}
	return ts, v, ts >= 0 && v >= 0 && s.NumFields() == 2
}

// seriesType is what the storage's map of series holds.
func (x *selRun) seriesType() types.Type {
	s := deref(x.typ).Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if v := x.base.mem[fmt.Sprintf("%s.%d", x.self.id, i)]; v.k == "map" && v.id == x.data {
			return deref(s.Field(i).Type().Underlying().(*types.Map).Elem())
		}
	}
	return types.NewStruct(nil, nil)
}

// elemAt is the name of a sample's field.
func (x *selRun) elemAt(i tm, f int) string {
	return fmt.Sprintf("%s[%s].%d", selData, addTm(i, tmInt(0), 1).key(), f)
}

func (x *selRun) seqRun() *nrun {
	run := x.newRun(false)
	run.seqs = true
	return run
}

func sortedMem(st *nstate) []string {
	var ks []string
	for k := range st.mem {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// changed lists where the memory below the address differs.
func changed(a, b *nstate, id string) []string {
	var out []string
	for _, k := range sortedMem(b) {
		if strings.HasPrefix(k, id+".") && a.mem[k].key() != b.mem[k].key() {
			out = append(out, k)
		}
	}
	return out
}

func runC22(p *Program, r *Report) {
	x := &selRun{p: p, r: r, fns: map[*ssa.Function]bool{}, others: map[string]bool{}}
	if !x.storageOf() {
		return
	}
	st, ok := x.seqState("label")
	if !ok {
		return
	}
	qm := p.method(x.typ, "Querier")
	if qm == nil {
		r.undecided("the storage", "Querier is gone")
		return
	}
	// a result's series
	st.lists["@matchers"] = &nlist{exact: true, items: []tm{tmM}, maybe: map[string]bool{}}
	args := []tm{x.self}
	for i := 1; i < len(qm.Params); i++ {
		args = append(args, tmSym("@q"+qm.Params[i].Name()))
	}
	cases := 0
	done := map[string]bool{}
	for _, q := range x.call(x.seqRun(), qm, args, st) {
		if q.res[1].k != "nil" {
			continue
		}
		sel := x.ifaceMethod(q.res[0], "Select")
		if sel == nil {
			return
		}
		for _, o := range x.call(x.seqRun(), sel, []tm{q.res[0].parts[0], tmSym("@sorted"), tmSym("@hints"), {k: "list", id: "@matchers"}}, q.st) {
			at := x.ifaceMethod(o.res[0], "At")
			if at == nil {
				return
			}
			for _, a := range x.call(x.seqRun(), at, []tm{o.res[0].parts[0]}, o.st) {
				im := x.ifaceMethod(a.res[0], "Iterator")
				if im == nil || x.stop {
					return
				}
				k := a.res[0].key() + im.String()
				if done[k] {
					continue
				}
				done[k] = true
				for _, it := range x.call(x.seqRun(), im, []tm{a.res[0].parts[0]}, a.st) {
					cases++
					x.reader(im, a, it)
				}
			}
		}
	}
	r.atLeast("readers", cases, 1)
	r.atLeast("paths", x.paths, 10)
	r.atLeast("functions", len(x.fns), 8)
	r.cover("steps", x.steps)
	r.assume("the samples don't change while they are read (C03)", "the samples are in time order (C23)")
}

func (x *selRun) reader(im *ssa.Function, a, it nout) {
	v := it.res[0]
	next, at, seek := x.ifaceMethod(v, "Next"), x.ifaceMethod(v, "At"), x.ifaceMethod(v, "Seek")
	if next == nil || at == nil || seek == nil {
		return
	}
	self := v.parts[0]
	pos := x.p.position(im.Pos())
	if self.k != "addr" {
		x.r.undecided(fnName(im), "what it gives isn't known: "+self.key())
		return
	}
	// an object of its own
	if self.id == a.res[0].parts[0].id {
		x.r.violate("not independent", pos, fnName(im), "all readers of a series share one position")
		return
	}
	for k := range a.st.mem {
		if k == self.id || strings.HasPrefix(k, self.id+".") {
			x.r.violate("not independent", pos, fnName(im), "readers of a series share a position")
			return
		}
	}
	ts, val, _ := sampleFields(x.sampleType())
	// the position is what a step changes
	cursor := ""
	npos := x.p.position(next.Pos())
	var first []nout
	for _, o := range x.call(x.seqRun(), next, []tm{self}, it.st) {
		o.st.fork(o.res[0], func(s *nstate, yes bool) {
			if !s.possible() {
				return
			}
			first = append(first, nout{s, []tm{tmBool(yes)}})
			for _, c := range changed(it.st, s, self.id) {
				if cursor != "" && cursor != c {
					cursor = "?"
				} else {
					cursor = c
				}
			}
		})
	}
	if x.stop {
		return
	}
	c0 := it.st.mem[cursor]
	if cursor == "" || cursor == "?" || c0.k != "int" || len(c0.parts) > 0 {
		x.r.undecided(fnName(next), "what its position is isn't known: "+cursor)
		return
	}
	// after k steps
	k := tmSym("@steps")
	st := it.st.clone()
	st.mem["≥:k"] = addTm(k, tmInt(0), 1)
	st.mem["≥:kn"] = addTm(symLen, k, -1)
	st.mem[cursor] = addTm(c0, k, 1)
	for _, o := range x.call(x.seqRun(), next, []tm{self}, st) {
		o.st.fork(o.res[0], func(s *nstate, yes bool) {
			if !s.possible() {
				return
			}
			c := s.mem[cursor]
			switch {
			case yes && !s.atLeast(addTm(symLen, tmInt(1), -1), k):
				x.r.violate("beyond the end", npos, fnName(next), "on some path it succeeds although all samples were read")
			case yes && addTm(addTm(c, c0, -1), k, -1).key() != "1":
				x.r.violate("not one by one", npos, fnName(next), "on some path it doesn't move on by exactly one sample")
			case !yes && !s.atLeast(k, symLen):
				x.r.violate("ends early", npos, fnName(next), "on some path it fails although there are further samples")
			case !yes:
				// and again
				for _, o := range x.call(x.seqRun(), next, []tm{self}, s) {
					o.st.fork(o.res[0], func(s *nstate, yes bool) {
						if yes && s.possible() {
							x.r.violate("goes on after the end", npos, fnName(next), "after it failed, it may succeed")
						}
					})
				}
			}
			if len(changed(st, s, self.id)) > 1 || yes && len(changed(st, s, self.id)) != 1 || len(changed(st, s, "@series")) > 0 {
				x.r.violate("not one by one", npos, fnName(next), "it changes something besides its position")
			}
		})
	}
	// the sample there
	st2 := st.clone()
	st2.mem["≥:k1"] = addTm(k, tmInt(1), -1)
	apos := x.p.position(at.Pos())
	i := addTm(k, tmInt(1), -1)
	for _, o := range x.call(x.seqRun(), at, []tm{self}, st2) {
		if !o.st.possible() {
			continue
		}
		if len(o.res) != 2 || o.res[0].key() != x.elemAt(i, ts) || o.res[1].key() != x.elemAt(i, val) {
			x.r.violate("another sample", apos, fnName(at), fmt.Sprintf("after k steps it gives %s and %s instead of the k-th sample's time and value", o.res[0].key(), o.res[1].key()))
		}
		if len(changed(st2, o.st, self.id)) > 0 {
			x.r.violate("not one by one", apos, fnName(at), "looking at the current sample changes the position")
		}
	}
	x.seeking(seek, self, st, cursor, c0, k, ts)
}

func (x *selRun) sampleType() types.Type {
	f, _ := x.samples()
	t := x.seriesType()
	for _, i := range strings.Split(f, ".") {
		n := 0
		fmt.Sscan(i, &n)
		t = t.Underlying().(*types.Struct).Field(n).Type()
	}
	return elemOf(t)
}

func (x *selRun) seeking(seek *ssa.Function, self tm, st *nstate, cursor string, c0, k tm, ts int) {
	t := tmSym("@t")
	pos := x.p.position(seek.Pos())
	cur := addTm(k, tmInt(1), -1) // the current sample, if there is one
	older := func(i tm) string { return fmt.Sprintf("lt(%s,@t)", x.elemAt(i, ts)) }
	n := 0
	for _, o := range x.call(x.seqRun(), seek, []tm{self, t}, st) {
		o.st.fork(o.res[0], func(s *nstate, yes bool) {
			if !s.possible() {
				return
			}
			n++
			c := s.mem[cursor]
			at := addTm(addTm(c, c0, -1), tmInt(1), -1) // it is at this sample
			if addTm(at, cur, -1).key() == "0" && yes {
				// nowhere
				v, known := s.facts[older(cur)]
				if !known || v || !s.atLeast(k, tmInt(1)) || !s.atLeast(symLen, k) {
					x.r.violate("stays", pos, fnName(seek), "on some path it stays where it is, although the current sample may be older")
				}
				return
			}
			// to what was found
			found, base := "", tmInt(0)
			for m, v := range s.mem {
				if !strings.HasPrefix(m, "search:") {
					continue
				}
				at := strings.TrimPrefix(m, "search:")
				for _, b := range []tm{tmInt(0), cur, k} {
					want := fmt.Sprintf("!lt(%s,@t)", x.elemAt(addTm(b, tmSym("·"), 1), ts))
					if v.parts[1].id == want && addTm(addTm(symLen, b, -1), v.parts[0], -1).key() == "0" {
						found, base = at, b
					}
				}
			}
			if found == "" {
				for m := range s.mem {
					if strings.HasPrefix(m, "search:") {
						x.r.violate("searches for another", pos, fnName(seek), "what it searches for among the samples isn't the first one that isn't older")
						return
					}
				}
				x.r.undecided(fnName(seek), "what is searched for isn't the first sample that isn't older")
				return
			}
			to := addTm(base, tmSym(found), 1)
			if addTm(at, to, -1).key() != "0" {
				x.r.violate("elsewhere", pos, fnName(seek), "on some path it doesn't go to the first sample that isn't older")
				return
			}
			// the current one is older, or there is none
			v, known := s.facts[older(cur)]
			if addTm(base, cur, -1).key() != "0" && !(known && v) && !s.atLeast(tmInt(0), k) {
				x.r.violate("may go back", pos, fnName(seek), "on some path it goes to another sample, although the current one may already be late enough")
			}
			if yes && !s.atLeast(addTm(symLen, tmInt(1), -1), to) || !yes && !s.atLeast(to, symLen) {
				x.r.violate("found or not", pos, fnName(seek), "whether it succeeds isn't whether there is such a sample")
			}
		})
	}
	if n == 0 && !x.stop {
		x.r.undecided(fnName(seek), "no path was found")
	}
}
