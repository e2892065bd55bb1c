package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C19", Rule: "per-element abstract interpretation of the metric index: for an arbitrary name, label and value, and all cases of them being in the index and in the updating series, all paths through updating and each lookup are followed; other goroutines may add to the index whenever a lock is taken. Afterwards the index, and a lookup's result, holds the name, label and value exactly when it should", Run: runC19})
}

const promRel = "promq/prom"

var (
	symN = tmSym("@name")
	symL = tmSym("@label")
	symV = tmSym("@value")
	unit = tm{k: "struct"}
)

// idxCase is where the name, label and value are.
type idxCase struct {
	depth int    // in the index: 0 nothing, 1 the name, 2 and the label, 3 and the value
	name  string // the updating series' name: "" none, "same", "other"
	label string // its value for the label: "" none, "same", "other"
}

func (c idxCase) String() string {
	return fmt.Sprintf("the index holds %s; the series has %s name and %s value for the label", []string{"nothing of it", "the name", "the name and label", "the name, label and value"}[c.depth], map[string]string{"": "no", "same": "that", "other": "another"}[c.name], map[string]string{"": "no", "same": "that", "other": "another"}[c.label])
}

type idxRun struct {
	p     *Program
	r     *Report
	typ   types.Type
	base  *nstate
	self  tm
	store string
	stop  bool
	paths int
	steps int
	gives int // how much of the name, label and value the series has
	fns   map[*ssa.Function]bool
}

// findStore finds the map of maps of sets below the address.
func (x *idxRun) findStore(st *nstate, a string, t types.Type, d int) {
	s, ok := t.Underlying().(*types.Struct)
	if !ok || d > 3 {
		return
	}
	for i := 0; i < s.NumFields(); i++ {
		fa, ft := fmt.Sprintf("%s.%d", a, i), s.Field(i).Type()
		switch u := ft.Underlying().(type) {
		case *types.Struct:
			x.findStore(st, fa, ft, d+1)
		case *types.Pointer:
			if v := st.mem[fa]; v.k == "addr" {
				x.findStore(st, v.id, u.Elem(), d+1)
			}
		case *types.Map:
			v := st.mem[fa]
			if v.k != "map" {
				continue
			}
			if in, ok := u.Elem().Underlying().(*types.Map); ok {
				if _, ok := in.Elem().Underlying().(*types.Map); ok && isStringish(u.Key()) && isStringish(in.Key()) {
					x.store = v.id
					continue
				}
			}
			// whatever else the index remembers
			st.maps[v.id] = &nmap{open: true, maybe: map[string]bool{}}
		}
	}
}

const idxDims, idxVals = "@dims", "@vals"

// at gives a state of the index.
func (x *idxRun) at(depth int) *nstate {
	st := x.base.clone()
	m := func() *nmap { return &nmap{open: true, maybe: map[string]bool{}} }
	s := m()
	st.maps[x.store] = s
	if depth == 0 {
		s.absent = []tm{symN}
		return st
	}
	s.ents = []nent{{symN, tm{k: "map", id: idxDims}}}
	d := m()
	st.maps[idxDims] = d
	if depth == 1 {
		d.absent = []tm{symL}
		return st
	}
	d.ents = []nent{{symL, tm{k: "map", id: idxVals}}}
	v := m()
	st.maps[idxVals] = v
	if depth == 2 {
		v.absent = []tm{symV}
	} else {
		v.ents = []nent{{symV, unit}}
	}
	return st
}

// depthOf tells how much of the name, label and value the index holds; unsure if that can't be told.
func (x *idxRun) depthOf(run *nrun, st *nstate) (int, bool) {
	m := tm{k: "map", id: x.store}
	for i, k := range []tm{symN, symL, symV} {
		fs := run.lookup(st, m, k)
		if len(fs) != 1 {
			return i, false
		}
		if !fs[0].in {
			return i, true
		}
		m = fs[0].v
		if i < 2 && (m.k != "map" || st.maps[m.id] == nil) {
			return i, false
		}
	}
	return 3, true
}

// grown gives the states that others may have brought the index to.
func (x *idxRun) grown(run *nrun, st *nstate) []*nstate {
	d, ok := x.depthOf(run, st)
	if !ok {
		return []*nstate{st}
	}
	out := []*nstate{st}
	for to := d + 1; to <= 3; to++ {
		n := st.clone()
		m := tm{k: "map", id: x.store}
		for i, k := range []tm{symN, symL, symV} {
			if i >= to {
				break
			}
			fs := run.lookup(n, m, k)
			if !fs[0].in {
				v := unit
				if i < 2 {
					id := []string{idxDims, idxVals}[i]
					n.maps[id] = &nmap{open: true, maybe: map[string]bool{}, absent: []tm{[]tm{symL, symV}[i]}}
					v = tm{k: "map", id: id}
				}
				n = run.insert(n, m, k, v)[0]
				fs = run.lookup(n, m, k)
			}
			m = fs[0].v
		}
		for f, yes := range n.facts {
			if strings.HasPrefix(f, "has(") && !yes {
				delete(n.facts, f)
			}
		}
		n.ev[fmt.Sprintf("grown%d", to)] = true
		out = append(out, n)
	}
	// what others put in besides
	n := st.clone()
	changed := false
	for f, yes := range n.facts {
		if strings.HasPrefix(f, "has(") && !yes {
			delete(n.facts, f)
			changed = true
		}
	}
	if changed {
		out = append(out, n)
	}
	return out
}

// run follows a method.
func (x *idxRun) run(fn *ssa.Function, st *nstate, args []tm, labels tm) []nout {
	if x.stop {
		return nil
	}
	run := newNrun(x.p)
	run.tracked = []tm{symN, symL, symV}
	run.ext = func(r *nrun, st *nstate, name string, sig *types.Signature, args []tm, at string) ([]nout, bool) {
		switch {
		case name == "(*sync.RWMutex).Lock" || name == "(*sync.RWMutex).RLock" || name == "(*sync.Mutex).Lock":
			var out []nout
			for _, s := range x.grown(r, st) {
				out = append(out, nout{s, nil})
			}
			return out, true
		case name == "(*sync.RWMutex).Unlock" || name == "(*sync.Mutex).Unlock":
			// from here on, others may rely on it
			for id, m := range st.maps {
				for _, e := range m.ents {
					if id != x.store && labels.id != "" && e.key.key() == app("hash", labels).id {
						if d, sure := x.depthOf(r, st); sure && d < x.gives {
							x.r.violate("remembered too early", x.p.position(fn.Pos()), fnName(fn), "the lock is released when the series is remembered as known, but isn't in the index yet")
						}
					}
				}
			}
			return []nout{{st, nil}}, true
		case strings.HasPrefix(name, "(github.com/prometheus/prometheus/pkg/labels.Labels).") && len(args) > 0 && args[0].id == labels.id && labels.id != "":
			switch name[strings.LastIndex(name, ".")+1:] {
			case "Hash":
				return []nout{{st, []tm{app("hash", labels)}}}, true
			case "Map":
				return []nout{{st, []tm{{k: "map", id: "@labelmap"}}}}, true
			case "Get", "Has":
				var out []nout
				for _, f := range r.lookup(st, tm{k: "map", id: "@labelmap"}, args[1]) {
					v := f.v
					if !f.in {
						v = tmStr("")
					}
					if strings.HasSuffix(name, "Has") {
						v = tmBool(f.in)
					}
					out = append(out, nout{f.st, []tm{v}})
				}
				return out, true
			}
		}
		return nil, false
	}
	run.unique = map[string]int{"@labels": 0}
	outs := run.call(fn, args, nil, st, "", 0)
	if run.why != "" {
		x.r.undecided(fnName(fn), run.why)
		x.stop = true
		return nil
	}
	for f := range run.fns {
		x.fns[f] = true
	}
	x.paths += len(outs)
	if run.steps > x.steps {
		x.steps = run.steps
	}
	return outs
}

func runC19(p *Program, r *Report) {
	pkg := p.pkg(promRel)
	it := p.lookupIface(modPath+"/"+promRel, "Indexer")
	newIdx := p.fn(promRel, "NewIndex")
	if pkg == nil || it == nil || newIdx == nil {
		r.undecided("the index", "Indexer or NewIndex is gone")
		return
	}
	mn := p.lookupType("github.com/prometheus/prometheus/pkg/labels", "Labels")
	if mn == nil {
		r.undecided("labels", "the Labels type is gone")
		return
	}
	x := &idxRun{p: p, r: r, fns: map[*ssa.Function]bool{}}
	// an empty index
	run := newNrun(p)
	outs := run.call(newIdx, nil, nil, newNstate(), "new", 0)
	if run.why != "" || len(outs) != 1 || outs[0].res[0].k != "iface" || outs[0].res[0].parts[0].k != "addr" {
		r.undecided(fnName(newIdx), "what it makes isn't known: "+run.why)
		return
	}
	x.base, x.self, x.typ = outs[0].st, outs[0].res[0].parts[0], outs[0].res[0].typ
	empty := x.base.clone()
	x.findStore(x.base, x.self.id, deref(x.typ), 0)
	if x.store == "" {
		r.undecided(fnName(newIdx), "no map of names, labels and values was found in it")
		return
	}
	if o := empty.maps[x.store]; o == nil || o.open || len(o.ents) > 0 {
		r.violate("not empty", p.position(newIdx.Pos()), fnName(newIdx), "a new index isn't empty")
	}
	method := func(name string) *ssa.Function {
		m := p.method(x.typ, name)
		if m == nil || m.Blocks == nil {
			r.undecided("the index", name+" is gone")
			return nil
		}
		return m
	}
	update, names, dims, vals := method("UpdateMetric"), method("GetMetricNames"), method("GetStoredDimensionsForMetric"), method("GetStoredValuesForMetricAndDimension")
	if update == nil || names == nil || dims == nil || vals == nil {
		return
	}
	cases := 0
	// updating
	mnStr := tmStr("__name__")
	for depth := 0; depth <= 3; depth++ {
		for _, name := range []string{"", "same", "other"} {
			for _, label := range []string{"", "same", "other"} {
				cases++
				c := idxCase{depth, name, label}
				x.update(update, c, mnStr)
			}
		}
	}
	// the name isn't a label
	label := symL
	symL = mnStr
	for depth := 0; depth <= 1; depth++ {
		for _, name := range []string{"", "same", "other"} {
			cases++
			x.update(update, idxCase{depth, name, ""}, mnStr)
		}
	}
	symL = label
	// lookups
	for depth := 0; depth <= 3; depth++ {
		for i, fn := range []*ssa.Function{names, dims, vals} {
			cases++
			x.lookup(fn, i, depth)
		}
	}
	r.cover("steps", x.steps)
	r.atLeast("cases", cases, 54)
	r.atLeast("paths", x.paths, 80)
	r.atLeast("functions", len(x.fns), 8)
	r.assume("the hashes of different sets of labels differ, as the index presumes, too", "labels have names that differ from each other")
}

func (x *idxRun) update(fn *ssa.Function, c idxCase, mn tm) {
	st := x.at(c.depth)
	lm := &nmap{open: true, maybe: map[string]bool{}}
	ll := &nlist{open: true, maybe: map[string]bool{}}
	add := func(k tm, how string, v, other tm) {
		if how == "" {
			lm.absent = append(lm.absent, k)
			return
		}
		if how == "other" {
			v = other
		}
		lm.ents = append(lm.ents, nent{k, v})
		ll.items = append(ll.items, tm{k: "struct", parts: []tm{k, v}})
	}
	otherN, otherV := tmSym("@othername"), tmSym("@othervalue")
	add(mn, c.name, symN, otherN)
	if symL.key() != mn.key() {
		add(symL, c.label, symV, otherV)
		st.facts[eqKey(mn, symL)] = false
	}
	st.maps["@labelmap"], st.lists["@labels"] = lm, ll
	st.facts[eqKey(symN, otherN)] = false
	st.facts[eqKey(symV, otherV)] = false
	st.facts[eqKey(symN, tmStr(""))], st.facts[eqKey(otherN, tmStr(""))] = false, false
	labels := tm{k: "list", id: "@labels"}
	arg := tm{k: "struct"}
	pt := fn.Params[1].Type()
	ptr := false
	if q, ok := pt.Underlying().(*types.Pointer); ok {
		pt, ptr = q.Elem(), true
	}
	s, ok := pt.Underlying().(*types.Struct)
	if !ok {
		x.r.undecided(fnName(fn), "it doesn't take a series")
		return
	}
	for i := 0; i < s.NumFields(); i++ {
		f := tmSym("@series." + s.Field(i).Name())
		if isNamed(s.Field(i).Type(), "github.com/prometheus/prometheus/pkg/labels", "Labels") {
			f = labels
		}
		arg.parts = append(arg.parts, f)
	}
	run := newNrun(x.p)
	run.tracked = []tm{symN, symL, symV}
	if ptr {
		run.store(st, "@series", arg, pt)
		arg = tm{k: "addr", id: "@series"}
	}
	gives := 0
	if c.name == "same" {
		gives = 1
		switch c.label {
		case "same":
			gives = 3
		case "other":
			gives = 2
		}
	}
	x.gives = gives
	pos := x.p.position(fn.Pos())
	for _, o := range x.run(fn, st, []tm{x.self, arg}, labels) {
		after, sure := x.depthOf(run, o.st)
		// at least, and at most
		min, max := c.depth, c.depth
		for d := 1; d <= 3; d++ {
			if o.st.ev[fmt.Sprintf("grown%d", d)] && d > min {
				min, max = d, d
			}
		}
		if gives > min {
			min = gives
		}
		if gives > max {
			max = gives
		}
		// what it has seen before is in there
		seen := false
		for f, yes := range o.st.facts {
			if yes && strings.HasPrefix(f, "has(map:") && strings.HasSuffix(f, ","+app("hash", labels).id+")") && !strings.HasPrefix(f, "has(map:"+x.store+",") {
				seen = true
			}
		}
		if seen && after < min && sure {
			continue
		}
		switch {
		case !sure:
			x.r.violate("something else may be offered", pos, fnName(fn), c.String()+": afterwards the index may hold it or not, depending on other elements")
		case after < min && gives > c.depth:
			x.r.violate("not in the index", pos, fnName(fn), c.String()+fmt.Sprintf(": on some path the index afterwards lacks the %s", []string{"name", "label", "value"}[after]))
		case after < min:
			x.r.violate("lost from the index", pos, fnName(fn), c.String()+fmt.Sprintf(": on some path the %s is gone from the index afterwards", []string{"name", "label", "value"}[after]))
		case after > max:
			x.r.violate("wrongly in the index", pos, fnName(fn), c.String()+fmt.Sprintf(": on some path the index afterwards holds the %s all the same", []string{"name", "label", "value"}[after-1]))
		}
		x.shared(fn, o.st)
	}
}

// shared: the maps for different names and labels are different ones.
func (x *idxRun) shared(fn *ssa.Function, st *nstate) {
	used := map[string]int{}
	count := func(v tm) {
		if v.k == "map" {
			used[v.id]++
		}
	}
	for _, m := range st.maps {
		for _, e := range m.ents {
			count(e.val)
		}
	}
	for a, v := range st.mem {
		if strings.HasPrefix(a, x.self.id+".") || strings.HasPrefix(a, "g:") {
			count(v)
		}
	}
	for id, n := range used {
		if n > 1 {
			x.r.violate("shared", x.p.position(fn.Pos()), fnName(fn), "the same map ("+id+") is used for several names or labels, or for something else, too")
		}
	}
}

func (x *idxRun) lookup(fn *ssa.Function, level, depth int) {
	x.gives = 0
	st := x.at(depth)
	args := []tm{x.self}
	if level > 0 {
		args = append(args, symN)
	}
	if level > 1 {
		args = append(args, symL)
	}
	run := newNrun(x.p)
	run.tracked = []tm{symN, symL, symV}
	pos := x.p.position(fn.Pos())
	what := []string{"name", "label", "value"}[level]
	key := []tm{symN, symL, symV}[level]
	for _, o := range x.run(fn, st, args, tm{}) {
		after, sure := x.depthOf(run, o.st)
		before := depth
		if !sure || after < before {
			x.r.violate("lost from the index", pos, fnName(fn), "looking something up changes the index")
			continue
		}
		res := o.res[0]
		if res.k == "nil" {
			if before > level {
				x.r.violate("not offered", pos, fnName(fn), "a "+what+" that the index holds isn't in the result")
			}
			continue
		}
		if res.k != "map" || o.st.maps[res.id] == nil {
			x.r.undecided(fnName(fn), "its result isn't known: "+res.key())
			continue
		}
		fs := run.lookup(o.st, res, key)
		if len(fs) != 1 {
			x.r.undecided(fnName(fn), "whether the result holds the "+what+" isn't known")
			continue
		}
		if fs[0].in && after <= level {
			x.r.violate("wrongly offered", pos, fnName(fn), "a "+what+" that the index doesn't hold is in the result")
		}
		if !fs[0].in && before > level {
			x.r.violate("not offered", pos, fnName(fn), "a "+what+" that the index holds isn't in the result")
		}
	}
}
