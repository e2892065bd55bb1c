package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C21", Rule: "per-element abstract interpretation of series selection: for an arbitrary stored series and an arbitrary matcher among any others, all kinds of matchers and all cases of the series having the matcher's label, all paths are followed; the series is in the final set of references if it matches, given that it satisfies the other matchers, and never if it doesn't. Stepping through the set gives each reference's own series", Run: runC21})
}

const (
	indexPkg   = "github.com/prometheus/prometheus/tsdb/index"
	storagePkg = "github.com/prometheus/prometheus/storage"
)

// A set of references is a term of the kind "pset": the series is "in" or "out" of it, or that isn't known: "?".
func pset(id string) tm { return tm{k: "pset", id: id} }

type selRun struct {
	p     *Program
	r     *Report
	base  *nstate
	self  tm
	typ   types.Type
	post  string // the map of postings
	data  string // the map of series
	paths int
	steps int
	fns   map[*ssa.Function]bool
	stop  bool
	arr   string // the samples' array

	others map[string]bool // the symbols for other matchers
}

// find finds the maps of references and of series below the address.
func (x *selRun) find(st *nstate, a string, t types.Type, d int) {
	s, ok := t.Underlying().(*types.Struct)
	if !ok || d > 3 {
		return
	}
	for i := 0; i < s.NumFields(); i++ {
		fa, ft := fmt.Sprintf("%s.%d", a, i), s.Field(i).Type()
		switch u := ft.Underlying().(type) {
		case *types.Struct:
			x.find(st, fa, ft, d+1)
		case *types.Pointer:
			if v := st.mem[fa]; v.k == "addr" {
				x.find(st, v.id, u.Elem(), d+1)
			}
		case *types.Map:
			v := st.mem[fa]
			if v.k != "map" {
				continue
			}
			st.maps[v.id] = &nmap{open: true, maybe: map[string]bool{}}
			if in, ok := u.Elem().Underlying().(*types.Map); ok && isStringish(u.Key()) && isStringish(in.Key()) {
				if l, ok := in.Elem().Underlying().(*types.Slice); ok && isInteger(l.Elem()) {
					x.post = v.id
				}
			}
			if e, ok := u.Elem().Underlying().(*types.Pointer); ok && isInteger(u.Key()) {
				if _, ok := e.Elem().Underlying().(*types.Struct); ok {
					x.data = v.id
				}
			}
		}
	}
}

// storageOf makes an empty storage with the package's constructor.
func (x *selRun) storageOf() bool {
	pkg := x.p.pkg(promRel)
	iface := x.p.lookupIface(storagePkg, "Queryable")
	if pkg == nil || iface == nil {
		x.r.undecided("the storage", "the package or storage.Queryable is gone")
		return false
	}
	var mk *ssa.Function
	for _, name := range pkg.Pkg.Scope().Names() {
		fn := pkg.Func(name)
		if fn == nil || fn.Signature.Recv() != nil || fn.Signature.Params().Len() != 0 || fn.Signature.Results().Len() != 1 {
			continue
		}
		if types.Implements(fn.Signature.Results().At(0).Type(), iface) {
			mk = fn
		}
	}
	if mk == nil {
		x.r.undecided("the storage", "nothing makes one")
		return false
	}
	run := newNrun(x.p)
	outs := run.call(mk, nil, nil, newNstate(), "new", 0)
	if run.why != "" || len(outs) != 1 {
		x.r.undecided(fnName(mk), "what it makes isn't known: "+run.why)
		return false
	}
	v := outs[0].res[0]
	x.typ = mk.Signature.Results().At(0).Type()
	if v.k == "iface" {
		x.typ, v = v.typ, v.parts[0]
	}
	if v.k != "addr" {
		x.r.undecided(fnName(mk), "what it makes isn't known: "+v.key())
		return false
	}
	x.base, x.self = outs[0].st, v
	x.constants(x.base)
	x.find(x.base, v.id, deref(x.typ), 0)
	if x.post == "" || x.data == "" {
		x.r.undecided(fnName(mk), "no maps of references by label name and value, and of series by reference, were found in it")
		return false
	}
	return true
}

var (
	symRef = tmSym("@ref")
	symVal = tmSym("@value")
	symMN  = tmSym("@m.1")
	symMV  = tmSym("@m.2")
	tmM    = tm{k: "addr", id: "@m"}
)

const (
	selVals, selAll, selHas, selAllL = "@vals", "@all", "@with", "@every"
)

// has tells whether the series is in a list of references.
func (x *selRun) has(st *nstate, l tm) string {
	switch {
	case l.k == "nil":
		return "out"
	case l.k == "list" && st.lists[l.id] != nil:
		o := st.lists[l.id]
		for _, e := range o.items {
			if st.eq(e, symRef) == 1 {
				return "in"
			}
		}
		if o.exact || !o.open && !o.rest && len(o.items) == 0 {
			return "out"
		}
	case l.k == "sym" && strings.HasPrefix(l.id, "map:"+selVals+"["):
		// the references of the series that have another value
		return "out"
	case l.k == "sym" && strings.HasPrefix(l.id, "map:"+selAll+"["):
		return "out"
	}
	return "?"
}

// sets lists the sets of references in a list of such; false if there may be others.
func (x *selRun) sets(st *nstate, l tm) ([]string, bool) {
	if l.k == "nil" {
		return nil, true
	}
	o := st.lists[l.id]
	if l.k != "list" || o == nil {
		return nil, false
	}
	var out []string
	sure := !o.open && !o.rest && !(o.n != nil && !o.exact)
	for _, e := range st.contents(l) {
		if e.k != "pset" {
			if e.k == "nil" {
				continue
			}
			sure = false
			continue
		}
		out = append(out, e.id)
	}
	return out, sure
}

func count(xs []string, y string) int {
	n := 0
	for _, x := range xs {
		if x == y {
			n++
		}
	}
	return n
}

func (x *selRun) ext(others bool) func(r *nrun, st *nstate, name string, sig *types.Signature, args []tm, at string) ([]nout, bool) {
	return func(r *nrun, st *nstate, name string, sig *types.Signature, args []tm, at string) ([]nout, bool) {
		one := func(t tm) ([]nout, bool) { return []nout{{st, []tm{t}}}, true }
		// what another matcher finds is its own matter
		another := false
		for _, e := range st.rounds {
			another = another || x.others[e]
		}
		switch name {
		case indexPkg + ".EmptyPostings", indexPkg + ".ErrPostings":
			if another {
				return one(pset("?"))
			}
			return one(pset("out"))
		case indexPkg + ".NewListPostings":
			if another {
				return one(pset("?"))
			}
			return one(pset(x.has(st, args[0])))
		case indexPkg + ".Merge":
			ss, sure := x.sets(st, args[0])
			switch {
			case count(ss, "in") > 0:
				return one(pset("in"))
			case !another && sure && count(ss, "?") == 0:
				return one(pset("out"))
			}
			return one(pset("?"))
		case indexPkg + ".Intersect":
			ss, _ := x.sets(st, args[0])
			switch {
			case len(ss) == 0 && args[0].k == "nil":
				return one(pset("out"))
			case count(ss, "out") > 0:
				return one(pset("out"))
			case others && count(ss, "in") > 0:
				// the series satisfies the other matchers
				return one(pset("in"))
			case len(ss) > 0 && count(ss, "in") == len(ss) && st.lists[args[0].id].exact:
				return one(pset("in"))
			}
			return one(pset("?"))
		case indexPkg + ".Without":
			full, drop := args[0], args[1]
			switch {
			case full.k != "pset" || drop.k != "pset":
				return one(pset("?"))
			case full.id == "out" || drop.id == "in":
				return one(pset("out"))
			case full.id == "in" && drop.id == "out":
				return one(pset("in"))
			}
			return one(pset("?"))
		case "(*" + labelsPkg + ".Matcher).Matches":
			return one(x.matches(st, args[0], args[1]))
		case "(iface).Next":
			if args[0].k == "pset" {
				s := st.clone()
				k := "stepped once"
				if s.ev[k] {
					k = "stepped again"
				}
				s.ev[k] = true
				return []nout{{s, []tm{tmSym("@more")}}}, true
			}
		case "(iface).At":
			if args[0].k == "pset" {
				if st.ev["stepped once"] {
					return one(tmSym("@stepped"))
				}
				return one(symRef)
			}
		case "(iface).Err":
			if args[0].k == "pset" {
				return one(tmSym("@err"))
			}
		}
		return nil, false
	}
}

func (x *selRun) typeConst(name string) int64 {
	if o := x.p.lookupConst(labelsPkg, name); o != nil {
		n, _ := constant.Int64Val(o.Val())
		return n
	}
	x.r.undecided("the kinds of matchers", name+" is gone")
	return -1
}

// matches is whether a matcher accepts a value.
func (x *selRun) matches(st *nstate, m, v tm) tm {
	if c, ok := st.vals[v.key()]; ok {
		v = c
	}
	if m.id == tmM.id {
		switch t := st.mem["@m.0"]; t.n {
		case x.typeConst("MatchEqual"):
			return decided(st, eqTm(v, symMV))
		case x.typeConst("MatchNotEqual"):
			e := decided(st, eqTm(v, symMV))
			if e.k == "bool" {
				return tmBool(e.n == 0)
			}
			e.id = "!" + e.id
			return e
		}
	}
	return tm{k: "sym", id: "matches(" + m.id + "," + v.key() + ")"}
}

func decided(st *nstate, c tm) tm {
	if d := st.eq(c.parts[0], c.parts[1]); d != 0 {
		return tmBool(d == 1)
	}
	return c
}

// at gives a storage with the series: it has the matcher's label, or doesn't; then other series may have it.
func (x *selRun) at(series, kind string) *nstate {
	st := x.base.clone()
	m := func() *nmap { return &nmap{open: true, maybe: map[string]bool{}} }
	p := m()
	all := m()
	all.ents = []nent{{tmStr(""), tm{k: "list", id: selAllL}}}
	st.maps[selAll] = all
	st.lists[selAllL] = &nlist{open: true, items: []tm{symRef}, maybe: map[string]bool{}}
	p.ents = []nent{{tmStr(""), tm{k: "map", id: selAll}}}
	vals := m()
	switch series {
	case "label":
		vals.ents = []nent{{symVal, tm{k: "list", id: selHas}}}
		st.lists[selHas] = &nlist{open: true, items: []tm{symRef}, maybe: map[string]bool{}}
		fallthrough
	case "others":
		p.ents = append(p.ents, nent{symMN, tm{k: "map", id: selVals}})
		st.maps[selVals] = vals
	case "none":
		p.absent = []tm{symMN}
	}
	st.maps[x.post] = p
	d := m()
	d.ents = []nent{{symRef, tm{k: "addr", id: "@series"}}}
	st.maps[x.data] = d
	st.facts[eqKey(symMN, tmStr(""))] = false
	st.mem["@m.0"] = tmInt(x.typeConst(kind))
	st.mem["@m.1"] = symMN
	st.mem["@m.2"] = symMV
	st.lists["@matchers"] = &nlist{open: true, items: []tm{tmM}, maybe: map[string]bool{}}
	return st
}

func (x *selRun) call(run *nrun, fn *ssa.Function, args []tm, st *nstate) []nout {
	if x.stop {
		return nil
	}
	outs := run.call(fn, args, nil, st, "", 0)
	if run.why != "" {
		x.r.undecided(fnName(fn), run.why)
		x.stop = true
		return nil
	}
	for f := range run.fns {
		x.fns[f] = true
	}
	x.paths += len(outs)
	if run.steps > x.steps {
		x.steps = run.steps
	}
	return outs
}

// ifaceMethod finds what a value of an interface type does.
func (x *selRun) ifaceMethod(v tm, name string) *ssa.Function {
	if v.k != "iface" {
		x.r.undecided("the storage", "what "+name+" does isn't known")
		return nil
	}
	m := x.p.method(v.typ, name)
	if m == nil || m.Blocks == nil {
		x.r.undecided("the storage", name+" is gone")
		return nil
	}
	return m
}

func runC21(p *Program, r *Report) {
	x := &selRun{p: p, r: r, fns: map[*ssa.Function]bool{}}
	if !x.storageOf() {
		return
	}
	qm := p.method(x.typ, "Querier")
	if qm == nil {
		r.undecided("the storage", "Querier is gone")
		return
	}
	var wg sync.WaitGroup
	var all []*selRun
	for _, kind := range []string{"MatchEqual", "MatchNotEqual", "MatchRegexp", "MatchNotRegexp"} {
		for _, series := range []string{"label", "others", "none"} {
			for _, others := range []bool{false, true} {
				c := *x
				c.others = map[string]bool{}
				c.fns, c.base = map[*ssa.Function]bool{}, x.base.clone()
				all = append(all, &c)
				wg.Add(1)
				go func(kind, series string, others bool) {
					defer wg.Done()
					defer func() {
						if e := recover(); e != nil {
							r.undecided("selection", fmt.Sprint("it couldn't be followed: ", e))
						}
					}()
					c.selectCase(qm, kind, series, others)
				}(kind, series, others)
			}
		}
	}
	for _, series := range []string{"label", "others", "none"} {
		c := *x
		c.fns, c.base = map[*ssa.Function]bool{}, x.base.clone()
		all = append(all, &c)
		wg.Add(1)
		go func(series string) {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					r.undecided("adding a series", fmt.Sprint("it couldn't be followed: ", e))
				}
			}()
			c.adding(series)
		}(series)
	}
	wg.Wait()
	for _, c := range all {
		x.paths += c.paths
		if c.steps > x.steps {
			x.steps = c.steps
		}
		for f := range c.fns {
			x.fns[f] = true
		}
	}
	cases := len(all)
	r.cover("steps", x.steps)
	r.atLeast("cases", cases, 27)
	r.atLeast("paths", x.paths, 100)
	r.atLeast("functions", len(x.fns), 8)
	r.assume("the sets of references that the index package makes are what its documentation says, also for several of them", "each series is listed under its labels and under the key of all series (C15)", "matchers have a name")
}

func (x *selRun) newRun(others bool) *nrun {
	run := newNrun(x.p)
	run.tracked = []tm{symRef}
	run.ext = x.ext(others)
	run.max, run.gc = 100000, true
	run.elem = func(st *nstate, coll, e tm) {
		if coll.id == "@matchers" {
			x.others[e.id] = true
			st.facts[eqKey(run.field(e, 1, nil), tmStr(""))] = false
		}
	}
	if others {
		run.unique = map[string]int{"@matchers": 1}
	}
	return run
}

func (x *selRun) selectCase(qm *ssa.Function, kind, series string, others bool) {
	st := x.at(series, kind)
	args := []tm{x.self}
	for i := 1; i < len(qm.Params); i++ {
		args = append(args, tmSym("@q"+qm.Params[i].Name()))
	}
	for _, q := range x.call(x.newRun(others), qm, args, st) {
		if len(q.res) != 2 || q.res[1].k != "nil" && q.st.decide(eqTm(q.res[1], tmNil())) != 1 {
			continue // it failed
		}
		sel := x.ifaceMethod(q.res[0], "Select")
		if sel == nil {
			x.stop = true
			return
		}
		run := x.newRun(others)
		run.paths = 0
		pos := x.p.position(sel.Pos())
		for _, o := range x.call(run, sel, []tm{q.res[0].parts[0], tmSym("@sorted"), tmSym("@hints"), {k: "list", id: "@matchers"}}, q.st) {
			v := tmStr("")
			if series == "label" {
				v = symVal
			}
			want := x.matches(o.st, tmM, v)
			got, ok := x.final(o.st, o.res[0])
			if !ok {
				x.r.undecided(fnName(sel), "which series its result has isn't known: "+o.res[0].key())
				x.stop = true
				return
			}
			what := fmt.Sprintf("a matcher of the kind %s, and a series with %s", kind, map[string]string{"label": "its label", "others": "not its label, which others have", "none": "not its label"}[series])
			o.st.fork(want, func(s *nstate, yes bool) {
				switch {
				case yes && others && got != "in":
					x.r.violate("not found", pos, fnName(sel), what+": on some path the series matches but isn't in the result")
				case !yes && !others && got != "out":
					x.r.violate("wrongly found", pos, fnName(sel), what+": on some path the series doesn't match but may be in the result")
				}
			})
			if !others && kind == "MatchEqual" {
				x.stepping(sel, o.st, o.res[0])
			}
		}
	}
}

// final tells whether the series is among a result's.
func (x *selRun) final(st *nstate, v tm) (string, bool) {
	var all []tm
	var walk func(t tm, d int)
	walk = func(t tm, d int) {
		if d > 4 {
			return
		}
		switch t.k {
		case "pset":
			all = append(all, t)
		case "iface", "struct":
			for _, y := range t.parts {
				walk(y, d+1)
			}
		case "addr":
			for k, y := range st.mem {
				if k == t.id || strings.HasPrefix(k, t.id+".") {
					if y.k == "pset" || y.k == "struct" {
						walk(y, d+1)
					}
				}
			}
		}
	}
	walk(v, 0)
	if len(all) != 1 {
		return "", false
	}
	return all[0].id, true
}

// stepping: the result is stepped through one by one, and each reference gives its own series.
func (x *selRun) stepping(sel *ssa.Function, st *nstate, v tm) {
	next, at, errm := x.ifaceMethod(v, "Next"), x.ifaceMethod(v, "At"), x.ifaceMethod(v, "Err")
	if next == nil || at == nil || errm == nil {
		x.stop = true
		return
	}
	for _, o := range x.call(x.newRun(false), next, []tm{v.parts[0]}, st) {
		if !o.st.ev["stepped once"] || o.st.ev["stepped again"] {
			x.r.violate("not one by one", x.p.position(next.Pos()), fnName(next), "a step to the next series doesn't step to the next reference exactly once")
		}
		if o.res[0].key() != "@more" && !(o.res[0].k == "bool" && o.st.decide(tmSym("@more")) == int(2*o.res[0].n-1)) {
			x.r.violate("ends early or late", x.p.position(next.Pos()), fnName(next), "whether there is a next series isn't whether there is a next reference: "+o.res[0].key())
		}
		s := o.st.clone()
		delete(s.ev, "stepped once")
		delete(s.ev, "stepped again")
		for _, a := range x.call(x.newRun(false), at, []tm{v.parts[0]}, s) {
			x.series(at, a)
		}
	}
	for _, o := range x.call(x.newRun(false), errm, []tm{v.parts[0]}, st) {
		if o.res[0].key() != "@err" {
			x.r.violate("the failure is lost", x.p.position(errm.Pos()), fnName(errm), "it doesn't give the failure of the set of references")
		}
	}
}

// series: it is the reference's.
func (x *selRun) series(at *ssa.Function, a nout) {
	if a.st.ev["stepped once"] {
		x.r.violate("not one by one", x.p.position(at.Pos()), fnName(at), "looking at the series steps to the next reference")
		return
	}
	lm := x.ifaceMethod(a.res[0], "Labels")
	if lm == nil {
		x.stop = true
		return
	}
	for _, o := range x.call(x.newRun(false), lm, []tm{a.res[0].parts[0]}, a.st) {
		if !strings.HasPrefix(o.res[0].id, "@series.") || !isNamed(lm.Signature.Results().At(0).Type(), labelsPkg, "Labels") {
			x.r.violate("another series", x.p.position(lm.Pos()), fnName(lm), "the labels that it gives aren't those that the reference's series is stored with: "+o.res[0].key())
		}
	}
}

// constants gives the values of the package's texts, and structs of texts, that nothing changes.
func (x *selRun) constants(st *nstate) {
	pkg := x.p.pkg(promRel)
	run := newNrun(x.p)
	// only reads of a variable or of its fields
	var reads func(i ssa.Instruction, v ssa.Value) bool
	reads = func(i ssa.Instruction, v ssa.Value) bool {
		switch y := i.(type) {
		case *ssa.DebugRef:
			return true
		case *ssa.UnOp:
			return true
		case *ssa.FieldAddr:
			for _, j := range *y.Referrers() {
				if !reads(j, y) {
					return false
				}
			}
			return true
		}
		return false
	}
	fns := append([]*ssa.Function{}, x.p.Funcs...)
	ini := pkg.Func("init")
	for _, m := range pkg.Members {
		g, ok := m.(*ssa.Global)
		if !ok {
			continue
		}
		t := deref(g.Type())
		simple := isStringish(t)
		if s, ok := t.Underlying().(*types.Struct); ok {
			simple = true
			for i := 0; i < s.NumFields(); i++ {
				simple = simple && isStringish(s.Field(i).Type())
			}
		}
		if !simple {
			continue
		}
		fixed := true
		for _, fn := range fns {
			if fn == ini {
				continue
			}
			for _, b := range fn.Blocks {
				for _, i := range b.Instrs {
					for _, op := range i.Operands(nil) {
						if *op == g {
							fixed = fixed && reads(i, g)
						}
					}
				}
			}
		}
		id := "g:" + pkg.Pkg.Path() + "." + g.Name()
		n := st.clone()
		run.store(n, id, run.zero(t), t)
		for _, b := range ini.Blocks {
			for _, i := range b.Instrs {
				s, ok := i.(*ssa.Store)
				if !ok {
					continue
				}
				a := s.Addr
				to := id
				if f, ok := a.(*ssa.FieldAddr); ok {
					a, to = f.X, fmt.Sprintf("%s.%d", id, f.Field)
				}
				if a != g {
					continue
				}
				c, ok := s.Val.(*ssa.Const)
				if !ok {
					fixed = false
					continue
				}
				run.store(n, to, run.val(npath{}, c), s.Val.Type())
			}
		}
		if fixed {
			for k, v := range n.mem {
				st.mem[k] = v
			}
		}
	}
}

// adding: a new series is listed under the key of all series and under its labels, and the others still are.
func (x *selRun) adding(series string) {
	load := x.loader()
	if load == nil {
		return
	}
	next := tmSym("@next")
	st := x.at(series, "MatchEqual")
	run, ok := x.loading(load, st, 1)
	if !ok {
		return
	}
	val := tmSym("@newvalue")
	pos := x.p.position(load.Pos())
	made := 0
	for _, o := range x.call(run, load, []tm{x.self, {k: "list", id: "@points"}}, st) {
		listed := func(k, v, ref tm) bool {
			for _, f := range run.lookup(o.st, tm{k: "map", id: x.post}, k) {
				if !f.in {
					return false
				}
				for _, g := range run.lookup(f.st, f.v, v) {
					if !g.in {
						return false
					}
					ok := false
					if l := g.st.lists[g.v.id]; l != nil && g.v.k == "list" {
						for _, e := range l.items {
							ok = ok || g.st.eq(e, ref) == 1
						}
					}
					if !ok {
						return false
					}
				}
			}
			return true
		}
		fs := run.lookup(o.st, tm{k: "map", id: x.data}, next)
		if len(fs) == 1 && fs[0].in {
			made++
			if !listed(tmStr(""), tmStr(""), next) {
				x.r.violate("not among all", pos, fnName(load), "a new series isn't listed among all series")
			}
			if !listed(symMN, val, next) {
				x.r.violate("not under its label", pos, fnName(load), "a new series isn't listed under each of its labels")
			}
		}
		if !listed(tmStr(""), tmStr(""), symRef) || series == "label" && !listed(symMN, symVal, symRef) {
			x.r.violate("no longer listed", pos, fnName(load), "another series isn't listed anymore after that")
		}
	}
	if made == 0 && !x.stop {
		x.r.undecided(fnName(load), "no path adds a new series")
	}
}

// loading sets up adding samples.
func (x *selRun) loading(load *ssa.Function, st *nstate, points int) (*nrun, bool) {
	pt := load.Params[1].Type().Underlying().(*types.Slice).Elem().Underlying().(*types.Struct)
	next := tmSym("@next")
	// the next reference is the storage's only number
	s := deref(x.typ).Underlying().(*types.Struct)
	n := 0
	for i := 0; i < s.NumFields(); i++ {
		if isInteger(s.Field(i).Type()) {
			st.mem[fmt.Sprintf("%s.%d", x.self.id, i)] = next
			n++
		}
	}
	if n != 1 {
		x.r.undecided("the storage", "which field numbers its series isn't known")
		return nil, false
	}
	st.facts[eqKey(next, symRef)] = false
	st.maps[x.data].absent = []tm{next}
	val := tmSym("@newvalue")
	st.lists["@labels"] = &nlist{open: true, items: []tm{{k: "struct", parts: []tm{symMN, val}}}, maybe: map[string]bool{}}
	l := &nlist{exact: true, maybe: map[string]bool{}}
	for j := 0; j < points; j++ {
		p := tm{k: "struct"}
		for i := 0; i < pt.NumFields(); i++ {
			f := tmSym(pointName(j) + "." + pt.Field(i).Name())
			if isNamed(pt.Field(i).Type(), labelsPkg, "Labels") {
				f = tm{k: "list", id: "@labels"}
			}
			p.parts = append(p.parts, f)
		}
		l.items = append(l.items, p)
	}
	st.lists["@points"] = l
	run := newNrun(x.p)
	run.tracked = []tm{symRef, next}
	run.max, run.gc = 100000, true
	run.ext = func(r *nrun, st *nstate, name string, sig *types.Signature, args []tm, at string) ([]nout, bool) {
		switch name {
		case "(" + labelsPkg + ".Labels).Hash":
			return []nout{{st, []tm{app("hash", args[0])}}}, true
		case labelsPkg + ".Equal":
			return []nout{{st, []tm{app("equal", args...)}}}, true
		}
		return nil, false
	}
	run.elem = func(st *nstate, coll, e tm) {
		if coll.id == "@labels" {
			st.facts[eqKey(run.field(e, 0, nil), tmStr(""))] = false
		}
	}
	run.unique = map[string]int{"@labels": 0}
	st.maps["@labelmap"] = &nmap{open: true, maybe: map[string]bool{}}
	return run, true
}

func pointName(j int) string {
	if j == 0 {
		return "@p"
	}
	return fmt.Sprint("@p", j)
}

// loader is what adds samples.
func (x *selRun) loader() *ssa.Function {
	var load *ssa.Function
	ms := x.p.SSA.MethodSets.MethodSet(x.typ)
	for i := 0; i < ms.Len(); i++ {
		m := x.p.method(x.typ, ms.At(i).Obj().Name())
		if m == nil || m.Blocks == nil || len(m.Params) != 2 {
			continue
		}
		if s, ok := m.Params[1].Type().Underlying().(*types.Slice); ok && isParsedSeries(s.Elem()) {
			load = m
		}
	}
	if load == nil {
		x.r.undecided("the storage", "nothing adds samples to it")
		return nil
	}
	return load
}
