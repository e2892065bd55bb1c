package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"runtime/debug"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C20", Rule: "per-element abstract interpretation of completion: for an arbitrary query, cursor and word, each kind of word that the grammar may ask for, and all cases of the word being in the index or in the kind's list, all paths are followed; the word is among the matches exactly if it is there and begins with the rest of the query that the grammar wasn't asked about", Run: runC20})
}

const promptPkg = "github.com/c-bata/go-prompt"

var symX = tmSym("@x")

type offerRun struct {
	p     *Program
	r     *Report
	sp    *ssa.Package
	tt    types.Type
	ctxT  types.Type // what the parser notes of the query
	maps  map[*ssa.Global][]litEntry
	words *ssa.Global            // the lists, by kind
	lists map[string]*ssa.Global // the same
	self  tm
	base  *nstate
	gen   *ssa.Function
	value *ssa.Function // the method that gives a match's text
	field int           // and where it is
	fns   map[*ssa.Function]bool
	paths int
	steps int
	stop  bool
}

// offerCase is what is in the index and in the lists.
type offerCase struct {
	kinds []string // what the grammar says may come next
	about string   // the kind that is looked at
	in    bool     // the word is one
	ctx   []string // what the query holds, so far: kinds of tokens
	name  string
}

func runC20(p *Program, r *Report) {
	x := &offerRun{p: p, r: r, fns: map[*ssa.Function]bool{}, lists: map[string]*ssa.Global{}}
	x.sp = p.pkg(earleyRel)
	path := modPath + "/" + earleyRel
	if x.sp == nil {
		r.undecided("completion", earleyRel+" is gone")
		return
	}
	x.tt = p.lookupType(path, "TokenType")
	ct := p.lookupType(path, "ContextualToken")
	tok := p.lookupType(path, "Tokhan")
	if x.tt == nil || ct == nil || tok == nil {
		r.undecided("completion", "TokenType, ContextualToken or Tokhan is gone")
		return
	}
	if s, ok := ct.Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			if pt, ok := s.Field(i).Type().(*types.Pointer); ok {
				x.ctxT = pt.Elem()
			}
		}
	}
	if x.ctxT == nil {
		r.undecided("ContextualToken", "it doesn't refer to what is known of the query")
		return
	}
	var odd map[*ssa.Global]bool
	x.maps, odd = mapLiterals(x.sp)
	for g, es := range x.maps {
		mt := deref(g.Type()).Underlying().(*types.Map)
		if _, ok := mt.Elem().Underlying().(*types.Map); ok && types.Identical(mt.Key(), x.tt) && !odd[g] {
			x.words = g
			for _, e := range es {
				if ld, ok := e.val.(*ssa.UnOp); ok && e.key != nil {
					if lg, ok := ld.X.(*ssa.Global); ok {
						x.lists[constant.StringVal(e.key)] = lg
					}
				} else if e.key != nil {
					x.lists[constant.StringVal(e.key)] = nil
				}
			}
		}
	}
	if x.words == nil {
		r.undecided("the lists of words", "no table of lists by kind of token was found")
		return
	}
	// the completer
	mk := p.fn(earleyRel, "NewPromQLCompleter")
	if mk == nil {
		r.undecided("completion", "NewPromQLCompleter is gone")
		return
	}
	run := newNrun(p)
	outs := run.call(mk, []tm{tmSym("@index")}, nil, newNstate(), "new", 0)
	if run.why != "" || len(outs) != 1 || outs[0].res[0].k != "iface" {
		r.undecided(fnName(mk), "what it makes isn't known: "+run.why)
		return
	}
	x.base, x.self = outs[0].st, outs[0].res[0].parts[0]
	x.gen = p.method(outs[0].res[0].typ, "GenerateSuggestions")
	if x.gen == nil || x.gen.Blocks == nil {
		r.undecided("completion", "GenerateSuggestions is gone")
		return
	}
	kinds := map[string]string{}
	scope := x.sp.Pkg.Scope()
	for _, n := range scope.Names() {
		if c, ok := scope.Lookup(n).(*types.Const); ok && types.Identical(c.Type(), x.tt) {
			kinds[constant.StringVal(c.Val())] = n
		}
	}
	kind := func(name string) string {
		c := p.lookupConst(path, name)
		if c == nil {
			r.undecided("kinds of tokens", name+" is gone")
			return "?" + name
		}
		return constant.StringVal(c.Val())
	}
	metric, label, str, dur := kind("METRIC_ID"), kind("METRIC_LABEL_SUBTYPE"), kind("STRING"), kind("DURATION")
	var names []string
	for k := range kinds {
		names = append(names, k)
	}
	sort.Strings(names)
	special := map[string]bool{metric: true, label: true, str: true, dur: true}
	var todo []offerCase
	do := func(c offerCase) { todo = append(todo, c) }
	var offered []string
	for _, k := range names {
		_, listed := x.lists[k]
		ctxs := [][]string{nil}
		switch {
		case k == label || k == str:
			ctxs = [][]string{nil, {metric}, {metric, label}, {label}, {metric, label, str, "?"}, {"old " + metric, "old " + label, metric, label}}
		case k == metric:
			ctxs = [][]string{nil, {metric, label}}
		}
		if listed || special[k] {
			offered = append(offered, k)
		}
		for _, ctx := range ctxs {
			for _, in := range []bool{true, false} {
				do(offerCase{kinds: []string{k}, about: k, in: in, ctx: ctx})
			}
		}
	}
	// none takes another's away
	first := ""
	for _, k := range offered {
		if !special[k] && first == "" {
			first = k
		}
	}
	for _, k := range offered {
		others := []string{metric, first}
		if special[k] {
			others = []string{metric, label, str, first}
		}
		for _, o := range others {
			if o == k {
				continue
			}
			if k != dur {
				do(offerCase{kinds: []string{o, k}, about: k, in: true, ctx: []string{metric, label}})
			}
			do(offerCase{kinds: []string{k, o}, about: k, in: true, ctx: []string{metric, label}})
		}
	}
	const workers = 8
	runs := make([]offerRun, workers)
	var wg sync.WaitGroup
	for i := range runs {
		w := &runs[i]
		*w = *x
		w.fns = map[*ssa.Function]bool{}
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					x.r.undecided("the analysis", fmt.Sprintf("internal failure: %v\n%s", e, debug.Stack()))
				}
			}()
			for n := i; n < len(todo) && !w.stop; n += workers {
				w.run(todo[n], metric, label, str, dur, tok)
			}
		}(i)
	}
	wg.Wait()
	for i := range runs {
		w := &runs[i]
		x.paths += w.paths
		if w.steps > x.steps {
			x.steps = w.steps
		}
		for f := range w.fns {
			x.fns[f] = true
		}
	}
	x.units(dur)
	x.prompt()
	r.atLeast("kinds", len(offered), 17)
	r.atLeast("cases", len(todo), 140)
	r.atLeast("paths", x.paths, 800)
	r.atLeast("functions", len(x.fns), 12)
	r.cover("steps", x.steps)
	r.assume("what the parser is asked about is what the lexer makes of the text", "the index's lookups give what C19 says", "quoting different texts gives different texts")
}

// initVal gives the value that a variable of the package has from the start.
func (x *offerRun) initVal(r *nrun, st *nstate, g *ssa.Global) (tm, bool) {
	id := "g:" + g.Pkg.Pkg.Path() + "." + g.Name()
	var val ssa.Value
	init := g.Pkg.Func("init")
	n := 0
	for _, ref := range globalStores(x.p, g) {
		n++
		if ref.Parent() == init {
			val = ref.Val
		}
	}
	if n != 1 || val == nil {
		return tm{}, false
	}
	v, ok := x.initOf(r, st, val, id, 0)
	if ok {
		st.mem[id] = v
	}
	return v, ok
}

func globalStores(p *Program, g *ssa.Global) []*ssa.Store {
	var out []*ssa.Store
	fns := append([]*ssa.Function{g.Pkg.Func("init")}, p.Funcs...)
	seen := map[*ssa.Function]bool{}
	for _, fn := range fns {
		if fn == nil || fn.Pkg != g.Pkg || seen[fn] {
			continue
		}
		seen[fn] = true
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				if s, ok := i.(*ssa.Store); ok && s.Addr == g {
					out = append(out, s)
				}
			}
		}
	}
	return out
}

func (x *offerRun) initOf(r *nrun, st *nstate, v ssa.Value, id string, d int) (tm, bool) {
	if d > 6 {
		return tm{}, false
	}
	switch v := v.(type) {
	case *ssa.Const:
		return r.val(npath{}, v), true
	case *ssa.UnOp:
		if g, ok := v.X.(*ssa.Global); ok {
			gid := "g:" + g.Pkg.Pkg.Path() + "." + g.Name()
			if y, ok := st.mem[gid]; ok {
				return y, true
			}
			return x.global(r, st, g)
		}
	case *ssa.ChangeType:
		return x.initOf(r, st, v.X, id, d+1)
	case *ssa.Slice:
		al, ok := v.X.(*ssa.Alloc)
		if !ok {
			return tm{}, false
		}
		at, ok := deref(al.Type()).Underlying().(*types.Array)
		if !ok || at.Len() > 200 {
			return tm{}, false
		}
		l := &nlist{exact: true, maybe: map[string]bool{}, items: make([]tm, at.Len())}
		for i := range l.items {
			l.items[i] = r.zero(at.Elem())
		}
		for _, ref := range *al.Referrers() {
			ia, ok := ref.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			c, ok := ia.Index.(*ssa.Const)
			if !ok {
				return tm{}, false
			}
			for _, ref := range *ia.Referrers() {
				if s, ok := ref.(*ssa.Store); ok {
					e, ok := x.initOf(r, st, s.Val, id+"'", d+1)
					if !ok {
						return tm{}, false
					}
					l.items[c.Int64()] = e
				}
			}
		}
		lid := fmt.Sprintf("%s.list%d", id, d)
		st.lists[lid] = l
		return tm{k: "list", id: lid}, true
	case *ssa.Call:
		fn := v.Call.StaticCallee()
		if fn == nil || fn.Blocks == nil {
			return tm{}, false
		}
		var args []tm
		for _, a := range v.Call.Args {
			y, ok := x.initOf(r, st, a, id, d+1)
			if !ok {
				return tm{}, false
			}
			args = append(args, y)
		}
		// as the program starts
		sub := newNrun(x.p)
		sub.global = x.global
		s := newNstate()
		for k, l := range st.lists {
			if strings.HasPrefix(k, "g:") {
				s.lists[k] = l
			}
		}
		outs := sub.call(fn, args, nil, s, "init:"+id, 0)
		if sub.why != "" || len(outs) != 1 || len(outs[0].res) != 1 {
			return tm{}, false
		}
		for k, m := range outs[0].st.maps {
			st.maps[k] = m
		}
		for k, l := range outs[0].st.lists {
			st.lists[k] = l
		}
		return outs[0].res[0], true
	case *ssa.MakeMap:
		m := &nmap{maybe: map[string]bool{}}
		for _, ref := range *v.Referrers() {
			if u, ok := ref.(*ssa.MapUpdate); ok && u.Map == v {
				k, ok := x.initOf(r, st, u.Key, id+"'", d+1)
				e, ok2 := x.initOf(r, st, u.Value, id+"'", d+1)
				if !ok || !ok2 || !k.isConst() {
					return tm{}, false
				}
				m.ents = append(m.ents, nent{k, e})
			}
		}
		mid := fmt.Sprintf("%s.map%d", id, d)
		st.maps[mid] = m
		return tm{k: "map", id: mid}, true
	}
	return tm{}, false
}

func (x *offerRun) global(r *nrun, st *nstate, g *ssa.Global) (tm, bool) {
	id := "@g:" + g.Name()
	if g == x.words {
		if st.maps[id] == nil {
			m := &nmap{maybe: map[string]bool{}}
			for _, e := range x.maps[g] {
				k := constant.StringVal(e.key)
				to := "@w:" + k
				if lg := x.lists[k]; lg != nil {
					to = "@g:" + lg.Name()
				}
				m.ents = append(m.ents, nent{tmStr(k), tm{k: "map", id: to}})
			}
			st.maps[id] = m
		}
		return tm{k: "map", id: id}, true
	}
	if st.maps[id] != nil {
		return tm{k: "map", id: id}, true
	}
	return x.initVal(r, st, g)
}

// noted gives a state in which the parser has noted these tokens of the query.
func (x *offerRun) noted(st *nstate, kinds []string, metric, label string, tok types.Type) (*nstate, bool) {
	var note *ssa.Function
	for _, m := range x.p.repoMethods(earleyRel) {
		if m.Blocks == nil || m.Signature.Recv() == nil || !types.Identical(deref(m.Signature.Recv().Type()), x.ctxT) || m.Synthetic != "" {
			continue
		}
		for _, pa := range m.Params[1:] {
			if types.Identical(deref(pa.Type()), tok) {
				note = m
			}
		}
	}
	if note == nil {
		x.r.undecided("what is noted of the query", "no method takes a token")
		return nil, false
	}
	ts := tok.Underlying().(*types.Struct)
	run := newNrun(x.p)
	run.store(st, "@ctx", run.zero(x.ctxT), x.ctxT)
	for i, k := range kinds {
		t := tm{k: "struct"}
		text := tmSym(fmt.Sprintf("@other%d", i))
		switch k {
		case metric:
			text = tmSym("@metric")
		case label:
			text = tmSym("@label")
		}
		k = strings.TrimPrefix(k, "old ")
		kt := tmStr(k)
		if k == "?" {
			kt = tmSym("@otherkind")
			for _, o := range []string{metric, label} {
				st.facts[eqKey(kt, tmStr(o))] = false
			}
		}
		for j := 0; j < ts.NumFields(); j++ {
			v := tmSym(fmt.Sprintf("@token%d.%d", i, j))
			switch {
			case types.Identical(ts.Field(j).Type(), x.tt):
				v = kt
			case ts.Field(j).Name() == "Val":
				v = text
			}
			t.parts = append(t.parts, v)
		}
		args := []tm{{k: "addr", id: "@ctx"}}
		for _, pa := range note.Params[1:] {
			pt, isPtr := pa.Type().(*types.Pointer)
			switch {
			case types.Identical(deref(pa.Type()), tok) && isPtr:
				a := fmt.Sprintf("@tok%d", i)
				run.store(st, a, t, tok)
				args = append(args, tm{k: "addr", id: a})
			case types.Identical(pa.Type(), tok):
				args = append(args, t)
			case isPtr && types.Identical(pt.Elem(), x.tt):
				a := fmt.Sprintf("@kind%d", i)
				st.mem[a] = kt
				args = append(args, tm{k: "addr", id: a})
			case types.Identical(pa.Type(), x.tt):
				args = append(args, kt)
			default:
				args = append(args, tmSym("@arg"))
			}
		}
		outs := run.call(note, args, nil, st, fmt.Sprintf("note%d", i), 0)
		if run.why != "" || len(outs) == 0 {
			x.r.undecided(fnName(note), "what it notes isn't known: "+run.why)
			return nil, false
		}
		if k != "?" && len(outs) != 1 {
			x.r.undecided(fnName(note), fmt.Sprintf("it may do %d different things for a '%s'", len(outs), k))
			return nil, false
		}
		st = outs[0].st
		for _, o := range outs[1:] {
			// other tokens change nothing that matters: take one that does
			if changedCtx(st, o.st) {
				x.r.violate("what is known of the query is lost", x.p.position(note.Pos()), fnName(note), "other tokens than names and labels may change the noted name or label")
				return nil, false
			}
		}
	}
	st.facts = map[string]bool{}
	return st, true
}

func changedCtx(a, b *nstate) bool {
	for k, v := range a.mem {
		if strings.HasPrefix(k, "@ctx.") && v.k == "addr" && (b.mem[k].k != "addr" || a.mem[v.id].key() != b.mem[b.mem[k].id].key()) {
			return true
		}
	}
	return false
}

// query prepares a run.
func (x *offerRun) newRun(c offerCase) *nrun {
	run := newNrun(x.p)
	run.tracked = []tm{symX, app("strconv.Quote", symX)}
	run.global = x.global
	run.content = func(st *nstate, e tm) []tm { return []tm{x.textOf(run, st, e)} }
	run.ext = func(r *nrun, st *nstate, name string, sig *types.Signature, args []tm, at string) ([]nout, bool) {
		res := sig.Results()
		if strings.HasPrefix(name, "(iface).") && len(args) > 0 && args[0].key() == "@index" {
			s := st.clone()
			m := &nmap{open: true, maybe: map[string]bool{}}
			about := ""
			switch {
			case len(args) == 1:
				about = "METRIC_ID"
			case len(args) == 2 && args[1].key() == "@metric":
				about = "METRIC_LABEL_SUBTYPE"
			case len(args) == 3 && args[1].key() == "@metric" && args[2].key() == "@label":
				about = "STRING"
			}
			if about != "" && c.name == about && c.in {
				m.ents = []nent{{symX, unit}}
			} else if about != "" {
				m.absent = []tm{symX}
			}
			id := r.short("@found", at)
			s.maps[id] = m
			return []nout{{s, []tm{{k: "map", id: id}}}}, true
		}
		if res.Len() == 1 {
			switch {
			case isNamed(res.At(0).Type(), modPath+"/"+earleyRel, "Tokens") && len(args) > 0:
				t := app("lexed", args[len(args)-1])
				for _, a := range args {
					if isApp(a, "part") || a.key() == "@query" || a.k == "str" {
						t = app("lexed", a)
					}
				}
				return []nout{{st, []tm{t}}}, true
			case types.Identical(res.At(0).Type(), types.NewSlice(x.p.lookupType(modPath+"/"+earleyRel, "ContextualToken"))):
				s := st.clone()
				for _, a := range args {
					if isApp(a, "lexed") {
						s.ev["asked "+a.parts[0].key()] = true
					}
				}
				if len(s.ev) == 0 {
					s.ev["asked ?"] = true
				}
				return []nout{{s, []tm{{k: "list", id: "@next"}}}}, true
			}
		}
		return nil, false
	}
	return run
}

// textOf is the text of a match.
func (x *offerRun) textOf(run *nrun, st *nstate, e tm) tm {
	if e.k != "iface" {
		return e
	}
	m := x.p.method(e.typ, "GetValue")
	if m == nil || m.Blocks == nil {
		return tmSym("?text")
	}
	sub := newNrun(x.p)
	outs := sub.call(m, []tm{e.parts[0]}, nil, st, "text", 0)
	if sub.why != "" || len(outs) != 1 || len(outs[0].res) != 1 {
		return tmSym("?text")
	}
	x.fns[m] = true
	return outs[0].res[0]
}

func (x *offerRun) run(c offerCase, metric, label, str, dur string, tok types.Type) {
	fn := x.gen
	pos := x.p.position(fn.Pos())
	st, ok := x.noted(x.base.clone(), c.ctx, metric, label, tok)
	if !ok {
		x.stop = true
		return
	}
	switch c.about {
	case metric:
		c.name = "METRIC_ID"
	case label:
		c.name = "METRIC_LABEL_SUBTYPE"
	case str:
		c.name = "STRING"
	}
	// the lists
	inTable := map[*ssa.Global]bool{}
	for _, g := range x.lists {
		inTable[g] = true
	}
	list := func(id string, in bool) {
		m := &nmap{open: true, maybe: map[string]bool{}}
		if in {
			m.ents = []nent{{symX, tmSym("@described")}}
		} else {
			m.absent = []tm{symX}
		}
		st.maps[id] = m
	}
	for g := range x.maps {
		mt := deref(g.Type()).Underlying().(*types.Map)
		if !isStringish(mt.Key()) || !isStringish(mt.Elem()) {
			continue
		}
		in := c.about == dur && !inTable[g] || c.about != dur && inTable[g] && x.lists[c.about] == g
		list("@g:"+g.Name(), in && c.in)
	}
	for k, g := range x.lists {
		if g == nil {
			list("@w:"+k, k == c.about && c.in)
		}
	}
	next := &nlist{exact: true, maybe: map[string]bool{}}
	ct := x.p.lookupType(modPath+"/"+earleyRel, "ContextualToken").Underlying().(*types.Struct)
	for _, k := range c.kinds {
		t := tm{k: "struct"}
		for i := 0; i < ct.NumFields(); i++ {
			if types.Identical(ct.Field(i).Type(), x.tt) {
				t.parts = append(t.parts, tmStr(k))
			} else if k == metric {
				t.parts = append(t.parts, tmNil())
			} else {
				t.parts = append(t.parts, tm{k: "addr", id: "@ctx"})
			}
		}
		next.items = append(next.items, t)
	}
	st.lists["@next"] = next
	run := x.newRun(c)
	q, cur := tmSym("@query"), tmSym("@cursor")
	outs := run.call(fn, []tm{x.self, q, cur}, nil, st, "", 0)
	if run.why != "" {
		x.r.undecided(fnName(fn), run.why)
		x.stop = true
		return
	}
	for f := range run.fns {
		x.fns[f] = true
	}
	x.paths += len(outs)
	if run.steps > x.steps {
		x.steps = run.steps
	}
	what := fmt.Sprintf("the grammar allows %s; the query so far has %v", strings.Join(c.kinds, ", then "), c.ctx)
	if len(outs) == 0 {
		x.r.violate("no way through", pos, fnName(fn), what)
	}
	has := func(ks ...string) bool {
		for _, k := range ks {
			found := false
			for _, o := range c.ctx {
				found = found || o == k
			}
			if !found {
				return false
			}
		}
		return true
	}
	word := symX
	expect := c.in
	_, listed := x.lists[c.about]
	switch {
	case c.about == label:
		expect = expect && has(metric)
	case c.about == str:
		expect = expect && has(metric, label)
		word = app("strconv.Quote", symX)
	case c.about == metric || c.about == dur || listed:
	default:
		expect = false
	}
	for _, o := range outs {
		x.outcome(run, o, c, what, word, expect, c.about == dur, !listed && c.name == "" && c.about != dur)
	}
}

func (x *offerRun) outcome(run *nrun, o nout, c offerCase, what string, word tm, expect, isDur, nothing bool) {
	fn := x.gen
	pos := x.p.position(fn.Pos())
	bad := func(rule, msg string) {
		x.r.violate(rule, pos, fnName(fn), what+": "+msg)
	}
	q, cur := tmSym("@query"), tmSym("@cursor")
	// what the grammar was asked about
	var rest tm
	asked := 0
	for e := range o.st.ev {
		if !strings.HasPrefix(e, "asked ") {
			continue
		}
		asked++
		var s [3]tm
		ok := false
		for id, p := range run.slices {
			if id == strings.TrimPrefix(e, "asked ") {
				s, ok = p, true
			}
		}
		if !ok || s[0].key() != q.key() || s[1].key() != "0" {
			bad("the grammar is asked about something else", "it is asked about "+strings.TrimPrefix(e, "asked ")+" rather than the query up to the word that is being typed")
			return
		}
		rest = run.substr(q, s[2], cur)
		if w := separators(s[2]); w != "" {
			bad("the word begins elsewhere", w)
			return
		}
	}
	if asked != 1 {
		bad("the grammar isn't asked", fmt.Sprintf("on some path, the parser is asked %d times what may come next", asked))
		return
	}
	offered := false
	if len(o.res) != 1 {
		return
	}
	l := o.res[0]
	switch {
	case l.k == "nil":
	case l.k == "list" && o.st.lists[l.id] != nil:
		nl := o.st.lists[l.id]
		if nl.open {
			bad("anything may be offered", "some of the matches aren't known")
			return
		}
		if len(nl.items) > 0 && nothing {
			bad("something is offered", "nothing is known of such words")
			return
		}
		for _, e := range nl.items {
			t := x.textOf(run, o.st, e)
			switch o.st.eq(t, word) {
			case 1:
				offered = true
			case 0:
				if len(c.kinds) > 1 {
					continue
				}
				bad("something else is offered", "a match's text may be "+t.key())
				return
			}
		}
		if nl.maybe[word.key()] && !offered && len(c.kinds) == 1 {
			bad("something else is offered", "other matches may have this word's text")
			return
		}
	default:
		bad("anything may be offered", "the matches aren't known: "+l.key())
		return
	}
	if isDur {
		x.duration(o, c, what, rest, offered, expect)
		return
	}
	fits := o.st.decide(app("strings.HasPrefix", word, rest))
	empty := o.st.eq(rest, tmStr(""))
	if empty == 1 {
		fits = 1
	}
	switch {
	case offered && !expect:
		bad("a word that doesn't fit is offered", "it is offered a word that isn't in the index, in the list, or doesn't belong to the query's metric")
	case offered && fits == -1:
		bad("a word that doesn't fit is offered", "it doesn't begin with what was typed")
	case offered && fits == 0:
		bad("a word that doesn't fit is offered", "whether it begins with what was typed isn't checked")
	case !offered && expect && fits == 1:
		bad("a word isn't offered", "it fits and begins with what was typed")
	case !offered && expect && fits == 0 && len(c.kinds) == 1:
		bad("a word isn't offered", "without looking whether it begins with what was typed")
	case !offered && expect && fits == 0:
		bad("a word isn't offered", "without looking whether it begins with what was typed, when something else may come next, too")
	}
}

// separators tells what is wrong with where the word begins.
func separators(at tm) string {
	at = addTm(at, tmInt(0), 1)
	if len(at.parts) != 1 || !strings.HasPrefix(at.parts[0].id, "strings.LastIndexAny(") {
		return ""
	}
	if at.parts[0].n != 1 || at.n != 1 {
		return "it doesn't begin right after the separator"
	}
	i := strings.LastIndex(at.parts[0].id, `,"`)
	if i < 0 {
		return ""
	}
	s := strings.TrimSuffix(at.parts[0].id[i+1:], ")")
	var seps string
	if _, err := fmt.Sscanf(s, "%q", &seps); err != nil {
		return ""
	}
	for _, c := range " []{}()+-*/%^=!><~," {
		if !strings.ContainsRune(seps, c) {
			return fmt.Sprintf("%q doesn't end the word before", c)
		}
	}
	for _, c := range seps {
		if c == '_' || c == ':' || c == '"' || c == '.' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' {
			return fmt.Sprintf("%q ends a word though it may be a part of one", c)
		}
	}
	return ""
}

// duration: the units of time are offered after a number.
func (x *offerRun) duration(o nout, c offerCase, what string, rest tm, offered, expect bool) {
	fn := x.gen
	bad := func(rule, msg string) {
		x.r.violate(rule, x.p.position(fn.Pos()), fnName(fn), what+": "+msg)
	}
	number, known := false, false
	colon, knowColon := o.st.facts[app("strings.Contains", rest, tmStr(":")).id]
	for f, yes := range o.st.facts {
		for _, num := range []string{"eq(#1(strconv.Atoi(", "eq(#1(strconv.ParseInt(", "eq(#1(strconv.ParseUint("} {
			if !strings.HasPrefix(f, num) {
				continue
			}
			arg := strings.TrimPrefix(f, num)
			if !strings.Contains(arg, rest.key()) {
				continue
			}
			if knowColon && colon && (strings.HasPrefix(arg, rest.key()+")") || strings.Contains(arg, "[0])")) {
				bad("units after something else", "before a colon, it isn't the number that was typed last")
			}
			number, known = yes, true
		}
	}
	if o.st.eq(rest, tmStr("")) == 1 {
		number, known = false, true
	}
	switch {
	case offered && !expect:
		bad("a word that doesn't fit is offered", "it isn't a unit of time")
	case offered && !number:
		bad("a unit of time without a number is offered", "whether a number was typed isn't checked")
	case !offered && expect && (number || !known):
		bad("a unit of time isn't offered", "after a number")
	}
}

// units: the parser knows the units of time.
func (x *offerRun) units(dur string) {
	dep, err := loadDep(parserPkg)
	if err != nil {
		x.r.undecided("the query parser", err.Error())
		return
	}
	known := ""
	for fn := range depFns(dep) {
		if !strings.Contains(strings.ToLower(fn.Name()), "duration") {
			continue
		}
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				call, ok := i.(*ssa.Call)
				if !ok {
					continue
				}
				for _, a := range call.Call.Args {
					if k, ok := a.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String && strings.Contains(constant.StringVal(k.Value), "h") && !strings.ContainsAny(constant.StringVal(k.Value), " %0") {
						known += constant.StringVal(k.Value)
					}
				}
			}
		}
	}
	x.r.atLeast("units_of_time", len(known), 5)
	inTable := map[*ssa.Global]bool{}
	for _, g := range x.lists {
		inTable[g] = true
	}
	n := 0
	for g, es := range x.maps {
		mt := deref(g.Type()).Underlying().(*types.Map)
		if !isStringish(mt.Key()) || !isStringish(mt.Elem()) || inTable[g] {
			continue
		}
		for _, e := range es {
			if e.key == nil {
				continue
			}
			n++
			if u := constant.StringVal(e.key); len(u) != 1 || !strings.Contains(known, u) {
				x.r.violate("not a unit of time", x.p.position(e.pos), g.Name(), fmt.Sprintf("%q isn't a unit of time (%s)", u, known))
			}
		}
	}
	for _, u := range known {
		found := false
		for g, es := range x.maps {
			if inTable[g] {
				continue
			}
			for _, e := range es {
				found = found || e.key != nil && e.key.Kind() == constant.String && constant.StringVal(e.key) == string(u)
			}
		}
		if !found {
			x.r.violate("a unit of time is missing", x.p.position(x.words.Pos()), dur, fmt.Sprintf("%q isn't offered", u))
		}
	}
}

func depFns(sp *ssa.Package) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	for _, m := range sp.Members {
		if f, ok := m.(*ssa.Function); ok {
			out[f] = true
		}
	}
	return out
}

// prompt: the prompt is given each match.
func (x *offerRun) prompt() {
	n := 0
	for _, m := range x.p.Funcs {
		if m.Blocks == nil || m.Signature.Recv() == nil || m.Signature.Params().Len() != 1 || m.Signature.Results().Len() != 1 {
			continue
		}
		if !isNamed(m.Signature.Params().At(0).Type(), promptPkg, "Document") {
			continue
		}
		sl, ok := m.Signature.Results().At(0).Type().(*types.Slice)
		if !ok || !isNamed(sl.Elem(), promptPkg, "Suggest") {
			continue
		}
		n++
		x.complete(m, sl.Elem().Underlying().(*types.Struct))
	}
	x.r.atLeast("completers", n, 1)
}

func (x *offerRun) complete(fn *ssa.Function, sug *types.Struct) {
	pos := x.p.position(fn.Pos())
	run := newNrun(x.p)
	match := tmSym("@match")
	run.tracked = []tm{match, app("text", match)}
	before, all := tmSym("@before"), tmSym("@all")
	text := 0
	for i := 0; i < sug.NumFields(); i++ {
		if sug.Field(i).Name() == "Text" {
			text = i
		}
	}
	run.content = func(st *nstate, e tm) []tm {
		if e.k == "struct" && text < len(e.parts) {
			return []tm{e.parts[text]}
		}
		return []tm{e}
	}
	run.ext = func(r *nrun, st *nstate, name string, sig *types.Signature, args []tm, at string) ([]nout, bool) {
		switch {
		case strings.HasSuffix(name, "Document).TextBeforeCursor"):
			return []nout{{st, []tm{before}}}, true
		case strings.HasSuffix(name, "(iface).GetValue") && len(args) == 1:
			return []nout{{st, []tm{app("text", args[0])}}}, true
		case strings.HasPrefix(name, "(iface).Get") && len(args) == 1:
			return []nout{{st, []tm{app(name, args[0])}}}, true
		case strings.HasSuffix(name, ".GenerateSuggestions") && len(args) == 3:
			s := st.clone()
			ok := args[2].key() == addTm(app("len", before), tmInt(0), 1).key() && (args[1].key() == all.key() || args[1].key() == before.key())
			s.ev[fmt.Sprintf("asked %v", ok)] = true
			s.lists["@matches"] = &nlist{items: []tm{match}, open: true, maybe: map[string]bool{}}
			return []nout{{s, []tm{{k: "list", id: "@matches"}}}}, true
		}
		return nil, false
	}
	dt := fn.Signature.Params().At(0).Type()
	ds := deref(dt).Underlying().(*types.Struct)
	doc := tm{k: "struct"}
	for i := 0; i < ds.NumFields(); i++ {
		v := tmSym("@doc." + ds.Field(i).Name())
		if ds.Field(i).Name() == "Text" {
			v = all
		}
		doc.parts = append(doc.parts, v)
	}
	st := newNstate()
	if _, ok := dt.(*types.Pointer); ok {
		run.store(st, "@doc", doc, deref(dt))
		doc = tm{k: "addr", id: "@doc"}
	}
	outs := run.call(fn, []tm{{k: "addr", id: "@completer"}, doc}, nil, st, "", 0)
	if run.why != "" {
		x.r.undecided(fnName(fn), run.why)
		return
	}
	for f := range run.fns {
		x.fns[f] = true
	}
	x.paths += len(outs)
	for _, o := range outs {
		if o.st.ev["asked false"] {
			x.r.violate("completed elsewhere", pos, fnName(fn), "completion isn't asked about the text up to the cursor")
			continue
		}
		if !o.st.ev["asked true"] {
			if o.st.eq(before, tmStr("")) != 1 {
				x.r.violate("nothing is offered", pos, fnName(fn), "completion isn't asked though something was typed")
			}
			continue
		}
		res := o.res[0]
		found, other := false, ""
		nl := o.st.lists[res.id]
		if res.k != "list" || nl == nil {
			x.r.violate("a match isn't shown", pos, fnName(fn), "what is shown isn't known: "+res.key())
			continue
		}
		var texts []tm
		for _, e := range nl.items {
			texts = append(texts, run.content(o.st, e)...)
		}
		for k, v := range o.st.mem {
			if strings.HasPrefix(k, res.id+"[") && strings.HasSuffix(k, fmt.Sprintf("].%d", text)) {
				// at the place of the match
				if nl.n != nil && nl.n.key() == run.length(o.st, tm{k: "list", id: "@matches"}).key() {
					texts = append(texts, v)
				}
			}
		}
		for _, t := range texts {
			switch {
			case t.key() == app("text", match).key():
				found = true
			default:
				other = t.key()
			}
		}
		if !found {
			x.r.violate("a match isn't shown", pos, fnName(fn), "on some path, a match isn't among what the prompt is given")
		}
		if other != "" && !strings.Contains(other, "?stale") {
			x.r.violate("something else is shown", pos, fnName(fn), "the prompt is given "+other)
		}
	}
}
