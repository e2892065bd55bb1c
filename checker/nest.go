package main

import (
	"crypto/sha1"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// This is an interpreter for code that handles nested collections: single elements, chosen by the caller,
// are followed through maps, sets, lists and loops by name; all other elements are reduced to one
// symbol per loop that stands for any of them. Values that aren't known are terms, and conditions
// on them are followed both ways and remembered.

// tm is a term.
type tm struct {
	k     string // sym str int bool nil map list struct addr iface tuple fn iter
	id    string
	n     int64 // the constant part of an int; a bool; the factor of a symbol in an int
	parts []tm
	typ   types.Type
	fn    *ssa.Function
}

func (t tm) key() string {
	var b strings.Builder
	switch t.k {
	case "sym":
		return t.id
	case "str":
		return fmt.Sprintf("%q", t.id)
	case "int", "bool":
		fmt.Fprintf(&b, "%d", t.n)
		if t.k == "bool" {
			b.WriteString("b")
		}
		for _, p := range t.parts {
			fmt.Fprintf(&b, "%+d*%s", p.n, p.id)
		}
		return b.String()
	}
	b.WriteString(t.k + ":" + t.id)
	if t.fn != nil {
		b.WriteString(t.fn.String())
	}
	if len(t.parts) > 0 {
		b.WriteString("{")
		for i, p := range t.parts {
			if i > 0 {
				b.WriteString(" ")
			}
			b.WriteString(p.key())
		}
		b.WriteString("}")
	}
	return b.String()
}

func tmSym(id string) tm   { return tm{k: "sym", id: id} }
func tmStr(s string) tm    { return tm{k: "str", id: s} }
func tmInt(n int64) tm     { return tm{k: "int", n: n} }
func tmNil() tm            { return tm{k: "nil"} }
func (t tm) isConst() bool { return t.k == "str" || t.k == "int" && len(t.parts) == 0 || t.k == "bool" }

func tmBool(b bool) tm {
	if b {
		return tm{k: "bool", n: 1}
	}
	return tm{k: "bool"}
}

// app is what a function without effects gives for the arguments.
func app(fn string, args ...tm) tm {
	ks := make([]string, len(args))
	for i, a := range args {
		ks[i] = a.key()
	}
	return tm{k: "sym", id: fn + "(" + strings.Join(ks, ",") + ")", parts: args}
}

func isApp(t tm, fn string) bool { return t.k == "sym" && strings.HasPrefix(t.id, fn+"(") }

// addTm adds ints: a + f*b.
func addTm(a, b tm, f int64) tm {
	co := map[string]int64{}
	n := int64(0)
	take := func(t tm, f int64) {
		switch t.k {
		case "int":
			n += f * t.n
			for _, p := range t.parts {
				co[p.id] += f * p.n
			}
		default:
			co[t.key()] += f
		}
	}
	take(a, 1)
	take(b, f)
	var ids []string
	for id, c := range co {
		if c != 0 {
			ids = append(ids, id)
		}
	}
	sort.Strings(ids)
	out := tm{k: "int", n: n}
	for _, id := range ids {
		out.parts = append(out.parts, tm{k: "sym", id: id, n: co[id]})
	}
	return out
}

type nent struct{ key, val tm }

// nmap is a map. The entries are those that are followed and those that were put in.
type nmap struct {
	ents   []nent
	absent []tm            // these are known not to be there
	open   bool            // there may be others
	rest   bool            // others were put in
	maybe  map[string]bool // perhaps these
}

// nlist is a list, without its order.
type nlist struct {
	items  []tm
	absent []tm // these aren't in it
	exact  bool // the items are all there is, in this order
	open   bool
	rest   bool
	maybe  map[string]bool
	n      *tm    // its length
	mem    string // the list whose memory it may use, if it isn't its own
	over   bool   // it's written over what is there
}

type nstate struct {
	mem    map[string]tm
	facts  map[string]bool
	vals   map[string]tm // terms that are known to be equal to constants
	maps   map[string]*nmap
	lists  map[string]*nlist
	rounds map[string]string // what the loops' rounds are about
	pend   map[string]string // what is still to come in the loops
	ev     map[string]bool   // what happened
}

func newNstate() *nstate {
	return &nstate{map[string]tm{}, map[string]bool{}, map[string]tm{}, map[string]*nmap{}, map[string]*nlist{}, map[string]string{}, map[string]string{}, map[string]bool{}}
}

func (s *nstate) clone() *nstate {
	n := newNstate()
	for k, v := range s.mem {
		n.mem[k] = v
	}
	for k, v := range s.facts {
		n.facts[k] = v
	}
	for k, v := range s.vals {
		n.vals[k] = v
	}
	for k, v := range s.maps {
		n.maps[k] = v
	}
	for k, v := range s.lists {
		n.lists[k] = v
	}
	for k, v := range s.rounds {
		n.rounds[k] = v
	}
	for k, v := range s.pend {
		n.pend[k] = v
	}
	for k := range s.ev {
		n.ev[k] = true
	}
	return n
}

func (m *nmap) copy() *nmap {
	n := *m
	n.ents = append([]nent(nil), m.ents...)
	n.absent = append([]tm(nil), m.absent...)
	n.maybe = map[string]bool{}
	for k := range m.maybe {
		n.maybe[k] = true
	}
	return &n
}

func (l *nlist) copy() *nlist {
	n := *l
	n.items = append([]tm(nil), l.items...)
	n.maybe = map[string]bool{}
	for k := range l.maybe {
		n.maybe[k] = true
	}
	return &n
}

func keysOf(m map[string]bool) string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return strings.Join(out, ",")
}

func (m *nmap) key() string {
	var out []string
	for _, e := range m.ents {
		out = append(out, e.key.key()+"="+e.val.key())
	}
	for _, a := range m.absent {
		out = append(out, "!"+a.key())
	}
	sort.Strings(out)
	return fmt.Sprint(out, m.open, m.rest, keysOf(m.maybe))
}

func (l *nlist) key() string {
	var out []string
	for _, e := range l.items {
		out = append(out, e.key())
	}
	if !l.exact {
		sort.Strings(out)
	}
	return fmt.Sprint(out, l.exact, l.open, l.rest, keysOf(l.maybe), l.mem, l.over)
}

func (s *nstate) key() string {
	var out []string
	for k, v := range s.mem {
		out = append(out, "m"+k+"="+v.key())
	}
	for k, v := range s.facts {
		out = append(out, fmt.Sprint("f", k, v))
	}
	for k, v := range s.vals {
		out = append(out, "v"+k+"="+v.key())
	}
	for k, v := range s.maps {
		out = append(out, "o"+k+"="+v.key())
	}
	for k, v := range s.lists {
		out = append(out, "l"+k+"="+v.key())
	}
	for k, v := range s.rounds {
		out = append(out, "r"+k+"="+v)
	}
	for k, v := range s.pend {
		out = append(out, "p"+k+"="+v)
	}
	for k := range s.ev {
		out = append(out, "e"+k)
	}
	sort.Strings(out)
	return strings.Join(out, "\n")
}

type nout struct {
	st  *nstate
	res []tm
}

type npath struct {
	st     *nstate
	env    map[ssa.Value]tm
	b      *ssa.BasicBlock
	prev   *ssa.BasicBlock
	defers []*ssa.Defer
}

// nrun is a run of the interpreter.
type nrun struct {
	p       *Program
	tracked []tm                  // the terms whose places are followed
	types   map[string]types.Type // their types, where that matters
	// ext tells what a call does that isn't followed into; false: it's up to the interpreter.
	ext func(r *nrun, st *nstate, name string, sig *types.Signature, args []tm, at string) ([]nout, bool)
	// content tells what counts of a list's element.
	content func(st *nstate, e tm) []tm
	global  func(r *nrun, st *nstate, g *ssa.Global) (tm, bool)
	slices  map[string][3]tm // parts of texts
	loops   map[*ssa.Function][]*loopInfo
	fns     map[*ssa.Function]bool
	inits   map[ssa.Value]tm

	unique map[string]int // lists whose elements all differ in this field
	// elem tells what is known of an element that isn't followed.
	elem  func(st *nstate, coll, e tm)
	begin func(st *nstate, coll, e tm) // at the beginning of a round
	skip  func(fn *ssa.Function) bool  // what isn't followed
	max   int                          // how many steps at most
	// gc: what can't be reached anymore is forgotten at each round of a loop.
	gc     bool
	seqs   bool               // the order of sequences is followed
	frames []map[ssa.Value]tm // of the callers
	live   map[*ssa.Function]*liveness
	byPart bool              // calls are followed with what they reach only
	memo   map[string][]nout // what they gave
	steps  int
	paths  int
	why    string
}

func newNrun(p *Program) *nrun {
	return &nrun{p: p, max: 25000, slices: map[string][3]tm{}, loops: map[*ssa.Function][]*loopInfo{}, fns: map[*ssa.Function]bool{}, inits: map[ssa.Value]tm{}}
}

func (r *nrun) giveUp(i ssa.Instruction, what string) {
	if r.why == "" {
		r.why = r.p.instrPos(i) + ": " + what
	}
}

func (r *nrun) loopsOf(fn *ssa.Function) []*loopInfo {
	ls, ok := r.loops[fn]
	if !ok {
		ls = findLoops(r.p, fn)
		r.loops[fn] = ls
	}
	return ls
}

// ---------------------------------------------------------------- conditions

// eq tells whether two terms are equal: 1 yes, -1 no, 0 unknown.
func (s *nstate) eq(a, b tm) int {
	if v, ok := s.vals[a.key()]; ok {
		a = v
	}
	if v, ok := s.vals[b.key()]; ok {
		b = v
	}
	if a.key() == b.key() && a.k != "struct" {
		return 1
	}
	if a.isConst() && b.isConst() {
		return -1
	}
	if isApp(a, "strconv.Quote") && isApp(b, "strconv.Quote") {
		return s.eq(a.parts[0], b.parts[0])
	}
	solid := func(t tm) bool {
		return t.k == "map" || t.k == "list" || t.k == "addr" || t.k == "iface" || t.k == "fn"
	}
	if a.k == "nil" && solid(b) || b.k == "nil" && solid(a) {
		return -1
	}
	if a.k == "map" && b.k == "map" {
		return -1
	}
	if a.k == "int" && b.k == "int" {
		if d := addTm(a, b, -1); len(d.parts) == 0 && d.n != 0 {
			return -1
		}
	}
	if v, ok := s.facts[eqKey(a, b)]; ok {
		if v {
			return 1
		}
		return -1
	}
	// what one of them is equal to
	x, y := a.key(), b.key()
	for f, v := range s.facts {
		if !v || !strings.HasPrefix(f, "eq(") {
			continue
		}
		in := f[len("eq(") : len(f)-1]
		for _, t := range [][2]string{{x, y}, {y, x}} {
			z := ""
			switch {
			case strings.HasPrefix(in, t[0]+","):
				z = in[len(t[0])+1:]
			case strings.HasSuffix(in, ","+t[0]):
				z = in[:len(in)-len(t[0])-1]
			default:
				continue
			}
			p, q := z, t[1]
			if p > q {
				p, q = q, p
			}
			if w, ok := s.facts["eq("+p+","+q+")"]; ok && z != t[1] {
				if w {
					return 1
				}
				return -1
			}
		}
	}
	// every text begins with the empty one
	for _, t := range [][2]tm{{a, b}, {b, a}} {
		if t[0].k == "str" && t[0].id == "" && t[1].k == "sym" {
			for f, v := range s.facts {
				if !v && strings.HasPrefix(f, "strings.HasPrefix(") && strings.HasSuffix(f, ","+t[1].key()+")") {
					return -1
				}
			}
		}
	}
	return 0
}

func eqKey(a, b tm) string {
	x, y := a.key(), b.key()
	if x > y {
		x, y = y, x
	}
	return "eq(" + x + "," + y + ")"
}

func eqTm(a, b tm) tm {
	// the length is zero: the text is empty
	for _, t := range [][2]tm{{a, b}, {b, a}} {
		l := t[0]
		if l.k == "int" && l.n == 0 && len(l.parts) == 1 && l.parts[0].n == 1 {
			l = tmSym(l.parts[0].id)
		}
		if t[1].k == "int" && len(t[1].parts) == 0 && t[1].n == 0 && strings.HasPrefix(l.id, "len(") {
			x := tmSym(strings.TrimSuffix(strings.TrimPrefix(l.id, "len("), ")"))
			return tm{k: "sym", id: eqKey(x, tmStr("")), parts: []tm{x, tmStr("")}}
		}
	}
	return tm{k: "sym", id: eqKey(a, b), parts: []tm{a, b}}
}

// decide tells what a condition is, if that's known.
func (s *nstate) decide(c tm) int {
	if c.k == "bool" {
		return int(2*c.n - 1)
	}
	if strings.HasPrefix(c.id, "!") {
		n := c
		n.id = c.id[1:]
		return -s.decide(n)
	}
	if id := emptied(c); id != "" {
		if d := s.empty(id); d != 0 {
			return d
		}
	}
	if v, ok := s.facts[c.id]; ok {
		if v {
			return 1
		}
		return -1
	}
	if isApp(c, "eq") && len(c.parts) == 2 {
		return s.eq(c.parts[0], c.parts[1])
	}
	if isApp(c, "strings.HasPrefix") && len(c.parts) == 2 {
		if s.eq(c.parts[1], tmStr("")) == 1 || s.eq(c.parts[0], c.parts[1]) == 1 {
			return 1
		}
	}
	return 0
}

// emptied: the condition is that this map or list is empty.
func emptied(c tm) string {
	if !isApp(c, "eq") || len(c.parts) != 2 {
		return ""
	}
	for i, t := range c.parts {
		if o := c.parts[1-i]; t.k == "str" && t.id == "" && o.k == "sym" && (strings.HasPrefix(o.id, "list:") || strings.HasPrefix(o.id, "map:")) {
			return o.id
		}
	}
	return ""
}

func (s *nstate) has(id string) bool {
	return s.lists[strings.TrimPrefix(id, "list:")] != nil || s.maps[strings.TrimPrefix(id, "map:")] != nil
}

// empty tells whether a map or list is.
func (s *nstate) empty(id string) int {
	some, perhaps := false, false
	if l := s.lists[strings.TrimPrefix(id, "list:")]; l != nil && strings.HasPrefix(id, "list:") {
		some, perhaps = len(l.items) > 0, l.open || l.rest || len(l.maybe) > 0 || l.n != nil && !l.exact
	} else if m := s.maps[strings.TrimPrefix(id, "map:")]; m != nil && strings.HasPrefix(id, "map:") {
		some, perhaps = len(m.ents) > 0, m.open || m.rest || len(m.maybe) > 0
	} else {
		return 0
	}
	switch {
	case some:
		return -1
	case perhaps:
		return 0
	}
	return 1
}

// unsized forgets whether a map or list that changes is empty.
func (s *nstate) unsized(id string) {
	delete(s.facts, eqKey(tmSym(id), tmStr("")))
}

// assume gives the state in which the condition holds or doesn't.
func (s *nstate) assume(c tm, yes bool) *nstate {
	if strings.HasPrefix(c.id, "!") {
		c.id = c.id[1:]
		return s.assume(c, !yes)
	}
	n := s.clone()
	if c.k == "bool" {
		return n
	}
	if id := emptied(c); id != "" && s.has(id) {
		if l := s.lists[strings.TrimPrefix(id, "list:")]; l != nil && yes {
			n.lists[strings.TrimPrefix(id, "list:")] = &nlist{exact: true, maybe: map[string]bool{}}
		} else if m := s.maps[strings.TrimPrefix(id, "map:")]; m != nil && yes {
			n.maps[strings.TrimPrefix(id, "map:")] = &nmap{maybe: map[string]bool{}}
		} else {
			n.facts[c.id] = yes
		}
		return n
	}
	n.facts[c.id] = yes
	if isApp(c, "eq") && len(c.parts) == 2 && yes {
		a, b := c.parts[0], c.parts[1]
		if b.isConst() || b.k == "nil" {
			n.vals[a.key()] = b
		} else if a.isConst() || a.k == "nil" {
			n.vals[b.key()] = a
		}
	}
	return n
}

// fork follows both outcomes of a condition, if both are possible.
func (s *nstate) fork(c tm, then func(s *nstate, yes bool)) {
	switch s.decide(c) {
	case 1:
		then(s.clone(), true)
	case -1:
		then(s.clone(), false)
	default:
		then(s.assume(c, true), true)
		then(s.assume(c, false), false)
	}
}

// ---------------------------------------------------------------- maps and lists

type nfound struct {
	st *nstate
	in bool
	v  tm
}

// lookup finds the key's value in a map.
func (r *nrun) lookup(st *nstate, m, k tm) []nfound {
	var out []nfound
	if m.k == "nil" {
		return []nfound{{st.clone(), false, tm{}}}
	}
	orig := k
	if v, ok := st.vals[k.key()]; ok {
		k = v
	}
	o := st.maps[m.id]
	if m.k != "map" || o == nil {
		// nothing is known of the map
		st.fork(app("has", m, k), func(s *nstate, yes bool) {
			out = append(out, nfound{s, yes, tmSym(m.key() + "[" + k.key() + "]")})
		})
		return out
	}
	cur := st
	for _, e := range o.ents {
		switch cur.eq(e.key, k) {
		case 1:
			return append(out, nfound{cur.clone(), true, e.val})
		case 0:
			c := tm{k: "sym", id: eqKey(e.key, k), parts: []tm{e.key, k}}
			out = append(out, nfound{cur.assume(c, true), true, e.val})
			cur = cur.assume(c, false)
		}
	}
	for _, a := range o.absent {
		switch cur.eq(a, k) {
		case 1:
			return append(out, nfound{cur.clone(), false, tm{}})
		case 0:
			c := tm{k: "sym", id: eqKey(a, k), parts: []tm{a, k}}
			out = append(out, nfound{cur.assume(c, true), false, tm{}})
			cur = cur.assume(c, false)
		}
	}
	if !o.open {
		perhaps := o.maybe[k.key()] || o.maybe[orig.key()]
		if o.rest && !perhaps {
			perhaps = true
			for _, t := range r.tracked {
				if v, ok := st.vals[t.key()]; t.key() == orig.key() || ok && v.key() == k.key() && !o.maybe[t.key()] {
					perhaps = false
				}
			}
		}
		if !perhaps {
			return append(out, nfound{cur.clone(), false, tm{}})
		}
	}
	cur.fork(app("has", m, k), func(s *nstate, yes bool) {
		out = append(out, nfound{s, yes, tmSym(m.key() + "[" + k.key() + "]")})
	})
	return out
}

// insert puts a value into a map.
func (r *nrun) insert(st *nstate, m, k, v tm) []*nstate {
	if v2, ok := st.vals[k.key()]; ok {
		k = v2
	}
	o := st.maps[m.id]
	if m.k != "map" || o == nil {
		n := st.clone()
		n.unsized("map:" + m.id)
		n.unsized(m.id)
		n.facts[app("has", m, k).id] = true
		return []*nstate{n}
	}
	var out []*nstate
	cur := st
	for i, e := range o.ents {
		c := tm{k: "sym", id: eqKey(e.key, k), parts: []tm{e.key, k}}
		d := cur.eq(e.key, k)
		if d == -1 {
			continue
		}
		n := cur.clone()
		if d == 0 {
			n = cur.assume(c, true)
		}
		no := o.copy()
		no.ents[i].val = v
		n.maps[m.id] = no
		out = append(out, n)
		if d == 1 {
			return out
		}
		cur = cur.assume(c, false)
	}
	for i, a := range o.absent {
		c := tm{k: "sym", id: eqKey(a, k), parts: []tm{a, k}}
		d := cur.eq(a, k)
		if d == -1 {
			continue
		}
		n := cur.clone()
		if d == 0 {
			n = cur.assume(c, true)
		}
		no := o.copy()
		no.absent = append(no.absent[:i:i], no.absent[i+1:]...)
		no.ents = append(no.ents, nent{a, v})
		n.maps[m.id] = no
		out = append(out, n)
		if d == 1 {
			return out
		}
		cur = cur.assume(c, false)
	}
	n := cur.clone()
	no := o.copy()
	no.ents = append(no.ents, nent{k, v})
	n.maps[m.id] = no
	return append(out, n)
}

// remove takes a key out of a map.
func (r *nrun) remove(st *nstate, m, k tm) []*nstate {
	o := st.maps[m.id]
	if m.k != "map" || o == nil {
		n := st.clone()
		if m.k != "nil" {
			n.unsized("map:" + m.id)
			n.unsized(m.id)
			n.facts[app("has", m, k).id] = false
		}
		return []*nstate{n}
	}
	st = st.clone()
	st.unsized("map:" + m.id)
	var out []*nstate
	cur := st
	for i, e := range o.ents {
		c := tm{k: "sym", id: eqKey(e.key, k), parts: []tm{e.key, k}}
		d := cur.eq(e.key, k)
		if d == -1 {
			continue
		}
		n := cur.clone()
		if d == 0 {
			n = cur.assume(c, true)
		}
		no := o.copy()
		no.ents = append(no.ents[:i:i], no.ents[i+1:]...)
		no.absent = append(no.absent, e.key)
		n.maps[m.id] = no
		out = append(out, n)
		if d == 1 {
			return out
		}
		cur = cur.assume(c, false)
	}
	return append(out, cur.clone())
}

// purge forgets what is known of a symbol, which from now on stands for something else.
func (r *nrun) purge(st *nstate, env map[ssa.Value]tm, sym string) {
	has := func(s string) bool { return strings.Contains(s, sym) }
	dropped := func(maybe map[string]bool, t tm) {
		for _, x := range r.tracked {
			if st.eq(t, x) != -1 {
				maybe[x.key()] = true
			}
		}
	}
	renamed := map[string]string{}
	for k := range st.lists {
		if n := r.lasting(st, env, k, sym); n != "" {
			renamed[k] = n
		}
	}
	keep := func(t tm) (tm, bool) {
		if n := renamed[t.id]; t.k == "list" && n != "" {
			t.id = n
			return t, true
		}
		return t, false
	}
	for k, m := range st.maps {
		if has(k) {
			defer delete(st.maps, k)
			continue
		}
		if !has(m.key()) {
			continue
		}
		n := m.copy()
		n.ents, n.absent = nil, nil
		for _, e := range m.ents {
			if has(e.key.key()) {
				n.rest = true
				dropped(n.maybe, e.key)
				continue
			}
			if has(e.val.key()) {
				if v, ok := keep(e.val); ok {
					e.val = v
				} else {
					e.val = tmSym("?stale")
				}
			}
			n.ents = append(n.ents, e)
		}
		for _, a := range m.absent {
			if !has(a.key()) {
				n.absent = append(n.absent, a)
			}
		}
		st.maps[k] = n
	}
	for k, l := range st.lists {
		to := k
		if has(k) {
			defer delete(st.lists, k)
			if to = renamed[k]; to == "" {
				continue
			}
		}
		if !has(l.key()) {
			st.lists[to] = l
			continue
		}
		n := l.copy()
		if has(n.mem) {
			n.mem = ""
		}
		n.items = nil
		for _, e := range l.items {
			if has(e.key()) {
				n.rest, n.exact = true, false
				if e.k != "sym" {
					// what is in it
					in := symsIn(st, e, 0)
					if r.content != nil {
						in = r.content(st, e)
					}
					for _, w := range in {
						dropped(n.maybe, w)
					}
					continue
				}
				dropped(n.maybe, e)
				continue
			}
			n.items = append(n.items, e)
		}
		st.lists[to] = n
	}
	for k, v := range st.mem {
		if has(k) {
			delete(st.mem, k)
		} else if has(v.key()) {
			n, ok := keep(v)
			if !ok {
				n = tmSym("?stale")
			}
			st.mem[k] = n
		}
	}
	for k := range st.facts {
		if has(k) {
			delete(st.facts, k)
		}
	}
	for k := range st.vals {
		if has(k) {
			delete(st.vals, k)
		}
	}
	for v, t := range env {
		if has(t.key()) {
			n, ok := keep(t)
			if !ok {
				n = tmSym("?stale")
			}
			env[v] = n
		}
	}
}

// lasting gives the name under which a list that was made in a round of a loop is known after it.
func (r *nrun) lasting(st *nstate, env map[ssa.Value]tm, k, sym string) string {
	i := strings.Index(k, sym)
	if i < 0 || strings.Count(k[:i], "‹") != strings.Count(k[:i], "›") {
		return ""
	}
	inner := ""
	if j := strings.Index(sym[len("‹"):], "‹"); j >= 0 {
		inner = strings.TrimSuffix(sym[len("‹")+j:], "›")
	}
	to := k[:i] + inner + k[i+len(sym):]
	if strings.Contains(to, sym) {
		return ""
	}
	for a := range st.mem {
		if strings.HasPrefix(a, k+"[") {
			return ""
		}
	}
	used := false
	for _, v := range st.mem {
		used = used || v.k == "list" && v.id == k
		if strings.Contains(v.key(), "list:"+to) && (v.k != "list" || v.id != k) {
			return "" // the name is taken
		}
	}
	for _, m := range st.maps {
		for _, e := range m.ents {
			used = used || e.val.k == "list" && e.val.id == k
			if strings.Contains(e.val.key(), "list:"+to) && (e.val.k != "list" || e.val.id != k) {
				return ""
			}
		}
	}
	if !used {
		return ""
	}
	for _, f := range append([]map[ssa.Value]tm{env}, r.frames...) {
		for _, v := range f {
			if v.k == "list" && v.id == to {
				return ""
			}
		}
	}
	return to
}

// symsIn lists the symbols that a value is made of.
func symsIn(st *nstate, t tm, d int) []tm {
	if d > 4 {
		return nil
	}
	switch t.k {
	case "sym":
		return []tm{t}
	case "addr":
		var out []tm
		for k, v := range st.mem {
			if k == t.id || strings.HasPrefix(k, t.id+".") {
				out = append(out, symsIn(st, v, d+1)...)
			}
		}
		return out
	}
	var out []tm
	for _, p := range t.parts {
		out = append(out, symsIn(st, p, d+1)...)
	}
	return out
}

// contents gives what is in a list: in its places, and what was appended.
func (st *nstate) contents(l tm) []tm {
	var out []tm
	if o := st.lists[l.id]; o != nil {
		out = append(out, o.items...)
	}
	var ks []string
	for k := range st.mem {
		if strings.HasPrefix(k, l.id+"[") {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		out = append(out, st.mem[k])
	}
	return out
}

// ---------------------------------------------------------------- memory

func (r *nrun) load(st *nstate, a string, t types.Type) tm {
	if s, ok := t.Underlying().(*types.Struct); ok {
		if v, ok := st.mem[a]; ok {
			return v
		}
		out := tm{k: "struct"}
		for i := 0; i < s.NumFields(); i++ {
			out.parts = append(out.parts, r.load(st, fmt.Sprintf("%s.%d", a, i), s.Field(i).Type()))
		}
		return out
	}
	if v, ok := st.mem[a]; ok {
		return v
	}
	return tmSym(a)
}

func (r *nrun) store(st *nstate, a string, v tm, t types.Type) {
	for k := range st.mem {
		if strings.HasPrefix(k, a+".") {
			delete(st.mem, k)
		}
	}
	if s, ok := t.Underlying().(*types.Struct); ok {
		delete(st.mem, a)
		for i := 0; i < s.NumFields(); i++ {
			f := r.field(v, i, s.Field(i).Type())
			r.store(st, fmt.Sprintf("%s.%d", a, i), f, s.Field(i).Type())
		}
		return
	}
	st.mem[a] = v
}

func (r *nrun) field(v tm, i int, t types.Type) tm {
	if v.k == "struct" && i < len(v.parts) {
		return v.parts[i]
	}
	if v.k == "sym" {
		n := tmSym(fmt.Sprintf("%s.%d", v.id, i))
		return n
	}
	return tmSym("?field")
}

func (r *nrun) zero(t types.Type) tm {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return tmBool(false)
		case u.Info()&types.IsInteger != 0:
			return tmInt(0)
		case u.Info()&types.IsString != 0:
			return tmStr("")
		}
	case *types.Pointer, *types.Map, *types.Slice, *types.Interface, *types.Signature, *types.Chan:
		return tmNil()
	case *types.Struct:
		z := tm{k: "struct"}
		for i := 0; i < u.NumFields(); i++ {
			z.parts = append(z.parts, r.zero(u.Field(i).Type()))
		}
		return z
	}
	return tmSym("?zero")
}

// ---------------------------------------------------------------- paths

func (r *nrun) call(fn *ssa.Function, args, free []tm, st *nstate, ctx string, depth int) []nout {
	if depth > 14 {
		r.why = "too deep a recursion in " + fnName(fn)
		return nil
	}
	r.fns[fn] = true
	env := map[ssa.Value]tm{}
	for i, p := range fn.Params {
		env[p] = args[i]
	}
	for i, f := range fn.FreeVars {
		env[f] = free[i]
	}
	var outs []nout
	seen := map[[sha1.Size]byte]bool{}
	work := []npath{{st.clone(), env, fn.Blocks[0], nil, nil}}
	live := r.liveness(fn)
	for len(work) > 0 && r.why == "" {
		p := work[len(work)-1]
		work = work[:len(work)-1]
		p.env = live.prune(p)
		var k []string
		for v, x := range p.env {
			k = append(k, v.Name()+"="+x.key())
		}
		sort.Strings(k)
		prev := -1
		if p.prev != nil {
			prev = p.prev.Index
		}
		key := sha1.Sum([]byte(fmt.Sprintf("%d<%d|%d|%s|%s", p.b.Index, prev, len(p.defers), strings.Join(k, ","), p.st.key())))
		if seen[key] {
			continue
		}
		seen[key] = true
		r.steps++
		if r.steps > r.max {
			r.why = "too many steps in " + fnName(fn)
			return nil
		}
		work = append(work, r.block(fn, p, ctx, depth, &outs)...)
	}
	// the same outcome once
	var uniq []nout
	had := map[string]bool{}
	for _, o := range outs {
		k := o.st.key()
		for _, x := range o.res {
			k += "|" + x.key()
		}
		if !had[k] {
			had[k] = true
			uniq = append(uniq, o)
		}
	}
	return uniq
}

// liveness tells which values are still needed at the beginning of each block.
type liveness struct {
	in    map[*ssa.BasicBlock]map[ssa.Value]bool
	param map[ssa.Value]bool // these always are
}

func (r *nrun) liveness(fn *ssa.Function) *liveness {
	if l, ok := r.live[fn]; ok {
		return l
	}
	l := &liveness{map[*ssa.BasicBlock]map[ssa.Value]bool{}, map[ssa.Value]bool{}}
	uses := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range fn.Blocks {
		l.in[b], uses[b] = map[ssa.Value]bool{}, map[ssa.Value]bool{}
	}
	for _, lp := range r.loopsOf(fn) {
		for _, v := range []ssa.Value{lp.coll} {
			if i, ok := v.(ssa.Instruction); v != nil && (!ok || i.Block() != lp.header) {
				uses[lp.header][v] = true
			}
		}
	}
	for _, p := range fn.Params {
		l.param[p] = true
	}
	for _, p := range fn.FreeVars {
		l.param[p] = true
	}
	var ops []*ssa.Value
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if d, ok := i.(*ssa.Defer); ok {
				for _, o := range d.Operands(nil) {
					l.param[*o] = true
				}
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for n := len(fn.Blocks) - 1; n >= 0; n-- {
			b := fn.Blocks[n]
			cur := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range l.in[s] {
					cur[v] = true
				}
				for _, i := range s.Instrs {
					ph, ok := i.(*ssa.Phi)
					if !ok {
						break
					}
					delete(cur, ph)
				}
			}
			for _, s := range b.Succs {
				for _, i := range s.Instrs {
					ph, ok := i.(*ssa.Phi)
					if !ok {
						break
					}
					for k, q := range s.Preds {
						if q == b {
							cur[ph.Edges[k]] = true
						}
					}
				}
			}
			for k := len(b.Instrs) - 1; k >= 0; k-- {
				i := b.Instrs[k]
				if v, ok := i.(ssa.Value); ok {
					if _, phi := i.(*ssa.Phi); !phi {
						delete(cur, v)
					}
				}
				if _, ok := i.(*ssa.Phi); ok {
					continue
				}
				ops = i.Operands(ops[:0])
				for _, o := range ops {
					cur[*o] = true
				}
				if sl, ok := i.(*ssa.Slice); ok && emptySlice(sl) {
					delete(cur, sl.X)
				}
			}
			for v := range uses[b] {
				cur[v] = true
			}
			for v := range cur {
				if !l.in[b][v] {
					l.in[b][v], changed = true, true
				}
			}
		}
	}
	if r.live == nil {
		r.live = map[*ssa.Function]*liveness{}
	}
	r.live[fn] = l
	return l
}

// emptySlice: only the memory is used again.
func emptySlice(x *ssa.Slice) bool {
	h, ok := x.High.(*ssa.Const)
	t, sl := x.X.Type().Underlying().(*types.Slice)
	return ok && sl && x.Low == nil && isStringish(t.Elem()) && h.Value != nil && h.Value.Kind() == constant.Int && h.Int64() == 0
}

// prune forgets what isn't needed anymore.
func (l *liveness) prune(p npath) map[ssa.Value]tm {
	env := make(map[ssa.Value]tm, len(p.env))
	for v, t := range p.env {
		if l.param[v] || l.in[p.b][v] {
			env[v] = t
		}
	}
	if p.prev == nil {
		return env
	}
	for _, i := range p.b.Instrs {
		ph, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		for k, q := range p.b.Preds {
			if q == p.prev {
				if t, ok := p.env[ph.Edges[k]]; ok {
					env[ph.Edges[k]] = t
				}
			}
		}
	}
	return env
}

func (r *nrun) val(p npath, v ssa.Value) tm {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			if _, ok := x.Type().Underlying().(*types.Struct); ok {
				return r.zero(x.Type())
			}
			return tmNil()
		}
		switch x.Value.Kind() {
		case constant.Bool:
			return tmBool(constant.BoolVal(x.Value))
		case constant.String:
			return tmStr(constant.StringVal(x.Value))
		case constant.Int:
			if n, ok := constant.Int64Val(x.Value); ok {
				return tmInt(n)
			}
		}
		return tmSym("#" + x.Value.ExactString())
	case *ssa.Function:
		return tm{k: "fn", fn: x}
	case *ssa.Global:
		return tm{k: "addr", id: "g:" + x.Pkg.Pkg.Path() + "." + x.Name()}
	case *ssa.Builtin:
		return tm{k: "fn", id: x.Name()}
	}
	if y, ok := p.env[v]; ok {
		return y
	}
	return tmSym("?" + v.Name())
}

func copyTm(m map[ssa.Value]tm) map[ssa.Value]tm {
	n := make(map[ssa.Value]tm, len(m))
	for k, v := range m {
		n[k] = v
	}
	return n
}

func (r *nrun) block(fn *ssa.Function, p npath, ctx string, depth int, outs *[]nout) []npath {
	var phis []*ssa.Phi
	for _, i := range p.b.Instrs {
		if ph, ok := i.(*ssa.Phi); ok {
			phis = append(phis, ph)
		}
	}
	if len(phis) > 0 || p.prev != nil && p.b.Dominates(p.prev) {
		env := copyTm(p.env)
		known := false
		for _, l := range r.loopsOf(fn) {
			known = known || l.header == p.b
		}
		if p.prev != nil && p.b.Dominates(p.prev) && !known {
			// a round of a loop that isn't over a collection: what changes may be anything
			st := p.st.clone()
			for _, ph := range phis {
				r.purge(st, env, r.symOf("v", ctx+"/"+fnName(fn)+"."+ph.Name()))
			}
			p.st = st
			for _, ph := range phis {
				env[ph] = tmSym(r.symOf("v", ctx+"/"+fnName(fn)+"."+ph.Name()))
			}
		} else {
			pi := 0
			for i, q := range p.b.Preds {
				if q == p.prev {
					pi = i
				}
			}
			for _, ph := range phis {
				env[ph] = r.val(p, ph.Edges[pi])
			}
		}
		p.env = env
	}
	cur := []npath{p}
	for _, instr := range p.b.Instrs[len(phis):] {
		if r.why != "" {
			return nil
		}
		var next []npath
		for _, q := range cur {
			switch x := instr.(type) {
			case *ssa.Return:
				res := make([]tm, len(x.Results))
				for i, v := range x.Results {
					res[i] = r.val(q, v)
				}
				st := q.st.clone()
				for id := range st.rounds {
					if strings.HasPrefix(id, ctx+"/") {
						delete(st.rounds, id)
					}
				}
				for id := range st.pend {
					if strings.HasPrefix(id, ctx+"/") {
						delete(st.pend, id)
					}
				}
				*outs = append(*outs, nout{st, res})
			case *ssa.Jump:
				next = append(next, npath{q.st, q.env, p.b.Succs[0], p.b, q.defers})
			case *ssa.Panic:
			case *ssa.If:
				next = append(next, r.branch(fn, q, x, ctx)...)
			default:
				next = append(next, r.step(fn, q, instr, ctx, depth)...)
			}
		}
		cur = next
	}
	return cur
}

// nelem is an element of a collection that is looped over.
type nelem struct {
	idx, val tm
}

type nround struct {
	st   *nstate
	env  map[ssa.Value]tm
	end  bool
	elem nelem
}

// round begins the next round of a loop.
func (r *nrun) round(p npath, id string, first bool, els []nelem, other *nelem, exact bool) []nround {
	st, env := p.st.clone(), copyTm(p.env)
	sym := r.symOf("o", id)
	if first {
		var ks []string
		for i := range els {
			ks = append(ks, fmt.Sprint(i))
		}
		st.pend[id] = strings.Join(ks, ",")
	}
	if other != nil {
		r.purge(st, env, sym)
	}
	delete(st.rounds, id)
	pend := strings.Split(st.pend[id], ",")
	if st.pend[id] == "" {
		pend = nil
	}
	var out []nround
	if len(pend) == 0 {
		e := st.clone()
		delete(e.pend, id)
		out = append(out, nround{e, copyTm(env), true, nelem{}})
	}
	for i, x := range pend {
		if exact && i > 0 {
			break
		}
		var n int
		fmt.Sscan(x, &n)
		e := st.clone()
		e.pend[id] = strings.Join(append(append([]string{}, pend[:i]...), pend[i+1:]...), ",")
		e.rounds[id] = fmt.Sprint("x", n)
		out = append(out, nround{e, copyTm(env), false, els[n]})
	}
	if other != nil {
		e := st.clone()
		e.rounds[id] = sym
		out = append(out, nround{e, copyTm(env), false, *other})
	}
	return out
}

var objRE = regexp.MustCompile(`[as][0-9]+`)

// collect forgets the objects that aren't reachable when a loop begins its next round.
func (r *nrun) collect(p *npath, l *loopInfo, ctx string) {
	if !r.gc {
		return
	}
	env := copyTm(p.env)
	for v := range env {
		if i, ok := v.(ssa.Instruction); ok && l.body[i.Block()] && i.Block() != p.b {
			delete(env, v)
		}
	}
	p.env = env
	st := p.st.clone()
	live := map[string]bool{}
	var work []string
	mark := func(s string) {
		for _, t := range objRE.FindAllString(s, -1) {
			if !live[t] {
				live[t] = true
				work = append(work, t)
			}
		}
	}
	base := func(id string) string {
		id = strings.TrimPrefix(strings.TrimPrefix(id, "at:"), "*")
		if m := objRE.FindStringIndex(id); m != nil && m[0] == 0 {
			return id[:m[1]]
		}
		return ""
	}
	for _, f := range append([]map[ssa.Value]tm{env}, r.frames...) {
		for _, t := range f {
			mark(t.key())
		}
	}
	holds := map[string][]string{}
	add := func(id, what string) {
		if b := base(id); b != "" {
			holds[b] = append(holds[b], what)
		} else {
			mark(id)
			mark(what)
		}
	}
	for k, v := range st.mem {
		add(k, v.key())
	}
	for k, m := range st.maps {
		add(k, m.key())
	}
	for k, l := range st.lists {
		add(k, l.key())
	}
	for len(work) > 0 {
		w := work[len(work)-1]
		work = work[:len(work)-1]
		for _, h := range holds[w] {
			mark(h)
		}
	}
	dead := func(id string) bool {
		b := base(id)
		return b != "" && !live[b]
	}
	for k := range st.mem {
		if dead(k) {
			delete(st.mem, k)
		}
	}
	for k := range st.maps {
		if dead(k) {
			delete(st.maps, k)
		}
	}
	for k := range st.lists {
		if dead(k) {
			delete(st.lists, k)
		}
	}
	r.settle(st, env, ctx, l)
	p.st = st
}

var symRE = regexp.MustCompile(`‹[^‹›]*(‹[^‹›]*›[^‹›]*)*›`)

// settle forgets what isn't of use anymore: how far loops were that have ended, the places of elements that were
// passed, and what was known of them.
func (r *nrun) settle(st *nstate, env map[ssa.Value]tm, ctx string, l *loopInfo) {
	for _, o := range r.loopsOf(l.fn) {
		if id := loopID(ctx, l.fn, o); o != l && !o.body[l.header] {
			delete(st.rounds, id)
			delete(st.pend, id)
		}
	}
	var live strings.Builder
	for _, f := range append([]map[ssa.Value]tm{env}, r.frames...) {
		for _, t := range f {
			live.WriteString(t.key() + "\n")
		}
	}
	for k, m := range st.maps {
		live.WriteString(k + m.key() + "\n")
	}
	for k, m := range st.lists {
		live.WriteString(k + m.key() + "\n")
	}
	places := map[string]string{}
	for k, v := range st.mem {
		if i := strings.Index(k, "["); i > 0 && strings.HasPrefix(k, "at:") && strings.HasSuffix(k, "]") {
			idx := k[i+1 : len(k)-1]
			if j := strings.Index(idx, "#"); j > 0 {
				if of, e := idx[:j], idx[j+1:]; e == v.key() || e == "" && of == v.key() {
					places[k] = idx
					continue
				}
			}
		}
		live.WriteString(k + "=" + v.key() + "\n")
	}
	for _, v := range st.rounds {
		live.WriteString(v + "\n")
	}
	text := live.String()
	for k, idx := range places {
		if !strings.Contains(text, idx) {
			delete(st.mem, k)
		} else {
			text += k + "\n"
		}
	}
	gone := func(k string) bool {
		for _, s := range symRE.FindAllString(k, -1) {
			if !strings.Contains(text, s) {
				return true
			}
		}
		return false
	}
	for k := range st.facts {
		if gone(k) {
			delete(st.facts, k)
		}
	}
	for k := range st.vals {
		if gone(k) {
			delete(st.vals, k)
		}
	}
}

func (r *nrun) branch(fn *ssa.Function, p npath, x *ssa.If, ctx string) []npath {
	to := func(st *nstate, env map[ssa.Value]tm, i int) npath {
		return npath{st, env, p.b.Succs[i], p.b, p.defers}
	}
	for _, l := range r.loopsOf(fn) {
		if l.header != p.b || l.next != nil {
			continue
		}
		if l.rest != nil {
			r.giveUp(x, "a loop that cuts elements off isn't understood")
			return nil
		}
		coll := r.val(p, l.coll)
		id := ctx + "/" + l.id
		var els []nelem
		var other *nelem
		exact := false
		o := p.st.lists[coll.id]
		switch {
		case coll.k == "nil":
		case coll.k == "list" && o != nil:
			exact = o.exact
			for i, e := range o.items {
				ix := tmSym(fmt.Sprintf("%s#%s", coll.id, e.key()))
				if exact {
					ix = tmInt(int64(i))
				}
				els = append(els, nelem{ix, e})
			}
			if o.open || o.rest {
				other = &nelem{tmSym(r.symOf("o", id) + "#"), tmSym(r.symOf("o", id))}
			}
		default:
			other = &nelem{tmSym(r.symOf("o", id) + "#"), tmSym(r.symOf("o", id))}
		}
		in, out := 0, 1
		if p.b.Succs[0] != l.in {
			in, out = 1, 0
		}
		r.collect(&p, l, ctx)
		var res []npath
		for _, q := range r.round(p, id, !l.body[p.prev], els, other, exact) {
			if q.end {
				res = append(res, to(q.st, q.env, out))
				continue
			}
			if l.idx != nil {
				q.env[l.idx] = q.elem.idx
			}
			r.distinct(q.st, q.elem, els, o == nil || o.open, maybeOf(o), elemOf(l.coll.Type()))
			if o != nil {
				for _, a := range o.absent {
					q.st.facts[eqKey(q.elem.val, a)] = false
				}
			}
			if r.begin != nil {
				r.begin(q.st, coll, q.elem.val)
			}
			if r.elem != nil && q.elem.val.k == "sym" {
				r.elem(q.st, coll, q.elem.val)
			}
			if f, ok := r.unique[coll.id]; ok && q.elem.val.k == "sym" {
				for _, e := range els {
					v := r.field(e.val, f, nil)
					if e.val.k == "addr" {
						v = q.st.mem[fmt.Sprintf("%s.%d", e.val.id, f)]
					}
					q.st.facts[eqKey(r.field(q.elem.val, f, nil), v)] = false
				}
				if coll.id == "@labels" {
					for _, a := range q.st.maps["@labelmap"].absent {
						q.st.facts[eqKey(r.field(q.elem.val, f, nil), a)] = false
					}
				}
			}
			at := r.idOf(coll) + "[" + q.elem.idx.key() + "]"
			r.store(q.st, "at:"+at, q.elem.val, elemOf(l.coll.Type()))
			res = append(res, to(q.st, q.env, in))
		}
		return res
	}
	c := r.val(p, x.Cond)
	var out []npath
	p.st.fork(c, func(s *nstate, yes bool) {
		i := 1
		if yes {
			i = 0
		}
		out = append(out, to(s, p.env, i))
	})
	return out
}

func (r *nrun) idOf(t tm) string {
	if t.id != "" {
		return t.id
	}
	return t.key()
}

// distinct: the elements that aren't followed differ from those that are.
// Those that were put in while following others are others than the tracked ones, except where that isn't sure.
func (r *nrun) distinct(st *nstate, e nelem, els []nelem, open bool, maybe map[string]bool, t types.Type) {
	if !strings.HasPrefix(e.val.id, "‹o:") {
		return
	}
	for _, x := range r.tracked {
		if xt := r.types[x.key()]; xt != nil && t != nil && !types.Identical(xt.Underlying(), t.Underlying()) {
			st.facts[eqKey(e.val, x)] = false
		}
	}
	if !open {
		for _, x := range r.tracked {
			if !maybe[x.key()] {
				st.facts[eqKey(e.val, x)] = false
			}
		}
	}
	for _, x := range els {
		if x.val.k == "sym" || x.val.k == "str" || x.val.k == "addr" && r.byPart {
			st.facts[eqKey(e.val, x.val)] = false
		}
	}
}

func elemOf(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Pointer:
		return elemOf(u.Elem())
	case *types.Map:
		return u.Elem()
	}
	return types.Typ[types.Invalid]
}

// loopID names a loop.
func loopID(ctx string, fn *ssa.Function, l *loopInfo) string {
	if l.next != nil {
		return ctx + "/" + fnName(fn) + "." + l.next.Iter.Name()
	}
	return ctx + "/" + l.id
}

// short is a short name of what has a long one. The symbols in the name remain visible: it is forgotten with them.
func (r *nrun) short(kind, long string) string {
	shortMu.Lock()
	n, ok := shortNames[long]
	if !ok {
		n = len(shortNames) + 1
		shortNames[long] = n
	}
	shortMu.Unlock()
	var syms []string
	depth, start := 0, 0
	for i, c := range long {
		switch c {
		case '‹':
			if depth == 0 {
				start = i
			}
			depth++
		case '›':
			depth--
			if depth == 0 {
				syms = append(syms, long[start:i+len("›")])
			}
		}
	}
	out := fmt.Sprint(kind, n)
	for i, s := range syms {
		keep := true
		for j, t := range syms {
			if i != j && strings.Contains(t, s) && (t != s || j < i) {
				keep = false
			}
		}
		if keep {
			out += s
		}
	}
	return out
}

// symOf is the symbol that stands for what changes from round to round of the loop.
func (r *nrun) symOf(kind, id string) string { return "‹" + kind + ":" + r.short("", id) + "›" }

// siteOf names an instruction.
func siteOf(ctx string, fn *ssa.Function, i ssa.Instruction) string {
	for n, j := range i.Block().Instrs {
		if j == i {
			return fmt.Sprintf("%s/%s:%d.%d", ctx, fnName(fn), i.Block().Index, n)
		}
	}
	return "?"
}

// grown names the list that an append gives. It's the same one in all rounds of the loops in which it grows, and another
// one in each round of the loops in which it's made.
func (r *nrun) grown(ctx string, fn *ssa.Function, st *nstate, c ssa.CallInstruction) string {
	s := siteOf(ctx, fn, c)
	phis, made := map[*ssa.BasicBlock]bool{}, map[ssa.Instruction]bool{}
	seen := map[ssa.Value]bool{}
	local := true
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch v := v.(type) {
		case *ssa.Phi:
			phis[v.Block()] = true
			for i, e := range v.Edges {
				if c, ok := e.(*ssa.Const); ok && c.Value == nil {
					made[v.Block().Preds[i].Instrs[0]] = true
					continue
				}
				walk(e)
			}
		case *ssa.MakeSlice:
			made[v] = true
		case *ssa.Const:
			made[c] = true
		case *ssa.Slice:
			h, _ := v.High.(*ssa.Const)
			if a, ok := v.X.(*ssa.Alloc); ok {
				made[a] = true
				return
			}
			if h == nil || h.Int64() != 0 {
				local = false
				return
			}
			made[v] = true
		case *ssa.Call:
			if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				walk(v.Call.Args[0])
				return
			}
			local = false
		default:
			local = false
		}
	}
	walk(c.Common().Args[0])
	if !local {
		return s
	}
	for _, l := range r.loopsOf(fn) {
		if !l.body[c.Block()] || phis[l.header] {
			continue
		}
		in := true
		for m := range made {
			in = in && l.body[m.Block()]
		}
		if in {
			s += "·" + st.rounds[loopID(ctx, fn, l)]
		}
	}
	return s
}

func (r *nrun) step(fn *ssa.Function, p npath, instr ssa.Instruction, ctx string, depth int) []npath {
	set := func(v ssa.Value, x tm) []npath {
		env := copyTm(p.env)
		env[v] = x
		return []npath{{p.st, env, p.b, p.prev, p.defers}}
	}
	setIn := func(st *nstate, v ssa.Value, x tm) []npath {
		env := copyTm(p.env)
		env[v] = x
		return []npath{{st, env, p.b, p.prev, p.defers}}
	}
	site := func(i ssa.Instruction) string {
		// each round of the loops around it makes its own
		s := siteOf(ctx, fn, i)
		for _, l := range r.loopsOf(fn) {
			if l.body[i.Block()] {
				s += "·" + p.st.rounds[loopID(ctx, fn, l)]
			}
		}
		return r.short("s", s)
	}
	switch x := instr.(type) {
	case *ssa.DebugRef:
		return []npath{p}
	case *ssa.Defer:
		q := p
		q.defers = append(append([]*ssa.Defer{}, p.defers...), x)
		return []npath{q}
	case *ssa.RunDefers:
		cur := []npath{p}
		for i := len(p.defers) - 1; i >= 0; i-- {
			var next []npath
			for _, q := range cur {
				next = append(next, r.callInstr(fn, q, p.defers[i], nil, ctx, depth, site(p.defers[i]))...)
			}
			cur = next
		}
		return cur
	case *ssa.MakeMap:
		o := site(x)
		st := p.st.clone()
		st.maps[o] = &nmap{maybe: map[string]bool{}}
		st.unsized("map:" + o)
		return setIn(st, x, tm{k: "map", id: o})
	case *ssa.MakeSlice:
		o := site(x)
		st := p.st.clone()
		n := r.val(p, x.Len)
		st.lists[o] = &nlist{maybe: map[string]bool{}, n: &n, exact: n.k == "int" && n.n == 0 && len(n.parts) == 0}
		st.unsized("list:" + o)
		for k := range st.mem {
			if strings.HasPrefix(k, o+"[") {
				delete(st.mem, k)
			}
		}
		return setIn(st, x, tm{k: "list", id: o})
	case *ssa.Alloc:
		o := site(x)
		st := p.st.clone()
		for k := range st.mem {
			if strings.HasPrefix(k, o+".") || strings.HasPrefix(k, o+"[") {
				delete(st.mem, k)
			}
		}
		if _, ok := deref(x.Type()).Underlying().(*types.Array); !ok {
			r.store(st, o, r.zero(deref(x.Type())), deref(x.Type()))
		}
		return setIn(st, x, tm{k: "addr", id: o})
	case *ssa.Slice:
		return r.slice(p, x, site(x), set, setIn)
	case *ssa.ChangeType:
		return set(x, r.val(p, x.X))
	case *ssa.Convert:
		v := r.val(p, x.X)
		if isStringish(x.Type()) != isStringish(x.X.Type()) {
			v = app("convert:"+x.Type().String(), v)
		}
		return set(x, v)
	case *ssa.MakeInterface:
		return set(x, tm{k: "iface", typ: x.X.Type(), parts: []tm{r.val(p, x.X)}})
	case *ssa.ChangeInterface:
		return set(x, r.val(p, x.X))
	case *ssa.TypeAssert:
		v := r.val(p, x.X)
		if v.k == "iface" && types.Identical(v.typ, x.AssertedType) {
			v = v.parts[0]
			if x.CommaOk {
				v = tm{k: "tuple", parts: []tm{v, tmBool(true)}}
			}
			return set(x, v)
		}
		if x.CommaOk {
			return set(x, tm{k: "tuple", parts: []tm{v, app("is:"+x.AssertedType.String(), v)}})
		}
		return set(x, v)
	case *ssa.MakeClosure:
		v := tm{k: "fn", fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			v.parts = append(v.parts, r.val(p, b))
		}
		return set(x, v)
	case *ssa.Range:
		c := r.val(p, x.X)
		id := ctx + "/" + fnName(fn) + "." + x.Name()
		st := p.st.clone()
		delete(st.pend, id)
		delete(st.rounds, id)
		return setIn(st, x, tm{k: "iter", id: id, parts: []tm{c}})
	case *ssa.Next:
		it := r.val(p, x.Iter)
		if it.k != "iter" || x.IsString {
			// the characters of a text
			return set(x, tm{k: "tuple", parts: []tm{tmSym("?" + x.Name()), tmSym("?char"), tmSym("?char")}})
		}
		coll := it.parts[0]
		var els []nelem
		var other *nelem
		o := p.st.maps[coll.id]
		switch {
		case coll.k == "nil":
		case coll.k == "map" && o != nil:
			for _, e := range o.ents {
				els = append(els, nelem{e.val, e.key})
			}
			if o.open || o.rest {
				k := tmSym(r.symOf("o", it.id))
				other = &nelem{tmSym(coll.key() + "[" + k.key() + "]"), k}
			}
		default:
			k := tmSym(r.symOf("o", it.id))
			other = &nelem{tmSym(coll.key() + "[" + k.key() + "]"), k}
		}
		for _, l := range r.loopsOf(fn) {
			if l.next == x {
				r.collect(&p, l, ctx)
			}
		}
		_, going := p.st.pend[it.id]
		var out []npath
		for _, q := range r.round(p, it.id, !going, els, other, false) {
			if q.end {
				q.env[x] = tm{k: "tuple", parts: []tm{tmBool(false), tmSym("?"), tmSym("?")}}
			} else {
				if o != nil {
					for _, a := range o.absent {
						q.st.facts[eqKey(q.elem.val, a)] = false
					}
				}
				var kt types.Type
				if m, ok := x.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map); ok {
					kt = m.Key()
				}
				if o != nil {
					r.distinct(q.st, q.elem, els, o.open, o.maybe, kt)
				} else {
					r.distinct(q.st, q.elem, els, true, nil, kt)
				}
				q.env[x] = tm{k: "tuple", parts: []tm{tmBool(true), q.elem.val, q.elem.idx}}
			}
			out = append(out, npath{q.st, q.env, p.b, p.prev, p.defers})
		}
		return out
	case *ssa.Extract:
		t := r.val(p, x.Tuple)
		if t.k == "tuple" && x.Index < len(t.parts) {
			return set(x, t.parts[x.Index])
		}
		return set(x, app(fmt.Sprintf("#%d", x.Index), t))
	case *ssa.Lookup:
		mt, ok := x.X.Type().Underlying().(*types.Map)
		if !ok {
			return set(x, app("index", r.val(p, x.X), r.val(p, x.Index)))
		}
		var out []npath
		for _, f := range r.lookup(p.st, r.val(p, x.X), r.val(p, x.Index)) {
			v := f.v
			if !f.in {
				v = r.zero(mt.Elem())
			}
			if x.CommaOk {
				v = tm{k: "tuple", parts: []tm{v, tmBool(f.in)}}
			}
			out = append(out, setIn(f.st, x, v)...)
		}
		return out
	case *ssa.MapUpdate:
		m := r.val(p, x.Map)
		if m.k == "nil" {
			return nil // panics
		}
		var out []npath
		for _, s := range r.insert(p.st, m, r.val(p, x.Key), r.val(p, x.Value)) {
			out = append(out, npath{s, p.env, p.b, p.prev, p.defers})
		}
		return out
	case *ssa.FieldAddr:
		b := r.val(p, x.X)
		if b.k == "nil" {
			return nil // panics
		}
		if isSeqAddr(b) {
			return set(x, tm{k: "addr", id: fmt.Sprintf("%s.%d", b.id, x.Field), parts: append(append([]tm{}, b.parts...), tmInt(int64(x.Field)))})
		}
		return set(x, tm{k: "addr", id: fmt.Sprintf("%s.%d", r.idOf(b), x.Field)})
	case *ssa.Field:
		return set(x, r.field(r.val(p, x.X), x.Field, x.Type()))
	case *ssa.IndexAddr:
		b, i := r.val(p, x.X), r.val(p, x.Index)
		if b.k == "nil" {
			return nil // panics
		}
		if b.k == "seq" {
			return set(x, r.seqAddr(b, i))
		}
		a := r.idOf(b) + "[" + i.key() + "]"
		for k := range p.st.mem {
			if strings.HasPrefix(k, "at:"+a) {
				return set(x, tm{k: "addr", id: "at:" + a})
			}
		}
		return set(x, tm{k: "addr", id: a})
	case *ssa.Index:
		return set(x, app("index", r.val(p, x.X), r.val(p, x.Index)))
	case *ssa.UnOp:
		v := r.val(p, x.X)
		switch x.Op {
		case token.MUL:
			if g, ok := x.X.(*ssa.Global); ok {
				if y, ok := p.st.mem[v.id]; ok {
					return set(x, y)
				}
				if r.global != nil {
					st := p.st.clone()
					if y, ok := r.global(r, st, g); ok {
						return setIn(st, x, y)
					}
				}
			}
			if v.k == "nil" {
				return nil // panics
			}
			if isSeqAddr(v) {
				e, ok := r.seqGet(x, p.st, v)
				if !ok {
					return nil
				}
				return set(x, e)
			}
			if v.k != "addr" && v.k != "sym" {
				return set(x, tmSym("?load"))
			}
			a := v.id
			if v.k == "sym" {
				a = "*" + v.id
			}
			return set(x, r.load(p.st, a, x.Type()))
		case token.NOT:
			if v.k == "bool" {
				return set(x, tmBool(v.n == 0))
			}
			if strings.HasPrefix(v.id, "!") {
				v.id = v.id[1:]
			} else {
				v.id = "!" + v.id
			}
			return set(x, v)
		case token.SUB:
			return set(x, addTm(tmInt(0), v, -1))
		}
		return set(x, app("op"+x.Op.String(), v))
	case *ssa.Store:
		a := r.val(p, x.Addr)
		if a.k == "nil" {
			return nil
		}
		st := p.st.clone()
		id := a.id
		if isSeqAddr(a) {
			if !r.seqSet(x, st, a, r.val(p, x.Val), x.Val.Type()) {
				return nil
			}
			return []npath{{st, p.env, p.b, p.prev, p.defers}}
		}
		if a.k == "sym" {
			id = "*" + id
		} else if a.k != "addr" {
			r.giveUp(x, "a store that isn't understood")
			return nil
		}
		r.store(st, id, r.val(p, x.Val), x.Val.Type())
		return []npath{{st, p.env, p.b, p.prev, p.defers}}
	case *ssa.BinOp:
		return set(x, r.binop(p, x))
	case *ssa.Call:
		return r.callInstr(fn, p, x, x, ctx, depth, site(x))
	}
	r.giveUp(instr, fmt.Sprintf("%T isn't understood", instr))
	return nil
}

func (r *nrun) slice(p npath, x *ssa.Slice, site string, set func(ssa.Value, tm) []npath, setIn func(*nstate, ssa.Value, tm) []npath) []npath {
	b := r.val(p, x.X)
	if isStringish(x.X.Type()) {
		lo, hi := tmInt(0), r.length(p.st, b)
		if x.Low != nil {
			lo = r.val(p, x.Low)
		}
		if x.High != nil {
			hi = r.val(p, x.High)
		}
		return set(x, r.substr(b, lo, hi))
	}
	if b.k == "seq" {
		return set(x, r.seqSlice(p, x, b))
	}
	if a, ok := deref(x.X.Type()).Underlying().(*types.Array); ok {
		// the list of a call's variable arguments, or a literal
		if x.Low != nil || x.High != nil {
			r.giveUp(x, "a part of a list")
			return nil
		}
		st := p.st.clone()
		l := &nlist{exact: true, maybe: map[string]bool{}}
		for i := int64(0); i < a.Len(); i++ {
			l.items = append(l.items, r.load(p.st, fmt.Sprintf("%s[%d]", b.id, i), a.Elem()))
		}
		st.lists[site] = l
		st.unsized("list:" + site)
		return setIn(st, x, tm{k: "list", id: site})
	}
	if x.High == nil && x.Max == nil {
		if c, ok := x.Low.(*ssa.Const); x.Low == nil || ok && c.Int64() == 0 {
			return set(x, b)
		}
	}
	if c, ok := x.High.(*ssa.Const); ok && c.Int64() == 0 && x.Low == nil {
		st := p.st.clone()
		st.lists[site] = &nlist{exact: true, maybe: map[string]bool{}}
		if b.k == "list" {
			st.lists[site].mem, st.lists[site].over = st.memOf(b.id), true
		}
		st.unsized("list:" + site)
		return setIn(st, x, tm{k: "list", id: site})
	}
	// some of it
	st := p.st.clone()
	n := &nlist{maybe: map[string]bool{}, open: true}
	for _, t := range r.tracked {
		n.maybe[t.key()] = true
	}
	st.lists[site] = n
	st.unsized("list:" + site)
	return setIn(st, x, tm{k: "list", id: site})
}

// substr is a part of a text.
func (r *nrun) substr(b, lo, hi tm) tm {
	if s, ok := r.slices[b.id]; ok && b.k == "sym" {
		return r.substr(s[0], addTm(s[1], lo, 1), addTm(s[1], hi, 1))
	}
	lo, hi = addTm(lo, tmInt(0), 1), addTm(hi, tmInt(0), 1)
	if lo.key() == "0" && hi.key() == addTm(app("len", b), tmInt(0), 1).key() {
		return b
	}
	t := app("part", b, lo, hi)
	r.slices[t.id] = [3]tm{b, lo, hi}
	return t
}

func (r *nrun) length(st *nstate, b tm) tm {
	switch b.k {
	case "seq":
		return addTm(b.parts[1], b.parts[0], -1)
	case "str":
		return tmInt(int64(len(b.id)))
	case "nil":
		return tmInt(0)
	case "list":
		if o := st.lists[b.id]; o != nil {
			if o.exact {
				return tmInt(int64(len(o.items)))
			}
			if o.n != nil {
				return *o.n
			}
		}
	case "sym":
		if s, ok := r.slices[b.id]; ok {
			return addTm(s[2], s[1], -1)
		}
	}
	return addTm(app("len", b), tmInt(0), 1)
}

func (r *nrun) binop(p npath, x *ssa.BinOp) tm {
	a, b := r.val(p, x.X), r.val(p, x.Y)
	if v, ok := p.st.vals[a.key()]; ok && a.k == "sym" {
		a = v
	}
	if v, ok := p.st.vals[b.key()]; ok && b.k == "sym" {
		b = v
	}
	neg := func(t tm) tm {
		if t.k == "bool" {
			return tmBool(t.n == 0)
		}
		t.id = "!" + t.id
		return t
	}
	switch x.Op {
	case token.EQL, token.NEQ:
		var e tm
		switch d := p.st.eq(a, b); {
		case d != 0:
			e = tmBool(d == 1)
		case isApp(a, "part") && r.prefixOf(a, b):
			e = app("strings.HasPrefix", r.slices[a.id][0], b)
		case isApp(b, "part") && r.prefixOf(b, a):
			e = app("strings.HasPrefix", r.slices[b.id][0], a)
		case isIndexOf(a) && b.k == "int" && b.key() == "0":
			e = app("strings.HasPrefix", a.parts[0], a.parts[1])
		default:
			e = eqTm(a, b)
		}
		if x.Op == token.NEQ {
			return neg(e)
		}
		return e
	case token.ADD:
		if isStringish(x.Type()) {
			if a.k == "str" && b.k == "str" {
				return tmStr(a.id + b.id)
			}
			return app("concat", a, b)
		}
		return addTm(a, b, 1)
	case token.SUB:
		return addTm(a, b, -1)
	case token.LSS, token.GTR, token.LEQ, token.GEQ:
		// a < b
		op := x.Op
		if op == token.GTR || op == token.LEQ {
			a, b = b, a
		}
		not := op == token.LEQ || op == token.GEQ
		if isInteger(x.X.Type()) {
			d := addTm(a, b, -1)
			if len(d.parts) == 0 {
				return tmBool((d.n < 0) != not)
			}
			if r.seqs {
				bs := p.st.bounds()
				if proves(bs, addTm(tmInt(-1), d, -1), 3) {
					return tmBool(!not)
				}
				if proves(bs, d, 3) {
					return tmBool(not)
				}
			}
			// 0 < the length, the length < 1
			for _, z := range []struct {
				zero, l tm
				empty   bool
			}{{a, b, false}, {b, a, true}} {
				if len(z.l.parts) == 1 && z.l.n == 0 && z.l.parts[0].n == 1 && strings.HasPrefix(z.l.parts[0].id, "len(") {
					if !z.empty && z.zero.key() == "0" {
						e := eqTm(z.l, tmInt(0))
						if !not {
							return neg(e)
						}
						return e
					}
					if z.empty && z.zero.key() == "1" {
						e := eqTm(z.l, tmInt(0))
						if not {
							return neg(e)
						}
						return e
					}
				}
			}
		}
		c := app("lt", a, b)
		if not {
			return neg(c)
		}
		return c
	}
	return app("op"+x.Op.String(), a, b)
}

// prefixOf: the part is the beginning, as long as the other text.
func (r *nrun) prefixOf(a, b tm) bool {
	s := r.slices[a.id]
	return s[1].key() == "0" && s[2].key() == r.length(newNstate(), b).key()
}

func isIndexOf(a tm) bool { return isApp(a, "strings.Index") && len(a.parts) == 2 }

func isInteger(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// purePkgs: functions of these packages have no effects.
var purePkgs = map[string]bool{"strings": true, "strconv": true, "unicode": true, "unicode/utf8": true, "fmt": true, "errors": true, "math": true}

func (r *nrun) callInstr(fn *ssa.Function, p npath, c ssa.CallInstruction, v ssa.Value, ctx string, depth int, at string) []npath {
	r.frames = append(r.frames, p.env)
	defer func() { r.frames = r.frames[:len(r.frames)-1] }()
	x := c.Common()
	cont := func(outs []nout) []npath {
		var res []npath
		for _, o := range outs {
			env := p.env
			if v != nil {
				env = copyTm(p.env)
				switch len(o.res) {
				case 0:
				case 1:
					env[v] = o.res[0]
				default:
					env[v] = tm{k: "tuple", parts: o.res}
				}
			}
			res = append(res, npath{o.st, env, p.b, p.prev, p.defers})
		}
		return res
	}
	one := func(st *nstate, t tm) []npath { return cont([]nout{{st, []tm{t}}}) }
	var args []tm
	for _, a := range x.Args {
		args = append(args, r.val(p, a))
	}
	sig := x.Signature()
	if b, ok := x.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "len":
			if args[0].k == "map" {
				return one(p.st, addTm(app("len", args[0]), tmInt(0), 1))
			}
			return one(p.st, r.length(p.st, args[0]))
		case "cap":
			return one(p.st, app("cap", args[0]))
		case "delete":
			var out []npath
			for _, s := range r.remove(p.st, args[0], args[1]) {
				out = append(out, npath{s, p.env, p.b, p.prev, p.defers})
			}
			return out
		case "append":
			st, to := p.st, args[0]
			if l := st.lists[to.id]; args[1].k == "seq" && (to.k == "nil" || to.k == "list" && l != nil && l.exact) {
				// made a sequence as well
				st, to = newSegs(st, to, r.short("q", siteOf(ctx, fn, c)+"/"))
			}
			if to.k == "seq" {
				o, ok := r.seqAppend(c, st, to, args[1], r.short("q", siteOf(ctx, fn, c)))
				if !ok {
					return nil
				}
				return cont(o)
			}
			o := r.appendTo(p.st, args[0], args[1], r.short("a", r.grown(ctx, fn, p.st, c)))
			if sl, ok := x.Args[1].(*ssa.Slice); ok && args[1].k == "list" {
				if al, ok := sl.X.(*ssa.Alloc); ok && al.Comment == "varargs" {
					// what was appended one by one is of no use anymore
					delete(o.st.lists, args[1].id)
					if a := r.val(p, al); a.k == "addr" {
						for k := range o.st.mem {
							if strings.HasPrefix(k, a.id+"[") {
								delete(o.st.mem, k)
							}
						}
					}
				}
			}
			return one2(o, cont)
		case "copy":
			if args[0].k == "seq" && args[1].k == "seq" {
				o, ok := r.seqCopy(c, p.st, args[0], args[1])
				if !ok {
					return nil
				}
				return one2(o, cont)
			}
			st := p.st.clone()
			d := st.lists[args[0].id]
			if d == nil || args[0].k != "list" {
				return one(st, app("copy", args...))
			}
			n := d.copy()
			n.items = append(n.items, st.contents(args[1])...)
			if s := st.lists[args[1].id]; s == nil || s.open || s.rest {
				n.rest = true
			}
			n.exact = false
			st.lists[args[0].id] = n
			st.unsized("list:" + args[0].id)
			return one(st, app("copy", args...))
		case "print", "println":
			return cont([]nout{{p.st, nil}})
		case "ssa:wrapnilchk":
			if args[0].k == "nil" {
				return nil // panics
			}
			return one(p.st, args[0])
		}
		r.giveUp(c, "the builtin "+b.Name()+" isn't understood")
		return nil
	}
	callee := x.StaticCallee()
	var free []tm
	name := ""
	switch {
	case x.IsInvoke():
		recv := r.val(p, x.Value)
		if recv.k == "iface" {
			if m := r.p.method(recv.typ, x.Method.Name()); m != nil && m.Blocks != nil {
				return cont(r.follow(m, append([]tm{recv.parts[0]}, args...), nil, p.st, at, depth+1))
			}
		}
		args = append([]tm{recv}, args...)
		name = "(iface)." + x.Method.Name()
	case callee != nil:
		if mc, ok := x.Value.(*ssa.MakeClosure); ok {
			free = r.val(p, mc).parts
		}
	default:
		f := r.val(p, x.Value)
		if f.k != "fn" || f.fn == nil {
			name = "(func)" + f.key()
			args = append([]tm{f}, args...)
			break
		}
		callee, free = f.fn, f.parts
	}
	if callee != nil {
		name = callee.String()
	}
	if r.ext != nil {
		if outs, ok := r.ext(r, p.st, name, sig, args, at); ok {
			return cont(outs)
		}
	}
	if callee == nil {
		r.giveUp(c, "what "+name+" does isn't known")
		return nil
	}
	pkg := ""
	if callee.Pkg != nil {
		pkg = callee.Pkg.Pkg.Path()
	} else if o := callee.Object(); o != nil && o.Pkg() != nil {
		pkg = o.Pkg().Path()
	}
	results := func(f string) []tm {
		var out []tm
		t := app(f, args...)
		n := sig.Results().Len()
		for i := 0; i < n; i++ {
			if n == 1 {
				out = append(out, t)
			} else {
				out = append(out, app(fmt.Sprintf("#%d", i), t))
			}
		}
		return out
	}
	switch {
	case pkg == modPath+"/notstdlib/sets":
		switch {
		case strings.HasSuffix(callee.Name(), "KeySet"):
			m := args[0]
			if m.k == "iface" {
				m = m.parts[0]
			}
			st := p.st.clone()
			n := &nmap{maybe: map[string]bool{}}
			if o := st.maps[m.id]; m.k == "map" && o != nil {
				n = o.copy()
				n.ents = nil
				for _, e := range o.ents {
					n.ents = append(n.ents, nent{e.key, tm{k: "struct"}})
				}
			} else if m.k != "nil" {
				// the keys of a map that nothing is known of
				return one(st, app("keys", m))
			}
			st.maps[at] = n
			st.unsized("map:" + at)
			return one(st, tm{k: "map", id: at})
		case callee.Name() == "List" || callee.Name() == "UnsortedList":
			st := p.st.clone()
			m := args[0]
			n := &nlist{maybe: map[string]bool{}}
			if o := st.maps[m.id]; m.k == "map" && o != nil {
				for _, e := range o.ents {
					n.items = append(n.items, e.key)
				}
				n.open, n.rest = o.open, o.rest
				n.absent = o.absent
				for k := range o.maybe {
					n.maybe[k] = true
				}
			} else if m.k != "nil" {
				n.open = true
			}
			st.lists[at] = n
			st.unsized("list:" + at)
			return one(st, tm{k: "list", id: at})
		}
	case strings.HasPrefix(pkg, modPath+"/debug"):
		return cont([]nout{{p.st, results("debug")}})
	case pkg == "sync":
		return cont([]nout{{p.st, results("sync")}})
	case name == "sort.Search" && r.seqs:
		outs, ok := r.search(c, p.st, args[0], args[1], at)
		if !ok {
			return nil
		}
		return cont(outs)
	case pkg == "sort":
		return cont([]nout{{p.st, results("sort")}})
	case purePkgs[pkg]:
		if outs := r.pure(p.st, callee.Name(), pkg, args, at); outs != nil {
			return cont(outs)
		}
		return cont([]nout{{p.st, results(callee.String())}})
	}
	if callee.Blocks == nil || !r.p.isRepo[callee.Pkg] && callee.Parent() == nil && !(callee.Synthetic != "" && callee.Pkg == nil) {
		if strings.HasSuffix(name, "/proto.String") {
			st := p.st.clone()
			st.mem[at] = args[0]
			return one(st, tm{k: "addr", id: at})
		}
		r.giveUp(c, "what "+name+" does isn't known")
		return nil
	}
	if r.skip != nil && r.skip(callee) {
		return cont([]nout{{p.st, results(callee.String())}})
	}
	return cont(r.follow(callee, args, free, p.st, at, depth+1))
}

func one2(o nout, cont func([]nout) []npath) []npath { return cont([]nout{o}) }

// pure: functions whose results are known better.
func (r *nrun) pure(st *nstate, fn, pkg string, args []tm, at string) []nout {
	if pkg != "strings" {
		return nil
	}
	allStr := true
	for _, a := range args {
		allStr = allStr && a.k == "str"
	}
	switch {
	case fn == "TrimSuffix" && len(args) == 2:
		// the end of the same text
		a, b := r.partOf(st, args[0]), r.partOf(st, args[1])
		if a[0].key() == b[0].key() && a[2].key() == b[2].key() && a[1].key() == "0" {
			return []nout{{st, []tm{r.substr(a[0], a[1], b[1])}}}
		}
	case fn == "HasPrefix" && allStr:
		return []nout{{st, []tm{tmBool(strings.HasPrefix(args[0].id, args[1].id))}}}
	}
	return nil
}

// appendTo gives the list with the other list's elements.
func (r *nrun) appendTo(st *nstate, l, more tm, at string) nout {
	s := st.clone()
	n := &nlist{exact: true, maybe: map[string]bool{}}
	if o := st.lists[l.id]; l.k == "list" && o != nil {
		n = o.copy()
		n.n = nil
		if n.mem == "" && l.id != at {
			n.mem = l.id
		}
	} else if l.k != "nil" {
		n.open, n.exact = true, false
	}
	o := st.lists[more.id]
	switch {
	case more.k == "nil":
	case more.k == "list" && o != nil:
		if !o.exact {
			n.exact = false
			n.open, n.rest = n.open || o.open, n.rest || o.rest
			for k := range o.maybe {
				n.maybe[k] = true
			}
		}
		n.items = append(n.items, o.items...)
	default:
		n.open, n.exact = true, false
	}
	// in a loop, only what is in it is known
	if len(st.rounds) > 0 {
		n.exact = false
		seen := map[string]bool{}
		var items []tm
		for _, t := range n.items {
			if !seen[t.key()] {
				seen[t.key()] = true
				items = append(items, t)
			}
		}
		n.items = items
	}
	n.absent = nil
	if n.over {
		r.overwrite(s, n.mem, l.id, at)
	}
	s.lists[at] = n
	s.unsized("list:" + at)
	if l.k == "list" && l.id != at {
		for k := range s.mem {
			if strings.HasPrefix(k, at+"[") {
				delete(s.mem, k)
			}
		}
		for k, v := range s.mem {
			if strings.HasPrefix(k, l.id+"[") {
				s.mem[at+k[len(l.id):]] = v
			}
		}
	}
	return nout{s, []tm{{k: "list", id: at}}}
}

func (s *nstate) memOf(id string) string {
	if l := s.lists[id]; l != nil && l.mem != "" {
		return l.mem
	}
	return id
}

// overwrite: the list's memory is used for another one; what else is kept in it is lost.
func (r *nrun) overwrite(st *nstate, m string, but ...string) {
	lost := func(v tm) (tm, bool) {
		if v.k != "list" || st.memOf(v.id) != m || v.id == but[0] || v.id == but[1] {
			return v, false
		}
		n := &nlist{open: true, maybe: map[string]bool{}}
		for _, t := range r.tracked {
			n.maybe[t.key()] = true
		}
		v.id += "~"
		st.lists[v.id] = n
		return v, true
	}
	for k, o := range st.maps {
		for i, e := range o.ents {
			if v, ok := lost(e.val); ok {
				o = o.copy()
				o.ents[i].val = v
				st.maps[k] = o
			}
		}
	}
	for k, v := range st.mem {
		if v, ok := lost(v); ok {
			st.mem[k] = v
		}
	}
}

// shortNames are the names that were made shorter, in all runs.
var (
	shortMu    sync.Mutex
	shortNames = map[string]int{}
)

func maybeOf(l *nlist) map[string]bool {
	if l == nil {
		return nil
	}
	return l.maybe
}

// partOf tells which part of which text it is.
func (r *nrun) partOf(st *nstate, t tm) [3]tm {
	if s, ok := r.slices[t.id]; ok && t.k == "sym" {
		return s
	}
	return [3]tm{t, tmInt(0), r.length(st, t)}
}

func (r *nrun) follow(fn *ssa.Function, args, free []tm, st *nstate, ctx string, depth int) []nout {
	if r.byPart {
		return r.apart(fn, args, free, st, ctx, depth)
	}
	return r.call(fn, args, free, st, ctx, depth)
}

var atomRE = regexp.MustCompile(`‹[^‹›]*(‹[^‹›]*›[^‹›]*)*›|[@A-Za-z_][\w@]*`)

// atoms are the names in a text.
func atoms(text string, into map[string]bool) {
	for _, a := range atomRE.FindAllString(text, -1) {
		into[a] = true
	}
}

// apart follows a call with only that part of the state that it can reach, and adds the rest to the outcomes. A call
// that was followed from the same part before isn't followed again.
func (r *nrun) apart(fn *ssa.Function, args, free []tm, st *nstate, ctx string, depth int) []nout {
	in := newNstate()
	names := map[string]bool{}
	for _, a := range append(append([]tm{}, args...), free...) {
		atoms(a.key(), names)
	}
	all := func(k string) bool {
		as := atomRE.FindAllString(k, -1)
		for _, a := range as {
			if !names[a] {
				return false
			}
		}
		return len(as) > 0
	}
	for k := range st.ev {
		in.ev[k] = true
	}
	for k, v := range st.rounds {
		in.rounds[k] = v
	}
	for k, v := range st.pend {
		in.pend[k] = v
	}
	base := func(k string) string {
		for _, p := range []string{"at:", "≥:", "search:", "seq:"} {
			k = strings.TrimPrefix(k, p)
		}
		if strings.HasPrefix(k, "g:") {
			return k
		}
		if i := strings.IndexAny(k, ".[<>"); i > 0 {
			k = k[:i]
		}
		return k
	}
	for changed := true; changed; {
		changed = false
		for k, v := range st.mem {
			if _, ok := in.mem[k]; !ok && (strings.HasPrefix(k, "g:") || all(base(k))) {
				in.mem[k], changed = v, true
				atoms(k+" "+v.key(), names)
			}
		}
		for k, m := range st.maps {
			if in.maps[k] == nil && all(k) {
				in.maps[k], changed = m, true
				atoms(m.key(), names)
			}
		}
		for k, l := range st.lists {
			if in.lists[k] == nil && all(k) {
				in.lists[k], changed = l, true
				atoms(l.key(), names)
			}
		}
	}
	about := func(k string) bool {
		for _, a := range atomRE.FindAllString(k, -1) {
			switch a {
			case "eq", "lt", "has", "len", "map", "list", "addr":
			default:
				if names[a] {
					return true
				}
			}
		}
		return false
	}
	for k, v := range st.facts {
		if about(k) {
			in.facts[k] = v
		}
	}
	for k, v := range st.vals {
		if about(k) || about(v.key()) {
			in.vals[k] = v
		}
	}
	var key strings.Builder
	key.WriteString(fn.String() + "|" + ctx + "|")
	for _, a := range append(append([]tm{}, args...), free...) {
		key.WriteString(a.key() + "|")
	}
	key.WriteString(in.key())
	outs, ok := r.memo[key.String()]
	if !ok {
		outs = r.call(fn, args, free, in, ctx, depth)
		if r.why != "" {
			return nil
		}
		if r.memo == nil {
			r.memo = map[string][]nout{}
		}
		r.memo[key.String()] = outs
	}
	had := in.key()
	var res []nout
	for _, o := range outs {
		s := o.st.clone()
		after := s.key()
		stale := func(k string) bool {
			for _, y := range symRE.FindAllString(k, -1) {
				if strings.Contains(after, y) && !strings.Contains(had, y) {
					return true
				}
			}
			return false
		}
		for k, v := range st.mem {
			if _, ok := in.mem[k]; !ok {
				if _, made := s.mem[k]; !made {
					s.mem[k] = v
				}
			}
		}
		for k, m := range st.maps {
			if in.maps[k] == nil && s.maps[k] == nil {
				s.maps[k] = m
			}
		}
		for k, l := range st.lists {
			if in.lists[k] == nil && s.lists[k] == nil {
				s.lists[k] = l
			}
		}
		for k, v := range st.facts {
			if _, ok := in.facts[k]; !ok && !stale(k) {
				s.facts[k] = v
			}
		}
		for k, v := range st.vals {
			if _, ok := in.vals[k]; !ok && !stale(k) {
				s.vals[k] = v
			}
		}
		res = append(res, nout{s, o.res})
	}
	return res
}
