package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

// This file holds the abstract domain of the interpreter (see interp.go): abstract objects,
// locations, values and states.

type objKind uint8

const (
	objAlloc   objKind = iota // memory allocated by the repository's code
	objGlobal                 // a package-level variable
	objFunc                   // a function value without bindings
	objClosure                // a closure: bindings at "$b0", "$b1", ...
	objBox                    // a non-pointer value inside of an interface
	objExt                    // something owned by code outside of the repository
	objRoot                   // memory handed to an entry point by its caller
)

// Obj is an abstract object: an allocation site in a calling context.
type Obj struct {
	id   int
	kind objKind
	name string
	typ  types.Type // type of the memory (pointee); for objExt the type of the value
	fn   *ssa.Function
	site ssa.Instruction
	ctx  string
	tag  string          // client-defined label (e.g. "queryresult")
	zero bool            // memory starts out as the zero value
	set  map[string]bool // parts that are set before anything can see the zero value
}

func (o *Obj) String() string { return o.name }

// Loc is a location: a path inside of an abstract object. A pointer to the whole object has
// path "". Elements of slices, arrays and maps are at "[]", map keys at "[k]".
type Loc struct {
	o *Obj
	p string
}

func (l Loc) String() string { return l.o.name + l.p }

type implied struct {
	onNil, onNonNil, onTrue, onFalse []string
}

// numInfo describes an integer value as an affine/divided view of a symbolic quantity whose
// range the state tracks.
type numInfo struct {
	sym string
	div int64 // value == sym/div
}

const (
	mayNil    = 1
	mayNonNil = 2
	mayFalse  = 1
	mayTrue   = 2
)

// Val is an abstract value.
type Val struct {
	refs   []Loc
	fields map[string]*Val
	nl     uint8
	b      uint8
	labs   []string
	sym    string
	cst    constant.Value
	im     *implied
	num    *numInfo
	key    string
}

var topVal = &Val{nl: 3, b: 3}
var nilVal = &Val{nl: mayNil, b: 3}
var bottomVal = &Val{}

func (v *Val) Key() string {
	if v.key != "" {
		return v.key
	}
	var sb strings.Builder
	sb.WriteString("{")
	for _, r := range v.refs {
		fmt.Fprintf(&sb, "%d%s;", r.o.id, r.p)
	}
	sb.WriteString("|")
	if v.fields != nil {
		ks := make([]string, 0, len(v.fields))
		for k := range v.fields {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			sb.WriteString(k)
			sb.WriteString("=")
			sb.WriteString(v.fields[k].Key())
		}
	}
	fmt.Fprintf(&sb, "|%d%d|%s|%s|", v.nl, v.b, strings.Join(v.labs, ","), v.sym)
	if v.cst != nil {
		sb.WriteString(v.cst.ExactString())
	}
	if v.im != nil {
		fmt.Fprintf(&sb, "|%v", *v.im)
	}
	if v.num != nil {
		fmt.Fprintf(&sb, "|%v", *v.num)
	}
	sb.WriteString("}")
	v.key = sb.String()
	return v.key
}

func sortLocs(ls []Loc) []Loc {
	sort.Slice(ls, func(i, j int) bool {
		if ls[i].o.id != ls[j].o.id {
			return ls[i].o.id < ls[j].o.id
		}
		return ls[i].p < ls[j].p
	})
	out := ls[:0]
	for i, l := range ls {
		if i == 0 || l != ls[i-1] {
			out = append(out, l)
		}
	}
	return out
}

func unionStr(a, b []string) []string {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	m := map[string]bool{}
	for _, s := range a {
		m[s] = true
	}
	for _, s := range b {
		m[s] = true
	}
	out := make([]string, 0, len(m))
	for s := range m {
		out = append(out, s)
	}
	sort.Strings(out)
	return out
}

func interStr(a, b []string) []string {
	m := map[string]bool{}
	for _, s := range a {
		m[s] = true
	}
	var out []string
	for _, s := range b {
		if m[s] {
			out = append(out, s)
		}
	}
	return out
}

func hasStr(a []string, s string) bool {
	for _, x := range a {
		if x == s {
			return true
		}
	}
	return false
}

func withoutStr(a []string, s string) []string {
	var out []string
	for _, x := range a {
		if x != s {
			out = append(out, x)
		}
	}
	return out
}

func locLess(a, b Loc) bool {
	if a.o.id != b.o.id {
		return a.o.id < b.o.id
	}
	return a.p < b.p
}

// mergeLocs unites two sorted lists; which tells whether the first (1) or the second (2) list
// has something that the other one hasn't.
func mergeLocs(a, b []Loc) (out []Loc, which int) {
	if len(b) == 0 {
		if len(a) > 0 {
			which = 1
		}
		return a, which
	}
	if len(a) == 0 {
		return b, 2
	}
	out = make([]Loc, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case j == len(b) || i < len(a) && locLess(a[i], b[j]):
			out = append(out, a[i])
			which |= 1
			i++
		case i == len(a) || locLess(b[j], a[i]):
			out = append(out, b[j])
			which |= 2
			j++
		default:
			out = append(out, a[i])
			i++
			j++
		}
	}
	return out, which
}

func isBottom(v *Val) bool {
	return v == nil || (v.nl == 0 && v.b == 0 && len(v.refs) == 0 && v.fields == nil)
}

func joinVal(a, b *Val) *Val {
	if a == b {
		return a
	}
	if isBottom(a) {
		return b
	}
	if isBottom(b) {
		return a
	}
	if a.key != "" && a.key == b.key {
		return a
	}
	refs, which := mergeLocs(a.refs, b.refs)
	if a.fields == nil && b.fields == nil && a.im == nil && b.im == nil && a.cst == nil && b.cst == nil && a.num == b.num && a.sym == b.sym && a.nl == b.nl && a.b == b.b && len(a.labs) == 0 && len(b.labs) == 0 {
		if which&2 == 0 {
			return a
		}
		if which&1 == 0 {
			return b
		}
	}
	v := &Val{nl: a.nl | b.nl, b: a.b | b.b}
	v.refs = refs
	v.labs = joinLabs(a.labs, b.labs)
	if a.sym == b.sym {
		v.sym = a.sym
	}
	if a.cst != nil && b.cst != nil && a.cst.Kind() == b.cst.Kind() && a.cst.ExactString() == b.cst.ExactString() {
		v.cst = a.cst
	}
	if a.num != nil && b.num != nil && *a.num == *b.num {
		v.num = a.num
	}
	if a.im != nil && b.im != nil {
		v.im = &implied{interStr(a.im.onNil, b.im.onNil), interStr(a.im.onNonNil, b.im.onNonNil), interStr(a.im.onTrue, b.im.onTrue), interStr(a.im.onFalse, b.im.onFalse)}
	} else if a.im != nil || b.im != nil {
		// a definite nil (or non-nil) on one side does not contradict what the other side
		// implies for the opposite outcome
		im, o := a.im, b
		if im == nil {
			im, o = b.im, a
		}
		n := &implied{}
		if o.nl == mayNil {
			n.onNonNil = im.onNonNil
		} else if o.nl == mayNonNil {
			n.onNil = im.onNil
		}
		if o.b == mayTrue {
			n.onFalse = im.onFalse
		} else if o.b == mayFalse {
			n.onTrue = im.onTrue
		}
		if n.onNil != nil || n.onNonNil != nil || n.onTrue != nil || n.onFalse != nil {
			v.im = n
		}
	}
	if a.fields != nil || b.fields != nil {
		v.fields = map[string]*Val{}
		for k, x := range a.fields {
			v.fields[k] = x
		}
		for k, x := range b.fields {
			v.fields[k] = joinVal(v.fields[k], x)
		}
	}
	return v
}

// joinLabs: labels tell what a value may be made from; those with a mark in front tell what it's
// made from for sure.
func joinLabs(a, b []string) []string {
	u := unionStr(a, b)
	var out []string
	for i, l := range u {
		if l[0] == '!' && !(hasStr(a, l) && hasStr(b, l)) {
			if out == nil {
				out = append([]string{}, u[:i]...)
			}
			continue
		}
		if out != nil {
			out = append(out, l)
		}
	}
	if out == nil {
		return u
	}
	return out
}

// mayLabs are the labels without those that tell something for sure.
func mayLabs(labs []string) []string {
	for _, l := range labs {
		if l[0] == '!' {
			var out []string
			for _, l := range labs {
				if l[0] != '!' {
					out = append(out, l)
				}
			}
			return out
		}
	}
	return labs
}

func (v *Val) clone() *Val {
	c := *v
	c.key = ""
	return &c
}

func (v *Val) withLab(l string) *Val {
	if hasStr(v.labs, l) {
		return v
	}
	c := v.clone()
	c.labs = unionStr(v.labs, []string{l})
	return c
}

func refVal(ls ...Loc) *Val {
	return &Val{refs: sortLocs(ls), nl: mayNonNil, b: 3}
}

// Held is a lock held by the running thread.
type Held struct {
	loc   Loc
	write bool
	ambig bool // the lock could be one of several: held, but it protects nothing for sure
	pos   string
}

func (h Held) String() string {
	m := "R"
	if h.write {
		m = "W"
	}
	return h.loc.String() + "/" + m
}

type deferred struct {
	instr *ssa.Defer
	fnv   *Val
	args  []*Val
}

type span struct {
	lo, hi int64
	not    []int64
}

// State is the flow-sensitive part of the abstract state. States are immutable once shared;
// use clone before changing one.
type State struct {
	locks   []Held
	defers  []deferred
	facts   []string
	spans   map[string]span
	started []string
	priv    bits          // allocated by this thread and not yet visible to others
	pub     bits          // was private, then became visible to others
	cells   map[*Obj]*Val // current values of local variables that live in memory
}

// bits is a set of abstract objects.
type bits []uint64

func (b bits) has(o *Obj) bool {
	w := o.id >> 6
	return w < len(b) && b[w]&(1<<(o.id&63)) != 0
}

// with and without return changed copies: sets are shared between states.
func (b bits) with(o *Obj) bits {
	if b.has(o) {
		return b
	}
	w := o.id >> 6
	n := len(b)
	if n <= w {
		n = w + 1
	}
	c := make(bits, n)
	copy(c, b)
	c[w] |= 1 << (o.id & 63)
	return c
}

func (b bits) without(o *Obj) bits {
	if !b.has(o) {
		return b
	}
	c := append(bits(nil), b...)
	c[o.id>>6] &^= 1 << (o.id & 63)
	return c
}

func (b bits) same(c bits) bool {
	return len(b) == len(c) && (len(b) == 0 || &b[0] == &c[0])
}

func (b bits) union(c bits) bits {
	if b.same(c) || len(c) == 0 {
		return b
	}
	if len(b) < len(c) {
		b, c = c, b
	}
	sub := true
	for i, w := range c {
		if w&^b[i] != 0 {
			sub = false
			break
		}
	}
	if sub {
		return b
	}
	r := append(bits(nil), b...)
	for i, w := range c {
		r[i] |= w
	}
	return r
}

func (b bits) minus(c bits) bits {
	n := len(b)
	if len(c) < n {
		n = len(c)
	}
	for i := 0; i < n; i++ {
		if b[i]&c[i] != 0 {
			r := append(bits(nil), b...)
			for j := 0; j < n; j++ {
				r[j] &^= c[j]
			}
			return r
		}
	}
	return b
}

func (b bits) key(sb *strings.Builder) {
	n := len(b)
	for n > 0 && b[n-1] == 0 {
		n--
	}
	sb.WriteByte('|')
	if n > 0 {
		sb.Write(unsafe.Slice((*byte)(unsafe.Pointer(&b[0])), n*8))
	}
}

// own makes a freshly allocated object private.
func (s *State) own(o *Obj) {
	s.priv = s.priv.with(o)
	s.pub = s.pub.without(o)
}

// unown notes that other threads may see the object from now on.
func (s *State) unown(o *Obj) {
	s.priv = s.priv.without(o)
	s.pub = s.pub.with(o)
	s.delCell(o)
}

// clone: the parts of a state are never changed in place.
func (s *State) clone() *State {
	c := *s
	return &c
}

func (s *State) setSpan(sym string, sp span) {
	m := make(map[string]span, len(s.spans)+1)
	for k, v := range s.spans {
		m[k] = v
	}
	m[sym] = sp
	s.spans = m
}

func (s *State) delSpan(sym string) {
	if _, ok := s.spans[sym]; !ok {
		return
	}
	m := make(map[string]span, len(s.spans))
	for k, v := range s.spans {
		if k != sym {
			m[k] = v
		}
	}
	s.spans = m
}

func (s *State) setCell(o *Obj, v *Val) {
	if old, ok := s.cells[o]; ok && (old == v || old.Key() == v.Key()) {
		return
	}
	m := make(map[*Obj]*Val, len(s.cells)+1)
	for k, x := range s.cells {
		m[k] = x
	}
	m[o] = v
	s.cells = m
}

func (s *State) delCell(o *Obj) {
	if _, ok := s.cells[o]; !ok {
		return
	}
	m := make(map[*Obj]*Val, len(s.cells))
	for k, x := range s.cells {
		if k != o {
			m[k] = x
		}
	}
	s.cells = m
}

// key is the property-relevant part: states with different keys are kept apart.
func (s *State) key() string {
	var sb strings.Builder
	for _, h := range s.locks {
		fmt.Fprintf(&sb, "%d%s%v,", h.loc.o.id, h.loc.p, h.write)
	}
	sb.WriteString("|")
	for _, d := range s.defers {
		fmt.Fprintf(&sb, "%p%s,", d.instr, d.fnv.Key())
		for _, a := range d.args {
			sb.WriteString(a.Key())
		}
	}
	sb.WriteString("|")
	sb.WriteString(strings.Join(s.facts, ","))
	if len(s.spans) > 0 {
		ks := make([]string, 0, len(s.spans))
		for k := range s.spans {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Fprintf(&sb, "|%s:%v", k, s.spans[k])
		}
	}
	return sb.String()
}

// full is the key plus everything else that influences the execution.
func (s *State) full() string {
	var sb strings.Builder
	sb.WriteString(s.key())
	sb.WriteByte('|')
	sb.WriteString(strings.Join(s.started, ","))
	s.priv.key(&sb)
	s.pub.key(&sb)
	if len(s.cells) > 0 {
		var os []*Obj
		for o := range s.cells {
			os = append(os, o)
		}
		sort.Slice(os, func(i, j int) bool { return os[i].id < os[j].id })
		for _, o := range os {
			fmt.Fprintf(&sb, "|%d=%s", o.id, s.cells[o].Key())
		}
	}
	return sb.String()
}

func joinState(a, b *State) *State {
	if a == b {
		return a
	}
	c := a.clone()
	c.started = unionStr(a.started, b.started)
	// an object that only one of the paths allocated is still private on the other one, unless
	// that path has published it
	c.pub = a.pub.union(b.pub)
	c.priv = a.priv.union(b.priv).minus(c.pub)
	for o, v := range b.cells {
		c.setCell(o, joinVal(c.cells[o], v))
	}
	for o := range c.cells {
		if !c.priv.has(o) {
			c.delCell(o)
		}
	}
	return c
}

func (s *State) has(f string) bool { return hasStr(s.facts, f) }

func (s *State) withFacts(fs ...string) *State {
	var add []string
	for _, f := range fs {
		if !s.has(f) {
			add = append(add, f)
		}
	}
	if len(add) == 0 {
		return s
	}
	c := s.clone()
	c.facts = unionStr(c.facts, add)
	sort.Strings(c.facts)
	return c
}

func (s *State) withoutFact(f string) *State {
	if !s.has(f) {
		return s
	}
	c := s.clone()
	c.facts = withoutStr(c.facts, f)
	return c
}

// protects reports whether the state certainly holds the lock for the given kind of access.
func heldSet(hs []Held) []string {
	var out []string
	for _, h := range hs {
		out = append(out, h.String())
	}
	return out
}
