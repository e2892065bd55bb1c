package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C16", Rule: "per-element interpretation of every operation of every set type: for an arbitrary element x and all cases of x being in or not in each operand, all paths are followed with sets reduced to whether they hold x, loops to the rounds with and without x, and all other elements to what is found out about them; the result, and the operands afterwards, hold x exactly when they should", Run: runC16})
}

// sv is an abstract value.
type sv struct {
	k     string // set slice elem bool int len pos addr cell iter tuple fn refl nil ?
	id    string // object, element or variable
	n     int64
	parts []sv
	fn    *ssa.Function
}

func (v sv) key() string {
	s := v.k + ":" + v.id
	if v.k == "int" || v.k == "bool" {
		s += fmt.Sprint(v.n)
	}
	for _, p := range v.parts {
		s += "(" + p.key() + ")"
	}
	if v.fn != nil {
		s += v.fn.String()
	}
	return s
}

var svUnknown = sv{k: "?"}

func svBool(b bool) sv {
	if b {
		return sv{k: "bool", n: 1}
	}
	return sv{k: "bool"}
}

type setObj struct {
	list   bool // a slice
	x      int  // how often it holds x (2: more than once)
	sorted bool
	exact  bool   // all of it is known:
	items  string // its elements, each followed by a newline
}

type setIter struct {
	obj     string
	pending bool // x is still to come
	rounds  bool
	n       int             // rounds so far, if all of the collection is known
	in      map[string]bool // every element visited so far is in these
}

// setState is the state of one path.
type setState struct {
	objs   map[string]setObj
	iters  map[string]setIter
	elems  map[string]map[string]bool // what is known of the elements that aren't x
	facts  map[string]bool
	cells  map[string]sv
	order  string // comparisons of elements a and b: "<", "=" or ">"
	failed string
}

func (s *setState) clone() *setState {
	n := &setState{objs: map[string]setObj{}, iters: map[string]setIter{}, elems: map[string]map[string]bool{}, facts: map[string]bool{}, cells: map[string]sv{}, order: s.order, failed: s.failed}
	for k, v := range s.objs {
		n.objs[k] = v
	}
	for k, v := range s.iters {
		in := map[string]bool{}
		for a, b := range v.in {
			in[a] = b
		}
		v.in = in
		n.iters[k] = v
	}
	for k, v := range s.elems {
		m := map[string]bool{}
		for a, b := range v {
			m[a] = b
		}
		n.elems[k] = m
	}
	for k := range s.facts {
		n.facts[k] = true
	}
	for k, v := range s.cells {
		n.cells[k] = v
	}
	return n
}

func (s *setState) key() string {
	var out []string
	for k, v := range s.objs {
		out = append(out, fmt.Sprintf("o%s=%v", k, v))
	}
	for k, v := range s.iters {
		var in []string
		for a := range v.in {
			in = append(in, a)
		}
		sort.Strings(in)
		out = append(out, fmt.Sprintf("i%s=%s %v %v %v %d", k, v.obj, v.pending, v.rounds, in, v.n))
	}
	for k, v := range s.elems {
		var in []string
		for a, b := range v {
			in = append(in, fmt.Sprint(a, b))
		}
		sort.Strings(in)
		out = append(out, fmt.Sprintf("e%s=%v", k, in))
	}
	for k := range s.facts {
		out = append(out, "f"+k)
	}
	for k, v := range s.cells {
		out = append(out, "c"+k+"="+v.key())
	}
	sort.Strings(out)
	return strings.Join(out, ";") + s.failed
}

type setOut struct {
	st  *setState
	res []sv
}

type setPath struct {
	st   *setState
	env  map[ssa.Value]sv
	b    *ssa.BasicBlock
	prev *ssa.BasicBlock
}

type setRun struct {
	p     *Program
	loops map[*ssa.Function][]*loopInfo
	steps int
	fns   map[*ssa.Function]bool
	paths int
	why   string // set when something isn't understood
}

func (r *setRun) giveUp(i ssa.Instruction, what string) {
	if r.why == "" {
		r.why = r.p.instrPos(i) + ": " + what
	}
}

func (r *setRun) loopsOf(fn *ssa.Function) []*loopInfo {
	ls, ok := r.loops[fn]
	if !ok {
		ls = findLoops(r.p, fn)
		r.loops[fn] = ls
	}
	return ls
}

// learn records what is known of an element, and what that says about the sets as a whole.
func (s *setState) learn(el, obj string, in bool) {
	if el == "x" {
		return
	}
	m := s.elems[el]
	if m == nil {
		m = map[string]bool{}
		s.elems[el] = m
	}
	m[obj] = in
	for a, ina := range m {
		for b, inb := range m {
			if ina && !inb {
				s.facts["some:"+a+"-"+b] = true
			}
			if a != b && ina && inb {
				s.facts["some:"+a+"&"+b] = true
			}
		}
	}
}

// has: whether the object holds the element; nil if that isn't known.
func (s *setState) has(el, obj string) *bool {
	if el == "x" {
		b := s.objs[obj].x > 0
		return &b
	}
	if b, ok := s.elems[el][obj]; ok {
		return &b
	}
	return nil
}

func (r *setRun) call(fn *ssa.Function, args, free []sv, st *setState, ctx string, depth int) []setOut {
	if depth > 12 {
		r.why = "too deep a recursion in " + fnName(fn)
		return nil
	}
	r.fns[fn] = true
	env := map[ssa.Value]sv{}
	for i, p := range fn.Params {
		env[p] = args[i]
	}
	for i, f := range fn.FreeVars {
		env[f] = free[i]
	}
	var outs []setOut
	seen := map[string]bool{}
	work := []setPath{{st.clone(), env, fn.Blocks[0], nil}}
	for len(work) > 0 && r.why == "" {
		p := work[len(work)-1]
		work = work[:len(work)-1]
		k := r.pathKey(p)
		if seen[k] {
			continue
		}
		seen[k] = true
		r.steps++
		if r.steps > 200000 {
			r.why = "too many steps in " + fnName(fn)
			return nil
		}
		work = append(work, r.block(fn, p, ctx, depth, &outs)...)
	}
	return outs
}

func (r *setRun) pathKey(p setPath) string {
	var out []string
	for v, x := range p.env {
		out = append(out, v.Name()+"="+x.key())
	}
	sort.Strings(out)
	prev := -1
	if p.prev != nil {
		prev = p.prev.Index
	}
	return fmt.Sprintf("%d<%d|%s|%s", p.b.Index, prev, strings.Join(out, ","), p.st.key())
}

func (r *setRun) block(fn *ssa.Function, p setPath, ctx string, depth int, outs *[]setOut) []setPath {
	cur := []setPath{p}
	var phis []ssa.Instruction
	for _, i := range p.b.Instrs {
		if _, ok := i.(*ssa.Phi); ok {
			phis = append(phis, i)
		}
	}
	if len(phis) > 0 {
		pi := 0
		for i, q := range p.b.Preds {
			if q == p.prev {
				pi = i
			}
		}
		env := copySv(p.env)
		for _, i := range phis {
			ph := i.(*ssa.Phi)
			env[ph] = r.val(p, ph.Edges[pi])
		}
		cur[0].env = env
	}
	for _, instr := range p.b.Instrs[len(phis):] {
		if r.why != "" {
			return nil
		}
		var next []setPath
		for _, q := range cur {
			switch x := instr.(type) {
			case *ssa.Return:
				res := make([]sv, len(x.Results))
				for i, v := range x.Results {
					res[i] = r.val(q, v)
				}
				*outs = append(*outs, setOut{q.st.clone(), res})
			case *ssa.Jump:
				next = append(next, setPath{q.st, q.env, p.b.Succs[0], p.b})
			case *ssa.Panic:
			case *ssa.If:
				next = append(next, r.branch(fn, q, x, ctx)...)
			default:
				next = append(next, r.step(fn, q, instr, ctx, depth)...)
			}
		}
		cur = next
	}
	return cur
}

func copySv(m map[ssa.Value]sv) map[ssa.Value]sv {
	n := make(map[ssa.Value]sv, len(m))
	for k, v := range m {
		n[k] = v
	}
	return n
}

func (r *setRun) val(p setPath, v ssa.Value) sv {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return sv{k: "nil"}
		}
		switch x.Value.Kind() {
		case constant.Bool:
			return svBool(constant.BoolVal(x.Value))
		case constant.Int:
			if n, ok := constant.Int64Val(x.Value); ok {
				return sv{k: "int", n: n}
			}
		}
		return sv{k: "const", id: x.Value.ExactString()}
	case *ssa.Function:
		return sv{k: "fn", fn: x}
	}
	if y, ok := p.env[v]; ok {
		return y
	}
	return svUnknown
}

// branch follows the outcomes of a condition that are possible.
func (r *setRun) branch(fn *ssa.Function, p setPath, x *ssa.If, ctx string) []setPath {
	to := func(st *setState, env map[ssa.Value]sv, i int) setPath {
		return setPath{st, env, p.b.Succs[i], p.b}
	}
	for _, l := range r.loopsOf(fn) {
		if l.header != p.b || l.next != nil {
			continue
		}
		coll := r.val(p, l.coll)
		if coll.k == "nil" {
			coll = sv{k: "slice", id: "empty"}
		}
		if coll.k != "slice" {
			r.giveUp(x, "the loop's collection isn't known")
			return nil
		}
		in, out := 0, 1
		if p.b.Succs[0] != l.in {
			in, out = 1, 0
		}
		id := ctx + "/" + l.id
		var res []setPath
		for _, q := range r.round(p, id, coll.id, !l.body[p.prev], p.st.objs[coll.id].x > 1 || coll.id == "items") {
			if q.el == "" {
				res = append(res, to(q.st, p.env, out))
			} else {
				q.st.cells["round:"+id] = elemSv(q.el)
				res = append(res, to(q.st, p.env, in))
			}
		}
		return res
	}
	c := r.val(p, x.Cond)
	switch {
	case c.k == "bool" && c.n == 1:
		return []setPath{to(p.st, p.env, 0)}
	case c.k == "bool":
		return []setPath{to(p.st, p.env, 1)}
	}
	for _, l := range r.loopsOf(fn) {
		if l.header == p.b {
			r.giveUp(x, "a loop isn't understood")
			return nil
		}
	}
	if p.prev != nil && p.b.Dominates(p.prev) {
		r.giveUp(x, "a loop isn't understood")
		return nil
	}
	// facts about sizes
	a, b := p.st.clone(), p.st.clone()
	if c.k == "cmp" {
		a.facts[c.id] = true
		b.facts[c.parts[0].id] = true
		var res []setPath
		if a.possible() {
			res = append(res, to(a, p.env, 0))
		}
		if b.possible() {
			res = append(res, to(b, p.env, 1))
		}
		return res
	}
	return []setPath{to(a, p.env, 0), to(b, p.env, 1)}
}

// possible: sets whose size is known to be zero hold nothing.
func (s *setState) possible() bool {
	for f := range s.facts {
		if o := strings.TrimPrefix(f, "empty:"); o != f && s.objs[o].x > 0 {
			return false
		}
	}
	return true
}

type setRound struct {
	st *setState
	el string // "" when the loop ends
}

// round begins the next round of a loop over a collection.
func (r *setRun) round(p setPath, id, obj string, first, again bool) []setRound {
	st := p.st.clone()
	it := st.iters[id]
	if first {
		it = setIter{obj: obj, pending: st.objs[obj].x > 0, in: map[string]bool{}}
		for o := range st.objs {
			it.in[o] = true
		}
	} else if last := st.cells["round:"+id]; last.k == "elem" {
		for o := range it.in {
			if h := st.has(last.id, o); h == nil || !*h {
				delete(it.in, o)
			}
		}
	}
	delete(st.cells, "round:"+id)
	st.iters[id] = it
	var out []setRound
	if o := st.objs[obj]; o.exact {
		if list := strings.Split(o.items, "\n"); it.n < len(list)-1 {
			it.n++
			it.rounds = true
			st.iters[id] = it
			return []setRound{{st, list[it.n-1]}}
		}
		it.pending = false
	}
	if !it.pending {
		e := st.clone()
		for o := range it.in {
			if o != obj {
				e.facts["sub:"+obj+"<"+o] = true
			}
		}
		if !it.rounds {
			e.facts["empty:"+obj] = true
		}
		delete(e.iters, id)
		if e.possible() {
			out = append(out, setRound{e, ""})
		}
	}
	if it.pending || again && st.objs[obj].x > 0 {
		e := st.clone()
		it2 := e.iters[id]
		it2.pending, it2.rounds = false, true
		e.iters[id] = it2
		out = append(out, setRound{e, "x"})
	}
	if st.facts["empty:"+obj] || st.objs[obj].exact {
		return out
	}
	e := st.clone()
	it2 := e.iters[id]
	it2.rounds = true
	e.iters[id] = it2
	el := "other:" + id
	delete(e.elems, el)
	e.learn(el, obj, true)
	out = append(out, setRound{e, el})
	return out
}

// elemSv is the value a round is about: an element, or a set from a list of sets.
func elemSv(el string) sv {
	if id := strings.TrimPrefix(el, "set "); id != el {
		return sv{k: "set", id: id}
	}
	return sv{k: "elem", id: el}
}

func (r *setRun) step(fn *ssa.Function, p setPath, instr ssa.Instruction, ctx string, depth int) []setPath {
	set := func(v ssa.Value, x sv) []setPath {
		env := copySv(p.env)
		env[v] = x
		return []setPath{{p.st, env, p.b, p.prev}}
	}
	site := func(i ssa.Instruction) string {
		for n, j := range i.Block().Instrs {
			if j == i {
				return fmt.Sprintf("%s/%s:%d.%d", ctx, fnName(fn), i.Block().Index, n)
			}
		}
		return "?"
	}
	switch x := instr.(type) {
	case *ssa.DebugRef, *ssa.RunDefers:
		return []setPath{p}
	case *ssa.MakeMap:
		o := site(x)
		st := p.st.clone()
		st.reset(o)
		st.objs[o] = setObj{}
		env := copySv(p.env)
		env[x] = sv{k: "set", id: o}
		return []setPath{{st, env, p.b, p.prev}}
	case *ssa.MakeSlice:
		if n := r.val(p, x.Len); n.k != "int" || n.n != 0 {
			r.giveUp(x, "a list that isn't empty to begin with")
			return nil
		}
		o := site(x)
		st := p.st.clone()
		st.reset(o)
		st.objs[o] = setObj{list: true, exact: true}
		env := copySv(p.env)
		env[x] = sv{k: "slice", id: o}
		return []setPath{{st, env, p.b, p.prev}}
	case *ssa.Alloc:
		st := p.st.clone()
		c := site(x)
		for k := range st.cells {
			if strings.HasPrefix(k, "cell:"+c) {
				delete(st.cells, k)
			}
		}
		zero := svUnknown
		switch deref(x.Type()).Underlying().(type) {
		case *types.Map, *types.Slice:
			zero = sv{k: "nil"}
		case *types.Basic:
			zero = zeroSv(deref(x.Type()))
		}
		st.cells["cell:"+c] = zero
		env := copySv(p.env)
		env[x] = sv{k: "cell", id: c}
		return []setPath{{st, env, p.b, p.prev}}
	case *ssa.Slice:
		b := r.val(p, x.X)
		if b.k == "cell" { // the list of a call's variable arguments
			o := site(x)
			st := p.st.clone()
			st.reset(o)
			ob := setObj{list: true, exact: true}
			a, ok := deref(x.X.Type()).Underlying().(*types.Array)
			if !ok || x.Low != nil || x.High != nil {
				r.giveUp(x, "a part of a list")
				return nil
			}
			for i := int64(0); i < a.Len(); i++ {
				e := st.cells[fmt.Sprintf("cell:%s[%d]", b.id, i)]
				if e.k == "set" {
					ob.items += "set " + e.id + "\n"
					continue
				}
				if e.k != "elem" {
					r.giveUp(x, "a list of unknown elements")
					return nil
				}
				if e.id == "x" {
					ob.x++
				}
				ob.items += e.id + "\n"
				if e.id != "x" {
					st.learn(e.id, o, true)
				}
			}
			st.objs[o] = ob
			env := copySv(p.env)
			env[x] = sv{k: "slice", id: o}
			return []setPath{{st, env, p.b, p.prev}}
		}
		if x.Low == nil && x.High == nil {
			return set(x, b)
		}
		for _, l := range r.loopsOf(fn) {
			if l.rest != nil && x.X == ssa.Value(l.rest) {
				return set(x, b)
			}
		}
		r.giveUp(x, "a part of a list")
		return nil
	case *ssa.ChangeType:
		return set(x, r.val(p, x.X))
	case *ssa.MakeInterface:
		return set(x, r.val(p, x.X))
	case *ssa.ChangeInterface:
		return set(x, r.val(p, x.X))
	case *ssa.TypeAssert:
		v := r.val(p, x.X)
		if x.CommaOk {
			return set(x, sv{k: "tuple", parts: []sv{v, svUnknown}})
		}
		return set(x, v)
	case *ssa.MakeClosure:
		v := sv{k: "fn", fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			v.parts = append(v.parts, r.val(p, b))
		}
		return set(x, v)
	case *ssa.Range:
		c := r.val(p, x.X)
		if c.k == "nil" {
			c = sv{k: "set", id: "empty"}
		}
		if c.k != "set" {
			r.giveUp(x, "a range over something unknown")
			return nil
		}
		st := p.st.clone()
		id := site(x)
		delete(st.iters, id)
		delete(st.cells, "round:"+id)
		env := copySv(p.env)
		env[x] = sv{k: "iter", id: id, parts: []sv{c}}
		return []setPath{{st, env, p.b, p.prev}}
	case *ssa.Next:
		it := r.val(p, x.Iter)
		if it.k != "iter" {
			r.giveUp(x, "an unknown iterator")
			return nil
		}
		_, going := p.st.iters[it.id]
		var out []setPath
		for _, q := range r.round(p, it.id, it.parts[0].id, !going, false) {
			env := copySv(p.env)
			if q.el == "" {
				env[x] = sv{k: "tuple", parts: []sv{svBool(false), svUnknown, svUnknown}}
			} else {
				q.st.cells["round:"+it.id] = elemSv(q.el)
				env[x] = sv{k: "tuple", parts: []sv{svBool(true), elemSv(q.el), svUnknown}}
			}
			out = append(out, setPath{q.st, env, p.b, p.prev})
		}
		return out
	case *ssa.Extract:
		t := r.val(p, x.Tuple)
		if t.k == "tuple" && x.Index < len(t.parts) {
			return set(x, t.parts[x.Index])
		}
		return set(x, svUnknown)
	case *ssa.Lookup:
		m, k := r.val(p, x.X), r.val(p, x.Index)
		var out []setPath
		for _, h := range r.member(p, m, k, x) {
			env := copySv(p.env)
			v := sv{k: "elemval"}
			if b, ok := x.X.Type().Underlying().(*types.Map); ok {
				if bt, ok := b.Elem().Underlying().(*types.Basic); ok && bt.Kind() == types.Bool {
					v = svUnknown
				}
			}
			if x.CommaOk {
				v = sv{k: "tuple", parts: []sv{v, svBool(h.in)}}
			}
			env[x] = v
			out = append(out, setPath{h.st, env, p.b, p.prev})
		}
		return out
	case *ssa.MapUpdate:
		return r.put(p, r.val(p, x.Map), r.val(p, x.Key), true, x)
	case *ssa.IndexAddr:
		b, i := r.val(p, x.X), r.val(p, x.Index)
		if b.k == "cell" && i.k == "int" {
			return set(x, sv{k: "cell", id: fmt.Sprintf("%s[%d]", b.id, i.n)})
		}
		if b.k == "slice" && i.k == "pos" {
			return set(x, sv{k: "cell", id: "at:" + i.id})
		}
		for _, l := range r.loopsOf(fn) {
			if l.next == nil && l.body[x.Block()] && b.k == "slice" {
				el, ok := p.st.cells["round:"+ctx+"/"+l.id]
				if ok && (l.idx != nil && x.Index == l.idx && sameExpr(x.X, l.coll, 0) || l.rest != nil && x.X == ssa.Value(l.rest) && i.k == "int" && i.n == 0) {
					return set(x, sv{k: "addr", parts: []sv{el}})
				}
			}
		}
		r.giveUp(x, "an element of a list is taken in a way that isn't understood")
		return nil
	case *ssa.UnOp:
		v := r.val(p, x.X)
		switch x.Op {
		case token.MUL:
			switch v.k {
			case "cell":
				if c, ok := p.st.cells["cell:"+v.id]; ok {
					return set(x, c)
				}
			case "addr":
				return set(x, v.parts[0])
			}
			return set(x, svUnknown)
		case token.NOT:
			switch v.k {
			case "bool":
				return set(x, svBool(v.n == 0))
			case "cmp":
				return set(x, sv{k: "cmp", id: v.parts[0].id, parts: []sv{{id: v.id}}})
			}
		}
		return set(x, svUnknown)
	case *ssa.Store:
		a := r.val(p, x.Addr)
		if a.k != "cell" {
			r.giveUp(x, "a store that isn't understood")
			return nil
		}
		st := p.st.clone()
		st.cells["cell:"+a.id] = r.val(p, x.Val)
		return []setPath{{st, p.env, p.b, p.prev}}
	case *ssa.FieldAddr, *ssa.Field, *ssa.Convert:
		return set(instr.(ssa.Value), svUnknown)
	case *ssa.BinOp:
		return set(x, r.binop(p, x))
	case *ssa.Call:
		return r.callInstr(fn, p, x, ctx, depth, site(x))
	}
	r.giveUp(instr, fmt.Sprintf("%T isn't understood", instr))
	return nil
}

func zeroSv(t types.Type) sv {
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			return svBool(false)
		case b.Info()&types.IsInteger != 0:
			return sv{k: "int"}
		}
		return sv{k: "const", id: `""`}
	}
	return svUnknown
}

// reset forgets an earlier object made at the same place.
func (s *setState) reset(o string) {
	for _, m := range s.elems {
		delete(m, o)
	}
	for k, v := range s.iters {
		if v.in[o] {
			delete(v.in, o)
			s.iters[k] = v
		}
	}
	for f := range s.facts {
		if strings.Contains(f, o) {
			delete(s.facts, f)
		}
	}
}

type setMember struct {
	st *setState
	in bool
}

// member tells whether the set holds the element; both when that isn't known.
func (r *setRun) member(p setPath, m, k sv, i ssa.Instruction) []setMember {
	if m.k == "nil" {
		return []setMember{{p.st, false}}
	}
	if m.k != "set" || k.k != "elem" {
		r.giveUp(i, "a look-up of something unknown")
		return nil
	}
	if h := p.st.has(k.id, m.id); h != nil {
		return []setMember{{p.st, *h}}
	}
	var out []setMember
	for _, in := range []bool{true, false} {
		st := p.st.clone()
		if in && st.facts["empty:"+m.id] {
			continue
		}
		st.learn(k.id, m.id, in)
		out = append(out, setMember{st, in})
	}
	return out
}

func (r *setRun) put(p setPath, m, k sv, in bool, i ssa.Instruction) []setPath {
	if m.k != "set" || k.k != "elem" {
		r.giveUp(i, "a change of something unknown")
		return nil
	}
	st := p.st.clone()
	o := st.objs[m.id]
	if k.id == "x" {
		o.x = 0
		if in {
			o.x = 1
		}
		st.objs[m.id] = o
	} else {
		e := st.elems[k.id]
		if e == nil {
			e = map[string]bool{}
			st.elems[k.id] = e
		}
		e[m.id] = in
	}
	delete(st.facts, "empty:"+m.id)
	// what was known of its size and of all of its elements may not hold any more
	for f := range st.facts {
		if strings.HasPrefix(f, "len") && strings.Contains(f, m.id) || strings.HasPrefix(f, "sub:") && strings.Contains(f, m.id) {
			delete(st.facts, f)
		}
	}
	st.facts["changed:"+m.id] = true
	return []setPath{{st, p.env, p.b, p.prev}}
}

func (r *setRun) binop(p setPath, x *ssa.BinOp) sv {
	a, b := r.val(p, x.X), r.val(p, x.Y)
	cmp := func(c int) sv {
		switch x.Op {
		case token.EQL:
			return svBool(c == 0)
		case token.NEQ:
			return svBool(c != 0)
		case token.LSS:
			return svBool(c < 0)
		case token.LEQ:
			return svBool(c <= 0)
		case token.GTR:
			return svBool(c > 0)
		case token.GEQ:
			return svBool(c >= 0)
		}
		return svUnknown
	}
	switch {
	case a.k == "int" && b.k == "int":
		switch {
		case x.Op == token.ADD:
			if a.n > 3 || a.n < -3 {
				return svUnknown
			}
			return sv{k: "int", n: a.n + b.n}
		case a.n < b.n:
			return cmp(-1)
		case a.n == b.n:
			return cmp(0)
		}
		return cmp(1)
	case a.k == "bool" && b.k == "bool":
		if a.n == b.n {
			return cmp(0)
		}
		return cmp(1)
	case a.k == "elem" && b.k == "elem" && p.st.order != "":
		if a.id == b.id {
			return cmp(0)
		}
		c := map[string]int{"<": -1, "=": 0, ">": 1}[p.st.order]
		if a.id == "b" {
			c = -c
		}
		return cmp(c)
	case a.k == "elem" && b.k == "elem" && a.id == b.id:
		return cmp(0)
	case (a.k == "nil" || b.k == "nil") && (a.k == "set" || b.k == "set"):
		return svUnknown
	case a.k == "len" && b.k == "len":
		if a.id == b.id {
			return cmp(0)
		}
		rel := func(op token.Token) string { return "len:" + a.id + op.String() + b.id }
		neg := map[token.Token]token.Token{token.EQL: token.NEQ, token.NEQ: token.EQL, token.LSS: token.GEQ, token.GEQ: token.LSS, token.GTR: token.LEQ, token.LEQ: token.GTR}
		if n, ok := neg[x.Op]; ok {
			return sv{k: "cmp", id: rel(x.Op), parts: []sv{{id: rel(n)}}}
		}
	case a.k == "len" && b.k == "int" || a.k == "int" && b.k == "len":
		op := x.Op
		if a.k == "int" {
			a, b = b, a
			op = map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ, token.EQL: token.EQL, token.NEQ: token.NEQ}[op]
		}
		none, some := "empty:"+a.id, "nonempty:"+a.id
		switch {
		case b.n == 0 && (op == token.EQL || op == token.LEQ), b.n == 1 && op == token.LSS:
			return sv{k: "cmp", id: none, parts: []sv{{id: some}}}
		case b.n == 0 && (op == token.NEQ || op == token.GTR), b.n == 1 && op == token.GEQ:
			return sv{k: "cmp", id: some, parts: []sv{{id: none}}}
		}
	}
	return svUnknown
}

func (r *setRun) callInstr(fn *ssa.Function, p setPath, x *ssa.Call, ctx string, depth int, at string) []setPath {
	cc := x.Common()
	args := make([]sv, len(cc.Args))
	for i, a := range cc.Args {
		args[i] = r.val(p, a)
	}
	with := func(st *setState, v sv) setPath {
		env := copySv(p.env)
		env[x] = v
		return setPath{st, env, p.b, p.prev}
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "len", "cap":
			switch args[0].k {
			case "set", "slice":
				return []setPath{with(p.st, sv{k: "len", id: args[0].id})}
			case "nil":
				return []setPath{with(p.st, sv{k: "int"})}
			}
			return []setPath{with(p.st, svUnknown)}
		case "delete":
			return r.put(p, args[0], args[1], false, x)
		case "append":
			st := p.st.clone()
			o := setObj{list: true}
			if args[0].k == "slice" {
				o = st.objs[args[0].id]
			} else if args[0].k != "nil" {
				r.giveUp(x, "an append to something unknown")
				return nil
			}
			if args[1].k != "slice" {
				r.giveUp(x, "an append of something unknown")
				return nil
			}
			add := st.objs[args[1].id]
			o.x += add.x
			if o.x > 2 {
				o.x = 2
			}
			o.sorted = false
			if o.exact && add.exact && len(o.items)+len(add.items) < 60 {
				o.items += add.items
			} else {
				o.exact, o.items = false, ""
			}
			st.reset(at)
			st.objs[at] = o
			return []setPath{with(st, sv{k: "slice", id: at})}
		case "ssa:wrapnilchk":
			return []setPath{with(p.st, args[0])}
		}
		r.giveUp(x, b.Name()+" isn't understood")
		return nil
	}
	callee := cc.StaticCallee()
	var free []sv
	if callee == nil {
		if f := r.val(p, cc.Value); f.k == "fn" && !cc.IsInvoke() {
			callee, free = f.fn, f.parts
		}
	} else if f := r.val(p, cc.Value); f.k == "fn" {
		free = f.parts
	}
	if callee == nil {
		r.giveUp(x, "an unknown function is called")
		return nil
	}
	if callee.Blocks != nil && callee.Pkg != nil && r.p.isRepo[callee.Pkg] || callee.Parent() != nil {
		var out []setPath
		for _, o := range r.call(callee, args, free, p.st, at, depth+1) {
			v := svUnknown
			if len(o.res) == 1 {
				v = o.res[0]
			} else if len(o.res) > 1 {
				v = sv{k: "tuple", parts: o.res}
			}
			out = append(out, with(o.st, v))
		}
		return out
	}
	name := callee.String()
	switch name {
	case "reflect.ValueOf":
		return []setPath{with(p.st, args[0])}
	case "(reflect.Value).MapKeys":
		if args[0].k != "set" {
			break
		}
		st := p.st.clone()
		st.reset(at)
		st.objs[at] = setObj{list: true, x: st.objs[args[0].id].x}
		return []setPath{with(st, sv{k: "slice", id: at})}
	case "(reflect.Value).Interface", "(reflect.Value).String", "(reflect.Value).Int", "(reflect.Value).Uint":
		if args[0].k == "elem" {
			return []setPath{with(p.st, args[0])}
		}
	case "(reflect.Value).Len":
		return []setPath{with(p.st, sv{k: "len", id: args[0].id})}
	case "sort.Strings", "sort.Ints", "slices.Sort":
		return r.sorted(p, x, args[0])
	case "sort.Sort", "sort.Stable":
		var t types.Type
		if mi, ok := cc.Args[0].(*ssa.MakeInterface); ok {
			t = mi.X.Type()
		}
		if t == nil || args[0].k != "slice" {
			break
		}
		less, swap, length := r.p.method(t, "Less"), r.p.method(t, "Swap"), r.p.method(t, "Len")
		if less == nil || swap == nil || length == nil || !r.lessOK(less, nil) || !r.swapOK(swap) || !r.lenOK(length) {
			r.giveUp(x, "the order of the list, or the way it's sorted, isn't the elements' own")
			return nil
		}
		return r.sorted(p, x, args[0])
	case "sort.Slice", "sort.SliceStable":
		if args[1].k != "fn" || args[0].k != "slice" || !r.lessOK(args[1].fn, args[1].parts) {
			r.giveUp(x, "the order of the list isn't the elements' own")
			return nil
		}
		return r.sorted(p, x, args[0])
	}
	if strings.HasPrefix(name, "slices.Sort[") {
		return r.sorted(p, x, args[0])
	}
	r.giveUp(x, name+" isn't understood")
	return nil
}

func (r *setRun) sorted(p setPath, x *ssa.Call, l sv) []setPath {
	if l.k != "slice" {
		r.giveUp(x, "something unknown is sorted")
		return nil
	}
	st := p.st.clone()
	o := st.objs[l.id]
	o.sorted, o.exact, o.items = true, false, ""
	st.objs[l.id] = o
	env := copySv(p.env)
	env[x] = svUnknown
	return []setPath{{st, env, p.b, p.prev}}
}

// pair is a state with a list whose elements at i and j are a and b.
func pairState(order string) (*setState, sv) {
	st := (&setState{}).clone()
	st.order = order
	st.objs["list"] = setObj{list: true}
	st.cells["cell:at:i"] = sv{k: "elem", id: "a"}
	st.cells["cell:at:j"] = sv{k: "elem", id: "b"}
	return st, sv{k: "slice", id: "list"}
}

func (r *setRun) lessOK(fn *ssa.Function, free []sv) bool {
	for _, order := range []string{"<", "=", ">"} {
		st, l := pairState(order)
		args := []sv{l, {k: "pos", id: "i"}, {k: "pos", id: "j"}}
		var fv []sv
		if free != nil {
			args = args[1:]
			for range free {
				fv = append(fv, sv{k: "cell", id: "list"})
			}
			st.cells["cell:list"] = l
		}
		if fn.Blocks == nil || len(fn.Params) != len(args) {
			return false
		}
		outs := r.call(fn, args, fv, st, "less", 0)
		if len(outs) == 0 {
			return false
		}
		for _, o := range outs {
			if len(o.res) != 1 || o.res[0].k != "bool" || (o.res[0].n == 1) != (order == "<") {
				return false
			}
		}
	}
	return true
}

func (r *setRun) swapOK(fn *ssa.Function) bool {
	st, l := pairState("<")
	if fn.Blocks == nil || len(fn.Params) != 3 {
		return false
	}
	outs := r.call(fn, []sv{l, {k: "pos", id: "i"}, {k: "pos", id: "j"}}, nil, st, "swap", 0)
	for _, o := range outs {
		if o.st.cells["cell:at:i"].id != "b" || o.st.cells["cell:at:j"].id != "a" {
			return false
		}
	}
	return len(outs) > 0
}

func (r *setRun) lenOK(fn *ssa.Function) bool {
	st, l := pairState("<")
	if fn.Blocks == nil || len(fn.Params) != 1 {
		return false
	}
	outs := r.call(fn, []sv{l}, nil, st, "len", 0)
	for _, o := range outs {
		if len(o.res) != 1 || o.res[0].k != "len" || o.res[0].id != "list" {
			return false
		}
	}
	return len(outs) > 0
}

// ---------------------------------------------------------------- what the operations should do

// setCase is one combination of where x is.
type setCase struct {
	recv, other, items bool
	alias              bool // both operands are the same set
}

func (c setCase) String() string {
	s := "x"
	say := func(b bool, what string) {
		if b {
			s += " in " + what + ","
		} else {
			s += " not in " + what + ","
		}
	}
	say(c.recv, "the receiver")
	say(c.other, "the other operand")
	say(c.items, "the items")
	if c.alias {
		s += " operands the same set,"
	}
	return strings.TrimSuffix(s, ",")
}

type setOp struct {
	name   string
	params string // after the receiver: s another set, v variable items, e an element
	// check tells what's wrong with an outcome, "" if nothing is.
	check  func(c setCase, o setOut) string
	mutate bool // the receiver may change
}

func setResult(want func(c setCase) bool) func(setCase, setOut) string {
	return func(c setCase, o setOut) string {
		if len(o.res) != 1 || o.res[0].k != "set" {
			return "the result isn't known to be a set"
		}
		id := o.res[0].id
		if id == "recv" || id == "other" {
			return "the result is the operand itself, not a new set"
		}
		if h := o.st.objs[id].x > 0; h != want(c) {
			return fmt.Sprintf("x is in the result: %v, should be %v", h, want(c))
		}
		return ""
	}
}

func inPlace(want func(c setCase) bool) func(setCase, setOut) string {
	return func(c setCase, o setOut) string {
		if len(o.res) != 1 || o.res[0].k != "set" || o.res[0].id != "recv" {
			return "the receiver isn't returned"
		}
		if h := o.st.objs["recv"].x > 0; h != want(c) {
			return fmt.Sprintf("x is in the set afterwards: %v, should be %v", h, want(c))
		}
		return ""
	}
}

// truth checks a yes-or-no answer: wrong tells for x alone which answers are impossible, and
// reason whether the path found grounds for an answer.
func truth(answer func(o setOut) []bool, mustNot func(c setCase, o setOut, b bool) bool, grounds func(c setCase, o setOut, b bool) bool) func(setCase, setOut) string {
	return func(c setCase, o setOut) string {
		for _, b := range answer(o) {
			if mustNot(c, o, b) {
				return fmt.Sprintf("it may answer %v", b)
			}
			if !grounds(c, o, b) {
				return fmt.Sprintf("it may answer %v without having found an element, or sizes, that make it so", b)
			}
		}
		return ""
	}
}

// answers: the result's possible truth values, with what follows from each.
func answers(o setOut) []bool {
	if len(o.res) != 1 {
		return []bool{true, false}
	}
	switch v := o.res[0]; v.k {
	case "bool":
		return []bool{v.n == 1}
	case "cmp":
		return []bool{true, false}
	}
	return []bool{true, false}
}

// outFacts: the path's facts, with those that the answer itself tells.
func outFacts(o setOut, b bool) map[string]bool {
	f := map[string]bool{}
	for k := range o.st.facts {
		f[k] = true
	}
	if len(o.res) == 1 && o.res[0].k == "cmp" {
		if b {
			f[o.res[0].id] = true
		} else {
			f[o.res[0].parts[0].id] = true
		}
	}
	return f
}

func some(f map[string]bool, what string) bool { return f["some:"+what] }

func lenFact(f map[string]bool, a, b string, ops ...string) bool {
	flip := map[string]string{"<": ">", ">": "<", "<=": ">=", ">=": "<=", "==": "==", "!=": "!="}
	for _, op := range ops {
		if f["len:"+a+op+b] || f["len:"+b+flip[op]+a] {
			return true
		}
	}
	return false
}

func setOps() []setOp {
	listing := func(sorted bool) func(setCase, setOut) string {
		return func(c setCase, o setOut) string {
			if len(o.res) == 1 && o.res[0].k == "nil" {
				o.res[0] = sv{k: "slice", id: "empty"}
			}
			if len(o.res) != 1 || o.res[0].k != "slice" {
				return "the result isn't known to be a list"
			}
			ob := o.st.objs[o.res[0].id]
			want := 0
			if c.recv {
				want = 1
			}
			if ob.x != want {
				return fmt.Sprintf("x is listed %d times, should be %d", ob.x, want)
			}
			if sorted && !ob.sorted && o.res[0].id != "empty" && !o.st.facts["empty:recv"] {
				return "the list isn't sorted"
			}
			return ""
		}
	}
	and := func(c setCase) bool { return c.recv && c.other }
	return []setOp{
		{name: "Insert", params: "v", mutate: true, check: inPlace(func(c setCase) bool { return c.recv || c.items })},
		{name: "Delete", params: "v", mutate: true, check: inPlace(func(c setCase) bool { return c.recv && !c.items })},
		{name: "Has", params: "e", check: truth(answers,
			func(c setCase, o setOut, b bool) bool { return b != c.recv },
			func(c setCase, o setOut, b bool) bool { return true })},
		{name: "HasAll", params: "v", check: truth(answers,
			func(c setCase, o setOut, b bool) bool { return b && c.items && !c.recv },
			func(c setCase, o setOut, b bool) bool {
				return b || c.items && !c.recv || some(outFacts(o, b), "items-recv")
			})},
		{name: "HasAny", params: "v", check: truth(answers,
			func(c setCase, o setOut, b bool) bool { return !b && c.items && c.recv },
			func(c setCase, o setOut, b bool) bool {
				return !b || c.items && c.recv || some(outFacts(o, b), "items&recv") || some(outFacts(o, b), "recv&items")
			})},
		{name: "Difference", params: "s", check: setResult(func(c setCase) bool { return c.recv && !c.other })},
		{name: "Union", params: "s", check: setResult(func(c setCase) bool { return c.recv || c.other })},
		{name: "Intersection", params: "s", check: setResult(and)},
		{name: "IsSuperset", params: "s", check: truth(answers,
			func(c setCase, o setOut, b bool) bool { return b && c.other && !c.recv },
			func(c setCase, o setOut, b bool) bool {
				f := outFacts(o, b)
				return b || c.other && !c.recv || some(f, "other-recv") || lenFact(f, "other", "recv", ">")
			})},
		{name: "Equal", params: "s", check: truth(answers,
			func(c setCase, o setOut, b bool) bool {
				f := outFacts(o, b)
				if lenFact(f, "recv", "other", "==") && (f["sub:other<recv"] || f["sub:recv<other"]) {
					return false // can't be: sets of one size, one within the other
				}
				return b && c.other != c.recv
			},
			func(c setCase, o setOut, b bool) bool {
				f := outFacts(o, b)
				return b || c.other != c.recv || some(f, "other-recv") || some(f, "recv-other") || lenFact(f, "recv", "other", "!=", "<", ">")
			})},
		{name: "List", check: listing(true)},
		{name: "UnsortedList", check: listing(false)},
		{name: "PopAny", mutate: true, check: func(c setCase, o setOut) string {
			if len(o.res) != 2 || o.res[1].k != "bool" {
				return "whether there was an element isn't known"
			}
			has := o.st.objs["recv"].x > 0
			if o.res[1].n == 0 {
				if c.recv || !o.st.facts["empty:recv"] {
					return "it may find nothing although there is an element"
				}
				if has {
					return "x was added"
				}
				return ""
			}
			if o.res[0].k != "elem" {
				return "what it returns isn't an element of the set"
			}
			if o.res[0].id == "x" {
				if !c.recv {
					return "it returns x, which wasn't in the set"
				}
				if has {
					return "it returns x, but leaves it in the set"
				}
				return ""
			}
			if h := o.st.has(o.res[0].id, "recv"); h == nil || *h {
				return "it returns an element, but leaves it in the set"
			}
			if has != c.recv {
				return "it removes or adds an element other than the one returned"
			}
			return ""
		}},
		{name: "Len", check: func(c setCase, o setOut) string {
			if len(o.res) == 1 && o.res[0].k == "len" && o.res[0].id == "recv" {
				return ""
			}
			return "the result isn't the number of elements"
		}},
	}
}

func runC16(p *Program, r *Report) {
	sp := p.pkg("notstdlib/sets")
	if sp == nil {
		r.undecided("the sets", "package notstdlib/sets is gone")
		return
	}
	ops := setOps()
	nTypes, nOps, nCases, nPaths := 0, 0, 0, 0
	fns := map[*ssa.Function]bool{}
	loops := map[*ssa.Function][]*loopInfo{}
	bools := []bool{false, true}
	run := func(fn *ssa.Function, what string, args []sv, c setCase, check func(setCase, setOut) string, mutate bool) {
		sr := &setRun{p: p, loops: loops, fns: fns}
		st := (&setState{}).clone()
		obj := func(in bool, list bool) setObj {
			o := setObj{list: list}
			if in {
				o.x = 1
			}
			return o
		}
		st.objs["recv"], st.objs["other"], st.objs["items"] = obj(c.recv, false), obj(c.other, false), obj(c.items, true)
		st.objs["empty"] = setObj{}
		st.facts["empty:empty"] = true
		nCases++
		outs := sr.call(fn, args, nil, st, "", 0)
		nPaths += len(outs)
		pos := p.position(fn.Pos())
		if sr.why != "" {
			r.violate("undecided", pos, what, sr.why)
			return
		}
		if len(outs) == 0 {
			r.violate("wrong set operation", pos, what, "it never returns when "+c.String())
		}
		for _, o := range outs {
			if e := check(c, o); e != "" {
				r.violate("wrong set operation", pos, what, "when "+c.String()+": "+e)
			}
			if o.st.objs["other"].x > 0 != c.other || o.st.facts["changed:other"] {
				r.violate("an operand is changed", pos, what, "when "+c.String())
			}
			if !mutate && (o.st.objs["recv"].x > 0 != c.recv || o.st.facts["changed:recv"]) {
				r.violate("an operand is changed", pos, what, "when "+c.String())
			}
		}
	}
	for _, t := range p.repoNamedTypes() {
		m, ok := t.Underlying().(*types.Map)
		if !ok || t.Obj().Pkg() != sp.Pkg || !t.Obj().Exported() {
			continue
		}
		nTypes++
		for _, op := range ops {
			fn := p.method(t, op.name)
			if fn == nil || fn.Blocks == nil {
				r.undecided("the sets", t.Obj().Name()+"."+op.name+" is gone")
				continue
			}
			nOps++
			for _, recv := range bools {
				for _, second := range bools {
					c := setCase{recv: recv}
					args := []sv{{k: "set", id: "recv"}}
					switch op.params {
					case "s":
						c.other = second
						args = append(args, sv{k: "set", id: "other"})
					case "v":
						c.items = second
						args = append(args, sv{k: "slice", id: "items"})
					case "e":
						args = append(args, sv{k: "elem", id: "x"})
					}
					if op.params == "" && second || op.params == "e" && second {
						continue
					}
					if len(fn.Params) != len(args) {
						r.undecided("the sets", t.Obj().Name()+"."+op.name+" takes other parameters")
						continue
					}
					run(fn, fnName(fn), args, c, op.check, op.mutate)
				}
			}
		}
		_ = m
	}
	// constructors
	for name, mem := range sp.Members {
		fn, ok := mem.(*ssa.Function)
		if !ok || !token.IsExported(name) || fn.Blocks == nil || fn.Signature.Recv() != nil || fn.Signature.Results().Len() != 1 || len(fn.Params) != 1 {
			continue
		}
		m, ok := fn.Signature.Results().At(0).Type().Underlying().(*types.Map)
		if !ok {
			continue
		}
		nOps++
		for _, in := range bools {
			switch pt := fn.Params[0].Type().Underlying().(type) {
			case *types.Slice:
				if !types.Identical(pt.Elem(), m.Key()) {
					continue
				}
				c := setCase{items: in}
				run(fn, fnName(fn), []sv{{k: "slice", id: "items"}}, c, setResult(func(c setCase) bool { return c.items }), false)
			case *types.Interface:
				c := setCase{other: in}
				run(fn, fnName(fn), []sv{{k: "set", id: "other"}}, c, setResult(func(c setCase) bool { return c.other }), false)
			}
		}
	}
	r.atLeast("set_types", nTypes, 6)
	r.atLeast("operations", nOps, 96)
	r.atLeast("cases", nCases, 300)
	r.cover("paths", nPaths)
	r.cover("functions_analysed", len(fns))
}
