package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// This file follows what happens to each element of a collection: flowClient recognises loops
// that visit every element once, names the element ("el:LOOP") and its parts ("el:LOOP.Field")
// so that exact copies keep the name and everything else derived from them keeps the label, and
// keeps track of whether every round of a loop handed its element on ("got") and whether all
// rounds did when the loop has run to its end ("total").

type loopInfo struct {
	fn     *ssa.Function
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	in     *ssa.BasicBlock // successor of the header inside of the body
	coll   ssa.Value       // the collection
	idx    ssa.Value       // index loops: its counter
	rest   *ssa.Phi        // loops that cut the first element off
	next   *ssa.Next       // loops over maps
	id     string
}

func blockPos(p *Program, b *ssa.BasicBlock) string {
	for _, i := range b.Instrs {
		if i.Pos() != token.NoPos {
			return p.position(i.Pos())
		}
	}
	for _, s := range b.Succs {
		for _, i := range s.Instrs {
			if i.Pos() != token.NoPos {
				return p.position(i.Pos())
			}
		}
	}
	return "-"
}

func lenOf(v ssa.Value) ssa.Value {
	if c, ok := v.(*ssa.Call); ok {
		if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			return c.Call.Args[0]
		}
	}
	return nil
}

// findLoops finds the loops of fn that visit all elements of a collection in order.
func findLoops(p *Program, fn *ssa.Function) []*loopInfo {
	bodies := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	var order []*ssa.BasicBlock
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				continue
			}
			body := bodies[h]
			if body == nil {
				body = map[*ssa.BasicBlock]bool{h: true}
				bodies[h] = body
				order = append(order, h)
			}
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				x := work[len(work)-1]
				work = work[:len(work)-1]
				if body[x] {
					continue
				}
				body[x] = true
				work = append(work, x.Preds...)
			}
		}
	}
	var out []*loopInfo
	for _, h := range order {
		l := &loopInfo{fn: fn, header: h, body: bodies[h]}
		l.id = fmt.Sprintf("%s@%s/%d", fnName(fn), blockPos(p, h), h.Index)
		iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		if !l.shape(iff.Cond) {
			continue
		}
		out = append(out, l)
	}
	// inner loops first: the edge that leaves one may begin the next round of the other
	sort.SliceStable(out, func(i, j int) bool { return len(out[i].body) < len(out[j].body) })
	return out
}

// shape recognises the loop's condition.
func (l *loopInfo) shape(cond ssa.Value) bool {
	succ := l.header.Succs
	pick := func(inside, outside *ssa.BasicBlock) bool {
		l.in = inside
		return l.body[inside] && !l.body[outside]
	}
	if ex, ok := cond.(*ssa.Extract); ok && ex.Index == 0 {
		nx, ok := ex.Tuple.(*ssa.Next)
		if !ok || nx.IsString || nx.Block() != l.header {
			return false
		}
		rg, ok := nx.Iter.(*ssa.Range)
		if !ok || l.body[rg.Block()] {
			return false
		}
		l.next, l.coll = nx, rg.X
		return pick(succ[0], succ[1])
	}
	b, ok := cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	op, x, y := b.Op, b.X, b.Y
	if lenOf(x) != nil {
		x, y = y, x
		switch op {
		case token.GTR:
			op = token.LSS
		case token.LEQ:
			op = token.GEQ
		case token.LSS, token.GEQ:
			op = token.ILLEGAL
			if k, isC := constInt(x); isC && k == 0 {
				// 0 < len and the like are dealt with below
				op = b.Op
			}
		}
	}
	// for len(rest) > 0 { x := rest[0]; ...; rest = rest[1:] }
	if ph, isP := lenOf(y).(*ssa.Phi); isP && ph.Block() == l.header {
		k, isC := constInt(x)
		if isC && k == 0 && l.cutsFirst(ph) {
			l.rest = ph
			for i, e := range ph.Edges {
				if !l.body[ph.Block().Preds[i]] {
					l.coll = e
				}
			}
			switch b.Op {
			case token.GTR, token.LSS, token.NEQ:
				return l.coll != nil && pick(succ[0], succ[1])
			case token.EQL, token.LEQ, token.GEQ:
				return l.coll != nil && pick(succ[1], succ[0])
			}
		}
		return false
	}
	l.coll = lenOf(y)
	if l.coll == nil || !l.counts(x) {
		return false
	}
	l.idx = x
	switch op {
	case token.LSS, token.NEQ:
		return pick(succ[0], succ[1])
	case token.GEQ, token.EQL:
		return pick(succ[1], succ[0])
	}
	return false
}

func (l *loopInfo) cutsFirst(ph *ssa.Phi) bool {
	for i, e := range ph.Edges {
		if !l.body[ph.Block().Preds[i]] {
			continue
		}
		s, ok := e.(*ssa.Slice)
		if !ok || s.X != ssa.Value(ph) || s.High != nil || s.Max != nil {
			return false
		}
		if k, ok := constInt(s.Low); !ok || k != 1 {
			return false
		}
	}
	return true
}

// counts: x is 0 in the first round and grows by one in each.
func (l *loopInfo) counts(x ssa.Value) bool {
	start := int64(0)
	ph, ok := x.(*ssa.Phi)
	inc := func(e ssa.Value) bool {
		b, ok := e.(*ssa.BinOp)
		if !ok || b.Op != token.ADD || b.X != ssa.Value(ph) {
			return false
		}
		k, ok := constInt(b.Y)
		return ok && k == 1
	}
	if !ok {
		b, ok := x.(*ssa.BinOp)
		if !ok || b.Op != token.ADD || b.Block() != l.header {
			return false
		}
		if k, ok := constInt(b.Y); !ok || k != 1 {
			return false
		}
		if ph, ok = b.X.(*ssa.Phi); !ok {
			return false
		}
		start = -1
	}
	if ph.Block() != l.header {
		return false
	}
	for i, e := range ph.Edges {
		if l.body[ph.Block().Preds[i]] {
			if start == -1 && e != x || start == 0 && !inc(e) {
				return false
			}
		} else if k, ok := constInt(e); !ok || k != start {
			return false
		}
	}
	return true
}

// flowClient is the base of the clients that follow elements.
type flowClient struct {
	locals map[string]map[int]bool // the variables of each call that don't outlive it
	NoClient
	p     *Program
	loops map[*ssa.Function][]*loopInfo
	kinds []string // what can happen to an element
	// elem tells which element types are followed.
	elem func(t types.Type) bool
	// sink observes an instruction that stores or hands on values; see give.
	sink func(in *Interp, fr *Frame, ps *PState, instr ssa.Instruction)
	// round is told when a new round begins.
	round     func(ps *PState, l *loopInfo)
	wantTotal func(coll, kind string) bool
	// total is told when a loop has run over all of a collection.
	total func(in *Interp, fr *Frame, ps *PState, l *loopInfo, coll, kind string)
	// interesting names are those kept per state when they're stored.
	interesting func(string) bool
	lost        map[string]bool // "kind\x00loop": some round may end without
	kept        map[*Obj]bool   // collections that elements were added to
	carried     map[*Obj]bool   // those that keep what was added before
	cuts        map[*Obj]string // collections of which a part is taken, and where
	seen        map[string]bool // loops over followed collections
	odd         map[string]bool // accesses to followed collections that aren't understood
}

func newFlow(p *Program, kinds ...string) flowClient {
	f := flowClient{p: p, loops: map[*ssa.Function][]*loopInfo{}, kinds: kinds, locals: map[string]map[int]bool{}}
	f.reset()
	return f
}

func (f *flowClient) reset() {
	f.lost, f.seen, f.odd = map[string]bool{}, map[string]bool{}, map[string]bool{}
	f.kept, f.carried, f.cuts = map[*Obj]bool{}, map[*Obj]bool{}, map[*Obj]string{}
}

func (f *flowClient) loopsOf(fn *ssa.Function) []*loopInfo {
	ls, ok := f.loops[fn]
	if !ok {
		ls = findLoops(f.p, fn)
		f.loops[fn] = ls
	}
	return ls
}

func collElem(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Map:
		return u.Elem()
	case *types.Pointer:
		return collElem(u.Elem())
	case *types.Array:
		return u.Elem()
	}
	return nil
}

func (f *flowClient) follows(l *loopInfo) bool {
	e := collElem(l.coll.Type())
	return e != nil && f.elem(e)
}

func setFacts(ps *PState, add []string, drop func(string) bool) {
	st := ps.st
	if drop != nil {
		var keep []string
		for _, x := range st.facts {
			if !drop(x) {
				keep = append(keep, x)
			}
		}
		if len(keep) != len(st.facts) {
			st = st.clone()
			st.facts = keep
		}
	}
	st = st.withFacts(add...)
	if st != ps.st {
		ps.st = st.clone()
	}
}

func (f *flowClient) Edge(in *Interp, fr *Frame, ps *PState, from, to *ssa.BasicBlock) {
	for _, l := range f.loopsOf(fr.fn) {
		if !f.follows(l) {
			continue
		}
		all, got := "all:"+l.id+":", "got:"+l.id+":"
		switch {
		case from == l.header && to == l.in:
			// a new round
			setFacts(ps, []string{"in:" + l.id}, func(x string) bool {
				return strings.HasPrefix(x, got) || strings.HasPrefix(x, "total:el:"+l.id+"|")
			})
			// the names belong to the new element from now on
			purge(ps, "el:"+l.id+"|")
			if s := in.val(ps, l.coll).sym; s != "" {
				f.seen[l.id] = true
			}
			if f.round != nil {
				f.round(ps, l)
			}
		case from == l.header:
			coll := in.val(ps, l.coll).sym
			var add []string
			for _, k := range f.kinds {
				if ps.st.has(all+k) && coll != "" && (f.wantTotal == nil || f.wantTotal(coll, k)) {
					add = append(add, "total:"+coll+":"+k)
				}
			}
			setFacts(ps, add, func(x string) bool {
				return strings.HasPrefix(x, got) || strings.HasPrefix(x, all) || x == "in:"+l.id
			})
			for _, a := range add {
				if f.total != nil {
					f.total(in, fr, ps, l, coll, a[strings.LastIndex(a, ":")+1:])
				}
			}
		case to == l.header && l.body[from]:
			if !ps.st.has("in:" + l.id) {
				continue
			}
			var miss []string
			for _, k := range f.kinds {
				if !ps.st.has(got + k) {
					miss = append(miss, all+k)
					if ps.st.has(all + k) {
						f.lost[k+"\x00"+l.id] = true
					}
				}
			}
			setFacts(ps, nil, func(x string) bool {
				return strings.HasPrefix(x, got) || hasStr(miss, x) || x == "in:"+l.id
			})
		case to == l.header:
			var add []string
			for _, k := range f.kinds {
				add = append(add, all+k)
			}
			setFacts(ps, add, func(x string) bool { return strings.HasPrefix(x, got) || x == "in:"+l.id })
		case l.body[from] && !l.body[to]:
			setFacts(ps, nil, func(x string) bool {
				return strings.HasPrefix(x, got) || strings.HasPrefix(x, all) || x == "in:"+l.id
			})
		}
	}
}

// ran: everything in the collection had that happen to it.
func (f *flowClient) ran(ps *PState, coll, kind string) bool {
	if ps.st.has("total:" + coll + ":" + kind) {
		return true
	}
	sp, ok := ps.st.spans["len("+coll+")"]
	return ok && sp.hi <= 0
}

// give: in this round, the element was handed on.
func (f *flowClient) give(ps *PState, loop, kind string) {
	setFacts(ps, []string{"got:" + loop + ":" + kind}, nil)
}

// loopIn: the element's loop, from the name of (a part of) an element.
func elLoop(sym string) (loop, part string) {
	if !strings.HasPrefix(sym, "el:") {
		return "", ""
	}
	s := sym[3:]
	if i := strings.LastIndexByte(s, '|'); i >= 0 {
		return s[:i], s[i+1:]
	}
	return s, ""
}

// named gives a value (and its parts) a name.
func named(in *Interp, v *Val, sym, lab string, t types.Type, depth int) *Val {
	c := v.clone()
	c.sym = sym
	if lab != "" {
		c.labs = unionStr(c.labs, []string{lab})
	}
	if c.fields != nil {
		m := map[string]*Val{}
		for k, x := range c.fields {
			m[k] = named(in, x, sym+k, lab, nil, depth+1)
		}
		c.fields = m
	}
	return c
}

func symLab(sym string) string {
	if l, _ := elLoop(strings.TrimPrefix(sym, "&")); l != "" {
		return "el:" + l
	}
	return ""
}

func (f *flowClient) After(in *Interp, fr *Frame, ps *PState, instr ssa.Instruction) {
	v, ok := instr.(ssa.Value)
	if !ok {
		return
	}
	if sl, ok := instr.(*ssa.Slice); ok && cutsOff(sl) {
		for _, l := range in.val(ps, sl.X).refs {
			f.cuts[l.o] = in.p.instrPos(sl)
		}
	}
	cur := func() *Val { return ps.env[v] }
	name := func(sym string) {
		if c := cur(); c != nil {
			ps.env[v] = named(in, c, sym, symLab(sym), v.Type(), 0)
		}
	}
	switch x := instr.(type) {
	case *ssa.IndexAddr:
		e := collElem(x.X.Type())
		if e == nil || !f.elem(e) {
			return
		}
		l := f.elemOf(fr.fn, x)
		if l != nil && l.rest != nil {
			if in.val(ps, l.coll).sym == "" {
				return
			}
		} else if in.val(ps, x.X).sym == "" {
			return
		}
		if l != nil {
			name("&el:" + l.id + "|")
		} else if inCycle(x.Block()) {
			f.odd[in.p.instrPos(instr)] = true
		}
	case *ssa.Extract:
		if nx, ok := x.Tuple.(*ssa.Next); ok && x.Index > 0 {
			for _, l := range f.loopsOf(fr.fn) {
				if l.next == nx && f.follows(l) && in.val(ps, l.coll).sym != "" {
					name("el:" + l.id + "|" + []string{"", "k", "v"}[x.Index])
				}
			}
		}
	case *ssa.FieldAddr:
		fn := "." + fieldName(deref(x.X.Type()), x.Field)
		if s := in.val(ps, x.X).sym; strings.HasPrefix(s, "&") {
			name(s + fn)
		} else if s != "" {
			name("&" + s + "→" + fn)
		}
	case *ssa.Field:
		if o := in.val(ps, x.X); o.sym != "" && cur() != nil && cur().sym == "" {
			name(o.sym + "." + fieldName(x.X.Type(), x.Field))
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if a := in.val(ps, x.X); cur() != nil && f.interesting != nil {
				// what others stored may belong to another element
				if _, own := x.X.(*ssa.Alloc); !own || len(a.refs) != 1 || ps.st.cells[a.refs[0].o] == nil {
					ps.env[v] = forget(cur(), "el:")
				}
				if len(a.refs) == 1 {
					ps.env[v] = f.getCells(ps, a.refs[0], cur())
				}
			}
			if a := in.val(ps, x.X); strings.HasPrefix(a.sym, "&") {
				name(a.sym[1:])
			}
		} else if c := cur(); c != nil && c.sym != "" {
			f.blur(ps, v)
		}
	case *ssa.TypeAssert:
		if o := in.val(ps, x.X); o.sym != "" {
			if x.CommaOk {
				if c := cur(); c != nil && c.fields != nil {
					c = c.clone()
					m := map[string]*Val{}
					for k, y := range c.fields {
						m[k] = y
					}
					if m["#0"] != nil {
						m["#0"] = named(in, m["#0"], o.sym, symLab(o.sym), nil, 0)
					}
					c.fields = m
					ps.env[v] = c
				}
			} else {
				name(o.sym)
			}
		}
	case *ssa.Convert:
		if !types.Identical(x.X.Type().Underlying(), x.Type().Underlying()) {
			f.blur(ps, v)
		}
	case *ssa.Slice:
		k, isC := int64(0), true
		if x.Low != nil {
			k, isC = constInt(x.Low)
		}
		if x.High == nil && x.Max == nil && isC && k == 0 {
			return
		}
		for _, l := range f.loopsOf(fr.fn) {
			if l.rest != nil && x.X == ssa.Value(l.rest) && isC && k == 1 && x.High == nil {
				break
			}
		}
		f.blur(ps, v)
	}
}

// blur: what was computed isn't the thing itself any more.
func (f *flowClient) blur(ps *PState, v ssa.Value) {
	if c := ps.env[v]; c != nil && c.sym != "" {
		n := c.clone()
		n.sym = ""
		ps.env[v] = n
	}
}

// elemOf: the loop whose current element x is.
func (f *flowClient) elemOf(fn *ssa.Function, x *ssa.IndexAddr) *loopInfo {
	var best *loopInfo
	for _, l := range f.loopsOf(fn) {
		if !l.body[x.Block()] {
			continue
		}
		switch {
		case l.rest != nil:
			if k, ok := constInt(x.Index); !ok || k != 0 || x.X != ssa.Value(l.rest) {
				continue
			}
		case l.idx != nil:
			if x.Index != l.idx || !sameExpr(x.X, l.coll, 0) {
				continue
			}
		default:
			continue
		}
		if best == nil || len(l.body) < len(best.body) {
			best = l
		}
	}
	return best
}

// sameExpr: both values are read from the same place.
func sameExpr(a, b ssa.Value, d int) bool {
	if a == b {
		return true
	}
	if d > 6 {
		return false
	}
	switch x := a.(type) {
	case *ssa.UnOp:
		y, ok := b.(*ssa.UnOp)
		return ok && x.Op == y.Op && sameExpr(x.X, y.X, d+1)
	case *ssa.FieldAddr:
		y, ok := b.(*ssa.FieldAddr)
		return ok && x.Field == y.Field && sameExpr(x.X, y.X, d+1)
	case *ssa.Field:
		y, ok := b.(*ssa.Field)
		return ok && x.Field == y.Field && sameExpr(x.X, y.X, d+1)
	case *ssa.ChangeType:
		y, ok := b.(*ssa.ChangeType)
		return ok && sameExpr(x.X, y.X, d+1)
	case *ssa.IndexAddr:
		y, ok := b.(*ssa.IndexAddr)
		return ok && sameExpr(x.X, y.X, d+1) && sameExpr(x.Index, y.Index, d+1)
	}
	return false
}

// Names stored in the parts of structs are kept per state, so that what is found there later
// isn't mixed up with what other paths store: facts "cell:OBJECT:PATH=NAME".

func cellName(v *Val) string {
	switch {
	case v.sym != "":
		return v.sym
	case v.num != nil && v.num.sym != "":
		return fmt.Sprintf("num:%s/%d", v.num.sym, v.num.div)
	}
	return ""
}

func (f *flowClient) putCell(in *Interp, ps *PState, l Loc, v *Val) {
	pre := fmt.Sprintf("cell:%d:%s", l.o.id, l.p)
	var add []string
	var visit func(v *Val, p string, d int)
	visit = func(v *Val, p string, d int) {
		if n := cellName(v); n != "" && f.interesting(n) {
			add = append(add, pre+p+"="+n)
		}
		for k, x := range v.fields {
			if d < 3 {
				visit(x, p+k, d+1)
			}
		}
	}
	visit(v, "", 0)
	// what's only a part of something named takes that name away, but not those of the other parts
	own := fmt.Sprintf("cell:%d:", l.o.id)
	var stale []string
	for _, x := range ps.st.facts {
		i := strings.IndexByte(x, '=')
		if l.p == "" || l.p[0] != '.' || !strings.HasPrefix(x, own) || i < 0 {
			continue
		}
		at, name := x[len(own):i], x[i+1:]
		if len(at) >= len(l.p) || !strings.HasPrefix(l.p, at) || l.p[len(at)] != '.' || strings.HasPrefix(name, "num:") {
			continue
		}
		stale = append(stale, x)
		if f.p == nil {
			continue
		}
		for t, p := in.typeAt(l.o, at), at; t != nil && len(p) < len(l.p); {
			st, ok := t.Underlying().(*types.Struct)
			if !ok {
				break
			}
			next := ""
			t = nil
			for i := 0; i < st.NumFields(); i++ {
				q := p + "." + st.Field(i).Name()
				if strings.HasPrefix(l.p, q) && (len(q) == len(l.p) || l.p[len(q)] == '.' || l.p[len(q)] == '[') {
					next, t = q, st.Field(i).Type()
				} else {
					add = append(add, own+q+"="+name+q[len(at):])
				}
			}
			if next == "" {
				break
			}
			p = next
		}
	}
	setFacts(ps, add, func(x string) bool {
		return hasStr(stale, x) || strings.HasPrefix(x, pre) && (x[len(pre)] == '=' || x[len(pre)] == '.' || x[len(pre)] == '[') && !hasStr(add, x)
	})
}

// dropCells: code that isn't known may have changed these.
func (f *flowClient) dropCells(in *Interp, ps *PState, args []*Val) {
	for _, a := range args {
		for _, l := range a.refs {
			pre := fmt.Sprintf("cell:%d:", l.o.id)
			setFacts(ps, nil, func(x string) bool { return strings.HasPrefix(x, pre) })
		}
	}
}

// purge takes names away from everything.
func purge(ps *PState, prefix string) {
	setFacts(ps, nil, func(x string) bool {
		return strings.HasPrefix(x, "cell:") && (strings.Contains(x, "="+prefix) || strings.Contains(x, "=&"+prefix))
	})
	for v, x := range ps.env {
		if n := forget(x, prefix); n != x {
			ps.env[v] = n
		}
	}
	ps.st = ps.st.clone()
	for o, x := range ps.st.cells {
		if n := forget(x, prefix); n != x {
			ps.st.setCell(o, n)
		}
	}
}

// forget takes names away.
func forget(v *Val, prefix string) *Val {
	if v == nil {
		return v
	}
	n := v
	if strings.HasPrefix(v.sym, prefix) || strings.HasPrefix(v.sym, "&"+prefix) || strings.HasPrefix(v.sym, "app:"+strings.TrimPrefix(prefix, "el:")) {
		n = v.clone()
		n.sym = ""
	}
	for k, x := range v.fields {
		if y := forget(x, prefix); y != x {
			if n == v {
				n = v.clone()
			}
			if len(n.fields) == len(v.fields) {
				m := map[string]*Val{}
				for k2, x2 := range n.fields {
					m[k2] = x2
				}
				n.fields = m
			}
			n.fields[k] = y
		}
	}
	return n
}

// getCells names the parts of a value that was loaded from l.
func (f *flowClient) getCells(ps *PState, l Loc, v *Val) *Val {
	pre := fmt.Sprintf("cell:%d:%s", l.o.id, l.p)
	for _, x := range ps.st.facts {
		if !strings.HasPrefix(x, pre) {
			continue
		}
		rest := x[len(pre):]
		i := strings.IndexByte(rest, '=')
		if i < 0 || i > 0 && rest[0] != '.' && rest[0] != '[' {
			continue
		}
		v = setAt(v, rest[:i], rest[i+1:])
	}
	own := fmt.Sprintf("cell:%d:", l.o.id)
	for _, x := range ps.st.facts {
		i := strings.IndexByte(x, '=')
		if l.p == "" || l.p[0] != '.' || !strings.HasPrefix(x, own) || i < 0 {
			continue
		}
		at, name := x[len(own):i], x[i+1:]
		if len(at) < len(l.p) && strings.HasPrefix(l.p, at) && l.p[len(at)] == '.' && !strings.HasPrefix(name, "num:") {
			v = setAt(v, "", name+l.p[len(at):])
		}
	}
	return v
}

func setAt(v *Val, path, name string) *Val {
	c := v.clone()
	if path == "" {
		if strings.HasPrefix(name, "num:") {
			j := strings.LastIndexByte(name, '/')
			d, _ := strconv.ParseInt(name[j+1:], 10, 64)
			c.num, c.sym = &numInfo{name[4:j], d}, ""
		} else {
			c.sym = name
		}
		return c
	}
	for k, x := range v.fields {
		if strings.HasPrefix(path, k) {
			rest := path[len(k):]
			if rest == "" || rest[0] == '.' || rest[0] == '[' {
				m := map[string]*Val{}
				for k2, x2 := range v.fields {
					m[k2] = x2
				}
				m[k] = setAt(x, rest, name)
				c.fields = m
			}
		}
	}
	return c
}

func (f *flowClient) Instr(in *Interp, fr *Frame, ps *PState, i ssa.Instruction) {
	switch x := i.(type) {
	case *ssa.Store:
		if !f.interestingStore(in, ps, x) {
			break
		}
		a := in.val(ps, x.Addr)
		if len(a.refs) == 1 {
			f.putCell(in, ps, a.refs[0], in.val(ps, x.Val))
		} else {
			for _, l := range a.refs {
				f.putCell(in, ps, l, topVal)
			}
		}
	case *ssa.Return:
		if as := f.locals[fr.fn.String()+"#"+fr.ctx]; as != nil {
			setFacts(ps, nil, func(x string) bool {
				if !strings.HasPrefix(x, "cell:") {
					return false
				}
				id, _ := strconv.Atoi(x[5 : 5+strings.IndexByte(x[5:], ':')])
				return as[id]
			})
		}
	case *ssa.Alloc:
		o := in.obj(objAlloc, "alloc:"+siteID(x)+"#"+fr.ctx, in.shortName("new", x, deref(x.Type())), deref(x.Type()))
		pre := fmt.Sprintf("cell:%d:", o.id)
		setFacts(ps, nil, func(x string) bool { return strings.HasPrefix(x, pre) })
		if !x.Heap {
			k := fr.fn.String() + "#" + fr.ctx
			if f.locals[k] == nil {
				f.locals[k] = map[int]bool{}
			}
			f.locals[k][o.id] = true
		}
	}
	if f.sink != nil {
		f.sink(in, fr, ps, i)
	}
}

// appended: what an append adds; whole is the slice when it's spread.
func (f *flowClient) appended(in *Interp, ps *PState, i ssa.Instruction) (elem, whole, dst *Val, ok bool) {
	c, isC := i.(*ssa.Call)
	if !isC {
		return
	}
	b, isB := c.Call.Value.(*ssa.Builtin)
	if !isB || b.Name() != "append" || len(c.Call.Args) < 2 {
		return
	}
	dst = in.val(ps, c.Call.Args[0])
	whole = in.val(ps, c.Call.Args[1])
	if sl, isS := c.Call.Args[1].Type().Underlying().(*types.Slice); isS {
		for _, l := range whole.refs {
			e := in.elem(ps.st, l, sl.Elem())
			if f.interesting != nil {
				e = forget(e, "el:")
			}
			if len(whole.refs) == 1 {
				e = f.getCells(ps, Loc{l.o, l.p + "[]"}, e)
			}
			elem = joinVal(elem, e)
		}
	}
	return elem, whole, dst, true
}

// nameAt is a name found in a value, and where.
type nameAt struct {
	sym  string
	o    *Obj // nil in the value itself
	path string
}

// names finds the names in a value: at the top, in its parts, and behind its references.
func (in *Interp) names(st *State, v *Val, depth int) []nameAt {
	var out []nameAt
	seen := map[Loc]bool{}
	var visit func(v *Val, o *Obj, p string, d int)
	visit = func(v *Val, o *Obj, p string, d int) {
		if v == nil {
			return
		}
		if v.sym != "" {
			out = append(out, nameAt{v.sym, o, p})
		}
		for k, x := range v.fields {
			visit(x, o, p+k, d)
		}
		if d >= depth {
			return
		}
		for _, l := range v.refs {
			if seen[l] || l.o.kind != objAlloc && l.o.kind != objBox {
				continue
			}
			seen[l] = true
			pre := fmt.Sprintf("cell:%d:%s", l.o.id, l.p)
			for _, x := range st.facts {
				if strings.HasPrefix(x, pre) {
					i := strings.IndexByte(x, '=')
					out = append(out, nameAt{x[i+1:], l.o, x[len(pre)-len(l.p) : i]})
				}
			}
			for p, x := range in.heap[l.o] {
				if strings.HasPrefix(p, l.p) {
					visit(forget(x, "el:"), l.o, p, d+1)
				}
			}
		}
	}
	visit(v, nil, "", 0)
	return out
}

// syms: the names found in a value.
func (in *Interp) syms(st *State, v *Val, depth int) map[string]bool {
	out := map[string]bool{}
	for _, n := range in.names(st, v, depth) {
		out[n.sym] = true
	}
	return out
}

// interestingStore: it changes what is kept about the names in a struct.
func (f *flowClient) interestingStore(in *Interp, ps *PState, x *ssa.Store) bool {
	if f.interesting == nil {
		return false
	}
	for _, l := range in.val(ps, x.Addr).refs {
		if l.o.kind == objAlloc && ps.st.cells[l.o] == nil {
			return true
		}
	}
	return false
}

// keep: the instruction adds an element to a collection.
func (f *flowClient) keep(in *Interp, fr *Frame, ps *PState, i ssa.Instruction) {
	switch x := i.(type) {
	case *ssa.Call:
		o := in.obj(objAlloc, "append:"+siteID(x)+"#"+fr.ctx, in.shortName("append", x, x.Type()), x.Type())
		f.kept[o] = true
		for _, l := range in.val(ps, x.Call.Args[0]).refs {
			if l.o == o {
				f.carried[o] = true
			}
		}
	case *ssa.Store:
		for _, l := range in.val(ps, x.Addr).refs {
			f.kept[l.o], f.carried[l.o] = true, true
		}
	}
}

// ownSlot: the store puts the loop's element into a slot of its own.
func (f *flowClient) ownSlot(fr *Frame, st *ssa.Store, loop string) bool {
	ia, ok := st.Addr.(*ssa.IndexAddr)
	if !ok {
		return false
	}
	for _, l := range f.loopsOf(fr.fn) {
		if l.id == loop && l.idx != nil && l.idx == ia.Index && l.body[st.Block()] {
			return true
		}
	}
	return false
}

// cutsOff: the part of the slice may not be all of it.
func cutsOff(x *ssa.Slice) bool {
	if _, ok := x.X.Type().Underlying().(*types.Slice); !ok {
		return false
	}
	if k, ok := x.Low.(*ssa.Const); x.Low != nil && (!ok || k.Int64() != 0) {
		return true
	}
	if x.High == nil {
		return false
	}
	call, ok := x.High.(*ssa.Call)
	if !ok {
		return true
	}
	b, ok := call.Call.Value.(*ssa.Builtin)
	return !ok || b.Name() != "len" || call.Call.Args[0] != x.X
}

// forgets finds collections that start anew with each element, and those that are cut short.
func (f *flowClient) forgets(in *Interp, bad func(pos string)) {
	for o := range f.kept {
		if pos := f.cuts[o]; pos != "" {
			bad(pos)
		}
		if !f.carried[o] {
			pos := "-"
			if i, ok := o.site.(ssa.Instruction); ok {
				pos = in.p.instrPos(i)
			}
			bad(pos)
		}
	}
}
