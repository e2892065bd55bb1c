package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Propagation of constants with memory, on all paths: values are constants, tables put together of
// those, or names of what isn't known. Conditions on what isn't known go both ways.

type kkind int

const (
	kUnk kkind = iota
	kConst
	kNil
	kPtr     // to a place within an object
	kTree    // a struct or array by value
	kSlice   // of an object that holds an array
	kMap     // an object that holds a map
	kText    // a string of pieces
	kFn      // a function, with what it binds
	kIface   // a value with its type
	kTuple   // several results
	kSym     // something with a name
	kAtLeast // a count of at least n
	kIter    // how far a loop over a map or text has got
	kLin     // a sum of named numbers
)

type kobj struct {
	id  int
	tag string
}

type kv struct {
	k    kkind
	c    constant.Value
	o    *kobj
	path []int
	fs   []*kv
	lo   int
	hi   int
	fn   *ssa.Function
	typ  types.Type
	sym  string
	ev   int
	keys []string // of a map, in order
	lin  linear
}

var kunk = &kv{}

func kconst(c constant.Value) *kv { return &kv{k: kConst, c: c} }
func kint(n int64) *kv            { return kconst(constant.MakeInt64(n)) }
func kbool(b bool) *kv            { return kconst(constant.MakeBool(b)) }
func ksym(s string, ev int) *kv   { return &kv{k: kSym, sym: s, ev: ev} }

func (v *kv) isInt() (int, bool) {
	if v.k == kConst && v.c.Kind() == constant.Int {
		n, ok := constant.Int64Val(v.c)
		return int(n), ok
	}
	return 0, false
}

func (v *kv) String() string {
	if v == nil {
		return "-"
	}
	switch v.k {
	case kConst:
		return v.c.ExactString()
	case kNil:
		return "nil"
	case kPtr:
		return fmt.Sprintf("&%d%v", v.o.id, v.path)
	case kSlice:
		return fmt.Sprintf("s%d[%d:%d]", v.o.id, v.lo, v.hi)
	case kMap:
		return fmt.Sprintf("m%d", v.o.id)
	case kSym:
		return fmt.Sprintf("%s(%d)", v.sym, v.ev)
	case kLin:
		return v.lin.String()
	case kAtLeast:
		return fmt.Sprintf("≥%d", v.lo)
	case kFn:
		return v.fn.String()
	case kIface:
		return v.typ.String() + ":" + v.fs[0].String()
	case kTree, kText, kTuple:
		var out []string
		for _, f := range v.fs {
			out = append(out, f.String())
		}
		return "{" + strings.Join(out, " ") + "}"
	}
	return "?"
}

// kstate is a state on a path.
type kstate struct {
	mem   map[*kobj]*kv
	base  map[*kobj]*kv // what the programs' tables hold; not changed
	rng   map[int][2]int64
	log   []kevent
	facts []linear // that are at least 0
	steps int
	forks int    // conditions that weren't known
	odd   string // something that had no rule
}

// kevent is something that happened on the path.
type kevent struct {
	what string
	v    *kv
	n    int
}

func (s *kstate) clone() *kstate {
	n := &kstate{mem: make(map[*kobj]*kv, len(s.mem)), base: s.base, rng: map[int][2]int64{}, steps: s.steps, forks: s.forks, odd: s.odd}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	for k, v := range s.rng {
		n.rng[k] = v
	}
	n.log = append([]kevent(nil), s.log...)
	n.facts = append([]linear(nil), s.facts...)
	return n
}

func (s *kstate) content(o *kobj) *kv {
	if v := s.mem[o]; v != nil {
		return v
	}
	if v := s.base[o]; v != nil {
		return v
	}
	return kunk
}

func kget(v *kv, path []int) *kv {
	for _, i := range path {
		if v.k != kTree || i < 0 || i >= len(v.fs) {
			return kunk
		}
		v = v.fs[i]
	}
	return v
}

func kset(v *kv, path []int, x *kv) *kv {
	if len(path) == 0 {
		return x
	}
	if v.k != kTree || path[0] < 0 || path[0] >= len(v.fs) {
		return kunk
	}
	n := &kv{k: kTree, fs: append([]*kv(nil), v.fs...)}
	n.fs[path[0]] = kset(v.fs[path[0]], path[1:], x)
	return n
}

// kexec runs over functions.
type kexec struct {
	p       *Program
	prog    *ssa.Program
	pkgs    map[string]*ssa.Package
	repo    map[*ssa.Package]bool
	globals map[*ssa.Global]*kobj
	base    map[*kobj]*kv
	n       int
	limit   int
	work    int // on all paths
	// what a wait for something from, or for, another goroutine gives: each is a path of its own
	recv func(s *kstate, ch types.Type, commaOk bool) []kout
	send func(s *kstate, ch types.Type, v *kv) []kout
	// at the start of a goroutine
	spawn func(s *kstate, d kdefer)
	// at the start of another round of a loop
	round func(s *kstate, fn *ssa.Function)
	// calls to what isn't known
	ext func(s *kstate, c *ssa.CallCommon, fv *kv, args []*kv) []kout
	// what stands for a function, if anything
	stub  func(s *kstate, fn *ssa.Function, args []*kv) []kout
	funcs map[*ssa.Function]bool
}

// kout is a way that something may end.
type kout struct {
	s   *kstate
	res []*kv
	end bool // it doesn't come back
}

func (e *kexec) obj(tag string) *kobj {
	e.n++
	return &kobj{e.n, tag}
}

func newKexec(p *Program, deps ...string) (*kexec, error) {
	all := append([]*packages.Package(nil), p.Pkgs...)
	for _, d := range deps {
		pk := p.Dep[d]
		if pk == nil {
			return nil, fmt.Errorf("%s isn't loaded", d)
		}
		all = append(all, pk)
	}
	prog, sps := ssautil.Packages(all, ssa.BuilderMode(0))
	e := &kexec{p: p, prog: prog, pkgs: map[string]*ssa.Package{}, repo: map[*ssa.Package]bool{}, globals: map[*ssa.Global]*kobj{}, base: map[*kobj]*kv{}, limit: 400000, funcs: map[*ssa.Function]bool{}}
	for i, sp := range sps {
		if sp == nil {
			return nil, fmt.Errorf("no SSA for %s", all[i].PkgPath)
		}
		sp.Build()
		e.pkgs[all[i].PkgPath] = sp
		e.repo[sp] = i < len(p.Pkgs)
	}
	return e, nil
}

// tables runs what packages do when the program starts, as far as it can be known.
func (e *kexec) tables(paths ...string) {
	for _, path := range paths {
		sp := e.pkgs[path]
		if sp == nil {
			continue
		}
		for _, m := range sp.Members {
			if g, ok := m.(*ssa.Global); ok {
				o := e.obj("global " + g.Name())
				e.globals[g] = o
				e.base[o] = kzero(deref(g.Type()))
			}
		}
		s := &kstate{mem: map[*kobj]*kv{}, base: e.base, rng: map[int][2]int64{}}
		if f := sp.Func("init"); f != nil {
			out := e.run(f, nil, nil, s, 0)
			if e.merged(out) {
				continue
			}
		}
		for _, m := range sp.Members {
			if g, ok := m.(*ssa.Global); ok {
				e.base[e.globals[g]] = kunk
			}
		}
	}
}

// merged keeps what all the ways that a start of the program may go agree on.
func (e *kexec) merged(outs []kout) bool {
	if len(outs) == 0 {
		return false
	}
	all := map[*kobj]bool{}
	for _, o := range outs {
		if o.s.odd != "" {
			return false
		}
		for obj := range o.s.mem {
			all[obj] = true
		}
	}
	for obj := range all {
		v := outs[0].s.content(obj)
		for _, o := range outs[1:] {
			if o.end {
				continue
			}
			if o.s.content(obj).String() != v.String() {
				v = kunk
			}
		}
		e.base[obj] = v
	}
	return true
}

func kzero(t types.Type) *kv {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return &kv{k: kText}
		case u.Info()&types.IsInteger != 0:
			return kint(0)
		case u.Info()&types.IsBoolean != 0:
			return kbool(false)
		}
	case *types.Pointer, *types.Interface, *types.Slice, *types.Map, *types.Signature, *types.Chan:
		return &kv{k: kNil}
	case *types.Struct:
		z := &kv{k: kTree, fs: make([]*kv, u.NumFields())}
		for i := range z.fs {
			z.fs[i] = kzero(u.Field(i).Type())
		}
		return z
	case *types.Array:
		if u.Len() > 4096 {
			return kunk
		}
		z := &kv{k: kTree, fs: make([]*kv, u.Len())}
		for i := range z.fs {
			z.fs[i] = kzero(u.Elem())
		}
		return z
	}
	return kunk
}

type kframe struct {
	fn     *ssa.Function
	env    map[ssa.Value]*kv
	defers []kdefer
	seen   map[*ssa.BasicBlock]int
	last   map[*ssa.Phi]*kv
	logged map[*ssa.BasicBlock]int // how much had happened when a block was last entered
}

type kdefer struct {
	call *ssa.CallCommon
	args []*kv
	fn   *kv
}

func (f *kframe) clone() *kframe {
	n := &kframe{fn: f.fn, env: make(map[ssa.Value]*kv, len(f.env)), seen: map[*ssa.BasicBlock]int{}, last: map[*ssa.Phi]*kv{}, logged: map[*ssa.BasicBlock]int{}}
	for k, v := range f.env {
		n.env[k] = v
	}
	for k, v := range f.seen {
		n.seen[k] = v
	}
	for k, v := range f.last {
		n.last[k] = v
	}
	for k, v := range f.logged {
		n.logged[k] = v
	}
	n.defers = append([]kdefer(nil), f.defers...)
	return n
}

// run gives the ways that a call may end.
func (e *kexec) run(fn *ssa.Function, args, free []*kv, s *kstate, depth int) []kout {
	if depth > 12 {
		s.odd = "calls nested too deeply"
		return []kout{{s: s, end: true}}
	}
	if depth == 0 {
		e.work = 0
	}
	e.funcs[fn] = true
	f := &kframe{fn: fn, env: map[ssa.Value]*kv{}, seen: map[*ssa.BasicBlock]int{}, last: map[*ssa.Phi]*kv{}, logged: map[*ssa.BasicBlock]int{}}
	for i, p := range fn.Params {
		f.env[p] = kunk
		if i < len(args) && args[i] != nil {
			f.env[p] = args[i]
		}
	}
	for i, p := range fn.FreeVars {
		f.env[p] = kunk
		if i < len(free) {
			f.env[p] = free[i]
		}
	}
	var out []kout
	e.block(f, fn.Blocks[0], nil, s, depth, &out)
	return out
}

func (e *kexec) val(f *kframe, v ssa.Value) *kv {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return kzero(x.Type())
		}
		if x.Value.Kind() == constant.String {
			return ktext(constant.StringVal(x.Value))
		}
		return kconst(x.Value)
	case *ssa.Global:
		if o := e.globals[x]; o != nil {
			return &kv{k: kPtr, o: o}
		}
		return kunk
	case *ssa.Function:
		return &kv{k: kFn, fn: x}
	}
	if r := f.env[v]; r != nil {
		return r
	}
	return kunk
}

func ktext(s string) *kv {
	v := &kv{k: kText}
	for i := 0; i < len(s); i++ {
		v.fs = append(v.fs, kint(int64(s[i])))
	}
	return v
}

func (e *kexec) block(f *kframe, b, pred *ssa.BasicBlock, s *kstate, depth int, out *[]kout) {
	for {
		s.steps++
		e.work++
		if s.steps > e.limit || e.work > 2*e.limit {
			s.odd = "a path that's too long in " + f.fn.String()
			*out = append(*out, kout{s: s, end: true})
			return
		}
		if f.seen[b] > 0 && e.round != nil {
			e.round(s, f.fn)
		}
		f.seen[b]++
		phis := map[ssa.Value]*kv{}
		for _, i := range b.Instrs {
			ph, ok := i.(*ssa.Phi)
			if !ok {
				break
			}
			for k, p := range b.Preds {
				if p == pred {
					phis[ph] = e.val(f, ph.Edges[k])
				}
			}
		}
		// counters of rounds in which something came from elsewhere may have any value
		came := false
		for _, l := range s.log[min(f.logged[b], len(s.log)):] {
			came = came || f.seen[b] > 1 && l.what == "took"
		}
		f.logged[b] = len(s.log)
		for k, v := range phis {
			ph := k.(*ssa.Phi)
			if was := f.last[ph]; came && was != nil && v.k == kConst && was.String() != v.String() && v.c.Kind() == constant.Int {
				v = kunk
			}
			f.last[ph] = v
			f.env[k] = v
		}
		nb := e.instrs(f, b, 0, s, depth, out)
		if nb == nil {
			return
		}
		b, pred = nb, b
	}
}

// instrs runs over a block from one of its instructions on. It gives the block that's next if there's one
// way on only; otherwise, it has followed all of them.
func (e *kexec) instrs(f *kframe, b *ssa.BasicBlock, from int, s *kstate, depth int, out *[]kout) *ssa.BasicBlock {
	for n := from; n < len(b.Instrs); n++ {
		switch x := b.Instrs[n].(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.Return:
			var res []*kv
			for _, v := range x.Results {
				res = append(res, e.val(f, v))
			}
			*out = append(*out, kout{s: s, res: res})
			return nil
		case *ssa.Panic:
			s.log = append(s.log, kevent{what: "panic"})
			*out = append(*out, kout{s: s, end: true})
			return nil
		case *ssa.Jump:
			return b.Succs[0]
		case *ssa.If:
			c := e.val(f, x.Cond)
			if c.k == kConst && c.c.Kind() == constant.Bool {
				if constant.BoolVal(c.c) {
					return b.Succs[0]
				}
				return b.Succs[1]
			}
			if s.forks++; s.forks > 300 {
				s.odd = "a loop whose end isn't known in " + f.fn.String()
				*out = append(*out, kout{s: s, end: true})
				return nil
			}
			for k, want := range []bool{true, false} {
				t := s.clone()
				if !e.learn(f, x.Cond, want, t) {
					continue
				}
				e.block(f.clone(), b.Succs[k], b, t, depth, out)
			}
			return nil
		case *ssa.Store:
			e.store(s, e.val(f, x.Addr), e.val(f, x.Val))
		case *ssa.MapUpdate:
			m, k := e.val(f, x.Map), e.val(f, x.Key)
			if m.k == kMap {
				s.mem[m.o] = kput(s.content(m.o), k, e.val(f, x.Value))
			}
		case *ssa.Defer:
			d := kdefer{call: &x.Call, fn: e.val(f, x.Call.Value)}
			for _, a := range x.Call.Args {
				d.args = append(d.args, e.val(f, a))
			}
			f.defers = append(f.defers, d)
		case *ssa.RunDefers:
			outs := []kout{{s: s}}
			for k := len(f.defers) - 1; k >= 0; k-- {
				var next []kout
				for _, o := range outs {
					for _, r := range e.call(f.defers[k].call, f.defers[k].fn, f.defers[k].args, o.s, depth) {
						if r.end {
							*out = append(*out, r)
							continue
						}
						next = append(next, r)
					}
				}
				outs = next
			}
			f.defers = nil
			return e.onward(f, b, n, nil, outs, depth, out)
		case *ssa.Go:
			if e.spawn == nil {
				s.odd = "a goroutine is started in " + f.fn.String()
				break
			}
			d := kdefer{call: &x.Call, fn: e.val(f, x.Call.Value)}
			for _, a := range x.Call.Args {
				d.args = append(d.args, e.val(f, a))
			}
			e.spawn(s, d)
		case *ssa.Send:
			outs := e.send(s, x.Chan.Type(), e.val(f, x.X))
			return e.onward(f, b, n, nil, outs, depth, out)
		case *ssa.Select:
			return e.onward(f, b, n, x, e.choose(f, x, s), depth, out)
		case *ssa.Call:
			var args []*kv
			for _, a := range x.Call.Args {
				args = append(args, e.val(f, a))
			}
			outs := e.call(&x.Call, e.val(f, x.Call.Value), args, s, depth)
			return e.onward(f, b, n, x, outs, depth, out)
		case *ssa.UnOp:
			if x.Op == token.ARROW {
				return e.onward(f, b, n, x, e.recv(s, x.X.Type(), x.CommaOk), depth, out)
			}
			f.env[x] = e.eval(f, s, x)
		case ssa.Value:
			f.env[x] = e.eval(f, s, x)
		}
	}
	return nil
}

// onward goes on after an instruction that may end in several ways.
func (e *kexec) onward(f *kframe, b *ssa.BasicBlock, n int, x ssa.Value, outs []kout, depth int, out *[]kout) *ssa.BasicBlock {
	var live []kout
	for _, o := range outs {
		if o.end {
			*out = append(*out, o)
			continue
		}
		live = append(live, o)
	}
	for k, o := range live {
		g := f
		if k < len(live)-1 {
			g = f.clone()
		}
		if x != nil {
			switch len(o.res) {
			case 0:
				g.env[x] = kunk
			case 1:
				g.env[x] = o.res[0]
			default:
				g.env[x] = &kv{k: kTuple, fs: o.res}
			}
		}
		nb := e.instrs(g, b, n+1, o.s, depth, out)
		if nb != nil {
			e.block(g, nb, b, o.s, depth, out)
		}
	}
	return nil
}

// choose gives the ways that a select may go.
func (e *kexec) choose(f *kframe, x *ssa.Select, s *kstate) []kout {
	nrecv := 0
	for _, st := range x.States {
		if st.Dir == types.RecvOnly {
			nrecv++
		}
	}
	sends := nrecv < len(x.States)
	var outs []kout
	at := 0
	for i, st := range x.States {
		var rs []kout
		t := s.clone()
		if st.Dir == types.RecvOnly {
			rs = e.recv(t, st.Chan.Type(), true)
			at++
			for _, r := range rs {
				if sends {
					r.s.log = append(r.s.log, kevent{what: "didn't send"})
				}
			}
		} else {
			rs = e.send(t, st.Chan.Type(), e.val(f, st.Send))
		}
		for _, r := range rs {
			if r.end {
				// nobody comes; another case may go on
				if len(r.s.odd) > 0 {
					outs = append(outs, r)
				}
				continue
			}
			res := make([]*kv, 2+nrecv)
			for k := range res {
				res[k] = kunk
			}
			res[0] = kint(int64(i))
			if st.Dir == types.RecvOnly && len(r.res) > 0 {
				v := r.res[0]
				if v.k == kTuple {
					res[1], v = v.fs[1], v.fs[0]
				}
				res[1+at] = v
			}
			outs = append(outs, kout{s: r.s, res: res})
		}
	}
	if !x.Blocking {
		res := make([]*kv, 2+nrecv)
		for k := range res {
			res[k] = kunk
		}
		res[0] = kint(-1)
		t := s.clone()
		t.log = append(t.log, kevent{what: "didn't wait"})
		outs = append(outs, kout{s: t, res: res})
	}
	if len(outs) == 0 {
		s.log = append(s.log, kevent{what: "waits"})
		return []kout{{s: s, end: true}}
	}
	return outs
}

// learn notes what a condition says. It gives whether it can be.
func (e *kexec) learn(f *kframe, c ssa.Value, want bool, s *kstate) bool {
	switch x := c.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return e.learn(f, x.X, !want, s)
		}
	case *ssa.BinOp:
		a, b, op := e.val(f, x.X), e.val(f, x.Y), x.Op
		if a.k == kLin || b.k == kLin {
			return s.learnLin(op, want, a, b, x.X.Type())
		}
		if b.k == kSym && a.k == kConst {
			a, b = b, a
			op = kflip(op)
		}
		n, ok := b.isInt()
		if a.k != kSym || !ok {
			return true
		}
		if !want {
			op = knot(op)
		}
		r, ok := s.rng[a.ev]
		if !ok || a.sym != "rune" {
			return true
		}
		m := int64(n)
		switch op {
		case token.LSS:
			r[1] = min(r[1], m-1)
		case token.LEQ:
			r[1] = min(r[1], m)
		case token.GTR:
			r[0] = max(r[0], m+1)
		case token.GEQ:
			r[0] = max(r[0], m)
		case token.EQL:
			r[0], r[1] = max(r[0], m), min(r[1], m)
		}
		s.rng[a.ev] = r
		return r[0] <= r[1]
	}
	return true
}

func kflip(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GTR
	case token.LEQ:
		return token.GEQ
	case token.GTR:
		return token.LSS
	case token.GEQ:
		return token.LEQ
	}
	return op
}

func knot(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GEQ
	case token.LEQ:
		return token.GTR
	case token.GTR:
		return token.LEQ
	case token.GEQ:
		return token.LSS
	case token.EQL:
		return token.NEQ
	case token.NEQ:
		return token.EQL
	}
	return op
}

func (e *kexec) store(s *kstate, a, v *kv) {
	if a.k != kPtr {
		return
	}
	s.mem[a.o] = kset(s.content(a.o), a.path, v)
}

func kput(m, k, v *kv) *kv {
	n := &kv{k: kTree, keys: append([]string(nil), m.keys...), fs: append([]*kv(nil), m.fs...)}
	if k.k != kConst && k.k != kText && k.k != kTree {
		return kunk
	}
	if m.k != kTree {
		return kunk
	}
	for i, have := range m.keys {
		if have == k.String() {
			n.fs[2*i+1] = v
			return n
		}
	}
	n.keys = append(n.keys, k.String())
	n.fs = append(n.fs, k, v)
	return n
}

// at gives the pieces of a list.
func (s *kstate) at(v *kv) ([]*kv, bool) {
	switch v.k {
	case kNil:
		return nil, true
	case kText:
		return v.fs, true
	case kSlice:
		a := s.content(v.o)
		if a.k != kTree || v.hi > len(a.fs) {
			return nil, false
		}
		return a.fs[v.lo:v.hi], true
	}
	return nil, false
}

// klen is how long pieces are.
func (s *kstate) klen(ps []*kv) *kv {
	texts := 0
	for _, p := range ps {
		if p.k == kSym && p.sym == "utf8" {
			texts++
			if texts > 1 || s.rng[p.ev][1] >= 0x80 {
				// two characters stand for any number of them
				return &kv{k: kAtLeast, lo: len(ps)}
			}
		}
	}
	return kint(int64(len(ps)))
}

// joined appends to a list, in place if it's the end of one.
func (e *kexec) joined(s *kstate, to *kv, add []*kv) *kv {
	if to.k == kNil {
		if len(add) == 0 {
			return to
		}
		to = &kv{k: kSlice, o: e.obj("list")}
		s.mem[to.o] = &kv{k: kTree}
	}
	if to.k != kSlice {
		return kunk
	}
	a := s.content(to.o)
	if a.k != kTree || to.hi > len(a.fs) {
		return kunk
	}
	n := &kv{k: kTree, fs: append([]*kv(nil), a.fs[:to.hi]...)}
	n.fs = append(n.fs, add...)
	hi := len(n.fs)
	if hi < len(a.fs) {
		n.fs = append(n.fs, a.fs[hi:]...)
	}
	s.mem[to.o] = n
	return &kv{k: kSlice, o: to.o, lo: to.lo, hi: hi}
}

func (e *kexec) eval(f *kframe, s *kstate, v ssa.Value) *kv {
	switch x := v.(type) {
	case *ssa.Alloc:
		o := e.obj(x.Comment)
		s.mem[o] = kzero(deref(x.Type()))
		return &kv{k: kPtr, o: o}
	case *ssa.FieldAddr:
		if a := e.val(f, x.X); a.k == kPtr {
			return &kv{k: kPtr, o: a.o, path: append(append([]int(nil), a.path...), x.Field)}
		}
	case *ssa.Field:
		return kget(e.val(f, x.X), []int{x.Field})
	case *ssa.IndexAddr:
		a := e.val(f, x.X)
		n, ok := e.val(f, x.Index).isInt()
		if !ok {
			return kunk
		}
		if a.k == kPtr {
			return &kv{k: kPtr, o: a.o, path: append(append([]int(nil), a.path...), n)}
		}
		if a.k == kSlice {
			return &kv{k: kPtr, o: a.o, path: []int{a.lo + n}}
		}
	case *ssa.Index:
		a := e.val(f, x.X)
		if n, ok := e.val(f, x.Index).isInt(); ok {
			if a.k == kText && n < len(a.fs) && s.klen(a.fs).k == kConst {
				return a.fs[n]
			}
			return kget(a, []int{n})
		}
	case *ssa.UnOp:
		a := e.val(f, x.X)
		switch x.Op {
		case token.MUL:
			if a.k == kPtr {
				return kget(s.content(a.o), a.path)
			}
		case token.NOT:
			if a.k == kConst {
				return kbool(!constant.BoolVal(a.c))
			}
		case token.SUB:
			if a.k == kSym {
				return kneg(a)
			}
			if a.k == kLin {
				return &kv{k: kLin, lin: a.lin.times(ratInt(-1))}
			}
			if a.k == kConst {
				return kconst(constant.UnaryOp(token.SUB, a.c, 0))
			}
		case token.XOR:
			if n, ok := a.isInt(); ok {
				return kwrap(int64(^n), x.Type())
			}
		}
	case *ssa.BinOp:
		return e.binop(s, x.Op, e.val(f, x.X), e.val(f, x.Y), x.Type())
	case *ssa.ChangeType:
		return e.val(f, x.X)
	case *ssa.ChangeInterface:
		return e.val(f, x.X)
	case *ssa.Convert:
		return e.convert(s, e.val(f, x.X), x.X.Type(), x.Type())
	case *ssa.MakeInterface:
		return &kv{k: kIface, typ: x.X.Type(), fs: []*kv{e.val(f, x.X)}}
	case *ssa.TypeAssert:
		a := e.val(f, x.X)
		if a.k == kIface && !types.IsInterface(x.AssertedType) {
			ok := types.Identical(a.typ, x.AssertedType)
			got := a.fs[0]
			if !ok {
				got = kzero(x.AssertedType)
			}
			if x.CommaOk {
				return &kv{k: kTuple, fs: []*kv{got, kbool(ok)}}
			}
			return got
		}
		if types.IsInterface(x.AssertedType) {
			is := -1
			switch {
			case a.k == kNil:
				is = 0
			case a.k == kSym && strings.HasPrefix(a.sym, "some view"):
				is = 1
			case a.k == kIface:
				is = 0
				if types.Implements(a.typ, x.AssertedType.Underlying().(*types.Interface)) {
					is = 1
				}
			}
			switch {
			case is == 1 && x.CommaOk:
				return &kv{k: kTuple, fs: []*kv{a, kbool(true)}}
			case is == 1:
				return a
			case is == 0 && x.CommaOk:
				return &kv{k: kTuple, fs: []*kv{{k: kNil}, kbool(false)}}
			}
		}
		if x.CommaOk {
			return &kv{k: kTuple, fs: []*kv{kunk, kunk}}
		}
	case *ssa.Extract:
		if t := e.val(f, x.Tuple); t.k == kTuple && x.Index < len(t.fs) {
			return t.fs[x.Index]
		}
	case *ssa.MakeClosure:
		c := &kv{k: kFn, fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			c.fs = append(c.fs, e.val(f, b))
		}
		return c
	case *ssa.MakeMap:
		o := e.obj("map")
		s.mem[o] = &kv{k: kTree}
		return &kv{k: kMap, o: o}
	case *ssa.MakeSlice:
		n, ok := e.val(f, x.Len).isInt()
		if !ok || n > 4096 {
			return kunk
		}
		o := e.obj("list")
		z := &kv{k: kTree, fs: make([]*kv, n)}
		for i := range z.fs {
			z.fs[i] = kzero(x.Type().Underlying().(*types.Slice).Elem())
		}
		s.mem[o] = z
		return &kv{k: kSlice, o: o, hi: n}
	case *ssa.Slice:
		return e.slice(f, s, x)
	case *ssa.Lookup:
		m, k := e.val(f, x.X), e.val(f, x.Index)
		got, ok := kunk, kunk
		if m.k == kNil {
			m = &kv{k: kTree}
		} else if m.k == kMap {
			m = s.content(m.o)
		}
		if m.k == kTree && (k.k == kConst || k.k == kText || k.k == kTree) {
			got, ok = nil, kbool(false)
			for i, have := range m.keys {
				if have == k.String() {
					got, ok = m.fs[2*i+1], kbool(true)
				}
			}
			if got == nil {
				got = kunk
				if t, is := x.X.Type().Underlying().(*types.Map); is {
					got = kzero(t.Elem())
				}
			}
		}
		if x.CommaOk {
			return &kv{k: kTuple, fs: []*kv{got, ok}}
		}
		return got
	case *ssa.Range:
		o := e.obj("iteration")
		a := e.val(f, x.X)
		if a.k == kMap {
			c := s.content(a.o)
			if c.k == kTree {
				s.mem[o] = &kv{k: kIter, fs: c.fs}
			}
		}
		if a.k == kText {
			s.mem[o] = &kv{k: kIter, fs: a.fs}
		}
		return &kv{k: kPtr, o: o}
	case *ssa.Next:
		it := e.val(f, x.Iter)
		if it.k != kPtr {
			break
		}
		c := s.content(it.o)
		if c.k != kIter {
			break
		}
		if x.IsString {
			if c.lo >= len(c.fs) {
				return &kv{k: kTuple, fs: []*kv{kbool(false), kint(0), kint(0)}}
			}
			p, at := c.fs[c.lo], kint(int64(c.lo))
			if c.lo > 0 && s.klen(c.fs).k != kConst {
				at = &kv{k: kAtLeast, lo: c.lo}
			}
			s.mem[it.o] = &kv{k: kIter, fs: c.fs, lo: c.lo + 1}
			if p.k == kSym && p.sym == "utf8" {
				return &kv{k: kTuple, fs: []*kv{kbool(true), at, ksym("rune", p.ev)}}
			}
			if n, ok := p.isInt(); ok && n < 0x80 {
				return &kv{k: kTuple, fs: []*kv{kbool(true), at, p}}
			}
			return &kv{k: kTuple, fs: []*kv{kbool(true), at, kunk}}
		}
		if 2*c.lo+1 >= len(c.fs) {
			return &kv{k: kTuple, fs: []*kv{kbool(false), kunk, kunk}}
		}
		s.mem[it.o] = &kv{k: kIter, fs: c.fs, lo: c.lo + 1}
		return &kv{k: kTuple, fs: []*kv{kbool(true), c.fs[2*c.lo], c.fs[2*c.lo+1]}}
	}
	if t, ok := v.Type().(*types.Tuple); ok {
		r := &kv{k: kTuple}
		for i := 0; i < t.Len(); i++ {
			r.fs = append(r.fs, kunk)
		}
		return r
	}
	return kunk
}

// kwrap cuts a number to its type.
func kwrap(n int64, t types.Type) *kv {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return kunk
	}
	switch b.Kind() {
	case types.Int8:
		n = int64(int8(n))
	case types.Int16:
		n = int64(int16(n))
	case types.Int32:
		n = int64(int32(n))
	case types.Uint8:
		n = int64(uint8(n))
	case types.Uint16:
		n = int64(uint16(n))
	case types.Uint32:
		n = int64(uint32(n))
	case types.Uint, types.Uint64, types.Uintptr:
		return kconst(constant.MakeUint64(uint64(n)))
	}
	return kint(n)
}

func (e *kexec) binop(s *kstate, op token.Token, a, b *kv, t types.Type) *kv {
	if a.k == kLin || b.k == kLin {
		return s.linOp(op, a, b, t)
	}
	eq := op == token.EQL || op == token.NEQ
	if eq {
		same := 0 // 1: equal, 2: not
		switch {
		case a.k == kNil && b.k == kNil:
			same = 1
		case a.k == kNil && (b.k == kPtr || b.k == kSlice || b.k == kMap || b.k == kFn || b.k == kIface),
			b.k == kNil && (a.k == kPtr || a.k == kSlice || a.k == kMap || a.k == kFn || a.k == kIface):
			same = 2
		case a.k == kNil && b.k == kSym && strings.HasPrefix(b.sym, "some "), b.k == kNil && a.k == kSym && strings.HasPrefix(a.sym, "some "):
			same = 2
		case a.k == kPtr && b.k == kPtr:
			same = 2
			if a.String() == b.String() {
				same = 1
			}
		case a.k == kText && b.k == kText:
			same = s.sameText(a.fs, b.fs)
		case a.k == kTree && b.k == kTree && !strings.Contains(a.String()+b.String(), "?"):
			same = 2
			if a.String() == b.String() {
				same = 1
			}
		}
		if same != 0 {
			return kbool((same == 1) == (op == token.EQL))
		}
	}
	if op == token.ADD && (a.k == kSym && a.sym == "some output" && b.k == kText || a.k == kText && b.k == kSym && b.sym == "some output") {
		if a.k == kSym {
			return a
		}
		return b
	}
	if a.k == kText && b.k == kText && op == token.ADD {
		return &kv{k: kText, fs: append(append([]*kv(nil), a.fs...), b.fs...)}
	}
	if n, ok := a.isInt(); ok && b.k == kSym && (n == -1 && op == token.MUL || n == 0 && op == token.SUB) {
		return kneg(b)
	}
	if n, ok := b.isInt(); ok && a.k == kSym && n == -1 && (op == token.MUL || op == token.QUO) {
		return kneg(a)
	}
	if b.k == kAtLeast || b.k == kSym {
		a, b = b, a
		switch op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
			op = kflip(op)
		case token.ADD:
		default:
			return kunk
		}
	}
	if n, ok := b.isInt(); ok {
		lo, hi, known := int64(0), int64(0), false
		switch {
		case a.k == kAtLeast && op == token.ADD:
			return &kv{k: kAtLeast, lo: a.lo + n}
		case a.k == kAtLeast:
			lo, hi, known = int64(a.lo), 1<<40, true
		case a.k == kSym && a.sym == "rune", a.k == kSym && a.sym == "utf8" && s.rng[a.ev][1] > 0 && s.rng[a.ev][1] < 0x80:
			if r, ok := s.rng[a.ev]; ok {
				lo, hi, known = r[0], r[1], true
			}
		case a.k == kSym && a.sym == "size":
			lo, hi, known = 1, 4, true
			if r, ok := s.rng[a.ev]; ok && r[1] < 0x80 {
				hi = 1
			} else if ok && r[0] >= 0x80 {
				lo = 2
			}
		}
		if known {
			m := int64(n)
			tf := func(yes, no bool) *kv {
				if yes {
					return kbool(true)
				}
				if no {
					return kbool(false)
				}
				return kunk
			}
			switch op {
			case token.LSS:
				return tf(hi < m, lo >= m)
			case token.LEQ:
				return tf(hi <= m, lo > m)
			case token.GTR:
				return tf(lo > m, hi <= m)
			case token.GEQ:
				return tf(lo >= m, hi < m)
			case token.EQL:
				return tf(lo == m && hi == m, m < lo || m > hi)
			case token.NEQ:
				return tf(m < lo || m > hi, lo == m && hi == m)
			}
		}
	}
	if a.k != kConst || b.k != kConst || a.c.Kind() != b.c.Kind() {
		return kunk
	}
	switch op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		return kbool(constant.Compare(a.c, op, b.c))
	}
	x, ok1 := a.isInt()
	y, ok2 := b.isInt()
	if !ok1 || !ok2 {
		return kunk
	}
	var n int64
	switch op {
	case token.ADD:
		n = int64(x + y)
	case token.SUB:
		n = int64(x - y)
	case token.MUL:
		n = int64(x * y)
	case token.QUO:
		if y == 0 {
			return kunk
		}
		n = int64(x / y)
	case token.REM:
		if y == 0 {
			return kunk
		}
		n = int64(x % y)
	case token.AND:
		n = int64(x & y)
	case token.OR:
		n = int64(x | y)
	case token.XOR:
		n = int64(x ^ y)
	case token.AND_NOT:
		n = int64(x &^ y)
	case token.SHL:
		if y < 0 || y > 62 {
			return kunk
		}
		n = int64(x << uint(y))
	case token.SHR:
		if y < 0 || y > 62 {
			return kunk
		}
		n = int64(x >> uint(y))
	default:
		return kunk
	}
	return kwrap(n, t)
}

// kneg is a named number's negative.
func kneg(a *kv) *kv {
	if strings.HasPrefix(a.sym, "-") {
		return ksym(a.sym[1:], a.ev)
	}
	return ksym("-"+a.sym, a.ev)
}

// sameText: 1 if texts are equal, 2 if they aren't, 0 if that's not known.
func (s *kstate) sameText(a, b []*kv) int {
	la, lb := s.klen(a), s.klen(b)
	if la.k == kConst && lb.k == kConst && len(a) != len(b) {
		return 2
	}
	if la.k == kConst && lb.k == kAtLeast && len(a) < lb.lo || lb.k == kConst && la.k == kAtLeast && len(b) < la.lo {
		return 2
	}
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i].k == kSym && b[i].k == kSym {
			if a[i].String() == b[i].String() {
				continue
			}
			return 0
		}
		if a[i].k == kConst && b[i].k == kConst {
			if constant.Compare(a[i].c, token.EQL, b[i].c) {
				continue
			}
			return 2
		}
		// text never has the byte that sequences begin with
		for _, p := range [][2]*kv{{a[i], b[i]}, {b[i], a[i]}} {
			n, ok := p[1].isInt()
			if ok && p[0].k == kSym && p[0].sym == "utf8" && (n < 0x20 || n == 0x7f) {
				return 2
			}
			if q, known := s.rng[p[0].ev]; ok && known && p[0].k == kSym && p[0].sym == "utf8" && q[1] < 0x80 && (int64(n) < q[0] || int64(n) > q[1]) {
				return 2
			}
		}
		return 0
	}
	if len(a) == len(b) {
		return 1
	}
	return 0
}

func (e *kexec) convert(s *kstate, a *kv, from, to types.Type) *kv {
	listOf := func(t types.Type, k types.BasicKind) bool {
		sl, ok := t.Underlying().(*types.Slice)
		if !ok {
			return false
		}
		b, ok := sl.Elem().Underlying().(*types.Basic)
		return ok && b.Kind() == k
	}
	isBytes := func(t types.Type) bool { return listOf(t, types.Uint8) }
	isRunes := func(t types.Type) bool { return listOf(t, types.Int32) }
	bt, basic := to.Underlying().(*types.Basic)
	switch {
	case a.k == kConst && basic && bt.Info()&types.IsFloat != 0:
		return a
	case a.k == kLin && basic:
		if fb, ok := from.Underlying().(*types.Basic); ok && fb.Info()&types.IsFloat != 0 && bt.Info()&types.IsInteger != 0 {
			return &kv{k: kLin, lin: s.floor(a.lin)}
		}
		return a
	case basic && bt.Info()&types.IsString != 0:
		if a.k == kSym && a.sym == "some output" {
			return a
		}
		if a.k == kSym && a.sym == "rune" {
			return &kv{k: kText, fs: []*kv{ksym("utf8", a.ev)}}
		}
		if n, ok := a.isInt(); ok {
			return ktext(string(rune(n)))
		}
		if isBytes(from) {
			if ps, ok := s.at(a); ok {
				return &kv{k: kText, fs: append([]*kv(nil), ps...)}
			}
		}
		if sl, ok := from.Underlying().(*types.Slice); ok && !isBytes(from) {
			_ = sl
			if ps, ok := s.at(a); ok {
				t := &kv{k: kText}
				for _, p := range ps {
					n, ok := p.isInt()
					switch {
					case p.k == kSym && p.sym == "rune":
						t.fs = append(t.fs, ksym("utf8", p.ev))
					case ok && n < 0x80:
						t.fs = append(t.fs, p)
					default:
						return kunk
					}
				}
				return t
			}
		}
		return kunk
	case isRunes(to) && a.k == kText:
		z := &kv{k: kTree}
		for _, p := range a.fs {
			n, ok := p.isInt()
			switch {
			case p.k == kSym && p.sym == "utf8":
				z.fs = append(z.fs, ksym("rune", p.ev))
			case ok && n < 0x80:
				z.fs = append(z.fs, p)
			default:
				return kunk
			}
		}
		o := e.obj("runes")
		s.mem[o] = z
		return &kv{k: kSlice, o: o, hi: len(z.fs)}
	case isBytes(to) && a.k == kText:
		o := e.obj("bytes")
		s.mem[o] = &kv{k: kTree, fs: append([]*kv(nil), a.fs...)}
		return &kv{k: kSlice, o: o, hi: len(a.fs)}
	case basic && bt.Info()&types.IsInteger != 0:
		if n, ok := a.isInt(); ok {
			return kwrap(int64(n), to)
		}
		if a.k == kSym && a.sym == "rune" {
			r := s.rng[a.ev]
			switch bt.Kind() {
			case types.Uint8:
				if r[1] < 0x80 {
					return ksym("utf8", a.ev) // one byte
				}
				return ksym("cut", a.ev)
			case types.Int8, types.Int16, types.Uint16:
				return kunk
			}
			return a
		}
		if a.k == kSym && a.sym == "utf8" {
			return ksym("rune", a.ev)
		}
		if a.k == kSym && bt.Kind() == types.Int64 {
			return a
		}
	}
	return kunk
}

func (e *kexec) slice(f *kframe, s *kstate, x *ssa.Slice) *kv {
	a := e.val(f, x.X)
	lo, hi := 0, -1
	first := false // it's cut after the first character, however long that is
	var ps []*kv
	switch a.k {
	case kNil:
		return a
	case kPtr:
		c := kget(s.content(a.o), a.path)
		if c.k != kTree || len(a.path) > 0 {
			if c.k == kTree {
				// an array within a struct: it's kept as a whole
				o := e.obj("array")
				s.mem[o] = c
				a = &kv{k: kSlice, o: o, hi: len(c.fs)}
				ps = c.fs
				break
			}
			return kunk
		}
		ps = c.fs
		a = &kv{k: kSlice, o: a.o, hi: len(c.fs)}
	case kSlice, kText:
		var ok bool
		if ps, ok = s.at(a); !ok {
			return kunk
		}
	default:
		return kunk
	}
	if x.Low != nil {
		v := e.val(f, x.Low)
		n, ok := v.isInt()
		if !ok && v.k == kSym && v.sym == "size" && len(ps) > 0 && ps[0].k == kSym && ps[0].sym == "utf8" && ps[0].ev == v.ev {
			n, ok, first = 1, true, true
		}
		if !ok {
			return kunk
		}
		lo = n
	}
	hi = len(ps)
	if x.High != nil {
		h := e.val(f, x.High)
		n, ok := h.isInt()
		if !ok && h.k == kSym && h.sym == "size" && lo < len(ps) && ps[lo].k == kSym && ps[lo].sym == "utf8" && ps[lo].ev == h.ev {
			n, ok = lo+1, lo == 0
		}
		if !ok {
			return kunk
		}
		hi = n
	}
	if (lo > 0 || hi < len(ps)) && s.klen(ps).k != kConst && !(lo == 0 && hi <= 1) && !(first && x.High == nil) {
		// within pieces of unknown length
		return kunk
	}
	if lo < 0 || lo > hi {
		return kunk
	}
	if a.k == kText {
		if hi > len(ps) {
			return kunk
		}
		return &kv{k: kText, fs: ps[lo:hi]}
	}
	if c := s.content(a.o); c.k == kTree && a.lo+hi > len(c.fs) {
		return kunk
	}
	return &kv{k: kSlice, o: a.o, lo: a.lo + lo, hi: a.lo + hi}
}

func (e *kexec) call(c *ssa.CallCommon, fv *kv, args []*kv, s *kstate, depth int) []kout {
	one := func(v ...*kv) []kout { return []kout{{s: s, res: v}} }
	n := c.Signature().Results().Len()
	unknown := func() []kout {
		if e.ext != nil {
			if out := e.ext(s, c, fv, args); out != nil {
				return out
			}
		}
		res := make([]*kv, n)
		for i := range res {
			res[i] = kunk
		}
		return []kout{{s: s, res: res}}
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "len":
			a := args[0]
			if a.k == kMap {
				if m := s.content(a.o); m.k == kTree {
					return one(kint(int64(len(m.keys))))
				}
				return one(kunk)
			}
			if ps, ok := s.at(a); ok {
				return one(s.klen(ps))
			}
		case "append":
			if ps, ok := s.at(args[1]); ok {
				return one(e.joined(s, args[0], ps))
			}
		case "copy":
			to, from := args[0], args[1]
			ps, ok := s.at(from)
			if ok && to.k == kSlice && s.klen(ps).k == kConst {
				m := min(len(ps), to.hi-to.lo)
				for i := 0; i < m; i++ {
					s.mem[to.o] = kset(s.content(to.o), []int{to.lo + i}, ps[i])
				}
				return one(kint(int64(m)))
			}
			if to.k == kSlice {
				s.mem[to.o] = kunk
			}
		case "delete":
			if args[0].k == kMap {
				m, k := s.content(args[0].o), args[1]
				n := &kv{k: kTree}
				if m.k != kTree || k.k != kText && k.k != kConst {
					n = kunk
				} else {
					for i, have := range m.keys {
						if have != k.String() {
							n.keys = append(n.keys, have)
							n.fs = append(n.fs, m.fs[2*i], m.fs[2*i+1])
						}
					}
				}
				s.mem[args[0].o] = n
				return one()
			}
		case "min", "max":
			if x, ok := args[0].isInt(); ok && len(args) == 2 {
				if y, ok := args[1].isInt(); ok {
					if (b.Name() == "min") == (x < y) {
						return one(kint(int64(x)))
					}
					return one(kint(int64(y)))
				}
			}
		}
		return unknown()
	}
	fn := c.StaticCallee()
	var free []*kv
	if c.IsInvoke() {
		r := fv
		if r.k == kIface {
			if m := e.prog.LookupMethod(r.typ, c.Method.Pkg(), c.Method.Name()); m != nil {
				fn, args = m, append([]*kv{r.fs[0]}, args...)
			}
		}
	} else if fv.k == kFn {
		fn, free = fv.fn, fv.fs
	}
	if fn == nil {
		return unknown()
	}
	if fn.Pkg != nil {
		path := fn.Pkg.Pkg.Path()
		name := fn.Name()
		if recv := fn.Signature.Recv(); recv != nil {
			if nt, ok := deref(recv.Type()).(*types.Named); ok {
				name = nt.Obj().Name() + "." + name
			}
		}
		switch path + "." + name {
		case "bytes.Equal":
			a, ok1 := s.at(args[0])
			b, ok2 := s.at(args[1])
			if ok1 && ok2 {
				if k := s.sameText(a, b); k != 0 {
					return one(kbool(k == 1))
				}
			}
			return one(kunk)
		case "unicode/utf8.EncodeRune":
			if args[0].k == kSlice && args[1].k == kSym && args[1].sym == "rune" {
				s.mem[args[0].o] = kset(s.content(args[0].o), []int{args[0].lo}, ksym("utf8", args[1].ev))
				return one(ksym("size", args[1].ev))
			}
		case "unicode/utf8.DecodeRuneInString", "unicode/utf8.DecodeRune":
			if ps, ok := s.at(args[0]); ok && len(ps) > 0 {
				if ps[0].k == kSym && ps[0].sym == "utf8" {
					return one(ksym("rune", ps[0].ev), ksym("size", ps[0].ev))
				}
				if n, ok := ps[0].isInt(); ok && n < 0x80 {
					return one(ps[0], kint(1))
				}
			}
		case "unicode/utf8.AppendRune":
			if args[1].k == kSym && args[1].sym == "rune" {
				return one(e.joined(s, args[0], []*kv{ksym("utf8", args[1].ev)}))
			}
		case "unicode/utf8.RuneLen":
			if args[0].k == kSym && args[0].sym == "rune" {
				return one(ksym("size", args[0].ev))
			}
		case "bytes.Buffer.WriteRune", "bytes.Buffer.WriteByte", "bytes.Buffer.Write", "bytes.Buffer.WriteString",
			"strings.Builder.WriteRune", "strings.Builder.WriteByte", "strings.Builder.Write", "strings.Builder.WriteString":
			if args[0].k != kPtr {
				break
			}
			cur := kget(s.content(args[0].o), args[0].path)
			if cur.k != kText {
				cur = &kv{k: kText}
			}
			var add []*kv
			switch a := args[1]; {
			case a.k == kSym && a.sym == "rune":
				add = []*kv{ksym("utf8", a.ev)}
			case strings.HasSuffix(name, "WriteByte"):
				add = []*kv{a}
			default:
				ps, ok := s.at(a)
				if !ok {
					s.mem[args[0].o] = kunk
					return unknown()
				}
				add = ps
			}
			e.store(s, args[0], &kv{k: kText, fs: append(append([]*kv(nil), cur.fs...), add...)})
			res := make([]*kv, n)
			for i := range res {
				res[i] = kunk
			}
			if n > 0 {
				res[n-1] = &kv{k: kNil}
			}
			return one(res...)
		case "bytes.Buffer.Bytes", "bytes.Buffer.Len", "strings.Builder.String", "strings.Builder.Len", "bytes.Buffer.Reset", "strings.Builder.Reset":
			if args[0].k != kPtr {
				break
			}
			cur := kget(s.content(args[0].o), args[0].path)
			if cur.k != kText {
				cur = &kv{k: kText}
			}
			switch fn.Name() {
			case "Len":
				return one(s.klen(cur.fs))
			case "String":
				return one(cur)
			case "Reset":
				e.store(s, args[0], &kv{k: kText})
				return one()
			}
			o := e.obj("bytes")
			s.mem[o] = &kv{k: kTree, fs: cur.fs}
			return one(&kv{k: kSlice, o: o, hi: len(cur.fs)})
		}
		if e.pkgs[path] == nil {
			return unknown()
		}
	}
	if len(fn.Blocks) == 0 {
		return unknown()
	}
	if fn.Name() == "init" && fn.Synthetic != "" {
		return unknown()
	}
	if e.stub != nil {
		if out := e.stub(s, fn, args); out != nil {
			return out
		}
	}
	return e.run(fn, args, free, s, depth+1)
}
