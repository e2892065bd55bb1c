package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

func init() {
	register(&Check{ID: "C18", Rule: "constant propagation through the token classifier and the grammar's terminals, for every kind of token and every word of completion's lists, compared with the tables of the query parser's own source: what is offered in a role is known to the parser in that role, and recognised as such when it's read back", Run: runC18})
}

const parserPkg = "github.com/prometheus/prometheus/promql/parser"
const earleyRel = "promq/autocomplete/earley"

// loadDep builds the SSA form of a dependency from its source.
func loadDep(path string) (*ssa.Package, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedModule,
		Dir: repoDir,
		Env: append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOWORK=off"),
	}
	pkgs, err := packages.Load(cfg, path)
	if err != nil {
		return nil, err
	}
	if len(pkgs) != 1 || len(pkgs[0].Errors) > 0 {
		return nil, fmt.Errorf("%s can't be loaded", path)
	}
	_, sp := ssautil.Packages(pkgs, ssa.BuilderMode(0))
	if len(sp) != 1 || sp[0] == nil {
		return nil, fmt.Errorf("no SSA for %s", path)
	}
	sp[0].Build()
	return sp[0], nil
}

// litEntry is an entry of a map that's put together when the program starts.
type litEntry struct {
	key constant.Value
	val ssa.Value
	pos token.Pos
}

// mapLiterals finds what is in the package's global maps once the program has started. Maps that are
// written to elsewhere are not included.
func mapLiterals(sp *ssa.Package) (map[*ssa.Global][]litEntry, map[*ssa.Global]bool) {
	entries := map[ssa.Value][]litEntry{}
	global := map[ssa.Value]*ssa.Global{}
	odd := map[*ssa.Global]bool{}
	var fns []*ssa.Function
	for _, m := range sp.Members {
		if f, ok := m.(*ssa.Function); ok {
			fns = append(fns, f)
		}
		if t, ok := m.(*ssa.Type); ok {
			for _, tt := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
				ms := sp.Prog.MethodSets.MethodSet(tt)
				for i := 0; i < ms.Len(); i++ {
					if f := sp.Prog.MethodValue(ms.At(i)); f != nil && f.Pkg == sp {
						fns = append(fns, f)
					}
				}
			}
		}
	}
	seen := map[*ssa.Function]bool{}
	for len(fns) > 0 {
		fn := fns[0]
		fns = append(fns[1:], fn.AnonFuncs...)
		if seen[fn] {
			continue
		}
		seen[fn] = true
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				switch x := i.(type) {
				case *ssa.MapUpdate:
					if ld, ok := x.Map.(*ssa.UnOp); ok {
						if g, ok := ld.X.(*ssa.Global); ok {
							odd[g] = true
						}
						continue
					}
					k, ok := x.Key.(*ssa.Const)
					if fn.Name() != "init" || !ok || k.Value == nil {
						entries[x.Map] = append(entries[x.Map], litEntry{nil, x.Value, x.Pos()})
						continue
					}
					entries[x.Map] = append(entries[x.Map], litEntry{k.Value, x.Value, x.Pos()})
				case *ssa.Store:
					if g, ok := x.Addr.(*ssa.Global); ok {
						if _, ok := x.Val.(*ssa.MakeMap); ok && fn.Name() == "init" && fn.Synthetic != "" {
							global[x.Val] = g
						} else {
							odd[g] = true
						}
					}
				case *ssa.Call:
					if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "delete" {
						if ld, ok := x.Call.Args[0].(*ssa.UnOp); ok {
							if g, ok := ld.X.(*ssa.Global); ok {
								odd[g] = true
							}
						}
					}
				}
			}
		}
	}
	out := map[*ssa.Global][]litEntry{}
	for v, g := range global {
		out[g] = entries[v]
		for _, e := range entries[v] {
			if e.key == nil {
				odd[g] = true
			}
		}
	}
	return out, odd
}

// ---------------------------------------------------------------- constant propagation

// cval is what is known about a value.
type cval struct {
	c      constant.Value // a constant
	isNil  bool
	fields map[int]*cval // a struct
	cell   *ccell        // a pointer to
	typ    types.Type    // the dynamic type in an interface
	keys   *ssa.Global   // all keys of the global map, as a collection
	elem   *ssa.Global   // some key of the global map
	m      *ssa.Global   // the global map itself
	word   bool          // the text of the token that is looked at
	cmp    *cval         // whether the key of a map equals the token's text, which does occur in it
	neg    bool          // or differs
	tuple  []*cval
}

type ccell struct{ id int }

var cunknown = &cval{}

func cconst(v constant.Value) *cval { return &cval{c: v} }

func cbool(b bool) *cval { return cconst(constant.MakeBool(b)) }

// cstate is a state on a path.
type cstate struct {
	env    map[ssa.Value]*cval
	mem    map[*ccell]*cval
	rounds map[*ssa.BasicBlock]int
	look   map[*ssa.Global]*clook
}

// clook is how far a loop over words has looked for the token's text.
type clook struct {
	found   *cval // the word that equals it
	round   bool  // this round has looked
	skipped bool  // some round hasn't
}

func (s *cstate) clone() *cstate {
	n := &cstate{map[ssa.Value]*cval{}, map[*ccell]*cval{}, map[*ssa.BasicBlock]int{}, map[*ssa.Global]*clook{}}
	for k, v := range s.env {
		n.env[k] = v
	}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	for k, v := range s.rounds {
		n.rounds[k] = v
	}
	for k, v := range s.look {
		c := *v
		n.look[k] = &c
	}
	return n
}

// ceval propagates constants through functions.
type ceval struct {
	p     *Program
	lits  map[*ssa.Global]map[string]bool // the keys of the maps of words
	maps  map[*ssa.Global][]litEntry
	dep   *ssa.Package
	text  string // the token's text
	known bool   // it's known; otherwise it's none of the words in any list
	steps int
	cells int
	loops map[*ssa.Function][]*loopInfo
}

type cresult struct {
	res []*cval
	mem map[*ccell]*cval
}

func (e *ceval) isIn(g *ssa.Global) bool { return e.known && e.lits[g][e.text] }

func (e *ceval) newCell() *ccell {
	e.cells++
	return &ccell{e.cells}
}

// run gives what the function may return.
func (e *ceval) run(fn *ssa.Function, args []*cval, mem map[*ccell]*cval, depth int) []cresult {
	if depth > 8 || fn.Blocks == nil {
		return nil
	}
	s := &cstate{map[ssa.Value]*cval{}, map[*ccell]*cval{}, map[*ssa.BasicBlock]int{}, map[*ssa.Global]*clook{}}
	for k, v := range mem {
		s.mem[k] = v
	}
	for i, p := range fn.Params {
		if i < len(args) && args[i] != nil {
			s.env[p] = args[i]
		} else {
			s.env[p] = cunknown
		}
	}
	var out []cresult
	e.block(fn, fn.Blocks[0], nil, s, depth, &out)
	return out
}

func (e *ceval) val(s *cstate, v ssa.Value) *cval {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return &cval{isNil: true}
		}
		return cconst(x.Value)
	case *ssa.Global:
		return cunknown
	}
	if r := s.env[v]; r != nil {
		return r
	}
	return cunknown
}

func (e *ceval) block(fn *ssa.Function, b, pred *ssa.BasicBlock, s *cstate, depth int, out *[]cresult) {
	e.steps++
	if e.steps > 200000 || s.rounds[b] > 2 {
		return
	}
	s.rounds[b]++
	phis := map[ssa.Value]*cval{}
	for _, i := range b.Instrs {
		ph, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		for k, p := range b.Preds {
			if p == pred {
				phis[ph] = e.val(s, ph.Edges[k])
			}
		}
	}
	for k, v := range phis {
		s.env[k] = v
	}
	e.instrs(fn, b, 0, s, depth, out)
}

func (e *ceval) instrs(fn *ssa.Function, b *ssa.BasicBlock, from int, s *cstate, depth int, out *[]cresult) {
	for n := from; n < len(b.Instrs); n++ {
		switch x := b.Instrs[n].(type) {
		case *ssa.Phi:
		case *ssa.Return:
			var res []*cval
			for _, v := range x.Results {
				res = append(res, e.val(s, v))
			}
			*out = append(*out, cresult{res, s.mem})
			return
		case *ssa.Panic:
			return
		case *ssa.Jump:
			e.block(fn, b.Succs[0], b, s, depth, out)
			return
		case *ssa.If:
			c := e.val(s, x.Cond)
			for k, want := range []bool{true, false} {
				if c.c != nil && c.c.Kind() == constant.Bool && constant.BoolVal(c.c) != want {
					continue
				}
				t := s.clone()
				if !e.feasible(fn, b, b.Succs[k], t) {
					continue
				}
				e.block(fn, b.Succs[k], b, t, depth, out)
			}
			return
		case *ssa.Store:
			a := e.val(s, x.Addr)
			v := e.val(s, x.Val)
			if a.cell != nil && a.fields == nil {
				s.mem[a.cell] = v
			} else if a.cell != nil {
				// a field of what the cell holds
				old := s.mem[a.cell]
				s.mem[a.cell] = e.setPath(old, a, v)
			}
		case *ssa.Call:
			rs := e.call(s, x, depth)
			for k, r := range rs {
				t := s
				if k < len(rs)-1 {
					t = s.clone()
				}
				if r.mem != nil {
					t.mem = r.mem
				}
				switch len(r.res) {
				case 0:
				case 1:
					t.env[x] = r.res[0]
				default:
					t.env[x] = &cval{tuple: r.res}
				}
				if len(rs) > 1 {
					e.instrs(fn, b, n+1, t, depth, out)
				}
			}
			if len(rs) != 1 {
				return
			}
		case ssa.Value:
			v := e.eval(s, x)
			if v.cmp == nil {
				s.env[x] = v
				continue
			}
			// a word is compared with the token's text
			l := s.look[v.cmp.elem]
			if l == nil {
				l = &clook{}
				s.look[v.cmp.elem] = l
			}
			l.round = true
			if l.found != nil {
				s.env[x] = cbool((l.found == v.cmp) != v.neg)
				continue
			}
			t := s.clone()
			t.look[v.cmp.elem].found = v.cmp
			t.env[x] = cbool(!v.neg)
			e.instrs(fn, b, n+1, t, depth, out)
			s.env[x] = cbool(v.neg)
		}
	}
}

// setPath changes a field.
func (e *ceval) setPath(old, at, v *cval) *cval {
	n := &cval{fields: map[int]*cval{}}
	if old != nil && old.fields != nil {
		for k, f := range old.fields {
			n.fields[k] = f
		}
	}
	for k := range at.fields {
		n.fields[k] = v
	}
	return n
}

// feasible: a loop over words that hold the token's text doesn't end without having found it, when each
// round looked for it.
func (e *ceval) feasible(fn *ssa.Function, b, succ *ssa.BasicBlock, s *cstate) bool {
	ls, ok := e.loops[fn]
	if !ok {
		ls = findLoops(e.p, fn)
		e.loops[fn] = ls
	}
	for _, l := range ls {
		if l.header != b {
			continue
		}
		g := e.val(s, l.coll).keys
		if g == nil {
			g = e.val(s, l.coll).m
		}
		if g == nil {
			continue
		}
		if l.body[succ] {
			k := &clook{}
			if old := s.look[g]; old != nil && s.rounds[b] > 1 {
				k.found, k.skipped = old.found, old.skipped || !old.round
			}
			s.look[g] = k
			return len(e.lits[g]) > 0
		}
		k := s.look[g]
		if e.isIn(g) && (s.rounds[b] == 1 || k != nil && k.found == nil && k.round && !k.skipped) {
			return false
		}
	}
	return true
}

func (e *ceval) eval(s *cstate, v ssa.Value) *cval {
	switch x := v.(type) {
	case *ssa.Alloc:
		c := e.newCell()
		s.mem[c] = &cval{fields: nil}
		if st, ok := deref(x.Type()).Underlying().(*types.Struct); ok {
			z := &cval{fields: map[int]*cval{}}
			for i := 0; i < st.NumFields(); i++ {
				z.fields[i] = zeroOf(st.Field(i).Type())
			}
			s.mem[c] = z
		} else {
			s.mem[c] = zeroOf(deref(x.Type()))
		}
		return &cval{cell: c}
	case *ssa.FieldAddr:
		a := e.val(s, x.X)
		if a.cell != nil && a.fields == nil {
			return &cval{cell: a.cell, fields: map[int]*cval{x.Field: nil}}
		}
	case *ssa.Field:
		if f := e.val(s, x.X).fields[x.Field]; f != nil {
			return f
		}
	case *ssa.IndexAddr:
		if a := e.val(s, x.X); a.keys != nil {
			c := e.newCell()
			s.mem[c] = &cval{elem: a.keys}
			return &cval{cell: c}
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if g, ok := x.X.(*ssa.Global); ok {
				if e.maps[g] != nil || e.lits[g] != nil {
					return &cval{m: g}
				}
				return cunknown
			}
			a := e.val(s, x.X)
			if a.cell == nil {
				return cunknown
			}
			m := s.mem[a.cell]
			if m == nil {
				return cunknown
			}
			if a.fields == nil {
				return m
			}
			for k := range a.fields {
				if f := m.fields[k]; f != nil {
					return f
				}
			}
			return cunknown
		}
		a := e.val(s, x.X)
		if x.Op == token.NOT && a.c != nil {
			return cbool(!constant.BoolVal(a.c))
		}
		if x.Op == token.NOT {
			return cunknown
		}
	case *ssa.BinOp:
		a, b := e.val(s, x.X), e.val(s, x.Y)
		if a.isNil && b.isNil && (x.Op == token.EQL || x.Op == token.NEQ) {
			return cbool(x.Op == token.EQL)
		}
		if (a.isNil && b.cell != nil || b.isNil && a.cell != nil) && (x.Op == token.EQL || x.Op == token.NEQ) {
			return cbool(x.Op == token.NEQ)
		}
		if b.word {
			a, b = b, a
		}
		if a.word && (x.Op == token.EQL || x.Op == token.NEQ) {
			eq := x.Op == token.EQL
			switch {
			case b.word:
				return cbool(eq)
			case b.elem != nil && !e.isIn(b.elem):
				return cbool(!eq)
			case b.elem != nil:
				return &cval{cmp: b, neg: !eq}
			case b.c != nil && e.known && b.c.Kind() == constant.String:
				return cbool((constant.StringVal(b.c) == e.text) == eq)
			}
			return cunknown
		}
		if a.c != nil && b.c != nil && a.c.Kind() == b.c.Kind() {
			switch x.Op {
			case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
				return cbool(constant.Compare(a.c, x.Op, b.c))
			case token.ADD, token.SUB, token.AND, token.OR:
				return cconst(constant.BinaryOp(a.c, x.Op, b.c))
			}
		}
	case *ssa.ChangeType:
		return e.val(s, x.X)
	case *ssa.Convert:
		return e.val(s, x.X)
	case *ssa.ChangeInterface:
		return e.val(s, x.X)
	case *ssa.MakeInterface:
		n := *e.val(s, x.X)
		n.typ = x.X.Type()
		return &n
	case *ssa.TypeAssert:
		a := e.val(s, x.X)
		if a.typ != nil && types.Identical(a.typ, x.AssertedType) {
			if x.CommaOk {
				return &cval{tuple: []*cval{a, cbool(true)}}
			}
			return a
		}
	case *ssa.Extract:
		if t := e.val(s, x.Tuple); x.Index < len(t.tuple) {
			return t.tuple[x.Index]
		}
	case *ssa.Range:
		return e.val(s, x.X)
	case *ssa.Next:
		if m := e.val(s, x.Iter).m; m != nil {
			return &cval{tuple: []*cval{cunknown, {elem: m}, cunknown}}
		}
	case *ssa.Lookup:
		m, k := e.val(s, x.X), e.val(s, x.Index)
		if m.m == nil {
			break
		}
		found, ok := (*cval)(nil), false
		switch {
		case k.word && (e.known || e.lits[m.m] != nil):
			ok = true
			if e.isIn(m.m) {
				found = cunknown
				for _, en := range e.maps[m.m] {
					if en.key != nil && en.key.Kind() == constant.String && constant.StringVal(en.key) == e.text {
						found = e.val(s, en.val)
					}
				}
			}
		case k.c != nil && e.maps[m.m] != nil:
			ok = true
			for _, en := range e.maps[m.m] {
				if en.key != nil && en.key.Kind() == k.c.Kind() && constant.Compare(en.key, token.EQL, k.c) {
					found = e.val(s, en.val)
				}
			}
		}
		if !ok {
			if x.CommaOk {
				return &cval{tuple: []*cval{cunknown, cunknown}}
			}
			return cunknown
		}
		val := found
		if val == nil {
			val = zeroOf(x.X.Type().Underlying().(*types.Map).Elem())
		}
		if x.CommaOk {
			return &cval{tuple: []*cval{val, cbool(found != nil)}}
		}
		return val
	}
	return cunknown
}

func zeroOf(t types.Type) *cval {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return cconst(constant.MakeString(""))
		case u.Info()&types.IsInteger != 0:
			return cconst(constant.MakeInt64(0))
		case u.Info()&types.IsBoolean != 0:
			return cbool(false)
		}
	case *types.Pointer, *types.Interface, *types.Slice, *types.Map, *types.Signature, *types.Chan:
		return &cval{isNil: true}
	case *types.Struct:
		z := &cval{fields: map[int]*cval{}}
		for i := 0; i < u.NumFields(); i++ {
			z.fields[i] = zeroOf(u.Field(i).Type())
		}
		return z
	}
	return cunknown
}

func (e *ceval) call(s *cstate, x *ssa.Call, depth int) []cresult {
	n := x.Call.Signature().Results().Len()
	unknown := func() []cresult {
		res := make([]*cval, n)
		for i := range res {
			res[i] = cunknown
		}
		return []cresult{{res, nil}}
	}
	one := func(v *cval) []cresult { return []cresult{{[]*cval{v}, nil}} }
	var args []*cval
	for _, a := range x.Call.Args {
		args = append(args, e.val(s, a))
	}
	fn := x.Call.StaticCallee()
	if fn == nil {
		if x.Call.IsInvoke() {
			if r := e.val(s, x.Call.Value); r.typ != nil {
				if m := e.p.method(r.typ, x.Call.Method.Name()); m != nil && m.Blocks != nil && m.Synthetic == "" {
					fn, args = m, append([]*cval{r}, args...)
				}
			}
		}
		if fn == nil {
			return unknown()
		}
	}
	setsPath := modPath + "/notstdlib/sets"
	if fn.Pkg != nil && fn.Pkg.Pkg.Path() == setsPath && len(args) > 0 {
		switch {
		case strings.HasSuffix(fn.Name(), "KeySet") && args[0].m != nil:
			return one(&cval{keys: args[0].m})
		case args[0].keys != nil && (fn.Name() == "List" || fn.Name() == "UnsortedList"):
			return one(&cval{keys: args[0].keys})
		case args[0].keys != nil && fn.Name() == "Has" && len(args) == 2 && args[1].word:
			return one(cbool(e.isIn(args[0].keys)))
		}
		return unknown()
	}
	if fn.Blocks == nil && e.dep != nil {
		// a method of the query parser's package
		if d := sameFn(e.dep, fn); d != nil && len(d.Blocks) > 0 {
			fn = d
		}
	}
	if fn.Blocks == nil || fn.Pkg == nil || !e.p.isRepo[fn.Pkg] && fn.Pkg != e.dep {
		return unknown()
	}
	rs := e.run(fn, args, s.mem, depth+1)
	if rs == nil {
		return unknown()
	}
	// the same answers once
	var out []cresult
	seen := map[string]bool{}
	for _, r := range rs {
		k := ""
		for _, v := range r.res {
			if v.c != nil {
				k += v.c.ExactString() + ";"
			} else {
				k += fmt.Sprintf("%p;", v)
			}
		}
		if !seen[k] {
			seen[k] = true
			out = append(out, r)
		}
	}
	return out
}

// sameFn finds a function of the dependency in its own SSA form.
func sameFn(dep *ssa.Package, fn *ssa.Function) *ssa.Function {
	o, ok := fn.Object().(*types.Func)
	if !ok || o.Pkg() == nil || o.Pkg().Path() != dep.Pkg.Path() {
		return nil
	}
	recv := o.Type().(*types.Signature).Recv()
	if recv == nil {
		return dep.Func(o.Name())
	}
	rt := recv.Type()
	ptr := false
	if pt, ok := rt.(*types.Pointer); ok {
		rt, ptr = pt.Elem(), true
	}
	nt, ok := rt.(*types.Named)
	if !ok {
		return nil
	}
	tn, ok := dep.Pkg.Scope().Lookup(nt.Obj().Name()).(*types.TypeName)
	if !ok {
		return nil
	}
	t := types.Type(tn.Type())
	if ptr {
		t = types.NewPointer(t)
	}
	ms := dep.Prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == o.Name() {
			return dep.Prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

// ---------------------------------------------------------------- the check

type vocab struct {
	p        *Program
	r        *Report
	dep      *ssa.Package
	keys     map[string]int64 // the parser's keywords
	symbols  map[string]int64 // and operators
	funcs    map[string]string
	tokens   map[string]*cval // names of kinds of tokens
	classify *ssa.Function
	typeOf   int // the index of the kind in what the classifier returns, -1: all of it
	itemArg  int
	ev       *ceval
}

func (v *vocab) item(name string) int64 {
	c, ok := v.dep.Pkg.Scope().Lookup(name).(*types.Const)
	if !ok {
		return -1
	}
	n, _ := constant.Int64Val(c.Val())
	return n
}

// kinds gives the kinds that a token of that type and text may be taken for.
func (v *vocab) kinds(typ int64, text string, known bool) []string {
	v.ev.text, v.ev.known, v.ev.steps = text, known, 0
	arg := cconst(constant.MakeInt64(typ))
	st, isStruct := v.classify.Params[v.itemArg].Type().Underlying().(*types.Struct)
	if isStruct {
		arg = &cval{fields: map[int]*cval{}}
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			switch {
			case isNamed(f.Type(), parserPkg, "ItemType"):
				arg.fields[i] = cconst(constant.MakeInt64(typ))
			case isStringish(f.Type()):
				arg.fields[i] = &cval{word: true}
			default:
				arg.fields[i] = cunknown
			}
		}
	}
	args := make([]*cval, len(v.classify.Params))
	args[v.itemArg] = arg
	set := map[string]bool{}
	for _, r := range v.ev.run(v.classify, args, nil, 0) {
		x := r.res[0]
		if v.typeOf >= 0 {
			x = x.fields[v.typeOf]
		}
		if x == nil || x.c == nil || x.c.Kind() != constant.String {
			set["?"] = true
			continue
		}
		set[constant.StringVal(x.c)] = true
	}
	var out []string
	for k := range set {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// read gives the type of token that the parser makes of the text.
func (v *vocab) read(text string) int64 {
	if text == "" {
		return -1
	}
	if c := text[0]; c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' {
		for _, c := range text {
			if !(c == '_' || c == ':' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9') {
				return -1
			}
		}
		if t, ok := v.keys[strings.ToLower(text)]; ok {
			return t
		}
		if strings.Contains(text, ":") {
			return v.item("METRIC_IDENTIFIER")
		}
		return v.item("IDENTIFIER")
	}
	if t, ok := v.symbols[text]; ok {
		return t
	}
	return -1
}

func runC18(p *Program, r *Report) {
	dep, err := loadDep(parserPkg)
	if err != nil {
		r.undecided("the query parser", err.Error())
		return
	}
	v := &vocab{p: p, r: r, dep: dep, keys: map[string]int64{}, symbols: map[string]int64{}, funcs: map[string]string{}}
	// the parser's tables
	dmaps, _ := mapLiterals(dep)
	for g, es := range dmaps {
		mt := deref(g.Type()).Underlying().(*types.Map)
		for _, e := range es {
			if e.key == nil {
				continue
			}
			switch {
			case g.Name() == "key" && isNamed(mt.Elem(), parserPkg, "ItemType"):
				if c, ok := e.val.(*ssa.Const); ok && e.key.Kind() == constant.String {
					v.keys[constant.StringVal(e.key)] = c.Int64()
				}
			case g.Name() == "ItemTypeStr":
				if c, ok := e.val.(*ssa.Const); ok && c.Value != nil {
					n, _ := constant.Int64Val(e.key)
					v.symbols[constant.StringVal(c.Value)] = n
				}
			case g.Name() == "Functions":
				v.funcs[constant.StringVal(e.key)] = returnType(e.val)
			}
		}
	}
	// =~ and !~ are among them, too
	r.atLeast("parser_keywords", len(v.keys), 20)
	r.atLeast("parser_operators", len(v.symbols), 20)
	r.atLeast("parser_functions", len(v.funcs), 50)

	sp := p.pkg(earleyRel)
	if sp == nil {
		r.undecided("completion", earleyRel+" is gone")
		return
	}
	tt := p.lookupType(modPath+"/"+earleyRel, "TokenType")
	if tt == nil {
		r.undecided("kinds of tokens", "TokenType is gone")
		return
	}
	maps, odd := mapLiterals(sp)
	v.ev = &ceval{p: p, lits: map[*ssa.Global]map[string]bool{}, maps: maps, dep: dep, loops: map[*ssa.Function][]*loopInfo{}}
	var words *ssa.Global
	for g, es := range maps {
		mt := deref(g.Type()).Underlying().(*types.Map)
		if isStringish(mt.Key()) && isStringish(mt.Elem()) && !types.Identical(mt.Key(), tt) {
			v.ev.lits[g] = map[string]bool{}
			for _, e := range es {
				if e.key != nil {
					v.ev.lits[g][constant.StringVal(e.key)] = true
				}
			}
			if odd[g] {
				r.violate("words may change", p.position(g.Pos()), g.Name(), "the list of words is not fixed when the program starts")
			}
		}
		if _, ok := mt.Elem().Underlying().(*types.Map); ok && types.Identical(mt.Key(), tt) {
			if words != nil {
				r.undecided("the lists of words", "there are several tables of lists by kind of token")
				return
			}
			words = g
			if odd[g] {
				r.violate("words may change", p.position(g.Pos()), g.Name(), "the table of lists is not fixed when the program starts")
			}
		}
	}
	if words == nil {
		r.undecided("the lists of words", "no table of lists by kind of token was found")
		return
	}
	v.findClassifier(sp, tt)
	if v.classify == nil {
		r.undecided("the classifier", "no function was found that tells the kind of a token")
		return
	}
	v.run(sp, tt, words)
}

// returnType is the type in a description of a function.
func returnType(v ssa.Value) string {
	al, ok := v.(*ssa.Alloc)
	if !ok {
		return "?"
	}
	for _, ref := range *al.Referrers() {
		fa, ok := ref.(*ssa.FieldAddr)
		if !ok || fieldName(deref(al.Type()), fa.Field) != "ReturnType" {
			continue
		}
		for _, r := range *fa.Referrers() {
			if st, ok := r.(*ssa.Store); ok {
				if c, ok := st.Val.(*ssa.Const); ok && c.Value != nil {
					return constant.StringVal(c.Value)
				}
			}
		}
	}
	return "?"
}

// findClassifier finds the function that makes tokens of what the parser's lexer read, or only tells
// their kind.
func (v *vocab) findClassifier(sp *ssa.Package, tt types.Type) {
	best := -1
	for _, fn := range v.p.Funcs {
		if fn.Pkg != sp || fn.Parent() != nil || fn.Signature.Results().Len() != 1 {
			continue
		}
		arg := -1
		for i, pa := range fn.Params {
			if isNamed(pa.Type(), parserPkg, "Item") {
				arg = i
			}
		}
		if arg < 0 {
			continue
		}
		rt := fn.Signature.Results().At(0).Type()
		if types.Identical(rt, tt) && best < 1 {
			best, v.classify, v.itemArg, v.typeOf = 1, fn, arg, -1
		}
		if st, ok := rt.Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				if types.Identical(st.Field(i).Type(), tt) && best < 2 {
					best, v.classify, v.itemArg, v.typeOf = 2, fn, arg, i
				}
			}
		}
	}
}

func (v *vocab) kind(name string) string {
	c := v.p.lookupConst(modPath+"/"+earleyRel, name)
	if c == nil {
		v.r.undecided("kinds of tokens", name+" is gone")
		return "?" + name
	}
	return constant.StringVal(c.Val())
}

func (v *vocab) run(sp *ssa.Package, tt types.Type, words *ssa.Global) {
	r, p := v.r, v.p
	where := fnName(v.classify)
	cpos := p.position(v.classify.Pos())
	// each role: its kind when it's offered, and the parser's types of tokens
	roles := map[string][]string{
		"AGGR_OP":    {"AVG", "BOTTOMK", "COUNT", "COUNT_VALUES", "GROUP", "MAX", "MIN", "QUANTILE", "STDDEV", "STDVAR", "SUM", "TOPK"},
		"AGGR_KW":    {"BY", "WITHOUT"},
		"ARITHMETIC": {"ADD", "SUB", "MUL", "DIV", "MOD", "POW"}, "UNARY_OP": {"ADD", "SUB"},
		"COMPARISION": {"EQLC", "NEQ", "LTE", "LSS", "GTE", "GTR"}, "SET": {"LAND", "LOR", "LUNLESS"},
		"LABELMATCH": {"EQL", "NEQ", "EQL_REGEX", "NEQ_REGEX"},
		"OFFSET_KW":  {"OFFSET"}, "BOOL_KW": {"BOOL"}, "GROUP_SIDE": {"GROUP_LEFT", "GROUP_RIGHT"}, "GROUP_KW": {"IGNORING", "ON"},
	}
	byKind := map[string]string{}
	for role := range roles {
		byKind[v.kind(role)] = role
	}
	byKind[v.kind("FUNCTION_SCALAR_ID")], byKind[v.kind("FUNCTION_VECTOR_ID")] = "scalar", "vector"

	// the grammar's symbols, by what is offered for them
	terms := v.terminals(sp, tt)
	n := 0
	for _, e := range v.ev.maps[words] {
		if e.key == nil {
			r.undecided("the lists of words", "the table has an unknown kind of token")
			continue
		}
		kind := constant.StringVal(e.key)
		ld, _ := e.val.(*ssa.UnOp)
		var g *ssa.Global
		if ld != nil {
			g, _ = ld.X.(*ssa.Global)
		}
		var es []litEntry
		switch {
		case g != nil:
			es = v.ev.maps[g]
		default:
			// the list is written right in the table
			for _, b := range e.val.Parent().Blocks {
				for _, i := range b.Instrs {
					if mu, ok := i.(*ssa.MapUpdate); ok && mu.Map == e.val {
						k, _ := mu.Key.(*ssa.Const)
						if k == nil || k.Value == nil {
							r.undecided("the lists of words", "the list for "+kind+" has an unknown word")
							continue
						}
						es = append(es, litEntry{k.Value, mu.Value, mu.Pos()})
					}
				}
			}
		}
		role, ok := byKind[kind]
		if !ok {
			r.undecided("the lists of words", "words are offered for '"+kind+"', a role that isn't known")
			continue
		}
		if len(es) == 0 {
			r.violate("no words for a role", p.position(words.Pos()), kind, "nothing can be offered where the query goes on with this")
		}
		for _, en := range es {
			if en.key == nil || en.key.Kind() != constant.String {
				r.undecided("the lists of words", "the list for "+kind+" has an unknown word")
				continue
			}
			n++
			w := constant.StringVal(en.key)
			pos := p.position(en.pos)
			t := v.read(w)
			good := false
			switch role {
			case "scalar", "vector":
				good = v.funcs[w] == role && t == v.item("IDENTIFIER")
			default:
				for _, name := range roles[role] {
					good = good || t == v.item(name)
				}
				if t < 0 && role == "LABELMATCH" {
					// these are only known between braces
					t = map[string]int64{"=~": v.item("EQL_REGEX"), "!~": v.item("NEQ_REGEX")}[w]
					good = t > 0
				}
			}
			if !good {
				r.violate("a word that isn't one", pos, kind, fmt.Sprintf("%q is offered as %s, but the query parser doesn't know it as that", w, kind))
				continue
			}
			// and it's recognised when it's read back
			ks := v.kinds(t, w, true)
			if len(terms[kind]) == 0 {
				r.violate("words that are never offered", pos, kind, "no symbol of the grammar stands for these words")
			}
			for _, tm := range terms[kind] {
				for _, k := range ks {
					if !v.accepts(tm, k) {
						r.violate("a word isn't recognised", cpos, where, fmt.Sprintf("%q is offered as %s, but is taken for '%s' when it's read back: nothing more is offered after it", w, kind, k))
					}
				}
				if len(ks) == 0 {
					r.undecided(where, "what "+w+" is taken for")
				}
			}
		}
	}
	r.atLeast("words_offered", n, 60)

	// all of the parser's tokens of a role are recognised as that
	m := 0
	want := map[string][]string{
		"AGGR_OP": roles["AGGR_OP"], "AGGR_KW": roles["AGGR_KW"], "OFFSET_KW": roles["OFFSET_KW"], "BOOL_KW": roles["BOOL_KW"], "GROUP_SIDE": roles["GROUP_SIDE"], "GROUP_KW": roles["GROUP_KW"],
		"ARITHMETIC": roles["ARITHMETIC"], "SET": roles["SET"], "COMPARISION": roles["COMPARISION"], "LABELMATCH": roles["LABELMATCH"],
		"LEFT_BRACE": {"LEFT_BRACE"}, "RIGHT_BRACE": {"RIGHT_BRACE"}, "LEFT_PAREN": {"LEFT_PAREN"}, "RIGHT_PAREN": {"RIGHT_PAREN"}, "LEFT_BRACKET": {"LEFT_BRACKET"}, "RIGHT_BRACKET": {"RIGHT_BRACKET"},
		"COMMA": {"COMMA"}, "COLON": {"COLON"}, "STRING": {"STRING"}, "NUM": {"NUMBER"}, "DURATION": {"DURATION"}, "EOF": {"EOF"}, "ID": {"IDENTIFIER"}, "METRIC_ID": {"METRIC_IDENTIFIER"},
	}
	var names []string
	for role := range want {
		names = append(names, role)
	}
	sort.Strings(names)
	for _, role := range names {
		kind := v.kind(role)
		if len(terms[kind]) == 0 {
			r.undecided("the grammar", "no symbol stands for '"+kind+"'")
			continue
		}
		for _, name := range want[role] {
			m++
			ks := v.kinds(v.item(name), "", false)
			if len(ks) == 0 {
				r.undecided(where, "what "+name+" is taken for")
			}
			for _, k := range ks {
				for _, tm := range terms[kind] {
					if !v.accepts(tm, k) {
						r.violate("a token isn't recognised", cpos, where, fmt.Sprintf("the parser's %s may be taken for '%s', which the grammar's %s doesn't accept", name, k, kind))
					}
				}
				// and as nothing else: kinds that other symbols stand for
				for other, ts := range terms {
					for _, tm := range ts {
						if other != kind && v.accepts(tm, k) && !v.together(kind, other) {
							r.violate("a token is taken for something else", cpos, where, fmt.Sprintf("the parser's %s may be taken for '%s', which the grammar also accepts as %s", name, k, other))
						}
					}
				}
			}
		}
	}
	r.atLeast("kinds_of_tokens", m, 45)
	r.cover("terminals", len(terms))
	r.assume("the query parser's lexer reads a word as its table of keywords says, other words as identifiers, and operators as its table of texts says")
}

// together: kinds that the lexer can't tell apart, so the grammar must accept them for each other.
func (v *vocab) together(a, b string) bool {
	groups := [][]string{{"ID", "METRIC_ID", "METRIC_LABEL_SUBTYPE"}, {"ARITHMETIC", "UNARY_OP"}, {"OPERATOR", "COMPARISION", "LABELMATCH"}}
	for _, g := range groups {
		in := 0
		for _, n := range g {
			k := v.kind(n)
			if k == a || k == b {
				in++
			}
		}
		if in == 2 {
			return true
		}
	}
	return false
}

// accepts: the grammar's symbol accepts tokens of that kind.
func (v *vocab) accepts(tm *cval, kind string) bool {
	m := v.p.method(tm.typ, "isMatchingTerminal")
	if m == nil {
		v.r.undecided("the grammar", "isMatchingTerminal is gone")
		return true
	}
	v.ev.steps = 0
	rs := v.ev.run(m, []*cval{tm, cconst(constant.MakeString(kind))}, v.mem(tm), 0)
	ok := len(rs) > 0
	for _, r := range rs {
		ok = ok && r.res[0].c != nil && r.res[0].c.Kind() == constant.Bool && constant.BoolVal(r.res[0].c)
	}
	return ok
}

func (v *vocab) mem(tm *cval) map[*ccell]*cval { return termMem[tm] }

var termMem = map[*cval]map[*ccell]*cval{}

// terminals finds the grammar's symbols that stand for tokens, by the kind that is offered for them.
func (v *vocab) terminals(sp *ssa.Package, tt types.Type) map[string][]*cval {
	out := map[string][]*cval{}
	n := 0
	for _, b := range sp.Func("init").Blocks {
		for _, i := range b.Instrs {
			st, ok := i.(*ssa.Store)
			if !ok {
				continue
			}
			g, ok := st.Addr.(*ssa.Global)
			if !ok {
				continue
			}
			call, ok := st.Val.(*ssa.Call)
			if !ok || call.Call.StaticCallee() == nil {
				continue
			}
			takes := false
			var args []*cval
			for _, a := range call.Call.Args {
				c, ok := a.(*ssa.Const)
				if ok && c.Value != nil {
					args = append(args, cconst(c.Value))
					takes = takes || types.Identical(a.Type(), tt)
				} else {
					args = append(args, cunknown)
				}
			}
			if !takes {
				continue
			}
			v.ev.steps = 0
			rs := v.ev.run(call.Call.StaticCallee(), args, nil, 0)
			if len(rs) != 1 || len(rs[0].res) != 1 || rs[0].res[0].typ == nil {
				v.r.undecided("the grammar", "what "+g.Name()+" stands for")
				continue
			}
			tm := rs[0].res[0]
			termMem[tm] = rs[0].mem
			m := v.p.method(tm.typ, "getType")
			if m == nil {
				v.r.undecided("the grammar", "getType is gone")
				return out
			}
			n++
			for _, r := range v.ev.run(m, []*cval{tm}, rs[0].mem, 0) {
				x := r.res[0]
				if x.cell != nil {
					a := x
					x = r.mem[a.cell]
					for k := range a.fields {
						if x != nil {
							x = x.fields[k]
						}
					}
				}
				if x == nil || x.c == nil || x.c.Kind() != constant.String {
					v.r.undecided("the grammar", "what is offered for "+g.Name())
					continue
				}
				k := constant.StringVal(x.c)
				out[k] = append(out[k], tm)
			}
		}
	}
	v.r.atLeast("grammar_symbols_for_tokens", n, 25)
	return out
}
