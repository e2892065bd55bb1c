package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Interp is a context-sensitive, top-down abstract interpreter over SSA form. It inlines every
// call of a repository function in its calling context, keeps a flow-insensitive abstract heap
// and a flow-sensitive state (locks held, deferred calls, facts, private objects), which it
// splits by its property-relevant part in the style of ESP. Nothing is executed: all values are
// abstract.
type Interp struct {
	onRound    func() // called when a round begins
	p          *Program
	k          int // length of the call strings that tell abstract objects apart
	maxDep     int
	client     Client
	objs       map[string]*Obj
	objList    []*Obj
	heap       map[*Obj]map[string]*Val
	changed    bool
	threads    map[string]*Thread
	order      []string
	ifaces     map[string]bool // "objid\x00path\x00iface": exposure of repository objects to outside code
	ifaceT     map[*Obj]map[string][]types.Type
	events     []*Event
	evKeys     map[string]bool
	memo       map[string][]Outcome
	recSum     map[*ssa.Function][]Outcome
	visited    map[*ssa.Function]bool
	calls      int
	rounds     int
	curHavoc   map[string]bool
	problems   []string
	chanClosed map[*Obj]bool
	// everPub: objects that some thread made visible to others
	everPub   map[*Obj]bool
	cellKinds map[*ssa.Alloc]int
	// sharedStore: container -> path -> objects stored there while not (known to be) private
	sharedStore map[*Obj]map[string]map[*Obj]bool
}

// Client adapts the interpreter to a property.
type Client interface {
	// Ext may model a call that leaves the repository. It returns false to use the default.
	Ext(in *Interp, fr *Frame, ps *PState, c *ExtCall) ([]Outcome, bool)
	// Call observes (and may replace) a call of a repository function.
	Call(in *Interp, fr *Frame, ps *PState, fn *ssa.Function, args []*Val) ([]Outcome, bool)
	// Ambient may give the value of memory that outside code filled in.
	Ambient(in *Interp, l Loc, t types.Type) *Val
	// Instr observes an instruction before it's executed.
	Instr(in *Interp, fr *Frame, ps *PState, i ssa.Instruction)
}

// AccessHook is a client that looks at accesses to shared memory; it may add facts.
type AccessHook interface {
	Access(in *Interp, fr *Frame, ps *PState, l Loc, write bool, instr ssa.Instruction)
}

// ChanHook is a client that follows channels.
type ChanHook interface {
	Received(in *Interp, fr *Frame, st *State, ch *Val) *State
}

// AfterHook is a client that adjusts what an instruction yielded.
type AfterHook interface {
	After(in *Interp, fr *Frame, ps *PState, instr ssa.Instruction)
}

// EdgeHook is a client that follows the control flow: the state it changes is that at the end of
// the edge.
type EdgeHook interface {
	Edge(in *Interp, fr *Frame, ps *PState, from, to *ssa.BasicBlock)
}

type NoClient struct{}

func (NoClient) Ext(in *Interp, fr *Frame, ps *PState, c *ExtCall) ([]Outcome, bool) {
	return nil, false
}
func (NoClient) Call(in *Interp, fr *Frame, ps *PState, fn *ssa.Function, args []*Val) ([]Outcome, bool) {
	return nil, false
}
func (NoClient) Ambient(in *Interp, l Loc, t types.Type) *Val               { return nil }
func (NoClient) Instr(in *Interp, fr *Frame, ps *PState, i ssa.Instruction) {}

// ExtCall is a call of code outside of the repository.
type ExtCall struct {
	Name   string // full name of the callee
	Instr  ssa.Instruction
	Sig    *types.Signature
	Recv   *Val // receiver of a dynamic call (or the called function value)
	Args   []*Val
	ArgV   []ssa.Value
	Static bool
	Key    string // identifies the call in its context
}

type Outcome struct {
	st  *State
	res []*Val
}

// Event is something observable that happened.
type Event struct {
	Kind   string // read, write, lock, unlock, block, ext, spawn, exit, close, return, relock, badunlock
	Thread string
	Loc    Loc
	Locks  []Held
	Facts  []string
	Start  []string
	Pos    string
	Fn     string
	Detail string
	St     *State
	Vals   []*Val
	Atomic bool
}

type Thread struct {
	id     string
	name   string
	fnv    *Val
	args   []*Val
	parent string
	multi  bool
	run    func(in *Interp, th *Thread) // for roots
	pos    string
	root   bool
}

type Frame struct {
	fn     *ssa.Function
	ctx    string
	parent *Frame
	th     *Thread
	depth  int
	site   ssa.Instruction
}

type PState struct {
	st  *State
	env map[ssa.Value]*Val
}

func newInterp(p *Program, c Client) *Interp {
	return &Interp{p: p, k: 3, maxDep: 60, client: c, objs: map[string]*Obj{}, heap: map[*Obj]map[string]*Val{},
		threads: map[string]*Thread{}, ifaces: map[string]bool{}, ifaceT: map[*Obj]map[string][]types.Type{},
		recSum: map[*ssa.Function][]Outcome{}, visited: map[*ssa.Function]bool{}, chanClosed: map[*Obj]bool{},
		cellKinds: map[*ssa.Alloc]int{}, everPub: map[*Obj]bool{}, sharedStore: map[*Obj]map[string]map[*Obj]bool{}}
}

func emptyState() *State {
	return &State{spans: map[string]span{}}
}

// ---------------------------------------------------------------- objects and memory

func siteID(i ssa.Instruction) string {
	if i == nil {
		return "-"
	}
	b := i.Block()
	if b == nil {
		return i.String()
	}
	for n, o := range b.Instrs {
		if o == i {
			return fmt.Sprintf("%s:%d.%d", b.Parent().String(), b.Index, n)
		}
	}
	return i.String()
}

func pushCtx(ctx string, site ssa.Instruction, k int) string {
	parts := strings.Split(ctx, ">")
	if ctx == "" {
		parts = nil
	}
	parts = append(parts, siteID(site))
	if len(parts) > k {
		parts = parts[len(parts)-k:]
	}
	return strings.Join(parts, ">")
}

func (in *Interp) obj(kind objKind, key, name string, t types.Type) *Obj {
	if o, ok := in.objs[key]; ok {
		return o
	}
	o := &Obj{id: len(in.objList) + 1, kind: kind, name: name, typ: t}
	in.objs[key] = o
	in.objList = append(in.objList, o)
	in.changed = true
	return o
}

func (in *Interp) shortName(kind string, i ssa.Instruction, t types.Type) string {
	return fmt.Sprintf("%s(%s@%s)", kind, typeName(t), in.p.instrPos(i))
}

func typeName(t types.Type) string {
	if t == nil {
		return "?"
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func (in *Interp) heapAt(o *Obj, p string) *Val {
	if m := in.heap[o]; m != nil {
		return m[p]
	}
	return nil
}

func (in *Interp) heapJoin(o *Obj, p string, v *Val) {
	m := in.heap[o]
	if m == nil {
		m = map[string]*Val{}
		in.heap[o] = m
	}
	old := m[p]
	n := joinVal(old, v)
	if old == nil || old.Key() != n.Key() {
		m[p] = n
		in.changed = true
	}
}

func pointerish(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Map, *types.Slice, *types.Chan, *types.Signature:
		return true
	}
	return false
}

func hasPointers(t types.Type, depth int) bool {
	if depth > 5 {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasPointers(u.Field(i).Type(), depth+1) {
				return true
			}
		}
		return false
	case *types.Array:
		return hasPointers(u.Elem(), depth+1)
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if hasPointers(u.At(i).Type(), depth+1) {
				return true
			}
		}
		return false
	}
	return true
}

func isErrorType(t types.Type) bool {
	return t != nil && types.Identical(t, types.Universe.Lookup("error").Type())
}

func (in *Interp) isRepoType(t types.Type) bool {
	if pt, ok := t.(*types.Pointer); ok {
		t = pt.Elem()
	}
	if n, ok := t.(*types.Named); ok {
		pk := n.Obj().Pkg()
		return pk != nil && strings.HasPrefix(pk.Path(), modPath)
	}
	return false
}

// transparent tells whether a struct is tracked field by field.
func (in *Interp) transparent(t types.Type) bool {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	if in.isRepoType(t) {
		return true
	}
	if _, named := t.(*types.Named); !named {
		return true
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Exported() {
			return true
		}
	}
	return false
}

func (in *Interp) typeAt(o *Obj, p string) types.Type {
	t := o.typ
	for p != "" && t != nil {
		if strings.HasPrefix(p, "[]") {
			p = p[2:]
			switch u := t.Underlying().(type) {
			case *types.Slice:
				t = u.Elem()
			case *types.Array:
				t = u.Elem()
			case *types.Map:
				t = u.Elem()
			case *types.Chan:
				t = u.Elem()
			default:
				return nil
			}
			continue
		}
		if p[0] != '.' {
			return nil
		}
		e := strings.IndexAny(p[1:], ".[")
		name := p[1:]
		rest := ""
		if e >= 0 {
			name, rest = p[1:1+e], p[1+e:]
		}
		s, ok := t.Underlying().(*types.Struct)
		if !ok {
			return nil
		}
		var ft types.Type
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == name {
				ft = s.Field(i).Type()
			}
		}
		t, p = ft, rest
	}
	return t
}

func zeroVal(t types.Type) *Val {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Map, *types.Slice, *types.Chan, *types.Signature:
		return nilVal
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			return &Val{nl: 3, b: mayFalse}
		}
		if u.Info()&types.IsString != 0 {
			return &Val{nl: 3, b: 3, cst: constant.MakeString("")}
		}
		if u.Info()&types.IsInteger != 0 {
			return &Val{nl: 3, b: 3, cst: constant.MakeInt64(0)}
		}
	}
	return topVal
}

const maxPath = 6

func pathDepth(p string) int { return strings.Count(p, ".") + strings.Count(p, "[") }

// load reads the value of type t at l.
func (in *Interp) load(st *State, l Loc, t types.Type) *Val {
	if in.transparent(t) && pathDepth(l.p) < maxPath {
		s := t.Underlying().(*types.Struct)
		v := &Val{nl: 3, b: 3, fields: map[string]*Val{}}
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			v.fields["."+f.Name()] = in.load(st, Loc{l.o, l.p + "." + f.Name()}, f.Type())
		}
		return v
	}
	if a, ok := t.Underlying().(*types.Array); ok && pathDepth(l.p) < maxPath {
		return &Val{nl: 3, b: 3, fields: map[string]*Val{"[]": in.load(st, Loc{l.o, l.p + "[]"}, a.Elem())}}
	}
	if st != nil && l.p == "" {
		if v, ok := st.cells[l.o]; ok {
			return v
		}
	}
	v := in.heapAt(l.o, l.p)
	in.reown(st, l, v)
	switch l.o.kind {
	case objExt, objRoot:
		if v == nil || l.o.kind == objExt {
			v = joinVal(v, in.ambient(st, l, t))
		} else {
			v = joinVal(v, in.ambient(st, l, t))
		}
	default:
		if l.o.zero && !l.o.set[l.p] || v == nil {
			z := zeroVal(t)
			if v == nil {
				v = z
			} else if !strings.HasSuffix(l.p, "[]") && !strings.HasSuffix(l.p, "[k]") {
				v = joinVal(v, z)
			}
		}
	}
	return v
}

// ambient is the value of memory that code outside of the repository filled in.
func (in *Interp) ambient(st *State, l Loc, t types.Type) *Val {
	if v := in.client.Ambient(in, l, t); v != nil {
		return v
	}
	switch t.Underlying().(type) {
	case *types.Basic:
		v := topVal
		if l.o.tag != "" {
			v = v.withLab(l.o.tag)
		}
		for _, lab := range in.deepLabs(l.o) {
			v = v.withLab(lab)
		}
		return v
	}
	if isErrorType(t) {
		return topVal
	}
	return &Val{refs: []Loc{{in.derived(st, l, t), ""}}, nl: 3, b: 3}
}

func (in *Interp) derived(st *State, l Loc, t types.Type) *Obj {
	depth := strings.Count(l.o.name, "→")
	if depth >= 4 {
		return l.o
	}
	key := fmt.Sprintf("derived:%d:%s:%s", l.o.id, l.p, t.String())
	kind := objExt
	var ot types.Type = t
	if pt, ok := t.Underlying().(*types.Pointer); ok && in.isRepoType(pt.Elem()) {
		kind, ot = objRoot, pt.Elem()
	} else if ok {
		ot = pt.Elem()
	} else if l.o.kind == objRoot {
		switch t.Underlying().(type) {
		case *types.Slice, *types.Map:
			kind = objRoot
		}
	}
	o := in.obj(kind, key, l.o.name+"→"+l.p, ot)
	o.tag = l.o.tag
	if kind == objExt {
		in.heapJoin(o, "$c", refVal(Loc{l.o, ""}))
	}
	if st != nil && st.priv.has(l.o) {
		st.own(o)
	}
	return o
}

// isCobraCommand: commands call the functions they hold only when they're executed.
func isCobraCommand(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "Command" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "github.com/spf13/cobra"
}

// carriedAll lists what outside code can reach from the given values.
func (in *Interp) carriedAll(vs ...*Val) []Loc {
	seen := map[Loc]bool{}
	var out []Loc
	var visit func(v *Val)
	visit = func(v *Val) {
		if v == nil {
			return
		}
		for _, f := range v.fields {
			visit(f)
		}
		for _, r := range v.refs {
			if seen[r] {
				continue
			}
			seen[r] = true
			out = append(out, r)
			switch r.o.kind {
			case objExt:
				visit(in.heapAt(r.o, "$c"))
				for p, x := range in.heap[r.o] {
					if p != "$c" {
						visit(x)
					}
				}
			case objAlloc, objRoot:
				// outside code can see through slices, maps and its own structs
				if r.o.typ != nil && !in.isRepoType(r.o.typ) && !isCobraCommand(r.o.typ) {
					for _, x := range in.heap[r.o] {
						visit(x)
					}
				}
			case objBox:
				if !in.isRepoType(r.o.typ) {
					for _, x := range in.heap[r.o] {
						visit(x)
					}
				}
			}
		}
	}
	for _, v := range vs {
		visit(v)
	}
	sort.Slice(out, func(i, j int) bool {
		if out[i].o.id != out[j].o.id {
			return out[i].o.id < out[j].o.id
		}
		return out[i].p < out[j].p
	})
	return out
}

// deepLabs collects the labels of everything an outside object was made from.
func (in *Interp) deepLabs(o *Obj) []string {
	var out []string
	for _, l := range in.carriedAll(refVal(Loc{o, ""})) {
		for _, x := range in.heap[l.o] {
			out = unionStr(out, x.labs)
			for _, f := range x.fields {
				out = unionStr(out, f.labs)
			}
		}
	}
	return out
}

func (in *Interp) storeVal(st *State, l Loc, v *Val, t types.Type) {
	if in.transparent(t) && pathDepth(l.p) < maxPath {
		s := t.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			in.storeVal(st, Loc{l.o, l.p + "." + f.Name()}, in.field(st, v, "."+f.Name(), f.Type(), t), f.Type())
		}
		return
	}
	if a, ok := t.Underlying().(*types.Array); ok && pathDepth(l.p) < maxPath {
		in.storeVal(st, Loc{l.o, l.p + "[]"}, in.field(st, v, "[]", a.Elem(), t), a.Elem())
		return
	}
	in.noteStore(st, l, v)
	in.heapJoin(l.o, l.p, v)
	if !st.priv.has(l.o) {
		in.publish(st, v)
	}
}

// noteStore remembers what gets stored while it isn't private to the running thread.
func (in *Interp) noteStore(st *State, l Loc, v *Val) {
	for _, f := range v.fields {
		in.noteStore(st, l, f)
	}
	for _, r := range v.refs {
		if r.o.kind != objAlloc || st.priv.has(l.o) && st.priv.has(r.o) {
			continue
		}
		m := in.sharedStore[l.o]
		if m == nil {
			m = map[string]map[*Obj]bool{}
			in.sharedStore[l.o] = m
		}
		if m[l.p] == nil {
			m[l.p] = map[*Obj]bool{}
		}
		if !m[l.p][r.o] {
			m[l.p][r.o] = true
			in.changed = true
		}
	}
}

// reown: whatever a private object holds, and only ever came to hold while it was private as
// well, is private. (The heap doesn't tell the instances of an abstract object apart: without
// this, an instance that an earlier iteration published would taint the current one.)
func (in *Interp) reown(st *State, l Loc, v *Val) {
	if st == nil || v == nil || !st.priv.has(l.o) || l.o.kind != objAlloc {
		return
	}
	for _, r := range v.refs {
		if r.o.kind == objAlloc && !st.priv.has(r.o) && !in.sharedStore[l.o][l.p][r.o] {
			st.own(r.o)
		}
	}
}

// field extracts a component of an aggregate value.
func (in *Interp) field(st *State, v *Val, sel string, ft types.Type, agg types.Type) *Val {
	if v.fields != nil {
		if f, ok := v.fields[sel]; ok {
			if len(v.refs) == 0 {
				return f
			}
		}
	}
	var r *Val
	if v.fields != nil {
		r = v.fields[sel]
	}
	for _, l := range v.refs {
		r = joinVal(r, in.load(st, Loc{l.o, l.p + sel}, ft))
	}
	if r == nil {
		if v.cst == nil && v.fields == nil && len(v.refs) == 0 {
			// zero value of the aggregate
			return zeroOrTop(v, ft)
		}
		return zeroVal(ft)
	}
	return r
}

func zeroOrTop(v *Val, t types.Type) *Val {
	z := zeroVal(t)
	if pointerish(t) {
		return z
	}
	if len(v.labs) > 0 {
		c := topVal.clone()
		c.labs = v.labs
		return c
	}
	return topVal
}

// publish marks everything reachable from v as visible to other threads.
func (in *Interp) publish(st *State, v *Val) {
	if v == nil {
		return
	}
	for _, f := range v.fields {
		in.publish(st, f)
	}
	for _, r := range v.refs {
		if !st.priv.has(r.o) && (r.o.kind != objAlloc || in.everPub[r.o]) {
			continue
		}
		if st.priv.has(r.o) {
			st.unown(r.o)
		}
		if !in.everPub[r.o] {
			in.everPub[r.o] = true
			in.changed = true
		}
		ks := make([]string, 0, len(in.heap[r.o]))
		for k := range in.heap[r.o] {
			ks = append(ks, k)
		}
		for _, k := range ks {
			in.publish(st, in.heap[r.o][k])
		}
	}
}

// ---------------------------------------------------------------- events

func (in *Interp) event(fr *Frame, ps *PState, e *Event, instr ssa.Instruction) {
	e.Thread = fr.th.id
	e.Locks, e.Facts, e.Start = ps.st.locks, ps.st.facts, ps.st.started
	if instr != nil && e.Pos == "" {
		e.Pos = in.p.instrPos(instr)
	}
	if e.Fn == "" {
		e.Fn = fnName(fr.fn)
	}
	var vk strings.Builder
	for _, v := range e.Vals {
		vk.WriteString(v.Key())
	}
	var kb strings.Builder
	kb.WriteString(e.Kind)
	kb.WriteByte('|')
	kb.WriteString(e.Thread)
	kb.WriteByte('|')
	kb.WriteString(strconv.Itoa(locID(e.Loc)))
	kb.WriteString(e.Loc.p)
	for _, h := range e.Locks {
		kb.WriteByte('|')
		kb.WriteString(strconv.Itoa(h.loc.o.id))
		kb.WriteString(h.loc.p)
		if h.write {
			kb.WriteByte('w')
		}
		if h.ambig {
			kb.WriteByte('?')
		}
	}
	for _, s := range [][]string{e.Facts, e.Start} {
		kb.WriteByte('!')
		for _, x := range s {
			kb.WriteString(x)
			kb.WriteByte(',')
		}
	}
	kb.WriteString(e.Pos)
	kb.WriteByte('|')
	kb.WriteString(e.Detail)
	kb.WriteByte('|')
	kb.WriteString(vk.String())
	key := kb.String()
	if in.evKeys[key] {
		return
	}
	in.evKeys[key] = true
	e.St = ps.st.clone()
	in.events = append(in.events, e)
}

func locID(l Loc) int {
	if l.o == nil {
		return 0
	}
	return l.o.id
}

func (in *Interp) access(fr *Frame, ps *PState, l Loc, write bool, instr ssa.Instruction, detail string) {
	if l.o.kind == objAlloc && !in.everPub[l.o] {
		return
	}
	if ps.st.priv.has(l.o) || l.o.kind == objFunc || l.o.kind == objClosure || l.o.kind == objBox {
		return
	}
	if l.o.kind == objExt && !strings.HasPrefix(l.o.name, "client") {
		return
	}
	k := "read"
	if write {
		k = "write"
	}
	if h, ok := in.client.(AccessHook); ok {
		h.Access(in, fr, ps, l, write, instr)
	}
	in.event(fr, ps, &Event{Kind: k, Loc: l, Detail: detail}, instr)
}

// readDeep records that outside code reads the memory reachable from v. Through reflection it
// sees everything, otherwise everything except the insides of the repository's own structs.
func (in *Interp) readDeep(fr *Frame, ps *PState, v *Val, reflectAll, write bool, instr ssa.Instruction, detail string) {
	seen := map[Loc]bool{}
	var visit func(v *Val, d int)
	visit = func(v *Val, d int) {
		if v == nil || d > 12 {
			return
		}
		for _, f := range v.fields {
			visit(f, d)
		}
		for _, r := range v.refs {
			if seen[r] {
				continue
			}
			seen[r] = true
			switch r.o.kind {
			case objFunc, objClosure:
				continue
			case objExt:
				visit(in.heapAt(r.o, "$c"), d+1)
				if strings.HasPrefix(r.o.name, "client") {
					in.access(fr, ps, r, write, instr, detail)
				}
				continue
			case objBox:
				if in.isRepoType(r.o.typ) && !reflectAll {
					if _, isS := r.o.typ.Underlying().(*types.Struct); isS {
						continue
					}
				}
				visit(in.heapAt(r.o, ""), d+1)
				for _, x := range in.heap[r.o] {
					visit(x, d+1)
				}
				continue
			}
			t := in.typeAt(r.o, r.p)
			if t != nil && in.isRepoType(t) && !reflectAll {
				if _, isS := t.Underlying().(*types.Struct); isS {
					continue
				}
			}
			in.access(fr, ps, Loc{r.o, r.p + elemSel(t)}, write, instr, detail)
			for p, x := range in.heap[r.o] {
				if strings.HasPrefix(p, r.p) && p != "$c" {
					in.reown(ps.st, Loc{r.o, p}, x)
					visit(x, d+1)
				}
			}
		}
	}
	visit(v, 0)
}

func elemSel(t types.Type) string {
	if t == nil {
		return ""
	}
	switch t.Underlying().(type) {
	case *types.Slice, *types.Map, *types.Array, *types.Chan:
		return "[]"
	}
	return ""
}

// ---------------------------------------------------------------- facts

// applyFacts adds facts to the state; it returns nil if they contradict what is known.
func (in *Interp) applyFacts(st *State, fs []string) *State {
	for _, f := range fs {
		if strings.HasPrefix(f, "§") {
			st = applySpan(st, f)
			if st == nil {
				return nil
			}
			continue
		}
		if strings.HasPrefix(f, "ok:") && st.has("fail:"+f[3:]) || strings.HasPrefix(f, "fail:") && st.has("ok:"+f[5:]) {
			return nil
		}
		if strings.HasPrefix(f, "-") {
			st = st.withoutFact(f[1:])
			continue
		}
		st = st.withFacts(f)
	}
	return st
}

func spanFact(sym, op string, c int64) string { return fmt.Sprintf("§%s§%s§%d", sym, op, c) }

func applySpan(st *State, f string) *State {
	parts := strings.Split(f, "§")
	if len(parts) != 4 {
		return st
	}
	sym, op := parts[1], parts[2]
	var c int64
	fmt.Sscan(parts[3], &c)
	sp, ok := st.spans[sym]
	if !ok {
		sp = span{-1 << 40, 1 << 40, nil}
	}
	sp.not = append([]int64(nil), sp.not...)
	switch op {
	case "==":
		if c > sp.lo {
			sp.lo = c
		}
		if c < sp.hi {
			sp.hi = c
		}
		for _, n := range sp.not {
			if n == c {
				return nil
			}
		}
	case "!=":
		sp.not = append(sp.not, c)
		sort.Slice(sp.not, func(i, j int) bool { return sp.not[i] < sp.not[j] })
		for ch := true; ch; {
			ch = false
			for _, n := range sp.not {
				if n == sp.lo {
					sp.lo++
					ch = true
				}
				if n == sp.hi {
					sp.hi--
					ch = true
				}
			}
		}
	case "<=":
		if c < sp.hi {
			sp.hi = c
		}
	case ">=":
		if c > sp.lo {
			sp.lo = c
		}
	}
	if sp.lo > sp.hi {
		return nil
	}
	if len(sp.not) > 6 {
		sp.not = sp.not[:6]
	}
	n := st.clone()
	n.setSpan(sym, sp)
	return n
}

// killSym forgets everything about a symbol that's about to be bound again.
func (in *Interp) killSym(st *State, sym string) {
	var keep []string
	for _, f := range st.facts {
		if !strings.HasSuffix(f, ":"+sym) {
			keep = append(keep, f)
		}
	}
	st.facts = keep
	st.delSpan(sym)
}

// refine narrows the environment by the outcome of a condition; nil means infeasible.
func (in *Interp) refine(ps *PState, cond ssa.Value, taken bool) *PState {
	v := in.val(ps, cond)
	if taken && v.b&mayTrue == 0 || !taken && v.b&mayFalse == 0 {
		return nil
	}
	n := &PState{st: ps.st.clone(), env: copyEnv(ps.env)}
	if v.im != nil {
		fs := v.im.onFalse
		if taken {
			fs = v.im.onTrue
		}
		st := in.applyFacts(n.st, fs)
		if st == nil {
			return nil
		}
		n.st = st
	}
	nv := v.clone()
	nv.b = mayFalse
	if taken {
		nv.b = mayTrue
	}
	n.env[cond] = nv
	if !in.refineOperands(n, cond, taken, 0) {
		return nil
	}
	return n
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.IsNil()
}

func (in *Interp) refineOperands(n *PState, cond ssa.Value, taken bool, depth int) bool {
	if depth > 4 {
		return true
	}
	switch c := cond.(type) {
	case *ssa.UnOp:
		if c.Op == token.NOT {
			if v, ok := n.env[c.X]; ok {
				nv := v.clone()
				nv.b = mayTrue
				if taken {
					nv.b = mayFalse
				}
				if v.b&nv.b == 0 {
					return false
				}
				n.env[c.X] = nv
			}
			return in.refineOperands(n, c.X, !taken, depth+1)
		}
	case *ssa.BinOp:
		if c.Op != token.EQL && c.Op != token.NEQ {
			return true
		}
		eq := taken == (c.Op == token.EQL)
		x, y := c.X, c.Y
		if isNilConst(x) {
			x, y = y, x
		}
		if isNilConst(y) {
			v := in.val(n, x)
			nv := v.clone()
			if eq {
				nv.nl = v.nl & mayNil
				nv.refs = nil
			} else {
				nv.nl = v.nl & mayNonNil
			}
			if nv.nl == 0 {
				return false
			}
			if _, isC := x.(*ssa.Const); !isC {
				n.env[x] = nv
			}
		}
	}
	return true
}

func copyEnv(e map[ssa.Value]*Val) map[ssa.Value]*Val {
	c := make(map[ssa.Value]*Val, len(e))
	for k, v := range e {
		c[k] = v
	}
	return c
}

// ---------------------------------------------------------------- values

func (in *Interp) funcVal(fn *ssa.Function) *Val {
	o := in.obj(objFunc, "func:"+fn.String(), "func "+fnName(fn), fn.Type())
	o.fn = fn
	return refVal(Loc{o, ""})
}

func (in *Interp) globalObj(g *ssa.Global) *Obj {
	kind := objGlobal
	if g.Pkg == nil || !in.p.isRepo[g.Pkg] {
		kind = objExt
	}
	name := g.String()
	o := in.obj(kind, "global:"+name, strings.ReplaceAll(name, modPath+"/", ""), deref(g.Type()))
	o.zero = kind == objGlobal
	return o
}

func (in *Interp) val(ps *PState, v ssa.Value) *Val {
	switch x := v.(type) {
	case *ssa.Const:
		if x.IsNil() {
			return nilVal
		}
		if x.Value == nil {
			return zeroVal(x.Type())
		}
		r := &Val{nl: mayNonNil, b: 3, cst: x.Value}
		if x.Value.Kind() == constant.Bool {
			r.b = mayFalse
			if constant.BoolVal(x.Value) {
				r.b = mayTrue
			}
		}
		return r
	case *ssa.Function:
		return in.funcVal(x)
	case *ssa.Global:
		return refVal(Loc{in.globalObj(x), ""})
	case *ssa.Builtin:
		return topVal
	}
	if r, ok := ps.env[v]; ok {
		return r
	}
	return topVal
}

// ---------------------------------------------------------------- calls

func (in *Interp) isRepoFn(fn *ssa.Function) bool {
	if fn.Blocks == nil {
		return false
	}
	if fn.Pkg != nil {
		return in.p.isRepo[fn.Pkg]
	}
	return true // wrappers, thunks and bounds
}

func resultKey(fn *ssa.Function, res []*Val) string {
	var sb strings.Builder
	rs := fn.Signature.Results()
	for i, v := range res {
		if i < rs.Len() && pointerish(rs.At(i).Type()) {
			fmt.Fprintf(&sb, "n%d", v.nl)
		} else {
			fmt.Fprintf(&sb, "b%d", v.b)
		}
		if v.num != nil {
			sb.WriteString(v.num.sym)
		}
	}
	return sb.String()
}

func (in *Interp) mergeOutcomes(fn *ssa.Function, outs []Outcome) []Outcome {
	idx := map[string]int{}
	var res []Outcome
	for _, o := range outs {
		k := o.st.key() + "#" + resultKey(fn, o.res)
		if i, ok := idx[k]; ok {
			r := res[i]
			nr := make([]*Val, len(r.res))
			for j := range r.res {
				nr[j] = joinVal(r.res[j], o.res[j])
			}
			res[i] = Outcome{joinState(r.st, o.st), nr}
			continue
		}
		idx[k] = len(res)
		res = append(res, o)
	}
	return res
}

// call interprets a repository function on abstract arguments.
func (in *Interp) call(fr *Frame, fn *ssa.Function, args, free []*Val, st *State, site ssa.Instruction) []Outcome {
	n := 0
	for f := fr; f != nil; f = f.parent {
		if f.fn == fn {
			n++
		}
	}
	if n >= 2 || fr.depth > in.maxDep {
		if fr.depth > in.maxDep {
			in.problem("call depth limit reached in " + fnName(fn))
		}
		var outs []Outcome
		for _, o := range in.recSum[fn] {
			s := st.clone()
			outs = append(outs, Outcome{s, o.res})
		}
		return outs
	}
	ctx := fr.ctx
	if site != nil {
		ctx = pushCtx(fr.ctx, site, in.k)
	}
	var kb strings.Builder
	fmt.Fprintf(&kb, "%s|%s|%s|%d|", fn.String(), ctx, fr.th.id, n)
	for _, a := range args {
		kb.WriteString(a.Key())
	}
	for _, a := range free {
		kb.WriteString(a.Key())
	}
	// the callee can't see the caller's variables, except for those that closures captured
	var mine map[*Obj]*Val
	if len(st.cells) > 0 {
		st = st.clone()
		for o, v := range st.cells {
			if a, ok := o.site.(*ssa.Alloc); ok && in.cellKind(a) == 1 {
				if mine == nil {
					mine = map[*Obj]*Val{}
				}
				mine[o] = v
				st.delCell(o)
			}
		}
	}
	restore := func(outs []Outcome) []Outcome {
		cp := make([]Outcome, len(outs))
		for i, o := range outs {
			cp[i] = Outcome{o.st.clone(), o.res}
			for c, v := range mine {
				cp[i].st.setCell(c, v)
			}
		}
		return cp
	}
	kb.WriteString(st.full())
	key := kb.String()
	if outs, ok := in.memo[key]; ok {
		return restore(outs)
	}
	in.calls++
	in.visited[fn] = true
	nf := &Frame{fn: fn, ctx: ctx, parent: fr, th: fr.th, depth: fr.depth + 1, site: site}
	saved := st.defers
	s0 := st.clone()
	s0.defers = nil
	env := map[ssa.Value]*Val{}
	for i, p := range fn.Params {
		if i < len(args) {
			env[p] = args[i]
		}
	}
	for i, fv := range fn.FreeVars {
		if i < len(free) {
			env[fv] = free[i]
		}
	}
	outs := in.run(nf, &PState{st: s0, env: env})
	for i := range outs {
		outs[i].st.defers = saved
	}
	outs = in.mergeOutcomes(fn, outs)
	// summary for recursive calls
	var all Outcome
	for i, o := range outs {
		if i == 0 {
			all = Outcome{emptyState(), o.res}
		} else {
			nr := make([]*Val, len(o.res))
			for j := range o.res {
				nr[j] = joinVal(all.res[j], o.res[j])
			}
			all.res = nr
		}
	}
	if len(outs) > 0 {
		old := in.recSum[fn]
		if len(old) > 0 {
			nr := make([]*Val, len(all.res))
			ch := false
			for j := range all.res {
				nr[j] = joinVal(old[0].res[j], all.res[j])
				ch = ch || nr[j].Key() != old[0].res[j].Key()
			}
			all.res = nr
			if ch {
				in.changed = true
			}
		} else {
			in.changed = true
		}
		in.recSum[fn] = []Outcome{all}
	}
	in.memo[key] = outs
	return restore(outs)
}

// cellKind: 1 for a local variable whose address is only used to load and store it, 2 if
// closures capture it as well (and it isn't declared in a loop), 0 for everything else.
func (in *Interp) cellKind(a *ssa.Alloc) int {
	if k, ok := in.cellKinds[a]; ok {
		return k
	}
	t := deref(a.Type())
	k := 1
	if _, ok := t.Underlying().(*types.Array); ok || in.transparent(t) {
		k = 0
	}
	for _, r := range *a.Referrers() {
		switch x := r.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.Store:
			if x.Val == a {
				k = 0
			}
		case *ssa.MakeClosure:
			if k == 1 {
				k = 2
			}
		default:
			k = 0
		}
		if k == 0 {
			break
		}
	}
	if k == 2 && inCycle(a.Block()) {
		for _, r := range *a.Referrers() {
			if m, ok := r.(*ssa.MakeClosure); ok && !calledAtOnce(m) {
				k = 0
			}
		}
	}
	in.cellKinds[a] = k
	return k
}

// calledAtOnce: the closure is only called, or given to a function that calls it before it
// returns and doesn't keep it.
func calledAtOnce(m *ssa.MakeClosure) bool {
	for _, r := range *m.Referrers() {
		switch x := r.(type) {
		case *ssa.DebugRef:
		case *ssa.Call:
			if x.Call.Value == ssa.Value(m) {
				continue
			}
			f := x.Call.StaticCallee()
			if f == nil || f.Pkg == nil {
				return false
			}
			switch f.Pkg.Pkg.Path() {
			case "sort", "slices", "strings", "bytes":
			default:
				return false
			}
		default:
			return false
		}
	}
	return true
}

// inCycle: the block can reach itself.
func inCycle(b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var visit func(x *ssa.BasicBlock) bool
	visit = func(x *ssa.BasicBlock) bool {
		for _, s := range x.Succs {
			if s == b {
				return true
			}
			if !seen[s] {
				seen[s] = true
				if visit(s) {
					return true
				}
			}
		}
		return false
	}
	return visit(b)
}

func (in *Interp) problem(s string) {
	if !hasStr(in.problems, s) {
		in.problems = append(in.problems, s)
	}
}

type blockKey struct {
	b int
	k string
}

// run interprets the body of fr.fn and returns its outcomes.
func (in *Interp) run(fr *Frame, start *PState) []Outcome {
	fn := fr.fn
	entry := map[blockKey]*PState{}
	var work []blockKey
	inWork := map[blockKey]bool{}
	var outs []Outcome
	push := func(b *ssa.BasicBlock, ps *PState) {
		k := blockKey{b.Index, ps.st.key()}
		old := entry[k]
		if old == nil {
			entry[k] = ps
		} else {
			n := &PState{st: joinState(old.st, ps.st), env: map[ssa.Value]*Val{}}
			ch := n.st.full() != old.st.full()
			for v, x := range old.env {
				if y, ok := ps.env[v]; ok {
					j := joinVal(x, y)
					n.env[v] = j
					if j != x && j.Key() != x.Key() {
						ch = true
					}
				} else {
					n.env[v] = x
				}
			}
			for v, y := range ps.env {
				if _, ok := old.env[v]; !ok {
					n.env[v] = y
					ch = true
				}
			}
			if !ch {
				return
			}
			entry[k] = n
		}
		if !inWork[k] {
			inWork[k] = true
			work = append(work, k)
		}
	}
	push(fn.Blocks[0], start)
	steps := 0
	after, _ := in.client.(AfterHook)
	edges, _ := in.client.(EdgeHook)
	follow := func(ps *PState, from, to *ssa.BasicBlock) {
		if edges != nil {
			edges.Edge(in, fr, ps, from, to)
		}
		push(to, in.edge(ps, from, to))
	}
	for len(work) > 0 {
		// lowest block index first: close to reverse post-order
		bi := 0
		for i := range work {
			if work[i].b < work[bi].b {
				bi = i
			}
		}
		k := work[bi]
		work = append(work[:bi], work[bi+1:]...)
		inWork[k] = false
		steps++
		if steps > 20000 {
			in.problem("too many steps in " + fnName(fn))
			break
		}
		e := entry[k]
		cur := []*PState{{st: e.st.clone(), env: copyEnv(e.env)}}
		b := fn.Blocks[k.b]
		for _, instr := range b.Instrs {
			switch x := instr.(type) {
			case *ssa.Phi:
				continue // done on the edge
			case *ssa.If:
				for _, ps := range cur {
					for si, succ := range b.Succs {
						if r := in.refine(ps, x.Cond, si == 0); r != nil {
							follow(r, b, succ)
						}
					}
				}
				cur = nil
			case *ssa.Jump:
				for _, ps := range cur {
					n := &PState{st: ps.st.clone(), env: copyEnv(ps.env)}
					follow(n, b, b.Succs[0])
				}
				cur = nil
			case *ssa.Return:
				for _, ps := range cur {
					res := make([]*Val, len(x.Results))
					for i, r := range x.Results {
						res[i] = in.val(ps, r)
					}
					in.client.Instr(in, fr, ps, x)
					outs = append(outs, Outcome{ps.st.clone(), res})
				}
				cur = nil
			case *ssa.Panic:
				for _, ps := range cur {
					in.client.Instr(in, fr, ps, x)
				}
				cur = nil
			default:
				var next []*PState
				for _, ps := range cur {
					in.client.Instr(in, fr, ps, instr)
					for _, n := range in.step(fr, ps, instr) {
						if after != nil {
							after.After(in, fr, n, instr)
						}
						next = append(next, n)
					}
				}
				cur = in.mergeStates(next)
			}
			if len(cur) == 0 {
				break
			}
		}
	}
	return outs
}

func (in *Interp) mergeStates(pss []*PState) []*PState {
	if len(pss) < 2 {
		return pss
	}
	idx := map[string]int{}
	var out []*PState
	for _, ps := range pss {
		k := ps.st.key()
		i, ok := idx[k]
		if !ok {
			idx[k] = len(out)
			out = append(out, ps)
			continue
		}
		o := out[i]
		n := &PState{st: joinState(o.st, ps.st).clone(), env: copyEnv(o.env)}
		for v, y := range ps.env {
			n.env[v] = joinVal(n.env[v], y)
		}
		out[i] = n
	}
	return out
}

// edge evaluates the phis of succ for the edge from b.
func (in *Interp) edge(ps *PState, b, succ *ssa.BasicBlock) *PState {
	pi := -1
	for i, p := range succ.Preds {
		if p == b {
			pi = i
		}
	}
	var phis []*ssa.Phi
	var vals []*Val
	for _, i := range succ.Instrs {
		ph, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
		vals = append(vals, in.val(ps, ph.Edges[pi]))
	}
	for i, ph := range phis {
		ps.env[ph] = vals[i]
	}
	return ps
}

func (in *Interp) set(ps *PState, v ssa.Value, x *Val) []*PState {
	ps.env[v] = x
	return []*PState{ps}
}

// countsUp: a loop counter that starts at zero (or, in a range loop, at -1 before the increment)
// and only grows.
func countsUp(v ssa.Value) bool {
	min := int64(0)
	if b, ok := v.(*ssa.BinOp); ok && b.Op == token.ADD {
		if k, ok := constInt(b.Y); ok && k >= 0 {
			v, min = b.X, -k
		}
	}
	ph, ok := v.(*ssa.Phi)
	if !ok {
		return false
	}
	for _, e := range ph.Edges {
		if k, ok := constInt(e); ok && k >= min {
			continue
		}
		if b, ok := e.(*ssa.BinOp); ok && b.Op == token.ADD && b.X == ssa.Value(ph) {
			if k, ok := constInt(b.Y); ok && k >= 0 {
				continue
			}
		}
		return false
	}
	return true
}

func constInt(v ssa.Value) (int64, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
		return 0, false
	}
	return constant.Int64Val(c.Value)
}

// storedFirst: the variable is set as a whole before anything else can happen to it, so that its
// zero value is never seen.
func storedFirst(x *ssa.Alloc) bool {
	after := false
	for _, i := range x.Block().Instrs {
		if i == ssa.Instruction(x) {
			after = true
			continue
		}
		if !after {
			continue
		}
		if st, ok := i.(*ssa.Store); ok && st.Addr == ssa.Value(x) && st.Val != ssa.Value(x) {
			return true
		}
		var ops []*ssa.Value
		for _, op := range i.Operands(ops) {
			if *op == ssa.Value(x) {
				if _, ok := i.(*ssa.DebugRef); !ok {
					return false
				}
			}
		}
	}
	return false
}

// fieldsFirst: the fields that are set before anything else can happen to the variable.
func fieldsFirst(x *ssa.Alloc) map[string]bool {
	set := map[string]bool{}
	at := map[ssa.Value]string{ssa.Value(x): ""}
	after := false
	for _, i := range x.Block().Instrs {
		if i == ssa.Instruction(x) {
			after = true
			continue
		}
		if !after {
			continue
		}
		switch y := i.(type) {
		case *ssa.DebugRef:
			continue
		case *ssa.FieldAddr:
			if p, ok := at[y.X]; ok {
				at[y] = p + "." + fieldName(deref(y.X.Type()), y.Field)
				continue
			}
		case *ssa.Store:
			_, val := at[y.Val]
			if p, ok := at[y.Addr]; ok && !val {
				if _, isS := y.Val.Type().Underlying().(*types.Struct); isS {
					for _, f := range leafPaths(y.Val.Type(), p, 0) {
						set[f] = true
					}
				}
				set[p] = true
				continue
			}
		}
		var ops []*ssa.Value
		for _, op := range i.Operands(ops) {
			if _, ok := at[*op]; ok {
				return set
			}
		}
	}
	return set
}

func leafPaths(t types.Type, p string, d int) []string {
	s, ok := t.Underlying().(*types.Struct)
	if !ok || d > 3 {
		return []string{p}
	}
	out := []string{p}
	for i := 0; i < s.NumFields(); i++ {
		out = append(out, leafPaths(s.Field(i).Type(), p+"."+s.Field(i).Name(), d+1)...)
	}
	return out
}

func fieldName(t types.Type, i int) string {
	return t.Underlying().(*types.Struct).Field(i).Name()
}

func (in *Interp) step(fr *Frame, ps *PState, instr ssa.Instruction) []*PState {
	switch x := instr.(type) {
	case *ssa.DebugRef:
		return []*PState{ps}
	case *ssa.Alloc:
		o := in.obj(objAlloc, "alloc:"+siteID(x)+"#"+fr.ctx, in.shortName("new", x, deref(x.Type())), deref(x.Type()))
		o.zero, o.site, o.ctx = !storedFirst(x), x, fr.ctx
		if o.zero && o.set == nil {
			o.set = fieldsFirst(x)
		}
		ps.st.own(o)
		if in.cellKind(x) != 0 {
			ps.st.setCell(o, zeroVal(deref(x.Type())))
		}
		return in.set(ps, x, refVal(Loc{o, ""}))
	case *ssa.MakeMap:
		o := in.obj(objAlloc, "alloc:"+siteID(x)+"#"+fr.ctx, in.shortName("make", x, x.Type()), x.Type())
		o.site, o.ctx = x, fr.ctx
		ps.st.own(o)
		return in.set(ps, x, refVal(Loc{o, ""}))
	case *ssa.MakeSlice:
		o := in.obj(objAlloc, "alloc:"+siteID(x)+"#"+fr.ctx, in.shortName("make", x, x.Type()), x.Type())
		o.site, o.ctx = x, fr.ctx
		ps.st.own(o)
		return in.set(ps, x, refVal(Loc{o, ""}))
	case *ssa.MakeChan:
		o := in.obj(objAlloc, "alloc:"+siteID(x)+"#"+fr.ctx, in.shortName("make", x, x.Type()), x.Type())
		o.site, o.ctx = x, fr.ctx
		ps.st.own(o)
		return in.set(ps, x, refVal(Loc{o, ""}))
	case *ssa.MakeClosure:
		f := x.Fn.(*ssa.Function)
		o := in.obj(objClosure, "closure:"+siteID(x)+"#"+fr.ctx, "closure "+fnName(f), x.Type())
		o.fn, o.site, o.ctx = f, x, fr.ctx
		ps.st.own(o)
		for i, bnd := range x.Bindings {
			in.heapJoin(o, fmt.Sprintf("$b%d", i), in.val(ps, bnd))
		}
		return in.set(ps, x, refVal(Loc{o, ""}))
	case *ssa.MakeInterface:
		v := in.val(ps, x.X)
		t := x.X.Type()
		if _, ok := t.Underlying().(*types.Pointer); ok {
			nv := v.clone()
			nv.nl = mayNonNil
			return in.set(ps, x, nv)
		}
		if _, ok := t.Underlying().(*types.Interface); ok {
			return in.set(ps, x, v)
		}
		o := in.obj(objBox, "box:"+siteID(x)+"#"+fr.ctx, in.shortName("box", x, t), t)
		ps.st.own(o)
		in.storeVal(ps.st, Loc{o, ""}, v, t)
		r := refVal(Loc{o, ""})
		r.labs, r.sym = v.labs, v.sym
		return in.set(ps, x, r)
	case *ssa.ChangeInterface:
		return in.set(ps, x, in.val(ps, x.X))
	case *ssa.ChangeType:
		return in.set(ps, x, in.val(ps, x.X))
	case *ssa.Convert:
		v := in.val(ps, x.X)
		if _, ok := x.Type().Underlying().(*types.Slice); ok {
			o := in.obj(objAlloc, "alloc:"+siteID(x)+"#"+fr.ctx, in.shortName("convert", x, x.Type()), x.Type())
			ps.st.own(o)
			c := topVal.clone()
			c.labs = v.labs
			in.heapJoin(o, "[]", c)
			r := refVal(Loc{o, ""})
			r.labs = v.labs
			return in.set(ps, x, r)
		}
		if _, ok := x.X.Type().Underlying().(*types.Slice); ok {
			c := topVal.clone()
			c.labs = v.labs
			return in.set(ps, x, c)
		}
		return in.set(ps, x, v)
	case *ssa.MultiConvert:
		return in.set(ps, x, in.val(ps, x.X))
	case *ssa.SliceToArrayPointer:
		return in.set(ps, x, in.val(ps, x.X))
	case *ssa.UnOp:
		return in.unop(fr, ps, x)
	case *ssa.BinOp:
		return in.set(ps, x, in.binop(ps, x))
	case *ssa.FieldAddr:
		v := in.val(ps, x.X)
		var ls []Loc
		f := "." + fieldName(deref(x.X.Type()), x.Field)
		for _, r := range v.refs {
			ls = append(ls, in.ext(r, f))
		}
		r := refVal(ls...)
		return in.set(ps, x, r)
	case *ssa.Field:
		return in.set(ps, x, in.field(ps.st, in.val(ps, x.X), "."+fieldName(x.X.Type(), x.Field), x.Type(), x.X.Type()))
	case *ssa.IndexAddr:
		v := in.val(ps, x.X)
		var ls []Loc
		for _, r := range v.refs {
			ls = append(ls, in.ext(r, "[]"))
		}
		return in.set(ps, x, refVal(ls...))
	case *ssa.Index:
		v := in.val(ps, x.X)
		if _, ok := x.X.Type().Underlying().(*types.Basic); ok {
			c := topVal.clone()
			c.labs = v.labs
			return in.set(ps, x, c)
		}
		return in.set(ps, x, in.field(ps.st, v, "[]", x.Type(), x.X.Type()))
	case *ssa.Lookup:
		v := in.val(ps, x.X)
		if _, ok := x.X.Type().Underlying().(*types.Basic); ok {
			c := topVal.clone()
			c.labs = v.labs
			return in.set(ps, x, c)
		}
		mt := x.X.Type().Underlying().(*types.Map)
		var r *Val
		for _, l := range v.refs {
			in.access(fr, ps, Loc{l.o, l.p + "[]"}, false, x, "map lookup")
			r = joinVal(r, in.load(ps.st, Loc{l.o, l.p + "[]"}, mt.Elem()))
		}
		r = joinVal(r, zeroVal(mt.Elem()))
		if in.transparent(mt.Elem()) && r.fields == nil {
			r = topVal
		}
		if x.CommaOk {
			okv := topVal
			if len(v.refs) == 0 {
				okv = &Val{nl: 3, b: mayFalse}
			}
			return in.set(ps, x, &Val{nl: 3, b: 3, fields: map[string]*Val{"#0": r, "#1": okv}})
		}
		return in.set(ps, x, r)
	case *ssa.Extract:
		v := in.val(ps, x.Tuple)
		if f, ok := v.fields[fmt.Sprintf("#%d", x.Index)]; ok {
			return in.set(ps, x, f)
		}
		return in.set(ps, x, topVal)
	case *ssa.Slice:
		v := in.val(ps, x.X)
		if _, ok := x.X.Type().Underlying().(*types.Basic); ok {
			c := topVal.clone()
			c.labs = v.labs
			return in.set(ps, x, c)
		}
		c := v.clone()
		c.cst = nil
		return in.set(ps, x, c)
	case *ssa.Store:
		a := in.val(ps, x.Addr)
		v := in.val(ps, x.Val)
		for _, l := range a.refs {
			in.access(fr, ps, l, true, x, "store")
			in.storeVal(ps.st, l, v, x.Val.Type())
			if old, ok := ps.st.cells[l.o]; ok && l.p == "" {
				if len(a.refs) == 1 {
					ps.st.setCell(l.o, v)
				} else {
					ps.st.setCell(l.o, joinVal(old, v))
				}
			}
		}
		return []*PState{ps}
	case *ssa.MapUpdate:
		m := in.val(ps, x.Map)
		mt := x.Map.Type().Underlying().(*types.Map)
		for _, l := range m.refs {
			in.access(fr, ps, Loc{l.o, l.p + "[]"}, true, x, "map update")
			in.storeVal(ps.st, Loc{l.o, l.p + "[k]"}, in.val(ps, x.Key), mt.Key())
			in.storeVal(ps.st, Loc{l.o, l.p + "[]"}, in.val(ps, x.Value), mt.Elem())
		}
		return []*PState{ps}
	case *ssa.Range:
		return in.set(ps, x, in.val(ps, x.X))
	case *ssa.Next:
		it := in.val(ps, x.Iter)
		kv, vv := topVal, topVal
		if !x.IsString {
			mt := x.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map)
			kv, vv = nil, nil
			for _, l := range it.refs {
				in.access(fr, ps, Loc{l.o, l.p + "[]"}, false, x, "map iteration")
				kv = joinVal(kv, in.load(ps.st, Loc{l.o, l.p + "[k]"}, mt.Key()))
				vv = joinVal(vv, in.load(ps.st, Loc{l.o, l.p + "[]"}, mt.Elem()))
			}
			if kv == nil {
				kv, vv = topVal, zeroVal(mt.Elem())
			}
			sym := "key@" + siteID(x) + "#" + fr.ctx
			in.killSym(ps.st, sym)
			kv = kv.clone()
			kv.cst = nil
			kv.sym = sym
		} else {
			c := topVal.clone()
			c.labs = it.labs
			vv = c
		}
		return in.set(ps, x, &Val{nl: 3, b: 3, fields: map[string]*Val{"#0": topVal, "#1": kv, "#2": vv}})
	case *ssa.TypeAssert:
		return in.set(ps, x, in.typeAssert(ps, x))
	case *ssa.Send:
		ch := in.val(ps, x.Chan)
		in.event(fr, ps, &Event{Kind: "block", Detail: "channel send", Vals: []*Val{ch}}, x)
		for _, l := range ch.refs {
			in.publish(ps.st, in.val(ps, x.X))
			in.storeVal(ps.st, Loc{l.o, l.p + "[]"}, in.val(ps, x.X), x.X.Type())
		}
		in.publish(ps.st, in.val(ps, x.X))
		return []*PState{ps}
	case *ssa.Select:
		return in.selectStmt(fr, ps, x)
	case *ssa.Go:
		in.spawn(fr, ps, x)
		return []*PState{ps}
	case *ssa.Defer:
		d := deferred{instr: x}
		d.fnv = in.val(ps, x.Call.Value)
		for _, a := range x.Call.Args {
			d.args = append(d.args, in.val(ps, a))
		}
		n := 0
		for _, o := range ps.st.defers {
			if o.instr == x {
				n++
			}
		}
		if n < 2 {
			ps.st.defers = append(append([]deferred(nil), ps.st.defers...), d)
		}
		return []*PState{ps}
	case *ssa.RunDefers:
		cur := []*PState{ps}
		for {
			var next []*PState
			busy := false
			for _, s := range cur {
				n := len(s.st.defers)
				if n == 0 {
					next = append(next, s)
					continue
				}
				busy = true
				d := s.st.defers[n-1]
				s.st.defers = append([]deferred(nil), s.st.defers[:n-1]...)
				for _, o := range in.dispatch(fr, s, &d.instr.Call, d.instr, d.fnv, d.args) {
					next = append(next, &PState{st: o.st, env: s.env})
				}
			}
			cur = in.mergeStates(next)
			if !busy {
				return cur
			}
		}
	case *ssa.Call:
		var args []*Val
		for _, a := range x.Call.Args {
			args = append(args, in.val(ps, a))
		}
		outs := in.dispatch(fr, ps, &x.Call, x, in.val(ps, x.Call.Value), args)
		var next []*PState
		for _, o := range outs {
			n := &PState{st: o.st, env: copyEnv(ps.env)}
			switch len(o.res) {
			case 0:
			case 1:
				n.env[x] = o.res[0]
			default:
				f := map[string]*Val{}
				for i, r := range o.res {
					f[fmt.Sprintf("#%d", i)] = r
				}
				n.env[x] = &Val{nl: 3, b: 3, fields: f}
			}
			next = append(next, n)
		}
		return next
	}
	in.problem(fmt.Sprintf("instruction %T in %s is not understood", instr, fnName(fr.fn)))
	return []*PState{ps}
}

// ext extends a location; outside objects keep their paths short.
func (in *Interp) ext(l Loc, sel string) Loc {
	if pathDepth(l.p) >= maxPath+2 {
		return l
	}
	return Loc{l.o, l.p + sel}
}

func (in *Interp) unop(fr *Frame, ps *PState, x *ssa.UnOp) []*PState {
	v := in.val(ps, x.X)
	switch x.Op {
	case token.MUL:
		var r *Val
		for _, l := range v.refs {
			in.access(fr, ps, l, false, x, "load")
			r = joinVal(r, in.load(ps.st, l, x.Type()))
		}
		if r == nil {
			r = topVal
			if pointerish(x.Type()) {
				r = &Val{nl: 3, b: 3}
			}
		}
		return in.set(ps, x, r)
	case token.NOT:
		r := v.clone()
		r.b = 0
		if v.b&mayFalse != 0 {
			r.b |= mayTrue
		}
		if v.b&mayTrue != 0 {
			r.b |= mayFalse
		}
		r.cst = nil
		if v.im != nil {
			r.im = &implied{onTrue: v.im.onFalse, onFalse: v.im.onTrue}
		}
		return in.set(ps, x, r)
	case token.ARROW:
		in.event(fr, ps, &Event{Kind: "block", Detail: "channel receive", Vals: []*Val{v}}, x)
		var r *Val
		t := x.Type()
		if tt, ok := t.(*types.Tuple); ok {
			t = tt.At(0).Type()
		}
		for _, l := range v.refs {
			r = joinVal(r, in.load(ps.st, Loc{l.o, l.p + "[]"}, t))
			ps.st = ps.st.withFacts("recv:" + fmt.Sprint(l.o.id)).clone()
		}
		if r == nil {
			r = topVal
		}
		if x.CommaOk {
			r = &Val{nl: 3, b: 3, fields: map[string]*Val{"#0": r, "#1": topVal}}
		}
		return in.set(ps, x, r)
	}
	return in.set(ps, x, topVal)
}

func (in *Interp) binop(ps *PState, x *ssa.BinOp) *Val {
	a, b := in.val(ps, x.X), in.val(ps, x.Y)
	if a.cst != nil && b.cst != nil {
		switch x.Op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			if a.cst.Kind() == b.cst.Kind() && (a.cst.Kind() != constant.Bool || x.Op == token.EQL || x.Op == token.NEQ) {
				r := &Val{nl: 3, b: mayFalse}
				if constant.Compare(a.cst, x.Op, b.cst) {
					r.b = mayTrue
				}
				return r
			}
		case token.ADD, token.SUB, token.MUL:
			if a.cst.Kind() == b.cst.Kind() && (a.cst.Kind() == constant.String && x.Op == token.ADD) {
				return &Val{nl: mayNonNil, b: 3, cst: constant.BinaryOp(a.cst, x.Op, b.cst)}
			}
		}
	}
	switch x.Op {
	case token.EQL, token.NEQ:
		n, o := a, b
		if !isNilConst(x.Y) && isNilConst(x.X) {
			n, o = b, a
		}
		_ = o
		if isNilConst(x.X) || isNilConst(x.Y) {
			r := &Val{nl: 3}
			if n.nl&mayNil != 0 {
				r.b |= mayTrue
			}
			if n.nl&mayNonNil != 0 {
				r.b |= mayFalse
			}
			if n.im != nil {
				r.im = &implied{onTrue: n.im.onNil, onFalse: n.im.onNonNil}
			}
			if x.Op == token.NEQ {
				nb := uint8(0)
				if r.b&mayTrue != 0 {
					nb |= mayFalse
				}
				if r.b&mayFalse != 0 {
					nb |= mayTrue
				}
				r.b = nb
				if r.im != nil {
					r.im = &implied{onTrue: r.im.onFalse, onFalse: r.im.onTrue}
				}
			}
			return r
		}
		// an error compared with the marker of a regular end
		for _, pr := range [][2]*Val{{a, b}, {b, a}} {
			if pr[1].sym == "const:io.EOF" && strings.HasPrefix(pr[0].sym, "err:") {
				im := &implied{onTrue: []string{"-fail:" + pr[0].sym[4:]}}
				if x.Op == token.NEQ {
					im = &implied{onFalse: im.onTrue}
				}
				return &Val{nl: 3, b: 3, im: im}
			}
		}
		// comparisons of a boolean with a constant
		for _, pr := range [][2]*Val{{a, b}, {b, a}} {
			if pr[1].cst != nil && pr[1].cst.Kind() == constant.Bool && pr[0].cst == nil {
				same := constant.BoolVal(pr[1].cst) == (x.Op == token.EQL)
				r := pr[0].clone()
				if !same {
					r.b = 0
					if pr[0].b&mayFalse != 0 {
						r.b |= mayTrue
					}
					if pr[0].b&mayTrue != 0 {
						r.b |= mayFalse
					}
					if r.im != nil {
						r.im = &implied{onTrue: pr[0].im.onFalse, onFalse: pr[0].im.onTrue}
					}
				}
				return r
			}
		}
		// a string compared with the empty string
		for _, pr := range [][2]*Val{{a, b}, {b, a}} {
			if pr[1].cst != nil && pr[1].cst.Kind() == constant.String && constant.StringVal(pr[1].cst) == "" && pr[0].sym != "" {
				f := "empty:" + pr[0].sym
				nf := "nonempty:" + pr[0].sym
				if x.Op == token.EQL {
					return &Val{nl: 3, b: 3, im: &implied{onTrue: []string{f}, onFalse: []string{nf}}}
				}
				return &Val{nl: 3, b: 3, im: &implied{onFalse: []string{f}, onTrue: []string{nf}}}
			}
		}
		fallthrough
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		op := x.Op
		// a counter that starts at zero is never below zero
		if op == token.LSS && b.cst != nil && b.cst.Kind() == constant.Int && constant.Sign(b.cst) == 0 && countsUp(x.X) {
			return &Val{nl: 3, b: mayFalse}
		}
		if op == token.GTR && a.cst != nil && a.cst.Kind() == constant.Int && constant.Sign(a.cst) == 0 && countsUp(x.Y) {
			return &Val{nl: 3, b: mayFalse}
		}
		n, c := a, b
		if a.cst != nil && b.num != nil {
			n, c = b, a
			switch op {
			case token.LSS:
				op = token.GTR
			case token.LEQ:
				op = token.GEQ
			case token.GTR:
				op = token.LSS
			case token.GEQ:
				op = token.LEQ
			}
		}
		if n.num != nil && c.cst != nil && c.cst.Kind() == constant.Int {
			k, _ := constant.Int64Val(c.cst)
			d := n.num.div
			if d < 1 {
				d = 1
			}
			s := n.num.sym
			le := func(k int64) []string { return []string{spanFact(s, "<=", k*d+d-1)} }
			ge := func(k int64) []string { return []string{spanFact(s, ">=", k*d)} }
			r := &Val{nl: 3, b: 3}
			switch op {
			case token.LSS:
				r.im = &implied{onTrue: le(k - 1), onFalse: ge(k)}
			case token.LEQ:
				r.im = &implied{onTrue: le(k), onFalse: ge(k + 1)}
			case token.GTR:
				r.im = &implied{onTrue: ge(k + 1), onFalse: le(k)}
			case token.GEQ:
				r.im = &implied{onTrue: ge(k), onFalse: le(k - 1)}
			case token.EQL, token.NEQ:
				eq := append(ge(k), le(k)...)
				var ne []string
				if d == 1 {
					ne = []string{spanFact(s, "!=", k)}
				}
				if op == token.EQL {
					r.im = &implied{onTrue: eq, onFalse: ne}
				} else {
					r.im = &implied{onTrue: ne, onFalse: eq}
				}
			}
			return r
		}
		return topVal
	case token.QUO:
		if a.num != nil && b.cst != nil && b.cst.Kind() == constant.Int {
			if k, ok := constant.Int64Val(b.cst); ok && k > 0 {
				d := a.num.div
				if d < 1 {
					d = 1
				}
				return &Val{nl: 3, b: 3, num: &numInfo{a.num.sym, d * k}}
			}
		}
	}
	if len(a.labs) > 0 || len(b.labs) > 0 {
		return &Val{nl: 3, b: 3, labs: unionStr(a.labs, b.labs)}
	}
	return topVal
}

func (in *Interp) dynTypes(l Loc) types.Type {
	switch l.o.kind {
	case objBox:
		return l.o.typ
	case objExt:
		return nil
	case objFunc, objClosure:
		return l.o.typ
	}
	t := in.typeAt(l.o, l.p)
	if t == nil {
		return nil
	}
	return types.NewPointer(t)
}

func (in *Interp) typeAssert(ps *PState, x *ssa.TypeAssert) *Val {
	v := in.val(ps, x.X)
	it, isI := x.AssertedType.Underlying().(*types.Interface)
	match := func(t types.Type) bool {
		if t == nil {
			return false
		}
		if isI {
			return types.Implements(t, it)
		}
		return types.Identical(t, x.AssertedType)
	}
	var r *Val
	some, none := false, v.nl&mayNil != 0
	refs := v.refs
	add := func(l Loc) {
		some = true
		if l.o.kind == objBox && !isI {
			r = joinVal(r, in.load(ps.st, l, x.AssertedType))
		} else {
			r = joinVal(r, &Val{refs: []Loc{l}, nl: mayNonNil, b: 3, labs: v.labs})
		}
	}
	for _, l := range refs {
		if l.o.kind == objExt {
			none = true
			n := 0
			for _, c := range in.carriedAll(refVal(l)) {
				if c.o.kind != objExt && match(in.dynTypes(c)) {
					add(c)
					n++
				}
			}
			if n == 0 || !in.isRepoType(x.AssertedType) {
				some = true
				switch x.AssertedType.Underlying().(type) {
				case *types.Basic:
					r = joinVal(r, in.ambient(ps.st, l, x.AssertedType))
				case *types.Struct:
					r = joinVal(r, in.load(ps.st, l, x.AssertedType))
				default:
					r = joinVal(r, &Val{refs: []Loc{l}, nl: mayNonNil, b: 3, labs: v.labs})
				}
			}
			continue
		}
		if match(in.dynTypes(l)) {
			add(l)
		} else {
			none = true
		}
	}
	if len(refs) == 0 && v.nl&mayNonNil != 0 {
		some = true
		none = true
		r = topVal
	}
	if x.CommaOk {
		okv := &Val{nl: 3}
		if some {
			okv.b |= mayTrue
		}
		if none || !some {
			okv.b |= mayFalse
		}
		if r == nil {
			r = zeroVal(x.AssertedType)
		} else if none && pointerish(x.AssertedType) {
			r = joinVal(r, nilVal)
		}
		return &Val{nl: 3, b: 3, fields: map[string]*Val{"#0": r, "#1": okv}}
	}
	if r == nil {
		r = topVal
	}
	return r
}

func (in *Interp) selectStmt(fr *Frame, ps *PState, x *ssa.Select) []*PState {
	if x.Blocking {
		var chans []*Val
		d := "select"
		for _, s := range x.States {
			chans = append(chans, in.val(ps, s.Chan))
		}
		in.event(fr, ps, &Event{Kind: "block", Detail: d, Vals: chans}, x)
	}
	var out []*PState
	mk := func(idx int64, cidx int) {
		n := &PState{st: ps.st.clone(), env: copyEnv(ps.env)}
		f := map[string]*Val{"#0": {nl: 3, b: 3, cst: constant.MakeInt64(idx)}, "#1": topVal}
		ri := 2
		for i, s := range x.States {
			if s.Dir == types.RecvOnly {
				t := s.Chan.Type().Underlying().(*types.Chan).Elem()
				var r *Val
				for _, l := range in.val(ps, s.Chan).refs {
					r = joinVal(r, in.load(n.st, Loc{l.o, l.p + "[]"}, t))
					if i == cidx {
						n.st = n.st.withFacts("recv:" + fmt.Sprint(l.o.id)).clone()
					}
				}
				if h, ok := in.client.(ChanHook); ok && i == cidx {
					n.st = h.Received(in, fr, n.st, in.val(ps, s.Chan)).clone()
				}
				if r == nil {
					r = topVal
				}
				f[fmt.Sprintf("#%d", ri)] = r
				ri++
			} else if i == cidx {
				v := in.val(ps, s.Send)
				in.publish(n.st, v)
				for _, l := range in.val(ps, s.Chan).refs {
					in.storeVal(n.st, Loc{l.o, l.p + "[]"}, v, s.Send.Type())
				}
			}
		}
		n.env[x] = &Val{nl: 3, b: 3, fields: f}
		out = append(out, n)
	}
	for i := range x.States {
		mk(int64(i), i)
	}
	if !x.Blocking {
		mk(-1, -1)
	}
	// keep the cases apart: the index is tested right afterwards
	for i, n := range out {
		n.st = n.st.clone()
		var keep []string
		for _, f := range n.st.facts {
			if !strings.HasPrefix(f, "case:") {
				keep = append(keep, f)
			}
		}
		n.st.facts = append(keep, fmt.Sprintf("case:%d", i))
		sort.Strings(n.st.facts)
	}
	return out
}

func (in *Interp) spawn(fr *Frame, ps *PState, x *ssa.Go) {
	var args []*Val
	for _, a := range x.Call.Args {
		args = append(args, in.val(ps, a))
	}
	fnv := in.val(ps, x.Call.Value)
	in.startThread(fr, ps, "go@"+siteID(x)+"#"+fr.ctx, in.p.instrPos(x), fnv, args, &x.Call, x)
}

func (in *Interp) startThread(fr *Frame, ps *PState, id, pos string, fnv *Val, args []*Val, cc *ssa.CallCommon, instr ssa.Instruction) {
	id += "<" + fr.th.id
	in.publish(ps.st, fnv)
	for _, a := range args {
		in.publish(ps.st, a)
	}
	th := in.threads[id]
	if th == nil {
		th = &Thread{id: id, name: "goroutine started at " + pos, parent: fr.th.id, pos: pos}
		th.multi = fr.th.multi
		in.threads[id] = th
		in.order = append(in.order, id)
		in.changed = true
	}
	if hasStr(ps.st.started, id) && !th.multi {
		th.multi = true
		in.changed = true
	}
	nf := joinVal(th.fnv, fnv)
	if th.fnv == nil || nf.Key() != th.fnv.Key() {
		th.fnv = nf
		in.changed = true
	}
	for i, a := range args {
		if i >= len(th.args) {
			th.args = append(th.args, a)
			in.changed = true
			continue
		}
		na := joinVal(th.args[i], a)
		if na.Key() != th.args[i].Key() {
			th.args[i] = na
			in.changed = true
		}
	}
	th.run = func(in *Interp, th *Thread) {
		tfr := &Frame{th: th, ctx: pushCtx("", instr, in.k), fn: fr.fn}
		st := emptyState()
		tps := &PState{st: st, env: map[ssa.Value]*Val{}}
		for _, o := range in.dispatch(tfr, tps, cc, instr, th.fnv, th.args) {
			in.event(tfr, &PState{st: o.st}, &Event{Kind: "exit", Pos: th.pos, Fn: th.name}, nil)
		}
	}
	ps.st.started = unionStr(ps.st.started, []string{id})
	in.event(fr, ps, &Event{Kind: "spawn", Detail: id}, instr)
}

// dispatch interprets a call, whatever it resolves to.
func (in *Interp) dispatch(fr *Frame, ps *PState, cc *ssa.CallCommon, instr ssa.Instruction, fnv *Val, args []*Val) []Outcome {
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return in.builtin(fr, ps, b, cc, instr, args)
	}
	if cc.IsInvoke() {
		return in.invoke(fr, ps, cc, instr, fnv, args)
	}
	if fn := cc.StaticCallee(); fn != nil {
		var free []*Val
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			for _, b := range mc.Bindings {
				free = append(free, in.val(ps, b))
			}
			// a deferred or spawned closure is resolved by its value
			if len(fnv.refs) > 0 {
				return in.callValue(fr, ps, cc, instr, fnv, args)
			}
		}
		return in.callFn(fr, ps, fn, instr, args, free, cc)
	}
	return in.callValue(fr, ps, cc, instr, fnv, args)
}

func (in *Interp) callFn(fr *Frame, ps *PState, fn *ssa.Function, instr ssa.Instruction, args, free []*Val, cc *ssa.CallCommon) []Outcome {
	if in.isRepoFn(fn) {
		if outs, ok := in.client.Call(in, fr, ps, fn, args); ok {
			return outs
		}
		return in.call(fr, fn, args, free, ps.st, instr)
	}
	c := &ExtCall{Name: fn.String(), Instr: instr, Sig: fn.Signature, Args: args, Static: true, Key: siteID(instr) + "#" + fr.ctx}
	if o := fn.Object(); o != nil {
		c.Name = o.(*types.Func).FullName()
	}
	if cc != nil {
		c.ArgV = cc.Args
	}
	return in.extCall(fr, ps, c)
}

func (in *Interp) callValue(fr *Frame, ps *PState, cc *ssa.CallCommon, instr ssa.Instruction, fnv *Val, args []*Val) []Outcome {
	var outs []Outcome
	n := 0
	for _, l := range fnv.refs {
		switch l.o.kind {
		case objFunc, objClosure:
			n++
			s := &PState{st: ps.st.clone(), env: ps.env}
			outs = append(outs, in.callFn(fr, s, l.o.fn, instr, args, in.bindings(l.o), cc)...)
		default:
			n++
			s := &PState{st: ps.st.clone(), env: ps.env}
			c := &ExtCall{Name: "(func value)", Instr: instr, Sig: cc.Signature(), Recv: refVal(l), Args: args, ArgV: cc.Args, Key: siteID(instr) + "#" + fr.ctx}
			outs = append(outs, in.extCall(fr, s, c)...)
		}
	}
	if n == 0 && fnv.nl&mayNonNil != 0 && len(fnv.refs) == 0 {
		c := &ExtCall{Name: "(func value)", Instr: instr, Sig: cc.Signature(), Recv: fnv, Args: args, ArgV: cc.Args, Key: siteID(instr) + "#" + fr.ctx}
		outs = append(outs, in.extCall(fr, &PState{st: ps.st.clone(), env: ps.env}, c)...)
	}
	return mergeOuts(outs)
}

func mergeOuts(outs []Outcome) []Outcome {
	if len(outs) < 2 {
		return outs
	}
	idx := map[string]int{}
	var res []Outcome
	for _, o := range outs {
		k := o.st.key()
		for _, r := range o.res {
			k += fmt.Sprintf(",%d%d", r.nl, r.b)
		}
		if i, ok := idx[k]; ok && len(res[i].res) == len(o.res) {
			nr := make([]*Val, len(o.res))
			for j := range o.res {
				nr[j] = joinVal(res[i].res[j], o.res[j])
			}
			res[i] = Outcome{joinState(res[i].st, o.st), nr}
			continue
		}
		idx[k] = len(res)
		res = append(res, o)
	}
	return res
}

func (in *Interp) bindings(o *Obj) []*Val {
	var free []*Val
	for i := range o.fn.FreeVars {
		b := in.heapAt(o, fmt.Sprintf("$b%d", i))
		if b == nil {
			b = bottomVal
		}
		free = append(free, b)
	}
	return free
}

// invoke resolves an interface method call on the abstract receiver.
func (in *Interp) invoke(fr *Frame, ps *PState, cc *ssa.CallCommon, instr ssa.Instruction, recv *Val, args []*Val) []Outcome {
	var outs []Outcome
	for _, l := range recv.refs {
		s := &PState{st: ps.st.clone(), env: ps.env}
		if l.o.kind == objExt {
			c := &ExtCall{Name: cc.Method.FullName(), Instr: instr, Sig: cc.Signature(), Recv: &Val{refs: []Loc{l}, nl: mayNonNil, b: 3, labs: recv.labs, sym: recv.sym}, Args: args, ArgV: cc.Args, Key: siteID(instr) + "#" + fr.ctx}
			outs = append(outs, in.extCall(fr, s, c)...)
			continue
		}
		fn, rv := in.lookupMethod(s.st, l, cc.Method)
		if fn == nil {
			continue
		}
		outs = append(outs, in.callFn(fr, s, fn, instr, append([]*Val{rv}, args...), nil, nil)...)
	}
	if len(recv.refs) == 0 && recv.nl&mayNonNil != 0 {
		c := &ExtCall{Name: cc.Method.FullName(), Instr: instr, Sig: cc.Signature(), Recv: recv, Args: args, ArgV: cc.Args, Key: siteID(instr) + "#" + fr.ctx}
		outs = append(outs, in.extCall(fr, ps, c)...)
	}
	return mergeOuts(outs)
}

func (in *Interp) lookupMethod(st *State, l Loc, m *types.Func) (*ssa.Function, *Val) {
	dt := in.dynTypes(l)
	if dt == nil {
		return nil, nil
	}
	sel := in.p.SSA.MethodSets.MethodSet(dt).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil, nil
	}
	fn := in.p.SSA.MethodValue(sel)
	if fn == nil {
		return nil, nil
	}
	if l.o.kind == objBox {
		return fn, in.load(st, l, l.o.typ)
	}
	return fn, refVal(l)
}

func (in *Interp) one(ps *PState, res ...*Val) []Outcome {
	return []Outcome{{ps.st, res}}
}

func (in *Interp) builtin(fr *Frame, ps *PState, b *ssa.Builtin, cc *ssa.CallCommon, instr ssa.Instruction, args []*Val) []Outcome {
	switch b.Name() {
	case "append":
		var et types.Type
		if s, ok := cc.Args[0].Type().Underlying().(*types.Slice); ok {
			et = s.Elem()
		}
		o := in.obj(objAlloc, "append:"+siteID(instr)+"#"+fr.ctx, in.shortName("append", instr, cc.Args[0].Type()), cc.Args[0].Type())
		o.site, o.ctx = instr, fr.ctx
		fresh := true
		for _, l := range args[0].refs {
			if l.o == o {
				fresh = false
			}
		}
		if fresh {
			ps.st.own(o)
		}
		dst := append([]Loc{{o, ""}}, args[0].refs...)
		var elem *Val
		for _, l := range args[0].refs {
			if l.o != o {
				in.access(fr, ps, Loc{l.o, l.p + "[]"}, false, instr, "append")
				elem = joinVal(elem, in.elem(ps.st, l, et))
			}
		}
		if elem != nil {
			in.storeVal(ps.st, Loc{o, "[]"}, elem, et)
		}
		var add *Val
		if len(args) > 1 {
			if _, isStr := cc.Args[1].Type().Underlying().(*types.Basic); isStr {
				add = topVal
			}
			for _, l := range args[1].refs {
				in.access(fr, ps, Loc{l.o, l.p + "[]"}, false, instr, "append")
				add = joinVal(add, in.elem(ps.st, l, et))
			}
		}
		if add != nil {
			for _, l := range dst {
				in.access(fr, ps, Loc{l.o, l.p + "[]"}, true, instr, "append")
				in.storeVal(ps.st, Loc{l.o, l.p + "[]"}, add, et)
			}
		}
		r := refVal(dst...)
		if args[0].nl&mayNil != 0 {
			r.nl = 3
		}
		r.labs = args[0].labs
		if len(args) > 1 {
			r.labs = unionStr(r.labs, args[1].labs)
		}
		return in.one(ps, r)
	case "copy":
		var et types.Type
		if s, ok := cc.Args[0].Type().Underlying().(*types.Slice); ok {
			et = s.Elem()
		}
		var v *Val
		for _, l := range args[1].refs {
			in.access(fr, ps, Loc{l.o, l.p + "[]"}, false, instr, "copy")
			v = joinVal(v, in.elem(ps.st, l, et))
		}
		for _, l := range args[0].refs {
			in.access(fr, ps, Loc{l.o, l.p + "[]"}, true, instr, "copy")
			if v != nil {
				in.storeVal(ps.st, Loc{l.o, l.p + "[]"}, v, et)
			}
		}
		return in.one(ps, topVal)
	case "delete", "clear":
		for _, l := range args[0].refs {
			in.access(fr, ps, Loc{l.o, l.p + "[]"}, true, instr, b.Name())
		}
		return in.one(ps)
	case "len", "cap":
		if len(args) == 1 {
			if _, ok := cc.Args[0].Type().Underlying().(*types.Map); ok {
				for _, l := range args[0].refs {
					in.access(fr, ps, Loc{l.o, l.p + "[]"}, false, instr, "len")
				}
			}
			r := topVal
			if args[0].nl == mayNil && len(args[0].refs) == 0 && args[0].fields == nil {
				if _, ok := cc.Args[0].Type().Underlying().(*types.Basic); !ok {
					return in.one(ps, &Val{nl: 3, b: 3, cst: constant.MakeInt64(0)})
				}
			}
			if args[0].sym != "" {
				r = &Val{nl: 3, b: 3, num: &numInfo{"len(" + args[0].sym + ")", 1}}
			}
			return in.one(ps, r)
		}
		return in.one(ps, topVal)
	case "close":
		for _, l := range args[0].refs {
			in.chanClosed[l.o] = true
		}
		in.event(fr, ps, &Event{Kind: "close", Vals: args}, instr)
		for _, l := range args[0].refs {
			ps.st = ps.st.withFacts(fmt.Sprintf("closed:%d", l.o.id)).clone()
		}
		return in.one(ps)
	case "recover":
		return in.one(ps, topVal)
	case "print", "println":
		in.event(fr, ps, &Event{Kind: "ext", Detail: "print"}, instr)
		return in.one(ps)
	case "ssa:wrapnilchk":
		return in.one(ps, args[0])
	}
	n := 0
	if r := cc.Signature().Results(); r != nil {
		n = r.Len()
	}
	res := make([]*Val, n)
	for i := range res {
		res[i] = topVal
	}
	return in.one(ps, res...)
}

func (in *Interp) elem(st *State, l Loc, et types.Type) *Val {
	if et == nil {
		return topVal
	}
	return in.load(st, Loc{l.o, l.p + "[]"}, et)
}

// ---------------------------------------------------------------- driver

// Root adds an entry point that runs as its own thread.
func (in *Interp) Root(id, name string, multi bool, run func(in *Interp, th *Thread)) {
	th := &Thread{id: id, name: name, multi: multi, run: run, root: true}
	in.threads[id] = th
	in.order = append(in.order, id)
}

// Solve iterates the interpretation of all threads until the heap is stable; events are those
// of the last round.
func (in *Interp) Solve() {
	for in.rounds = 1; in.rounds <= 40; in.rounds++ {
		in.changed = false
		in.events = nil
		in.evKeys = map[string]bool{}
		in.memo = map[string][]Outcome{}
		if in.onRound != nil {
			in.onRound()
		}
		for i := 0; i < len(in.order); i++ {
			th := in.threads[in.order[i]]
			th.run(in, th)
		}
		if !in.changed {
			return
		}
	}
	in.problem("the abstract heap didn't stabilise")
}

// runInit interprets the package initialisers of the repository.
func (in *Interp) runInit(th *Thread) {
	fr := &Frame{th: th, ctx: "init"}
	for _, pk := range in.p.Pkgs {
		sp := in.p.ByPth[pk.PkgPath]
		if f := sp.Func("init"); f != nil && f.Blocks != nil {
			fr.fn = f
			in.call(fr, f, nil, nil, emptyState(), nil)
		}
	}
}
