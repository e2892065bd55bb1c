package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C17", Rule: "element-flow analysis of the path from a query's result to what the user sees: each series, point, sample and label is followed by name through every loop; on every path of every round it ends up, unaltered, in the output, the chart's data or the key, and only what can't be drawn is left out", Run: runC17})
}

const promqlPkg = "github.com/prometheus/prometheus/promql"

func isResultPtr(t types.Type) bool {
	pt, ok := t.Underlying().(*types.Pointer)
	return ok && isNamed(pt.Elem(), promqlPkg, "Result")
}

func isPlot(t types.Type, name string) bool { return isNamed(t, modPath+"/promq/term/plot", name) }

// failing: nothing is returned, with what must have been an error: only a plain nil says otherwise.
func failing(o Outcome) bool {
	none := o.res[0].nl == mayNil && len(o.res[0].refs) == 0
	plain := o.res[1].nl == mayNil && len(o.res[1].refs) == 0
	return none && !plain
}

func resultParam(fn *ssa.Function) int {
	for i, pa := range fn.Params {
		if isResultPtr(pa.Type()) {
			return i
		}
	}
	return -1
}

// repoFns: the functions of a package that have bodies, methods excepted.
func (p *Program) repoFns(rel string) []*ssa.Function {
	var out []*ssa.Function
	sp := p.pkg(rel)
	if sp == nil {
		return nil
	}
	for _, fn := range p.Funcs {
		if fn.Pkg == sp && fn.Parent() == nil && fn.Signature.Recv() == nil {
			out = append(out, fn)
		}
	}
	return out
}

// resultRoot analyses calls with a result that holds an error, and with one that holds none.
func resultRoot(in *Interp, fn *ssa.Function, ri int, done func(fr *Frame, o Outcome)) {
	for _, err := range []string{"errs", "fine"} {
		id := "fn:" + fn.String() + ":" + err
		fact := "res:" + err
		in.Root(id, "a call of "+fnName(fn), false, func(in *Interp, th *Thread) {
			fr := &Frame{th: th, ctx: id}
			st := emptyState().withFacts(fact)
			args := make([]*Val, len(fn.Params))
			for i, pa := range fn.Params {
				args[i] = in.outside(st, fmt.Sprintf("%s:%d", id, i), pa.Type())
			}
			args[ri] = named(in, args[ri], "&res", "", nil, 0)
			for _, o := range in.call(fr, fn, args, nil, st, nil) {
				done(fr, o)
			}
		})
	}
}

// resultErr: whether the result holds an error is known.
func resultErr(ps *PState, i ssa.Instruction) {
	v, ok := i.(ssa.Value)
	if !ok || ps.env[v] == nil || ps.env[v].sym != "res.Err" || !isErrorType(v.Type()) {
		return
	}
	if ps.st.has("res:fine") {
		ps.env[v] = nilVal
	} else if ps.st.has("res:errs") {
		n := *ps.env[v]
		n.nl = mayNonNil
		ps.env[v] = &n
	}
}

// ---------------------------------------------------------------- results to series

type convertClient struct {
	flowClient
	fp     *flowProblems
	point  *types.Interface
	series *types.Interface
	paths  map[string]string // "(type).Method" to the part that it returns
	kepts  map[string]bool
	owners []owner
}

// owner is a series that was kept, and the objects that its points were added to so far.
type owner struct {
	pos string
	v   *Val
	t   types.Type
}

func (c *convertClient) Ext(in *Interp, fr *Frame, ps *PState, x *ExtCall) ([]Outcome, bool) {
	switch {
	case strings.HasSuffix(x.Name, "promql.Result).Matrix"):
		r := in.extResults(fr, ps, x, false)
		return madeOrNot(ps, named(in, r[0], "matrix", "", nil, 0)), true
	}
	c.label(ps, x.Args)
	if len(x.ArgV) > 0 {
		c.label(ps, variadicVals(in, ps, x.ArgV[len(x.ArgV)-1], x.Instr.Block()))
	}
	c.dropCells(in, ps, x.Args)
	return nil, false
}

func (c *convertClient) After(in *Interp, fr *Frame, ps *PState, instr ssa.Instruction) {
	c.flowClient.After(in, fr, ps, instr)
	resultErr(ps, instr)
}

// madeOrNot: the call gives this, or an error; the paths stay apart.
func madeOrNot(ps *PState, v *Val) []Outcome {
	setFacts(ps, nil, func(f string) bool { return f == "made" || f == "unmade" })
	return okOrFail(ps, []string{"made"}, []string{"unmade"}, []*Val{v}, []*Val{nilVal})
}

// label: label values that are handed on.
func (c *convertClient) label(ps *PState, args []*Val) {
	for _, a := range args {
		if l, part := elLoop(a.sym); l != "" && part == ".Value" {
			c.give(ps, l, "label")
		}
	}
}

func (c *convertClient) sinkAt(in *Interp, fr *Frame, ps *PState, i ssa.Instruction) {
	if b, ok := i.(*ssa.BinOp); ok && isStringish(b.Type()) {
		c.label(ps, []*Val{in.val(ps, b.X), in.val(ps, b.Y)})
	}
	if e := c.keptElem(in, ps, i, isStringish); e != nil {
		c.label(ps, []*Val{e})
	}
	pos := in.p.instrPos(i)
	impl := func(it *types.Interface) func(types.Type) bool {
		return func(t types.Type) bool {
			_, isI := t.Underlying().(*types.Interface)
			return isI && types.Implements(t, it)
		}
	}
	if e := c.keptElem(in, ps, i, impl(c.point)); e != nil {
		l := ""
		for _, ref := range e.refs {
			t := in.dynTypes(ref)
			v := e
			if ref.o.kind == objBox {
				v = in.load(ps.st, ref, ref.o.typ)
			}
			x, y := c.part(in, ps, e, v, t, "X"), c.part(in, ps, e, v, t, "Y")
			lx, px := elLoop(x)
			ly, py := elLoop(y)
			if lx == "" || lx != ly || px != ".T" || py != ".V" {
				c.fp.bad("points are altered", pos, fnName(fr.fn), "the point that is kept doesn't have the time and value of the result's point")
				return
			}
			l = lx
		}
		if st, ok := i.(*ssa.Store); ok && !c.ownSlot(fr, st, l) {
			c.fp.bad("points are lost", pos, fnName(fr.fn), "the point isn't put into a place of its own")
			return
		}
		c.keep(in, fr, ps, i)
		c.kepts[pos] = true
		c.give(ps, l, "point")
		return
	}
	if e := c.keptElem(in, ps, i, impl(c.series)); e != nil {
		for _, l := range c.loopsOf(fr.fn) {
			if !l.body[i.Block()] || !isNamed(collElem(l.coll.Type()), promqlPkg, "Series") {
				continue
			}
			if st, ok := i.(*ssa.Store); ok && !c.ownSlot(fr, st, l.id) {
				c.fp.bad("series are lost", pos, fnName(fr.fn), "the series isn't put into a place of its own")
				return
			}
			if ps.st.has("got:" + l.id + ":series") {
				c.fp.bad("a series is kept twice", pos, fnName(fr.fn), "")
			}
			c.keep(in, fr, ps, i)
			c.kepts[pos] = true
			c.give(ps, l.id, "series")
			c.owners = append(c.owners, owner{pos, e, nil})
			return
		}
	}
}

// part names what the given method of a point returns.
func (c *convertClient) part(in *Interp, ps *PState, e, v *Val, t types.Type, method string) string {
	if t == nil {
		return ""
	}
	path, ok := c.paths["("+types.TypeString(t, nil)+")."+method]
	if !ok {
		return ""
	}
	if e.sym != "" {
		return e.sym + path
	}
	for path != "" && v != nil {
		if f, ok := v.fields[path]; ok {
			return f.sym
		}
		break
	}
	for _, n := range in.names(ps.st, e, 2) {
		if n.path == path {
			return n.sym
		}
	}
	return ""
}

// accessClient finds out which part of its receiver a method returns.
func (p *Program) accessPaths(it *types.Interface) map[string]string {
	out := map[string]string{}
	c := &convertClient{flowClient: newFlow(p), fp: &flowProblems{seen: map[string]bool{}}}
	c.elem = func(types.Type) bool { return false }
	c.interesting = func(n string) bool { return strings.HasPrefix(n, "recv") }
	in := newInterp(p, c)
	for _, t := range p.implementers(it) {
		for i := 0; i < it.NumMethods(); i++ {
			m := it.Method(i).Name()
			f := p.method(t, m)
			if f == nil || f.Blocks == nil {
				continue
			}
			key := "(" + types.TypeString(t, nil) + ")." + m
			fnRoot(in, f, func(st *State, args []*Val) *State {
				s := "recv"
				if _, ok := t.Underlying().(*types.Pointer); ok {
					s = "&recv"
				}
				args[0] = named(in, args[0], s, "", nil, 0)
				return st
			}, func(fr *Frame, o Outcome) {
				if len(o.res) == 1 && strings.HasPrefix(o.res[0].sym, "recv") {
					out[key] = o.res[0].sym[4:]
				} else {
					delete(out, key)
				}
			})
		}
	}
	in.Solve()
	return out
}

func runConvert(p *Program, r *Report, fp *flowProblems) {
	c := &convertClient{flowClient: newFlow(p, "series", "points", "labels", "point", "label"), fp: fp}
	c.point, c.series = p.lookupIface(modPath+"/promq/term/plot", "Point"), p.lookupIface(modPath+"/promq/term/plot", "Series")
	if c.point == nil || c.series == nil {
		r.undecided("the chart's data", "plot.Point or plot.Series is gone")
		return
	}
	c.paths = p.accessPaths(c.point)
	for k, v := range p.accessPaths(c.series) {
		c.paths[k] = v
	}
	c.elem = func(t types.Type) bool {
		return isNamed(t, promqlPkg, "Series") || isNamed(t, promqlPkg, "Point") || isNamed(t, labelsPkg, "Label")
	}
	c.sink = c.sinkAt
	c.interesting = func(n string) bool { return strings.HasPrefix(n, "el:") }
	whole := func(coll string) bool { return coll == "matrix" || coll == "res.Value" }
	c.wantTotal = func(coll, kind string) bool {
		switch kind {
		case "point":
			return strings.HasSuffix(coll, "|.Points")
		case "label":
			return strings.HasSuffix(coll, "|.Metric")
		}
		return whole(coll)
	}
	c.total = func(in *Interp, fr *Frame, ps *PState, l *loopInfo, coll, kind string) {
		if el, part := elLoop(coll); el != "" && part == ".Points" && kind == "point" {
			c.give(ps, el, "points")
		} else if el != "" && part == ".Metric" && kind == "label" {
			c.give(ps, el, "labels")
		}
	}
	in := newInterp(p, c)
	n := 0
	var returned, need map[*ssa.Function]bool
	in.onRound = func() {
		n = 0
		fp.reset()
		c.reset()
		returned, need = map[*ssa.Function]bool{}, map[*ssa.Function]bool{}
		c.kepts, c.owners = map[string]bool{}, nil
	}
	in.Root("setup", "the set-up", false, func(in *Interp, th *Thread) { in.runInit(th) })
	for _, fn := range p.repoFns("cmd/metrics") {
		fn := fn
		ri := resultParam(fn)
		res := fn.Signature.Results()
		if ri < 0 || res.Len() != 2 || !isPlot(res.At(0).Type(), "SeriesSet") || !isErrorType(res.At(1).Type()) {
			continue
		}
		resultRoot(in, fn, ri, func(fr *Frame, o Outcome) {
			if o.res[1].nl&mayNil == 0 || failing(o) {
				return
			}
			n++
			need[fn] = true
			pos := p.position(fn.Pos())
			ps := &PState{st: o.st}
			text := map[string]string{"series": "a series of its own", "points": "all of its points", "labels": "all of its labels' values in its title"}
			for _, k := range []string{"series", "points", "labels"} {
				if !c.ran(ps, "matrix", k) && !c.ran(ps, "res.Value", k) {
					inner := map[string]string{"points": "point", "labels": "label"}[k]
					fp.bad("series or points are lost", pos, fnName(fn), "it may return without an error, but without every series of the result having "+text[k]+lostAt(c.lost, k)+lostAt(c.lost, inner))
				}
			}
			for _, l := range o.res[0].refs {
				returned[fn] = returned[fn] || c.kept[l.o]
			}
		})
	}
	in.Solve()
	c.keeping(in, fp, returned, need)
	// what a series gives as its points is what they were added to
	for _, ow := range c.owners {
		for _, l := range ow.v.refs {
			t := in.dynTypes(l)
			path, ok := "", false
			if t != nil {
				path, ok = c.paths["("+types.TypeString(t, nil)+").Points"]
			}
			if !ok {
				fp.bad("points are lost", ow.pos, "-", "it can't be told which points the series has")
				continue
			}
			v, found := in.heapAt(l.o, l.p+path), false
			if v != nil {
				for _, q := range v.refs {
					found = found || c.kept[q.o]
				}
			}
			if !found {
				fp.bad("points are lost", ow.pos, "-", "the series' points are not what the result's points were added to")
			}
			tp, ok := c.paths["("+types.TypeString(t, nil)+").Title"]
			if v := in.heapAt(l.o, l.p+tp); !ok || v == nil || v.cst != nil {
				fp.bad("titles are lost", ow.pos, "-", "the series' title isn't what was put together from its labels")
			}
			ip, ok := c.paths["("+types.TypeString(t, nil)+").Id"]
			if !ok {
				fp.bad("undecided", ow.pos, "-", "it can't be told how a series gets its number")
			} else {
				c.checkID(t, ip)
			}
		}
	}
	fp.report(r)
	r.atLeast("successful_ends_of_conversions", n, 1)
	r.atLeast("places_where_series_or_points_are_kept", len(c.kepts), 2)
	for o := range c.odd {
		r.undecided("a loop over a result", o+" is not understood")
	}
	in.finish(r)
}

// checkID: all series numbers stored in that part are other than the one for no series.
func (c *convertClient) checkID(t types.Type, path string) {
	name := strings.TrimPrefix(path, ".")
	st := deref(t)
	n := 0
	for _, fn := range c.p.Funcs {
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				s, ok := i.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || !types.Identical(deref(fa.X.Type()), st) || fieldName(st, fa.Field) != name {
					continue
				}
				n++
				if lo, _, ok := uintRange(s.Val, 0); !ok || lo == 0 {
					c.fp.bad("a series may be invisible", c.p.instrPos(i), fnName(fn), "the series may get the number that stands for no series")
				}
			}
		}
	}
	if n == 0 {
		c.fp.bad("a series may be invisible", "-", typeStr(t), "series get no number of their own")
	}
}

// uintRange bounds an unsigned value.
func uintRange(v ssa.Value, d int) (lo, hi uint64, ok bool) {
	size := func(t types.Type) (uint64, bool) {
		b, ok := t.Underlying().(*types.Basic)
		if !ok || b.Info()&types.IsUnsigned == 0 {
			return 0, false
		}
		switch b.Kind() {
		case types.Uint8:
			return 1<<8 - 1, true
		case types.Uint16:
			return 1<<16 - 1, true
		case types.Uint32:
			return 1<<32 - 1, true
		}
		return 1<<64 - 1, true
	}
	max, isU := size(v.Type())
	if d > 12 {
		return 0, max, isU
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.Int {
			n, ok := constant.Uint64Val(x.Value)
			return n, n, ok
		}
	case *ssa.Convert:
		lo, hi, ok := uintRange(x.X, d+1)
		if ok && isU && hi <= max {
			return lo, hi, true
		}
	case *ssa.ChangeType:
		return uintRange(x.X, d+1)
	case *ssa.Phi:
		first := true
		for _, e := range x.Edges {
			l, h, o := uintRange(e, d+1)
			if !o {
				return 0, max, isU
			}
			if first || l < lo {
				lo = l
			}
			if first || h > hi {
				hi = h
			}
			first = false
		}
		return lo, hi, true
	case *ssa.Call:
		fn := x.Call.StaticCallee()
		if fn == nil || fn.Blocks == nil {
			break
		}
		first := true
		for _, b := range fn.Blocks {
			if rt, isR := b.Instrs[len(b.Instrs)-1].(*ssa.Return); isR && len(rt.Results) == 1 {
				l, h, o := uintRange(rt.Results[0], d+1)
				if !o {
					return 0, max, isU
				}
				if first || l < lo {
					lo = l
				}
				if first || h > hi {
					hi = h
				}
				first = false
			}
		}
		if !first {
			return lo, hi, true
		}
	case *ssa.BinOp:
		al, ah, ok1 := uintRange(x.X, d+1)
		bl, bh, ok2 := uintRange(x.Y, d+1)
		if !ok1 || !ok2 || !isU {
			break
		}
		switch x.Op.String() {
		case "+":
			if ah <= max-bh {
				return al + bl, ah + bh, true
			}
		case "%":
			if bl == bh && bl > 0 {
				if ah < bl {
					return al, ah, true
				}
				return 0, bl - 1, true
			}
		case "|":
			if al > bl {
				return al, max, true
			}
			return bl, max, true
		case "&":
			if bh < ah {
				return 0, bh, true
			}
			return 0, ah, true
		}
	}
	return 0, max, isU
}

// ---------------------------------------------------------------- results to text

// formatClient follows a result into text: "out:whole" names text that holds all of it.
type formatClient struct {
	flowClient
	fp     *flowProblems
	makes  map[string]bool
	before map[*Obj]bool // what was kept in earlier rounds of the analysis
}

const wholeText = "out:whole"

func (c *formatClient) wholeStr(in *Interp, v *Val) *Val { return named(in, v, wholeText, "", nil, 0) }

func (c *formatClient) Ext(in *Interp, fr *Frame, ps *PState, x *ExtCall) ([]Outcome, bool) {
	pos, where := in.p.instrPos(x.Instr), fnName(fr.fn)
	var results []string
	for _, a := range x.Args {
		results = append(results, a.sym)
	}
	marshal := strings.HasPrefix(x.Name, "encoding/json.Marshal") || strings.HasPrefix(x.Name, "gopkg.in/yaml") && strings.HasSuffix(x.Name, ".Marshal") || strings.HasSuffix(x.Name, "Formatter).Marshal") || strings.HasPrefix(x.Name, "sigs.k8s.io/yaml.Marshal")
	switch {
	case marshal:
		r := in.extResults(fr, ps, x, false)
		c.makes[pos] = true
		if hasStr(results, "res.Value") {
			r[0] = c.wholeStr(in, r[0])
		} else {
			c.fp.bad("results are cut short", pos, where, "something other than the whole value of the result is put out")
		}
		return madeOrNot(ps, r[0]), true
	case strings.HasSuffix(x.Name, "promql.Result).String"), (strings.HasSuffix(x.Name, "promql.Vector).String") || strings.HasSuffix(x.Name, "parser.Value).String")) && (hasStr(results, "res.Value") || x.Recv != nil && x.Recv.sym == "res.Value"):
		c.makes[pos] = true
		return in.one(ps, c.wholeStr(in, topVal)), true
	case x.Name == "github.com/golang/protobuf/proto.String":
		o := in.obj(objAlloc, "protostring:"+x.Key, "proto.String@"+pos, types.Typ[types.String])
		ps.st.own(o)
		in.heapJoin(o, "", x.Args[0])
		c.putCell(in, ps, Loc{o, ""}, x.Args[0])
		return in.one(ps, refVal(Loc{o, ""})), true
	case strings.HasPrefix(x.Name, "("+labelsPkg+".Labels)."):
		l, part := elLoop(x.Args[0].sym)
		if l == "" || part != ".Metric" {
			break
		}
		m := strings.TrimPrefix(x.Name, "("+labelsPkg+".Labels).")
		r := in.extResults(fr, ps, x, false)
		on := len(x.Args) > 1 && x.Args[1].cst != nil && x.Args[1].cst.Kind() == constant.Bool && constant.BoolVal(x.Args[1].cst)
		switch {
		case m == "Get" && isName(x.Args[1]):
			// the name, or nothing
			a := Outcome{ps.st.withFacts("name:" + l).clone(), []*Val{{nl: 3, b: 3, labs: []string{"!elname:" + l}, sym: "nonempty"}}}
			b := Outcome{ps.st.withFacts("noname:" + l).clone(), []*Val{{nl: 3, b: 3, cst: constant.MakeString("")}}}
			return []Outcome{a, b}, true
		case m == "MatchLabels" && on && len(x.Args) == 3 && c.onlyName(in, ps, x.Args[2]):
			o := in.obj(objExt, "name:"+x.Key, "the sample's name", nil)
			a := Outcome{ps.st.withFacts("name:" + l).clone(), []*Val{{refs: []Loc{{o, ""}}, nl: mayNonNil, b: 3, labs: []string{"!elname:" + l}, sym: "names:" + l}}}
			b := Outcome{ps.st.withFacts("noname:" + l).clone(), []*Val{nilVal}}
			a.st.setSpan("len(names:"+l+")", span{1, 1, nil})
			return []Outcome{a, b}, true
		case (m == "WithoutLabels" || m == "MatchLabels" && !on) && c.onlyName(in, ps, x.Args[len(x.Args)-1]):
			r[0] = named(in, r[0], "el:"+l+"|.Metric", "el:"+l, nil, 0)
			return in.one(ps, r...), true
		case m == "Copy":
			r[0] = named(in, r[0], x.Args[0].sym, "el:"+l, nil, 0)
			return in.one(ps, r...), true
		case x.Sig.Results().Len() == 1 && isNamed(x.Sig.Results().At(0).Type(), labelsPkg, "Labels"):
			c.fp.bad("labels are lost", pos, where, "other labels than the metric's name are taken away")
		}
		if m == "String" {
			return in.one(ps, (&Val{nl: 3, b: 3}).withLab("!elmetric:"+l)), true
		}
	case strings.HasSuffix(x.Name, "promql.Sample).String") && len(x.Args) == 1:
		if l := c.sampleOf(in, ps, x); l != "" {
			return in.one(ps, (&Val{nl: 3, b: 3}).withLab("!elmetric:"+l).withLab("!elpoint:"+l)), true
		}
	case strings.HasSuffix(x.Name, "promql.Point).String") && len(x.Args) == 1:
		if l, part := elLoop(x.Args[0].sym); l != "" && (part == "" || part == ".Point") {
			return in.one(ps, (&Val{nl: 3, b: 3}).withLab("!elpoint:"+l)), true
		}
	case x.Name == "strings.Join":
		if len(x.Args) == 2 && c.collected(ps, x.Args[0]) {
			c.makes[pos] = true
			return in.one(ps, c.wholeStr(in, topVal)), true
		}
	case strings.HasPrefix(x.Name, "(*strings.Builder).Write"), strings.HasPrefix(x.Name, "(*bytes.Buffer).Write"), strings.HasPrefix(x.Name, "fmt.Fprint"):
		// lines written one by one
		var labs []string
		for _, a := range append(c.variadic(in, ps, x), x.Args[1:]...) {
			labs = unionStr(labs, a.labs)
		}
		for _, f := range labs {
			if l := strings.TrimPrefix(f, "!elmetric:"); l != f {
				setFacts(ps, []string{"wrote:metric:" + l}, nil)
			}
			if l := strings.TrimPrefix(f, "!elpoint:"); l != f {
				setFacts(ps, []string{"wrote:point:" + l}, nil)
			}
			if l := strings.TrimPrefix(f, "!elname:"); l != f {
				setFacts(ps, []string{"wrote:name:" + l}, nil)
			}
			l := f[strings.IndexByte(f, ':')+1:]
			if ps.st.has("wrote:metric:"+l) && ps.st.has("wrote:point:"+l) && (ps.st.has("noname:"+l) || ps.st.has("wrote:name:"+l)) {
				c.give(ps, l, "line")
			}
		}
		for _, o := range x.Args[0].refs {
			if labs != nil {
				c.kept[o.o], c.carried[o.o] = true, true
			}
		}
		for _, a := range x.Args[1:] {
			if a.sym == wholeText {
				for _, o := range x.Args[0].refs {
					setFacts(ps, []string{fmt.Sprintf("holds:%d", o.o.id)}, nil)
				}
			}
		}
	case strings.HasSuffix(x.Name, "strings.Builder).String"), strings.HasSuffix(x.Name, "bytes.Buffer).String"), strings.HasSuffix(x.Name, "bytes.Buffer).Bytes"):
		if c.collected(ps, x.Args[0]) || len(x.Args[0].refs) == 1 && ps.st.has(fmt.Sprintf("holds:%d", x.Args[0].refs[0].o.id)) {
			c.makes[pos] = true
			r := in.extResults(fr, ps, x, false)
			return in.one(ps, c.wholeStr(in, r[0])), true
		}
	case strings.HasPrefix(x.Name, "fmt.Sprint") || x.Name == "fmt.Sprintln":
		var labs []string
		for _, a := range c.variadic(in, ps, x) {
			labs = unionStr(labs, a.labs)
		}
		if labs != nil {
			return in.one(ps, &Val{nl: 3, b: 3, labs: labs}), true
		}
		// text that's put around it doesn't matter
		for _, a := range x.Args {
			for _, l := range a.refs {
				if v := in.elem(ps.st, l, types.NewInterfaceType(nil, nil)); v != nil && v.sym == wholeText {
					return in.one(ps, c.wholeStr(in, topVal)), true
				}
			}
		}
	}
	return nil, false
}

// variadic gives the values that are handed on as the call's last arguments.
func (c *formatClient) variadic(in *Interp, ps *PState, x *ExtCall) []*Val {
	if len(x.ArgV) == 0 {
		return nil
	}
	return variadicVals(in, ps, x.ArgV[len(x.ArgV)-1], x.Instr.Block())
}

func variadicVals(in *Interp, ps *PState, arg ssa.Value, b *ssa.BasicBlock) []*Val {
	sl, ok := arg.(*ssa.Slice)
	if !ok {
		return nil
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	var out []*Val
	for _, ref := range *al.Referrers() {
		ia, ok := ref.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		for _, r := range *ia.Referrers() {
			st, ok := r.(*ssa.Store)
			if !ok || st.Block() != b {
				continue
			}
			v := st.Val
			if mi, ok := v.(*ssa.MakeInterface); ok {
				v = mi.X
			}
			out = append(out, in.val(ps, v))
		}
	}
	return out
}

// collected: lines of all samples were added to it.
func (c *formatClient) collected(ps *PState, v *Val) bool {
	if !c.ran(ps, "res.Value", "line") {
		return false
	}
	for _, l := range v.refs {
		if c.kept[l.o] || c.before[l.o] {
			return true
		}
	}
	// nothing to collect
	sp, ok := ps.st.spans["len(res.Value)"]
	return len(v.refs) == 0 && (v.nl == mayNil || ok && sp.hi <= 0)
}

func isName(v *Val) bool {
	return v.cst != nil && v.cst.Kind() == constant.String && constant.StringVal(v.cst) == "__name__"
}

// onlyName: the list of names holds nothing but the metric's name.
func (c *formatClient) onlyName(in *Interp, ps *PState, v *Val) bool {
	for _, l := range v.refs {
		if !isName(in.elem(ps.st, l, types.Typ[types.String])) {
			return false
		}
	}
	return true
}

// sampleOf: the loop whose sample (with or without its metric's name) this is.
func (c *formatClient) sampleOf(in *Interp, ps *PState, x *ExtCall) string {
	v := x.Args[0]
	if l, part := elLoop(v.sym); l != "" && part == "" {
		return l
	}
	at := map[string]string{}
	for k, f := range v.fields {
		at[k] = f.sym
	}
	if len(x.ArgV) > 0 {
		if ld, ok := x.ArgV[0].(*ssa.UnOp); ok && ld.Op == token.MUL {
			if a := in.val(ps, ld.X); len(a.refs) == 1 {
				pre := fmt.Sprintf("cell:%d:%s", a.refs[0].o.id, a.refs[0].p)
				for _, f := range ps.st.facts {
					if i := strings.IndexByte(f, '='); i >= len(pre) && strings.HasPrefix(f, pre) {
						at[f[len(pre):i]] = f[i+1:]
					}
				}
			}
		}
	}
	l := ""
	for _, f := range []string{".Metric", ".Point"} {
		y, part := elLoop(at[f])
		if y == "" || part != f || l != "" && l != y {
			return ""
		}
		l = y
	}
	return l
}

func (c *formatClient) After(in *Interp, fr *Frame, ps *PState, instr ssa.Instruction) {
	v, ok := instr.(ssa.Value)
	old := ""
	if cv, isC := instr.(*ssa.Convert); isC {
		old = in.val(ps, cv.X).sym
	}
	c.flowClient.After(in, fr, ps, instr)
	resultErr(ps, instr)
	if !ok {
		return
	}
	switch x := instr.(type) {
	case *ssa.IndexAddr:
		if s := in.val(ps, x.X).sym; strings.HasPrefix(s, "names:") && ps.env[v] != nil {
			n := *ps.env[v]
			n.sym = "&" + s
			ps.env[v] = &n
		}
	case *ssa.FieldAddr:
		if s := in.val(ps, x.X).sym; strings.HasPrefix(s, "&names:") && ps.env[v] != nil && fieldName(deref(x.X.Type()), x.Field) == "Value" {
			n := *ps.env[v]
			n.sym = s + ".Value"
			ps.env[v] = &n
		}
	case *ssa.UnOp:
		if s := in.val(ps, x.X).sym; x.Op == token.MUL && strings.HasPrefix(s, "&names:") && strings.HasSuffix(s, ".Value") && ps.env[v] != nil {
			l := strings.TrimSuffix(strings.TrimPrefix(s, "&names:"), ".Value")
			ps.env[v] = ps.env[v].withLab("!elname:" + l)
		}
	case *ssa.Slice:
		// a part of a text doesn't have to show all that the text shows
		if n := ps.env[v]; n != nil && isStringish(x.Type()) && (x.Low != nil || x.High != nil) {
			n = n.clone()
			n.labs = mayLabs(n.labs)
			if n.sym == wholeText {
				n.sym = ""
			}
			ps.env[v] = n
		}
	case *ssa.Convert:
		if old == wholeText && ps.env[v] != nil {
			ps.env[v] = c.wholeStr(in, ps.env[v])
		}
	case *ssa.BinOp:
		if isStringish(x.Type()) && (in.val(ps, x.X).sym == wholeText || in.val(ps, x.Y).sym == wholeText) {
			ps.env[v] = c.wholeStr(in, ps.env[v])
		}
		if in.val(ps, x.X).sym == "nonempty" || in.val(ps, x.Y).sym == "nonempty" {
			for _, o := range []*Val{in.val(ps, x.X), in.val(ps, x.Y)} {
				if o.cst != nil && o.cst.Kind() == constant.String && constant.StringVal(o.cst) == "" {
					b := uint8(mayFalse)
					if x.Op.String() == "!=" {
						b = mayTrue
					}
					ps.env[v] = &Val{nl: 3, b: b}
				}
			}
		}
	}
}

func (c *formatClient) sinkAt(in *Interp, fr *Frame, ps *PState, i ssa.Instruction) {
	if mt, ok := i.(*ssa.Store); ok {
		if v := in.val(ps, mt.Val); v.sym == wholeText {
			if a := in.val(ps, mt.Addr); len(a.refs) == 1 {
				c.putCell(in, ps, a.refs[0], v)
			}
		}
	}
	e := c.keptElem(in, ps, i, isStringish)
	if e == nil {
		return
	}
	if call, ok := i.(*ssa.Call); ok {
		if vs := variadicVals(in, ps, call.Call.Args[len(call.Call.Args)-1], i.Block()); len(vs) == 1 {
			e = vs[0]
		}
	}
	pos, where := in.p.instrPos(i), fnName(fr.fn)
	for _, f := range e.labs {
		l := strings.TrimPrefix(f, "!elpoint:")
		if l == f {
			continue
		}
		if st, ok := i.(*ssa.Store); ok && !c.ownSlot(fr, st, l) {
			c.fp.bad("results are cut short", pos, where, "the line isn't put into a place of its own")
			return
		}
		c.keep(in, fr, ps, i)
		switch {
		case !hasStr(e.labs, "!elmetric:"+l):
			c.fp.bad("labels are lost", pos, where, "the sample's line doesn't show its labels")
		case ps.st.has("noname:" + l), hasStr(e.labs, "!elname:"+l):
			c.give(ps, l, "line")
		default:
			c.fp.bad("labels are lost", pos, where, "a sample with a name gets a line that doesn't show it")
		}
	}
}

func runFormats(p *Program, r *Report, fp *flowProblems) {
	c := &formatClient{flowClient: newFlow(p, "line"), fp: fp, before: map[*Obj]bool{}}
	c.elem = func(t types.Type) bool { return isNamed(t, promqlPkg, "Sample") }
	c.sink = c.sinkAt
	c.interesting = func(n string) bool { return strings.HasPrefix(n, "el:") || n == wholeText }
	c.wantTotal = func(coll, kind string) bool { return coll == "res.Value" }
	c.round = func(ps *PState, l *loopInfo) {
		setFacts(ps, nil, func(f string) bool {
			return strings.HasSuffix(f, ":"+l.id) && (strings.HasPrefix(f, "name:") || strings.HasPrefix(f, "noname:") || strings.HasPrefix(f, "wrote:"))
		})
	}
	in := newInterp(p, c)
	n, roots := 0, 0
	in.onRound = func() {
		n = 0
		fp.reset()
		for o := range c.kept {
			c.before[o] = true
		}
		c.reset()
		c.makes = map[string]bool{}
	}
	in.Root("setup", "the set-up", false, func(in *Interp, th *Thread) { in.runInit(th) })
	for _, fn := range p.repoFns("promq/prom") {
		fn := fn
		ri := resultParam(fn)
		res := fn.Signature.Results()
		if ri < 0 || fn.Object() == nil || !fn.Object().Exported() || res.Len() != 2 || !isErrorType(res.At(1).Type()) {
			continue
		}
		if pt, ok := res.At(0).Type().Underlying().(*types.Pointer); !ok || !isStringish(pt.Elem()) {
			continue
		}
		roots++
		resultRoot(in, fn, ri, func(fr *Frame, o Outcome) {
			if o.res[1].nl&mayNil == 0 || failing(o) {
				return
			}
			n++
			ok := len(o.res[0].refs) > 0
			for _, l := range o.res[0].refs {
				ok = ok && o.st.has(fmt.Sprintf("cell:%d:%s=%s", l.o.id, l.p, wholeText))
			}
			if !ok {
				fp.bad("results are cut short", p.position(fn.Pos()), fnName(fn), "it may return without an error, but with text that doesn't hold all of the result"+lostAt(c.lost, "line"))
			}
		})
	}
	in.Solve()
	c.forgets(in, func(pos string) {
		fp.bad("results are cut short", pos, "-", "what was collected before isn't kept")
	})
	fp.report(r)
	r.atLeast("formats", roots, 4)
	r.atLeast("successful_ends_of_formatting", n, 5)
	r.atLeast("places_where_text_is_made", len(c.makes), 5)
	for o := range c.odd {
		r.undecided("a loop over a result", o+" is not understood")
	}
	in.finish(r)
}

func runC17(p *Program, r *Report) {
	fp := &flowProblems{seen: map[string]bool{}}
	runConvert(p, r, fp)
	runFormats(p, r, fp)
}
