package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C15", Rule: "element-flow analysis of the path from an exposition to the stores: each entry, target, sample and label is followed by name through every loop; on every path of every round it is handed on, unaltered, exactly where it belongs, and every stage runs over all of its input before the next begins", Run: runC15})
}

const (
	textparsePkg = "github.com/prometheus/prometheus/pkg/textparse"
	labelsPkg    = "github.com/prometheus/prometheus/pkg/labels"
)

func isParsedSeries(t types.Type) bool { return isNamed(t, modPath+"/promq/prom", "ParsedSeries") }

func isTime(t types.Type) bool { return isNamed(t, "time", "Time") }

// flowProblems collects what's wrong, once per place.
type flowProblems struct {
	seen map[string]bool
	list [][4]string
}

func (fp *flowProblems) bad(what, pos, where, detail string) {
	k := what + pos + where
	if fp.seen[k] {
		return
	}
	fp.seen[k] = true
	fp.list = append(fp.list, [4]string{what, pos, where, detail})
}

func (fp *flowProblems) reset() { fp.seen, fp.list = map[string]bool{}, nil }

func (fp *flowProblems) report(r *Report) {
	for _, x := range fp.list {
		r.violate(x[0], x[1], x[2], x[3])
	}
	fp.reset()
}

// extErr: the call succeeds with the given results, or fails.
func okOrFail(ps *PState, ok []string, fail []string, res []*Val, zero []*Val) []Outcome {
	a := Outcome{ps.st.withFacts(ok...).clone(), append(append([]*Val{}, res...), nilVal)}
	b := Outcome{ps.st.withFacts(fail...).clone(), append(append([]*Val{}, zero...), &Val{nl: mayNonNil, b: 3, sym: "err:x"})}
	return []Outcome{a, b}
}

// ---------------------------------------------------------------- the text

type textClient struct {
	flowClient
	fp      *flowProblems
	appends map[string]bool
	parses  map[string]bool
}

func (c *textClient) Ambient(in *Interp, l Loc, t types.Type) *Val {
	if l.o.kind == objExt && isErrorType(t) && strings.HasSuffix(l.o.name, "io.EOF") {
		return &Val{nl: mayNonNil, b: 3, sym: "const:io.EOF"}
	}
	return nil
}

func (c *textClient) After(in *Interp, fr *Frame, ps *PState, instr ssa.Instruction) {
	c.flowClient.After(in, fr, ps, instr)
	eofTest(in, ps, instr)
}

// eofTest decides comparisons with io.EOF.
func eofTest(in *Interp, ps *PState, instr ssa.Instruction) {
	x, ok := instr.(*ssa.BinOp)
	if !ok {
		return
	}
	v, w := in.val(ps, x.X), in.val(ps, x.Y)
	if v.sym != "const:io.EOF" {
		v, w = w, v
	}
	a, b := v.sym, w.sym
	if a != "const:io.EOF" || b == "" && w.nl != mayNil {
		return
	}
	yes := uint8(mayFalse)
	if (a == b) == (x.Op.String() == "==") {
		yes = mayTrue
	}
	ps.env[x] = &Val{nl: 3, b: yes}
}

func textparseType(c *ExtCall, m string) bool {
	return strings.Contains(c.Name, textparsePkg+".") && strings.HasSuffix(c.Name, ")."+m)
}

func entryFact(f string) bool {
	return f == "entry" || f == "other" || f == "got:entry" || strings.HasPrefix(f, "ts:") || strings.HasPrefix(f, "total:extra:")
}

func (c *textClient) Ext(in *Interp, fr *Frame, ps *PState, x *ExtCall) ([]Outcome, bool) {
	switch {
	case x.Name == "errors.Is" && len(x.Args) == 2 && x.Args[1].sym == "const:io.EOF" && (x.Args[0].sym != "" || x.Args[0].nl == mayNil):
		b := uint8(mayFalse)
		if x.Args[0].sym == "const:io.EOF" {
			b = mayTrue
		}
		return in.one(ps, &Val{nl: 3, b: b}), true
	case strings.HasPrefix(x.Name, textparsePkg+".New"):
		for i, a := range x.Args {
			if _, ok := x.Sig.Params().At(i).Type().Underlying().(*types.Slice); ok && a.sym != "text" {
				c.fp.bad("not the whole text is parsed", in.p.instrPos(x.Instr), fnName(fr.fn), "the parser is given something other than the text itself")
			}
		}
		c.parses[in.p.instrPos(x.Instr)] = true
		return nil, false
	case textparseType(x, "Next"):
		if ps.st.has("entry") && !ps.st.has("got:entry") {
			c.lost["entry\x00"+in.p.instrPos(x.Instr)] = true
			setFacts(ps, nil, func(f string) bool { return f == "all:entry" })
		}
		setFacts(ps, nil, entryFact)
		purge(ps, "entry:")
		ev := int64(3)
		if o := in.p.lookupConst(textparsePkg, "EntrySeries"); o != nil {
			ev, _ = constant.Int64Val(o.Val())
		}
		entry := Outcome{ps.st.withFacts("entry").clone(), []*Val{{nl: 3, b: 3, cst: constant.MakeInt64(ev)}, nilVal}}
		other := Outcome{ps.st.withFacts("other").clone(), []*Val{{nl: 3, b: 3, num: &numInfo{"et", 1}}, nilVal}}
		in.killSym(other.st, "et")
		other.st.setSpan("et", span{-1000, 1000, []int64{ev}})
		eof := Outcome{ps.st.withFacts("eof").clone(), []*Val{topVal, {nl: mayNonNil, b: 3, sym: "const:io.EOF"}}}
		fail := Outcome{ps.st.withFacts("failed").clone(), []*Val{topVal, {nl: mayNonNil, b: 3, sym: "err:next"}}}
		return []Outcome{entry, other, eof, fail}, true
	case textparseType(x, "Series"):
		if !ps.st.has("entry") {
			return []Outcome{}, true
		}
		r := in.extResults(fr, ps, x, false)
		given := Outcome{ps.st.withFacts("ts:given").clone(), nil}
		none := Outcome{ps.st.withFacts("ts:none").clone(), nil}
		o := in.obj(objExt, "entryts:"+x.Key, "the entry's timestamp", types.Typ[types.Int64])
		val := &Val{nl: 3, b: 3, sym: "entry:value", labs: []string{"entry:value"}}
		given.res = []*Val{r[0], {refs: []Loc{{o, ""}}, nl: mayNonNil, b: 3, sym: "&entry:ts"}, val}
		none.res = []*Val{r[0], nilVal, val}
		return []Outcome{given, none}, true
	case textparseType(x, "Metric"):
		dst := x.Args[len(x.Args)-1]
		o := in.obj(objExt, "entrylabels:"+x.Key, "the entry's labels", nil)
		v := &Val{refs: []Loc{{o, ""}}, nl: mayNonNil, b: 3, labs: []string{"entry:labels"}, sym: "entry:labels"}
		for _, l := range dst.refs {
			in.storeVal(ps.st, l, v, types.NewSlice(types.Typ[types.String]))
			if len(dst.refs) == 1 {
				c.putCell(in, ps, l, v)
				if _, ok := ps.st.cells[l.o]; ok {
					ps.st.setCell(l.o, v)
				}
			}
		}
		return in.one(ps, topVal), true
	}
	if outs, ok := timeExt(in, ps, x); ok {
		return outs, true
	}
	c.dropCells(in, ps, x.Args)
	// labels
	var carries bool
	for _, a := range x.Args {
		carries = carries || hasStr(a.labs, "entry:labels")
	}
	if x.Recv != nil {
		carries = carries || hasStr(x.Recv.labs, "entry:labels")
	}
	if !carries {
		return nil, false
	}
	pos := in.p.instrPos(x.Instr)
	builder := "(*" + labelsPkg + ".Builder)."
	switch {
	case x.Name == labelsPkg+".NewBuilder", strings.HasPrefix(x.Name, "("+labelsPkg+".Labels).Copy"):
	case x.Name == builder+"Set" && len(x.Args) == 3:
		l, k := elLoop(x.Args[1].sym)
		l2, v := elLoop(x.Args[2].sym)
		if l == "" || l != l2 || k != "k" || v != "v" {
			c.fp.bad("labels are altered", pos, fnName(fr.fn), "a label is set that is not one of the additional labels as given")
			return nil, false
		}
		c.give(ps, l, "extra")
	case x.Name == builder+"Labels":
		r := in.extResults(fr, ps, x, false)
		if c.extraDone(ps) {
			r[0] = named(in, r[0], "entry:labels:full", "", nil, 0)
		}
		return in.one(ps, r...), true
	default:
		r := in.extResults(fr, ps, x, false)
		for i := range r {
			if x.Sig.Results().Len() > i && isNamed(x.Sig.Results().At(i).Type(), labelsPkg, "Labels") {
				r[i] = r[i].withLab("altered")
			}
		}
		if strings.HasPrefix(x.Name, builder) {
			c.fp.bad("labels are altered", pos, fnName(fr.fn), shortCallee(x.Name)+" takes labels away")
		}
		return in.one(ps, r...), true
	}
	return nil, false
}

// timeExt follows one moment through its conversions.
// Call names the map that one of the parsing functions gives to the other.
func (c *textClient) Call(in *Interp, fr *Frame, ps *PState, fn *ssa.Function, args []*Val) ([]Outcome, bool) {
	if !ps.st.has("noextra") {
		return nil, false
	}
	for i, pa := range fn.Params {
		if _, ok := pa.Type().Underlying().(*types.Map); ok && i < len(args) && args[i].sym == "" {
			args[i] = named(in, args[i], "noextra", "", nil, 0)
		}
	}
	return nil, false
}

func timeExt(in *Interp, ps *PState, x *ExtCall) ([]Outcome, bool) {
	if len(x.Args) == 0 || x.Args[0].sym != "now" && x.Args[0].sym != "clock" {
		return nil, false
	}
	s := "ns:" + x.Args[0].sym
	switch x.Name {
	case "(time.Time).UnixNano":
		return in.one(ps, &Val{nl: 3, b: 3, num: &numInfo{s, 1}}), true
	case "(time.Time).UnixMilli", "github.com/prometheus/prometheus/pkg/timestamp.FromTime":
		return in.one(ps, &Val{nl: 3, b: 3, num: &numInfo{s, 1000000}}), true
	case "(time.Time).UTC", "(time.Time).Local", "(time.Time).In":
		return in.one(ps, x.Args[0]), true
	}
	return nil, false
}

// extraDone: all additional labels were set for the current entry.
func (c *textClient) extraDone(ps *PState) bool {
	return ps.st.has("noextra") || c.ran(ps, "extra", "extra")
}

func (c *textClient) sinkAt(in *Interp, fr *Frame, ps *PState, i ssa.Instruction) {
	elem := c.keptElem(in, ps, i, isParsedSeries)
	if elem == nil {
		return
	}
	pos := in.p.instrPos(i)
	c.appends[pos] = true
	where := fnName(fr.fn)
	c.keep(in, fr, ps, i)
	if !ps.st.has("entry") {
		return
	}
	if ps.st.has("got:entry") {
		c.fp.bad("an entry is kept twice", pos, where, "")
	}
	setFacts(ps, []string{"got:entry"}, nil)
	v, ts, ls := elem.fields[".Value"], elem.fields[".Timestamp"], elem.fields[".Labels"]
	if v == nil || ts == nil || ls == nil {
		c.fp.bad("undecided", pos, where, "the sample that is kept can't be followed")
		return
	}
	if v.sym != "entry:value" {
		c.fp.bad("a sample's value is altered", pos, where, "what is kept is not the entry's value")
	}
	if ps.st.has("ts:given") && ts.sym != "entry:ts" {
		c.fp.bad("a sample's time is altered", pos, where, "the entry has a timestamp of its own, but another one is kept")
	}
	if ps.st.has("ts:none") && (ts.num == nil || ts.num.sym != "ns:now" || ts.num.div != 1000000) {
		c.fp.bad("a sample's time is altered", pos, where, "the entry has no timestamp, but what is kept is not the time of the scrape in milliseconds")
	}
	switch {
	case !hasStr(ls.labs, "entry:labels") || hasStr(ls.labs, "altered"):
		c.fp.bad("labels are altered", pos, where, "what is kept is not the entry's label set")
	case ls.sym != "entry:labels:full" && !(ls.sym == "entry:labels" && ps.st.has("noextra")):
		c.fp.bad("labels are missing", pos, where, "on some path not all of the additional labels are set")
	}
}

// keptElem: the element that an instruction adds to a collection of such elements.
func (f *flowClient) keptElem(in *Interp, ps *PState, i ssa.Instruction, want func(types.Type) bool) *Val {
	if elem, _, _, ok := f.appended(in, ps, i); ok {
		sl, isS := i.(*ssa.Call).Call.Args[0].Type().Underlying().(*types.Slice)
		if isS && want(sl.Elem()) {
			return elem
		}
		return nil
	}
	if st, ok := i.(*ssa.Store); ok {
		if ia, ok := st.Addr.(*ssa.IndexAddr); ok {
			if _, isSlice := ia.X.Type().Underlying().(*types.Slice); isSlice && want(st.Val.Type()) {
				return in.val(ps, st.Val)
			}
		}
	}
	return nil
}

func runText(p *Program, r *Report, fp *flowProblems) {
	c := &textClient{flowClient: newFlow(p, "extra"), fp: fp, appends: map[string]bool{}, parses: map[string]bool{}}
	c.elem = func(t types.Type) bool { b, ok := t.Underlying().(*types.Basic); return ok && b.Kind() == types.String }
	c.sink = c.sinkAt
	c.interesting = func(n string) bool {
		return strings.HasPrefix(n, "entry:") || strings.HasPrefix(n, "&entry:") || strings.HasPrefix(n, "num:ns:")
	}
	in := newInterp(p, c)
	n := 0
	var returned, need map[*ssa.Function]bool
	in.onRound = func() {
		n = 0
		fp.reset()
		c.reset()
		returned, need = map[*ssa.Function]bool{}, map[*ssa.Function]bool{}
		c.appends, c.parses = map[string]bool{}, map[string]bool{}
	}
	in.Root("setup", "the set-up", false, func(in *Interp, th *Thread) { in.runInit(th) })
	for _, name := range []string{"ParseTextData", "ParseTextDataWithAdditionalLabels"} {
		fn := p.fn("promq/prom", name)
		if fn == nil {
			r.undecided("the parser", name+" is gone")
			continue
		}
		fnRoot(in, fn, func(st *State, args []*Val) *State {
			facts := []string{"all:entry"}
			extra := false
			for i, pa := range fn.Params {
				switch t := pa.Type().Underlying().(type) {
				case *types.Slice:
					args[i] = named(in, args[i], "text", "", nil, 0)
				case *types.Map:
					_ = t
					args[i] = named(in, args[i], "extra", "", nil, 0)
					extra = true
				default:
					if isTime(pa.Type()) {
						args[i] = named(in, args[i], "now", "", nil, 0)
					}
				}
			}
			if !extra {
				facts = append(facts, "noextra")
			}
			return st.withFacts(facts...).clone()
		}, func(fr *Frame, o Outcome) {
			if len(o.res) != 2 || o.res[1].nl&mayNil == 0 {
				return
			}
			n++
			need[fn] = true
			pos := p.position(fn.Pos())
			if !o.st.has("eof") {
				fp.bad("not the whole text is parsed", pos, fnName(fn), "it may return without an error before the parser reached the end of the text")
			} else if !o.st.has("all:entry") {
				fp.bad("entries are lost", pos, fnName(fn), "some path goes on to the next entry without keeping a sample for the current one"+lostAt(c.lost, "entry"))
			}
			for _, l := range o.res[0].refs {
				returned[fn] = returned[fn] || c.kept[l.o]
			}
		})
	}
	in.Solve()
	c.keeping(in, fp, returned, need)
	fp.report(r)
	r.atLeast("successful_ends_of_parsing", n, 2)
	r.atLeast("places_where_parsed_samples_are_kept", len(c.appends), 1)
	r.atLeast("parsers_created", len(c.parses), 1)
	in.finish(r)
}

func lostAt(lost map[string]bool, kind string) string {
	var ps []string
	for k := range lost {
		if strings.HasPrefix(k, kind+"\x00") {
			ps = append(ps, k[len(kind)+1:])
		}
	}
	sort.Strings(ps)
	if len(ps) == 0 {
		return ""
	}
	return " (" + strings.Join(ps, ", ") + ")"
}

// keeping: what is returned is what all elements were added to.
func (f *flowClient) keeping(in *Interp, fp *flowProblems, returned, need map[*ssa.Function]bool) {
	for fn := range need {
		if !returned[fn] {
			fp.bad("samples are lost", in.p.position(fn.Pos()), fnName(fn), "what is returned is not what the samples were added to")
		}
	}
	f.forgets(in, func(pos string) {
		fp.bad("samples are lost", pos, "-", "what was collected before isn't kept")
	})
}

// ---------------------------------------------------------------- the targets

type targetClient struct {
	flowClient
	fp       *flowProblems
	fetches  map[string]bool
	parses   map[string]bool
	requests map[string]bool
	depth0   map[*ssa.Function]bool
}

func (c *targetClient) fetch(in *Interp, fr *Frame, ps *PState, i ssa.Instruction, recv *Val, args []*Val, key string) []Outcome {
	pos := in.p.instrPos(i)
	c.fetches[pos] = true
	l, part := elLoop(recv.sym)
	if l == "" || part != "" {
		c.fp.bad("undecided", pos, fnName(fr.fn), "it can't be told which target is fetched")
		l = "?"
	}
	for _, a := range args {
		if a.sym == "now" {
			goto timed
		}
	}
	c.fp.bad("a target is fetched for another time", pos, fnName(fr.fn), "it isn't given the time of the scrape")
timed:
	o := in.obj(objExt, "batch:"+key, "the samples of a target", nil)
	setFacts(ps, nil, func(f string) bool { return f == "fetched" || f == "unfetched" })
	return okOrFail(ps, []string{"fetched"}, []string{"unfetched"}, []*Val{{refs: []Loc{{o, ""}}, nl: 3, b: 3, sym: "batch:" + l}}, []*Val{nilVal})
}

func (c *targetClient) Ext(in *Interp, fr *Frame, ps *PState, x *ExtCall) ([]Outcome, bool) {
	if strings.HasPrefix(x.Name, "("+modPath+"/promq/prom.DataSource).") && x.Recv != nil {
		return c.fetch(in, fr, ps, x.Instr, x.Recv, x.Args, x.Key), true
	}
	if strings.HasPrefix(x.Name, "net/http.NewRequest") {
		c.requests[in.p.instrPos(x.Instr)] = true
		for i := 0; i < x.Sig.Params().Len() && i < len(x.Args); i++ {
			if x.Sig.Params().At(i).Name() == "url" {
				if s := x.Args[i].sym; s != "" {
					setFacts(ps, []string{"url:" + s}, nil)
				} else {
					setFacts(ps, []string{"url:?"}, nil)
				}
			}
		}
	}
	return timeExt(in, ps, x)
}

func (c *targetClient) Call(in *Interp, fr *Frame, ps *PState, fn *ssa.Function, args []*Val) ([]Outcome, bool) {
	if c.depth0[fn] && fr.depth > 0 {
		return c.fetch(in, fr, ps, nil, args[0], args[1:], fn.String()+fr.ctx), true
	}
	if fn.Pkg == nil || fn.Pkg.Pkg.Path() != modPath+"/promq/prom" || !strings.HasPrefix(fn.Name(), "ParseTextData") {
		return nil, false
	}
	pos := in.p.position(fn.Pos())
	where := fnName(fr.fn)
	c.parses[where] = true
	for i, pa := range fn.Params {
		switch t := pa.Type().Underlying().(type) {
		case *types.Map:
			_ = t
			vals := map[string]bool{}
			for _, l := range args[i].refs {
				if v := in.heapAt(l.o, l.p+"[]"); v != nil {
					vals[v.sym] = true
				}
				if k := in.heapAt(l.o, l.p+"[k]"); k != nil && k.cst != nil && k.cst.Kind() == constant.String && constant.StringVal(k.cst) == "__name__" {
					c.fp.bad("labels are altered", pos, where, "the target's label replaces the metric name")
				}
			}
			for _, f := range ps.st.facts {
				if strings.HasPrefix(f, "url:") && !vals[f[4:]] {
					c.fp.bad("samples don't carry their target", pos, where, "the additional labels don't hold the URL that was asked")
				}
			}
		default:
			if isTime(pa.Type()) && args[i].sym != "now" {
				c.fp.bad("a target is fetched for another time", pos, where, "the samples aren't given the time of the scrape")
			}
		}
	}
	if len(fn.Params) < 3 {
		c.fp.bad("samples don't carry their target", pos, where, "the samples aren't given the target's label")
	}
	o := in.obj(objExt, "parsed:"+fr.ctx, "the parsed samples", nil)
	setFacts(ps, nil, func(f string) bool { return f == "fetched" || f == "unfetched" })
	return okOrFail(ps, []string{"fetched"}, []string{"unfetched"}, []*Val{{refs: []Loc{{o, ""}}, nl: 3, b: 3, sym: "parsed"}}, []*Val{nilVal}), true
}

func (c *targetClient) sinkAt(in *Interp, fr *Frame, ps *PState, i ssa.Instruction) {
	elem, whole, _, ok := c.appended(in, ps, i)
	if ok {
		if strings.HasPrefix(whole.sym, "batch:") {
			c.keep(in, fr, ps, i)
			c.give(ps, whole.sym[6:], "keep")
			return
		}
		if elem != nil {
			if l, part := elLoop(elem.sym); l != "" && part == "" {
				c.keep(in, fr, ps, i)
				c.give(ps, l, "keep")
			}
		}
		return
	}
	if v := c.keptElem(in, ps, i, func(types.Type) bool { return true }); v != nil {
		if l, part := elLoop(v.sym); l != "" && part == "" && c.ownSlot(fr, i.(*ssa.Store), l) {
			c.keep(in, fr, ps, i)
			c.give(ps, l, "keep")
		}
	}
}

func runTargets(p *Program, r *Report, fp *flowProblems) {
	it := p.lookupIface(modPath+"/promq/prom", "DataSource")
	if it == nil {
		r.undecided("the data sources", "prom.DataSource is gone")
		return
	}
	c := &targetClient{flowClient: newFlow(p, "keep"), fp: fp, fetches: map[string]bool{}, parses: map[string]bool{}, requests: map[string]bool{}, depth0: map[*ssa.Function]bool{}}
	c.elem = func(t types.Type) bool {
		if isParsedSeries(t) {
			return true
		}
		_, isI := t.Underlying().(*types.Interface)
		return isI && types.Implements(t, it)
	}
	c.sink = c.sinkAt
	c.interesting = func(n string) bool { return strings.HasPrefix(n, "el:") }
	c.total = func(in *Interp, fr *Frame, ps *PState, l *loopInfo, coll, kind string) {
		if strings.HasPrefix(coll, "batch:") {
			c.give(ps, coll[6:], kind)
		}
	}
	in := newInterp(p, c)
	n := 0
	var returned, need map[*ssa.Function]bool
	in.onRound = func() {
		n = 0
		fp.reset()
		c.reset()
		returned, need = map[*ssa.Function]bool{}, map[*ssa.Function]bool{}
		c.fetches, c.parses, c.requests = map[string]bool{}, map[string]bool{}, map[string]bool{}
	}
	in.Root("setup", "the set-up", false, func(in *Interp, th *Thread) { in.runInit(th) })
	for _, fn := range p.sourceMethods() {
		fn := fn
		c.depth0[fn] = true
		fnRoot(in, fn, func(st *State, args []*Val) *State {
			for i, pa := range fn.Params {
				if isTime(pa.Type()) {
					args[i] = named(in, args[i], "now", "", nil, 0)
				}
			}
			if _, ok := fn.Params[0].Type().Underlying().(*types.Pointer); ok {
				args[0] = named(in, args[0], "&recv", "", nil, 0)
			} else {
				args[0] = named(in, args[0], "recv", "", nil, 0)
			}
			return st
		}, func(fr *Frame, o Outcome) {
			if len(o.res) != 2 || o.res[1].nl&mayNil == 0 {
				return
			}
			n++
			if o.res[0].sym == "parsed" {
				return
			}
			total := false
			for _, f := range o.st.facts {
				total = total || strings.HasPrefix(f, "total:recv") && strings.HasSuffix(f, ":keep")
			}
			for s, sp := range o.st.spans {
				total = total || strings.HasPrefix(s, "len(recv") && sp.hi <= 0
			}
			for _, l := range o.res[0].refs {
				returned[fn] = returned[fn] || c.kept[l.o]
			}
			need[fn] = true
			if !total {
				fp.bad("a target's samples are lost", p.position(fn.Pos()), fnName(fn), "it may return without an error, but without the samples of each of its targets"+lostAt(c.lost, "keep"))
			}
		})
	}
	in.Solve()
	c.keeping(in, fp, returned, need)
	fp.report(r)
	r.atLeast("successful_ends_of_fetches", n, 2)
	r.atLeast("places_where_targets_are_fetched", len(c.fetches), 1)
	r.atLeast("places_where_fetched_text_is_parsed", len(c.parses), 1)
	r.atLeast("requests_examined", len(c.requests), 1)
	for o := range c.odd {
		r.undecided("a loop over targets or samples", o+" is not understood")
	}
	in.finish(r)
}

// ---------------------------------------------------------------- the set-up

// setupClient: each URL the user gives becomes a target.
type setupClient struct {
	flowClient
	fp     *flowProblems
	src    *types.Interface
	asks   map[*ssa.Function]bool
	checks map[string]bool
}

func (c *setupClient) Call(in *Interp, fr *Frame, ps *PState, fn *ssa.Function, args []*Val) ([]Outcome, bool) {
	if !c.asks[fn] {
		return nil, false
	}
	where := fnName(fr.fn)
	c.checks[where] = true
	if !c.ran(ps, "flags.HostNames", "target") {
		c.fp.bad("targets are lost", "-", where, "targets are fetched although it isn't certain that each one given became one of them"+lostAt(c.lost, "target"))
	}
	ok := false
	for _, o := range allRefs(args[0]) {
		ok = ok || c.kept[o.o]
	}
	if !ok {
		c.fp.bad("targets are lost", "-", where, "what is fetched from is not what the targets were added to")
	}
	return []Outcome{}, true
}

func (c *setupClient) Ext(in *Interp, fr *Frame, ps *PState, x *ExtCall) ([]Outcome, bool) {
	c.dropCells(in, ps, x.Args)
	return nil, false
}

func (c *setupClient) sinkAt(in *Interp, fr *Frame, ps *PState, i ssa.Instruction) {
	v := c.keptElem(in, ps, i, func(t types.Type) bool {
		_, isI := t.Underlying().(*types.Interface)
		return isI && types.Implements(t, c.src)
	})
	if v == nil {
		return
	}
	for _, n := range in.names(ps.st, v, 2) {
		l, part := elLoop(n.sym)
		if l == "" || part != "" {
			continue
		}
		if st, ok := i.(*ssa.Store); ok && !c.ownSlot(fr, st, l) {
			continue
		}
		c.keep(in, fr, ps, i)
		c.give(ps, l, "target")
	}
}

func runSetup(p *Program, r *Report, fp *flowProblems) {
	c := &setupClient{flowClient: newFlow(p, "target"), fp: fp, src: p.lookupIface(modPath+"/promq/prom", "DataSource"), asks: map[*ssa.Function]bool{}, checks: map[string]bool{}}
	if c.src == nil {
		return
	}
	for _, fn := range p.sourceMethods() {
		c.asks[fn] = true
	}
	c.elem = func(t types.Type) bool { b, ok := t.Underlying().(*types.Basic); return ok && b.Kind() == types.String }
	c.sink = c.sinkAt
	c.interesting = func(n string) bool { return strings.HasPrefix(n, "el:") }
	c.wantTotal = func(coll, kind string) bool { return coll == "flags.HostNames" }
	in := newInterp(p, c)
	in.onRound = func() {
		fp.reset()
		c.reset()
		c.checks = map[string]bool{}
	}
	in.Root("setup", "the set-up", false, func(in *Interp, th *Thread) { in.runInit(th) })
	for _, fn := range p.repoMethods("cmd/metrics") {
		fn := fn
		if !fn.Object().Exported() {
			continue
		}
		for _, pa := range fn.Params {
			if !isNamed(deref(pa.Type()), modPath+"/cmd/cli", "PromQFlags") {
				continue
			}
			pa := pa
			fnRoot(in, fn, func(st *State, args []*Val) *State {
				for i := range args {
					if fn.Params[i] == pa {
						s := "flags"
						if _, ok := pa.Type().Underlying().(*types.Pointer); ok {
							s = "&flags"
						}
						args[i] = named(in, args[i], s, "", nil, 0)
					}
				}
				return st
			}, nil)
		}
	}
	in.Solve()
	c.forgets(in, func(pos string) { fp.bad("targets are lost", pos, "-", "what was collected before isn't kept") })
	fp.report(r)
	r.atLeast("calls_that_fetch_from_the_targets", len(c.checks), 1)
	in.finish(r)
}

// ---------------------------------------------------------------- the stores

type storeClient struct {
	flowClient
	fp     *flowProblems
	stores map[string]bool
	index  map[string]bool
	begun  map[string]bool
	idx    *types.Interface
	apps   map[string]*appSite
	pend   map[*ssa.Call]string
	// compared: the parts of structs that hold the labels a series is found by; holders: the
	// structs that hold the data points
	compared, holders map[string]bool
}

// appSite is an append whose result has to be written back.
type appSite struct {
	call *ssa.Call
	addr ssa.Value
	locs []Loc
}

func (c *storeClient) After(in *Interp, fr *Frame, ps *PState, instr ssa.Instruction) {
	c.flowClient.After(in, fr, ps, instr)
	if call, ok := instr.(*ssa.Call); ok && c.pend[call] != "" {
		ps.env[call] = named(in, ps.env[call], c.pend[call], "", nil, 0)
		delete(c.pend, call)
	}
}

// extends: a list that's put into a map holds what was there before.
func (c *storeClient) extends(in *Interp, ps *PState, mu *ssa.MapUpdate) bool {
	t, ok := mu.Value.Type().Underlying().(*types.Slice)
	if !ok {
		return true
	}
	v := in.val(ps, mu.Value)
	for _, m := range in.val(ps, mu.Map).refs {
		for _, l := range in.elem(ps.st, m, t).refs {
			if !hasLoc(v.refs, l) {
				return false
			}
		}
	}
	return true
}

func hasLoc(ls []Loc, l Loc) bool {
	for _, x := range ls {
		if x == l {
			return true
		}
	}
	return false
}

func typeStr(t types.Type) string {
	if t == nil {
		return ""
	}
	return t.String()
}

func sameLocs(a, b []Loc) bool {
	for _, x := range a {
		if !hasLoc(b, x) {
			return false
		}
	}
	return len(a) == len(b)
}

var storeKinds = []string{"index", "store", "placed", "known", "listed"}

func (c *storeClient) Call(in *Interp, fr *Frame, ps *PState, fn *ssa.Function, args []*Val) ([]Outcome, bool) {
	if fn.Signature.Recv() != nil && c.idx != nil && types.Implements(fn.Signature.Recv().Type(), c.idx) && fn.Name() == "UpdateMetric" {
		c.indexed(in, fr, ps, args[1:])
		return in.one(ps), true
	}
	return nil, false
}

func (c *storeClient) indexed(in *Interp, fr *Frame, ps *PState, args []*Val) {
	for _, a := range args {
		if l, part := elLoop(a.sym); l != "" && part == "" {
			c.index[fnName(fr.fn)] = true
			c.give(ps, l, "index")
		}
	}
}

func (c *storeClient) Ext(in *Interp, fr *Frame, ps *PState, x *ExtCall) ([]Outcome, bool) {
	switch {
	case x.Name == "time.Now":
		r := in.extResults(fr, ps, x, false)
		r[0] = named(in, r[0], "clock", "", nil, 0)
		return in.one(ps, r...), true
	case strings.HasPrefix(x.Name, "("+modPath+"/promq/prom.Indexer).UpdateMetric"):
		c.indexed(in, fr, ps, x.Args)
		return in.one(ps), true
	case strings.HasPrefix(x.Name, "("+modPath+"/promq/prom.DataSource)."):
		ok := false
		for _, a := range x.Args {
			ok = ok || a.sym == "clock"
		}
		if !ok {
			c.fp.bad("a target is fetched for another time", in.p.instrPos(x.Instr), fnName(fr.fn), "it isn't given the current time")
		}
		o := in.obj(objExt, "scraped:"+x.Key, "the scraped samples", nil)
		return okOrFail(ps, []string{"have"}, nil, []*Val{{refs: []Loc{{o, ""}}, nl: 3, b: 3, sym: "scraped"}}, []*Val{nilVal}), true
	case x.Name == labelsPkg+".Equal":
		for _, a := range x.ArgV {
			if ld, ok := a.(*ssa.UnOp); ok {
				if fa, ok := ld.X.(*ssa.FieldAddr); ok {
					t := deref(fa.X.Type())
					c.compared[typeStr(t)+"."+fieldName(t, fa.Field)] = true
				}
			}
		}
		for _, a := range x.Args {
			if l, part := elLoop(a.sym); l != "" && part == ".Labels" {
				return in.one(ps, &Val{nl: 3, b: 3, im: &implied{onTrue: []string{"eq:" + l}}}), true
			}
		}
	case isQueryCtorName(x.Name):
		c.complete(in, ps, in.p.instrPos(x.Instr), fnName(fr.fn), "a query is evaluated")
	}
	return timeExt(in, ps, x)
}

func isQueryCtorName(n string) bool {
	return strings.HasSuffix(n, "promql.Engine).NewInstantQuery") || strings.HasSuffix(n, "promql.Engine).NewRangeQuery")
}

// complete: all that was scraped must be in place by now.
func (c *storeClient) complete(in *Interp, ps *PState, pos, where, what string) {
	if !ps.st.has("have") {
		return
	}
	c.begun[pos] = true
	text := map[string]string{"index": "added to the index", "store": "stored with their value and time", "placed": "put where their series is looked for", "known": "stored under their own labels", "listed": "listed under each of their labels"}
	for _, k := range storeKinds {
		if !c.ran(ps, "scraped", k) {
			c.fp.bad("scraped samples are lost", pos, where, what+" although it isn't certain that all scraped samples were "+text[k]+lostAt(c.lost, k))
		}
	}
}

func (c *storeClient) sinkAt(in *Interp, fr *Frame, ps *PState, i ssa.Instruction) {
	pos := in.p.instrPos(i)
	if mu, ok := i.(*ssa.MapUpdate); ok {
		// a label's value as the key
		if l, part := elLoop(in.val(ps, mu.Key).sym); l != "" && part == ".Value" {
			c.give(ps, l, "listed")
		}
		for _, n := range in.names(ps.st, in.val(ps, mu.Value), 2) {
			l, part := elLoop(n.sym)
			if l == "" || part != ".Labels" {
				continue
			}
			at := typeStr(n.o.typ)
			if c.holders[at] {
				c.give(ps, l, "placed")
			}
			if !c.compared[at+n.path] {
				continue
			}
			if c.extends(in, ps, mu) {
				c.give(ps, l, "known")
			} else {
				c.fp.bad("scraped samples are lost", pos, fnName(fr.fn), "the entry replaces what was there before")
			}
		}
		return
	}
	if st, ok := i.(*ssa.Store); ok {
		if v := in.val(ps, st.Val); strings.HasPrefix(v.sym, "app:") {
			a := c.apps[v.sym]
			l, _ := elLoop("el:" + v.sym[4:])
			if a != nil && (st.Parent() == a.call.Parent() && sameExpr(st.Addr, a.addr, 0) || st.Parent() != a.call.Parent() && sameLocs(in.val(ps, st.Addr).refs, a.locs)) {
				c.give(ps, l, "store")
			}
		}
	}
	elem := c.keptElem(in, ps, i, func(t types.Type) bool {
		_, isS := t.Underlying().(*types.Struct)
		return isS && !isParsedSeries(t)
	})
	if elem == nil {
		return
	}
	parts := map[string]string{}
	for _, f := range elem.fields {
		if l, part := elLoop(f.sym); l != "" {
			parts[part] = l
		}
	}
	l := parts[".Value"]
	if l == "" || parts[".Timestamp"] != l {
		return
	}
	call, ok := i.(*ssa.Call)
	if !ok {
		return // moved to its place in time
	}
	c.stores[pos] = true
	if ps.st.has("got:" + l + ":store") {
		c.fp.bad("a sample is stored twice", pos, fnName(fr.fn), "")
	}
	if ld, ok := call.Call.Args[0].(*ssa.UnOp); ok {
		// counts when it's written back
		s := "app:" + l + "|" + siteID(call) + "#" + fr.ctx
		c.apps[s] = &appSite{call, ld.X, in.val(ps, ld.X).refs}
		c.pend[call] = s
	} else {
		c.give(ps, l, "store")
	}
	if ps.st.has("eq:" + l) {
		c.give(ps, l, "placed")
		c.give(ps, l, "known")
		c.give(ps, l, "listed")
		return
	}
	// a new series, with these labels
	ld, ok := call.Call.Args[0].(*ssa.UnOp)
	if !ok {
		c.fp.bad("undecided", pos, fnName(fr.fn), "it can't be told which series the sample is added to")
		return
	}
	fa, ok := ld.X.(*ssa.FieldAddr)
	if !ok {
		c.fp.bad("undecided", pos, fnName(fr.fn), "it can't be told which series the sample is added to")
		return
	}
	c.holders[typeStr(deref(fa.X.Type()))] = true
	for _, b := range in.val(ps, fa.X).refs {
		own := b.o.kind == objAlloc && in.syms(ps.st, refVal(b), 1)["el:"+l+"|.Labels"]
		if !own {
			c.fp.bad("a sample is added to another series", pos, fnName(fr.fn), "the series was not made for the sample's labels, nor were its labels compared with them")
		}
	}
}

func runStores(p *Program, r *Report, fp *flowProblems) {
	fn := p.namedMethod("promq/prom", "PeriodicData", "Scrape")
	if fn == nil {
		r.undecided("the engine", "(*prom.PeriodicData).Scrape is gone")
		return
	}
	c := &storeClient{flowClient: newFlow(p, storeKinds...), fp: fp, stores: map[string]bool{}, index: map[string]bool{}, begun: map[string]bool{}, idx: p.lookupIface(modPath+"/promq/prom", "Indexer"), compared: map[string]bool{}, holders: map[string]bool{}}
	c.elem = func(t types.Type) bool { return isParsedSeries(t) || isNamed(t, labelsPkg, "Label") }
	c.sink = c.sinkAt
	c.interesting = func(n string) bool { return strings.HasPrefix(n, "el:") }
	c.wantTotal = func(coll, kind string) bool {
		return coll == "scraped" || strings.HasSuffix(coll, "|.Labels") && kind == "listed"
	}
	c.round = func(ps *PState, l *loopInfo) {
		setFacts(ps, nil, func(f string) bool { return f == "eq:"+l.id })
	}
	c.total = func(in *Interp, fr *Frame, ps *PState, l *loopInfo, coll, kind string) {
		if el, part := elLoop(coll); el != "" && part == ".Labels" && kind == "listed" {
			c.give(ps, el, kind)
		}
	}
	in := newInterp(p, c)
	n := 0
	in.onRound = func() {
		n = 0
		fp.reset()
		c.reset()
		c.apps, c.pend = map[string]*appSite{}, map[*ssa.Call]string{}
		c.stores, c.index, c.begun = map[string]bool{}, map[string]bool{}, map[string]bool{}
	}
	in.Root("setup", "the set-up", false, func(in *Interp, th *Thread) { in.runInit(th) })
	fnRoot(in, fn, nil, func(fr *Frame, o Outcome) {
		if len(o.res) != 1 || o.res[0].nl&mayNil == 0 {
			return
		}
		n++
		c.complete(in, &PState{st: o.st}, p.position(fn.Pos()), fnName(fn), "it may return without an error")
	})
	in.Solve()
	fp.report(r)
	for o := range c.odd {
		r.undecided("a loop over samples", o+" is not understood")
	}
	r.atLeast("successful_ends_of_scrapes", n, 1)
	r.atLeast("places_where_samples_are_stored", len(c.stores), 1)
	r.atLeast("places_where_samples_are_indexed", len(c.index), 1)
	r.atLeast("evaluations_and_ends_after_a_fetch", len(c.begun), 2)
	in.finish(r)
}

func runC15(p *Program, r *Report) {
	fp := &flowProblems{seen: map[string]bool{}}
	runText(p, r, fp)
	runTargets(p, r, fp)
	runSetup(p, r, fp)
	runStores(p, r, fp)
	r.assume(fmt.Sprintf("the parser of %s delivers every sample of the text exactly once", textparsePkg))
}
