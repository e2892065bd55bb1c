package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C28", Rule: "constant propagation with memory, on all paths: a split view's boxes as sums of the named position, size and caps it's given, compared by what the conditions on the path imply; and the event loop over sequences of resizes, new views and repaints, for what views are given and shown", Run: runC28})
}

const termPath = modPath + "/promq/term"

type panes struct {
	p     *Program
	r     *Report
	e     *kexec
	n     int
	paths int
	box   types.Type
	went  []kdefer
	// the events that come
	script []int
}

func runC28(p *Program, r *Report) {
	e, err := newKexec(p)
	if err != nil {
		r.undecided("the program", err.Error())
		return
	}
	v := &panes{p: p, r: r, e: e}
	sp := e.pkgs[termPath]
	split, box, runner := p.lookupType(termPath, "SplitView"), p.lookupType(termPath, "PositionBox"), p.lookupType(termPath, "Runner")
	if sp == nil || split == nil || box == nil || runner == nil {
		r.undecided("the split view and the event loop", "their types weren't found")
		return
	}
	e.ext = v.ext
	e.tables(termPath)
	v.box = box
	v.split(sp, split)
	if r.failed() {
		return
	}
	v.both(sp, split)
	if r.failed() {
		return
	}
	v.loop(sp, runner)
	if r.failed() {
		return
	}
	v.requests(sp, runner)
	r.cover("functions_analysed", len(e.funcs))
	r.atLeast("paths", v.paths, 80)
	r.assume("the terminal's size isn't negative", "a view draws within the box it was given")
}

func (v *panes) fields(t types.Type) map[string]int {
	m := map[string]int{}
	if st, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			m[st.Field(i).Name()] = i
		}
	}
	return m
}

// split: the panes' boxes are the whole's.
func (v *panes) split(sp *ssa.Package, t types.Type) {
	fn := v.e.prog.LookupMethod(types.NewPointer(t), sp.Pkg, "SetBox")
	f, b := v.fields(t), v.fields(v.box)
	for _, name := range []string{"Dock", "DockSize", "DockMaxPercent", "Docked", "Flexed"} {
		if _, ok := f[name]; !ok {
			v.r.undecided("the split view", "its field "+name+" wasn't found")
			return
		}
	}
	for _, name := range []string{"StartCol", "StartRow", "Cols", "Rows"} {
		if _, ok := b[name]; !ok {
			v.r.undecided("a view's box", "its field "+name+" wasn't found")
			return
		}
	}
	if fn == nil || len(fn.Blocks) == 0 {
		v.r.undecided("the split view", "what gives it its box wasn't found")
		return
	}
	where := v.p.position(fn.Pos())
	lin := func(n string) *kv { return &kv{k: kLin, lin: linVar(n)} }
	for dock := 0; dock < 4; dock++ {
		c, ok := sp.Pkg.Scope().Lookup([]string{"PosBelow", "PosAbove", "PosLeft", "PosRight"}[dock]).(*types.Const)
		if !ok {
			v.r.undecided(where, "the docked pane's positions weren't found")
			return
		}
		s := &kstate{mem: map[*kobj]*kv{}, base: v.e.base, rng: map[int][2]int64{}}
		s.facts = []linear{linVar("cols"), linVar("rows")}
		o := v.e.obj("split view")
		z := kzero(t)
		z.fs[f["Dock"]] = kconst(c.Val())
		z.fs[f["DockSize"]] = lin("size")
		z.fs[f["DockMaxPercent"]] = lin("percent")
		z.fs[f["Docked"]] = ksym("some view", 1)
		z.fs[f["Flexed"]] = ksym("some view", 2)
		s.mem[o] = z
		bx := kzero(v.box)
		bx.fs[b["StartCol"]], bx.fs[b["StartRow"]] = lin("col"), lin("row")
		bx.fs[b["Cols"]], bx.fs[b["Rows"]] = lin("cols"), lin("rows")
		for _, out := range v.e.run(fn, []*kv{{k: kPtr, o: o}, bx}, nil, s, 0) {
			if out.s.odd != "" {
				v.r.undecided(where, out.s.odd)
				return
			}
			if !possible(out.s.facts) {
				continue
			}
			v.paths++
			if out.end {
				v.r.violate("panes", where, "on some path the panes aren't given their boxes", c.Name())
				return
			}
			given := map[int]*kv{}
			for _, l := range out.s.log {
				if l.what == "SetBox" {
					given[l.n] = l.v
				}
			}
			if len(given) != 2 {
				v.r.violate("panes", where, "a pane isn't given its box", c.Name())
				return
			}
			v.tiles(where, c.Name(), dock, out.s, given[1], given[2], b)
			if v.r.failed() {
				return
			}
		}
	}
}

func (v *panes) tiles(where, name string, dock int, s *kstate, docked, flexed *kv, b map[string]int) {
	get := func(bx *kv, field string) linear {
		l, ok := linOf(kget(bx, []int{b[field]}))
		if !ok {
			v.r.undecided(where, "a pane's "+field+" isn't a sum that can be followed: "+kget(bx, []int{b[field]}).String())
			return linear{}
		}
		return l
	}
	start, size, whole, at := "StartRow", "Rows", linVar("rows"), linVar("row")
	oStart, oSize, oWhole, oAt := "StartCol", "Cols", linVar("cols"), linVar("col")
	if dock >= 2 {
		start, size, whole, at, oStart, oSize, oWhole, oAt = oStart, oSize, oWhole, oAt, start, size, whole, at
	}
	k := get(docked, size)
	dAt, fAt, fSize := get(docked, start), get(flexed, start), get(flexed, size)
	across := []linear{get(docked, oStart), get(flexed, oStart), get(docked, oSize), get(flexed, oSize)}
	if v.r.failed() {
		return
	}
	rest := whole.minus(k)
	wantD, wantF := at, at.plus(k, ratInt(1))
	if dock == 0 || dock == 3 {
		wantD, wantF = at.plus(rest, ratInt(1)), at
	}
	why := func() string {
		var fs []string
		for _, f := range s.facts {
			fs = append(fs, f.String()+" ≥ 0")
		}
		return fmt.Sprintf("%s: docked at %s, %s large, the other at %s, %s large, where %s", name, dAt, k, fAt, fSize, strings.Join(fs, ", "))
	}
	bad := func(what string) { v.r.violate("panes", where, what, why()) }
	neg := func(l linear) linear { return l.times(ratInt(-1)).add(-1) }
	D, p := linVar("size"), linVar("percent")
	factors := []string{"cols", "percent"}
	if dock < 2 {
		factors = []string{"percent", "rows"}
	}
	share := linVar("⌊" + linVar(strings.Join(factors, "·")).times(big.NewRat(1, 100)).String() + "⌋")
	switch {
	case !s.same(across[0], oAt) || !s.same(across[1], oAt) || !s.same(across[2], oWhole) || !s.same(across[3], oWhole):
		bad("a pane isn't as wide, or as high, as the whole")
	case !s.same(dAt, wantD) || !s.same(fAt, wantF) || !s.same(fSize, rest):
		bad("the panes overlap, leave a gap, or are on the wrong side")
	case !s.rules(neg(k)) || !s.rules(neg(rest)):
		bad("a pane's size may be negative")
	case !s.rules(whole.add(-1), k.minus(whole)):
		bad("the docked pane may take all of the space")
	case !s.rules(k.minus(D).add(-1), k.add(-1)):
		bad("the docked pane may be larger than asked")
	case !s.rules(p.add(-1), share, k.minus(share).add(-1)):
		bad("the docked pane may be larger than its share")
	case !s.rules(p.times(ratInt(-1)), D.minus(k).add(-1), whole.minus(k).add(-2)),
		!s.rules(p.add(-1), share, D.minus(k).add(-1), whole.minus(k).add(-2), share.minus(k).add(-1)):
		bad("the docked pane may be smaller than it has to be")
	}
}

// both: drawing draws both panes.
func (v *panes) both(sp *ssa.Package, t types.Type) {
	fn := v.e.prog.LookupMethod(types.NewPointer(t), sp.Pkg, "FlushTo")
	if fn == nil || len(fn.Blocks) == 0 {
		v.r.undecided("the split view", "what draws it wasn't found")
		return
	}
	where := v.p.position(fn.Pos())
	f := v.fields(t)
	s := &kstate{mem: map[*kobj]*kv{}, base: v.e.base, rng: map[int][2]int64{}}
	o := v.e.obj("split view")
	z := kzero(t)
	z.fs[f["Docked"]] = ksym("some view", 1)
	z.fs[f["Flexed"]] = ksym("some view", 2)
	s.mem[o] = z
	for _, out := range v.e.run(fn, []*kv{{k: kPtr, o: o}, ksym("some screen", 0)}, nil, s, 0) {
		if out.s.odd != "" {
			v.r.undecided(where, out.s.odd)
			return
		}
		v.paths++
		drawn := map[int]int{}
		for _, l := range out.s.log {
			if l.what == "FlushTo" {
				drawn[l.n]++
			}
		}
		if drawn[1] != 1 || drawn[2] != 1 {
			v.r.violate("panes", where, "drawing a split view doesn't draw each of its panes once", "")
			return
		}
	}
}

// requests: what's asked of the event loop comes to it as an event.
func (v *panes) requests(sp *ssa.Package, t types.Type) {
	f := v.fields(t)
	at, ok := -1, false
	if st, is := t.Underlying().(*types.Struct); is {
		for i := 0; i < st.NumFields(); i++ {
			if n, is := st.Field(i).Type().(*types.Named); is && n.Obj().Name() == "Screen" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == tcellPkg {
				at, ok = i, true
			}
		}
	}
	if !ok || len(f) == 0 {
		v.r.undecided("the event loop", "where it keeps its screen wasn't found")
		return
	}
	for _, name := range []string{"RequestUpdate", "RequestRepaint"} {
		fn := v.e.prog.LookupMethod(types.NewPointer(t), sp.Pkg, name)
		if fn == nil || len(fn.Blocks) == 0 {
			v.r.undecided("the event loop", name+" wasn't found")
			return
		}
		where := v.p.position(fn.Pos())
		for _, running := range []bool{true, false} {
			s := &kstate{mem: map[*kobj]*kv{}, base: v.e.base, rng: map[int][2]int64{}}
			o := v.e.obj("runner")
			z := kzero(t)
			if running {
				z.fs[at] = ksym("some screen", 0)
			}
			s.mem[o] = z
			args := []*kv{{k: kPtr, o: o}, ksym("some view", 7)}
			for _, out := range v.e.run(fn, args[:1+fn.Signature.Params().Len()], nil, s, 0) {
				if out.s.odd != "" {
					v.r.undecided(where, out.s.odd)
					return
				}
				v.paths++
				posted := 0
				for _, l := range out.s.log {
					if l.what != "posted" {
						continue
					}
					posted++
					if name == "RequestUpdate" && l.n != 7 {
						v.r.violate("panes", where, "a request for an update doesn't hand the new view on", "")
						return
					}
					if name == "RequestRepaint" && l.n != 0 {
						v.r.violate("panes", where, "a request for a repaint hands on something else", "")
						return
					}
				}
				switch {
				case out.end:
					v.r.violate("panes", where, "a request to the event loop may crash", fmt.Sprint("running: ", running))
				case running && posted != 1:
					v.r.violate("panes", where, fmt.Sprintf("a request is handed to the event loop %d times", posted), "")
				}
				if v.r.failed() {
					return
				}
			}
		}
	}
}

const (
	evResize = iota
	evView
	evRepaint
	evOther
)

var evNames = []string{"a resize", "a new view", "a repaint", "another event"}

// loop: the event loop's views.
func (v *panes) loop(sp *ssa.Package, t types.Type) {
	fn := v.e.prog.LookupMethod(types.NewPointer(t), sp.Pkg, "Run")
	if fn == nil || len(fn.Blocks) == 0 || fn.Signature.Params().Len() != 2 {
		v.r.undecided("the event loop", "what runs it wasn't found")
		return
	}
	where := v.p.position(fn.Pos())
	f := v.fields(t)
	mk, ok := f["MakeScreen"]
	if !ok {
		v.r.undecided(where, "what makes the screen wasn't found")
		return
	}
	v.e.spawn = func(s *kstate, d kdefer) {
		v.went = append(v.went, d)
		s.log = append(s.log, kevent{what: "went", n: len(v.went) - 1})
	}
	v.e.recv = func(s *kstate, ch types.Type, ok bool) []kout {
		return []kout{{s: s, res: []*kv{{k: kTuple, fs: []*kv{kunk, kbool(false)}}}}}
	}
	v.e.send = func(s *kstate, ch types.Type, x *kv) []kout { return []kout{{s: s}} }
	// all sequences of three events
	for n := 0; n < 64; n++ {
		v.script = []int{n % 4, n / 4 % 4, n / 16}
		for _, initial := range []bool{true, false} {
			v.went = nil
			s := &kstate{mem: map[*kobj]*kv{}, base: v.e.base, rng: map[int][2]int64{}}
			o := v.e.obj("runner")
			z := kzero(t)
			z.fs[mk] = ksym("some maker", 0)
			if i, ok := f["KeyHandler"]; ok {
				z.fs[i] = ksym("some handler", 0)
			}
			s.mem[o] = z
			first := &kv{k: kNil}
			if initial {
				first = ksym("some view", 100)
			}
			outs := v.e.run(fn, []*kv{{k: kPtr, o: o}, ksym("some context", 0), first}, nil, s, 0)
			followed := false
			for _, out := range outs {
				if out.s.odd != "" {
					v.r.undecided(where, out.s.odd)
					return
				}
				if out.end {
					v.r.violate("panes", where, "the event loop's start may crash", "")
					return
				}
				for _, l := range out.s.log {
					if l.what != "went" {
						continue
					}
					s := out.s.clone()
					s.log, s.forks, s.steps = nil, 0, 0
					g := v.went[l.n]
					for _, end := range v.e.call(g.call, g.fn, g.args, s, 1) {
						if end.s.odd != "" {
							v.r.undecided(where, end.s.odd)
							return
						}
						polled := false
						for _, l := range end.s.log {
							polled = polled || l.what == "polled"
						}
						if !polled {
							continue
						}
						followed = true
						v.paths++
						v.judge(where, end, initial)
						if v.r.failed() {
							return
						}
					}
				}
			}
			if !followed {
				v.r.undecided(where, "the goroutine that handles events wasn't found")
				return
			}
		}
	}
	v.r.cover("sequences_of_events", 128)
}

func (v *panes) judge(where string, end kout, initial bool) {
	var what []string
	for _, n := range v.script {
		what = append(what, evNames[n])
	}
	seq := "after " + strings.Join(what, ", ")
	if !initial {
		seq += ", without a first view"
	}
	bad := func(what, more string) { v.r.violate("panes", where, what, seq+more) }
	if end.end {
		bad("the event loop may crash or never end", "")
		return
	}
	current := 0
	if initial {
		current = 100
	}
	// what happened since each event
	var rounds [][]kevent
	for _, l := range end.s.log {
		if l.what == "polled" {
			rounds = append(rounds, nil)
		} else if len(rounds) > 0 {
			rounds[len(rounds)-1] = append(rounds[len(rounds)-1], l)
		}
	}
	if len(rounds) != len(v.script)+1 {
		bad("the event loop ends before the events do", "")
		return
	}
	resized := 0 // the first round whose size is the current one
	for i, ev := range v.script {
		switch ev {
		case evView:
			current = i + 1
		case evResize:
			resized = i + 1
		}
		sized, cleared, drawn, shown := false, false, false, false
		for _, l := range rounds[i] {
			switch l.what {
			case "nothing":
				bad("the event loop uses a view that isn't there", "")
				return
			case "SetBox":
				if l.n != current {
					break
				}
				b := v.fields(v.box)
				c, r := kget(l.v, []int{b["Cols"]}), kget(l.v, []int{b["Rows"]})
				zero := kget(l.v, []int{b["StartCol"]}).String() == "0" && kget(l.v, []int{b["StartRow"]}).String() == "0"
				now := c.k == kSym && r.k == kSym && c.sym == "cols" && r.sym == "rows" && c.ev == r.ev && c.ev/1000 >= resized
				if !zero || !now {
					bad("a view isn't given the whole of the current screen", fmt.Sprintf(": %s by %s", c, r))
					return
				}
				sized, drawn, shown = true, false, false
			case "clear":
				cleared, drawn, shown = true, false, false
			case "FlushTo":
				if l.n != current {
					bad("a view is drawn that isn't the latest", "")
					return
				}
				drawn, shown = true, false
			case "show":
				shown = true
			}
		}
		if current == 0 || ev == evOther {
			continue
		}
		switch {
		case ev != evRepaint && !sized:
			bad("a view isn't given the current size after "+evNames[ev], "")
		case ev != evRepaint && !cleared:
			bad("the screen isn't cleared after "+evNames[ev], "")
		case !drawn || !shown:
			bad("the latest view isn't drawn and shown after "+evNames[ev], "")
		}
		if v.r.failed() {
			return
		}
	}
}

func (v *panes) ext(s *kstate, c *ssa.CallCommon, fv *kv, args []*kv) []kout {
	one := func(x ...*kv) []kout { return []kout{{s: s, res: x}} }
	polls := 0
	for _, l := range s.log {
		if l.what == "polled" {
			polls++
		}
	}
	size := func() []kout {
		v.n++
		return one(ksym("cols", polls*1000+v.n%1000), ksym("rows", polls*1000+v.n%1000))
	}
	if c.IsInvoke() {
		switch name := c.Method.Name(); {
		case fv.k == kNil:
			s.log = append(s.log, kevent{what: "nothing"})
			return []kout{{s: s, end: true}}
		case fv.k == kSym && fv.sym == "some view" && (name == "SetBox" || name == "FlushTo"):
			s.log = append(s.log, kevent{what: name, n: fv.ev, v: args[0]})
			return one()
		case fv.k == kSym && fv.sym == "some screen":
			switch name {
			case "PollEvent":
				s.log = append(s.log, kevent{what: "polled"})
				if polls >= len(v.script) {
					return one(&kv{k: kNil})
				}
				typ := []string{"EventResize", "EventInterrupt", "EventInterrupt", "EventMouse"}[v.script[polls]]
				if t := v.tcell(typ); t != nil {
					return one(&kv{k: kIface, typ: types.NewPointer(t), fs: []*kv{ksym("some event", polls+1)}})
				}
				s.odd = "the terminal library's events weren't found"
				return []kout{{s: s, end: true}}
			case "Size":
				return size()
			case "Clear":
				s.log = append(s.log, kevent{what: "clear"})
				return one()
			case "Show", "Sync":
				s.log = append(s.log, kevent{what: "show"})
				return one()
			case "Init":
				return one(&kv{k: kNil})
			case "PostEvent", "PostEventWait":
				n := -1
				a := args[0]
				if a.k == kIface {
					a = a.fs[0]
				}
				if a.k == kSym && a.sym == "some request" {
					n = a.ev
				}
				s.log = append(s.log, kevent{what: "posted", n: n})
				return nil
			}
		}
		return nil
	}
	if fv.k == kSym && fv.sym == "some maker" {
		return one(ksym("some screen", 0), &kv{k: kNil})
	}
	if fn := c.StaticCallee(); fn != nil && fn.Name() == "NewEventInterrupt" && len(args) == 1 {
		switch a := args[0]; {
		case a.k == kNil:
			return one(ksym("some request", 0))
		case a.k == kSym && a.sym == "some view":
			return one(ksym("some request", a.ev))
		}
		return one(ksym("some request", -1))
	}
	if fn := c.StaticCallee(); fn != nil && len(args) > 0 && (args[0].k == kLin || args[len(args)-1].k == kLin) {
		switch name := fn.String(); name {
		case "math.Floor", "math.Trunc":
			return one(&kv{k: kLin, lin: s.floor(args[0].lin)})
		case "math.Min", "math.Max":
			x, ok1 := linOf(args[0])
			y, ok2 := linOf(args[1])
			if ok1 && ok2 {
				t := s.clone()
				s.facts = append(s.facts, y.minus(x))
				t.facts = append(t.facts, x.minus(y))
				if name == "math.Max" {
					args = []*kv{args[1], args[0]}
				}
				return []kout{{s: s, res: []*kv{args[0]}}, {s: t, res: []*kv{args[1]}}}
			}
		}
	}
	if fn := c.StaticCallee(); fn != nil && len(args) > 0 && args[0].k == kSym && args[0].sym == "some event" {
		switch fn.Name() {
		case "Size":
			return size()
		case "Data":
			if v.script[args[0].ev-1] == evView {
				return one(ksym("some view", args[0].ev))
			}
			return one(&kv{k: kNil})
		}
	}
	return nil
}

func (v *panes) tcell(name string) types.Type {
	for _, pk := range v.p.Pkgs {
		for _, imp := range pk.Types.Imports() {
			if imp.Path() == tcellPkg {
				if o := imp.Scope().Lookup(name); o != nil {
					return o.Type()
				}
			}
		}
	}
	return nil
}
