package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C11", Rule: "typestate of HTTP responses: on every path of every data source's fetch, a response that was received is closed before the fetch returns, isn't read after that, and no fetch returns without an error unless the response's status is known to be a success", Run: runC11})
	register(&Check{ID: "C12", Rule: "context flow: in every function that is given a context, each context that reaches outside code that may wait, each HTTP request that is sent and each cancellation channel that is waited for derives from the context that was given", Run: runC12})
	register(&Check{ID: "C13", Rule: "typestate of cancellation: waits for time or input in functions that are given a context also wait (or look) for cancellation, nothing new is started after it was seen, the screen is set up and shut down once, and goroutines that use the screen are waited for", Run: runC13})
}

// ---------------------------------------------------------------- C11

const respTag = "response"

type httpClient struct {
	NoClient
	sites map[string]bool
	uses  map[string]bool
	resp  map[*Obj]bool
}

func isNamed(t types.Type, pkg, name string) bool {
	n := namedOf(t)
	return n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkg && n.Obj().Name() == name
}

func respIndex(sig *types.Signature) int {
	r := sig.Results()
	for i := 0; r != nil && i < r.Len(); i++ {
		if _, ok := r.At(i).Type().Underlying().(*types.Pointer); ok && isNamed(r.At(i).Type(), "net/http", "Response") {
			return i
		}
	}
	return -1
}

func (h *httpClient) Ambient(in *Interp, l Loc, t types.Type) *Val {
	if l.o.tag != respTag || !h.resp[l.o] {
		return nil
	}
	switch l.p {
	case ".StatusCode":
		return &Val{nl: 3, b: 3, num: &numInfo{sym: fmt.Sprintf("status:%d", l.o.id), div: 1}}
	case ".Body":
		return &Val{refs: []Loc{{in.derived(nil, l, t), ""}}, nl: mayNonNil, b: 3}
	}
	return nil
}

// respOf: the responses that a value belongs to.
func (h *httpClient) respOf(in *Interp, v *Val) map[*Obj]bool {
	out := map[*Obj]bool{}
	if v == nil {
		return out
	}
	for _, l := range append(append([]Loc{}, v.refs...), in.carriedAll(v)...) {
		if h.resp[l.o] {
			out[l.o] = true
		}
	}
	return out
}

func (h *httpClient) Ext(in *Interp, fr *Frame, ps *PState, c *ExtCall) ([]Outcome, bool) {
	recv := c.Recv
	if recv == nil && c.Static && c.Sig.Recv() != nil && len(c.Args) > 0 {
		recv = c.Args[0]
	}
	all := append([]*Val{}, c.Args...)
	if c.Recv != nil {
		all = append(all, c.Recv)
	}
	if strings.HasSuffix(c.Name, ").Close") && recv != nil && len(recv.refs) > 0 {
		if rs := h.respOf(in, recv); len(rs) == 1 {
			for o := range rs {
				ps.st = ps.st.withoutFact(fmt.Sprintf("open:%d", o.id)).clone()
			}
			return nil, false
		}
	}
	for _, a := range all {
		for _, l := range a.refs {
			if l.o.tag != respTag {
				continue
			}
			h.uses[in.p.instrPos(c.Instr)] = true
			for o := range h.respOf(in, &Val{refs: []Loc{l}}) {
				if l.o != o && !ps.st.has(fmt.Sprintf("open:%d", o.id)) {
					in.event(fr, ps, &Event{Kind: "stale", Detail: c.Name}, c.Instr)
				}
			}
		}
	}
	return nil, false
}

func (h *httpClient) Post(in *Interp, fr *Frame, ps *PState, c *ExtCall, outs []Outcome) []Outcome {
	ri := respIndex(c.Sig)
	ei := errorResult(c.Sig)
	if ri < 0 || ei < 0 {
		return outs
	}
	h.sites[shortCallee(c.Name)+"@"+in.p.instrPos(c.Instr)] = true
	var res []Outcome
	for _, o := range outs {
		v := in.resultObj(o.st, c.Key, respTag, c.Sig.Results().At(ri).Type(), o.res[ri])
		ro := v.refs[0].o
		h.resp[ro] = true
		ok := Outcome{o.st.withFacts(fmt.Sprintf("open:%d", ro.id), fmt.Sprintf("got:%d", ro.id)).clone(), append([]*Val{}, o.res...)}
		in.killSym(ok.st, fmt.Sprintf("status:%d", ro.id))
		ok.st.own(ro)
		ok.res[ri], ok.res[ei] = v, nilVal
		fl := Outcome{o.st.clone(), append([]*Val{}, o.res...)}
		fl.res[ri], fl.res[ei] = nilVal, &Val{nl: mayNonNil, b: 3}
		res = append(res, ok, fl)
	}
	return res
}

// fnRoot makes a call of fn, with arguments from outside, one of the roots.
func fnRoot(in *Interp, fn *ssa.Function, prep func(st *State, args []*Val) *State, done func(fr *Frame, o Outcome)) {
	id := "fn:" + fn.String()
	in.Root(id, "a call of "+fnName(fn), false, func(in *Interp, th *Thread) {
		fr := &Frame{th: th, ctx: id}
		st := emptyState()
		args := make([]*Val, len(fn.Params))
		for i, pa := range fn.Params {
			args[i] = in.outside(st, fmt.Sprintf("%s:%d", id, i), pa.Type())
			if i == 0 && fn.Signature.Recv() != nil {
				args[i] = args[i].clone()
				args[i].nl = mayNonNil
			}
		}
		if prep != nil {
			st = prep(st, args)
		}
		for _, o := range in.call(fr, fn, args, nil, st, nil) {
			if done != nil {
				done(fr, o)
			}
			in.event(fr, &PState{st: o.st}, &Event{Kind: "exit", Fn: fnName(fn), Pos: in.p.position(fn.Pos()), Vals: o.res}, nil)
		}
	})
}

// sourceMethods: the methods by which the repository's data sources fetch.
func (p *Program) sourceMethods() []*ssa.Function {
	it := p.lookupIface(modPath+"/promq/prom", "DataSource")
	if it == nil {
		return nil
	}
	seen := map[*ssa.Function]bool{}
	var fns []*ssa.Function
	for _, t := range p.implementers(it) {
		for i := 0; i < it.NumMethods(); i++ {
			if f := p.method(t, it.Method(i).Name()); f != nil && f.Blocks != nil && !seen[f] && f.Synthetic == "" {
				seen[f] = true
				fns = append(fns, f)
			}
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	return fns
}

func runC11(p *Program, r *Report) {
	h := &httpClient{sites: map[string]bool{}, uses: map[string]bool{}, resp: map[*Obj]bool{}}
	in := newInterp(p, h)
	in.Root("setup", "the set-up", false, func(in *Interp, th *Thread) { in.runInit(th) })
	fns := p.sourceMethods()
	ok := 0
	for _, fn := range fns {
		fn := fn
		fnRoot(in, fn, nil, func(fr *Frame, o Outcome) {
			for _, f := range o.st.facts {
				if !strings.HasPrefix(f, "got:") || len(o.res) == 0 || o.res[len(o.res)-1].nl&mayNil == 0 {
					continue
				}
				sp, has := o.st.spans["status:"+f[4:]]
				if !has || sp.lo < 200 || sp.hi > 299 {
					in.event(fr, &PState{st: o.st}, &Event{Kind: "success", Fn: fnName(fn), Pos: in.p.position(fn.Pos())}, nil)
				} else {
					ok++
				}
			}
		})
	}
	in.Solve()
	exits := 0
	for _, e := range in.events {
		switch e.Kind {
		case "stale":
			r.violate("a response is read after it was closed", e.Pos, e.Detail+" in "+e.Fn, "")
		case "success":
			r.violate("an unsuccessful response counts as data", e.Pos, e.Fn+" may return no error", "without the response's status being known to be a success")
		case "exit":
			exits++
			for _, f := range e.Facts {
				if strings.HasPrefix(f, "open:") {
					r.violate("a response isn't closed", e.Pos, e.Fn+" may return without closing the response", "")
				}
			}
		}
	}
	r.atLeast("data_sources", len(fns), 2)
	r.atLeast("http_requests", len(h.sites), 1)
	r.atLeast("uses_of_responses", len(h.uses), 1)
	r.atLeast("successful_returns_with_checked_status", ok, 1)
	r.atLeast("returns_examined", exits, 4)
	in.finish(r)
	r.assume("a request that fails comes with no response to close, as net/http documents")
}

// ---------------------------------------------------------------- C12, C13

const (
	ctxOK  = "ctx-given"
	ctxBad = "ctx-other"
)

type ctxClient struct {
	NoClient
	sinks map[string]bool
	waits map[string]bool
	looks map[string]bool
}

func isCtx(t types.Type) bool     { return isNamed(t, "context", "Context") }
func isRequest(t types.Type) bool { return isNamed(t, "net/http", "Request") }
func isCtxish(t types.Type) bool  { return isCtx(t) || isRequest(t) }

func given(v *Val) bool {
	if v == nil || len(v.refs) == 0 {
		return false
	}
	for _, l := range v.refs {
		if l.o.tag != ctxOK {
			return false
		}
	}
	return true
}

func (x *ctxClient) Ambient(in *Interp, l Loc, t types.Type) *Val { return nil }

func (x *ctxClient) hasOther(v *Val) bool {
	for _, l := range v.refs {
		if l.o.tag != ctxOK {
			return true
		}
	}
	return len(v.refs) == 0
}

func makesCtx(name string) bool {
	return strings.HasPrefix(name, "context.") || name == "net/http.NewRequestWithContext" || name == "net/http.NewRequest" || strings.HasPrefix(name, "(*net/http.Request).") || name == "os/signal.NotifyContext"
}

func (x *ctxClient) bad(in *Interp, fr *Frame, ps *PState, c *ExtCall, what string) {
	in.event(fr, ps, &Event{Kind: "otherctx", Detail: what}, c.Instr)
}

func (x *ctxClient) Ext(in *Interp, fr *Frame, ps *PState, c *ExtCall) ([]Outcome, bool) {
	pos := in.p.instrPos(c.Instr)
	switch c.Name {
	case "(context.Context).Done", "(context.Context).Err":
		x.sinks[c.Name+"@"+pos] = true
		if x.hasOther(c.Recv) {
			x.bad(in, fr, ps, c, "asks a context for cancellation that isn't the given one")
		}
		if strings.HasSuffix(c.Name, "Err") {
			x.looks[pos] = true
			ps.st = ps.st.withFacts("looked").clone()
			return in.one(ps, &Val{nl: 3, b: 3, im: &implied{onNonNil: []string{"cancelled"}}}), true
		}
		return nil, false
	case "(*sync.WaitGroup).Done", "(*sync.WaitGroup).Wait":
		f := "closed:wg"
		if strings.HasSuffix(c.Name, "Wait") {
			f = "recv:wg"
			for _, l := range c.Args[0].refs {
				x.joins(in, fr, ps, fmt.Sprintf("wg%d%s", l.o.id, l.p), c.Instr)
			}
		}
		for _, l := range c.Args[0].refs {
			ps.st = ps.st.withFacts(fmt.Sprintf("%s%d%s", f, l.o.id, l.p)).clone()
		}
	case "time.Sleep":
		x.waits[pos] = true
		in.event(fr, ps, &Event{Kind: "timewait", Detail: "time.Sleep"}, c.Instr)
	case "(*github.com/c-bata/go-prompt.Prompt).Input":
		x.waits[pos] = true
		if !ps.st.has("looked") {
			in.event(fr, ps, &Event{Kind: "nolook", Detail: "asks for input"}, c.Instr)
		}
		if ps.st.has("stop") {
			in.event(fr, ps, &Event{Kind: "goeson", Detail: "asks for input although it was told to stop"}, c.Instr)
		}
		ps.st = ps.st.withoutFact("looked").clone()
	case "(github.com/gdamore/tcell.Screen).Fini":
		if !ps.st.has("screen:up") {
			in.event(fr, ps, &Event{Kind: "badfini", Detail: "the screen is shut down without being up"}, c.Instr)
		}
		if !ps.st.has("cancelled") && fr.th.root {
			in.event(fr, ps, &Event{Kind: "badfini", Detail: "the screen is shut down before cancellation"}, c.Instr)
		}
		ps.st = ps.st.withoutFact("screen:up").withFacts("screen:down").clone()
	case "(func value)":
		if c.Sig.Params().Len() == 0 && c.Sig.Results().Len() == 0 {
			ps.st = ps.st.withoutFact("stop").clone()
		}
	}
	if strings.HasPrefix(c.Name, "(github.com/gdamore/tcell.Screen).") && ps.st.has("screen:down") && !strings.HasSuffix(c.Name, ").Fini") {
		in.event(fr, ps, &Event{Kind: "badfini", Detail: "the screen is used after it was shut down"}, c.Instr)
	}
	if ps.st.has("cancelled") && startsWork(c.Name) {
		in.event(fr, ps, &Event{Kind: "goeson", Detail: c.Name + " after cancellation was seen"}, c.Instr)
	}
	if makesCtx(c.Name) {
		return nil, false
	}
	for i, a := range c.Args {
		j := i
		if c.Static && c.Sig.Recv() != nil {
			j--
		}
		if j < 0 || j >= c.Sig.Params().Len() || !isCtxish(c.Sig.Params().At(j).Type()) {
			continue
		}
		x.sinks[c.Name+"@"+pos] = true
		if x.hasOther(a) {
			x.bad(in, fr, ps, c, "hands a context to "+c.Name+" that isn't the given one")
		}
	}
	if strings.HasPrefix(c.Name, "net/http.") || strings.HasPrefix(c.Name, "(*net/http.Client).") {
		if respIndex(c.Sig) >= 0 {
			x.sinks[c.Name+"@"+pos] = true
			n := 0
			for i := 0; i < c.Sig.Params().Len(); i++ {
				if isCtxish(c.Sig.Params().At(i).Type()) {
					n++
				}
			}
			if n == 0 {
				x.bad(in, fr, ps, c, "sends an HTTP request by "+c.Name+", without any context")
			}
		}
	}
	return nil, false
}

func startsWork(name string) bool {
	return name == queryExec || strings.HasPrefix(name, "(*net/http.Client).") || strings.HasPrefix(name, "("+modPath+"/promq/prom.DataSource).") || strings.HasSuffix(name, "go-prompt.Prompt).Input") || name == "time.Sleep"
}

func (x *ctxClient) Post(in *Interp, fr *Frame, ps *PState, c *ExtCall, outs []Outcome) []Outcome {
	if strings.HasSuffix(c.Name, "tcell.Screen).Init") {
		var res []Outcome
		for _, o := range outs {
			res = append(res, Outcome{o.st.withFacts("screen:up").withoutFact("screen:down").clone(), []*Val{nilVal}},
				Outcome{o.st.clone(), []*Val{{nl: mayNonNil, b: 3}}})
		}
		return res
	}
	rs := c.Sig.Results()
	if c.Name == "(func value)" && rs.Len() > 0 && types.Identical(rs.At(rs.Len()-1).Type(), types.Typ[types.Bool]) {
		for i := range outs {
			res := append([]*Val{}, outs[i].res...)
			res[len(res)-1] = &Val{nl: 3, b: 3, im: &implied{onTrue: []string{"stop"}}}
			outs[i].res = res
		}
		return outs
	}
	if !makesCtx(c.Name) {
		return outs
	}
	ok, n := true, 0
	args := c.Args
	off := 0
	if c.Static && c.Sig.Recv() != nil {
		off = 1
	}
	for i := 0; i < c.Sig.Params().Len() && i+off < len(args); i++ {
		if isCtxish(c.Sig.Params().At(i).Type()) {
			n++
			ok = ok && given(args[i+off])
		}
	}
	if n == 0 {
		ok = off == 1 && isCtxish(c.Sig.Recv().Type()) && given(args[0])
	}
	if c.Name == "context.WithoutCancel" {
		ok = false
	}
	for i := 0; i < rs.Len(); i++ {
		if !isCtxish(rs.At(i).Type()) {
			continue
		}
		tag := ctxBad
		if ok {
			tag = ctxOK
		}
		for k := range outs {
			res := append([]*Val{}, outs[k].res...)
			v := in.resultObj(outs[k].st, c.Key+c.Name, tag, rs.At(i).Type(), res[i])
			outs[k].st.own(v.refs[0].o)
			res[i] = v
			outs[k].res = res
		}
	}
	return outs
}

// Callback: what is seen inside of a callback isn't what the loop saw.
func (x *ctxClient) Callback(in *Interp, before *State, fn *ssa.Function, o Outcome) *State {
	st := o.st
	for _, f := range []string{"cancelled", "looked", "stop", "screen:up", "screen:down"} {
		if before.has(f) {
			st = st.withFacts(f)
		} else {
			st = st.withoutFact(f)
		}
	}
	return st.clone()
}

func (x *ctxClient) Instr(in *Interp, fr *Frame, ps *PState, i ssa.Instruction) {
	switch s := i.(type) {
	case *ssa.UnOp:
		if s.Op.String() != "<-" {
			return
		}
		v := in.val(ps, s.X)
		x.waits[in.p.instrPos(i)] = true
		for _, l := range v.refs {
			x.joins(in, fr, ps, fmt.Sprint(l.o.id), i)
		}
		if given(v) {
			ps.st = ps.st.withFacts("cancelled", "looked").clone()
			x.looks[in.p.instrPos(i)] = true
			return
		}
		if isTimeChan(s.X.Type()) {
			in.event(fr, ps, &Event{Kind: "timewait", Detail: "a wait for a timer"}, i)
		}
	case *ssa.Send:
		for _, l := range in.val(ps, s.Chan).refs {
			ps.st = ps.st.withFacts(fmt.Sprintf("closed:%d", l.o.id)).clone()
		}
	case *ssa.Select:
		look, timer := false, false
		for _, st := range s.States {
			v := in.val(ps, st.Chan)
			look = look || given(v)
			timer = timer || isTimeChan(st.Chan.Type())
		}
		if s.Blocking {
			x.waits[in.p.instrPos(i)] = true
		}
		if look {
			x.looks[in.p.instrPos(i)] = true
			if timer && ps.st.has("cancelled") {
				in.event(fr, ps, &Event{Kind: "goeson", Detail: "goes on waiting after cancellation was seen"}, i)
			}
			ps.st = ps.st.withFacts("looked").clone()
		} else if timer && s.Blocking {
			in.event(fr, ps, &Event{Kind: "timewait", Detail: "a wait for a timer"}, i)
		}
	}
}

// joins: something is waited for while the screen is up.
func (x *ctxClient) joins(in *Interp, fr *Frame, ps *PState, what string, i ssa.Instruction) {
	if ps.st.has("screen:up") {
		in.event(fr, ps, &Event{Kind: "joinup", Detail: what}, i)
	}
}

func isTimeChan(t types.Type) bool {
	ch, ok := t.Underlying().(*types.Chan)
	return ok && isNamed(ch.Elem(), "time", "Time")
}

// Received: a case of a select was taken.
func (x *ctxClient) Received(in *Interp, fr *Frame, st *State, ch *Val) *State {
	if given(ch) {
		return st.withFacts("cancelled").clone()
	}
	return st
}

func ctxHarness(p *Program, r *Report, x *ctxClient) *Interp {
	in := newInterp(p, x)
	in.Root("setup", "the set-up", false, func(in *Interp, th *Thread) { in.runInit(th) })
	var fns []*ssa.Function
	for _, f := range p.Funcs {
		if f.Parent() != nil || f.Blocks == nil || f.Synthetic != "" {
			continue
		}
		for _, pa := range f.Params {
			if isCtx(pa.Type()) {
				fns = append(fns, f)
				break
			}
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	var names []string
	for _, fn := range fns {
		fn := fn
		names = append(names, fnName(fn))
		fnRoot(in, fn, func(st *State, args []*Val) *State {
			for i, pa := range fn.Params {
				if isCtx(pa.Type()) {
					for _, l := range args[i].refs {
						l.o.tag = ctxOK
					}
					args[i].nl = mayNonNil
				}
			}
			return st.withFacts("looked").clone()
		}, nil)
	}
	in.Solve()
	r.cover("functions_that_are_given_a_context", names)
	r.atLeast("functions", len(fns), 6)
	return in
}

func runC12(p *Program, r *Report) {
	x := &ctxClient{sinks: map[string]bool{}, waits: map[string]bool{}, looks: map[string]bool{}}
	in := ctxHarness(p, r, x)
	for _, e := range in.events {
		if e.Kind == "otherctx" {
			r.violate("a context is lost", e.Pos, e.Fn+" "+e.Detail, "in "+e.Thread)
		}
	}
	r.atLeast("uses_of_contexts_examined", len(x.sinks), 6)
	in.finish(r)
}

func runC13(p *Program, r *Report) {
	x := &ctxClient{sinks: map[string]bool{}, waits: map[string]bool{}, looks: map[string]bool{}}
	in := ctxHarness(p, r, x)
	exits, screens := 0, 0
	ends := map[string][]*Event{}
	for _, e := range in.events {
		switch e.Kind {
		case "goeson":
			r.violate("work goes on after the end", e.Pos, e.Fn+" "+e.Detail, "")
		case "nolook":
			r.violate("cancellation isn't looked for", e.Pos, e.Fn+" "+e.Detail+" without looking for cancellation first", "")
		case "timewait":
			r.violate("a wait can't be cancelled", e.Pos, e.Detail+" in "+e.Fn, "without waiting for cancellation at the same time")
		case "badfini":
			r.violate("the screen isn't shut down properly", e.Pos, e.Detail+" in "+e.Fn, "")
		case "exit":
			exits++
			ends[e.Thread] = append(ends[e.Thread], e)
			if hasStr(e.Facts, "screen:up") {
				r.violate("the screen isn't shut down properly", e.Pos, e.Fn+" may return while the screen is still set up", "")
			}
			if hasStr(e.Facts, "screen:down") {
				screens++
			}
			if hasStr(e.Facts, "stop") {
				r.violate("a request to stop is dropped", e.Pos, e.Fn+" may end without having stopped the screen", "after its input handler asked for it")
			}
		}
	}
	// goroutines that use the screen are waited for
	users := map[string]string{}
	for _, e := range in.events {
		if e.Kind == "ext" && strings.HasSuffix(e.Detail, "tcell.Screen).PollEvent") && !strings.HasPrefix(e.Thread, "fn:") {
			users[e.Thread] = e.Pos
		}
	}
	for id, pos := range users {
		parent := in.threads[id].parent
		if len(ends[id]) == 0 {
			r.violate("a goroutine never ends", pos, "the event loop never ends", "")
			continue
		}
		done := append([]string{}, closings(ends[id][0].Facts)...)
		for _, e := range ends[id][1:] {
			done = interStr(done, closings(e.Facts))
		}
		// what is closed before the screen is used for the last time says nothing
		for _, e := range in.events {
			if e.Thread == id && e.Kind == "ext" && strings.Contains(e.Detail, "tcell.Screen).") {
				var keep []string
				for _, d := range done {
					if !hasStr(e.Facts, "closed:"+d) {
						keep = append(keep, d)
					}
				}
				done = keep
			}
		}
		for _, e := range in.events {
			if e.Kind == "joinup" && hasStr(done, e.Detail) {
				r.violate("the end is waited for too early", e.Pos, e.Fn+" waits for the event loop while the screen is still up", "the event loop only ends once the screen is shut down")
			}
		}
		waited := 0
		for _, e := range ends[parent] {
			if !hasStr(e.Facts, "screen:down") {
				continue
			}
			ok := false
			for _, d := range done {
				ok = ok || hasStr(e.Facts, "recv:"+d)
			}
			if !ok {
				r.violate("a goroutine outlives the screen", e.Pos, e.Fn+" may return before the event loop has ended", "started at "+in.threads[id].pos)
			}
			waited++
		}
		r.atLeast("returns_that_wait_for_the_event_loop", waited, 1)
	}
	r.atLeast("event_loops", len(users), 1)
	r.atLeast("waits_examined", len(x.waits), 5)
	r.atLeast("looks_for_cancellation", len(x.looks), 4)
	r.atLeast("returns_with_the_screen_shut_down", screens, 1)
	r.atLeast("returns_examined", exits, 8)
	in.finish(r)
}

// closings: the channels that were closed or sent on.
func closings(facts []string) []string {
	var out []string
	for _, f := range facts {
		if strings.HasPrefix(f, "closed:") {
			out = append(out, f[7:])
		}
	}
	return out
}
