package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// This file models code outside of the repository.

// externally synchronised or immutable types: calls on them don't count as accesses
var safeRecv = []string{
	"net/http.Client", "net/http.Request", "net/http.Response", "log.Logger", "os.File", "github.com/prometheus/prometheus/promql.Engine",
	"context.", "time.", "sync.", "github.com/gdamore/tcell.Screen", "k8s.io/", "github.com/spf13/",
	"github.com/fatih/color", "regexp.", "math/rand.",
}

// methods that don't change their pointer receiver
var readOnlyMethods = map[string]bool{
	"(*github.com/gdamore/tcell.CellBuffer).GetContent": true,
	"(*github.com/gdamore/tcell.CellBuffer).Size":       true,
	"(*strings.Builder).String":                         true,
	"(*strings.Builder).Len":                            true,
	"(*bytes.Buffer).String":                            true,
	"(*bytes.Buffer).Len":                               true,
	"(*bytes.Buffer).Bytes":                             true,
}

// functions that change the memory their (slice) arguments refer to
var mutators = []string{"sort.", "slices.Sort", "slices.Reverse", "math/rand.Shuffle"}

// functions that look at their arguments through reflection
func reflective(name string) bool {
	for _, p := range []string{"fmt.", "encoding/json.", "gopkg.in/yaml.v2.", "reflect.", "log.", "(*log.Logger)", "(*github.com/hokaccha/go-prettyjson"} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

func safeName(name string) bool {
	n := strings.TrimLeft(name, "(*")
	for _, s := range safeRecv {
		if strings.HasPrefix(n, s) {
			return true
		}
	}
	return false
}

// noCallback: outside methods that never call back into what they hold on to
func noCallback(name string) bool {
	n := strings.TrimLeft(name, "(*")
	for _, s := range []string{"github.com/gdamore/tcell.", "context.", "github.com/prometheus/prometheus/promql.Engine", "fmt.", "reflect.", "log.", "errors.", "strings.", "strconv."} {
		if strings.HasPrefix(n, s) {
			return true
		}
	}
	return strings.HasSuffix(name, ").Close") && strings.Contains(name, "promql")
}

var blockingCalls = map[string]string{
	"time.Sleep":             "sleep",
	"(*sync.WaitGroup).Wait": "wait for goroutines",
	"(*sync.Cond).Wait":      "wait for a condition",
	"(*net/http.Client).Do":  "HTTP request",
	"(*net/http.Client).Get": "HTTP request",
	"net/http.Get":           "HTTP request",
	"io.ReadAll":             "network read",
	"io/ioutil.ReadAll":      "network read",
	"io.Copy":                "network read",
	"(io.Reader).Read":       "network read",
	"(github.com/prometheus/prometheus/promql.Query).Exec": "query evaluation",
	"(github.com/gdamore/tcell.Screen).PollEvent":          "wait for a terminal event",
	"(github.com/gdamore/tcell.Screen).PostEventWait":      "wait for room in the event queue",
	"(*github.com/c-bata/go-prompt.Prompt).Input":          "wait for user input",
	"(*github.com/c-bata/go-prompt.Prompt).Run":            "wait for user input",
}

func lockOp(name string) (op string, ok bool) {
	switch name {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
		return "Lock", true
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock":
		return "Unlock", true
	case "(*sync.RWMutex).RLock":
		return "RLock", true
	case "(*sync.RWMutex).RUnlock":
		return "RUnlock", true
	case "(*sync.Mutex).TryLock", "(*sync.RWMutex).TryLock":
		return "TryLock", true
	case "(*sync.RWMutex).TryRLock":
		return "TryRLock", true
	}
	return "", false
}

func (in *Interp) extCall(fr *Frame, ps *PState, c *ExtCall) []Outcome {
	if op, ok := lockOp(c.Name); ok {
		return in.lockCall(fr, ps, c, op)
	}
	if c.Name == "(sync.Locker).Lock" || c.Name == "(sync.Locker).Unlock" {
		// the only outside Locker is RWMutex.RLocker
		op := "RLock"
		if strings.HasSuffix(c.Name, "Unlock") {
			op = "RUnlock"
		}
		var ls []Loc
		for _, l := range c.Recv.refs {
			if x := in.heapAt(l.o, "$rlocker"); x != nil {
				ls = append(ls, x.refs...)
			}
		}
		c.Args = []*Val{refVal(ls...)}
		return in.lockCall(fr, ps, c, op)
	}
	if outs, ok := in.client.Ext(in, fr, ps, c); ok {
		return outs
	}
	outs := in.extCall1(fr, ps, c)
	if h, ok := in.client.(PostHook); ok {
		outs = h.Post(in, fr, ps, c, outs)
	}
	return outs
}

// PostHook is a client that refines the results of calls that the default model handles.
type PostHook interface {
	Post(in *Interp, fr *Frame, ps *PState, c *ExtCall, outs []Outcome) []Outcome
}

// CallbackHook is a client that looks at the outcomes of calls that outside code makes.
type CallbackHook interface {
	Callback(in *Interp, before *State, fn *ssa.Function, o Outcome) *State
}

func (in *Interp) extCall1(fr *Frame, ps *PState, c *ExtCall) []Outcome {
	if d, ok := blockingCalls[c.Name]; ok {
		in.event(fr, ps, &Event{Kind: "block", Detail: d}, c.Instr)
	}
	in.event(fr, ps, &Event{Kind: "ext", Detail: c.Name, Vals: c.Args}, c.Instr)

	switch c.Name {
	case "(*sync.RWMutex).RLocker":
		o := in.obj(objExt, "rlocker:"+c.Key, "RLocker", nil)
		in.heapJoin(o, "$rlocker", c.Args[0])
		return in.one(ps, refVal(Loc{o, ""}))
	case "(*sync.Once).Do":
		outs := in.callbacks(fr, ps, c, c.Args[1])
		return outs
	case "os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln", "runtime.Goexit":
		return nil
	case "fmt.Errorf", "errors.New", "github.com/pkg/errors.New", "github.com/pkg/errors.Wrap":
		o := in.obj(objExt, "error:"+c.Key, "error", nil)
		in.readArgs(fr, ps, c)
		return in.one(ps, &Val{refs: []Loc{{o, ""}}, nl: mayNonNil, b: 3})
	case "github.com/golang/protobuf/proto.String":
		o := in.obj(objAlloc, "protostring:"+c.Key, "proto.String@"+in.p.instrPos(c.Instr), types.Typ[types.String])
		ps.st.own(o)
		in.heapJoin(o, "", c.Args[0])
		return in.one(ps, refVal(Loc{o, ""}))
	case "strings.ToLower", "strings.ToUpper", "strings.TrimSpace", "strconv.Quote", "strings.Trim", "strings.TrimPrefix", "strings.TrimSuffix":
		r := topVal.clone()
		r.labs = c.Args[0].labs
		return in.one(ps, r)
	case "(*github.com/c-bata/go-prompt.Prompt).Input", "(*github.com/c-bata/go-prompt.Prompt).Run":
		in.promptThreads(fr, ps, c)
	case "time.AfterFunc":
		if len(c.Args) == 2 {
			in.startThread(fr, ps, "afterfunc@"+c.Key, in.p.instrPos(c.Instr), c.Args[1], nil, &ssa.CallCommon{Value: c.ArgV[1]}, c.Instr)
		}
	}
	if strings.HasPrefix(c.Name, "sync/atomic.") || strings.HasPrefix(c.Name, "(*sync/atomic.") {
		return in.one(ps, in.extResults(fr, ps, c, false)...)
	}

	in.readArgs(fr, ps, c)

	carrier := false
	if r := c.Sig.Results(); r != nil {
		for i := 0; i < r.Len(); i++ {
			if !isErrorType(r.At(i).Type()) && hasPointers(r.At(i).Type(), 0) && !isStringish(r.At(i).Type()) {
				carrier = true
			}
		}
	}
	// what outside code gets to know
	in.expose(c)
	var into []Loc
	recvs := []*Val{}
	if c.Recv != nil {
		recvs = append(recvs, c.Recv)
	} else if c.Static && c.Sig.Recv() != nil && len(c.Args) > 0 {
		recvs = append(recvs, c.Args[0])
	}
	for _, rv := range recvs {
		for _, l := range rv.refs {
			if l.o.kind == objExt {
				into = append(into, l)
			}
		}
	}
	for _, l := range into {
		for _, a := range c.Args {
			if c.Static && len(c.Args) > 0 && a == c.Args[0] && c.Sig.Recv() != nil {
				continue
			}
			if carries(a) && !safeName(c.Name) || strings.HasSuffix(c.Name, ".PostEvent") || strings.HasSuffix(c.Name, ".PostEventWait") || strings.HasSuffix(c.Name, ".PostEventCustom") {
				if len(a.refs) > 0 || a.fields != nil {
					in.heapJoin(l.o, "$c", justRefs(a))
					if !ps.st.priv.has(l.o) {
						in.publish(ps.st, a)
					}
				}
			}
		}
	}
	outs := []Outcome{{ps.st, nil}}
	if !noCallback(c.Name) {
		var vs []*Val
		vs = append(vs, recvs...)
		if !carrier {
			vs = append(vs, c.Args...)
		}
		outs = in.havoc(fr, ps, c, vs)
	}
	for i := range outs {
		outs[i].res = in.extResults(fr, &PState{st: outs[i].st, env: ps.env}, c, carrier)
	}
	return outs
}

func isStringish(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func carries(v *Val) bool { return len(v.refs) > 0 || v.fields != nil }

func justRefs(v *Val) *Val {
	var ls []Loc
	var visit func(v *Val)
	visit = func(v *Val) {
		ls = append(ls, v.refs...)
		for _, f := range v.fields {
			visit(f)
		}
	}
	visit(v)
	return &Val{refs: sortLocs(append([]Loc{}, ls...)), nl: 3, b: 3}
}

// expose remembers through which interfaces outside code can call repository objects.
func (in *Interp) expose(c *ExtCall) {
	ps := c.Sig.Params()
	off := 0
	if c.Static && c.Sig.Recv() != nil {
		off = 1
	}
	for i := 0; i < ps.Len() && i+off < len(c.Args); i++ {
		in.exposeAs(c.Args[i+off], ps.At(i).Type())
	}
}

func (in *Interp) exposeAs(v *Val, t types.Type) {
	if v == nil {
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Interface:
		if u.NumMethods() == 0 || isErrorType(t) {
			return
		}
		for _, l := range v.refs {
			if l.o.kind == objExt {
				continue
			}
			k := fmt.Sprintf("%d\x00%s\x00%s", l.o.id, l.p, t.String())
			if !in.ifaces[k] {
				in.ifaces[k] = true
				in.changed = true
				if in.ifaceT[l.o] == nil {
					in.ifaceT[l.o] = map[string][]types.Type{}
				}
				in.ifaceT[l.o][l.p] = append(in.ifaceT[l.o][l.p], t)
			}
		}
	case *types.Slice:
		for _, l := range v.refs {
			if x := in.heapAt(l.o, l.p+"[]"); x != nil {
				in.exposeAs(x, u.Elem())
			}
		}
	}
}

func (in *Interp) readArgs(fr *Frame, ps *PState, c *ExtCall) {
	refl := reflective(c.Name)
	mut := false
	for _, m := range mutators {
		if strings.HasPrefix(c.Name, m) {
			mut = true
		}
	}
	for i, a := range c.Args {
		isRecv := i == 0 && c.Static && c.Sig.Recv() != nil
		// pointers into the repository's memory: outside code writes through them
		var t types.Type
		if isRecv {
			t = c.Sig.Recv().Type()
		} else {
			off := 0
			if c.Static && c.Sig.Recv() != nil {
				off = 1
			}
			if i-off < c.Sig.Params().Len() {
				t = c.Sig.Params().At(i - off).Type()
			}
		}
		if t != nil {
			if pt, ok := t.Underlying().(*types.Pointer); ok {
				for _, l := range a.refs {
					if l.o.kind == objExt || l.o.kind == objBox {
						continue
					}
					if safeName(c.Name) && isRecv {
						continue
					}
					in.access(fr, ps, l, !readOnlyMethods[c.Name], c.Instr, c.Name)
					if !isRecv && !readOnlyMethods[c.Name] {
						// the memory now holds something from outside
						in.fill(ps.st, l, pt.Elem(), c)
					}
				}
				if isRecv {
					continue
				}
			}
		}
		if mut && i == 0 {
			in.readDeep(fr, ps, a, false, true, c.Instr, c.Name)
			continue
		}
		in.readDeep(fr, ps, a, refl, false, c.Instr, c.Name)
	}
	if c.Recv != nil && !safeName(c.Name) {
		in.readDeep(fr, ps, c.Recv, false, false, c.Instr, c.Name)
	}
}

// fill models outside code writing something of its own through a pointer.
func (in *Interp) fill(st *State, l Loc, t types.Type, c *ExtCall) {
	if !hasPointers(t, 0) {
		if l.o.kind != objExt {
			in.storeVal(st, l, topVal, t)
		}
		return
	}
	o := in.obj(objExt, "fill:"+c.Key+l.String(), "filled by "+c.Name, t)
	st.own(o)
	if pointerish(t) {
		in.storeVal(st, l, &Val{refs: []Loc{{o, ""}}, nl: 3, b: 3}, t)
	}
}

func (in *Interp) extResults(fr *Frame, ps *PState, c *ExtCall, carrier bool) []*Val {
	r := c.Sig.Results()
	if r == nil || r.Len() == 0 {
		return nil
	}
	res := make([]*Val, r.Len())
	for i := range res {
		t := r.At(i).Type()
		if isErrorType(t) {
			res[i] = topVal
			continue
		}
		if !hasPointers(t, 0) || isStringish(t) {
			v := topVal
			// derived strings keep the labels of what they're made from
			var labs []string
			if isStringish(t) {
				for _, a := range c.Args {
					labs = unionStr(labs, mayLabs(a.labs))
				}
				if c.Recv != nil {
					labs = unionStr(labs, mayLabs(c.Recv.labs))
				}
			}
			if labs != nil {
				v = v.clone()
				v.labs = labs
			}
			res[i] = v
			continue
		}
		rk := ""
		if carrier {
			// what a method returns may share memory with its receiver: tell receivers apart
			rv := c.Recv
			if rv == nil && c.Static && c.Sig.Recv() != nil && len(c.Args) > 0 {
				rv = c.Args[0]
			}
			if rv != nil && len(rv.refs) == 1 && rv.refs[0].o.kind != objExt {
				rk = fmt.Sprintf("<%d%s>", rv.refs[0].o.id, rv.refs[0].p)
			}
		}
		o := in.obj(objExt, fmt.Sprintf("ext:%s:%s:%d%s", c.Key, c.Name, i, rk), fmt.Sprintf("%s result@%s", c.Name, in.p.instrPos(c.Instr)), t)
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			o.typ = pt.Elem()
		}
		ps.st.own(o)
		if carrier {
			if c.Recv != nil && len(c.Recv.refs) > 0 {
				in.heapJoin(o, "$c", justRefs(c.Recv))
			}
			for _, a := range c.Args {
				if carries(a) {
					in.heapJoin(o, "$c", justRefs(a))
				}
			}
		}
		nl := uint8(3)
		if _, ok := t.Underlying().(*types.Struct); ok {
			nl = 3
		}
		var labs []string
		for _, a := range c.Args {
			labs = unionStr(labs, mayLabs(a.labs))
		}
		if c.Recv != nil {
			labs = unionStr(labs, mayLabs(c.Recv.labs))
			for _, l := range c.Recv.refs {
				if l.o.tag != "" {
					o.tag = l.o.tag
				}
			}
		}
		if c.Static && c.Sig.Recv() != nil && len(c.Args) > 0 {
			for _, l := range c.Args[0].refs {
				if l.o.tag != "" {
					o.tag = l.o.tag
				}
			}
		}
		res[i] = &Val{refs: []Loc{{o, ""}}, nl: nl, b: 3, labs: labs}
		// results that are certainly non-nil when there's no error to go with them
		if r.Len() == 1 || i < r.Len() && isErrorType(r.At(r.Len()-1).Type()) {
			if _, isI := t.Underlying().(*types.Slice); !isI {
				if _, isM := t.Underlying().(*types.Map); !isM {
					res[i].nl = 3
				}
			}
		}
	}
	return res
}

// callbacks calls a function value with arguments from outside.
func (in *Interp) callbacks(fr *Frame, ps *PState, c *ExtCall, v *Val) []Outcome {
	return in.havoc(fr, ps, c, []*Val{v})
}

// havoc lets outside code call everything it can reach: function values and, through the
// interfaces they were handed out as, methods of repository objects.
func (in *Interp) havoc(fr *Frame, ps *PState, c *ExtCall, vs []*Val) []Outcome {
	cur := []Outcome{{ps.st, nil}}
	done := map[string]bool{}
	if in.curHavoc == nil {
		in.curHavoc = map[string]bool{}
	}
	var retained *Val
	for pass := 0; pass < 8; pass++ {
		busy := false
		all := append([]*Val{}, vs...)
		if retained != nil {
			all = append(all, retained)
		}
		for _, l := range in.carriedAll(all...) {
			switch l.o.kind {
			case objFunc, objClosure:
				k := fmt.Sprintf("%d", l.o.id)
				if done[k] || in.onStack(fr, l.o.fn, 1) || in.skipPrompt(c, l) {
					continue
				}
				done[k] = true
				busy = true
				cur = in.havocCall(fr, cur, c, l.o.fn, nil, in.bindings(l.o), &retained, l.o.fn.Signature)
			default:
				for p, ts := range in.ifaceT[l.o] {
					if p != l.p {
						continue
					}
					for _, t := range ts {
						if in.readerThread(c, t) {
							continue
						}
						it := t.Underlying().(*types.Interface)
						for i := 0; i < it.NumMethods(); i++ {
							m := it.Method(i)
							k := fmt.Sprintf("%d%s.%s", l.o.id, l.p, m.Name())
							if done[k] {
								continue
							}
							done[k] = true
							for j := range cur {
								_ = j
							}
							fn, rv := in.lookupMethod(ps.st, l, m)
							if fn == nil || in.onStack(fr, fn, 2) {
								continue
							}
							busy = true
							cur = in.havocCall(fr, cur, c, fn, rv, nil, &retained, m.Type().(*types.Signature))
						}
					}
				}
			}
		}
		if !busy {
			break
		}
	}
	return cur
}

func (in *Interp) onStack(fr *Frame, fn *ssa.Function, n int) bool {
	for f := fr; f != nil; f = f.parent {
		if f.fn == fn {
			n--
			if n == 0 {
				return true
			}
		}
	}
	return false
}

func (in *Interp) skipPrompt(c *ExtCall, l Loc) bool { return false }

const parserIface = "github.com/c-bata/go-prompt.ConsoleParser"

// readerThread: go-prompt reads its input on a goroutine of its own.
func (in *Interp) readerThread(c *ExtCall, t types.Type) bool {
	return strings.Contains(c.Name, "go-prompt.Prompt)") && t.String() == parserIface
}

func (in *Interp) promptThreads(fr *Frame, ps *PState, c *ExtCall) {
	for _, l := range in.carriedAll(c.Args...) {
		for p, ts := range in.ifaceT[l.o] {
			if p != l.p {
				continue
			}
			for _, t := range ts {
				if t.String() != parserIface {
					continue
				}
				it := t.Underlying().(*types.Interface)
				loc := l
				var fns []*ssa.Function
				for i := 0; i < it.NumMethods(); i++ {
					if fn, _ := in.lookupMethod(ps.st, loc, it.Method(i)); fn != nil {
						fns = append(fns, fn)
					}
				}
				id := fmt.Sprintf("promptreader@%s:%d<%s", c.Key, l.o.id, fr.th.id)
				th := in.threads[id]
				if th == nil {
					th = &Thread{id: id, name: "go-prompt's input goroutine", parent: fr.th.id, multi: fr.th.multi, pos: in.p.instrPos(c.Instr)}
					in.threads[id] = th
					in.order = append(in.order, id)
					in.changed = true
				}
				instr := c.Instr
				th.run = func(in *Interp, th *Thread) {
					tfr := &Frame{th: th, ctx: pushCtx("", instr, in.k), fn: fr.fn}
					for _, fn := range fns {
						args := []*Val{refVal(loc)}
						for j := 1; j < len(fn.Params); j++ {
							args = append(args, topVal)
						}
						for _, o := range in.callFn(tfr, &PState{st: emptyState()}, fn, instr, args, nil, nil) {
							in.event(tfr, &PState{st: o.st}, &Event{Kind: "exit", Pos: th.pos, Fn: th.name}, nil)
						}
					}
				}
				in.publish(ps.st, refVal(l))
				ps.st.started = unionStr(ps.st.started, []string{id})
			}
		}
	}
}

// havocCall adds the outcomes of an optional call from outside.
func (in *Interp) havocCall(fr *Frame, cur []Outcome, c *ExtCall, fn *ssa.Function, recv *Val, free []*Val, retained **Val, sig *types.Signature) []Outcome {
	outs := append([]Outcome{}, cur...)
	for _, s := range cur {
		st := s.st.clone()
		ps := &PState{st: st, env: map[ssa.Value]*Val{}}
		var args []*Val
		if recv != nil {
			args = append(args, recv)
		}
		for i := 0; i < sig.Params().Len(); i++ {
			args = append(args, in.outside(ps.st, fmt.Sprintf("cb:%s:%s:%d", c.Key, fn.String(), i), sig.Params().At(i).Type()))
		}
		for _, o := range in.callFn(fr, ps, fn, c.Instr, args, free, nil) {
			for i, r := range o.res {
				if i < sig.Results().Len() && carries(r) {
					in.exposeAs(r, sig.Results().At(i).Type())
					*retained = joinVal(*retained, justRefs(r))
				}
			}
			ost := o.st
			if h, ok := in.client.(CallbackHook); ok {
				ost = h.Callback(in, s.st, fn, o)
			}
			outs = append(outs, Outcome{ost, nil})
		}
	}
	return mergeOuts(outs)
}

// outside makes a value that code outside of the repository owns.
func (in *Interp) outside(st *State, key string, t types.Type) *Val {
	if !hasPointers(t, 0) || isStringish(t) || isErrorType(t) {
		return topVal
	}
	kind := objExt
	ot := t
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		ot = pt.Elem()
		if in.isRepoType(ot) {
			kind = objRoot
		}
	} else if in.isRepoType(t) {
		if s, ok := t.Underlying().(*types.Struct); ok {
			f := map[string]*Val{}
			for i := 0; i < s.NumFields(); i++ {
				f["."+s.Field(i).Name()] = in.outside(st, key+"."+s.Field(i).Name(), s.Field(i).Type())
			}
			return &Val{nl: 3, b: 3, fields: f}
		}
	}
	o := in.obj(kind, "outside:"+key, "outside "+typeName(t), ot)
	st.own(o)
	return &Val{refs: []Loc{{o, ""}}, nl: 3, b: 3}
}

func (in *Interp) lockCall(fr *Frame, ps *PState, c *ExtCall, op string) []Outcome {
	refs := c.Args[0].refs
	ambig := len(refs) != 1
	if len(refs) == 0 {
		return in.one(ps, in.extResults(fr, ps, c, false)...)
	}
	pos := in.p.instrPos(c.Instr)
	switch op {
	case "TryLock", "TryRLock":
		n := &PState{st: ps.st.clone(), env: ps.env}
		n.st.locks = append(append([]Held(nil), n.st.locks...), Held{refs[0], op == "TryLock", ambig, pos})
		t := &Val{nl: 3, b: mayTrue}
		f := &Val{nl: 3, b: mayFalse}
		return []Outcome{{n.st, []*Val{t}}, {ps.st, []*Val{f}}}
	case "Lock", "RLock":
		for _, h := range ps.st.locks {
			for _, l := range refs {
				if h.loc == l && !h.ambig && !ambig {
					in.event(fr, ps, &Event{Kind: "relock", Loc: l, Detail: h.pos}, c.Instr)
				}
			}
		}
		for _, l := range refs {
			in.event(fr, ps, &Event{Kind: "lock", Loc: l, Detail: op}, c.Instr)
		}
		for _, h := range ps.st.locks {
			if h.loc == refs[0] && h.write == (op == "Lock") && h.ambig == ambig {
				// reported already: a leaked lock mustn't pile up
				return in.one(ps)
			}
		}
		ps.st.locks = append(append([]Held(nil), ps.st.locks...), Held{refs[0], op == "Lock", ambig, pos})
		return in.one(ps)
	case "Unlock", "RUnlock":
		w := op == "Unlock"
		var keep []Held
		found := false
		for i := len(ps.st.locks) - 1; i >= 0; i-- {
			h := ps.st.locks[i]
			if !found && h.write == w {
				m := false
				for _, l := range refs {
					if h.loc == l || h.ambig {
						m = true
					}
				}
				if m {
					found = true
					continue
				}
			}
			keep = append([]Held{h}, keep...)
		}
		if !found {
			in.event(fr, ps, &Event{Kind: "badunlock", Loc: refs[0]}, c.Instr)
		}
		ps.st.locks = keep
		in.event(fr, ps, &Event{Kind: "unlock", Loc: refs[0]}, c.Instr)
		return in.one(ps)
	}
	return in.one(ps)
}
