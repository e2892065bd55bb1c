package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const tcellPkg = "github.com/gdamore/tcell"
const goPromptPkg = "github.com/c-bata/go-prompt"

func init() {
	register(&Check{ID: "C25", Rule: "constant propagation with memory, on all paths, through the event loop's handling of a key, the prompt's key handler, and the reader that the prompt's library polls: for each special key of the terminal's library with each modifier, and for arbitrary characters mixed with special keys, what the reads give is compared with the keys taken, using the tables in the source of both libraries", Run: runC25, Extra: []string{tcellPkg, goPromptPkg}})
}

// keyEvent is a key that was pressed.
type keyEvent struct {
	what    string
	text    bool
	allowed map[int64]string // the keys of the prompt that it may turn into
	drop    bool             // the prompt knows no such key
	ptr     *kv
}

type keys struct {
	p      *Program
	r      *Report
	e      *kexec
	events []*keyEvent
	budget int
	next   []func(s *kstate) int // makers of the events that may come
	evType types.Type
	names  map[int64]string // the prompt's keys
	byName map[string]int64
	known  map[int64]bool // those that some bytes stand for
	paths  int
}

func runC25(p *Program, r *Report) {
	e, err := newKexec(p, tcellPkg, goPromptPkg)
	if err != nil {
		r.undecided("the program", err.Error())
		return
	}
	k := &keys{p: p, r: r, e: e, names: map[int64]string{}, byName: map[string]int64{}, known: map[int64]bool{}}
	pt := p.lookupType(tcellPkg, "EventKey")
	ip := p.lookupIface(goPromptPkg, "ConsoleParser")
	if pt == nil || ip == nil {
		r.undecided("the libraries", "their types for keys and readers weren't found")
		return
	}
	k.evType = types.NewPointer(pt)
	e.recv, e.send = k.recv, k.send
	var repo []string
	for path, sp := range e.pkgs {
		if e.repo[sp] && strings.HasPrefix(path, modPath+"/promq/term") {
			repo = append(repo, path)
		}
	}
	sort.Strings(repo)
	e.tables(append([]string{tcellPkg, goPromptPkg}, repo...)...)
	if !k.library() {
		r.undecided("the prompt's library", "its table of keys wasn't understood")
		return
	}
	var readers []*ssa.Function
	var parser types.Type
	for _, t := range p.implementers(ip) {
		if m := e.prog.LookupMethod(t, nil, "Read"); m != nil && len(m.Blocks) > 0 {
			readers = append(readers, m)
			parser = t
		}
	}
	r.atLeast("readers_for_the_prompt", len(readers), 1)
	for _, m := range readers {
		k.single(m)
		k.mixed(m)
	}
	k.handlers(parser)
	k.initial(parser)
	k.loop()
	r.cover("functions_analysed", len(e.funcs))
	r.cover("paths", k.paths)
	r.assume("the terminal's and the prompt's libraries do as their sources in the module cache say", "lists that are appended to share their memory with what they were cut from")
}

// library reads the prompt's keys, and which of them bytes stand for.
func (k *keys) library() bool {
	tp := k.p.typeByPath[goPromptPkg]
	kt := k.p.lookupType(goPromptPkg, "Key")
	if tp == nil || kt == nil {
		return false
	}
	for _, n := range tp.Scope().Names() {
		if c, ok := tp.Scope().Lookup(n).(*types.Const); ok && types.Identical(c.Type(), kt) {
			v, _ := constant.Int64Val(c.Val())
			k.names[v], k.byName[n] = n, v
		}
	}
	g, _ := k.e.pkgs[goPromptPkg].Members["ASCIISequences"].(*ssa.Global)
	if g == nil {
		return false
	}
	s := k.fresh()
	list, ok := s.at(s.content(k.e.globals[g]))
	if !ok || len(list) < 50 {
		return false
	}
	n := 0
	for _, en := range list {
		if en.k != kPtr {
			return false
		}
		st := s.content(en.o)
		if st.k != kTree || len(st.fs) != 2 {
			return false
		}
		key, ok := st.fs[0].isInt()
		seq, ok2 := s.at(st.fs[1])
		if !ok || !ok2 {
			return false
		}
		if d, ok := k.decode(seq); ok && d == int64(key) {
			k.known[d] = true
		}
		n++
	}
	k.r.cover("byte_sequences_of_the_prompts_library", n)
	return len(k.known) > 50
}

// decode is what the prompt's library takes bytes for.
func (k *keys) decode(seq []*kv) (int64, bool) {
	fn := k.e.pkgs[goPromptPkg].Func("GetKey")
	if fn == nil {
		return 0, false
	}
	s := k.fresh()
	o := k.e.obj("bytes")
	s.mem[o] = &kv{k: kTree, fs: seq}
	out := k.e.run(fn, []*kv{{k: kSlice, o: o, hi: len(seq)}}, nil, s, 0)
	if len(out) != 1 || out[0].end {
		return 0, false
	}
	n, ok := out[0].res[0].isInt()
	return int64(n), ok
}

func (k *keys) fresh() *kstate {
	return &kstate{mem: map[*kobj]*kv{}, base: k.e.base, rng: map[int][2]int64{}}
}

// event makes an event of the terminal's library.
func (k *keys) event(s *kstate, key, ch, mod *kv, ev *keyEvent) int {
	st := deref(k.evType).Underlying().(*types.Struct)
	v := kzero(st)
	for i := 0; i < st.NumFields(); i++ {
		v.fs[i] = kunk
		switch n := st.Field(i).Type().String(); {
		case strings.HasSuffix(n, "tcell.Key"):
			v.fs[i] = key
		case n == "rune" || n == "int32":
			v.fs[i] = ch
		case strings.HasSuffix(n, "tcell.ModMask"):
			v.fs[i] = mod
		}
	}
	o := k.e.obj("event")
	s.mem[o] = v
	ev.ptr = &kv{k: kPtr, o: o}
	k.events = append(k.events, ev)
	return len(k.events) - 1
}

func (k *keys) runeEvent(s *kstate) int {
	id := len(k.events)
	kr, _ := constant.Int64Val(k.p.lookupConst(tcellPkg, "KeyRune").Val())
	// whatever was held with it; control characters aren't runes to the terminal's library
	k.event(s, kint(kr), ksym("rune", id), kunk, &keyEvent{what: "a character", text: true})
	s.rng[id] = [2]int64{0x20, 0x10ffff}
	return id
}

func (k *keys) special(s *kstate, key int64, name string, mod int64) int {
	ev := &keyEvent{what: name, allowed: map[int64]string{}}
	for _, n := range k.meaning(key, mod) {
		if v, ok := k.byName[n]; ok && k.known[v] {
			ev.allowed[v] = n
		}
	}
	ev.drop = len(ev.allowed) == 0
	if key == k.con("KeyLF") {
		ev.drop = true // nothing stands for this one exactly
	}
	return k.event(s, kint(key), kint(0), kint(mod), ev)
}

func (k *keys) con(name string) int64 {
	c := k.p.lookupConst(tcellPkg, name)
	if c == nil {
		return -1
	}
	v, _ := constant.Int64Val(c.Val())
	return v
}

// meaning gives the prompt's names of a key of the terminal.
func (k *keys) meaning(key, mod int64) []string {
	var out []string
	for l := 'A'; l <= 'Z'; l++ {
		if key == k.con("KeyCtrl"+string(l)) {
			out = append(out, "Control"+string(l))
		}
	}
	for i := 1; i <= 24; i++ {
		if n := fmt.Sprintf("F%d", i); key == k.con("Key"+n) {
			out = append(out, n)
		}
	}
	for t, n := range map[string]string{
		"KeyTab": "Tab", "KeyCtrlSpace": "ControlSpace", "KeyCtrlBackslash": "ControlBackslash", "KeyCtrlRightSq": "ControlSquareClose",
		"KeyEsc": "Escape", "KeyCtrlCarat": "ControlCircumflex", "KeyCtrlUnderscore": "ControlUnderscore", "KeyHome": "Home", "KeyEnd": "End",
		"KeyPgUp": "PageUp", "KeyPgDn": "PageDown", "KeyBacktab": "BackTab", "KeyInsert": "Insert", "KeyBackspace": "Backspace",
		"KeyBackspace2": "Backspace", "KeyEnter": "Enter", "KeyLF": "Enter",
	} {
		if key == k.con(t) {
			out = append(out, n)
		}
	}
	ctrl, shift := mod&k.con("ModCtrl") != 0, mod&k.con("ModShift") != 0
	for _, n := range []string{"Left", "Right", "Up", "Down", "Delete"} {
		if key != k.con("Key"+n) {
			continue
		}
		if ctrl {
			out = append(out, "Control"+n)
		}
		if shift {
			out = append(out, "Shift"+n)
		}
		if !ctrl && !shift {
			out = append(out, n)
		}
	}
	return out
}

// taken counts what has come since the last mark.
func taken(s *kstate, from int) (evs []int) {
	for _, l := range s.log[from:] {
		if l.what == "took" {
			evs = append(evs, l.n)
		}
	}
	return
}

func lastMark(s *kstate) int {
	for i := len(s.log) - 1; i >= 0; i-- {
		if s.log[i].what == "read" {
			return i
		}
	}
	return 0
}

func chanElem(t types.Type) types.Type {
	if c, ok := t.Underlying().(*types.Chan); ok {
		return c.Elem()
	}
	return types.Typ[types.Invalid]
}

func (k *keys) recv(s *kstate, ch types.Type, commaOk bool) []kout {
	wrap := func(v *kv) *kv {
		if commaOk {
			return &kv{k: kTuple, fs: []*kv{v, kbool(true)}}
		}
		return v
	}
	if !types.Identical(chanElem(ch), k.evType) {
		t := s.clone()
		t.log = append(t.log, kevent{what: "other"})
		return []kout{{s: t, res: []*kv{wrap(kunk)}}}
	}
	if len(taken(s, lastMark(s))) >= k.budget {
		return []kout{{s: s, end: true}}
	}
	var out []kout
	for _, mk := range k.next {
		t := s.clone()
		id := mk(t)
		t.log = append(t.log, kevent{what: "took", n: id})
		out = append(out, kout{s: t, res: []*kv{wrap(k.events[id].ptr)}})
	}
	return out
}

func (k *keys) send(s *kstate, ch types.Type, v *kv) []kout {
	if types.Identical(chanElem(ch), k.evType) {
		s.log = append(s.log, kevent{what: "sent", v: v})
	}
	return []kout{{s: s}}
}

// read runs one read of the prompt's library from each state.
func (k *keys) read(m *ssa.Function, recv *kv, in []*kstate, budget int) []*kstate {
	k.budget = budget
	var out []*kstate
	for _, s := range in {
		t := s.clone()
		t.steps = 0
		t.log = append(t.log, kevent{what: "read"})
		for _, o := range k.e.run(m, []*kv{recv}, nil, t, 0) {
			k.paths++
			where := k.p.position(m.Pos())
			if o.s.odd != "" {
				k.r.undecided(where, o.s.odd)
				continue
			}
			if o.end {
				evs := taken(o.s, lastMark(o.s))
				why := "waits for more keys, while the prompt is to be handed what there is"
				for _, l := range o.s.log {
					if l.what == "panic" {
						why = "panics"
					}
				}
				k.r.violate("doesn't return", where, "the read "+why, k.told(evs))
				continue
			}
			if len(o.res) != 2 {
				k.r.undecided(where, "what a read gives wasn't understood")
				continue
			}
			if o.res[1].k == kNil {
				ps, ok := o.s.at(o.res[0])
				if !ok {
					k.r.undecided(where, "the bytes that a read gives weren't followed: "+k.told(taken(o.s, 0)))
					continue
				}
				o.s.log = append(o.s.log, kevent{what: "gave", v: &kv{k: kText, fs: append([]*kv(nil), ps...)}}, kevent{what: "given", v: o.res[0]})
			}
			out = append(out, o.s)
		}
	}
	return out
}

func (k *keys) told(evs []int) string {
	var out []string
	for _, id := range evs {
		out = append(out, k.events[id].what)
	}
	if len(out) == 0 {
		return "no keys pressed"
	}
	return "keys pressed: " + strings.Join(out, ", ")
}

// judge compares what the reads gave with the keys.
func (k *keys) judge(m *ssa.Function, s *kstate) bool {
	where := k.p.position(m.Pos())
	evs := taken(s, 0)
	detail := k.told(evs)
	at := 0
	skip := func() {
		for at < len(evs) && k.events[evs[at]].drop {
			at++
		}
	}
	for i, l := range s.log {
		if l.what != "gave" {
			continue
		}
		// the same bytes are still there
		if now, ok := s.at(s.log[i+1].v); !ok || s.sameText(now, l.v.fs) != 1 {
			k.r.violate("overwritten", where, "bytes that a read gave are overwritten by a later one", detail)
			return false
		}
		ps := l.v.fs
		if len(ps) == 0 {
			continue
		}
		text, bytes := 0, 0
		for _, p := range ps {
			if p.k == kSym {
				text++
			} else {
				bytes++
			}
		}
		if bytes > 0 {
			if text > 0 {
				k.r.violate("shared read", where, "a special key is read together with text", detail)
				return false
			}
			key, ok := k.decode(ps)
			if !ok {
				k.r.undecided(where, "the bytes of a special key weren't followed: "+detail)
				return false
			}
			// a key that may be dropped or not
			for at < len(evs) && k.events[evs[at]].drop && k.events[evs[at]].allowed[key] == "" {
				at++
			}
			if at >= len(evs) || k.events[evs[at]].text || k.events[evs[at]].allowed[key] == "" {
				what := "nothing"
				if at < len(evs) {
					what = k.events[evs[at]].what
				}
				k.r.violate("another key", where, fmt.Sprintf("%s is read by the prompt as %s", what, k.names[key]), detail)
				return false
			}
			at++
			continue
		}
		for _, p := range ps {
			skip()
			switch {
			case p.sym == "cut":
				k.r.violate("text", where, "a character of more than one byte is cut to one", detail)
				return false
			case p.sym != "utf8":
				k.r.undecided(where, "the text that a read gives wasn't followed: "+detail)
				return false
			case at >= len(evs) || evs[at] != p.ev:
				k.r.violate("order", where, "characters are read out of order, twice, or after some were lost", detail)
				return false
			}
			at++
		}
	}
	skip()
	if at < len(evs) {
		k.r.violate("lost", where, k.events[evs[at]].what+" never reaches the prompt", detail)
		return false
	}
	return true
}

// reader makes a reader as it's before anything was read.
func (k *keys) reader(m *ssa.Function, s *kstate) *kv {
	o := k.e.obj("reader")
	st := deref(m.Signature.Recv().Type())
	s.mem[o] = k.blank(st)
	if _, ok := m.Signature.Recv().Type().(*types.Pointer); !ok {
		return s.mem[o]
	}
	return &kv{k: kPtr, o: o}
}

// blank is a new object; its channels are there.
func (k *keys) blank(t types.Type) *kv {
	v := kzero(t)
	if st, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			if _, ok := st.Field(i).Type().Underlying().(*types.Chan); ok {
				v.fs[i] = kunk
			}
		}
	}
	return v
}

// specials gives the special keys of the terminal's library, by number.
func (k *keys) specials() (map[int64]string, []int64) {
	tp := k.p.typeByPath[tcellPkg]
	kt := k.p.lookupType(tcellPkg, "Key")
	all := map[int64]string{}
	for _, n := range tp.Scope().Names() {
		if c, ok := tp.Scope().Lookup(n).(*types.Const); ok && types.Identical(c.Type(), kt) && n != "KeyRune" {
			v, _ := constant.Int64Val(c.Val())
			if all[v] == "" || strings.HasPrefix(all[v], "KeyCtrl") {
				all[v] = n
			}
		}
	}
	var order []int64
	for v := range all {
		order = append(order, v)
	}
	sort.Slice(order, func(i, j int) bool { return order[i] < order[j] })
	return all, order
}

// single: each special key by itself.
func (k *keys) single(m *ssa.Function) {
	all, order := k.specials()
	ctrl, shift, alt := k.con("ModCtrl"), k.con("ModShift"), k.con("ModAlt")
	n := 0
	for _, key := range order {
		if k.r.failed() {
			return
		}
		for _, mod := range []struct {
			m    int64
			name string
		}{{0, ""}, {ctrl, "Ctrl+"}, {shift, "Shift+"}, {alt, "Alt+"}, {ctrl | shift, "Ctrl+Shift+"}} {
			name := mod.name + strings.TrimPrefix(all[key], "Key")
			k.next = []func(*kstate) int{func(s *kstate) int { return k.special(s, key, name, mod.m) }}
			s := k.fresh()
			recv := k.reader(m, s)
			states := k.read(m, recv, []*kstate{s}, 1)
			states = k.read(m, recv, states, 0)
			states = k.read(m, recv, states, 0)
			took := 0
			for _, t := range states {
				took += len(taken(t, 0))
				if !k.judge(m, t) {
					break
				}
			}
			if took == 0 && !k.r.failed() {
				k.r.undecided(k.p.position(m.Pos()), "the read never takes a key")
				return
			}
			n++
		}
	}
	k.r.cover("special_keys_with_modifiers", n)
	k.r.atLeast("special_keys", len(order), 100)
}

// mixed: arbitrary characters and special keys, over several reads.
func (k *keys) mixed(m *ssa.Function) {
	if k.r.failed() {
		return
	}
	up, help := k.con("KeyUp"), k.con("KeyHelp")
	k.next = []func(*kstate) int{
		k.runeEvent,
		func(s *kstate) int { return k.special(s, up, "Up", 0) },
		func(s *kstate) int { return k.special(s, help, "Help (which the prompt doesn't know)", 0) },
	}
	n := k.reads(m, 3, 2)
	k.r.atLeast("sequences_of_keys", n, 50)
	all, order := k.specials()
	for _, key := range order {
		if k.r.failed() {
			return
		}
		k.next = []func(*kstate) int{
			k.runeEvent,
			func(s *kstate) int { return k.special(s, key, strings.TrimPrefix(all[key], "Key"), 0) },
		}
		n += k.reads(m, 2, 1)
	}
	k.r.cover("sequences_of_keys_with_each_special_key", n)
}

// reads: a read with up to some keys waiting, another one with some more, and some until all were read.
func (k *keys) reads(m *ssa.Function, first, then int) int {
	s := k.fresh()
	recv := k.reader(m, s)
	states := k.read(m, recv, []*kstate{s}, first)
	states = k.read(m, recv, states, then)
	for i := 0; i < first+then; i++ {
		states = k.read(m, recv, states, 0)
	}
	for _, t := range states {
		if !k.judge(m, t) {
			break
		}
	}
	return len(states)
}

// handlers: what the event loop is given to handle keys queues each of them.
func (k *keys) handlers(parser types.Type) {
	n := 0
	for _, fn := range k.p.Funcs {
		sig := fn.Signature
		if sig.Recv() == nil || sig.Params().Len() != 1 || sig.Results().Len() != 0 || !types.Identical(sig.Params().At(0).Type(), k.evType) {
			continue
		}
		nt, ok := deref(sig.Recv().Type()).(*types.Named)
		if !ok || !token.IsExported(nt.Obj().Name()) || !token.IsExported(fn.Name()) {
			continue
		}
		m := k.e.prog.LookupMethod(sig.Recv().Type(), fn.Pkg.Pkg, fn.Name())
		if m == nil || len(m.Blocks) == 0 {
			continue
		}
		n++
		where := k.p.position(m.Pos())
		s := k.fresh()
		o := k.e.obj("view")
		v := k.blank(nt)
		st, ok := nt.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for i := 0; i < st.NumFields(); i++ {
			ft := st.Field(i).Type()
			if parser != nil && types.Identical(ft, parser) {
				po := k.e.obj("reader")
				s.mem[po] = k.blank(deref(parser))
				v.fs[i] = &kv{k: kPtr, o: po}
			}
		}
		s.mem[o] = v
		id := k.runeEvent(s)
		ev := k.events[id].ptr
		for _, out := range k.e.run(m, []*kv{{k: kPtr, o: o}, ev}, nil, s, 0) {
			k.paths++
			if out.s.odd != "" {
				k.r.undecided(where, out.s.odd)
				continue
			}
			sent, gone, quit := 0, false, false
			for _, l := range out.s.log {
				switch l.what {
				case "sent":
					if l.v.String() == ev.String() {
						sent++
					} else {
						sent = 99
					}
				case "other":
					gone = true
				case "didn't wait":
					quit = true
				case "panic":
					quit = true
				}
			}
			switch {
			case sent > 1:
				k.r.violate("queued", where, "a key is queued more than once, or as something else", "")
			case sent == 0 && (quit || !gone):
				k.r.violate("queued", where, "on some path a key isn't queued although the prompt is running", "")
			}
		}
	}
	k.r.atLeast("key_handlers", n, 1)
}

// initial: a query that's given at the start is typed, and Enter after it.
func (k *keys) initial(parser types.Type) {
	n := 0
	for _, fn := range k.p.Funcs {
		sig := fn.Signature
		text := -1
		for i := 0; i < sig.Params().Len(); i++ {
			if pt, ok := sig.Params().At(i).Type().(*types.Pointer); ok && types.Identical(pt.Elem(), types.Typ[types.String]) {
				text = i + 1
			}
		}
		if sig.Recv() == nil || text < 0 || !token.IsExported(fn.Name()) || fn.Pkg == nil || !strings.HasPrefix(fn.Pkg.Pkg.Path(), modPath+"/promq/term") {
			continue
		}
		m := k.e.prog.LookupMethod(sig.Recv().Type(), fn.Pkg.Pkg, fn.Name())
		if m == nil || len(m.Blocks) == 0 {
			continue
		}
		n++
		where := k.p.position(m.Pos())
		for _, r := range [][2]int64{{0x20, 0x7e}, {0x80, 0x10ffff}, {0, 0}} {
			s := k.fresh()
			o := k.e.obj("view")
			s.mem[o] = k.blank(deref(sig.Recv().Type()))
			args := []*kv{{k: kPtr, o: o}}
			for i := 1; i < len(m.Params); i++ {
				args = append(args, kunk)
			}
			var typed []int
			args[text] = &kv{k: kNil}
			if r[1] > 0 {
				t := &kv{k: kText}
				for i := 0; i < 3; i++ {
					id := k.runeEvent(s)
					s.rng[id] = r
					typed = append(typed, id)
					t.fs = append(t.fs, ksym("utf8", id))
				}
				to := k.e.obj("text")
				s.mem[to] = t
				args[text] = &kv{k: kPtr, o: to}
			}
			for _, out := range k.e.run(m, args, nil, s, 0) {
				k.paths++
				if out.s.odd != "" && !strings.HasPrefix(out.s.odd, "a goroutine") {
					k.r.undecided(where, out.s.odd)
					return
				}
				var want, got []string
				for _, id := range typed {
					want = append(want, "rune "+ksym("rune", id).String())
				}
				if r[1] > 0 {
					want = append(want, fmt.Sprint("key ", k.con("KeyEnter")))
				}
				// the prompt may have ended before all of it was typed
				gone := false
				for _, l := range out.s.log {
					switch l.what {
					case "didn't send":
						if gone = true; len(got) < len(want) {
							got = append(got, want[len(got)])
						}
					case "sent":
						got = append(got, k.pressed(out.s, l.v))
						gone = false
					}
				}
				if gone {
					got = append(got, want[min(len(got), len(want)):]...)
				}
				if strings.Join(got, ",") != strings.Join(want, ",") {
					k.r.violate("first query", where, "the query given at the start isn't typed as it is, followed by Enter", fmt.Sprintf("typed: %v; expected: %v", got, want))
					return
				}
			}
		}
	}
	k.r.atLeast("first_queries", n, 1)
}

// pressed describes an event that the repository made.
func (k *keys) pressed(s *kstate, v *kv) string {
	if v.k != kPtr {
		return "?"
	}
	c := s.content(v.o)
	st := deref(k.evType).Underlying().(*types.Struct)
	if c.k != kTree || len(v.path) > 0 {
		return "?"
	}
	key, ch := kunk, kunk
	for i := 0; i < st.NumFields(); i++ {
		switch n := st.Field(i).Type().String(); {
		case strings.HasSuffix(n, "tcell.Key"):
			key = c.fs[i]
		case n == "rune" || n == "int32":
			ch = c.fs[i]
		}
	}
	if n, ok := key.isInt(); ok && int64(n) == k.con("KeyRune") {
		return "rune " + ch.String()
	}
	return "key " + key.String()
}

// loop: the event loop gives each key to the handler.
func (k *keys) loop() {
	isPoll := func(c *ssa.CallCommon) bool {
		if !c.IsInvoke() || c.Method.Name() != "PollEvent" || c.Method.Pkg() == nil {
			return false
		}
		return c.Method.Pkg().Path() == tcellPkg
	}
	n := 0
	all, order := k.specials()
	var fns []*ssa.Function
	for sp, is := range k.e.repo {
		if !is {
			continue
		}
		for fn := range allOf(sp) {
			has := false
			for _, b := range fn.Blocks {
				for _, i := range b.Instrs {
					if c, ok := i.(ssa.CallInstruction); ok && isPoll(c.Common()) {
						has = true
					}
				}
			}
			if has {
				fns = append(fns, fn)
			}
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	for _, fn := range fns {
		polls := 0
		var ends []kout
		k.e.ext = func(s *kstate, c *ssa.CallCommon, fv *kv, args []*kv) []kout {
			if isPoll(c) {
				if len(taken(s, 0)) >= 2 {
					s.log = append(s.log, kevent{what: "polled"})
					return []kout{{s: s, res: []*kv{{k: kNil}}}}
				}
				s.log = append(s.log, kevent{what: "polled"})
				polls++
				outs := []kout{}
				came := func(t *kstate, id int) {
					t.log = append(t.log, kevent{what: "took", n: id})
					outs = append(outs, kout{s: t, res: []*kv{{k: kIface, typ: k.evType, fs: []*kv{k.events[id].ptr}}}})
				}
				if len(taken(s, 0)) == 0 {
					for _, key := range order {
						t := s.clone()
						came(t, k.event(t, kint(key), kint(0), kunk, &keyEvent{what: strings.TrimPrefix(all[key], "Key")}))
					}
				}
				came(s, k.runeEvent(s))
				return outs
			}
			for _, a := range args {
				if a.k == kIface {
					a = a.fs[0]
				}
				if a.k == kPtr && c.StaticCallee() == nil && !c.IsInvoke() {
					s.log = append(s.log, kevent{what: "handed", v: a})
				}
			}
			return nil
		}
		s := k.fresh()
		ends = k.e.run(fn, nil, nil, s, 0)
		k.e.ext = nil
		where := k.p.position(fn.Pos())
		if polls == 0 {
			k.r.undecided(where, "the event loop wasn't followed to where it waits for events")
			continue
		}
		n++
		for _, o := range ends {
			k.paths++
			if o.s.odd != "" && !strings.HasPrefix(o.s.odd, "a goroutine") {
				k.r.undecided(where, o.s.odd)
				continue
			}
			cur, count := (*keyEvent)(nil), 0
			flush := func() {
				if cur != nil && count != 1 {
					what := "a key isn't given to the key handler"
					if count > 1 {
						what = "a key is given to the key handler more than once"
					}
					k.r.violate("event loop", where, what, "the key: "+cur.what)
				}
				cur, count = nil, 0
			}
			for _, l := range o.s.log {
				switch l.what {
				case "polled":
					flush()
				case "took":
					cur = k.events[l.n]
				case "handed":
					if cur != nil && l.v.String() == cur.ptr.String() {
						count++
					}
				}
			}
			flush()
		}
	}
	k.r.atLeast("event_loops", n, 1)
}

// allOf gives all functions of a package, with their closures.
func allOf(sp *ssa.Package) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	var add func(fn *ssa.Function)
	add = func(fn *ssa.Function) {
		if fn == nil || out[fn] {
			return
		}
		out[fn] = true
		for _, a := range fn.AnonFuncs {
			add(a)
		}
	}
	for _, m := range sp.Members {
		switch x := m.(type) {
		case *ssa.Function:
			add(x)
		case *ssa.Type:
			for _, t := range []types.Type{x.Type(), types.NewPointer(x.Type())} {
				if types.IsInterface(x.Type()) {
					continue
				}
				ms := sp.Prog.MethodSets.MethodSet(t)
				for i := 0; i < ms.Len(); i++ {
					f := sp.Prog.MethodValue(ms.At(i))
					if f != nil && f.Synthetic == "" && f.Pkg == sp {
						add(f)
					}
				}
			}
		}
	}
	return out
}
