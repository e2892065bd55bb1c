package main

import (
	"fmt"
	"go/types"
	"regexp"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Sequences: lists whose elements' order is followed. A sequence is a part of an array; an array consists of
// segments, each of which is a part of an array as it was at first, or a single element. What the bounds are is known
// by the conditions that hold on the path.

func tmSeq(arr string, lo, hi tm) tm {
	return tm{k: "seq", id: arr, parts: []tm{addTm(lo, tmInt(0), 1), addTm(hi, tmInt(0), 1)}}
}

// tmSeg is the part of an array as it was at first.
func tmSeg(src string, lo, hi tm) tm {
	return tm{k: "seg", id: src, parts: []tm{addTm(lo, tmInt(0), 1), addTm(hi, tmInt(0), 1)}}
}

func tmElem(v tm) tm { return tm{k: "elem", parts: []tm{v}} }

// newSeq gives an array that is followed, of the given length.
func newSeq(st *nstate, src string, n tm) tm {
	st.mem["seq:"+src] = tm{k: "segs", parts: []tm{tmSeg(src, tmInt(0), n)}}
	return tmSeq(src, tmInt(0), n)
}

var linPartRE = regexp.MustCompile(`^[+-][0-9]+\*`)
var linRE = regexp.MustCompile(`^(-?[0-9]+)((?:[+-][0-9]+\*[^+*]+)*)$`)

// parseLin reads the key of an int.
func parseLin(s string) (tm, bool) {
	m := linRE.FindStringSubmatch(s)
	if m == nil {
		if strings.HasPrefix(s, "@") && !strings.ContainsAny(s, "+*(,\"[.") {
			return addTm(tmSym(s), tmInt(0), 1), true
		}
		return tm{}, false
	}
	n, err := strconv.ParseInt(m[1], 10, 64)
	if err != nil {
		return tm{}, false
	}
	out := tmInt(n)
	rest := m[2]
	for rest != "" {
		i := strings.Index(rest, "*")
		c, err := strconv.ParseInt(rest[:i], 10, 64)
		if err != nil {
			return tm{}, false
		}
		rest = rest[i+1:]
		j := 0
		for j < len(rest) && !((rest[j] == '+' || rest[j] == '-') && linPartRE.MatchString(rest[j:])) {
			j++
		}
		out = addTm(out, tmSym(rest[:j]), c)
		rest = rest[j:]
	}
	return out, true
}

// splitKey splits the arguments in a condition's key.
func splitKey(s string) []string {
	i := strings.Index(s, "(")
	if i < 0 || !strings.HasSuffix(s, ")") {
		return nil
	}
	s = s[i+1 : len(s)-1]
	var out []string
	d, start := 0, 0
	quoted := false
	for i, c := range s {
		switch {
		case c == '"':
			quoted = !quoted
		case quoted:
		case strings.ContainsRune("([{", c):
			d++
		case strings.ContainsRune(")]}", c):
			d--
		case c == ',' && d == 0:
			out = append(out, s[start:i])
			start = i + 1
		}
	}
	return append(out, s[start:])
}

// bounds lists the ints that aren't negative.
func (s *nstate) bounds() []tm {
	var out []tm
	for k, v := range s.mem {
		if strings.HasPrefix(k, "≥:") {
			out = append(out, v)
		}
	}
	var unequal []tm
	for f, yes := range s.facts {
		lt := strings.HasPrefix(f, "lt(")
		if !lt && !strings.HasPrefix(f, "eq(") {
			continue
		}
		ps := splitKey(f)
		if len(ps) != 2 {
			continue
		}
		a, ok := parseLin(ps[0])
		b, ok2 := parseLin(ps[1])
		if !ok || !ok2 {
			continue
		}
		d := addTm(b, a, -1)
		switch {
		case lt && yes:
			d.n--
			out = append(out, d)
		case lt:
			out = append(out, addTm(tmInt(0), d, -1))
		case yes:
			out = append(out, d, addTm(tmInt(0), d, -1))
		default:
			unequal = append(unequal, d, addTm(tmInt(0), d, -1))
		}
	}
	for _, d := range unequal {
		if proves(out, d, 3) {
			d.n--
			out = append(out, d)
		}
	}
	return out
}

func proves(bs []tm, d tm, depth int) bool {
	if len(d.parts) == 0 {
		return d.n >= 0
	}
	if depth == 0 {
		return false
	}
	for _, b := range bs {
		common := false
		for _, p := range d.parts {
			for _, q := range b.parts {
				common = common || p.id == q.id && (p.n > 0) == (q.n > 0)
			}
		}
		if common && proves(bs, addTm(d, b, -1), depth-1) {
			return true
		}
	}
	return false
}

// atLeast: a ≥ b, for sure.
func (s *nstate) atLeast(a, b tm) bool { return proves(s.bounds(), addTm(a, b, -1), 3) }

// possible: the conditions don't contradict each other.
func (s *nstate) possible() bool {
	for f, yes := range s.facts {
		if ps := splitKey(f); yes && strings.HasPrefix(f, "lt(") && len(ps) == 2 && s.facts["lt("+ps[1]+","+ps[0]+")"] {
			return false
		}
	}
	bs := s.bounds()
	for _, b := range bs {
		if proves(bs, addTm(tmInt(-1), b, -1), 3) {
			return false
		}
	}
	return true
}

// split cuts an array's segments at the position; it gives the index of the segment that begins there.
func (s *nstate) split(segs []tm, at tm) ([]tm, int, bool) {
	pos := tmInt(0)
	for i, g := range segs {
		if addTm(pos, at, -1).key() == "0" || s.atLeast(pos, at) && s.atLeast(at, pos) {
			return segs, i, true
		}
		n := tmInt(1)
		if g.k == "seg" {
			n = addTm(g.parts[1], g.parts[0], -1)
		}
		end := addTm(pos, n, 1)
		if s.atLeast(at, end) {
			pos = end
			continue
		}
		if g.k != "seg" || !s.atLeast(end, at) || !s.atLeast(at, pos) {
			return nil, 0, false
		}
		mid := addTm(g.parts[0], addTm(at, pos, -1), 1)
		out := append([]tm{}, segs[:i]...)
		out = append(out, tmSeg(g.id, g.parts[0], mid), tmSeg(g.id, mid, g.parts[1]))
		return append(out, segs[i+1:]...), i + 1, true
	}
	return segs, len(segs), addTm(pos, at, -1).key() == "0" || s.atLeast(pos, at) && s.atLeast(at, pos)
}

// part gives the segments between two positions.
func (s *nstate) part(segs []tm, lo, hi tm) ([]tm, []tm, []tm, bool) {
	segs, j, ok := s.split(segs, hi)
	if !ok {
		return nil, nil, nil, false
	}
	before, i, ok := s.split(segs[:j], lo)
	if !ok {
		return nil, nil, nil, false
	}
	var mid []tm
	for _, g := range before[i:] {
		if g.k != "seg" || !s.atLeast(g.parts[0], g.parts[1]) {
			mid = append(mid, g)
		}
	}
	return before[:i], mid, segs[j:], true
}

// joined puts adjacent segments together again.
func (s *nstate) joined(segs []tm) []tm {
	var out []tm
	for _, g := range segs {
		if g.k == "seg" && s.atLeast(g.parts[0], g.parts[1]) {
			continue // empty
		}
		if g.k == "elem" && g.parts[0].k == "sym" && strings.HasSuffix(g.parts[0].id, "]") {
			// an element of an array as it was
			id := g.parts[0].id
			if i := strings.Index(id, "["); i >= 0 {
				if at, ok := parseLin(id[i+1 : len(id)-1]); ok {
					g = tmSeg(id[:i], at, addTm(at, tmInt(1), 1))
				}
			}
		}
		if n := len(out); n > 0 && g.k == "seg" && out[n-1].k == "seg" && out[n-1].id == g.id && addTm(out[n-1].parts[1], g.parts[0], -1).key() == "0" {
			out[n-1] = tmSeg(g.id, out[n-1].parts[0], g.parts[1])
			continue
		}
		out = append(out, g)
	}
	return out
}

func (s *nstate) segs(arr string) []tm { return s.mem["seq:"+arr].parts }

// content gives a sequence's segments.
func (s *nstate) content(v tm) ([]tm, bool) {
	if v.k == "nil" {
		return nil, true
	}
	_, mid, _, ok := s.part(s.segs(v.id), v.parts[0], v.parts[1])
	return s.joined(mid), ok
}

// newSegs gives a list with known elements as a sequence.
func newSegs(st *nstate, l tm, at string) (*nstate, tm) {
	var segs []tm
	if o := st.lists[l.id]; l.k == "list" {
		for _, e := range o.items {
			segs = append(segs, tmElem(e))
		}
	}
	s := st.clone()
	s.mem["seq:"+at] = tm{k: "segs", parts: segs}
	return s, tmSeq(at, tmInt(0), tmInt(int64(len(segs))))
}

// seqAppend adds elements. What it gives is an array of its own, or the same one.
func (r *nrun) seqAppend(c ssa.Instruction, st *nstate, v, more tm, at string) ([]nout, bool) {
	_, cur, _, ok := st.part(st.segs(v.id), v.parts[0], v.parts[1])
	if !ok {
		r.giveUp(c, "which part of a list it is isn't known")
		return nil, false
	}
	segs := append([]tm{}, cur...)
	n := addTm(v.parts[1], v.parts[0], -1)
	o := st.lists[more.id]
	switch {
	case more.k == "nil":
	case more.k == "seq":
		c2, ok := st.content(more)
		if !ok {
			r.giveUp(c, "which part of a list it is isn't known")
			return nil, false
		}
		segs = append(segs, c2...)
		n = addTm(n, addTm(more.parts[1], more.parts[0], -1), 1)
	case more.k == "list" && o != nil && o.exact:
		for _, e := range o.items {
			segs = append(segs, tmElem(e))
		}
		n = addTm(n, tmInt(int64(len(o.items))), 1)
	default:
		r.giveUp(c, "what is appended isn't known")
		return nil, false
	}
	s := st.clone()
	s.mem["seq:"+at] = tm{k: "segs", parts: segs}
	out := []nout{{s, []tm{tmSeq(at, tmInt(0), n)}}}
	// what follows in the same array is overwritten, if there is enough room
	size := tmInt(0)
	for _, g := range st.segs(v.id) {
		if g.k == "seg" {
			size = addTm(size, addTm(g.parts[1], g.parts[0], -1), 1)
		} else {
			size.n++
		}
	}
	if st.atLeast(v.parts[1], size) {
		return out, true
	}
	end := addTm(v.parts[0], n, 1)
	before, _, _, ok := st.part(st.segs(v.id), v.parts[1], size)
	var rest []tm
	if ok && !st.atLeast(end, size) {
		_, rest, _, ok = st.part(st.segs(v.id), end, size)
	}
	if !ok {
		r.giveUp(c, "what is overwritten isn't known")
		return nil, false
	}
	s = st.clone()
	in := append(append(append([]tm{}, before...), segs[len(cur):]...), rest...)
	s.mem["seq:"+v.id] = tm{k: "segs", parts: in}
	if st.atLeast(size, end) {
		out = nil
	}
	return append(out, nout{s, []tm{tmSeq(v.id, v.parts[0], end)}}), true
}

func (r *nrun) seqCopy(c ssa.Instruction, st *nstate, dst, src tm) (nout, bool) {
	nd, ns := addTm(dst.parts[1], dst.parts[0], -1), addTm(src.parts[1], src.parts[0], -1)
	n := nd
	switch {
	case st.atLeast(ns, nd):
	case st.atLeast(nd, ns):
		n = ns
	default:
		r.giveUp(c, "how much is copied isn't known")
		return nout{}, false
	}
	_, what, _, ok := st.part(st.segs(src.id), src.parts[0], addTm(src.parts[0], n, 1))
	before, _, after, ok2 := st.part(st.segs(dst.id), dst.parts[0], addTm(dst.parts[0], n, 1))
	if !ok || !ok2 {
		r.giveUp(c, "what is copied isn't known")
		return nout{}, false
	}
	s := st.clone()
	s.mem["seq:"+dst.id] = tm{k: "segs", parts: st.joined(append(append(append([]tm{}, before...), what...), after...))}
	return nout{s, []tm{n}}, true
}

func (r *nrun) seqSlice(p npath, x *ssa.Slice, b tm) tm {
	lo, hi := tmInt(0), addTm(b.parts[1], b.parts[0], -1)
	if x.Low != nil {
		lo = r.val(p, x.Low)
	}
	if x.High != nil {
		hi = r.val(p, x.High)
	}
	return tmSeq(b.id, addTm(b.parts[0], lo, 1), addTm(b.parts[0], hi, 1))
}

func (r *nrun) seqAddr(b, i tm) tm {
	at := addTm(b.parts[0], i, 1)
	return tm{k: "addr", id: fmt.Sprintf("seq:%s[%s]", b.id, at.key()), parts: []tm{at}}
}

func isSeqAddr(a tm) bool {
	return a.k == "addr" && strings.HasPrefix(a.id, "seq:") && len(a.parts) > 0
}

// seqGet gives the element, or its part, at an address.
func (r *nrun) seqGet(i ssa.Instruction, st *nstate, a tm) (tm, bool) {
	arr := a.id[len("seq:"):strings.Index(a.id, "[")]
	_, mid, _, ok := st.part(st.segs(arr), a.parts[0], addTm(a.parts[0], tmInt(1), 1))
	if !ok || len(mid) != 1 {
		r.giveUp(i, "which element of a list it is isn't known")
		return tm{}, false
	}
	v := tm{}
	if mid[0].k == "elem" {
		v = mid[0].parts[0]
	} else {
		v = tmSym(mid[0].id + "[" + mid[0].parts[0].key() + "]")
	}
	for _, f := range a.parts[1:] {
		v = r.field(v, int(f.n), nil)
	}
	return v, true
}

func (r *nrun) seqSet(i ssa.Instruction, st *nstate, a, v tm, t types.Type) bool {
	arr := a.id[len("seq:"):strings.Index(a.id, "[")]
	before, mid, after, ok := st.part(st.segs(arr), a.parts[0], addTm(a.parts[0], tmInt(1), 1))
	if !ok || len(a.parts) > 2 || len(mid) != 1 {
		r.giveUp(i, "which element of a list is set isn't known")
		return false
	}
	if len(a.parts) == 2 {
		// one of its fields
		old, _ := r.seqGet(i, st, tm{k: "addr", id: a.id, parts: a.parts[:1]})
		n := tm{k: "struct"}
		for j := 0; j < 8; j++ {
			n.parts = append(n.parts, r.field(old, j, nil))
		}
		n.parts[a.parts[1].n] = v
		v = n
	}
	segs := append(append([]tm{}, before...), tmElem(v))
	st.mem["seq:"+arr] = tm{k: "segs", parts: append(segs, after...)}
	return true
}

// ---------------------------------------------------------------- searching

// search is sort.Search: the first index from which on the condition holds, as it does for all after it.
func (r *nrun) search(i ssa.Instruction, st *nstate, n, f tm, at string) ([]nout, bool) {
	if f.k != "fn" || f.fn == nil {
		return nil, false
	}
	s := st.clone()
	at = "@" + r.short("k", at)
	ix := tmSym(at + "i")
	s.mem["≥:"+at+"i"] = addTm(ix, tmInt(0), 1)
	s.mem["≥:"+at+"j"] = addTm(addTm(n, ix, -1), tmInt(1), -1)
	if !s.possible() {
		// there is nothing
		return []nout{{st, []tm{tmInt(0)}}}, true
	}
	outs := r.call(f.fn, []tm{ix}, f.parts, s, at, 1)
	if r.why != "" {
		return nil, false
	}
	cond := ""
	for _, o := range outs {
		c := o.res[0]
		if c.k == "bool" {
			// the condition that was tested
			t := ""
			for k, v := range o.st.facts {
				if _, had := s.facts[k]; had || !strings.Contains(k, ix.id) {
					continue
				}
				if t != "" {
					r.giveUp(i, "what is searched for isn't known")
					return nil, false
				}
				t = k
				if v != (c.n == 1) {
					t = "!" + k
				}
			}
			c = tmSym(t)
		}
		if cond != "" && cond != c.id || c.id == "" {
			r.giveUp(i, "what is searched for isn't known")
			return nil, false
		}
		cond = c.id
	}
	if cond == "" {
		r.giveUp(i, "what is searched for isn't known")
		return nil, false
	}
	s = st.clone()
	s.mem["≥:"+at] = addTm(tmSym(at), tmInt(0), 1)
	s.mem["≥:"+at+"n"] = addTm(n, tmSym(at), -1)
	s.mem["search:"+at] = tm{k: "struct", parts: []tm{n, tmStr(strings.ReplaceAll(cond, ix.id, "·"))}}
	found, not := s, s.clone()
	found.mem["≥:"+at+"<"] = addTm(addTm(n, tmSym(at), -1), tmInt(1), -1)
	not.mem["≥:"+at+">"] = addTm(tmSym(at), n, -1)
	v := s.mem["search:"+at].parts[1].id
	if k, yes := condAt(v, tmSym(at)); k != "" {
		found.facts[k] = yes
	}
	out := []nout{{found, []tm{tmSym(at)}}}
	if s.atLeast(n, tmInt(1)) {
		// it doesn't hold for the last one either
		k, yes := condAt(v, addTm(n, tmInt(1), -1))
		if had, known := not.facts[k]; known && had == yes {
			return out, true
		}
		if k != "" {
			not.facts[k] = !yes
		}
		if !not.possible() {
			return out, true
		}
	}
	return append(out, nout{not, []tm{tmSym(at)}}), true
}

var indexRE = regexp.MustCompile(`\[[^][]*·[^][]*\]`)

// condAt gives what was searched for at the index: the condition, and whether it is to hold.
func condAt(c string, i tm) (string, bool) {
	yes := true
	if strings.HasPrefix(c, "!") {
		c, yes = c[1:], false
	}
	ok := true
	c = indexRE.ReplaceAllStringFunc(c, func(s string) string {
		v, good := parseLin(s[1 : len(s)-1])
		if !good {
			ok = false
			return s
		}
		return "[" + substTm(v, "·", i).key() + "]"
	})
	if !ok || strings.Contains(c, "·") {
		return "", false
	}
	return c, yes
}

// substTm puts an int in the place of a symbol.
func substTm(v tm, sym string, by tm) tm {
	out := tmInt(v.n)
	for _, p := range v.parts {
		if p.id == sym {
			out = addTm(out, by, p.n)
		} else {
			out = addTm(out, tmSym(p.id), p.n)
		}
	}
	return out
}
