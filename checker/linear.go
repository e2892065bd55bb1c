package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"
)

// Sums of named numbers with what is known of them: products and parts rounded down are names of
// their own. Whether something follows is decided by Fourier-Motzkin elimination.

// linear gives each name's factor; "" stands for 1.
type linear map[string]*big.Rat

func ratInt(n int64) *big.Rat { return big.NewRat(n, 1) }

func linVar(name string) linear { return linear{name: ratInt(1)} }
func linInt(n int64) linear     { return linear{}.plus(linear{"": ratInt(n)}, ratInt(1)) }

func (l linear) plus(m linear, f *big.Rat) linear {
	n := linear{}
	for k, v := range l {
		n[k] = v
	}
	for k, v := range m {
		x := new(big.Rat).Mul(v, f)
		if was := n[k]; was != nil {
			x.Add(x, was)
		}
		if x.Sign() == 0 {
			delete(n, k)
		} else {
			n[k] = x
		}
	}
	return n
}

func (l linear) minus(m linear) linear       { return l.plus(m, ratInt(-1)) }
func (l linear) times(f *big.Rat) linear     { return linear{}.plus(l, f) }
func (l linear) add(n int64) linear          { return l.plus(linear{"": ratInt(1)}, ratInt(n)) }
func (l linear) one() (string, *big.Rat)     { return oneOf(l) }
func (l linear) number() (*big.Rat, bool)    { return numberOf(l) }
func (l linear) sortedNames() (out []string) { return namesOf(l) }

func oneOf(l linear) (string, *big.Rat) {
	if len(l) != 1 {
		return "", nil
	}
	for k, v := range l {
		if k != "" {
			return k, v
		}
	}
	return "", nil
}

func numberOf(l linear) (*big.Rat, bool) {
	switch {
	case len(l) == 0:
		return new(big.Rat), true
	case len(l) == 1 && l[""] != nil:
		return l[""], true
	}
	return nil, false
}

func namesOf(l linear) (out []string) {
	for k := range l {
		out = append(out, k)
	}
	sort.Strings(out)
	return
}

func (l linear) String() string {
	if len(l) == 0 {
		return "0"
	}
	var out []string
	for _, k := range l.sortedNames() {
		switch f := l[k].RatString(); {
		case k == "":
			out = append(out, f)
		case f == "1":
			out = append(out, k)
		default:
			out = append(out, f+"·"+k)
		}
	}
	return strings.Join(out, " + ")
}

func linOf(v *kv) (linear, bool) {
	switch v.k {
	case kLin:
		return v.lin, true
	case kConst:
		switch v.c.Kind() {
		case constant.Int, constant.Float:
			if r, ok := new(big.Rat).SetString(v.c.ExactString()); ok {
				return linear{}.plus(linear{"": r}, ratInt(1)), true
			}
		}
	}
	return nil, false
}

// possible tells whether all can be at least 0, over the rationals.
func possible(facts []linear) bool {
	for {
		name := ""
		for _, f := range facts {
			if n, ok := f.number(); ok {
				if n.Sign() < 0 {
					return false
				}
				continue
			}
			for _, k := range f.sortedNames() {
				if k != "" && name == "" {
					name = k
				}
			}
		}
		if name == "" {
			return true
		}
		var up, down, next []linear
		for _, f := range facts {
			switch c := f[name]; {
			case c == nil:
				next = append(next, f)
			case c.Sign() > 0:
				up = append(up, f)
			default:
				down = append(down, f)
			}
		}
		if len(up)*len(down) > 400 {
			return true
		}
		seen := map[string]bool{}
		for _, a := range up {
			for _, b := range down {
				n := a.times(new(big.Rat).Neg(b[name])).plus(b, a[name])
				if key := n.String(); !seen[key] {
					seen[key] = true
					next = append(next, n)
				}
			}
		}
		facts = next
	}
}

// rules tells whether what's known rules out that all of more are at least 0.
func (s *kstate) rules(more ...linear) bool {
	return !possible(append(append([]linear(nil), s.facts...), more...))
}

// same tells whether two sums are always equal.
func (s *kstate) same(a, b linear) bool {
	d := a.minus(b)
	return len(d) == 0 || s.rules(d.add(-1)) && s.rules(d.times(ratInt(-1)).add(-1))
}

// floor rounds down what isn't negative.
func (s *kstate) floor(l linear) linear {
	whole := true
	for _, f := range l {
		whole = whole && f.IsInt()
	}
	if whole {
		return l
	}
	name := "⌊" + l.String() + "⌋"
	up := true
	for k, f := range l {
		if k == "" {
			up = up && f.Sign() >= 0
			continue
		}
		// products of what isn't negative
		for _, p := range strings.Split(k, "·") {
			up = up && s.rules(linVar(p).times(ratInt(-1)).add(-1))
		}
		up = up && f.Sign() > 0
	}
	if up {
		s.facts = append(s.facts, linVar(name))
	}
	return linVar(name)
}

func (s *kstate) linOp(op token.Token, a, b *kv, t types.Type) *kv {
	x, ok1 := linOf(a)
	y, ok2 := linOf(b)
	if !ok1 || !ok2 {
		return kunk
	}
	lin := func(l linear) *kv { return &kv{k: kLin, lin: l} }
	switch op {
	case token.ADD:
		return lin(x.plus(y, ratInt(1)))
	case token.SUB:
		return lin(x.minus(y))
	case token.MUL:
		if n, ok := x.number(); ok {
			return lin(y.times(n))
		}
		if n, ok := y.number(); ok {
			return lin(x.times(n))
		}
		p, f := x.one()
		q, g := y.one()
		if f != nil && g != nil {
			ps := append(strings.Split(p, "·"), strings.Split(q, "·")...)
			sort.Strings(ps)
			return lin(linVar(strings.Join(ps, "·")).times(new(big.Rat).Mul(f, g)))
		}
	case token.QUO:
		n, ok := y.number()
		if !ok || n.Sign() == 0 {
			return kunk
		}
		q := x.times(new(big.Rat).Inv(n))
		if bt, ok := t.Underlying().(*types.Basic); ok && bt.Info()&types.IsInteger != 0 {
			return lin(s.floor(q))
		}
		return lin(q)
	case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
		yes, no := true, true
		for _, f := range compared(op, x, y) {
			yes = yes && s.rules(f.times(ratInt(-1)).add(-1))
		}
		if op == token.NEQ {
			yes, no = s.rules(x.minus(y), y.minus(x)), s.same(x, y)
		} else {
			no = s.rules(compared(op, x, y)...)
		}
		switch {
		case yes:
			return kbool(true)
		case no:
			return kbool(false)
		}
	}
	return kunk
}

// compared gives what's at least 0 if a comparison of whole numbers is true.
func compared(op token.Token, x, y linear) []linear {
	switch op {
	case token.LSS:
		return []linear{y.minus(x).add(-1)}
	case token.LEQ:
		return []linear{y.minus(x)}
	case token.GTR:
		return []linear{x.minus(y).add(-1)}
	case token.GEQ:
		return []linear{x.minus(y)}
	case token.EQL:
		return []linear{x.minus(y), y.minus(x)}
	}
	return nil
}

func (s *kstate) learnLin(op token.Token, want bool, a, b *kv, t types.Type) bool {
	x, ok1 := linOf(a)
	y, ok2 := linOf(b)
	bt, ok := t.Underlying().(*types.Basic)
	if !ok1 || !ok2 || !ok || bt.Info()&types.IsInteger == 0 {
		return true
	}
	if !want {
		op = knot(op)
	}
	s.facts = append(s.facts, compared(op, x, y)...)
	return possible(s.facts)
}

var _ = fmt.Sprint
