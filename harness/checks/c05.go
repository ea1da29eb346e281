package checks

import (
	"fmt"
	"math/big"
	"math/rand"
	"strings"

	"verif/harness/vh"
)

// gform is how the checked value is held.
type gform struct {
	name string
	fn   string // FN, SRC, DST, BODY
	x    string // the value as written
	conv string
}

var gforms = []gform{
	{"param", "func FN(x SRC) DST {\nBODY\n}", "x", "return DST(x) // conv"},
	{"param", "func FN(x SRC) DST {\nBODY\n}", "x", "return DST(x) // conv"},
	{"local", "func FN(f func() SRC) DST {\nx := f()\nBODY\n}", "x", "return DST(x) // conv"},
	{"named", "type nFN SRC\n\nfunc FN(x nFN) DST {\nBODY\n}", "x", "return DST(x) // conv"},
	{"named-dst", "type dFN DST\n\nfunc FN(x SRC) dFN {\nBODY\n}", "x", "return dFN(x) // conv"},
	{"assign", "func FN(x SRC) (r DST) {\nBODY\n}", "x", "r = DST(x) // conv\nreturn r"},
	{"arg", "func FN(x SRC, g func(DST) DST) DST {\nBODY\n}", "x", "return g(DST(x)) // conv"},
	{"ptrfield", "func FN(s *struct{ a, b SRC }) DST {\nBODY\n}", "s.b", "return DST(s.b) // conv"},
	{"field", "func FN(s struct{ a, b SRC }) DST {\nBODY\n}", "s.b", "return DST(s.b) // conv"},
	{"nested-field", "func FN(s *struct{ n struct{ a, b SRC } }) DST {\nBODY\n}", "s.n.b", "return DST(s.n.b) // conv"},
	{"literal", "var FN = []func(SRC) DST{func(x SRC) DST {\nBODY\n}}", "x", "return DST(x) // conv"},
	{"deep", "func FN() func(SRC) DST {\nreturn func() func(SRC) DST {\nreturn func(x SRC) DST {\nBODY\n}\n}()\n}", "x", "return DST(x) // conv"},
	{"rangeval", "func FN(s []SRC) DST {\nfor _, x := range s {\nBODY\n}\nreturn 0\n}", "x", "return DST(x) // conv"},
}

// unrelated are functions whose comparisons say nothing about the value.
var unrelated = []gform{
	{"other-param", "func FN(x, y SRC) DST {\nBODY\n}", "y", "return DST(x) // conv"},
	{"other-field", "func FN(s *struct{ a, b SRC }) DST {\nBODY\n}", "s.a", "return DST(s.b) // conv"},
	{"other-struct", "func FN(s, t *struct{ a, b SRC }) DST {\nBODY\n}", "t.b", "return DST(s.b) // conv"},
	{"before", "func FN(x SRC) DST {\nr := DST(x) // conv\nBODY\n}", "x", "return r"},
	{"closure", "func FN(x SRC) DST {\ncheck := func() DST {\nBODY\n}\ncheck()\nreturn DST(x) // conv\n}", "x", "return 1"},
	{"elsewhere", "func cFN(x SRC) DST {\nBODY\n}\n\nfunc FN(x SRC) DST {\ncFN(x)\nreturn DST(x) // conv\n}", "x", "return 1"},
	{"derived", "func FN(x SRC) DST {\ny := x / 3\nBODY\n}", "y", "return DST(x) // conv"},
	{"or-other", "func FN(x, y SRC) DST {\nif x == 3 || y == 4 {\nreturn DST(x) // conv\n}\nBODY\n}", "y", "return 1"},
	{"other-or", "func FN(x, y SRC) DST {\nif y == 3 || x == 4 {\nreturn DST(x) // conv\n}\nBODY\n}", "y", "return 1"},
	{"or-call", "func FN(x, y SRC, f func() bool) DST {\nif x == 3 || f() || x == 4 {\nreturn DST(x) // conv\n}\nBODY\n}", "y", "return 1"},
	{"or-both", "func FN(x, y SRC) DST {\nif x == 3 || x == y || x == 5 {\nreturn DST(x) // conv\n}\nBODY\n}", "y", "return 1"},
	{"or-switch", "func FN(x, y SRC) DST {\nswitch {\ncase x == 3, x == 4, y == 3:\nreturn DST(x) // conv\n}\nBODY\n}", "y", "return 1"},
	{"or-not", "func FN(x, y SRC) DST {\nif x == 3 || y != 4 {\nreturn DST(x) // conv\n}\nBODY\n}", "y", "return 1"},
	{"or-less", "func FN(x, y SRC) DST {\nif x == 3 || y < 4 {\nreturn DST(x) // conv\n}\nBODY\n}", "y", "return 1"},
	{"len", "func FN(x SRC, t []int) DST {\nvar y SRC\nfor range t {\ny++\n}\nBODY\n}", "y", "return DST(x) // conv"},
}

func (g gcase) formFn(name string, f gform) string {
	var cs []string
	for _, c := range g.conds {
		cs = append(cs, c.src(f.x))
	}
	body := g.sh.code(cs, strings.ReplaceAll(f.conv, "FN", name))
	return strings.NewReplacer("SRC", g.src.name, "DST", g.dst.name, "FN", name).Replace(strings.Replace(f.fn, "BODY", body, 1))
}

// complete tells whether the guard is a complete direct bound check: each
// bound needed for the type pair is one ordering comparison with a constant,
// and nothing else is compared.
func complete(rng *rand.Rand, src, dst intType, sh shape) (gcase, bool) {
	needLo, needHi := src.min.Cmp(dst.min) < 0, src.max.Cmp(dst.max) > 0
	g := gcase{src: src, dst: dst, sh: sh}
	n := 0
	if needLo {
		n++
	}
	if needHi {
		n++
	}
	if n == 0 || n != sh.conds {
		return g, false
	}
	// which of the conditions hold at the conversion
	holds := make([]bool, n)
	for i := range holds {
		for v := 0; v < 2; v++ {
			b := make([]bool, n)
			ok := true
			// the only outcome that reaches the conversion
			cnt := 0
			for m := 0; m < 1<<n; m++ {
				for k := range b {
					b[k] = m>>k&1 == 1
				}
				if sh.reach(b) {
					cnt++
					holds[i] = b[i]
				}
			}
			if cnt != 1 {
				ok = false
			}
			if !ok {
				return g, false
			}
		}
	}
	rnd := func(lo, hi *big.Int) *big.Int {
		// a bound within the destination, often at its edge
		d := new(big.Int).Sub(hi, lo)
		switch rng.Intn(3) {
		case 0:
			return new(big.Int).Set(lo)
		case 1:
			return new(big.Int).Set(hi)
		}
		return new(big.Int).Add(lo, new(big.Int).Rand(rng, d))
	}
	lo := dst.min
	if src.min.Cmp(lo) > 0 {
		lo = src.min
	}
	hi := dst.max
	if src.max.Cmp(hi) < 0 {
		hi = src.max
	}
	i := 0
	order := rng.Intn(2) == 0
	mk := func(lower bool) {
		h := holds[i]
		one := big.NewInt(1)
		var c gcond
		if lower {
			b := rnd(lo, big.NewInt(0))
			if lo.Sign() > 0 {
				b = lo
			}
			switch {
			case h && rng.Intn(2) == 0:
				c = gcond{">=", b, false}
			case h:
				c = gcond{">", new(big.Int).Sub(b, one), false}
			case rng.Intn(2) == 0:
				c = gcond{"<", b, false}
			default:
				c = gcond{"<=", new(big.Int).Sub(b, one), false}
			}
		} else {
			b := rnd(big.NewInt(1), hi)
			switch {
			case h && rng.Intn(2) == 0:
				c = gcond{"<=", b, false}
			case h:
				c = gcond{"<", new(big.Int).Add(b, one), false}
			case rng.Intn(2) == 0:
				c = gcond{">", b, false}
			default:
				c = gcond{">=", new(big.Int).Add(b, one), false}
			}
		}
		c.flip = rng.Intn(3) == 0
		g.conds = append(g.conds, c)
		i++
	}
	if needLo && needHi {
		mk(order)
		mk(!order)
	} else {
		mk(needLo)
	}
	for _, c := range g.conds {
		if !src.has(c.c) {
			return g, false
		}
	}
	return g, true
}

func init() {
	All["C05"] = func(r *vh.Run) {
		r.Rule("random functions with comparisons of the converted variable with constants in the guard shapes, over all overflowing type pairs; oracle: boundary values of the source type around every constant are run through the guard; non-trivial: distinct (type pair, shape, comparisons, value form)")
		type tc struct {
			g    gcase
			f    gform
			full bool
		}
		var cases []tc
		for k := 0; k < r.N(24000, 400000); k++ {
			cases = append(cases, tc{randCase(r.Rng, guardShapes, intTypes, intTypes), vh.PickS(r.Rng, gforms), false})
		}
		for k := 0; k < r.N(8000, 100000); k++ {
			cases = append(cases, tc{randCase(r.Rng, []shape{randShape(r.Rng)}, intTypes, intTypes), vh.PickS(r.Rng, gforms), false})
		}
		for k := 0; k < r.N(16000, 200000); k++ {
			s, d := vh.PickS(r.Rng, intTypes), vh.PickS(r.Rng, intTypes)
			if !overflows(s, d) {
				continue
			}
			if g, ok := complete(r.Rng, s, d, vh.PickS(r.Rng, guardShapes)); ok {
				cases = append(cases, tc{g, vh.PickS(r.Rng, gforms), true})
			}
		}
		// a value replaced after the check is not checked
		reassign := []string{"x += 1000", "x = x * 2", "x = f()", "x++"}
		const per = 160
		n := (len(cases) + per - 1) / per
		r.Parallel(n, func(i int, rng *rand.Rand) {
			ce := cases[i*per : min((i+1)*per, len(cases))]
			var fns []string
			for k, c := range ce {
				f := c.f
				if k%40 == 9 {
					// after many other branches
					f.fn = strings.Replace(f.fn, "BODY", branches(rng, vh.Pick(rng, 20, 90, 260))+"BODY", 1)
				}
				fns = append(fns, c.g.formFn(fmt.Sprintf("n%d", k), f))
			}
			type re struct {
				g gcase
				s string
			}
			var res []re
			for k := 0; k < 8; k++ {
				s, d := vh.Pick(rng, "int", "int64", "uint64", "int32"), vh.Pick(rng, "int8", "uint8", "int16", "uint16")
				g := randCase(rng, guardShapes[:4], []intType{typeByName(s)}, []intType{typeByName(d)})
				ra := vh.PickS(rng, reassign)
				res = append(res, re{g, ra})
				body := g.sh.code([]string{g.conds[0].src("x")}, ra+"\nreturn "+d+"(x) // conv")
				fns = append(fns, fmt.Sprintf("func r%d(x %s, f func() %s) %s {\n%s\n}", k, s, s, d, body))
			}
			// comparisons of something else, or elsewhere, do not count
			var un []string
			for k := 0; k < 10; k++ {
				s, d := vh.Pick(rng, "int", "int64", "uint64", "int32", "uint32"), vh.Pick(rng, "int8", "uint8", "int16", "uint16")
				g, ok := gcase{}, false
				for !ok {
					g, ok = complete(rng, typeByName(s), typeByName(d), vh.PickS(rng, guardShapes[:10]))
				}
				u := vh.PickS(rng, unrelated)
				var cs []string
				for _, c := range g.conds {
					cs = append(cs, c.src(u.x))
				}
				body := g.sh.code(cs, u.conv)
				un = append(un, u.name+" "+g.String())
				fns = append(fns, strings.NewReplacer("SRC", s, "DST", d, "FN", fmt.Sprintf("u%d", k)).Replace(strings.Replace(u.fn, "BODY", body, 1)))
			}
			rep, _ := g115Batch(r, "", fns, "guard")
			if rep == nil {
				return
			}
			for k, u := range un {
				r.Eval("unrelated check", u, true)
				j := len(fns) - len(un) + k
				if rep[j] != 1 {
					r.Violation("unrelated/"+u, fmt.Sprintf("the comparison is not about the converted value, the conversion was reported %d times (%s)", rep[j], u), unit("", fns[j]))
				}
			}
			for k, c := range ce {
				w := c.g.witness()
				r.Eval(c.g.sh.name, c.g.String()+c.f.name, true)
				switch {
				case w != nil:
					r.Count("overflow reaches the conversion", 1)
				default:
					r.Count("guard prevents overflow", 1)
				}
				if rep[k] > 1 {
					r.Violation("twice/"+c.g.sh.name, c.g.String()+" was reported more than once", unit("", fns[k]))
				}
				if w != nil && rep[k] == 0 {
					r.Violation(fmt.Sprintf("missed/%s/%s", c.g.sh.name, c.g), fmt.Sprintf("the conversion is not reported although x = %s passes the checks and does not fit %s (%s)", w, c.g.dst.name, c.g), unit("", fns[k]))
				}
				if c.full {
					if w != nil {
						r.Inconclusive("generator made an incomplete check: %s", c.g)
					}
					r.Count("complete checks", 1)
					if rep[k] != 0 && c.f.name != "nested-field" {
						r.Violation(fmt.Sprintf("false/%s/%s", c.g.sh.name, c.g.String()+" "+c.f.name), fmt.Sprintf("the conversion is reported although the bound check is complete (%s)", c.g), unit("", fns[k]))
					}
				}
			}
			for k, c := range res {
				// after x = f() any value reaches the conversion
				r.Eval("reassigned", c.g.String()+c.s, true)
				j := len(ce) + k
				if rep[j] != 1 && c.s == "x = f()" {
					r.Violation(fmt.Sprintf("reassigned/%s", c.g), fmt.Sprintf("the variable gets another value after the check (%s), the conversion was reported %d times", c.s, rep[j]), unit("", fns[j]))
				}
			}
			if i%40 == 3 {
				r.Sample(map[string]any{"case": ce[0].g.String(), "form": ce[0].f.name, "reported": rep[0] == 1, "witness": fmt.Sprint(ce[0].g.witness())})
			}
		})
		r.Need("overflow reaches the conversion", 3000)
		r.Need("complete checks", 1000)
	}
}

// branches is a piece of program with n branches on nothing relevant.
func branches(rng *rand.Rand, n int) string {
	var sb strings.Builder
	for k := 0; k < n; k++ {
		sb.WriteString(vh.Pick(rng, fmt.Sprintf("if sink > %d {\nsink++\n}\n", k), fmt.Sprintf("for sink < %d {\nsink += 2\n}\n", k), fmt.Sprintf("switch sink {\ncase %d:\nsink = 3\ndefault:\nsink--\n}\n", k)))
	}
	return sb.String()
}
