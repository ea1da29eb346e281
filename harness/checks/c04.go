package checks

import (
	"fmt"
	"math/big"
	"math/rand"
	"strings"

	"verif/harness/vh"
)

// convSource is a way a non-constant value of type %s comes about; the
// function gets the conversion statement with %V standing for the value.
type convSource struct{ name, code string }

var convSources = []convSource{
	{"param", "func FN(x SRC) DST {\nreturn DST(x) // conv\n}"},
	{"call", "func FN(f func() SRC) DST {\nreturn DST(f()) // conv\n}"},
	{"field", "func FN(s struct{ a, b SRC }) DST {\nreturn DST(s.b) // conv\n}"},
	{"ptrfield", "func FN(s *struct{ a, b SRC }) DST {\nreturn DST(s.b) // conv\n}"},
	{"element", "func FN(s []SRC, i int) DST {\nreturn DST(s[i]) // conv\n}"},
	{"array", "func FN(s [4]SRC, i int) DST {\nreturn DST(s[i&3]) // conv\n}"},
	{"mapelem", "func FN(m map[string]SRC) DST {\nreturn DST(m[`k`]) // conv\n}"},
	{"mapok", "func FN(m map[string]SRC) DST {\nv, _ := m[`k`]\nreturn DST(v) // conv\n}"},
	{"deref", "func FN(p *SRC) DST {\nreturn DST(*p) // conv\n}"},
	{"recv", "func FN(c chan SRC) DST {\nreturn DST(<-c) // conv\n}"},
	{"global", "var vFN SRC\n\nfunc FN() DST {\nreturn DST(vFN) // conv\n}"},
	{"multi", "func FN(f func() (SRC, error)) (DST, error) {\nv, err := f()\nreturn DST(v), err // conv\n}"},
	{"sum", "func FN(a, b SRC) DST {\nreturn DST(a + b) // conv\n}"},
	{"rangevalue", "func FN(s []SRC) (d DST) {\nfor _, v := range s {\nd += DST(v) // conv\n}\nreturn\n}"},
	{"phi", "func FN(a, b SRC, c bool) DST {\nv := a\nif c {\nv = b\n}\nreturn DST(v) // conv\n}"},
	{"assert", "func FN(a any) DST {\nv, ok := a.(SRC)\nif !ok {\nreturn 0\n}\nreturn DST(v) // conv\n}"},
	{"closure", "func FN(a SRC) func() DST {\nreturn func() DST {\nreturn DST(a) // conv\n}\n}"},
	{"method", "type tFN SRC\n\nfunc (t tFN) FN() DST {\nreturn DST(t) // conv\n}"},
	{"argument", "func FN(x SRC, f func(DST)) {\nf(DST(x)) // conv\n}"},
	{"operand", "func FN(x SRC) bool {\nreturn 3 < DST(x) // conv\n}"},
	{"assign", "func FN(x SRC, p *DST) {\n*p = DST(x) // conv\n}"},
	{"composite", "func FN(x SRC) any {\nreturn []DST{1, DST(x)} // conv\n}"},
	{"named-dst", "type dFN DST\n\nfunc FN(x SRC) dFN {\nreturn dFN(x) // conv\n}"},
	{"named-src", "type sFN SRC\n\nfunc FN(x sFN) DST {\nreturn DST(x) // conv\n}"},
	{"named-both", "type sFN SRC\n\ntype dFN DST\n\nfunc FN(x sFN) dFN {\nreturn dFN(x) // conv\n}"},
	{"alias-dst", "type dFN = DST\n\nfunc FN(x SRC) dFN {\nreturn dFN(x) // conv\n}"},
	{"alias-src", "type sFN = SRC\n\nfunc FN(x sFN) DST {\nreturn DST(x) // conv\n}"},
	{"alias-named", "type sFN SRC\n\ntype aFN = sFN\n\nfunc FN(x aFN) DST {\nreturn DST(x) // conv\n}"},
	{"irrelevant-check", "func FN(x, y SRC) DST {\nif y > 3 {\nreturn 0\n}\nreturn DST(x) // conv\n}"},
	{"generic-around", "func FN[T any](t T, x SRC) DST {\nreturn DST(x) // conv\n}"},
	{"min", "func FN(a, b SRC) DST {\nreturn DST(min(a, b)) // conv\n}"},
	{"max", "func FN(a, b SRC) DST {\nreturn DST(max(a, b)) // conv\n}"},
	{"unary", "func FN(a SRC) DST {\nreturn DST(-a) // conv\n}"},
	{"complement", "func FN(a SRC) DST {\nreturn DST(^a) // conv\n}"},
	{"shift", "func FN(a SRC, n uint) DST {\nreturn DST(a << n) // conv\n}"},
	{"bits", "func FN(a, b SRC) DST {\nreturn DST(a | b) // conv\n}"},
	{"quotient", "func FN(a, b SRC) DST {\nreturn DST(a / b) // conv\n}"},
	{"namesake", "func FN(a SRC, len func(SRC) SRC) DST {\nreturn DST(len(a)) // conv\n}"},
	{"three ways", "func FN(a, b, c SRC, n int) DST {\nv := a\nswitch n {\ncase 1:\nv = b\ncase 2:\nv = c\n}\nreturn DST(v) // conv\n}"},
	{"goroutine", "func FN(x SRC, c chan DST) {\ngo func() {\nc <- DST(x) // conv\n}()\n}"},
	{"deferred", "func FN(x SRC, p *DST) {\ndefer func() {\n*p = DST(x) // conv\n}()\n}"},
	{"deep closure", "func FN(a SRC) func() func() DST {\nreturn func() func() DST {\nreturn func() DST {\nreturn DST(a) // conv\n}\n}\n}"},
	{"deepest closure", "func FN() any {\nreturn func() any {\nreturn func() any {\nreturn []func(SRC) DST{func(x SRC) DST {\nreturn DST(x) // conv\n}}\n}\n}\n}"},
	{"init", "func init() {\nfor _, x := range vFN {\nwFN = append(wFN, DST(x)) // conv\n}\n}\n\nvar vFN []SRC\n\nvar wFN []DST"},
	{"generic method", "type gFN[T any] struct{ t T }\n\nfunc (g *gFN[T]) FN(x SRC) DST {\nreturn DST(x) // conv\n}"},
	{"variadic", "func FN(xs ...SRC) (r []DST) {\nfor k := 0; k < len(xs); k++ {\nr = append(r, 1, DST(xs[k])) // conv\n}\nreturn\n}"},
	{"switch", "func FN(x SRC, k int) (d DST) {\nswitch k {\ncase 1:\nd = 2\ncase 3:\nd = DST(x) // conv\ndefault:\nd = 4\n}\nreturn\n}"},
	{"select", "func FN(c, e chan SRC) DST {\nselect {\ncase x := <-c:\nreturn DST(x) // conv\ncase <-e:\n}\nreturn 0\n}"},
	{"loop", "func FN(f func() SRC) (d DST) {\nfor {\nd += DST(f()) // conv\nif d == 3 {\nbreak\n}\n}\nreturn\n}"},
	{"after goto", "func FN(x SRC, b bool) DST {\nagain:\nif b {\nb = false\ngoto again\n}\nreturn DST(x) // conv\n}"},
	{"package function", "var FN = func(x SRC) DST {\nreturn DST(x) // conv\n}"},
	{"package table", "type cFN struct {\nname string\nrun func(x SRC) DST\n}\n\nvar FN = []*cFN{{name: `a`}, {`b`, func(x SRC) DST {\nreturn DST(x) // conv\n}}}"},
	{"package closure", "var FN = func() func(SRC) DST {\nreturn func(x SRC) DST {\nreturn DST(x) // conv\n}\n}()"},
	{"package variable", "func fFN() SRC { var x SRC; return x + vFN }\n\nvar vFN SRC\n\nvar FN = DST(fFN()) // conv"},
	{"package element", "var vFN []SRC\n\nvar FN = map[string]DST{\n`a`: 1,\n`b`: DST(vFN[0]), // conv\n}"},
	{"blank variable", "var vFN SRC\n\nvar _ = DST(vFN) // conv"},
}

// parsePre declares namesakes of the functions of strconv.
const parsePre = "import \"strconv\"\n\nvar _ = strconv.IntSize\n\nfunc ParseInt(s string, base, bits int) (int64, error) { return int64(len(s)) << 40, nil }\n\nfunc ParseUint(s string, base, bits int) (uint64, error) { return 1 << 63, nil }\n\ntype parser int64\n\nfunc (p parser) ParseInt(base, bits int) int64 { return -int64(p) }\n\nfunc (p parser) ParseUint(base, bits int) uint64 { return 1 << 63 }\n"

func init() {
	All["C04"] = func(r *vh.Run) {
		r.Rule("every ordered pair of the 12 integer type names (int/uint of 8..64 bits, int, uint, byte, rune) in every one of the value forms, expected verdict from big-integer ranges (exhaustive over pairs x forms); constants over all types with boundary values; len/cap and strconv results; non-trivial: distinct (pair, form)")
		r.Assume("integer size of the scanning machine is 64 bits")
		types := append([]intType{}, intTypes...)
		b := typeByName("uint8")
		b.name = "byte"
		ru := typeByName("int32")
		ru.name = "rune"
		types = append(types, b, ru)
		type pair struct{ s, d intType }
		var pairs []pair
		for _, s := range types {
			for _, d := range types {
				pairs = append(pairs, pair{s, d})
			}
		}
		r.Parallel(len(pairs), func(i int, rng *rand.Rand) {
			p := pairs[i]
			var fns []string
			for k, c := range convSources {
				f := strings.NewReplacer("SRC", p.s.name, "DST", p.d.name, "FN", fmt.Sprintf("n%d", k)).Replace(c.code)
				if p.s.name == "byte" || p.s.name == "rune" || p.d.name == "byte" || p.d.name == "rune" {
					f = f + "\n"
				}
				fns = append(fns, f)
			}
			rep, _ := g115Batch(r, "", fns, "pair")
			if rep == nil {
				return
			}
			want := 0
			if overflows(p.s, p.d) {
				want = 1
			}
			for k, c := range convSources {
				r.Eval("pair", p.s.name+">"+p.d.name+"/"+c.name, true)
				r.Count("conversions reported", int64(rep[k]))
				r.Count("conversions silent", int64(1-min(rep[k], 1)))
				if rep[k] != want {
					r.Violation(fmt.Sprintf("pair/%s-%s/%s", p.s.name, p.d.name, c.name), fmt.Sprintf("conversion %s -> %s of a value by %s: reported %d times, expected %d (source range [%s,%s], destination range [%s,%s])",
						p.s.name, p.d.name, c.name, rep[k], want, p.s.min, p.s.max, p.d.min, p.d.max), unit("", fns[k]))
				}
			}
			if i%17 == 0 {
				r.Sample(map[string]any{"source": p.s.name, "destination": p.d.name, "forms": len(fns), "expected": want})
			}
		})
		// constants held in variables
		type ccase struct {
			s, d intType
			v    *big.Int
		}
		var cc []ccase
		for _, s := range types {
			for _, d := range types {
				for _, base := range []*big.Int{s.min, s.max, d.min, d.max, big.NewInt(0), big.NewInt(77)} {
					for o := int64(-1); o <= 1; o++ {
						v := new(big.Int).Add(base, big.NewInt(o))
						if s.has(v) {
							cc = append(cc, ccase{s, d, v})
						}
					}
				}
			}
		}
		forms := []string{
			"func FN() DST {\nvar x SRC = VAL\nreturn DST(x) // conv\n}",
			"func FN() DST {\nx := SRC(VAL)\ny := x\nreturn DST(y) // conv\n}",
			"func FN() DST {\nconst k SRC = VAL\nx := k\nreturn func() DST { return DST(x) }() // conv\n}",
		}
		const per = 150
		n := (len(cc) + per - 1) / per
		r.Parallel(n, func(i int, rng *rand.Rand) {
			ce := cc[i*per : min((i+1)*per, len(cc))]
			var fns []string
			for k, c := range ce {
				fns = append(fns, strings.NewReplacer("SRC", c.s.name, "DST", c.d.name, "VAL", c.v.String(), "FN", fmt.Sprintf("n%d", k)).Replace(forms[rng.Intn(2)]))
			}
			rep, _ := g115Batch(r, "", fns, "const")
			for k, c := range ce {
				r.Eval("constant", fmt.Sprintf("%s>%s %s", c.s.name, c.d.name, c.v), true)
				if rep != nil && c.d.has(c.v) && rep[k] != 0 {
					r.Violation(fmt.Sprintf("const/%s-%s/%s", c.s.name, c.d.name, c.v), fmt.Sprintf("conversion of the constant %s from %s to %s was reported although it fits", c.v, c.s.name, c.d.name), unit("", fns[k]))
				}
				if rep != nil && !c.d.has(c.v) && rep[k] != 1 {
					r.Violation(fmt.Sprintf("constbad/%s-%s/%s", c.s.name, c.d.name, c.v), fmt.Sprintf("conversion of the constant %s from %s to %s was reported %d times although it does not fit", c.v, c.s.name, c.d.name, rep[k]), unit("", fns[k]))
				}
			}
		})
		// values of a known range: len, cap, strconv results of a bit size
		var fns []string
		var want []int
		var name []string
		for _, d := range types {
			for _, f := range []string{"len", "cap"} {
				w := 0
				if overflows(intType{min: big.NewInt(0), max: typeByName("int").max}, d) {
					w = 1
				}
				fns = append(fns, fmt.Sprintf("func n%d(x []string) %s {\nreturn %s(%s(x)) // conv\n}", len(fns), d.name, d.name, f))
				want = append(want, w)
				name = append(name, f+">"+d.name)
			}
			for _, bits := range []int{0, 8, 16, 32, 64} {
				for _, pf := range []string{"ParseInt", "ParseUint"} {
					sn, pn := "int", "int64"
					if pf == "ParseUint" {
						sn, pn = "uint", "uint64"
					}
					if bits > 0 {
						sn = fmt.Sprint(sn, bits)
					}
					w := 0
					if overflows(typeByName(sn), d) {
						w = 1
					}
					add := func(code, n string, w int) {
						fns = append(fns, strings.NewReplacer("FN", fmt.Sprintf("n%d", len(fns)), "DST", d.name, "CALL", fmt.Sprintf("strconv.%s(s, 10, %d)", pf, bits), "PN", pn).Replace(code))
						want = append(want, w)
						name = append(name, fmt.Sprintf("%s%d/%s>%s", pf, bits, n, d.name))
					}
					add("func FN(s string) (DST, error) {\nv, err := CALL\nreturn DST(v), err // conv\n}", "direct", w)
					if overflows(typeByName(pn), d) {
						add(fmt.Sprintf("func FN(s string) (DST, error) {\nv, err := %s(s, 10, %d)\nreturn DST(v), err // conv\n}", pf, bits), "namesake", 1)
						add(fmt.Sprintf("func FN(s parser) DST {\nreturn DST(s.%s(10, %d)) // conv\n}", pf, bits), "namesake method", 1)
					}
					if overflows(typeByName(pn), d) {
						add("func FN(s string, o PN, c bool) DST {\nv, _ := CALL\nif c {\nv = o\n}\nreturn DST(v) // conv\n}", "phi", 1)
						add("func FN(s string, o PN, c bool) DST {\nv := o\nif c {\nv, _ = CALL\n}\nreturn DST(v) // conv\n}", "phi2", 1)
						add("func FN(s string, o PN, c int) DST {\nv, _ := CALL\nif c == 1 {\nv = 1\n} else if c == 2 {\nv = o\n}\nreturn DST(v) // conv\n}", "phi3", 1)
						// a constant that does not fit on one of the ways
						k := new(big.Int).Add(d.max, big.NewInt(1)).String()
						if typeByName(pn).has(new(big.Int).Add(d.max, big.NewInt(1))) {
							add("func FN(s string, c bool) DST {\nv, _ := CALL\nif c {\nv = "+k+"\n}\nreturn DST(v) // conv\n}", "phi constant", 1)
							add("func FN(s string, c int) DST {\nv, _ := CALL\nif c == 1 {\nv = 1\n} else if c == 2 {\nv = "+k+"\n}\nreturn DST(v) // conv\n}", "phi3 constant", 1)
							add("func FN(s string, c int) DST {\nvar v PN = "+k+"\nif c == 1 {\nv, _ = CALL\n} else if c == 2 {\nv = 2\n}\nreturn DST(v) // conv\n}", "phi3 constant", 1)
						}
					}
				}
			}
		}
		rep, _ := g115Batch(r, parsePre, fns, "range")
		for k := range fns {
			r.Eval("known range", name[k], true)
			if rep != nil && rep[k] != want[k] {
				r.Violation("range/"+name[k], fmt.Sprintf("%s: reported %d times, expected %d", name[k], rep[k], want[k]), unit(parsePre, fns[k]))
			}
		}
		// functions with many basic blocks and conversions
		nl := r.N(12, 60)
		r.Parallel(nl, func(i int, rng *rand.Rand) {
			text, want := largeConversions(rng, types, 20<<(i%5))
			files := []vh.Src{{Name: "f0.go", Text: text}}
			got := g115Lines(r, files, "large")
			if got == nil {
				return
			}
			for l, w := range want {
				r.Eval("in a large function", fmt.Sprint(i, l), true)
				if got[l] != w {
					r.Violation(fmt.Sprintf("large/%d/%d", i, l), fmt.Sprintf("line %d of a function with %d blocks: reported %d times, expected %d: %s", l, 20<<(i%5), got[l], w, strings.Split(text, "\n")[l-1]), vh.SrcMap(files))
				}
			}
		})
		r.Need("conversions reported", 500)
		r.Need("conversions silent", 500)
	}
}

// largeConversions makes a function with n guarded conversions; the guards say
// nothing about the converted values. It gives the number of expected findings
// of each line holding a conversion.
func largeConversions(rng *rand.Rand, types []intType, n int) (string, map[int]int) {
	var sb strings.Builder
	sb.WriteString("package p\n\nfunc large(b []bool, out []any, n int")
	for _, t := range types {
		fmt.Fprintf(&sb, ", p_%s %s, s_%s []%s", t.name, t.name, t.name, t.name)
	}
	sb.WriteString(") {\n")
	want := map[int]int{}
	for k := 0; k < n; k++ {
		s, d := vh.PickS(rng, types), vh.PickS(rng, types)
		if rng.Intn(3) == 0 {
			for !overflows(s, d) {
				s, d = vh.PickS(rng, types), vh.PickS(rng, types)
			}
		}
		x := vh.Pick(rng, "p_"+s.name, fmt.Sprintf("s_%s[%d]", s.name, k))
		w := 0
		if overflows(s, d) {
			w = 1
		}
		sb.WriteString(vh.Pick(rng,
			fmt.Sprintf("if b[%d] {", k), fmt.Sprintf("if n > %d {", k), fmt.Sprintf("for i := n; i < %d; i++ {", k),
			fmt.Sprintf("switch n {\ncase %d, %d:", k, k+n), fmt.Sprintf("if !b[%d] {\nout[0] = n\n} else {", k), "{", fmt.Sprintf("if b[%d] && n != %d || !b[n] {", k, k)))
		fmt.Fprintf(&sb, "\nout[%d] = %s(%s)\n}\n", k, d.name, x)
		want[strings.Count(sb.String(), "\n")-1] = w
	}
	sb.WriteString("}\n")
	return sb.String(), want
}
