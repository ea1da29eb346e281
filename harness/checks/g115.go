package checks

import (
	"fmt"
	"math/big"
	"math/rand"
	"strings"

	"verif/harness/vh"
)

// intType describes an integer type on a 64-bit platform.
type intType struct {
	name     string
	signed   bool
	bits     uint
	min, max *big.Int
}

var intTypes = func() []intType {
	var out []intType
	for _, b := range []uint{8, 16, 32, 64, 0} {
		for _, s := range []bool{true, false} {
			n := "int"
			if !s {
				n = "uint"
			}
			w := b
			if b == 0 {
				w = 64
			} else {
				n += fmt.Sprint(b)
			}
			one := big.NewInt(1)
			t := intType{name: n, signed: s, bits: w}
			if s {
				h := new(big.Int).Lsh(one, w-1)
				t.min = new(big.Int).Neg(h)
				t.max = new(big.Int).Sub(h, one)
			} else {
				t.min = big.NewInt(0)
				t.max = new(big.Int).Sub(new(big.Int).Lsh(one, w), one)
			}
			out = append(out, t)
		}
	}
	return out
}()

func (t intType) has(v *big.Int) bool { return v.Cmp(t.min) >= 0 && v.Cmp(t.max) <= 0 }

func typeByName(n string) intType {
	for _, t := range intTypes {
		if t.name == n {
			return t
		}
	}
	panic(n)
}

// overflows tells whether some value of s is not representable in d.
func overflows(s, d intType) bool { return s.min.Cmp(d.min) < 0 || s.max.Cmp(d.max) > 0 }

// cmpv evaluates v op c.
func cmpv(v *big.Int, op string, c *big.Int) bool {
	k := v.Cmp(c)
	switch op {
	case "<":
		return k < 0
	case "<=":
		return k <= 0
	case ">":
		return k > 0
	case ">=":
		return k >= 0
	case "==":
		return k == 0
	case "!=":
		return k != 0
	}
	panic(op)
}

// gcond is one comparison of x with a constant.
type gcond struct {
	op   string
	c    *big.Int
	flip bool
}

func flipOp(op string) string {
	switch op {
	case "<":
		return ">"
	case "<=":
		return ">="
	case ">":
		return "<"
	case ">=":
		return "<="
	}
	return op
}

func (g gcond) src(x string) string {
	if g.flip {
		return fmt.Sprintf("%s %s %s", g.c, flipOp(g.op), x)
	}
	return fmt.Sprintf("%s %s %s", x, g.op, g.c)
}

func (g gcond) eval(v *big.Int) bool { return cmpv(v, g.op, g.c) }

// shape is a guard shape: code with %C (the conversion statement) and A, B
// (conditions), and the predicate that reaches the conversion.
type shape struct {
	name  string
	conds int
	code  func(c []string, conv string) string
	reach func(c []bool) bool
}

var guardShapes = []shape{
	{"then", 1, func(c []string, k string) string { return "if " + c[0] + " {\n" + k + "\n}\nreturn 0" }, func(c []bool) bool { return c[0] }},
	{"else", 1, func(c []string, k string) string { return "if " + c[0] + " {\nreturn 0\n} else {\n" + k + "\n}" }, func(c []bool) bool { return !c[0] }},
	{"return", 1, func(c []string, k string) string { return "if " + c[0] + " {\nreturn 0\n}\n" + k }, func(c []bool) bool { return !c[0] }},
	{"panic", 1, func(c []string, k string) string { return "if " + c[0] + " {\npanic(`range`)\n}\n" + k }, func(c []bool) bool { return !c[0] }},
	{"return-return", 2, func(c []string, k string) string {
		return "if " + c[0] + " {\nreturn 0\n}\nif " + c[1] + " {\nreturn 0\n}\n" + k
	}, func(c []bool) bool { return !c[0] && !c[1] }},
	{"return-or", 2, func(c []string, k string) string { return "if " + c[0] + " || " + c[1] + " {\nreturn 0\n}\n" + k }, func(c []bool) bool { return !c[0] && !c[1] }},
	{"panic-or", 2, func(c []string, k string) string { return "if " + c[0] + " || " + c[1] + " {\npanic(`r`)\n}\n" + k }, func(c []bool) bool { return !c[0] && !c[1] }},
	{"and-then", 2, func(c []string, k string) string { return "if " + c[0] + " && " + c[1] + " {\n" + k + "\n}\nreturn 0" }, func(c []bool) bool { return c[0] && c[1] }},
	{"nested-then", 2, func(c []string, k string) string {
		return "if " + c[0] + " {\nif " + c[1] + " {\n" + k + "\n}\n}\nreturn 0"
	}, func(c []bool) bool { return c[0] && c[1] }},
	{"return-then", 2, func(c []string, k string) string {
		return "if " + c[0] + " {\nreturn 0\n}\nif " + c[1] + " {\n" + k + "\n}\nreturn 0"
	}, func(c []bool) bool { return !c[0] && c[1] }},
	{"elseif-else", 2, func(c []string, k string) string {
		return "if " + c[0] + " {\nreturn 0\n} else if " + c[1] + " {\nreturn 0\n} else {\n" + k + "\n}"
	}, func(c []bool) bool { return !c[0] && !c[1] }},
	{"or-then", 2, func(c []string, k string) string { return "if " + c[0] + " || " + c[1] + " {\n" + k + "\n}\nreturn 0" }, func(c []bool) bool { return c[0] || c[1] }},
	{"return-and", 2, func(c []string, k string) string { return "if " + c[0] + " && " + c[1] + " {\nreturn 0\n}\n" + k }, func(c []bool) bool { return !(c[0] && c[1]) }},
	{"after-then", 1, func(c []string, k string) string { return "if " + c[0] + " {\nsink++\n}\n" + k }, func(c []bool) bool { return true }},
	{"switch-true", 2, func(c []string, k string) string {
		return "switch {\ncase " + c[0] + ":\nreturn 0\ncase " + c[1] + ":\nreturn 0\ndefault:\n" + k + "\n}"
	}, func(c []bool) bool { return !c[0] && !c[1] }},
	{"loop-while", 1, func(c []string, k string) string { return "for " + c[0] + " {\n" + k + "\n}\nreturn 0" }, func(c []bool) bool { return c[0] }},
}

type gcase struct {
	src, dst intType
	sh       shape
	conds    []gcond
}

func (g gcase) fn(name string) string {
	var cs []string
	for _, c := range g.conds {
		cs = append(cs, c.src("x"))
	}
	return fmt.Sprintf("func %s(x %s) %s {\n%s\n}\n", name, g.src.name, g.dst.name, g.sh.code(cs, fmt.Sprintf("return %s(x) // conv", g.dst.name)))
}

// boundary values of the source type around all constants
func (g gcase) values() []*big.Int {
	var vs []*big.Int
	add := func(v *big.Int) {
		for d := int64(-2); d <= 2; d++ {
			w := new(big.Int).Add(v, big.NewInt(d))
			if g.src.has(w) {
				vs = append(vs, w)
			}
		}
	}
	add(big.NewInt(0))
	for _, t := range []intType{g.src, g.dst} {
		add(t.min)
		add(t.max)
	}
	for _, c := range g.conds {
		add(c.c)
	}
	return vs
}

// unsafe reports a value that reaches the conversion and overflows.
func (g gcase) witness() *big.Int {
	for _, v := range g.values() {
		var b []bool
		for _, c := range g.conds {
			b = append(b, c.eval(v))
		}
		if g.sh.reach(b) && !g.dst.has(v) {
			return v
		}
	}
	return nil
}

func (g gcase) String() string {
	var cs []string
	for _, c := range g.conds {
		cs = append(cs, c.src("x"))
	}
	return fmt.Sprintf("%s->%s %s [%s]", g.src.name, g.dst.name, g.sh.name, strings.Join(cs, "; "))
}

var cmpOps = []string{"<", "<=", ">", ">=", "==", "!="}

func randCase(rng *rand.Rand, shapes []shape, srcs, dsts []intType) gcase {
	for {
		g := gcase{src: vh.PickS(rng, srcs), dst: vh.PickS(rng, dsts), sh: vh.PickS(rng, shapes)}
		if !overflows(g.src, g.dst) {
			continue
		}
		for k := 0; k < g.sh.conds; k++ {
			g.conds = append(g.conds, randCond(rng, g.src, g.dst))
		}
		return g
	}
}

func randCond(rng *rand.Rand, src, dst intType) gcond {
	for {
		base := vh.Pick(rng, dst.max, dst.max, dst.min, big.NewInt(0), src.max, big.NewInt(10), big.NewInt(-10))
		c := new(big.Int).Add(base, big.NewInt(int64(rng.Intn(3)-1)))
		if !src.has(c) {
			continue
		}
		return gcond{vh.PickS(rng, cmpOps), c, rng.Intn(4) == 0}
	}
}

// scanLines scans one file with G115 only and gives the multiset of reported
// first lines.
func g115Lines(r *vh.Run, files []vh.Src, key string) map[int]int {
	l := loadOrDie(r, files)
	defer l.Remove()
	res := vh.Scan(vh.Opts{NoRules: true, Include: []string{"G115"}}, l)
	if res.Panic != "" {
		r.Violation(key+"/panic", "the scan panicked: "+res.Panic, vh.SrcMap(files))
		return nil
	}
	out := map[int]int{}
	for _, is := range res.Issues {
		if is.RuleID == "G115" {
			out[vh.Line(is)]++
		}
	}
	return out
}

// g115Batch puts case functions (each with one line holding "// conv") into
// one file and tells which of them were reported.
func g115Batch(r *vh.Run, head string, fns []string, key string) ([]int, []vh.Src) {
	var sb strings.Builder
	sb.WriteString("package p\n\n" + head + "\nvar sink int\n\n")
	line := map[int]int{}
	for i, f := range fns {
		base := strings.Count(sb.String(), "\n")
		for j, l := range strings.Split(f, "\n") {
			if strings.Contains(l, "// conv") {
				line[base+j+1] = i
			}
		}
		sb.WriteString(f + "\n")
	}
	files := []vh.Src{{Name: "f0.go", Text: sb.String()}}
	got := g115Lines(r, files, key)
	if got == nil {
		return nil, files
	}
	rep := make([]int, len(fns))
	for l, n := range got {
		i, ok := line[l]
		if !ok {
			r.Violation(key+"/stray", fmt.Sprintf("finding on line %d, which has no conversion under test", l), vh.SrcMap(files))
			continue
		}
		rep[i] += n
	}
	return rep, files
}

// unit makes a replayable single-function file.
func unit(head, f string) map[string]string {
	return map[string]string{"f0.go": "package p\n\n" + head + "\nvar sink int\n\n" + f}
}

// randShape makes a guard of several comparisons joined and nested at random.
func randShape(rng *rand.Rand) shape {
	n := 0
	type expr struct {
		code func(c []string) string
		eval func(c []bool) bool
	}
	var cond func(d int) expr
	cond = func(d int) expr {
		if d == 0 || rng.Intn(2) == 0 || n > 2 {
			i := n
			n++
			return expr{func(c []string) string { return c[i] }, func(c []bool) bool { return c[i] }}
		}
		a := cond(d - 1)
		switch rng.Intn(5) {
		case 0:
			return expr{func(c []string) string { return "!(" + a.code(c) + ")" }, func(c []bool) bool { return !a.eval(c) }}
		case 1, 2:
			b := cond(d - 1)
			return expr{func(c []string) string { return "(" + a.code(c) + " && " + b.code(c) + ")" }, func(c []bool) bool { return a.eval(c) && b.eval(c) }}
		}
		b := cond(d - 1)
		return expr{func(c []string) string { return "(" + a.code(c) + " || " + b.code(c) + ")" }, func(c []bool) bool { return a.eval(c) || b.eval(c) }}
	}
	type body struct {
		code  func(c []string, k string) string
		reach func(c []bool) bool
	}
	var gate func(d int) body
	gate = func(d int) body {
		if d == 0 || n > 3 {
			return body{func(c []string, k string) string { return k }, func(c []bool) bool { return true }}
		}
		e := cond(1)
		in := gate(d - 1)
		f := func(format string, sign int) body {
			return body{func(c []string, k string) string {
				return strings.NewReplacer("EX", e.code(c), "IN", in.code(c, k)).Replace(format)
			}, func(c []bool) bool {
				return in.reach(c) && (sign == 0 || e.eval(c) == (sign > 0))
			}}
		}
		switch rng.Intn(11) {
		case 0, 1:
			return f("if EX {\nreturn 0\n}\nIN", -1)
		case 2, 3:
			return f("if EX {\nIN\n}\nreturn 0", 1)
		case 4:
			return f("if EX {\nreturn 0\n} else {\nIN\n}", -1)
		case 5:
			return f("if EX {\nsink++\n}\nIN", 0)
		case 6:
			return f("if EX {\nsink++\n} else {\nreturn 0\n}\nIN", 1)
		case 7:
			return f("if EX {\nIN\n} else {\nreturn 1\n}\nreturn 0", 1)
		case 8:
			return f("switch {\ncase EX:\nreturn 0\n}\nIN", -1)
		case 9:
			return f("switch {\ncase EX:\nIN\ndefault:\nsink++\n}\nreturn 0", 1)
		}
		return f("for EX {\nIN\n}\nreturn 0", 1)
	}
	g := gate(1 + rng.Intn(3))
	return shape{"random", n, g.code, g.reach}
}
