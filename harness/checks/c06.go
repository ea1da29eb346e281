package checks

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"

	"verif/harness/vh"
)

// slvar is a slice whose length equals its capacity.
type slvar struct {
	name string
	n    int
	lvl  int
	how  string
}

// slprog is a straight-line program on constant-size slices; bad holds the
// lines whose execution panics, good the ones that do not.
type slprog struct {
	text string
	bad  map[int]string
	good map[int]string
}

// sliceProgram makes a program; size scales the number of its slices and accesses.
func sliceProgram(rng *rand.Rand, size int) slprog {
	p := slprog{bad: map[int]string{}, good: map[int]string{}}
	var sb strings.Builder
	line := 1
	add := func(s string) int {
		sb.WriteString(s + "\n")
		line += strings.Count(s, "\n") + 1
		return line - 1
	}
	add("package p\n")
	add("type rec struct{ a, b [2]int }\n")
	add("func use(...any) bool { return true }\n")
	elem := []struct{ t, z string }{{"byte", "1"}, {"int", "2"}, {"string", "`s`"}, {"rec", "rec{}"}, {"[3]int", "[3]int{}"}, {"[]int", "nil"}, {"*rec", "nil"}, {"any", "3"}, {"func()", "nil"}, {"map[string]int", "nil"}}
	note := func(l int, ok bool, what string) {
		if ok {
			p.good[l] = what
		} else {
			p.bad[l] = what
		}
	}
	// a constant in one of its notations
	num := func(n int) string {
		switch rng.Intn(14) {
		case 0:
			return fmt.Sprintf("0x%X", n)
		case 1:
			return fmt.Sprintf("0b_%b", n)
		case 2:
			return fmt.Sprintf("(%d)", n)
		case 3:
			return fmt.Sprintf("%d-k3", n+3)
		case 4:
			return fmt.Sprintf("uint8(%d)", n)
		case 5:
			return fmt.Sprintf("'\\x%02x'", n)
		case 6:
			return fmt.Sprintf("k0+%d", n)
		case 7:
			return fmt.Sprintf("%d.0", n)
		case 8:
			if n <= 3 {
				return fmt.Sprintf("k%d", n)
			}
			return fmt.Sprintf("len(\"%s\")", strings.Repeat("x", n))
		}
		return fmt.Sprint(n)
	}
	add("const (\n\tk0 = iota\n\tk1\n\tk2 int64 = 2\n\tk3 = 3\n)\n")
	zero := ""
	access := func(v slvar, ind string) {
		switch rng.Intn(5) {
		case 0, 1:
			ix := rng.Intn(v.n + 3)
			if rng.Intn(3) == 0 {
				ix = max(0, v.n-1+rng.Intn(2))
			}
			f := vh.Pick(rng, "use(%s[%s])", "_ = %s[%s]", "use(1, %s[%s], 2)", "if use(%s[%s]) {\n}", "use(&%s[%s])", "%s[%s] = "+zero, "defer use(%s[%s])", "use(func(x any) any { return x }(%s[%s]))", "switch use(%s[%s]) {\n}", "use([]any{1, %s[%s]})")
			l := add(ind + fmt.Sprintf(f, v.name, num(ix)))
			if strings.Contains(f, "\n") {
				l--
			}
			note(l, ix < v.n, v.how+" index")
		case 2:
			lo := rng.Intn(v.n + 3)
			hi := lo + rng.Intn(3)
			note(add(ind+fmt.Sprintf("use(%s[%s:%s])", v.name, num(lo), num(hi))), hi <= v.n, v.how+" slice [l:h]")
		case 3:
			hi := rng.Intn(v.n + 3)
			f := vh.Pick(rng, "use(%s[:%s])", "use(%s[:%s]...)", "use(len(%s[:%s]))", "use(append(%s[:%s], "+zero+"))", "copy(%[1]s[:%[2]s], %[1]s)")
			if strings.Contains(f, "...") && zero != "3" {
				f = "use(%s[:%s])"
			}
			note(add(ind+fmt.Sprintf(f, v.name, num(hi))), hi <= v.n, v.how+" slice [:h]")
		case 4:
			lo := rng.Intn(v.n + 3)
			note(add(ind+fmt.Sprintf("use(%s[%s:])", v.name, num(lo))), lo <= v.n, v.how+" slice [l:]")
		}
	}
	nf := 1 + rng.Intn(3)
	for fn := 0; fn < nf; fn++ {
		helper := rng.Intn(2) == 0
		el := vh.PickS(rng, elem)
		zero = el.z
		hn, hn2 := -1, -1
		var helperText string
		if helper {
			helperText = fmt.Sprintf("h%d", fn)
		}
		recv := vh.PickS(rng, [][2]string{
			{"func f%d() {", "}"}, {"func f%d() {", "}"}, {"func (rec) f%d() {", "}"}, {"func f%d(n int, s string) (err error) {", "\treturn nil\n}"},
			{"func init() { _ = %d", "}"}, {"func f%d[T any, U comparable](t T, u U) T {", "\treturn t\n}"}, {"var f%d = func() {", "}"}, {"func f%d() any {\n\treturn []func(){func() {\n\tfunc() {", "\t}()\n\t}}\n}"},
			{"var f%d = map[string]func(x int) (bool, error){\"a\": nil, \"b\": func(x int) (bool, error) {", "\treturn true, nil\n}}"},
		})
		add(fmt.Sprintf(recv[0], fn))
		body := func() {
			var vars []slvar
			for i := 0; i < size*(1+rng.Intn(2)); i++ {
				n := rng.Intn(9)
				nm := fmt.Sprintf("s%d", i)
				how := vh.Pick(rng, "make", "make", "makecap", "literal", "array", "arraylit")
				switch how {
				case "make":
					add(fmt.Sprintf("\t%s := make([]%s, %s)", nm, el.t, num(n)))
				case "makecap":
					add(fmt.Sprintf("\t%s := make([]%s, %s, %s)", nm, el.t, num(n), num(n)))
				case "literal":
					n = max(n, 1)
					add(fmt.Sprintf("\t%s := []%s{%s}", nm, el.t, strings.TrimSuffix(strings.Repeat(el.z+", ", n), ", ")))
				case "array":
					n = max(n, 1)
					add(fmt.Sprintf("\tvar a%d [%d]%s", i, n, el.t))
					add(fmt.Sprintf("\t%s := a%d[:]", nm, i))
				case "arraylit":
					n = max(n, 1)
					add(fmt.Sprintf("\t%s := (&[%d]%s{})[:]", nm, n, el.t))
				}
				add("\tuse(" + nm + ")")
				vars = append(vars, slvar{nm, n, 0, how})
			}
			for i := 0; i < 6*size; i++ {
				if size > 1 && rng.Intn(2) == 0 {
					add("\tif use() {\n\t\tuse(1)\n\t}")
				}
				v := vh.PickS(rng, vars)
				if rng.Intn(4) == 0 && v.lvl < 3 && v.n > 0 {
					lo := rng.Intn(v.n)
					nm := fmt.Sprintf("t%d", line)
					l := 0
					if rng.Intn(2) == 0 {
						l = add(fmt.Sprintf("\t%s := %s[%s:]", nm, v.name, num(lo)))
					} else {
						l = add(fmt.Sprintf("\t%s := %s[%s:%s]", nm, v.name, num(lo), num(v.n)))
					}
					note(l, true, v.how+" reslice")
					vars = append(vars, slvar{nm, v.n - lo, v.lvl + 1, v.how + "/reslice"})
					add("\tuse(" + nm + ")")
					continue
				}
				access(v, "\t")
			}
			if helper {
				v := vars[0]
				hn = v.n
				if rng.Intn(2) == 0 {
					add(fmt.Sprintf("\t%s(%s)", helperText, v.name))
				} else {
					// two arguments, possibly the same slice
					w := vh.PickS(rng, vars[:min(len(vars), 2)])
					if w.lvl > 0 {
						w = v
					}
					hn2 = w.n
					add(fmt.Sprintf("\t%s(%s, 1, %s)", helperText, v.name, w.name))
				}
			}
		}
		body()
		add(recv[1] + "\n")
		if helper {
			if hn2 < 0 {
				add(fmt.Sprintf(vh.Pick(rng, "func %s(x []%s) {", "func %s(x []%s, _ ...any) {"), helperText, el.t))
			} else {
				add(fmt.Sprintf("func %s(x []%s, _ int, y []%s) {", helperText, el.t, el.t))
			}
			for i := 0; i < 3; i++ {
				access(slvar{"x", hn, 1, "argument"}, "\t")
				if hn2 >= 0 {
					access(slvar{"y", hn2, 1, "another argument"}, "\t")
				}
			}
			add("}\n")
		}
	}
	p.text = sb.String()
	return p
}

func init() {
	All["C06"] = func(r *vh.Run) {
		r.Rule("random straight-line programs creating slices (make, literal, array) whose length equals their capacity, re-slicing and accessing them with constants, directly and in a function they are passed to; oracle: exact length arithmetic; plus one access under each form of length check; non-trivial: distinct access programs")
		r.Parallel(r.N(8000, 60000), func(i int, rng *rand.Rand) {
			p := sliceProgram(rng, longer(i, 1))
			files := []vh.Src{{Name: "f0.go", Text: p.text}}
			l := loadOrDie(r, files)
			res := vh.Scan(vh.Opts{NoRules: true, Include: []string{"G602"}}, l)
			l.Remove()
			if res.Panic != "" {
				r.Violation("panic", res.Panic, vh.SrcMap(files))
				return
			}
			got := map[int]int{}
			for _, is := range res.Issues {
				got[vh.Line(is)]++
			}
			src := strings.Split(p.text, "\n")
			for ln, what := range p.bad {
				r.Eval("panicking access", what+src[ln-1]+fmt.Sprint(i), true)
				if got[ln] == 0 {
					r.Violation("missed/"+what+"/"+strings.TrimSpace(src[ln-1]), fmt.Sprintf("line %d panics but is not reported (%s):\n%s", ln, what, p.text), vh.SrcMap(files))
				}
				if got[ln] > 1 {
					r.Violation("twice/"+what, fmt.Sprintf("line %d is reported %d times:\n%s", ln, got[ln], p.text), vh.SrcMap(files))
				}
			}
			var lines []int
			for ln := range got {
				lines = append(lines, ln)
			}
			sort.Ints(lines)
			r.Count("accesses that do not panic", int64(len(p.good)))
			for _, ln := range lines {
				if _, bad := p.bad[ln]; !bad {
					r.Violation("false/"+p.good[ln]+"/"+strings.TrimSpace(src[ln-1]), fmt.Sprintf("line %d does not panic but is reported (%s):\n%s", ln, p.good[ln], p.text), vh.SrcMap(files))
				}
			}
			if i%500 == 7 {
				r.Sample(map[string]any{"program": p.text, "panicking lines": p.bad})
			}
		})
		// length checks
		guards := []struct {
			name, code string
			min        func(i int) int // constant K making the check exclude the panic at index i
		}{
			{"if len>", "if len(s) > K {\n%%\n}", func(i int) int { return i }},
			{"if len>=", "if len(s) >= K {\n%%\n}", func(i int) int { return i + 1 }},
			{"if K<len", "if K < len(s) {\n%%\n}", func(i int) int { return i }},
			{"if K<=len", "if K <= len(s) {\n%%\n}", func(i int) int { return i + 1 }},
			{"else of len<", "if len(s) < K {\nuse()\n} else {\n%%\n}", func(i int) int { return i + 1 }},
			{"else of len<=", "if len(s) <= K {\nuse()\n} else {\n%%\n}", func(i int) int { return i }},
			{"return if len<", "if len(s) < K {\nreturn\n}\n%%", func(i int) int { return i + 1 }},
			{"return if len<=", "if len(s) <= K {\nreturn\n}\n%%", func(i int) int { return i }},
			{"return if K>len", "if K > len(s) {\nreturn\n}\n%%", func(i int) int { return i + 1 }},
			{"len==", "if len(s) == K {\n%%\n}", func(i int) int { return i + 1 }},
			{"return if len!=", "if len(s) != K {\nreturn\n}\n%%", func(i int) int { return i + 1 }},
			{"nested", "if len(s) > K {\nif use() {\n%%\n}\n}", func(i int) int { return i }},
			{"and", "if len(s) > K && use() {\n%%\n}", func(i int) int { return i }},
		}
		n := 0
		for _, g := range guards {
			for size := 0; size < 5; size++ {
				for ix := 0; ix < 6; ix++ {
					for _, kind := range []string{"index", "slice", "unguarded"} {
						acc := fmt.Sprintf("use(s[%d])", ix)
						bad := ix >= size
						if kind == "slice" {
							acc = fmt.Sprintf("use(s[:%d])", ix+1)
						}
						text := fmt.Sprintf("package p\n\nfunc use(...any) bool { return true }\n\nfunc f() {\ns := make([]byte, %d)\n", size)
						inner := acc
						if kind == "unguarded" {
							inner = "use()"
							text += acc + "\n"
						}
						text += strings.Replace(strings.ReplaceAll(g.code, "K", fmt.Sprint(g.min(ix)+r.Rng.Intn(3))), "%%", inner, 1) + "\n}\n"
						files := []vh.Src{{Name: "f0.go", Text: text}}
						l := loadOrDie(r, files)
						res := vh.Scan(vh.Opts{NoRules: true, Include: []string{"G602"}}, l)
						l.Remove()
						n++
						r.Eval("length check "+kind, text, true)
						want := 0
						if kind == "unguarded" && bad {
							want = 1
						}
						if res.Panic != "" || len(res.Issues) != want {
							r.Violation(fmt.Sprintf("check/%s/%s/size%d/index%d", g.name, kind, size, ix), fmt.Sprintf("expected %d findings, got %d %s\n%s", want, len(res.Issues), res.Panic, text), vh.SrcMap(files))
						}
					}
				}
			}
		}
		// a check for just the wrong length excludes no panic
		for size := 0; size < 6; size++ {
			for ix := size; ix < size+3; ix++ {
				for _, g := range []string{"if len(s) == K {\n%%\n}", "if len(s) != K {\nreturn\n}\n%%", "if K == len(s) && use() {\n%%\n}"} {
					for _, acc := range []string{fmt.Sprintf("use(s[%d])", ix), fmt.Sprintf("use(s[:%d])", ix+1), fmt.Sprintf("use(s[%d:%d])", ix, ix+1)} {
						text := fmt.Sprintf("package p\n\nfunc use(...any) bool { return true }\n\nfunc f() {\ns := make([]byte, %d)\n", size) + strings.Replace(strings.ReplaceAll(g, "K", fmt.Sprint(size)), "%%", acc, 1) + "\n}\n"
						files := []vh.Src{{Name: "f0.go", Text: text}}
						l := loadOrDie(r, files)
						res := vh.Scan(vh.Opts{NoRules: true, Include: []string{"G602"}}, l)
						l.Remove()
						r.Eval("length check which holds", text, true)
						if res.Panic != "" || len(res.Issues) != 1 {
							r.Violation(fmt.Sprintf("holds/%s/size%d", acc, size), fmt.Sprintf("expected one finding, got %d %s\n%s", len(res.Issues), res.Panic, text), vh.SrcMap(files))
						}
					}
				}
			}
		}
		r.Need("panicking access", 2000)
		r.Need("accesses that do not panic", 2000)
	}
}
