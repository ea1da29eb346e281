package checks

import (
	"fmt"
	"math/rand"
	"strings"

	"github.com/securego/gosec/v2"

	"verif/harness/vh"
)

// callee is something to call: an expression, the types of its results (e for
// error, o for other) and its name on allow lists.
type callee struct {
	call    string
	res     string
	pkg, fn string // name for the allow list
	builtin bool   // on the built-in allow list
}

var callees = []callee{
	{"ferr()", "e", "p", "ferr", false}, {"fnone()", "", "", "", false}, {"fint()", "o", "", "", false}, {"fie()", "oe", "p", "fie", false}, {"fei()", "eo", "p", "fei", false},
	{"fee()", "ee", "p", "fee", false}, {"fiei()", "oeo", "p", "fiei", false}, {"fmy()", "o", "", "", false}, {"fptr()", "o", "", "", false}, {"fslice()", "o", "", "", false}, {"falias()", "e", "p", "falias", false},
	{"fali2()", "oe", "p", "fali2", false}, {"ffunc()", "o", "", "", false}, {"ferrs(errv, errv)", "o", "", "", false}, {"gen[int](1)", "oe", "", "", false}, {"gen(1)", "oe", "p", "gen", false}, {"gent[error](nil)", "e", "", "", false}, {"gent(1)", "o", "", "", false},
	{"vt.merr()", "e", "", "", false}, {"vt.mnone()", "", "", "", false}, {"pt.mie()", "oe", "", "", false}, {"it.Do()", "e", "", "", false}, {"st1.f()", "e", "", "", false}, {"cl()", "oe", "p", "cl", false}, {"func() error { return nil }()", "e", "", "", false}, {"func() int { return 0 }()", "o", "", "", false},
	{"$os.Remove(`a`)", "e", "os", "Remove", false}, {"$os.Unsetenv(`a`)", "e", "os", "Unsetenv", true}, {"$os.Getwd()", "oe", "os", "Getwd", false}, {"$os.Getpid()", "o", "", "", false}, {"$os.Exit(1)", "", "", "", false},
	{"$ioutil.WriteFile(`a`, nil, 0)", "e", "ioutil", "WriteFile", false}, {"$ioutil.ReadFile(`a`)", "oe", "ioutil", "ReadFile", false}, {"$strconv.Atoi(`1`)", "oe", "strconv", "Atoi", false}, {"$strconv.Itoa(1)", "o", "", "", false},
	{"$fmt.Println(1)", "oe", "fmt", "Println", true}, {"$fmt.Print()", "oe", "fmt", "Print", true}, {"$fmt.Printf(``)", "oe", "fmt", "Printf", true}, {"$fmt.Fprint($os.Stderr, 1)", "oe", "fmt", "Fprint", true}, {"$fmt.Fprintf($os.Stderr, ``)", "oe", "fmt", "Fprintf", true}, {"$fmt.Fprintln($os.Stderr, 1)", "oe", "fmt", "Fprintln", true},
	{"$fmt.Sscan(`1`, new(int))", "oe", "fmt", "Sscan", false}, {"$fmt.Errorf(``)", "e", "fmt", "Errorf", false}, {"$fmt.Scanln()", "oe", "fmt", "Scanln", false},
	{"bb.WriteString(``)", "oe", "bytes.Buffer", "WriteString", true}, {"bb.Write(nil)", "oe", "bytes.Buffer", "Write", true}, {"bb.WriteByte(1)", "e", "bytes.Buffer", "WriteByte", true}, {"bp.WriteRune('a')", "oe", "bytes.Buffer", "WriteRune", true}, {"bp.WriteString(``)", "oe", "bytes.Buffer", "WriteString", true}, {"st1.bb.WriteByte(1)", "e", "bytes.Buffer", "WriteByte", true},
	{"(&bb).WriteString(``)", "oe", "bytes.Buffer", "WriteString", true}, {"(bb).Write(nil)", "oe", "bytes.Buffer", "Write", true}, {"gbbs[0].WriteByte(1)", "e", "bytes.Buffer", "WriteByte", true}, {"mkbb().WriteString(``)", "oe", "bytes.Buffer", "WriteString", true}, {"st1.mkbb().WriteRune('a')", "oe", "bytes.Buffer", "WriteRune", true}, {"(*bp).Write(nil)", "oe", "bytes.Buffer", "Write", true}, {"wr.(*$bytes.Buffer).Write(nil)", "oe", "bytes.Buffer", "Write", true}, {"$bytes.NewBuffer(nil).WriteString(``)", "oe", "bytes.Buffer", "WriteString", true}, {"$sha256.New().Write(nil)", "oe", "hash.Hash", "Write", true},
	{"gbbs[0].ReadByte()", "oe", "bytes.Buffer", "ReadByte", false}, {"mkbb().UnreadByte()", "e", "bytes.Buffer", "UnreadByte", false}, {"$bytes.NewBufferString(``).ReadRune()", "ooe", "bytes.Buffer", "ReadRune", false},
	{"bb.ReadByte()", "oe", "bytes.Buffer", "ReadByte", false}, {"bp.UnreadByte()", "e", "bytes.Buffer", "UnreadByte", false}, {"bb.Len()", "o", "", "", false}, {"bb.Reset()", "", "", "", false}, {"gbb.WriteTo($os.Stderr)", "oe", "bytes.Buffer", "WriteTo", false}, {"gbb.Write(nil)", "oe", "bytes.Buffer", "Write", true},
	{"sb.WriteString(``)", "oe", "strings.Builder", "WriteString", true}, {"sb.WriteRune('a')", "oe", "strings.Builder", "WriteRune", true}, {"sb.WriteByte(1)", "e", "strings.Builder", "WriteByte", true}, {"sp.Write(nil)", "oe", "strings.Builder", "Write", true}, {"sb.Grow(1)", "", "", "", false},
	{"pw.CloseWithError(nil)", "e", "io.PipeWriter", "CloseWithError", true}, {"pw.Close()", "e", "io.PipeWriter", "Close", false}, {"pw.Write(nil)", "oe", "io.PipeWriter", "Write", false}, {"hh.Write(nil)", "oe", "hash.Hash", "Write", true}, {"hh.Sum(nil)", "o", "", "", false},
	{"fl.Close()", "e", "os.File", "Close", false}, {"fl.WriteString(``)", "oe", "os.File", "WriteString", false}, {"bw.Flush()", "e", "bufio.Writer", "Flush", false}, {"bw.WriteString(``)", "oe", "bufio.Writer", "WriteString", false}, {"wr.Write(nil)", "oe", "io.Writer", "Write", false},
	{"sr.Seek(0, 0)", "oe", "strings.Reader", "Seek", false},
}

const calleeDecls = `type myErr struct{}

func (*myErr) Error() string { return "" }

type errAlias = error

type tt struct{}

func (tt) merr() error { return nil }

func (tt) mnone() {}

func (*tt) mie() (int, error) { return 0, nil }

type iface interface{ Do() error }

type holder struct {
	f  func() error
	bb $bytes.Buffer
}

func ferr() error { return nil }

func fnone() {}

func fint() int { return 0 }

func fie() (int, error) { return 0, nil }

func fei() (error, int) { return nil, 0 }

func fee() (e1, e2 error) { return nil, nil }

func fiei() (int, error, int) { return 0, nil, 0 }

func fmy() *myErr { return nil }

func fptr() *error { return nil }

func fslice() []error { return nil }

func falias() errAlias { return nil }

func fali2() (int, errAlias) { return 0, nil }

func ffunc() func() error { return nil }

func ferrs(a, b error) bool { return a == b }

func gen[T any](x T) (T, error) { return x, nil }

func gent[T any](x T) T { return x }

func mkbb() *$bytes.Buffer { return nil }

func (holder) mkbb() *$bytes.Buffer { return nil }

var (
	gbbs []$bytes.Buffer
	errv error
	it   iface
	wr   $io.Writer
	gbb  $bytes.Buffer
)`

func init() {
	All["C11"] = func(r *vh.Run) {
		r.Rule("random statements using calls of functions, methods, closures, interface methods and generics of every result signature (standard library and own) as statement, go, defer, argument, assignment and declaration, with and without blank identifiers, under random allow lists and audit settings; oracle: the signature of the callee, the allow list and the destination of each error result; non-trivial: distinct (callee, use, configuration)")
		r.Parallel(r.N(3600, 24000), func(i int, rng *rand.Rand) {
			conf := gosec.NewConfig()
			audit := rng.Intn(2) == 0
			switch {
			case audit:
				conf.SetGlobal(gosec.Audit, vh.Pick(rng, "true", "enabled"))
			case rng.Intn(2) == 0:
				conf.SetGlobal(gosec.Audit, vh.Pick(rng, "false", "disabled", ""))
			}
			allowed := map[string]bool{}
			if rng.Intn(2) == 0 {
				sec := map[string]interface{}{}
				for k := rng.Intn(5); k >= 0; k-- {
					c := vh.PickS(rng, callees)
					if c.pkg == "" {
						continue
					}
					var l []interface{}
					if o, ok := sec[c.pkg].([]interface{}); ok {
						l = o
					}
					sec[c.pkg] = append(l, c.fn)
					allowed[c.pkg+"."+c.fn] = true
				}
				conf.Set("G104", sec)
			}
			isErr := func(c callee) bool {
				return strings.Contains(c.res, "e") && !c.builtin && !allowed[c.pkg+"."+c.fn]
			}
			f := vh.NewFile(rng, "p", "A")
			f.Twice = rng.Intn(4) == 0
			for k := 0; k < longer(i, 12); k++ {
				c := vh.PickS(rng, callees)
				u := f.Uniq("v")
				var st string
				bad := false
				use := ""
				switch rng.Intn(7) {
				case 0, 1:
					use = "statement"
					bad = isErr(c)
					st = vh.Pick(rng, c.call+"%M", c.call+"%M", "("+c.call+")%M", "if "+c.call+"; cond() {%M\n\tuse(1)\n}", "switch "+c.call+"; num() {%M\ncase 1:\n}", "for "+c.call+"; cond(); {%M\n}", "L"+u+":\n\t"+c.call+"%M\n\tif cond() {\n\t\tgoto L"+u+"\n\t}")
				case 2:
					use = "go/defer"
					if strings.HasPrefix(c.call, "gent") {
						continue
					}
					st = vh.Pick(rng, "go ", "defer ") + c.call
				case 3:
					use = "argument"
					if c.res == "" {
						continue
					}
					st = "use(" + c.call + ")"
				case 4, 5: // one call assigned
					use = "assign"
					if c.res == "" {
						continue
					}
					var lhs []string
					named := 0
					for j := range c.res {
						n := "_"
						if rng.Intn(2) == 0 {
							n = fmt.Sprintf("%s_%d", u, j)
							named++
						}
						if n == "_" && c.res[j] == 'e' && audit && !c.builtin && !allowed[c.pkg+"."+c.fn] {
							bad = true
						}
						lhs = append(lhs, n)
					}
					l := strings.Join(lhs, ", ")
					uses := ""
					for _, n := range lhs {
						if n != "_" {
							uses += "\nuse(" + n + ")"
						}
					}
					switch {
					case named == 0 && rng.Intn(3) == 0:
						st = "if " + l + " = " + c.call + "; cond() {%M\n\tuse(1)\n}"
					case named == 0:
						st = l + " = " + vh.Pick(rng, c.call, "("+c.call+")") + "%M"
					case rng.Intn(4) == 0:
						use = "declare"
						st = "var " + l + " = " + c.call + uses
						bad = false
					case rng.Intn(4) == 0:
						st = "if " + l + " := " + c.call + "; cond() {%M" + uses + "\n}"
					default:
						st = l + " := " + c.call + "%M" + uses
					}
				case 6: // several calls assigned at once
					use = "assign several"
					var lhs, rhs []string
					uses := ""
					for j := 0; j < 2+rng.Intn(2); j++ {
						d := vh.PickS(rng, callees)
						n := "_"
						if rng.Intn(2) == 0 {
							n = fmt.Sprintf("%s_%d", u, j)
							uses += "\nuse(" + n + ")"
						}
						if len(d.res) != 1 || rng.Intn(4) == 0 {
							d = callee{call: vh.Pick(rng, "1", "errv == nil", "num()"), res: "o"}
						}
						bad = bad || (n == "_" && audit && isErr(d))
						lhs = append(lhs, n)
						rhs = append(rhs, d.call)
					}
					op := ":="
					if uses == "" {
						op = "="
					}
					st = strings.Join(lhs, ", ") + " " + op + " " + strings.Join(rhs, ", ") + "%M" + uses
				}
				mark := ""
				if bad {
					mark = " //~ G104"
				}
				st = strings.Replace(st, "%M", mark, 1)
				pre := "var vt tt\npt := &tt{}\nst1 := holder{}\ncl := func() (int, error) { return 0, nil }\nvar bb $bytes.Buffer\nbp := &bb\nvar sb $strings.Builder\nsp := &sb\n_, pw := $io.Pipe()\nhh := $sha256.New()\nvar fl *$os.File\nbw := $bufio.NewWriter(wr)\nsr := $strings.NewReader(``)\nuse(vt, pt, st1, cl, bp, sp, pw, hh, fl, bw, sr)\n"
				f.Wrap(pre+st, rng.Intn(3))
				r.Eval(use, fmt.Sprint(st, audit, allowed), true)
			}
			f.Decl(calleeDecls)
			f.Decl(vh.Helpers)
			files := []vh.Src{{Name: "f0.go", Text: f.Text()}}
			if i%200 == 11 {
				r.Sample(map[string]any{"audit": audit, "allowed": sortedKeys(allowed), "expected": vh.Expected(files, nil), "program": files[0].Text})
			}
			markCheck(r, "errors", fmt.Sprintf("errors/audit=%v/allowed=%v", audit, len(allowed) > 0), files, vh.Set("G104"), vh.Opts{NoAnalyzers: true, Include: []string{"G104"}, Conf: conf})
		})
		r.Need("findings observed", 1500)
	}
}
