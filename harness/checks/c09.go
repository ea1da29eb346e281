package checks

import (
	"fmt"
	"math/rand"
	"regexp"
	"strings"

	"verif/harness/vh"
)

var riskyVerb = regexp.MustCompile(`%[^bdoxXfFp]`)

func init() {
	All["C09"] = func(r *vh.Run) {
		r.Rule("random calls of every query/exec/prepare method of sql.DB and sql.Tx (held in parameters, locals, fields, package variables of the same and of another file) with queries built from literals, constants and variable data by concatenation or formatting, inline or through a variable; oracle: whether a part of the built statement is not a constant; non-trivial: distinct (receiver, method, statement form, operands)")
		methods := []string{"Exec", "Query", "QueryRow", "Prepare", "ExecContext", "QueryContext", "QueryRowContext", "PrepareContext"}
		recvs := []struct{ pre, x string }{
			{"var db@ *$sql.DB", "db@"}, {"var tx@ *$sql.Tx", "tx@"}, {"db@, _ := $sql.Open(`d`, `u`)", "db@"}, {"var s@ struct{ db *$sql.DB }", "s@.db"},
			{"s@ := &st{}", "s@.tx"}, {"", "gdb"}, {"", "otherdb"}, {"", "othertx"}, {"", "mk()"}, {"h@ := struct{ s *st }{&st{}}", "h@.s.db"},
			{"var dbs@ []*$sql.DB", "dbs@[0]"}, {"dbs@ := map[string]*$sql.Tx{}", "dbs@[`a`]"}, {"", "othermk()"}, {"s@ := &st{}", "s@.get()"}, {"var db@ *$sql.DB", "(db@)"}, {"var db@ any", "db@.(*$sql.DB)"},
			{"", "func() *$sql.Tx { return nil }()"}, {"", "$sql.OpenDB(nil)"}, {"var db@ $sql.DB", "(&db@)"}, {"s@ := []st{{}}", "s@[0].db"}, {"", "mkany[*$sql.DB]()"}, {"db@ := mk", "db@()"},
		}
		sqlHeads := []string{"SELECT * FROM t WHERE id = ", "select a, b from t where n = '", "DELETE FROM t WHERE x=", "INSERT INTO t VALUES (", "UPDATE t SET a=1 WHERE b=", "SELECT\n*\nFROM t\nWHERE x=", "SELECT\t1 ", "Select x From t ", "insert into t(x) values ", "SELECT\r1+", "update\rt set a = ", "DELETE\nt.", "INSERT\tt "}
		plain := []string{"users", "SELECTED", "nothing here ", "from", "PRAGMA foreign_keys=", "SHOW TABLES LIKE ", "call proc(", "updates", ""}
		vars := []string{"$os.Args[1]", "str()", "v", "st1.name", "$strings.ToUpper(v)", "string(bs)", "arr[0]", "otherstr", "gstr", "*ptr", "v[1:]"}
		consts := []string{"`lit`", "\"' AND 1=1\"", "cname", "othername", "lname", "(cname)", "(`a` + lname)", "string(cname)", "$http.MethodGet"}
		quoted := []string{"$pq.QuoteIdentifier(v)", "$pq.QuoteIdentifier(str())", "$pq.QuoteIdentifier(st1.name)"}
		fmtvars := append([]string{"$pq.QuoteLiteral(v)", "quote.QuoteIdentifier(v)", "num()", "v == ``", "any(v)", "(v)", "v + `x`"}, vars...)
		isVar := func(s string) bool {
			for _, c := range consts {
				if c == s {
					return false
				}
			}
			return true
		}
		r.Parallel(r.N(4500, 30000), func(i int, rng *rand.Rand) {
			a, b := vh.NewFile(rng, "p", "A"), vh.NewFile(rng, "p", "B")
			a.Twice, b.Twice = rng.Intn(4) == 0, rng.Intn(4) == 0
			for k := 0; k < longer(i, 10); k++ {
				rc := vh.PickS(rng, recvs)
				m := vh.PickS(rng, methods)
				ctx := ""
				if strings.HasSuffix(m, "Context") {
					ctx = "$context.Background(), "
				}
				q := func(s string) string {
					if rng.Intn(3) == 0 && !strings.ContainsAny(s, "`\n\r") {
						return "`" + s + "`"
					}
					return fmt.Sprintf("%q", s)
				}
				sql := rng.Intn(4) > 0
				head := vh.PickS(rng, sqlHeads)
				if !sql {
					head = vh.PickS(rng, plain)
				}
				var pre, arg, rule, kind string
				args := ""
				inPre := false
				switch rng.Intn(7) {
				case 0, 1: // concatenation
					ops := []string{q(head)}
					bad := false
					for n := 1 + rng.Intn(3); n > 0; n-- {
						o := vh.PickS(rng, consts)
						if rng.Intn(2) == 0 {
							o = vh.PickS(rng, vars)
						}
						bad = bad || isVar(o)
						ops = append(ops, o)
					}
					if rng.Intn(4) == 0 {
						ops = append([]string{"(" + ops[0] + " + " + ops[1] + ")"}, ops[2:]...)
					}
					arg = strings.Join(ops, " + ")
					kind = "concat"
					if bad && sql {
						rule = "G202"
					}
				case 2: // concatenation kept in a variable
					ops := []string{q(head)}
					bad := false
					for n := 1 + rng.Intn(3); n > 0; n-- {
						o := vh.PickS(rng, consts[:2])
						if rng.Intn(2) == 0 {
							o = vh.PickS(rng, vars)
						} else if rng.Intn(2) == 0 {
							o = vh.PickS(rng, consts)
						}
						bad = bad || isVar(o)
						ops = append(ops, o)
					}
					if rng.Intn(4) == 0 {
						ops = append([]string{"(" + ops[0] + " + " + ops[1] + ")"}, ops[2:]...)
					}
					pre = "q@ := " + strings.Join(ops, " + ")
					arg = "q@"
					inPre = true
					kind = "concat via variable"
					if bad && sql {
						rule = "G202"
					}
				case 3, 4: // format
					verb := vh.Pick(rng, "%s", "%v", "%q", "%d", "%x", "'%s'", "%f", "%+v", "%-10s", "%d", "%c", "%t", "%e", "%g", "%U", "%T", "%o", "%b", "%X", "%p", "%F", "%E", "%G", "%O")
					f := head + verb
					if rng.Intn(3) == 0 {
						f += vh.Pick(rng, " LIMIT 10", " and b = 'c'", ")")
					}
					n := 1 + rng.Intn(2)
					if n == 2 {
						f += " or c = %s"
					}
					bad := false
					as := ""
					for ; n > 0; n-- {
						o := vh.PickS(rng, consts)
						if rng.Intn(3) > 0 {
							o = vh.PickS(rng, fmtvars)
						}
						if rng.Intn(8) == 0 {
							o = vh.PickS(rng, quoted)
						} else {
							bad = bad || isVar(o)
						}
						as += ", " + o
					}
					// numbers and addresses cannot carry SQL
					risky := riskyVerb.MatchString(f)
					f = q(f)
					if rng.Intn(8) == 0 {
						f = "(" + f + ")"
					}
					call := "$fmt.Sprintf(" + f + as + ")"
					if rng.Intn(8) == 0 {
						call = "(" + call + ")"
					}
					kind = "format"
					if rng.Intn(2) == 0 {
						pre, arg = "q@ := "+call, "q@"
						inPre = true
						kind = "format via variable"
					} else {
						arg = call
					}
					if bad && sql && risky {
						rule = "G201"
					}
				case 5: // parameters
					arg = q(vh.PickS(rng, sqlHeads) + "?")
					args = ", " + vh.PickS(rng, vars)
					if m[0] == 'P' {
						args = ""
					}
					kind = "parameters"
				case 6:
					arg = vh.Pick(rng, "cquery", "otherquery", q(vh.PickS(rng, sqlHeads)+"1"))
					kind = "constant"
				}
				if ctx == "" && args == "" && rng.Intn(3) == 0 && m[0] != 'P' {
					args = ", 1, v"
				}
				call := fmt.Sprintf("%s.%s(%s%s%s)", rc.x, m, ctx, arg, args)
				var st string
				two := !strings.HasPrefix(m, "QueryRow")
				switch {
				case two:
					st = vh.Pick(rng, "r@, err@ := "+call+"%M\nuse(r@, err@)", call+"%M", "if _, err@ := "+call+"; err@ != nil {%M\nuse(1)\n}", "_, _ = "+call+"%M")
				default:
					forms := []string{"r@ := " + call + "%M\nuse(r@)", call + "%M", "_ = " + call + "%M", "n@, r@ := 1, " + call + "%M\nuse(n@, r@)", "n@, r@ := str(), " + call + "%M\nuse(n@, r@)", "_, _, n@ := `a`, " + call + ", 1%M\nuse(n@)"}
					if rule != "G202" { // concatenations under a further call are not looked for
						forms = append(forms, "err@ := "+call+".Scan(ptr)%M\nuse(err@)", "err@ := "+call+".Err()%M\nuse(err@)", "use(0)\n_ = "+call+".Scan(ptr)%M")
					}
					st = vh.PickS(rng, forms)
				}
				mark := ""
				if rule != "" {
					mark = " //~ " + rule
				}
				if inPre {
					pre += mark
					mark = ""
				}
				st = strings.Replace(st, "%M", mark, 1)
				body := "v, arr, ptr, bs := str(), []string{`a`}, new(string), []byte{1}\nconst lname = `c`\nvar st1 st\nuse(v, arr, ptr, bs, st1, lname)\n"
				if rc.pre != "" {
					body += rc.pre + "\n"
				}
				if pre != "" {
					body += pre + "\n"
				}
				body += st
				u := a.Uniq("q")
				a.Wrap(strings.ReplaceAll(body, "@", u), rng.Intn(3))
				r.Eval(kind, rc.x+m+arg+pre, true)
			}
			// look-alikes: other types with the same methods, formats that are no query
			a.Decl("var quote quoter\n\ntype quoter struct{}\n\nfunc (quoter) QuoteIdentifier(s string) string { return s }")
			a.Decl("type fakeDB struct{}\n\nfunc (fakeDB) Query(q string, a ...any) error { return nil }\n\nfunc (fakeDB) Exec(q string) error { return nil }")
			a.Wrap("var f fakeDB\nv := str()\n_ = f.Query(\"SELECT * FROM t WHERE a = \" + v)\n_ = f.Exec($fmt.Sprintf(\"SELECT * FROM t WHERE a = '%s'\", v))\nq := $fmt.Sprintf(\"SELECT * FROM t WHERE a = '%s'\", v)\nuse(q)\n$fmt.Println(\"SELECT * FROM t WHERE a = \" + v)", 1)
			a.Decl("type st struct {\n\tdb   *$sql.DB\n\ttx   *$sql.Tx\n\tname string\n}\n\nvar gdb *$sql.DB\n\nfunc mk() *$sql.DB { return nil }\n\nconst cname, cquery = `tbl`, `SELECT 1 FROM t`\n\nvar gstr = str()\n\nfunc str() string { return `x` }")
			b.Decl("var otherdb *$sql.DB\n\nvar othertx *$sql.Tx\n\nfunc othermk() *$sql.DB { return nil }\n\nfunc mkany[T any]() (x T) { return }\n\nfunc (s *st) get() *$sql.Tx { return s.tx }\n\nconst (\n\tothername = `o`\n\totherquery = `DELETE FROM t WHERE a = 1`\n)\n\nvar otherstr = `abc`[1:]")
			a.Decl(vh.Helpers)
			files := []vh.Src{{Name: "f0.go", Text: a.Text()}, {Name: "f1.go", Text: b.Text()}}
			if rng.Intn(2) == 0 {
				files[0], files[1] = files[1], files[0]
			}
			if i%200 == 11 {
				r.Sample(map[string]any{"expected": vh.Expected(files, nil), "program": files[0].Text})
			}
			markCheck(r, "sql", "sql", files, vh.Set("G201", "G202"), vh.Opts{NoAnalyzers: true, Include: []string{"G201", "G202"}})
		})
		r.Need("findings observed", 800)
	}
}
