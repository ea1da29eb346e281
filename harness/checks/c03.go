package checks

import (
	"fmt"
	"math/rand"
	"strconv"
	"strings"

	"github.com/securego/gosec/v2"

	"verif/harness/vh"
)

func init() {
	All["C03"] = func(r *vh.Run) {
		r.Rule("all permission literals 0..07777 for every listed call under the default configuration (exhaustive), in five notations, plus random configured modes per rule; non-trivial: distinct (call, literal, notation, configuration)")
		calls := []struct{ rule, f string }{
			{"G301", "$os.Mkdir(`d`, %s)"}, {"G301", "$os.MkdirAll(`d`, %s)"},
			{"G302", "$os.Chmod(`f`, %s)"}, {"G302", "$os.OpenFile(`f`, $os.O_RDWR, %s)"},
			{"G306", "$os.WriteFile(`f`, nil, %s)"}, {"G306", "$ioutil.WriteFile(`f`, nil, %s)"},
			{"", "$os.FileMode(%s)"}, {"", "use(%s)"}, {"", "fake@.Chmod(`f`, %s)"}, {"", "fake@.Mkdir(`d`, %s)"}, {"", "(*$os.File)(nil).Chmod(%s)"},
		}
		def := map[string]int64{"G301": 0o750, "G302": 0o600, "G306": 0o600, "G307": 0o666}
		only := vh.Set("G301", "G302", "G306", "G307")
		notation := func(rng *rand.Rand, m int64) string {
			switch rng.Intn(6) {
			case 0:
				return fmt.Sprintf("0o%o", m)
			case 1:
				return fmt.Sprintf("0x%x", m)
			case 2:
				return fmt.Sprintf("%d", m)
			case 3:
				return fmt.Sprintf("0b%b", m)
			case 4:
				s := strconv.FormatInt(m, 8)
				if len(s) > 2 {
					s = s[:1] + "_" + s[1:]
				}
				return "0" + s
			}
			return fmt.Sprintf("0%o", m)
		}
		// one program per chunk of modes, all calls
		type job struct {
			modes []int64
			conf  map[string]string
			kind  string
		}
		var jobs []job
		const chunk = 128
		for b := int64(0); b < 0o10000; b += chunk {
			var ms []int64
			for m := b; m < b+chunk; m++ {
				ms = append(ms, m)
			}
			jobs = append(jobs, job{ms, nil, "default"})
		}
		cfgModes := []string{"0", "0600", "0o700", "0755", "0777", "0400", "0640", "0x1ff", "511", "01777", "0666", "0664", "not-a-mode", ""}
		for k := 0; k < r.N(480, 5000); k++ {
			j := job{kind: "configured", conf: map[string]string{}}
			for _, id := range []string{"G301", "G302", "G306", "G307"} {
				if r.Rng.Intn(3) > 0 {
					if r.Rng.Intn(2) == 0 {
						j.conf[id] = vh.PickS(r.Rng, cfgModes)
					} else {
						j.conf[id] = fmt.Sprintf("0%o", r.Rng.Intn(0o10000))
					}
				}
			}
			for n := 0; n < 40; n++ {
				j.modes = append(j.modes, int64(r.Rng.Intn(0o10000)))
			}
			for _, id := range []string{"G301", "G302", "G306"} {
				if m, err := strconv.ParseInt(j.conf[id], 0, 64); err == nil {
					j.modes = append(j.modes, m, m|1, m&^0o100, m|0o20, m^0o4)
				}
			}
			jobs = append(jobs, j)
		}
		r.Parallel(len(jobs), func(i int, rng *rand.Rand) {
			j := jobs[i]
			f := vh.NewFile(rng, "p", "A")
			f.Twice = rng.Intn(4) == 0
			mode := func(id string) (int64, bool) {
				if s, ok := j.conf[id]; ok {
					if m, err := strconv.ParseInt(s, 0, 64); err == nil {
						return m, true
					}
				}
				return def[id], false
			}
			conf := gosec.NewConfig()
			for id, s := range j.conf {
				conf.Set(id, s)
				if rng.Intn(2) == 0 {
					// through the JSON form users write
					c2 := gosec.NewConfig()
					_, _ = c2.ReadFrom(strings.NewReader(fmt.Sprintf(`{%q: %q}`, id, s)))
					conf[id] = c2[id]
				}
			}
			// rules read their mode from the section named by the rule id
			c := gosec.Config{}
			for k, v := range conf {
				c[k] = v
			}
			u := "q"
			f.Decl("type fk@ struct{}\n\nfunc (fk@) Chmod(string, int) error { return nil }\n\nfunc (fk@) Mkdir(string, int) error { return nil }\n\nvar fake@ fk@\n")
			f.Decl("")
			n := 0
			for _, m := range j.modes {
				var sb strings.Builder
				for _, cl := range calls {
					if j.kind == "default" && rng.Intn(3) == 0 && cl.rule == "" {
						continue
					}
					lit := notation(rng, m)
					if cl.rule == "G301" && m > 0o7777 {
						lit = fmt.Sprintf("0%o", m)
					}
					mark := ""
					if cl.rule != "" {
						if allowed, _ := mode(cl.rule); m&^allowed != 0 {
							mark = " //~ " + cl.rule
						}
					}
					expr := fmt.Sprintf(cl.f, lit)
					wrap := vh.Pick(rng, "use(%s)%s", "use(1,\n%s,%s\n)", "if use(%s) {%s\n}")
					if strings.Contains(cl.f, "OpenFile") {
						wrap = "use(%s)%s"
					}
					fmt.Fprintf(&sb, wrap+"\n", expr, mark)
					r.Eval(j.kind, fmt.Sprintf("%s|%s|%v", cl.f, lit, j.conf[cl.rule]), true)
					n++
				}
				f.Wrap(sb.String(), rng.Intn(2))
			}
			// os.ModePerm and os.Create
			var sb strings.Builder
			for _, cl := range calls {
				if cl.rule == "" {
					continue
				}
				fmt.Fprintf(&sb, "use(%s) //~ %s\n", fmt.Sprintf(cl.f, "$os.ModePerm"), cl.rule)
			}
			mark := ""
			if m, set := mode("G307"); set && 0o666&^m != 0 {
				mark = " //~ G307"
			}
			fmt.Fprintf(&sb, "use($os.Create(`x`))%s\nuse($os.Open(`x`))\nuse($os.CreateTemp(`x`, `y`))\n", mark)
			f.Wrap(sb.String(), rng.Intn(3))
			f.Decl(vh.Helpers)
			files := []vh.Src{{Name: "f0.go", Text: strings.ReplaceAll(f.Text(), "@", u)}}
			if i%37 == 0 {
				r.Sample(map[string]any{"conf": j.conf, "modes": j.modes[:4], "calls": n})
			}
			markCheck(r, j.kind, fmt.Sprintf("%s/%v", j.kind, j.conf), files, only, vh.Opts{NoAnalyzers: true, Conf: c})
		})
		r.Need("findings observed", 1000)
	}
}
