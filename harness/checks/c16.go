package checks

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"verif/harness/vh"
)

// ruleIDs are the documented rules.
var ruleIDs = strings.Fields("G101 G102 G103 G104 G106 G107 G108 G109 G110 G111 G112 G114 G115 G201 G202 G203 G204 G301 G302 G303 G304 G305 G306 G307 G401 G402 G403 G404 G405 G406 G407 G501 G502 G503 G504 G505 G506 G507 G601 G602")

// selected is the specification of include and exclude lists.
func selected(rule string, include, exclude []string) bool {
	in := func(l []string) bool {
		for _, x := range l {
			if x == rule {
				return true
			}
		}
		return false
	}
	return (len(include) == 0 || in(include)) && !in(exclude)
}

// fullCorpus is a package with every corpus snippet once.
func fullCorpus(rng *rand.Rand, nf int) []vh.Src {
	sn := append([]snippet{}, corpus...)
	sn = append(sn, snippet{"create", "", "f@, err@ := $os.Create(\"q\")\nuse(f@, err@)"})
	rng.Shuffle(len(sn), func(i, j int) { sn[i], sn[j] = sn[j], sn[i] })
	fs := buildPkg(rng, "p", sn, nf, 1, false)
	fs[0].Text = strings.Replace(fs[0].Text, "package p\n", "package p\n\nimport _ \"net/http/pprof\"\n", 1)
	return fs
}

func init() {
	All["C16"] = func(r *vh.Run) {
		os.Setenv("GOSECGOVERSION", "1.21")
		r.Rule("packages with findings of all rules; every rule included alone and excluded alone, random include/exclude lists (repeated, unknown and overlapping IDs), in process and through command line and configuration file; the findings must be exactly the unrestricted findings of the selected rules, field by field; non-trivial: the selection keeps some findings and drops some")
		id := func(s string) string { return s }
		type subject struct {
			files []vh.Src
			l     *vh.Loaded
			all   vh.Result
		}
		var subj []subject
		for i := 0; i < r.N(3, 12); i++ {
			f := fullCorpus(r.Rng, 1+i%3)
			l := loadOrDie(r, f)
			s := subject{f, l, vh.Scan(vh.Opts{}, l)}
			if s.all.Panic != "" {
				r.Violation("panic", s.all.Panic, vh.SrcMap(f))
				return
			}
			have := map[string]bool{}
			for _, is := range s.all.Issues {
				have[is.RuleID] = true
			}
			for _, k := range ruleIDs {
				if !have[k] && k != "G307" {
					r.Count("rules without finding", 1)
					r.Violation("no-finding/"+k, "with neither list the rule "+k+" reports nothing on its own pattern", vh.SrcMap(f))
				}
			}
			subj = append(subj, s)
			defer l.Remove()
		}
		type sel struct{ in, ex []string }
		var sels []sel
		for _, k := range ruleIDs {
			sels = append(sels, sel{[]string{k}, nil}, sel{nil, []string{k}}, sel{[]string{k}, []string{k}}, sel{[]string{k, "G101"}, []string{"G101"}})
		}
		sels = append(sels, sel{})
		pick := func(rng *rand.Rand) []string {
			var out []string
			for n := rng.Intn(12); n > 0; n-- {
				out = append(out, vh.PickS(rng, ruleIDs))
			}
			if rng.Intn(5) == 0 {
				out = append(out, vh.Pick(rng, "G999", "g101", "G10", "G4011", "*", "X"))
			}
			if len(out) > 1 && rng.Intn(3) == 0 {
				out = append(out, out[0])
			}
			rng.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
			return out
		}
		for i := 0; i < r.N(600, 12000); i++ {
			sels = append(sels, sel{pick(r.Rng), pick(r.Rng)})
		}
		r.Parallel(len(sels), func(i int, rng *rand.Rand) {
			s, sb := sels[i], subj[i%len(subj)]
			res := vh.Scan(vh.Opts{Include: s.in, Exclude: s.ex}, sb.l)
			var exp []string
			for _, is := range sb.all.Issues {
				if selected(is.RuleID, s.in, s.ex) {
					exp = append(exp, vh.Full(is, sb.l.Dir+"/"))
				}
			}
			sort.Strings(exp)
			r.Eval("selection", fmt.Sprint(i%len(subj), s), len(exp) > 0 && len(exp) < len(sb.all.Issues))
			r.Count("findings compared", int64(len(exp)))
			m, e := vh.Diff(exp, fullSorted(res.Issues, sb.l.Dir+"/", id))
			if len(m)+len(e) > 0 || res.Panic != "" {
				r.Violation(fmt.Sprintf("selection/%v/%v", s.in, s.ex), fmt.Sprintf("include=%v exclude=%v\nmissing: %v\nextra: %v %s", s.in, s.ex, m, e, res.Panic), vh.SrcMap(sb.files))
			}
			if i%301 == 17 {
				r.Sample(map[string]any{"include": s.in, "exclude": s.ex, "findings": len(exp), "of": len(sb.all.Issues)})
			}
		})
		// command line and configuration file
		dir := env(r).Dir()
		files := map[string]string{}
		for _, f := range fullCorpus(r.Rng, 2) {
			files[f.Name] = f.Text
		}
		writeModule(r, dir, files)
		all := runCLI(r, dir, "-fmt=json", "-quiet", ".").json(r)
		if len(all.Issues) < 20 {
			r.Inconclusive("only %d findings by command", len(all.Issues))
		}
		n := r.N(48, 400)
		r.Parallel(n, func(i int, rng *rand.Rand) {
			// few rules, of both kinds, so that the lists overlap
			pool := []string{"G115", "G602", "G407"}
			for k := 2 + rng.Intn(6); k > 0; k-- {
				pool = append(pool, vh.PickS(rng, ruleIDs))
			}
			if rng.Intn(4) == 0 {
				pool = ruleIDs
			}
			lst := func() []string {
				if rng.Intn(3) == 0 {
					return nil
				}
				var out []string
				for k := 1 + rng.Intn(6); k > 0; k-- {
					out = append(out, vh.PickS(rng, pool))
				}
				return out
			}
			cin, cex, fin, fex := lst(), lst(), lst(), lst()
			useConf := rng.Intn(4) > 0
			in, ex := cin, cex
			args := []string{"-fmt=json"}
			if useConf {
				g := map[string]string{}
				if fin != nil {
					g["include"] = strings.Join(fin, ",")
				}
				if fex != nil {
					g["exclude"] = strings.Join(fex, ",")
				}
				c := filepath.Join(env(r).Dir(), "conf.json")
				if err := os.WriteFile(c, []byte(jsonText(map[string]any{"global": g})), 0o600); err != nil {
					r.Inconclusive("%v", err)
				}
				args = append(args, "-conf", c)
				if in == nil {
					in = fin
				}
				if ex == nil {
					ex = fex
				}
			}
			if cin != nil {
				args = append(args, "-include="+strings.Join(cin, ","))
			}
			if cex != nil {
				args = append(args, "-exclude="+strings.Join(cex, ","))
			}
			any := false
			for _, k := range ruleIDs {
				any = any || selected(k, in, ex)
			}
			o := runCLI(r, dir, append(args, ".")...)
			r.Eval("command", fmt.Sprint(args), true)
			if !any {
				if o.code == 0 {
					r.Violation("cli/none", fmt.Sprintf("no rule selected, yet success: %v", args), map[string]string{"stderr": o.stderr})
				}
				return
			}
			var want, got []string
			for _, is := range all.Issues {
				if selected(is.RuleID, in, ex) {
					want = append(want, jsonText(is))
				}
			}
			for _, is := range o.json(r).Issues {
				got = append(got, jsonText(is))
			}
			sort.Strings(want)
			sort.Strings(got)
			if m, e := vh.Diff(want, got); len(m)+len(e) > 0 {
				r.Violation("cli/selection", fmt.Sprintf("gosec %v\nmissing: %v\nextra: %v", args, m, e), map[string]string{"stdout": o.stdout, "stderr": o.stderr})
			}
		})
		r.Need("selection", 500)
	}
}
