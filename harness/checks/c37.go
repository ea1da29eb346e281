package checks

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"sort"
	"strings"

	"github.com/securego/gosec/v2"

	"verif/harness/vh"
)

// ruleSection makes a section of the configuration which says something about
// one rule only, and the rule.
func ruleSection(rng *rand.Rand) (string, any) {
	switch rng.Intn(8) {
	case 0, 1:
		m := map[string]any{}
		for n := 1 + rng.Intn(3); n > 0; n-- {
			switch rng.Intn(6) {
			case 0:
				m["pattern"] = vh.Pick(rng, "(?i)plain|key", "nothing", ".*", "^x")
			case 1:
				m["ignore_entropy"] = rng.Intn(2) == 0
			case 2:
				m["entropy_threshold"] = vh.Pick(rng, "0.1", "20", "80.0", "500")
			case 3:
				m["per_char_threshold"] = vh.Pick(rng, "0.1", "3.0", "5.9")
			case 4:
				m["truncate"] = vh.Pick(rng, "4", "16", "64")
			case 5:
				m["min_entropy_length"] = vh.Pick(rng, "1", "8", "100")
			}
		}
		return "G101", m
	case 2, 3:
		m := map[string]any{}
		for n := 1 + rng.Intn(3); n > 0; n-- {
			m[vh.Pick(rng, "os", "fmt", "io", "strings.Builder", "net/http")] = vh.Pick(rng, []any{"Remove", "Rename"}, []any{"*"}, []any{"Write", "Fprintf"}, []any{})
		}
		return "G104", m
	case 4:
		return "G111", map[string]any{"pattern": vh.Pick(rng, "http\\.Dir\\(", "nothing", ".*", "Exec")}
	default:
		return vh.Pick(rng, "G301", "G302", "G306", "G307"), vh.Pick(rng, "0o777", "0o400", "0o600", "0", "0755", "0o7777")
	}
}

// otherSection makes a section no rule asks for.
func otherSection(rng *rand.Rand) (string, any) {
	return vh.Pick(rng, "G999", "G100", "G401", "G115", "G407", "G602", "G204", "g101", "pattern", "exclude", "x", "G10"),
		vh.Pick[any](rng, "0o777", map[string]any{"pattern": ".*"}, map[string]any{"os": []any{"*"}}, true, 3.0, nil, []any{"G101"}, map[string]any{})
}

func init() {
	All["C37"] = func(r *vh.Run) {
		os.Setenv("GOSECGOVERSION", "1.21")
		r.Rule("packages with findings of all rules, the repository's sample programs and programs of the monitors of the rules, scanned under pairs of configurations: without and with a section of one rule, the audit option or a section which belongs to no rule, on top of random sections of other rules; the findings of all other rules have to be the same in every field, and a stricter permission or audit mode may only add findings of the rule; non-trivial: there are findings")
		type source struct {
			sampleProgram
			kind string
		}
		var src []source
		for k := 0; k < r.N(1, 12); k++ {
			for _, s := range samplePrograms() {
				src = append(src, source{s, "sample programs"})
			}
		}
		for _, p := range generatedPrograms(r, r.N(40, 500)) {
			src = append(src, source{p, "programs of rule monitors"})
		}
		for i := 0; i < r.N(400, 8000); i++ {
			src = append(src, source{sampleProgram{name: "corpus"}, "corpus"})
		}
		id := func(s string) string { return s }
		r.Parallel(len(src), func(i int, rng *rand.Rand) {
			files, kind := src[i].files, src[i].kind
			if kind == "corpus" {
				files = corpusPkg(rng, "p", 2+rng.Intn(9), 1+rng.Intn(3), rng.Intn(2))
			}
			ld, err := env(r).Load(files, nil)
			if err != nil || len(ld.TypeErr) > 0 {
				return
			}
			defer ld.Remove()
			sections := map[string]any{}
			for n := rng.Intn(4); n > 0; n-- {
				k, v := ruleSection(rng)
				sections[k] = v
			}
			globals := map[string]string{}
			for _, o := range []string{"audit", "nosec", "show-ignored"} {
				if rng.Intn(5) == 0 {
					globals[o] = vh.Pick(rng, "true", "enabled", "false")
				}
			}
			conf := func() gosec.Config {
				all := map[string]any{"global": globals}
				for k, v := range sections {
					all[k] = v
				}
				b, err := json.Marshal(all)
				if err != nil {
					panic(err)
				}
				c := gosec.NewConfig()
				if _, err := c.ReadFrom(bytes.NewReader(b)); err != nil {
					r.Inconclusive("configuration %s: %v", b, err)
				}
				return c
			}
			scan := func() (map[string][]string, string) {
				res := vh.Scan(vh.Opts{Conf: conf()}, ld)
				by := map[string][]string{}
				for _, is := range res.Issues {
					by[is.RuleID] = append(by[is.RuleID], vh.Full(is, ld.Dir+"/"))
				}
				for _, l := range by {
					sort.Strings(l)
				}
				return by, res.Panic
			}
			before, p1 := scan()
			// what may change, and what may only be added or removed
			rule, way := "", ""
			switch rng.Intn(6) {
			case 0:
				k, v := otherSection(rng)
				sections[k] = v
				way = "section " + k + " of no rule"
			case 1:
				if globals["audit"] == "" {
					globals["audit"] = vh.Pick(rng, "true", "enabled")
					rule, way = "G104", "audit mode"
				}
			default:
				k, v := ruleSection(rng)
				sections[k] = v
				rule, way = k, "section "+k
			}
			if way == "" {
				return
			}
			after, p2 := scan()
			var want, got []string
			for _, k := range ruleIDs {
				if k == rule {
					continue
				}
				want, got = append(want, before[k]...), append(got, after[k]...)
			}
			sort.Strings(want)
			sort.Strings(got)
			r.Eval(way, fmt.Sprint(files[0].Text, jsonText(sections), globals), len(want) > 0)
			r.Count("findings compared", int64(len(want)))
			if len(before[rule]) != len(after[rule]) {
				r.Count("changes with an effect on the rule itself", 1)
			}
			if m, e := vh.Diff(want, got); len(m)+len(e) > 0 || p1+p2 != "" {
				r.Violation("sections/"+way, fmt.Sprintf("%s on top of %s %v changes findings of other rules\nnot found any more: %q\nnew: %q %s", way, jsonText(sections), globals, m, e, p1+p2), vh.SrcMap(files))
			}
			if way == "audit mode" {
				if m, _ := vh.Diff(before[rule], after[rule]); len(m) > 0 {
					r.Violation("sections/audit", fmt.Sprintf("in audit mode findings of G104 are missing: %q", m), vh.SrcMap(files))
				}
			}
			// the rule alone behaves as among the others
			if rule != "" && rng.Intn(3) == 0 {
				res := vh.Scan(vh.Opts{Conf: conf(), Include: []string{rule}}, ld)
				if m, e := vh.Diff(after[rule], fullSorted(res.Issues, ld.Dir+"/", id)); len(m)+len(e) > 0 {
					r.Violation("sections/alone/"+rule, fmt.Sprintf("%s alone with %s %v\nmissing: %q\nextra: %q", rule, jsonText(sections), globals, m, e), vh.SrcMap(files))
				}
			}
			// permissions: fewer allowed bits, more findings
			if strings.HasPrefix(rule, "G30") && rng.Intn(2) == 0 {
				lines := func(mode string) []string {
					sections[rule] = mode
					res := vh.Scan(vh.Opts{Conf: conf(), Include: []string{rule}}, ld)
					var l []string
					for _, is := range res.Issues {
						l = append(l, is.Line+":"+is.Col)
					}
					sort.Strings(l)
					return l
				}
				a := rng.Intn(0o1000)
				b := a &^ rng.Intn(0o1000)
				if m, _ := vh.Diff(lines(fmt.Sprintf("%#o", a)), lines(fmt.Sprintf("%#o", b))); len(m) > 0 {
					r.Violation("sections/modes/"+rule, fmt.Sprintf("%s with %#o does not report at %v, where it does with %#o", rule, b, m, a), vh.SrcMap(files))
				}
				r.Count("pairs of permissions", 1)
			}
			if i%97 == 5 {
				r.Sample(map[string]any{"kind": kind, "change": way, "sections": sections, "globals": globals, "findings": len(want)})
			}
		})
		r.Need("findings compared", 4000)
		r.Need("changes with an effect on the rule itself", 50)
		r.Need("pairs of permissions", 50)
	}
}
