package checks

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/securego/gosec/v2"
	"github.com/securego/gosec/v2/issue"

	"verif/harness/vh"
)

func init() {
	All["C33"] = func(r *vh.Run) {
		os.Setenv("GOSECGOVERSION", "1.21")
		r.Rule("programs with random suppression comments (sprinkled over a corpus of all rules, and dense ones), scanned with the option to show ignored findings on, off and not given, with and without the override option and with several packages in one scan: the findings must be those of the text with blanked comments, the ones an independent model of the comments silences left out, or kept and flagged; the number of findings counted must not depend on the option; the command with the option in every form that has a place for the flag, with its exit status; non-trivial: a comment silences a finding and leaves another one")
		r.Assume("how suppression comments apply is the model of C14 (Go's association of comments with code)")
		line := func(is *issue.Issue, base string, clean func(string) string, flag bool) string {
			c := *is
			c.NoSec, c.Suppressions = false, nil
			return clean(vh.Full(&c, base)) + fmt.Sprintf(" ignored=%v", flag)
		}
		judge := func(kind string, i int, rng *rand.Rand, a *annotated) {
			silenced := 0
			for _, is := range a.base {
				if len(silencing(a.model[is.File], is)) > 0 {
					silenced++
				}
			}
			r.Eval(kind, fmt.Sprint(a.files), silenced > 0 && silenced < len(a.base))
			r.Count("findings", int64(len(a.base)))
			r.Count("findings silenced", int64(silenced))
			for _, show := range []string{"", "true", "enabled", "false", "disabled"} {
				on := show == "true" || show == "enabled"
				override := rng.Intn(4) == 0
				// tracking keeps the silenced findings, too
				track := rng.Intn(3) == 0
				conf := a.setup.config(nil)
				if show != "" {
					conf.SetGlobal(gosec.ShowIgnored, show)
				}
				if override {
					conf.SetGlobal(gosec.Nosec, "true")
				}
				var want []string
				open := 0
				for _, is := range a.base {
					off := len(silencing(a.model[is.File], is)) > 0 && !override
					if !off {
						open++
					}
					if !off || on || track {
						want = append(want, line(is, "", a.clean, off && on))
					}
				}
				sort.Strings(want)
				res := vh.Scan(vh.Opts{Conf: conf, Track: track}, a.l)
				if res.Panic != "" {
					r.Violation(kind+"/panic", res.Panic, vh.SrcMap(a.files))
					return
				}
				var got []string
				for _, is := range res.Issues {
					got = append(got, line(is, a.l.Dir+"/", a.clean, is.NoSec))
					if len(is.Suppressions) > 0 && !track {
						r.Violation(fmt.Sprintf("%s-marks/%d", kind, i), "marks of suppression tracking, which is off", vh.SrcMap(a.files))
					}
				}
				sort.Strings(got)
				r.Count("scans with show-ignored="+show, 1)
				if m, e := vh.Diff(want, got); len(m)+len(e) > 0 {
					r.Violation(fmt.Sprintf("%s/%d/%s", kind, i, show), fmt.Sprintf("%s show-ignored=%q override=%v tracking=%v\nmissing: %v\nextra: %v", a.setup.name, show, override, track, m, e), vh.SrcMap(a.files))
				}
				if res.Metrics.NumFound != open {
					r.Violation(fmt.Sprintf("%s-found/%d/%s", kind, i, show), fmt.Sprintf("show-ignored=%q override=%v: %d findings counted, %d are not ignored", show, override, res.Metrics.NumFound, open), vh.SrcMap(a.files))
				}
			}
			if i%53 == 5 {
				r.Sample(map[string]any{"kind": kind, "findings": len(a.base), "silenced": silenced})
			}
		}
		r.Parallel(r.N(350, 8000), func(i int, rng *rand.Rand) {
			a := newAnnotated(r, rng, vh.PickS(rng, tagSetups), vh.Opts{})
			defer a.l.Remove()
			judge("sprinkled", i, rng, a)
		})
		r.Parallel(r.N(250, 6000), func(i int, rng *rand.Rand) {
			a := denseAnnotated(r, rng)
			defer a.l.Remove()
			judge("dense", i, rng, a)
		})
		// several packages in one scan
		r.Parallel(r.N(40, 600), func(i int, rng *rand.Rand) {
			var as []*annotated
			var ls []*vh.Loaded
			var want []string
			src := map[string]string{}
			for k := 0; k < 2+rng.Intn(2); k++ {
				a := denseAnnotated(r, rng)
				defer a.l.Remove()
				as, ls = append(as, a), append(ls, a.l)
				for _, is := range a.base {
					c := *is
					c.File = a.l.Dir + "/" + is.File
					want = append(want, line(&c, "", a.clean, len(silencing(a.model[is.File], is)) > 0))
				}
				for n, t := range vh.SrcMap(a.files) {
					src[fmt.Sprintf("p%d/%s", k, n)] = t
				}
			}
			sort.Strings(want)
			conf := gosec.NewConfig()
			conf.SetGlobal(gosec.ShowIgnored, "true")
			res := vh.Scan(vh.Opts{Conf: conf}, ls...)
			var got []string
			for _, is := range res.Issues {
				got = append(got, line(is, "", as[0].clean, is.NoSec))
			}
			sort.Strings(got)
			r.Eval("packages", fmt.Sprint(src), len(want) > 0)
			if m, e := vh.Diff(want, got); len(m)+len(e) > 0 || res.Panic != "" {
				r.Violation(fmt.Sprintf("packages/%d", i), fmt.Sprintf("%d packages\nmissing: %v\nextra: %v %s", len(ls), m, e, res.Panic), src)
			}
		})
		// the command
		r.Parallel(r.N(12, 120), func(i int, rng *rand.Rand) {
			a := denseAnnotated(r, rng)
			defer a.l.Remove()
			dir := env(r).Dir()
			src := vh.SrcMap(a.files)
			writeModule(r, dir, src)
			for _, f := range []string{"json", "text", "yaml", "html"} {
				on := rng.Intn(4) > 0
				args := []string{"-fmt=" + f, "-color=false"}
				switch {
				case on:
					args = append(args, vh.Pick(rng, "-show-ignored", "-show-ignored=true"))
				case rng.Intn(2) == 0:
					args = append(args, "-show-ignored=false")
				}
				if rng.Intn(3) == 0 {
					args = append(args, "-conf="+writeConf(r, fmt.Sprintf(`{"global":{"show-ignored":%s}}`, vh.Pick(rng, `"true"`, `true`, `"enabled"`))))
					on = on || len(args) == 3
				}
				threshold := 0
				if rng.Intn(3) == 0 {
					threshold = rng.Intn(3)
					args = append(args, "-severity="+[]string{"low", "medium", "high"}[threshold])
				}
				var want []string
				open := 0
				for _, is := range a.base {
					if int(is.Severity) < threshold {
						continue
					}
					off := len(silencing(a.model[is.File], is)) > 0
					if !off {
						open++
					}
					if !off || on {
						want = append(want, fmt.Sprintf("%s:%s:%s ignored=%v", is.File, is.Line, is.RuleID, off))
					}
				}
				sort.Strings(want)
				o := runCLI(r, dir, append(args, ".")...)
				files := map[string]string{"args": strings.Join(args, " "), "stdout": o.stdout, "stderr": o.stderr}
				for n, t := range src {
					files[n] = t
				}
				p, err := parseReport(f, []byte(o.stdout), []string{dir})
				if err != nil {
					r.Violation("command/report", err.Error(), files)
					continue
				}
				var got []string
				for _, x := range p.rows {
					got = append(got, fmt.Sprintf("%s:%s:%s ignored=%s", filepath.Base(x["file"]), x["line"], x["rule"], x["nosec"]))
				}
				sort.Strings(got)
				r.Eval("command", fmt.Sprint(args, src), len(want) > open)
				r.Count("command findings shown as ignored", int64(len(want)-open))
				if m, e := vh.Diff(want, got); len(m)+len(e) > 0 {
					r.Violation("command/"+f, fmt.Sprintf("gosec %v: missing %v extra %v", args, m, e), files)
				}
				if (o.code == 0) != (open == 0) {
					r.Violation("command/status", fmt.Sprintf("gosec %v: exit status %d with %d findings that are not ignored", args, o.code, open), files)
				}
			}
		})
		r.Need("findings silenced", 500)
		r.Need("command findings shown as ignored", 20)
	}
}
