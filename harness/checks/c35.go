package checks

import (
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"runtime"
	"strings"

	"github.com/securego/gosec/v2"
	"github.com/securego/gosec/v2/issue"

	"verif/harness/vh"
)

// before122 tells whether loop variables are shared between iterations in a
// Go version: the language changed with Go 1.22.
func before122(minor int) bool { return minor < 22 }

// versionText writes a version in one of the forms the Go project uses.
func versionText(rng *rand.Rand, minor int, env bool) string {
	v := fmt.Sprintf("1.%d", minor)
	switch rng.Intn(4) {
	case 0:
		v += fmt.Sprintf(".%d", rng.Intn(30))
	case 1:
		if minor >= 21 || env {
			v += vh.Pick(rng, "rc1", "rc2")
		}
	case 2:
		if env {
			v += vh.Pick(rng, "beta1", ".3", "rc22", ".22")
		}
	}
	if env && rng.Intn(2) == 0 {
		v = "go" + v
	}
	return v
}

func init() {
	All["C35"] = func(r *vh.Run) {
		r.Rule("a program that takes the address of range variables in several ways, and corpus packages, scanned under every Go minor version in its written forms given by the environment variable, by the go.mod file of the working directory, and by neither; G601 must report exactly the marked lines in versions before 1.22 and nothing in others, and no other rule may report anything different; non-trivial: the version comes from a source that another one contradicts")
		r.Assume("versions are those of Go 1; the go.mod is that of the working directory; go.mod versions newer than the installed Go are not tried")
		loop := []snippet{
			{"value", "", "for _, x@ := range []int{1, 2} {\n\tuse(&x@) //~ G601\n}"},
			{"struct", "", "for k@, x@ := range []struct{ a int }{{1}} {\n\tuse(k@, &x@) //~ G601\n}"},
			{"map", "func f@(m map[string]int) {\n\tfor _, v := range m {\n\t\tp := &v //~ G601\n\t\tuse(p)\n\t}\n}", ""},
			{"index", "", "xs@ := []int{1}\nfor i@ := range xs@ {\n\tuse(&xs@[i@])\n}"},
			{"copy", "", "for _, x@ := range []int{1, 2} {\n\tx@ := x@\n\tuse(&x@)\n}"},
		}
		others := append([]snippet{}, corpus...)
		// in process: the environment variable
		versions := []int{}
		for m := 0; m <= 40; m++ {
			versions = append(versions, m)
		}
		versions = append(versions, 99, 100, 121, 219)
		n := len(versions)
		if r.Thorough() {
			n *= 12
		}
		var cases []struct {
			files []vh.Src
			l     *vh.Loaded
		}
		for k := 0; k < r.N(6, 30); k++ {
			sn := append([]snippet{}, loop...)
			for j := 0; j < 4; j++ {
				sn = append(sn, vh.PickS(r.Rng, others))
			}
			files := build(r.Rng, sn, 1+k%2, 2, false)
			l := loadOrDie(r, files)
			defer l.Remove()
			cases = append(cases, struct {
				files []vh.Src
				l     *vh.Loaded
			}{files, l})
		}
		rest := func(res vh.Result) (aliases, other []string) {
			return vh.Keys(res.Issues, vh.Set("G601")), keysBut(res.Issues, "G601")
		}
		// the environment is the process's: one at a time
		base := make([]vh.Result, len(cases))
		os.Setenv("GOSECGOVERSION", "1.21")
		for k, c := range cases {
			base[k] = vh.Scan(vh.Opts{}, c.l)
			if base[k].Panic != "" {
				r.Violation("panic", base[k].Panic, vh.SrcMap(c.files))
				return
			}
			a, _ := rest(base[k])
			if m, e := vh.Diff(vh.Expected(c.files, vh.Set("G601")), a); len(m)+len(e) > 0 {
				r.Violation("aliases", fmt.Sprintf("version 1.21: missing %v extra %v", m, e), vh.SrcMap(c.files))
			}
		}
		for i := 0; i < n; i++ {
			minor := versions[i%len(versions)]
			v := versionText(r.Rng, minor, true)
			k := i % len(cases)
			os.Setenv("GOSECGOVERSION", v)
			res := vh.Scan(vh.Opts{}, cases[k].l)
			a, o := rest(res)
			wa, wo := rest(base[k])
			if !before122(minor) {
				wa = nil
			}
			r.Eval("environment", v, true)
			r.Count(fmt.Sprintf("versions before 1.22: %v", before122(minor)), 1)
			if fmt.Sprint(a) != fmt.Sprint(wa) {
				r.Violation("environment/"+v, fmt.Sprintf("GOSECGOVERSION=%s: G601 reports %v, expected %v", v, a, wa), vh.SrcMap(cases[k].files))
			}
			if fmt.Sprint(o) != fmt.Sprint(wo) {
				r.Violation("others/"+v, fmt.Sprintf("GOSECGOVERSION=%s changes other findings:\n%v\n%v", v, wo, o), vh.SrcMap(cases[k].files))
			}
			if maj, min, _ := gosec.GoVersion(); maj != 1 || min != minor {
				r.Violation("parsed/"+v, fmt.Sprintf("GOSECGOVERSION=%s is taken for %d.%d", v, maj, min), nil)
			}
		}
		os.Unsetenv("GOSECGOVERSION")
		// the command: go.mod, the variable, both, none
		own := 0
		fmt.Sscanf(strings.TrimPrefix(runtime.Version(), "go1."), "%d", &own)
		if out, err := exec.Command("go", "env", "GOVERSION").Output(); err != nil || !strings.HasPrefix(string(out), fmt.Sprintf("go1.%d", own)) {
			r.Inconclusive("the go command is not of version 1.%d: %s %v", own, out, err)
		}
		r.Parallel(r.N(40, 400), func(i int, rng *rand.Rand) {
			files := build(rng, loop, 1, 2, false)
			src := map[string]string{}
			want := len(vh.Expected(files, vh.Set("G601")))
			for _, f := range files {
				src["p/"+f.Name] = f.Text
			}
			dir := env(r).Dir()
			minor, told := own, false
			if rng.Intn(6) > 0 {
				minor = vh.Pick(rng, 21, 22, 20, 18+rng.Intn(own-17))
				v := fmt.Sprintf("1.%d", minor)
				if minor >= 21 && minor < own {
					v = vh.Pick(rng, v, v+".0", v+".7", v+"rc1")
				}
				src["go.mod"] = "module example.com/v\n\ngo " + v + "\n"
				told = true
			}
			envs := []string{}
			contradicted := false
			if rng.Intn(2) == 0 || !told && rng.Intn(2) == 0 {
				m := vh.Pick(rng, 21, 22, rng.Intn(30))
				contradicted = before122(m) != before122(minor)
				minor = m
				envs = append(envs, "GOSECGOVERSION="+versionText(rng, m, true))
				told = true
			}
			if _, ok := src["go.mod"]; !ok {
				// no module at all: the version of the command
				envs = append(envs, "GO111MODULE=off")
				src["go.mod"] = ""
			}
			writeModule(r, dir, src)
			if src["go.mod"] == "" {
				os.Remove(dir + "/go.mod")
			}
			o := runCLIEnv(r, r.CLI, dir, envs, "-fmt=json", "-include=G601", "-no-fail", "./p")
			rep := o.json(r)
			src["env"] = strings.Join(envs, "\n")
			src["stdout"], src["stderr"] = o.stdout, o.stderr
			if !before122(minor) {
				want = 0
			}
			r.Eval("command", fmt.Sprint(src["go.mod"], envs), contradicted)
			r.Count(fmt.Sprintf("command versions before 1.22: %v", before122(minor)), 1)
			if rep.Stats.Files == 0 || len(rep.Errors) > 0 {
				r.Violation("command/nothing", fmt.Sprintf("%d files scanned, errors %v", rep.Stats.Files, rep.Errors), src)
				return
			}
			if len(rep.Issues) != want {
				r.Violation("command/"+strings.TrimSpace(src["go.mod"])+src["env"], fmt.Sprintf("%q %v: %d findings of G601, expected %d", src["go.mod"], envs, len(rep.Issues), want), src)
			}
		})
		r.Need("versions before 1.22: true", 20)
		r.Need("versions before 1.22: false", 20)
		r.Need("command versions before 1.22: true", 5)
		r.Need("command versions before 1.22: false", 5)
	}
}

// keysBut gives the findings of the other rules.
func keysBut(is []*issue.Issue, rule string) []string {
	var out []string
	for _, s := range vh.Keys(is, nil) {
		if !strings.Contains(s, rule) {
			out = append(out, s)
		}
	}
	return out
}
