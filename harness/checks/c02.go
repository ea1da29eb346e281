package checks

import (
	"fmt"
	"math/rand"
	"strings"

	"verif/harness/vh"
)

var blocklist = map[string]string{
	"crypto/md5": "G501", "crypto/des": "G502", "crypto/rc4": "G503", "net/http/cgi": "G504", "crypto/sha1": "G505",
	"golang.org/x/crypto/md4": "G506", "golang.org/x/crypto/ripemd160": "G507",
}

var benignImports = []string{
	"crypto/sha256", "crypto/aes", "crypto/rand", "math/rand", "net/http", "net/http/pprof", "net/url", "os", "fmt", "html/template", "golang.org/x/crypto/ssh", "crypto", "crypto/cipher", "unsafe",
}

// an exported member to use per package, so that the import is used
var member = map[string]string{
	"crypto/md5": "Size", "crypto/des": "BlockSize", "crypto/rc4": "NewCipher", "net/http/cgi": "Serve", "crypto/sha1": "Size", "golang.org/x/crypto/md4": "Size", "golang.org/x/crypto/ripemd160": "Size",
	"crypto/sha256": "Size", "crypto/aes": "BlockSize", "crypto/rand": "Reader", "math/rand": "Int", "net/http": "StatusOK", "net/http/pprof": "Index", "net/url": "Parse", "os": "Args", "fmt": "Sprint", "html/template": "New",
	"golang.org/x/crypto/ssh": "Marshal", "crypto": "SHA1", "crypto/cipher": "NewGCM", "unsafe": "",
}

func init() {
	All["C02"] = func(r *vh.Run) {
		r.Rule("import sections: random sets of blocklisted and benign packages, repeated imports, each plain/alias/blank/dot/raw-string, grouped or single, over 1-3 files; non-trivial: contains a blocklisted import or pprof")
		only := vh.Set("G108", "G501", "G502", "G503", "G504", "G505", "G506", "G507")
		var paths []string
		for _, p := range vh.Libs {
			if _, ok := blocklist[p]; ok {
				paths = append(paths, p)
			}
		}
		forms := []string{"plain", "alias", "blank", "dot", "raw", "rawalias", "escaped"}
		type imp struct{ path, form string }
		mk := func(rng *rand.Rand, name string, ims []imp, single bool) vh.Src {
			var sb strings.Builder
			sb.WriteString("package p\n\n")
			var uses []string
			usedName := map[string]bool{}
			dots := 0
			open := false
			for k, im := range ims {
				rule := blocklist[im.path]
				alias := ""
				q := fmt.Sprintf("%q", im.path)
				nm := im.path[strings.LastIndex(im.path, "/")+1:]
				switch im.form {
				case "raw":
					q = "`" + im.path + "`"
				case "escaped":
					q = strings.Replace(q, "/", `\x2f`, 1)
				case "rawalias":
					q = "`" + im.path + "`"
					alias = fmt.Sprintf("ra%d", k)
				case "alias":
					alias = fmt.Sprintf("al%d", k)
				case "blank":
					alias = "_"
				case "dot":
					alias = "."
				}
				if member[im.path] == "" && im.form == "dot" {
					alias = "_"
				}
				if alias == "" {
					if usedName[nm] {
						alias = fmt.Sprintf("dup%d", k)
					} else {
						usedName[nm] = true
					}
				}
				if alias == "." {
					// one dot import only, to keep file scopes free of clashes
					dots++
					if dots > 1 {
						alias = fmt.Sprintf("d%d", k)
					}
				}
				if im.path == "net/http/pprof" && alias == "_" {
					rule = "G108"
				}
				sel := nm
				if alias != "" {
					sel = alias
				}
				m := member[im.path]
				switch {
				case alias == "_":
				case alias == ".":
					uses = append(uses, m)
				case im.path == "unsafe":
					uses = append(uses, sel+".Sizeof(1)")
				default:
					uses = append(uses, sel+"."+m)
				}
				mark := ""
				if rule != "" {
					mark = " //~ " + rule
				}
				line := strings.TrimSpace(alias+" "+q) + mark
				if single || rng.Intn(3) == 0 {
					if open {
						sb.WriteString(")\n")
						open = false
					}
					sb.WriteString("import " + line + "\n")
				} else {
					if !open {
						sb.WriteString("import (\n")
						open = true
					}
					sb.WriteString("\t" + line + "\n")
				}
			}
			if open {
				sb.WriteString(")\n")
			}
			fmt.Fprintf(&sb, "\nfunc use%s(xs ...any) {}\n\nfunc f%s() {\n", strings.TrimSuffix(name, ".go"), strings.TrimSuffix(name, ".go"))
			for _, u := range uses {
				fmt.Fprintf(&sb, "\tuse%s(%s)\n", strings.TrimSuffix(name, ".go"), u)
			}
			sb.WriteString("}\n")
			return vh.Src{Name: name, Text: sb.String()}
		}
		type job struct {
			files [][]imp
		}
		var jobs []job
		for _, p := range append(append([]string{}, paths...), benignImports...) {
			for _, f := range forms {
				jobs = append(jobs, job{[][]imp{{{p, f}}}})
				jobs = append(jobs, job{[][]imp{{{p, f}, {p, "alias"}}}})
			}
		}
		for k := 0; k < r.N(900, 12000); k++ {
			var j job
			for nf := 1 + r.Rng.Intn(3); nf > 0; nf-- {
				var ims []imp
				for n := 1 + r.Rng.Intn(6); n > 0; n-- {
					p := vh.PickS(r.Rng, paths)
					if r.Rng.Intn(2) == 0 {
						p = vh.PickS(r.Rng, benignImports)
					}
					ims = append(ims, imp{p, vh.PickS(r.Rng, forms)})
				}
				j.files = append(j.files, ims)
			}
			jobs = append(jobs, j)
		}
		r.Parallel(len(jobs), func(i int, rng *rand.Rand) {
			var files []vh.Src
			key := ""
			for k, ims := range jobs[i].files {
				files = append(files, mk(rng, fmt.Sprintf("f%d.go", k), ims, i%2 == 0))
				for _, im := range ims {
					key += im.path + ":" + im.form + ","
				}
				key += ";"
			}
			r.Eval("imports", key, len(vh.Expected(files, only)) > 0)
			if i%501 == 7 {
				r.Sample(files[0].Text)
			}
			markCheck(r, "imports", "imports/"+key, files, only, vh.Opts{NoAnalyzers: true})
		})
		r.Need("findings observed", 300)
	}
}
