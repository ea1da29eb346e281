package vh

import (
	"fmt"
	"math/rand"
	"regexp"
	"sort"
	"strings"
)

// Short names of importable packages used in snippets as $name.
var short = map[string]string{
	"mrand2": "math/rand/v2", "mrand": "math/rand", "crand": "crypto/rand", "ttemplate": "text/template", "htemplate": "html/template",
	"cgi": "net/http/cgi",
}

func init() {
	for _, l := range Libs {
		if l == "math/rand" || l == "math/rand/v2" || l == "crypto/rand" || strings.HasSuffix(l, "/template") {
			continue
		}
		short[l[strings.LastIndex(l, "/")+1:]] = l
	}
}

// defaultName is the package name of an import path.
func defaultName(path string) string {
	n := path[strings.LastIndex(path, "/")+1:]
	if n == "v2" {
		return "rand"
	}
	return n
}

var shortRe = regexp.MustCompile(`\$([a-z0-9]+)`)

// FileGen builds one source file; $name in snippets is an import.
type FileGen struct {
	Rng     *rand.Rand
	Pkg     string
	decls   []string
	aliases map[string]string // path -> alias used in this file
	extra   []string          // further import lines
	names   map[string]bool
	n       int
	Plain   bool // default import names only
	Raw     bool // no $name expansion
	Twice   bool // packages used several times may be imported under several names
	Real    bool // only packages which the go command knows, too
	second  map[string][]string
	Suffix  string
	head    string
}

// NewFile starts a file.
func NewFile(rng *rand.Rand, pkg, suffix string) *FileGen {
	return &FileGen{Rng: rng, Pkg: pkg, aliases: map[string]string{}, names: map[string]bool{}, Suffix: suffix}
}

// Uniq gives a fresh identifier.
func (f *FileGen) Uniq(p string) string {
	f.n++
	return fmt.Sprintf("%s%s%d", p, f.Suffix, f.n)
}

// Imp gives the name under which the path is imported in this file.
func (f *FileGen) Imp(path string) string {
	first, imported := f.aliases[path]
	if imported {
		if !f.Twice || path == "unsafe" || f.Rng.Intn(2) == 0 {
			return first
		}
		if more := f.second[path]; len(more) == 3 || len(more) > 0 && f.Rng.Intn(3) > 0 {
			return more[f.Rng.Intn(len(more))]
		}
	}
	a := defaultName(path)
	if f.names[a] || (!f.Plain && path != "unsafe" && f.Rng.Intn(3) == 0) {
		cands := []string{"x" + a, a + "x", "lib", "p_" + a, strings.ToUpper(a), "impl", "v2", "ø" + a}
		f.Rng.Shuffle(len(cands), func(i, j int) { cands[i], cands[j] = cands[j], cands[i] })
		for _, c := range append(cands, fmt.Sprintf("i%d", len(f.names))) {
			if !f.names[c] {
				a = c
				break
			}
		}
	}
	f.names[a] = true
	if imported {
		if f.second == nil {
			f.second = map[string][]string{}
		}
		f.second[path] = append(f.second[path], a)
		return a
	}
	f.aliases[path] = a
	return a
}

// Expand replaces $name by the import names of this file.
func (f *FileGen) Expand(s string) string {
	if f.Raw {
		return s
	}
	return shortRe.ReplaceAllStringFunc(s, func(m string) string {
		p, ok := short[m[1:]]
		if !ok {
			panic("unknown package " + m)
		}
		return f.Imp(p)
	})
}

// Head adds text before the package clause.
func (f *FileGen) Head(s string) { f.head += s }

// ImportLine adds a raw import line.
func (f *FileGen) ImportLine(l string) { f.extra = append(f.extra, l) }

// Decl adds a top-level declaration.
func (f *FileGen) Decl(s string) { f.decls = append(f.decls, f.Expand(s)) }

// Text renders the file.
func (f *FileGen) Text() string {
	var sb strings.Builder
	sb.WriteString(f.head)
	fmt.Fprintf(&sb, "package %s\n\n", f.Pkg)
	var lines []string
	var paths []string
	for p := range f.aliases {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	for _, p := range paths {
		a := f.aliases[p]
		if a == defaultName(p) && (f.Plain || f.Rng.Intn(8) > 0) {
			lines = append(lines, fmt.Sprintf("%q", p))
		} else {
			lines = append(lines, fmt.Sprintf("%s %q", a, p))
		}
	}
	var twice []string
	for p, more := range f.second {
		for _, a := range more {
			if a == defaultName(p) {
				twice = append(twice, fmt.Sprintf("%q", p))
			} else {
				twice = append(twice, fmt.Sprintf("%s %q", a, p))
			}
		}
	}
	sort.Strings(twice)
	if f.Twice && !f.Real && len(paths) > 0 && f.Rng.Intn(3) == 0 {
		p := paths[f.Rng.Intn(len(paths))]
		if !f.names[namesakeName(p)] {
			twice = append(twice, fmt.Sprintf("%q", Namesakes+p))
			f.decls = append(f.decls, "var _ = "+namesakeName(p)+".Do")
		}
	}
	lines = append(append(lines, twice...), f.extra...)
	if !f.Plain {
		f.Rng.Shuffle(len(lines), func(i, j int) { lines[i], lines[j] = lines[j], lines[i] })
	}
	if len(lines) > 0 {
		if f.Rng.Intn(4) == 0 && !f.Plain {
			for _, l := range lines {
				fmt.Fprintf(&sb, "import %s\n", l)
			}
		} else {
			sb.WriteString("import (\n")
			for _, l := range lines {
				fmt.Fprintf(&sb, "\t%s\n", l)
			}
			sb.WriteString(")\n")
		}
	}
	for _, d := range f.decls {
		sb.WriteString("\n")
		sb.WriteString(d)
		sb.WriteString("\n")
	}
	return sb.String()
}

func indent(s, p string) string {
	l := strings.Split(s, "\n")
	for i := range l {
		if l[i] != "" {
			l[i] = p + l[i]
		}
	}
	return strings.Join(l, "\n")
}

// Helpers are declarations the contexts rely on (once per package).
const Helpers = `func use(xs ...any) bool { return len(xs) > 0 }

func cond() bool { return use() }

func num() int { return len(sink) }

var sink []any
`

// InnerContexts wrap statements (at %%) within a function body.
var InnerContexts = []string{
	"%%",
	"{\n%%\n}",
	"if cond() {\n%%\n}",
	"if !cond() {\n\tuse(1)\n} else {\n%%\n}",
	"if x := num(); x > 1 {\n\tuse(x)\n} else if x < -1 {\n%%\n}",
	"for i@ := 0; i@ < num(); i@++ {\n%%\n}",
	"for cond() {\n%%\n}",
	"for range sink {\n%%\n}",
	"for k@ := range 3 {\nuse(k@)\n%%\n}",
	"switch num() {\ncase 1:\n\tuse(1)\ncase 2, 3:\n%%\n}",
	"switch {\ncase cond():\n\tuse(1)\ndefault:\n%%\n}",
	"select {\ncase <-make(chan int):\n\tuse(2)\ndefault:\n%%\n}",
	"switch any(num()).(type) {\ncase int:\n%%\ncase string:\n}",
	"go func() {\n%%\n}()",
	"defer func() {\n%%\n}()",
	"func() {\n%%\n}()",
	"f@ := func(a, b int) {\n%%\n}\nf@(1, 2)",
	"use(func() {\n%%\n})",
	"L@:\n\tfor {\n%%\n\t\tbreak L@\n\t}",
	"m@ := map[string]func(){\n\t\"k\": func() {\n%%\n\t},\n}\nuse(m@)",
}

// OuterContexts wrap statements as a top-level declaration.
var OuterContexts = []string{
	"func fn@() {\n%%\n}",
	"func fn@() {\n%%\n}",
	"type ty@ struct{ a int }\n\nfunc (t *ty@) method() {\n%%\n}",
	"type ty@ int\n\nfunc (ty@) method(a, b string) (n int, err error) {\n%%\n\treturn 0, nil\n}",
	"func gen@[T any](x T) {\n\tuse(x)\n%%\n}",
	"var va@ = func() int {\n%%\n\treturn 0\n}()",
	"func init() {\n%%\n}",
	"type gt@[K comparable, V any] map[K]V\n\nfunc (g gt@[K, V]) method(k K) {\n%%\n}",
	"var (\n\tva@ = struct{ f func() }{\n\t\tf: func() {\n%%\n\t\t},\n\t}\n)",
}

// Wrap puts statements into a random context and adds it to the file.
func (f *FileGen) Wrap(stmts string, depth int) {
	s := f.Expand(stmts)
	for d := 0; d < depth; d++ {
		c := InnerContexts[f.Rng.Intn(len(InnerContexts))]
		s = strings.Replace(strings.ReplaceAll(c, "@", f.Uniq("")), "%%", indent(s, "\t"), 1)
	}
	c := OuterContexts[f.Rng.Intn(len(OuterContexts))]
	f.decls = append(f.decls, strings.Replace(strings.ReplaceAll(c, "@", f.Uniq("")), "%%", indent(s, "\t"), 1))
}

// Pick chooses one element.
func Pick[T any](rng *rand.Rand, xs ...T) T { return xs[rng.Intn(len(xs))] }

// PickS chooses one element of a slice.
func PickS[T any](rng *rand.Rand, xs []T) T { return xs[rng.Intn(len(xs))] }
