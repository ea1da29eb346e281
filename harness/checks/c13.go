package checks

import (
	"fmt"
	"os"
	"strings"

	"verif/harness/vh"
)

func c13Snippets() (pos, neg []snippet) {
	add := func(bad bool, rule, name, decls, stmts string) {
		if bad {
			if !strings.Contains(stmts+decls, "%M") {
				stmts += "%M"
			}
			m := " //~ " + rule
			pos = append(pos, snippet{rule + " " + name, strings.ReplaceAll(decls, "%M", m), strings.ReplaceAll(stmts, "%M", m)})
		} else {
			neg = append(neg, snippet{"not " + rule + " " + name, strings.ReplaceAll(decls, "%M", ""), strings.ReplaceAll(stmts, "%M", "")})
		}
	}
	// G102
	for i, a := range []struct {
		addr string
		bad  bool
	}{{"0.0.0.0:80", true}, {":80", true}, {":http", true}, {"0.0.0.0", true}, {":", true}, {"127.0.0.1:80", false}, {"localhost:80", false}, {"[::1]:80", false}, {"10.0.0.0:1", false}, {"192.168.0.1:0", false}, {"host:0", false}, {"", false}} {
		n := fmt.Sprint(i)
		q := fmt.Sprintf("%q", a.addr)
		raw := "`" + a.addr + "`"
		add(a.bad, "G102", "literal"+n, "", "l@, err@ := $net.Listen(\"tcp\", "+q+")%M\nuse(l@, err@)")
		add(a.bad, "G102", "raw"+n, "", "if l, err := $net.Listen(`tcp4`, "+raw+"); err == nil {%M\n\tuse(l)\n}")
		add(a.bad, "G102", "tls"+n, "", "l@, err@ := $tls.Listen(\"tcp\", "+q+", nil)%M\nuse(l@, err@)")
		add(a.bad, "G102", "variable"+n, "", "a@ := "+raw+"\nl@, err@ := $net.Listen(\"tcp\", a@)%M\nuse(l@, err@)")
		add(a.bad, "G102", "var"+n, "", "var a@ = "+q+"\nuse($net.Listen(\"tcp\", a@))")
		add(a.bad, "G102", "second"+n, "", "n@, a@ := `tcp`, "+q+"\nl@, err@ := $net.Listen(n@, a@)%M\nuse(l@, err@)")
		add(a.bad, "G102", "secondvar"+n, "", "var n@, a@, b@ = `tcp`, "+raw+", `b`\nuse($net.Listen(n@, a@))%M\nuse(b@)")
		add(a.bad, "G102", "const"+n, "const ca@ = "+q, "use($net.Listen(\"tcp\", ca@))")
		add(a.bad, "G102", "packagevar"+n, "var va@ string = "+q, "use($tls.Listen(\"tcp\", va@, nil))")
		add(a.bad, "G102", "parsed"+n, "func parse@(s string) (string, string) { return s, s }", "use($net.Listen(parse@("+q+")))")
		add(a.bad, "G102", "parsedvar"+n, "func parse@(s string) (string, string) { return s, s }", "a@ := "+q+"\nuse($net.Listen(parse@(a@)))")
		add(false, "G102", "other"+n, "type lis@ struct{}\n\nfunc (lis@) Listen(a, b string) int { return 0 }", "use($net.Dial(`tcp`, "+q+"))\n{\n\tvar net lis@\n\tuse(net.Listen(`tcp`, "+q+"))\n}")
	}
	add(false, "G102", "computed", "func addr@() string { return `` }", "use($net.Listen(`tcp`, addr@()))")
	// G109
	for _, src := range []struct {
		pre string
		bad bool
	}{{"v@, err@ := $strconv.Atoi(`1`)\nuse(err@)", true}, {"v@, _ := $strconv.Atoi(`1`)", true}, {"var v@ int\nvar err@ error\nv@, err@ = $strconv.Atoi(`1`)\nuse(err@)", true}, {"v@ := 1", false}, {"v@, _ := two@()", false}, {"v@ := num()", false}, {"x@, v@ := func() (int, int) { return 1, 2 }()\nuse(x@)", false}} {
		decls := "func two@() (int, error) { return 0, nil }"
		for _, t := range []string{"int16", "int32", "int64", "int", "uint64", "float64"} {
			narrow := t == "int16" || t == "int32"
			add(src.bad && narrow, "G109", t, decls, src.pre+"\nw@ := "+t+"(v@)%M\nuse(w@)")
			add(src.bad && narrow, "G109", t+" nested", decls, src.pre+"\nif cond() {\n\tuse(func() bool { return "+t+"(v@) < 1 }())%M\n}")
		}
	}
	add(false, "G109", "inner", "", "v@ := 10\nif v@ == 10 {\n\tv@, _ := $strconv.Atoi(`1`)\n\tuse(v@)\n}\nuse(int32(v@))")
	add(true, "G109", "shadow", "", "v@, _ := $strconv.Atoi(`1`)\n{\n\tv@ := 3\n\tuse(int32(v@))\n}\nuse(int16(v@))%M")
	add(false, "G109", "parse", "", "v@, _ := $strconv.ParseInt(`1`, 10, 16)\nuse(int64(v@))")
	// G110
	for i, rd := range []struct {
		call string
		two  bool
		bad  bool
	}{{"$gzip.NewReader(src@)", true, true}, {"$zlib.NewReader(src@)", true, true}, {"$zlib.NewReaderDict(src@, nil)", true, true}, {"$bzip2.NewReader(src@)", false, true}, {"$flate.NewReader(src@)", false, true}, {"$flate.NewReaderDict(src@, nil)", false, true},
		{"$lzw.NewReader(src@, $lzw.LSB, 8)", false, true}, {"$tar.NewReader(src@)", false, true}, {"zf@.Open()", true, true}, {"zr@.File[0].Open()", true, true}, {"zfs@[1].Open()", true, true}, {"(zf@).Open()", true, true}, {"zr@.Open(`x`)", true, false}, {"$os.Open(`x`)", true, false}, {"$bufio.NewReader(src@)", false, false}, {"$strings.NewReader(``)", false, false}, {"$io.LimitReader(src@, 5)", false, false}} {
		n := fmt.Sprint(i)
		pre := "var src@ $io.Reader\nvar dst@ $io.Writer\nvar zf@ *$zip.File\nvar zr@ *$zip.Reader\nvar zfs@ []*$zip.File\nbuf@ := make([]byte, 1)\nuse(src@, dst@, zf@, zr@, zfs@, buf@)\n"
		as := "r@ := " + rd.call
		if rd.two {
			as = "r@, err@ := " + rd.call + "\nuse(err@)"
		}
		before := "var r@ $io.Reader\nr@ = " + rd.call
		if rd.two {
			before = "var r@ $io.Reader\nvar err@ error\nr@, err@ = " + rd.call + "\nuse(err@)"
		}
		add(rd.bad, "G110", "before"+n, "", pre+before+"\nk@, e@ := $io.Copy(dst@, r@)%M\nuse(k@, e@)")
		add(rd.bad, "G110", "closure"+n, "", pre+before+"\nuse(func() {\n\t_, _ = $io.Copy(dst@, r@)%M\n})")
		add(rd.bad, "G110", "copy"+n, "", pre+as+"\nk@, e@ := $io.Copy(dst@, r@)%M\nuse(k@, e@)")
		add(rd.bad, "G110", "copybuffer"+n, "", pre+as+"\n_, _ = $io.CopyBuffer(dst@, r@, buf@)%M")
		add(rd.bad, "G110", "if"+n, "", pre+as+"\nif _, e := $io.Copy($os.Stdout, r@); e != nil {%M\n\tuse(e)\n}\ndefer use(r@)")
		add(false, "G110", "copyn"+n, "", pre+as+"\n_, _ = $io.CopyN(dst@, r@, 100)\nuse($io.LimitReader(r@, 5))")
		add(false, "G110", "limit"+n, "", pre+as+"\n_, _ = $io.Copy(dst@, $io.LimitReader(r@, 100))")
		if !rd.two {
			add(rd.bad, "G110", "second"+n, "", pre+"o@, r@ := $strings.NewReader(``), "+rd.call+"\nuse(o@)\n_, _ = $io.Copy(dst@, o@)\n_, _ = $io.Copy(dst@, r@)%M")
		}
	}
	add(false, "G110", "shadow", "", "r@, _ := $gzip.NewReader(nil)\nuse(r@)\n{\n\tr@ := $strings.NewReader(``)\n\t_, _ = $io.Copy($os.Stdout, r@)\n}")
	// G111
	for i, p := range []struct {
		lit string
		bad bool
	}{{`"/"`, true}, {"`/`", true}, {`"\x2f"`, true}, {`"/srv"`, false}, {`"."`, false}, {`"//"`, false}, {"`./`", false}, {`""`, false}} {
		n := fmt.Sprint(i)
		add(p.bad, "G111", "fileserver"+n, "", "use($http.FileServer($http.Dir("+p.lit+")))")
		add(p.bad, "G111", "handle"+n, "", "$http.Handle(`/a/`, $http.StripPrefix(`/a`, $http.FileServer($http.Dir("+p.lit+"))))")
		add(p.bad, "G111", "variable"+n, "", "d@ := $http.Dir("+p.lit+")%M\nuse(d@)")
		add(false, "G111", "other"+n, "", "use($filepath.Dir("+p.lit+"), $path.Dir("+p.lit+"), $os.DirFS("+p.lit+"))")
	}
	// G112
	for i, s := range []struct {
		f   string
		bad bool
	}{{"", true}, {"Addr: `:1`, Handler: nil, MaxHeaderBytes: 1, WriteTimeout: 5, IdleTimeout: 5, TLSConfig: nil", true}, {"Addr: `:1`, Handler: nil, MaxHeaderBytes: 1, WriteTimeout: 5, IdleTimeout: 5, TLSConfig: nil, ReadTimeout: 1", false}, {"\n\t// served\n\tHandler: nil,\n\tIdleTimeout: 1, ReadHeaderTimeout: 1,\n", false}, {"Addr: `:1`", true}, {"WriteTimeout: 5, IdleTimeout: 5", true}, {"ReadTimeout: 5", false}, {"ReadHeaderTimeout: 5", false}, {"Addr: `:1`, ReadHeaderTimeout: 3 * $time.Second, WriteTimeout: 1", false}, {"Handler: nil, MaxHeaderBytes: 1, ReadTimeout: $time.Duration(num())", false}, {"ErrorLog: nil, Addr: `ReadTimeout`", true}} {
		n := fmt.Sprint(i)
		add(s.bad, "G112", "pointer"+n, "", "s@ := &$http.Server{"+s.f+"}%M\nuse(s@)")
		add(s.bad, "G112", "value"+n, "", "var s@ = $http.Server{"+s.f+"}%M\nuse(&s@)")
		add(s.bad, "G112", "chained"+n, "", "if e := (&$http.Server{"+s.f+"}).ListenAndServe(); e != nil {%M\n\tuse(e)\n}")
		add(s.bad, "G112", "package"+n, "var srv@ = $http.Server{"+s.f+"}%M", "use(&srv@)")
		add(s.bad, "G112", "field"+n, "type app@ struct{ s *$http.Server }", "use(app@{s: &$http.Server{"+s.f+"}})")
		add(s.bad, "G112", "elided"+n, "", "use([]*$http.Server{{"+s.f+"}})")
		add(s.bad, "G112", "elidedmap"+n, "", "use(map[string]$http.Server{`a`: {"+s.f+"}})")
		add(s.bad, "G112", "alias"+n, "type srvAlias@ = $http.Server", "use(&srvAlias@{"+s.f+"})")
	}
	add(false, "G112", "own type", "type Server@ struct{ Addr string }", "use(&Server@{Addr: `x`}, $http.Client{}, &$http.Cookie{})")
	// G303
	for i, p := range []struct {
		x   string
		bad bool
	}{{`"/tmp/x"`, true}, {"`/tmp/x`", true}, {`"/tmp"`, true}, {`"/var/tmp/a/b"`, true}, {`"/usr/tmp/y"`, true}, {`"/tmp/"`, true}, {`"/tmpx/y"`, false}, {`"/home/tmp/x"`, false}, {`"tmp/x"`, false}, {`"/var/lib/tmp"`, false}, {`"a\n/tmp/x"`, false}, {`"/tmp\n/x"`, false}, {`"/srv/\n/tmp"`, false}, {"$filepath.Join(`/tmp/x`)", true}, {"$path.Join($os.TempDir())", true}, {"$path.Join(name@)", false}, {"$filepath.Join()", false}, {`"/var/tmpfile"`, false}, {`"./tmp/a"`, false},
		{`"/tmp/" + name@`, true}, {`"/var/" + "tmp/x"`, false}, {`"/tmp/" + name@ + "/x"`, true}, {"$os.TempDir() + `/x`", true}, {"$os.TempDir()", true}, {"$path.Join(`/tmp`, `x`)", true}, {"$filepath.Join(\"/var/tmp\", name@)", true}, {"$filepath.Join($os.TempDir(), `x`)", true},
		{"$path.Join($os.TempDir() + `/a`, `x`)", true}, {"$filepath.Join($path.Join(`/tmp`, `a`), `b`)", true}, {"$filepath.Join(`/srv`, `/tmp`)", false}, {"name@ + `/tmp/x`", false}, {"$filepath.Join(name@, `tmp`)", false}, {"$filepath.Clean(`/tmp/x`)", false}, {"$filepath.Join($os.Getenv(`HOME`), `x`)", false}} {
		n := fmt.Sprint(i)
		pre := "name@ := `n`\nuse(name@)\n"
		add(p.bad, "G303", "create"+n, "", pre+"f@, e@ := $os.Create("+p.x+")%M\nuse(f@, e@)")
		add(p.bad, "G303", "write"+n, "", pre+"_ = $os.WriteFile("+p.x+", nil, 0o600)%M")
		add(p.bad, "G303", "iowrite"+n, "", pre+"if e := $ioutil.WriteFile("+p.x+", nil, 0o600); e != nil {%M\n\tuse(e)\n}")
		add(false, "G303", "safe"+n, "", pre+"use($os.ReadFile("+p.x+"))\nuse($os.CreateTemp("+p.x+", `a`))\nuse($os.MkdirTemp("+p.x+", `a`))")
	}
	// G305
	for _, jf := range []string{"$filepath.Join", "$path.Join"} {
		for i, p := range []struct {
			pre, x string
			bad    bool
		}{{"", "zf@.Name", true}, {"", "th@.Name", true}, {"", "zf@.Comment", true}, {"m@ := zf@.Name\n", "m@", true}, {"m@ := th@.Name\n", "m@", true}, {"m@, o@ := th@.Name, `x`\nuse(o@)\n", "m@", true}, {"o@, m@ := `x`, zf@.Name\nuse(o@)\n", "m@", true}, {"o@, m@ := zf@.Name, `x`\nuse(o@)\n", "m@", false},
			{"", "own@.Name", false}, {"m@ := own@.Name\n", "m@", false}, {"m@ := `x`\n", "m@", false}, {"", "`lit`", false}, {"", "fi@.Name()", false}, {"", "$filepath.Base(zf@.Name)", false}} {
			pre := "var zf@ *$zip.File\nvar th@ *$tar.Header\nvar own@ struct{ Name string }\nvar fi@ $os.FileInfo\ndst@ := `d`\nuse(zf@, th@, own@, fi@, dst@)\n" + p.pre
			n := fmt.Sprint(i)
			add(p.bad, "G305", "second"+n, "", pre+"j@ := "+jf+"(dst@, "+p.x+")%M\nuse(j@)")
			add(p.bad, "G305", "first"+n, "", pre+"use("+jf+"("+p.x+", `a`))")
			add(p.bad, "G305", "many"+n, "", pre+"use("+jf+"(dst@, `a`, "+p.x+", "+p.x+"))")
			add(p.bad, "G305", "single"+n, "", pre+"if j := "+jf+"("+p.x+"); j != `` {%M\n\tuse(j)\n}")
			add(p.bad, "G305", "nested"+n, "", pre+"use($strings.ToLower("+jf+"(`a`, dst@, `b`, `c`, "+p.x+")))")
			add(false, "G305", "else"+n, "", pre+"use($strings.Join([]string{"+p.x+"}, `,`), dst@+"+p.x+")")
		}
	}
	add(true, "G305", "loop", "", "zr@, _ := $zip.OpenReader(`a.zip`)\nfor _, f := range zr@.File {\n\tuse($filepath.Join(`dst`, f.Name))%M\n}")
	return
}

func c13Range() (pos, neg []snippet) {
	add := func(bad bool, name, stmts string) {
		if bad {
			pos = append(pos, snippet{"G601 " + name, "", strings.ReplaceAll(stmts, "%M", " //~ G601")})
		} else {
			neg = append(neg, snippet{"not G601 " + name, "", strings.ReplaceAll(stmts, "%M", "")})
		}
	}
	types := []struct {
		t   string
		ptr bool
	}{{"[]struct{ a, b int }", false}, {"[]*struct{ a, b int }", true}, {"map[string]struct{ a, b int }", false}, {"[3]struct{ a, b int }", false}, {"map[int]*struct{ a, b int }", true}}
	for i, t := range types {
		n := fmt.Sprint(i)
		for _, k := range []string{"_", "k"} {
			u := ""
			if k == "k" {
				u = "\tuse(k)\n"
			}
			head := "var xs@ " + t.t + "\nfor " + k + ", v@ := range xs@ {\n" + u
			add(true, "argument"+n, head+"\tuse(&v@)%M\n}")
			add(!t.ptr, "field"+n, head+"\tuse(&v@.a)%M\n}")
			add(true, "stored"+n, head+"\tp := &v@%M\n\tuse(p)\n}")
			add(true, "append"+n, head+"\tsink = append(sink, &v@)%M\n}")
			add(true, "closure"+n, head+"\tuse(func() { use(&v@) })%M\n}")
			add(true, "nested"+n, head+"\tfor range xs@ {\n\t\tif cond() {\n\t\t\tuse(&v@)%M\n\t\t}\n\t}\n}")
			add(true, "outer of two"+n, head+"\tfor _, w@ := range []int{1} {\n\t\tuse(w@, &v@)%M\n\t}\n}")
			add(true, "after inner"+n, head+"\tfor _, w@ := range []int{1} {\n\t\tuse(w@)\n\t}\n\tuse(&v@)%M\n}")
			add(true, "both"+n, head+"\tfor _, w@ := range []int{1} {\n\t\tuse(&w@)%M\n\t}\n\tuse(&v@)%M\n}")
			add(false, "copied"+n, head+"\tv@ := v@\n\tuse(&v@)\n}")
			add(false, "local"+n, head+"\tw := v@\n\tuse(&w)\n}")
			add(false, "returned"+n, "use(func() any {\n"+head+"\tuse(v@)\n\tif cond() {\n\t\treturn &v@\n\t}\n}\nreturn nil\n})")
			add(false, "returned two"+n, "use(func() (any, error) {\n"+head+"\tuse(v@)\n\tif cond() {\n\t\treturn &v@, nil\n\t}\n}\nreturn nil, nil\n})")
			add(true, "returned in a call"+n, "use(func() any {\n"+head+"\tuse(v@)\n\tif cond() {\n\t\treturn any(&v@)%M\n\t}\n}\nreturn nil\n})")
			add(false, "by index"+n, "var xs@ = []int{1}\nfor i := range xs@ {\n\tuse(&xs@[i])\n}\nvar o@ int\nuse(&o@)")
		}
	}
	add(false, "classic loop", "for i := 0; i < 3; i++ {\n\tuse(&i)\n}")
	add(false, "other variable of that name", "for _, v@ := range []int{1} {\n\tuse(v@)\n}\n{\n\tv@ := 1\n\tuse(&v@)\n}")
	add(false, "operators", "for _, v@ := range []int{1} {\n\tuse(-v@, ^v@)\n}")
	return
}

func init() {
	All["C13"] = func(r *vh.Run) {
		r.Rule("every documented pattern and safe form of the eight rules, alone, in random contexts and import forms and in random mixes within one scan; G601 with a pre-1.22 and a 1.22 module version; oracle: markers given by the construction; non-trivial: distinct programs")
		rules := []string{"G102", "G109", "G110", "G111", "G112", "G303", "G305"}
		pos, neg := c13Snippets()
		runSnippets(r, pos, neg, vh.Set(rules...), vh.Opts{NoAnalyzers: true, Include: rules}, r.N(4, 30), r.N(2400, 20000), 3, false)
		os.Setenv("GOSECGOVERSION", "go1.21")
		p6, n6 := c13Range()
		runSnippets(r, p6, n6, vh.Set("G601"), vh.Opts{NoAnalyzers: true, Include: []string{"G601"}}, r.N(2, 30), r.N(300, 10000), 3, false)
		// with loop variables of their own nothing is shared
		os.Setenv("GOSECGOVERSION", "go1.22")
		var all []snippet
		for _, s := range append(p6, n6...) {
			all = append(all, snippet{"1.22 " + s.name, s.decls, strings.ReplaceAll(s.stmts, " //~ G601", "")})
		}
		runSnippets(r, nil, all, vh.Set("G601"), vh.Opts{NoAnalyzers: true, Include: []string{"G601"}}, 0, r.N(100, 1000), 2, false)
		os.Unsetenv("GOSECGOVERSION")
		r.Need("findings observed", 3000)
	}
}
