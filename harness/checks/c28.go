package checks

import (
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"os"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/securego/gosec/v2/autofix"
	"github.com/securego/gosec/v2/issue"

	"verif/harness/vh"
)

// aiServer stands in for the AI service. It answers requests about known
// descriptions, each with its own fault, and records what it did.
type aiServer struct {
	mu       sync.Mutex
	srv      *httptest.Server
	rng      *rand.Rand
	known    []string
	fault    map[string]string
	answers  map[string][]string // given so far, by description
	requests int
	strange  []string
	keys     map[string]bool
	total    int
}

var aiFaults = []string{"400", "403", "500", "404", "garbage", "no candidates", "no content", "no parts", "empty", "hang up", "cut off", "safety", "blocked"}

func newAIServer(rng *rand.Rand, known []string) *aiServer {
	s := &aiServer{rng: rng, known: known, fault: map[string]string{}, answers: map[string][]string{}, keys: map[string]bool{}}
	s.srv = httptest.NewServer(http.HandlerFunc(s.serve))
	return s
}

// about finds the description a prompt asks about.
func (s *aiServer) about(prompt string) (string, bool) {
	best, ok := "", false
	for _, d := range s.known {
		if strings.Contains(prompt, strconv.Quote(d)) && len(d) >= len(best) {
			best, ok = d, true
		}
	}
	if ok {
		return best, true
	}
	for _, d := range s.known {
		if strings.Contains(prompt, d) && len(d) >= len(best) {
			best, ok = d, true
		}
	}
	return best, ok
}

func (s *aiServer) serve(w http.ResponseWriter, q *http.Request) {
	body, _ := io.ReadAll(q.Body)
	var req struct {
		Contents []struct {
			Parts []struct {
				Text string `json:"text"`
			} `json:"parts"`
		} `json:"contents"`
	}
	err := json.Unmarshal(body, &req)
	var prompt strings.Builder
	for _, c := range req.Contents {
		for _, p := range c.Parts {
			prompt.WriteString(p.Text)
		}
	}
	s.mu.Lock()
	s.requests++
	s.total++
	n := s.total
	s.keys[q.Header.Get("X-Goog-Api-Key")] = true
	d, ok := s.about(prompt.String())
	fault := s.fault[d]
	wait := time.Duration(s.rng.Intn(4)) * time.Millisecond
	stream := strings.Contains(q.URL.Path, "stream")
	chunks := 1
	if stream {
		chunks += s.rng.Intn(3)
	}
	if err != nil || !ok {
		s.strange = append(s.strange, firstBytes(string(body), 500))
	}
	s.mu.Unlock()
	time.Sleep(wait)
	if !ok {
		http.Error(w, "unknown", http.StatusBadRequest)
		return
	}
	answer := fmt.Sprintf("## Answer %d\n\nto \"%s\" <b>&\tünï *%d*", n, d, len(d))
	cand := func(x any) any { return map[string]any{"candidates": []any{x}} }
	text := func(t string) any {
		return cand(map[string]any{"content": map[string]any{"role": "model", "parts": []any{map[string]any{"text": t}}}})
	}
	w.Header().Set("Content-Type", "application/json")
	out := []any{}
	switch fault {
	case "":
		rs := []rune(answer)
		for i := 0; i < chunks; i++ {
			out = append(out, text(string(rs[i*len(rs)/chunks:(i+1)*len(rs)/chunks])))
		}
		s.mu.Lock()
		s.answers[d] = append(s.answers[d], answer)
		s.mu.Unlock()
	case "no candidates":
		out = append(out, map[string]any{"candidates": []any{}})
	case "no content":
		out = append(out, cand(map[string]any{"finishReason": "OTHER"}))
	case "no parts":
		out = append(out, cand(map[string]any{"content": map[string]any{"role": "model"}}))
	case "empty":
		out = append(out, text(""))
	case "safety":
		out = append(out, cand(map[string]any{"finishReason": "SAFETY", "content": map[string]any{"parts": []any{map[string]any{"text": answer}}}}))
	case "blocked":
		out = append(out, map[string]any{"promptFeedback": map[string]any{"blockReason": "SAFETY"}})
	case "garbage":
		io.WriteString(w, "<html>oops</html>")
		return
	case "cut off":
		b, _ := json.Marshal(text(answer))
		w.Write(b[:len(b)/2])
		return
	case "slow":
		select {
		case <-time.After(40 * time.Second):
		case <-q.Context().Done():
		}
		return
	case "hang up":
		c, _, err := w.(http.Hijacker).Hijack()
		if err == nil {
			c.Close()
		}
		return
	default:
		code, _ := strconv.Atoi(fault)
		w.WriteHeader(code)
		fmt.Fprintf(w, "{\"error\":{\"code\":%d,\"message\":%q}}", code, answer)
		return
	}
	var b []byte
	if stream {
		b, _ = json.Marshal(out)
	} else {
		b, _ = json.Marshal(out[0])
	}
	w.Write(b)
}

// fixProblem judges the answer a finding got.
func (s *aiServer) fixProblem(what, fix string, must bool) string {
	if fix == "" {
		if must {
			return fmt.Sprintf("no answer for %q", what)
		}
		return ""
	}
	for _, a := range s.answers[what] {
		if a == fix {
			return ""
		}
	}
	for d, as := range s.answers {
		for _, a := range as {
			if a == fix {
				return fmt.Sprintf("the answer about %q for %q", d, what)
			}
		}
	}
	return fmt.Sprintf("an answer nobody gave for %q: %q", what, firstBytes(fix, 200))
}

// descriptions makes different descriptions that are easy to confuse.
func descriptions(rng *rand.Rand, n int) []string {
	base := []string{"Use of weak cryptographic primitive", "Errors unhandled", "Potential hardcoded credentials", "Blocklisted import crypto/md5: weak cryptographic primitive"}
	seen := map[string]bool{}
	var ds []string
	for len(ds) < n {
		d := vh.PickS(rng, base)
		switch rng.Intn(12) {
		case 0:
			d = strings.ToUpper(d)
		case 1:
			d += " "
		case 2:
			d = " " + d
		case 3:
			d += fmt.Sprint(" ", rng.Intn(5))
		case 4:
			d = strings.Repeat(d+" and ", 20) + d
		case 5:
			d = strings.Replace(d, " ", "  ", 1)
		case 6:
			d += "\n" + d
		case 7:
			d = "\"" + d + "\" %q %s \\ ü"
		case 8:
			d = d[:1+rng.Intn(len(d)-1)]
		case 9:
			d += " (confidence, [CWE-327], `x`)"
		case 10:
			d = strings.ToLower(d)
		}
		if !seen[d] {
			seen[d] = true
			ds = append(ds, d)
		}
	}
	return ds
}

func init() {
	All["C28"] = func(r *vh.Run) {
		os.Setenv("GOSECGOVERSION", "1.21")
		r.Rule("lists of findings with repeated, distinct and easily confused descriptions (differing in case, spaces, prefixes; same rule with different descriptions and the other way round), sent to a local stand-in for the AI service that gives every request its own answer after a random delay, or one of 13 faults for some descriptions; every answer found on a finding is traced back to the request it was given for; the same through the command; non-trivial: more than one description")
		r.Assume("a failing request ends the generation: the findings after it may stay without an answer",
			"an answer is the text of the first candidate, (one part)")
		r.Parallel(r.N(220, 4000), func(i int, rng *rand.Rand) {
			ds := descriptions(rng, 1+rng.Intn(8))
			s := newAIServer(rng, ds)
			defer s.srv.Close()
			if rng.Intn(2) == 0 {
				for k := 1 + rng.Intn(2); k > 0; k-- {
					s.fault[vh.PickS(rng, ds)] = vh.PickS(rng, aiFaults)
				}
			}
			tx := plainTexts
			tx.what = func(rng *rand.Rand) string { return vh.PickS(rng, ds) }
			if r.Thorough() && i%200 == 7 {
				s.fault[ds[0]] = "slow"
			}
			is := randIssues(rng, rng.Intn(25), []string{"/src"}, tx)
			provider := "gemini"
			if rng.Intn(20) == 0 {
				provider = vh.Pick(rng, "", "openai", "Gemini", "gemini ")
			}
			before := make([]issue.Issue, len(is))
			failing := false
			for k, x := range is {
				x.Autofix = ""
				before[k] = *x
				if s.fault[x.What] != "" {
					failing = true
					r.Count("fault "+s.fault[x.What], 1)
				}
			}
			what := map[string]any{"findings": len(is), "descriptions": len(ds), "faults": s.fault, "provider": provider}
			src := map[string]string{"case": jsonText(what), "findings": jsonText(is)}
			var err error
			if p := guard(func() { err = autofix.GenerateSolution(provider, "key", s.srv.URL, is) }); p != "" {
				r.Violation("panic", p, src)
				return
			}
			s.mu.Lock()
			defer s.mu.Unlock()
			r.Eval("list", fmt.Sprint(i, what), len(ds) > 1 && len(is) > 1)
			r.Count("findings", int64(len(is)))
			r.Count("requests", int64(s.requests))
			if i%37 == 0 {
				what["requests"] = s.requests
				r.Sample(what)
			}
			for _, x := range s.strange {
				r.Violation("request", "a request about nothing in the list: "+x, src)
			}
			if provider != "gemini" {
				r.Count("unknown provider", 1)
				if err == nil || s.requests > 0 {
					r.Violation("provider", fmt.Sprintf("provider %q: %v, %d requests", provider, err, s.requests), src)
				}
				failing = true
			} else if (err != nil) != failing {
				r.Violation("error", fmt.Sprintf("the error is %v with faults %v", err, s.fault), src)
				return
			}
			for k, x := range is {
				if p := s.fixProblem(x.What, x.Autofix, !failing); p != "" {
					r.Violation("answer", fmt.Sprintf("finding %d of %d has %s", k, len(is), p), src)
				}
				if x.Autofix != "" {
					r.Count("answers", 1)
				}
				now := *x
				now.Autofix = ""
				if !reflect.DeepEqual(now, before[k]) {
					r.Violation("altered", fmt.Sprintf("finding %d was %+v and is %+v", k, before[k], now), src)
				}
			}
		})
		// the command
		r.Parallel(r.N(16, 100), func(i int, rng *rand.Rand) {
			p := newProjectOf(r, rng, 1+rng.Intn(2), false, true)
			args := []string{"-fmt=json", "-no-fail"}
			if rng.Intn(3) == 0 {
				args = append(args, "-track-suppressions")
			}
			if rng.Intn(3) == 0 {
				args = append(args, "-show-ignored")
			}
			if rng.Intn(3) == 0 {
				args = append(args, "-severity="+vh.PickS(rng, levels))
			}
			plain := runCLI(r, p.dir, append(args, p.pkgs...)...)
			rep := plain.json(r)
			var ds []string
			for _, x := range rep.Issues {
				ds = append(ds, x.Details)
			}
			s := newAIServer(rng, ds)
			defer s.srv.Close()
			failing := false
			if len(ds) > 0 && i%2 == 0 {
				s.fault[vh.PickS(rng, ds)] = vh.PickS(rng, aiFaults)
				failing = true
			}
			ai := append([]string{"-ai-api-provider=gemini", "-ai-endpoint=" + s.srv.URL}, args...)
			var envs []string
			if rng.Intn(2) == 0 {
				ai = append(ai, "-ai-api-key=k1")
			} else {
				envs = append(envs, "GOSEC_AI_API_KEY=k1")
			}
			o := runCLIEnv(r, r.CLI, p.dir, envs, append(ai, p.pkgs...)...)
			s.mu.Lock()
			defer s.mu.Unlock()
			src := map[string]string{"args": strings.Join(ai, " "), "stdout": o.stdout, "stderr": o.stderr, "without": plain.stdout, "faults": jsonText(s.fault)}
			r.Eval("command", fmt.Sprint(i, ai), len(ds) > 0)
			if o.code != 0 || o.timeout {
				r.Violation("command/status", fmt.Sprintf("gosec %v: exit %d\n%s", ai, o.code, firstBytes(o.stderr, 600)), src)
				return
			}
			var a, b []string
			for _, x := range rep.Issues {
				a = append(a, x.essence()+x.Code)
			}
			for _, x := range o.json(r).Issues {
				b = append(b, x.essence()+x.Code)
				if p := s.fixProblem(x.Details, x.Autofix, !failing); p != "" {
					r.Violation("command/answer", p, src)
				}
				if x.Autofix != "" {
					r.Count("answers", 1)
				}
			}
			sort.Strings(a)
			sort.Strings(b)
			if m, e := vh.Diff(a, b); len(m)+len(e) > 0 {
				r.Violation("command/altered", fmt.Sprintf("missing %v\nextra %v", m, e), src)
			}
			if failing {
				r.Count("command with fault", 1)
				was := map[string]bool{}
				for _, l := range strings.Split(stripTimes(plain.stderr), "\n") {
					was[l] = true
				}
				told := false
				for _, l := range strings.Split(stripTimes(o.stderr), "\n") {
					told = told || !was[l]
				}
				if !told {
					r.Violation("command/error", fmt.Sprintf("nothing tells of the fault %v", s.fault), src)
				}
			}
			for _, x := range s.strange {
				r.Violation("command/request", "a request about no finding: "+x, src)
			}
		})
		r.Need("answers", 500)
		r.Need("requests", 300)
		for _, f := range aiFaults {
			r.Need("fault "+f, 1)
		}
	}
}
