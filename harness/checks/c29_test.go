package checks

import (
	"bytes"
	"fmt"
	"html/template"
	"math/rand/v2"
	"os"
	"os/exec"
	"strings"
	"sync"
	"testing"
	"time"

	"verifharness/rep"
	"verifharness/srv"
)

func TestC29(t *testing.T) {
	r := rep.New("C29", "A case is one error page or download page of the real server, compared with the rendering of the template file that was there at startup (computed by the harness with html/template), under concurrent requests of all error kinds; or one start with templates missing, present, customised, edited or deleted while running, or with writes that fail or a kill while templates are created (file size limits, kills at random moments), after which the files and the pages of the next start are judged. Distinct = (template shapes, place of error, status, fault).")
	r.Watchdog(120*time.Second, true)
	for s := 0; s < r.N(40, 140) && !r.Stop(); s++ {
		r.Phase(fmt.Sprint("server ", s))
		c29Server(r, r.Rng(fmt.Sprint("srv", s)), s)
	}
	r.Phase("failing writes")
	c29Faults(r, r.Rng("faults"))
	r.Finish()
}

const c29Mark = "\x01MARK\x01"

// c29Pieces renders a template with a marker as content and cuts it there.
func c29Pieces(name, tpl string) ([]string, error) {
	t, err := template.New(name).Parse(tpl)
	if err != nil {
		return nil, err
	}
	var b bytes.Buffer
	err = t.Execute(&b, struct{ HTTPError, DownloadTable template.HTML }{c29Mark, c29Mark})
	return strings.Split(b.String(), c29Mark), err
}

// c29Match returns the content of a page rendered from a template.
func c29Match(page string, pieces []string) (string, bool) {
	if len(pieces) < 2 {
		return "", page == strings.Join(pieces, "")
	}
	n := len(pieces) - 1
	rest := len(page)
	for _, p := range pieces {
		rest -= len(p)
	}
	if rest < 0 || rest%n != 0 {
		return "", false
	}
	l := rest / n
	if len(page) < len(pieces[0])+l {
		return "", false
	}
	c := page[len(pieces[0]) : len(pieces[0])+l]
	return c, strings.Join(pieces, c) == page
}

func c29Tpl(g *rand.Rand, field string, k int) string {
	f := "{{." + field + "}}"
	if chance(g, .15) { // hardly a template, but the user's
		return pick(g, []string{"", "\n", " ", "\r\n\r\n", "{{/* nothing */}}", "x", f, "\ufeff", "{{if false}}{{end}}"})
	}
	fill := func() string {
		return pick(g, []string{"", "plain text ", "<p>para</p>", "<!-- gone -->", "ünï日本", "{{/* comment */}}", "&amp;<br>", "\r\n\t", "{{if ." + field + "}}yes{{else}}no{{end}}", "{{with $x := 3}}{{$x}}{{end}}", "{{printf \"%d\" 42}}", strings.Repeat("<i>x</i>", g.IntN(30000)), "<title>t</title>", "[", "{{`{{`}}", "{{- \" trimmed \" -}}", "\ufeff"})
	}
	t := fmt.Sprintf("TPL%d-%d ", k, g.IntN(1000000))
	if chance(g, .5) {
		t = "<!doctype html>" + t
	}
	t += fill() + fill() + f + fill()
	if chance(g, .3) {
		t += f + fill()
	}
	if chance(g, .3) { // many parts
		for i := pick(g, []int{3, 12, 200}); i > 0; i-- {
			t += pick(g, []string{"{{if true}}a{{end}} ", "{{/* x */}}", "{{range $i, $e := .}}{{end}}", "{{1}}", "<p>{{\"q\"}}</p>", "{{len \"abc\"}} "})
		}
		t = strings.ReplaceAll(t, "{{range $i, $e := .}}{{end}}", "{{template \"x\" .}}") + "{{define \"x\"}}sub {{end}}"
		t += f + fill()
	}
	if chance(g, .1) {
		t = "no content at all " + fill()
	}
	if chance(g, .35) { // composed of several templates
		n := pick(g, []int{1, 2, 3, 5, 40})
		for i := 0; i < n; i++ {
			name := fmt.Sprint(pick(g, []string{"part", "content", "base.html", "HTTPError ", "layouts/x", "é", "index.html"}), i)
			t = fmt.Sprintf("{{define %q}}%s{{end}}", name, pick(g, []string{"", "sub ", "<p>" + name + "</p>", "{{1}}", "{{." + field + "}}", "{{template \"deep\"}}"})) + pick(g, []string{"", "\n"}) + t
			if chance(g, .7) {
				t += fmt.Sprintf("{{template %q .}}", name)
			}
		}
		t += pick(g, []string{"", "{{block \"tail\" .}}tail{{end}}"}) + "{{define \"deep\"}}deep{{end}}"
	}
	return t
}

func c29Server(r *rep.R, g *rand.Rand, s int) {
	useTLS := s%4 == 1
	one := ""
	if s%5 == 4 {
		one = pick(g, []string{"serve", "download", "fw"})
	}
	tpls := map[string]string{} // file -> content at startup
	var dir string
	w := newWorld(r, g, "c29", useTLS, one, func(w *world, main M, vh map[string]M) {
		dir = w.dir
		for i, n := range []string{"error", "download"} {
			if (s>>i)&1 == 0 || s >= 4 && chance(g, .6) {
				field := map[string]string{"error": "HTTPError", "download": "DownloadTable"}[n]
				tpls[n] = c29Tpl(g, field, s)
				f := put(w.dir, "files/templates/"+n+".html", tpls[n])
				os.Chtimes(f, time.Unix(1e9, 0), time.Unix(1e9, 0))
				if chance(g, .3) {
					os.Chmod(f, 0o444)
				}
			}
		}
		main["Errors"] = M{}
		for _, v := range vh {
			v["Errors"] = M{}
		}
	})
	if w == nil {
		return
	}
	file := func(n string) string { return dir + "/files/templates/" + n + ".html" }
	check := func(when string) {
		for n, want := range tpls {
			if got := srv.ReadFileString(file(n)); got != want {
				r.Violate("overwritten", M{"template": n, "when": when, "was": clip(want), "is": clip(got)}, "the %s template was changed (%s)", n, when)
			}
		}
	}
	check("after the start")
	custom := map[string]bool{}
	for _, n := range []string{"error", "download"} {
		if _, ok := tpls[n]; ok {
			custom[n] = true
			if fi, err := os.Stat(file(n)); err == nil && fi.ModTime().Unix() != 1e9 {
				r.Violate("rewritten", M{"template": n}, "the %s template was written again", n)
			}
			continue
		}
		tpls[n] = srv.ReadFileString(file(n))
		if p, err := c29Pieces(n, tpls[n]); err != nil || len(p) < 2 {
			r.Violate("not-created", M{"template": n, "is": clip(tpls[n])}, "the missing %s template was not created with a place for the content", n)
			w.close()
			return
		}
	}
	c29Pages(r, g, w, tpls, s, 10)
	// edits while running are not picked up, and not lost
	old := map[string]string{"error": tpls["error"], "download": tpls["download"]}
	for n := range old {
		switch g.IntN(4) {
		case 0:
			os.Remove(file(n))
			delete(tpls, n)
		case 1, 2:
			tpls[n] = c29Tpl(g, map[string]string{"error": "HTTPError", "download": "DownloadTable"}[n], s+1000)
			os.Remove(file(n))
			put(dir, "files/templates/"+n+".html", tpls[n])
		}
	}
	c29Pages(r, g, w, old, s, 3)
	check("while running")
	if !checkAlive(r, w.p, nil) {
		return
	}
	checkPanics(r, w.p, "panic")
	stop(w.p)
	check("after the stop")
	// second start, same configuration
	cfg := dir + "/main.cfg"
	p, err := srv.Launch(srv.Opt{Dir: dir, Config: cfg, Port: w.p.Port, TLS: w.tls})
	for try := 0; err != nil && p != nil && try < 10 && strings.Contains(p.Out.String(), "address already in use"); try++ {
		time.Sleep(200 * time.Millisecond)
		p, err = srv.Launch(srv.Opt{Dir: dir, Config: cfg, Port: w.p.Port, TLS: w.tls})
	}
	if err != nil {
		if p != nil && !strings.Contains(p.Out.String(), "address already in use") {
			r.Violate("no-second-start", M{"templates": tpls}, "the second start fails: %v", err)
		}
	} else {
		w.p = p
		check("after the second start")
		for _, n := range []string{"error", "download"} {
			if _, ok := tpls[n]; !ok {
				tpls[n] = srv.ReadFileString(file(n))
				if p, err := c29Pieces(n, tpls[n]); err != nil || len(p) < 2 {
					r.Violate("not-created", M{"template": n, "is": clip(tpls[n])}, "the deleted %s template was not created again", n)
				}
			}
		}
		c29Pages(r, g, w, tpls, s, 3)
		r.Count("second_starts", 1)
	}
	w.close()
	check("at the end")
}

// c29Pages requests pages of all kinds at once.
func c29Pages(r *rep.R, g *rand.Rand, w *world, tpls map[string]string, s, n int) {
	pieces := map[string][]string{}
	for k, v := range tpls {
		p, err := c29Pieces(k, v)
		if err != nil {
			panic(err)
		}
		pieces[k] = p
	}
	var wg sync.WaitGroup
	for k := 0; k < 8; k++ {
		gg := r.Rng(fmt.Sprint("pages", s, k, n))
		wg.Add(1)
		go func() {
			defer wg.Done()
			c := client(w.p, "")
			defer c.Close()
			for i := 0; i < n*r.N(4, 12) && !r.Stop(); i++ {
				host := pick(gg, append([]string{"unknown.test"}, w.order...))
				m, target := pick(gg, []string{"GET", "GET", "GET", "PUT", "BREW"}), pick(gg, []string{"/", "/none", "/secret/s.txt", "/metrics", "/f.bin", "/%3Cscript%3E"})
				var h [][2]string
				if chance(gg, .1) {
					h = append(h, [2]string{"Content-Type", "x/y"})
				}
				resp, err := c.Do(srv.Req(m, target, host, h, nil), m)
				if err != nil {
					r.Violate("no-answer", M{"request": m + " " + host + target}, "%v", err)
					return
				}
				st := w.site(host)
				name := ""
				switch {
				case resp.Status >= 400:
					name = "error"
				case resp.Status == 200 && st != nil && st.kind == "download" && target == "/" && m == "GET":
					name = "download"
				default:
					r.Count("other_answers", 1)
					continue
				}
				if st != nil && name == "error" && st.kind == "proxy" && resp.Header.Get("X-Up") != "" {
					continue
				}
				wit := M{"request": m + " " + host + target, "status": resp.Status, "template": clip(tpls[name]), "page": clip(string(resp.Body))}
				content, ok := c29Match(string(resp.Body), pieces[name])
				if !ok || resp.BodyErr != nil {
					r.Violate("not-rendered-"+name, wit, "the %s page is not the rendering of the template that was there at startup", name)
					continue
				}
				want := fmt.Sprint(resp.Status)
				if name == "download" {
					want = "f.bin"
				}
				if len(pieces[name]) > 1 && (!strings.Contains(content, want) || strings.Contains(content, "script>")) {
					r.Violate("content-"+name, srv.Merge(wit, M{"content": content}), "the content of the %s page does not hold %s", name, want)
				}
				if !strings.HasPrefix(resp.Header.Get("Content-Type"), "text/html") {
					r.Violate("type-"+name, wit, "the %s page is sent as %q", name, resp.Header.Get("Content-Type"))
				}
				r.Eval(fmt.Sprint(s, name, resp.Status, host, m, target))
				r.Count("pages_"+name, 1)
				if r.WantSample() {
					r.Sample(wit)
				}
			}
		}()
	}
	wg.Wait()
}

// c29Faults lets the creation of templates fail half way.
func c29Faults(r *rep.R, g *rand.Rand) {
	prl, err := exec.LookPath("prlimit")
	if err != nil {
		r.Note("prlimit not found: failing writes not exercised")
	}
	check := func(dir string, what string, wit M) {
		// with all faults gone the server must come up with templates that work
		p := launch(r, g, dir, M{"Core": core(dir, M{"LogOut": "stdout"}), "Guard": noLimit(), "Serve": M{"ServeDir": dir + "/www", "ServeIndex": "index.html", "Download": M{"Enabled": true, "Exts": []string{".bin"}}}}, nil, srv.Opt{})
		if p == nil {
			return
		}
		defer p.Kill()
		c := client(p, "")
		defer c.Close()
		for _, q := range [][2]string{{"/none", "404"}, {"/", "f.bin"}} {
			resp, err := c.Get(q[0], "x")
			if err != nil {
				r.Violate("fault-no-answer", wit, "%s: then no answer: %v", what, err)
				continue
			}
			if !strings.Contains(string(resp.Body), q[1]) || !strings.Contains(string(resp.Body), "</html>") {
				wit["page"] = tailS(string(resp.Body), 300)
				r.Violate("fault-page", wit, "%s: then pages lack their content or their end", what)
			}
			r.Eval(what + q[0])
		}
		r.Count("starts_after_fault", 1)
	}
	mk := func() (string, M) {
		dir := rep.Scratch("c29f")
		put(dir, "www/f.bin", "x")
		os.MkdirAll(dir+"/files", 0o755)
		return dir, M{"Core": core(dir, M{"LogOut": "stdout", "Port": fmt.Sprint(srv.FreePort())}), "Guard": noLimit(), "Serve": M{"ServeDir": dir + "/www", "ServeIndex": "index.html", "Download": M{"Enabled": true, "Exts": []string{".bin"}}}}
	}
	if err == nil {
		limits := []int{0, 1, 30, 100, 1000, 3000}
		for i := 0; i < r.N(6, 60); i++ {
			limits = append(limits, g.IntN(5000))
		}
		for _, lim := range limits {
			if r.Stop() {
				return
			}
			dir, cfg := mk()
			have := chance(g, .3)
			if have {
				put(dir, "files/templates/error.html", "OWN {{.HTTPError}}</html>")
			}
			f := srv.WriteConfig(dir+"/a.cfg", cfg, false, nil)
			p, err := srv.Launch(srv.Opt{Dir: dir, Config: f, Port: 1, NoWait: true, Wrap: []string{prl, fmt.Sprintf("--fsize=%d", lim), "--"}})
			if err != nil {
				r.Inconclusive("%v", err)
				return
			}
			for t0 := time.Now(); !p.WaitExit(5*time.Millisecond) && !strings.Contains(p.Out.String(), "listening") && time.Since(t0) < 60*time.Second; {
			}
			p.Kill()
			if have && srv.ReadFileString(dir+"/files/templates/error.html") != "OWN {{.HTTPError}}</html>" {
				r.Violate("fault-overwritten", M{"limit": lim}, "the existing template was changed")
			}
			check(dir, fmt.Sprint("templates created with a file size limit of ", lim), M{"limit": lim})
			r.Count("failing_writes", 1)
		}
	}
	for i := 0; i < r.N(25, 300) && !r.Stop(); i++ {
		dir, cfg := mk()
		f := srv.WriteConfig(dir+"/a.cfg", cfg, false, nil)
		p, err := srv.Launch(srv.Opt{Dir: dir, Config: f, Port: 1, NoWait: true})
		if err != nil {
			r.Inconclusive("%v", err)
			return
		}
		// kill around the moment the templates appear
		if i%2 == 0 {
			for t0 := time.Now(); time.Since(t0) < 10*time.Second; {
				if _, err := os.Stat(dir + "/files/templates" + pick(g, []string{"", "/error.html", "/download.html"})); err == nil {
					break
				}
			}
		} else {
			time.Sleep(time.Duration(g.IntN(8000)) * time.Microsecond)
		}
		p.Kill()
		check(dir, "killed at startup", M{"kill": i})
		r.Count("kills", 1)
	}
}
