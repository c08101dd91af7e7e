package checks

import (
	"fmt"
	"math/rand/v2"
	"strings"
	"sync"
	"testing"
	"time"

	"verifharness/model"
	"verifharness/rep"
	"verifharness/srv"
)

var c15Hosts = []string{"a.test", "a.test.evil", "ab.test", "b.a.test", "test", "localhost", "127.0.0.1", "x-1.example.org", "a", "www.a.test", "xn--bcher-kva.test", "UPPER.test", "a_b.test"}

// c15Site is the model of one virtual host.
type c15Site struct {
	host, kind string
	tag        string
	files      map[string]string // "/x" -> content
	methods    map[string]bool
	block      string // firewalled path
	err404     string
	burst      int
	up         *srv.Upstream
}

func TestC15(t *testing.T) {
	r := rep.New("C15", "A case is one request to a server with 8 virtual hosts of all kinds (similar names, equal paths and file names, different content, methods, headers, error pages, firewall, upstreams, budgets; proxy configurations that also name other hosts; two hosts with equal configurations) with the host in any spelling (ports, absolute URI), mixed concurrently over shared and separate connections. Judged: everything in the answer comes from exactly that host's configuration, the request reached only that host's upstream, unknown hosts get 404 and nothing else, and each host admits exactly its own burst. Distinct = (host, kind, path, outcome).")
	r.Watchdog(120*time.Second, true)
	for s := 0; s < r.N(24, 120) && !r.Stop(); s++ {
		r.Phase(fmt.Sprint("server ", s))
		c15Server(r, r.Rng(fmt.Sprint("srv", s)), s)
	}
	r.Finish()
}

func c15Server(r *rep.R, g *rand.Rand, s int) {
	dir := rep.Scratch("c15")
	names := append([]string(nil), c15Hosts...)
	g.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	names = names[:8]
	unknown := append([]string{"unknown.test", "a.tes", ".a.test", "DEFAULT", "sub.localhost"}, c15Hosts[0])
	var sites []*c15Site
	byName := map[string]*c15Site{}
	vh := map[string]M{}
	paths := []string{"/", "/f.txt", "/d/", "/d/g.bin", "/only", "/missing", "/blocked/x.bin"}
	for i, n := range names {
		st := &c15Site{host: n, kind: []string{"serve", "proxy", "download", "serve", "proxy", "serve", "proxy", "download"}[i], tag: fmt.Sprintf("TAG<%d>", i), files: map[string]string{}, methods: map[string]bool{"GET": true}, burst: 3 + g.IntN(6)}
		c := M{"Guard": M{"Rate": 0.0001, "RateBurst": st.burst}}
		if chance(g, .5) {
			st.block = pick(g, []string{"/blocked", "/d", "/f.txt"})
			c["Guard"] = srv.Merge(c["Guard"].(M), M{"Firewall": M{"Enabled": true, "Blacklisting": true, "Rules": M{st.block: []string{"*"}}}})
		}
		if chance(g, .7) {
			st.err404 = "custom 404 " + st.tag
			c["Errors"] = M{"404": put(dir, fmt.Sprintf("err/%d.html", i), st.err404)}
		}
		if st.kind != "download" {
			for _, m := range []string{"HEAD", "POST", "PUT", "OPTIONS"} {
				if chance(g, .5) {
					st.methods[m] = true
				}
			}
		}
		hd := M{"X-Tag": st.tag}
		if st.kind == "proxy" {
			st.up = srv.NewUpstream(st.tag, "")
			defer st.up.Close()
			rules := M{n: "http://" + st.up.Addr}
			// the configuration may name further hosts: they are not this virtual host's
			if chance(g, .6) {
				for _, o := range []string{pick(g, names), "unknown.test"} {
					if o != n {
						rules[o] = "http://" + st.up.Addr
					}
				}
			}
			var ms []string
			for _, m := range []string{"GET", "HEAD", "POST", "PUT", "OPTIONS"} {
				if st.methods[m] {
					ms = append(ms, m)
				}
			}
			c["Proxy"] = M{"Enabled": true, "Rules": rules, "Methods": ms, "Headers": hd}
		} else {
			root := fmt.Sprintf("%s/www%d", dir, i)
			for _, f := range []string{"index.html", "f.txt", "d/index.html", "d/g.bin", "blocked/x.bin"} {
				if f == "index.html" || chance(g, .75) {
					put(root, f, st.tag+f)
					st.files["/"+f] = st.tag + f
				}
			}
			if chance(g, .5) {
				put(root, "only", st.tag+"only")
				st.files["/only"] = st.tag + "only"
			}
			sv := M{"ServeDir": root, "ServeIndex": "index.html", "Headers": hd}
			if st.kind == "download" {
				sv["Download"] = M{"Enabled": true, "Exts": []string{".bin"}}
			} else {
				var ms []string
				for _, m := range []string{"GET", "HEAD", "POST", "PUT", "OPTIONS"} {
					if st.methods[m] {
						ms = append(ms, m)
					}
				}
				sv["Methods"] = M{"/": strings.Join(ms, ";")}
			}
			c["Serve"] = sv
		}
		vh[n] = c
		sites = append(sites, st)
		byName[n] = st
	}
	tls := M{}
	if s%2 == 1 {
		c := srv.MakeCert(dir, "t", false, "localhost")
		tls = M{"TLS": M{"Enabled": true, "TLSCert": c.CertFile, "TLSKey": c.KeyFile}}
	}
	// the main configuration's own site settings must not matter
	main := M{"Core": core(dir, tls), "Guard": M{"Rate": 0.0001, "RateBurst": 1}}
	if chance(g, .5) {
		put(dir, "mainwww/index.html", "TAG<main>")
		put(dir, "mainwww/only", "TAG<main>")
		main["Serve"] = M{"ServeDir": dir + "/mainwww", "ServeIndex": "index.html", "Methods": M{"/": "GET"}, "Headers": M{"X-Tag": "TAG<main>"}}
		main["Errors"] = M{"403": put(dir, "err/main.html", "TAG<main>")}
	}
	p := launch(r, g, dir, main, vh, srv.Opt{})
	if p == nil {
		return
	}
	defer stop(p)
	one := func(g *rand.Rand, f fetch, id string) {
		host := pick(g, names)
		if chance(g, .15) {
			host = pick(g, unknown)
		}
		pt := pick(g, paths)
		method := pick(g, []string{"GET", "GET", "GET", "HEAD", "POST", "PUT", "OPTIONS"})
		c15One(r, g, f, byName, sites, host, pt, method, id)
	}
	f := h1Client(p, "")
	for q := 0; q < 250 && !r.Stop(); q++ {
		one(g, f, fmt.Sprint("s", s, "q", q))
	}
	var wg sync.WaitGroup
	for k := 0; k < 8; k++ {
		gg := rand.New(rand.NewPCG(r.Seed+uint64(s), uint64(k)))
		wg.Add(1)
		go func() {
			defer wg.Done()
			f := h1Client(p, "")
			if p.TLS && k%2 == 0 {
				f = h2Client(p)
			}
			for q := 0; q < 60 && !r.Stop(); q++ {
				one(gg, f, fmt.Sprint("s", s, "k", k, "q", q))
			}
		}()
	}
	wg.Wait()
	// every upstream saw only its own host's requests
	for _, st := range sites {
		if st.up == nil {
			continue
		}
		for _, q := range st.up.Reqs(0) {
			if q.Get("X-For") != st.host {
				r.Violate("wrong-upstream", M{"upstream_of": st.host, "request_for": q.Get("X-For"), "line": q.Line}, "the upstream of %s received a request for %s", st.host, q.Get("X-For"))
			}
		}
	}
	// budgets: one client alternates between all hosts; each admits exactly its burst
	for rd := 0; rd < 3; rd++ {
		ua := fmt.Sprint("burst", s, rd)
		admitted := map[string]int{}
		var mu sync.Mutex
		var wg sync.WaitGroup
		f := h1Client(p, "")
		do := func(f fetch, st *c15Site) {
			pt := "/"
			resp, err := f("GET", pt, st.host, [][2]string{{"User-Agent", ua}, {"X-For", st.host}})
			if err != nil {
				r.Violate("no-answer", M{"host": st.host}, "no answer: %v", err)
				return
			}
			mu.Lock()
			if resp.Status != 429 {
				admitted[st.host]++
			}
			mu.Unlock()
		}
		for k := 0; k < 12; k++ {
			for _, st := range sites {
				if rd == 2 {
					wg.Add(1)
					go func() { defer wg.Done(); do(h1Client(p, ""), st) }()
				} else {
					do(f, st)
				}
			}
		}
		wg.Wait()
		for _, st := range sites {
			want := min(12, st.burst)
			if st.block == "/" {
				want = 12
			}
			r.Eval(fmt.Sprint("burst", st.kind, st.burst, rd == 2))
			if admitted[st.host] != want {
				r.Violate("budget", M{"host": st.host, "burst": st.burst, "admitted": admitted, "concurrent": rd == 2}, "%s admitted %d of 12 requests, its burst is %d", st.host, admitted[st.host], want)
			}
		}
	}
	checkAlive(r, p, nil)
	checkPanics(r, p, "panic")
}

func c15One(r *rep.R, g *rand.Rand, f fetch, byName map[string]*c15Site, sites []*c15Site, host, pt, method, id string) {
	hh := host
	if host != "" && chance(g, .4) {
		hh += pick(g, []string{":80", ":443", ":1", ":65535", ":"})
	}
	target := pt
	st := byName[host]
	want, body := 0, ""
	switch {
	case st == nil:
		want = 404
	case !st.methods[method]:
		want = 405
	case st.block != "" && (pt == st.block || strings.HasPrefix(pt, st.block+"/")):
		want = 403
	case st.kind == "proxy":
		want, body = 200, "up:"+st.tag
	default:
		fp := pt
		if strings.HasSuffix(pt, "/") {
			fp += "index.html"
		}
		ct, ok := st.files[fp]
		switch {
		case st.kind == "download" && pt == "/":
			want, body = 200, "DOWNLOADS"
		case st.kind == "download" && strings.HasSuffix(pt, "/"):
			want = 404
		case ok:
			want, body = 200, ct
		default:
			want = 404
		}
	}
	resp, err := f(method, target, hh, [][2]string{{"User-Agent", id}, {"X-For", host}})
	wit := M{"host": hh, "target": target, "method": method, "expected": want}
	if err != nil {
		if host == "" || strings.HasSuffix(hh, ":") {
			return
		}
		r.Violate("no-answer", wit, "no answer: %v", err)
		return
	}
	if host == "" && resp.Status == 400 {
		return
	}
	b := string(resp.Body)
	kind := "unknown"
	if st != nil {
		kind = st.kind
	}
	wit["status"], wit["header"], wit["body"], wit["kind"] = resp.Status, resp.Header, b[:min(300, len(b))], kind
	r.Eval(fmt.Sprint(host, kind, pt, method, want))
	r.Count(fmt.Sprintf("%s_%d", kind, want), 1)
	if resp.Status != want {
		r.Violate(fmt.Sprintf("status-%s-%d", kind, want), wit, "%s %s on %s: %d, expected %d", method, pt, hh, resp.Status, want)
		return
	}
	for _, o := range append(sites, &c15Site{tag: "TAG<main>"}) {
		if o != st && (strings.Contains(b, o.tag) || resp.Header.Get("X-Tag") == o.tag || resp.Header.Get("X-Up") == o.tag) {
			r.Violate("foreign-content", wit, "the answer for %q carries something of %s", host, o.host)
		}
	}
	if method == "HEAD" {
		return
	}
	switch {
	case body == "DOWNLOADS":
		if !strings.Contains(b, "<h1>Downloads</h1>") {
			r.Violate("body", wit, "no download page")
		}
		for _, o := range []string{"/d/g.bin", "/blocked/x.bin"} {
			if _, has := st.files[o]; has != strings.Contains(b, o[strings.LastIndex(o, "/")+1:]) {
				r.Violate("download-list", wit, "%s listed: %v, exists: %v", o, !has, has)
			}
		}
	case body != "":
		if b != body {
			r.Violate("body", wit, "unexpected body for %s", host)
		}
	case want == 404 && st != nil && st.err404 != "" && b != st.err404:
		r.Violate("error-page", wit, "404 of %s is not its custom page", host)
	}
	if want == 200 && resp.Header.Get("X-Tag") != st.tag {
		r.Violate("headers", wit, "configured header of %s missing", host)
	}
	if r.WantSample() && kind == "proxy" {
		r.Sample(wit)
	}
}

var _ = model.Canon
