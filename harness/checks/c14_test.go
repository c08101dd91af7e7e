package checks

import (
	"fmt"
	"math/rand/v2"
	"net/http"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"testing"
	"time"

	"verifharness/rep"
	"verifharness/srv"
)

func TestC14(t *testing.T) {
	r := rep.New("C14", "A case is one request that must be refused or fail (401, 403, 404, 405, 406, 429, 502) on the real server, for every site kind, with custom error pages present, configured but missing, a directory, unset, named index.html, empty or large, changed, removed or created between requests, files that the server's user cannot read, and with range, conditional, HEAD and odd methods and headers. Judged: exact status, body equals the custom page of that very site or the default page naming the code, nothing of another site, no file system path or upstream address. Distinct = (code, site kind, page state, request headers, method).")
	r.Watchdog(120*time.Second, true)
	for s := 0; s < r.N(36, 180) && !r.Stop(); s++ {
		r.Phase(fmt.Sprint("server ", s))
		c14Server(r, r.Rng(fmt.Sprint("srv", s)), s)
	}
	r.Finish()
}

func c14Server(r *rep.R, g *rand.Rand, s int) {
	w := newWorld(r, g, "c14", s%2 == 1, oneOf(s), func(w *world, main M, vh map[string]M) {
		if s%3 == 0 { // as a user for whom permissions count
			w.wrap = unprivileged
			if w.tls {
				os.Chmod(w.dir+"/tls.key", 0o644)
			}
			for _, d := range []string{"", "/files", "/files/templates"} {
				os.MkdirAll(w.dir+d, 0o755)
				os.Chmod(w.dir+d, 0o777)
			}
			for _, f := range []string{"noread.bin", "noread.html", "a/noread.txt"} {
				put(w.dir+"/www", f, "FILE that cannot be read")
				os.Chmod(w.dir+"/www/"+f, 0)
			}
		}
	})
	if w == nil {
		return
	}
	defer w.close()
	fs := []fetch{h1Client(w.p, "")}
	if w.tls {
		fs = append(fs, h2Client(w.p))
	}
	for q := 0; q < 400 && !r.Stop(); q++ {
		if chance(g, .2) {
			c14Page(r, g, w)
		}
		c14One(r, g, w, pick(g, fs), fmt.Sprint("s", q))
	}
	var wg sync.WaitGroup
	for k := 0; k < 6; k++ {
		gg := rand.New(rand.NewPCG(r.Seed+uint64(s), uint64(k)))
		f := h1Client(w.p, "")
		wg.Add(1)
		go func() {
			defer wg.Done()
			for q := 0; q < 60 && !r.Stop(); q++ {
				c14One(r, gg, w, f, fmt.Sprint("c", k, "-", q))
			}
		}()
	}
	wg.Wait()
	checkAlive(r, w.p, nil)
	checkPanics(r, w.p, "panic")
}

// c14Page changes, removes or creates a custom page while the server runs.
func c14Page(r *rep.R, g *rand.Rand, w *world) {
	st := w.main
	if chance(g, .8) {
		st = w.sites[pick(g, w.order)]
	}
	c := pick(g, errCodes)
	f := st.errFiles[c]
	if f == "" {
		return
	}
	r.Count("page_changes", 1)
	if _, ok := st.errors[c]; ok && chance(g, .3) {
		os.Remove(f)
		delete(st.errors, c)
		return
	}
	body := fmt.Sprintf("<p>custom %s, version %d</p>", c, g.IntN(1e9)) + strings.Repeat("@", g.IntN(2000))
	if chance(g, .1) {
		body += strings.Repeat("large ", 10000+g.IntN(70000))
	}
	if chance(g, .04) {
		body += strings.Repeat("larger still ", 100000+g.IntN(300000))
	}
	if chance(g, .15) {
		body = ""
	}
	if old, ok := st.errors[c]; ok && chance(g, .4) && len(old) > 20 { // the same size, and time
		fi, _ := os.Stat(f)
		body = "<p>custom " + fmt.Sprintf("%09d", g.IntN(1e9)) + old[19:]
		os.WriteFile(f, []byte(body), 0o644)
		os.Chtimes(f, fi.ModTime(), fi.ModTime())
	} else {
		put(filepath.Dir(f), filepath.Base(f), body)
	}
	st.errors[c] = body
}

// c14Case picks a host and request that must end in the returned status.
func c14Case(g *rand.Rand, w *world) (code int, host, method, target string, hdr [][2]string) {
	method, target = "GET", "/"
	of := func(kinds ...string) string {
		for n := 0; n < 500; n++ {
			h := pick(g, w.order)
			for _, k := range kinds {
				if w.sites[h].kind == k {
					return h
				}
			}
		}
		return ""
	}
	switch g.IntN(8) {
	case 0:
		h := pick(g, w.order)
		auth := pick(g, []string{"", "Basic Og==", "Basic YWRtaW46", "x"})
		if auth != "" {
			hdr = append(hdr, [2]string{"Authorization", auth})
		}
		return 401, h, "GET", "/metrics", hdr
	case 1:
		if w.wrap != nil && chance(g, .5) {
			return 403, of("serve", "download", "fw"), "GET", pick(g, []string{"/noread.bin", "/noread.html", "/a/noread.txt", "/a/../noread.bin"}), nil
		}
		return 403, of("fw"), pick(g, []string{"GET", "HEAD", "POST"}), pick(g, []string{"/secret/s.txt", "/secret", "/secret/", "/secret/x/y", "/f.bin", "/a/../secret/index.html", "/secret/index.html"}), nil
	case 2:
		h := of("serve", "download", "fw")
		if w.sites[h] != nil && w.sites[h].kind != "download" {
			method = pick(g, []string{"GET", "HEAD", "POST"})
		}
		return 404, h, method, pick(g, append([]string{"/missing", "/missing/", "/a/f.txt/x", "/missing/index.html", "/%00", "/missing%2f..%2fq", "/a/f.txt/"}, wellKnown...)), nil
	case 3:
		if chance(g, .4) && (w.one == "" || w.one == "proxy" || w.one == "dead") {
			return 404, pick(g, []string{"unknown.test", "other", "127.0.0.1"}), pick(g, []string{"GET", "POST", "HEAD", "DELETE"}), pick(g, []string{"/", "/index.html", "/f.bin"}), nil
		}
		if chance(g, .2) {
			return 405, of("download"), pick(g, []string{"HEAD", "POST", "get"}), pick(g, []string{"/", "/f.bin", "/index.html", "/missing"}), nil
		}
		return 405, of("serve", "download", "fw", "lim", "proxy"), pick(g, []string{"DELETE", "PATCH", "PROPFIND", "OPTIONS", "FOO"}), pick(g, []string{"/", "/f.bin", "/index.html", "/missing"}), nil
	case 4:
		h := of("serve", "download", "fw", "lim")
		if w.sites[h] != nil && w.sites[h].kind != "download" {
			method = pick(g, []string{"GET", "HEAD", "POST"})
		}
		return 406, h, method, pick(g, []string{"/", "/f.bin", "/index.html", "/missing"}), [][2]string{{"Content-Type", pick(g, []string{"text/x", "application/json; charset=utf-8", "*"})}}
	case 5:
		return 429, of("lim"), pick(g, []string{"GET", "HEAD", "POST"}), pick(g, []string{"/", "/f.bin", "/missing", "/a/index.html"}), nil
	default:
		return 502, of("dead"), pick(g, []string{"GET", "HEAD", "POST"}), pick(g, []string{"/", "/x", "/a/index.html", "/x?y=z"}), nil
	}
}

func c14One(r *rep.R, g *rand.Rand, w *world, f fetch, ua string) {
	code, host, method, target, hdr := c14Case(g, w)
	if host == "" {
		return
	}
	st := w.sites[host]
	if st == nil {
		st = w.main
	}
	hk := "plain"
	switch g.IntN(9) {
	case 0:
		hk, hdr = "range", append(hdr, [2]string{"Range", "bytes=0-3"})
	case 1:
		hk, hdr = "range416", append(hdr, [2]string{"Range", "bytes=99999999-"})
	case 2:
		hk, hdr = "ims", append(hdr, [2]string{"If-Modified-Since", time.Now().Add(time.Hour).UTC().Format(http.TimeFormat)})
	case 3:
		hk, hdr = "inm", append(hdr, [2]string{"If-None-Match", "*"})
	case 4:
		hk, hdr = "ius", append(hdr, [2]string{"If-Unmodified-Since", "Mon, 02 Jan 2006 15:04:05 GMT"})
	case 5:
		hk, hdr = "im", append(hdr, [2]string{"If-Match", `"x"`})
	}
	if chance(g, .3) { // the port is no part of the name
		host += pick(g, []string{":80", ":443", ":8080", ":1", w.p.Addr[strings.LastIndex(w.p.Addr, ":"):]})
	}
	if st.kind == "lim" {
		hdr = append(hdr, [2]string{"User-Agent", ua})
		if code == 429 {
			for i := 0; i < st.limit; i++ {
				f("GET", "/a/f.txt", host, [][2]string{{"User-Agent", ua}})
			}
		}
	}
	wit := M{"expected": code, "host": host, "target": target, "method": method, "headers": hdr}
	resp, err := f(method, target, host, hdr)
	if err != nil {
		r.Violate("no-answer", wit, "no answer: %v", err)
		return
	}
	body := string(resp.Body)
	wit["status"], wit["body"] = resp.Status, body[:min(300, len(body))]
	cs := fmt.Sprint(code)
	page, custom := st.errors[cs]
	r.Eval(fmt.Sprint(code, st.kind, custom, len(page), hk, method, w.tls))
	r.Count("expected_"+cs, 1)
	if custom {
		r.Count("custom_page", 1)
	}
	key := fmt.Sprintf("%d-custom=%v", code, custom)
	if resp.Status != code {
		r.Violate("status-"+key, wit, "status %d, expected %d", resp.Status, code)
	}
	if resp.BodyErr != nil {
		r.Violate("body", wit, "body incomplete: %v", resp.BodyErr)
		return
	}
	if code == 401 && !strings.HasPrefix(resp.Header.Get("WWW-Authenticate"), "Basic ") {
		r.Violate("no-challenge", wit, "401 without challenge")
	}
	leak := ""
	for _, s := range []string{w.dir, w.dead, w.up.Addr, "dial tcp", "connection refused", "goroutine", "/repo"} {
		if strings.Contains(body, s) {
			leak = s
		}
	}
	if leak != "" {
		r.Violate("detail-leak", wit, "the page contains %q", leak)
	}
	if method == "HEAD" {
		if len(body) > 0 {
			r.Violate("head-body", wit, "HEAD answered with a body")
		}
		if n := resp.Header.Get("Content-Length"); custom && n != "" && n != fmt.Sprint(len(page)) {
			r.Violate("head-length", wit, "HEAD announces a page of %s bytes, it has %d", n, len(page))
		}
		return
	}
	switch {
	case custom && body != page:
		r.Violate("custom-page", wit, "the body is not the custom page of %s", host)
	case !custom && (!strings.Contains(body, cs) || strings.Contains(body, "custom ") || strings.Contains(body, "FILE ")):
		r.Violate("default-page", wit, "the body is not the default page for %d", code)
	}
	if !custom && !strings.Contains(body, "<body>") {
		r.Violate("default-page", wit, "the default page is not rendered through the template")
	}
	if r.WantSample() && custom {
		r.Sample(wit)
	}
}

var _ = srv.Bin
