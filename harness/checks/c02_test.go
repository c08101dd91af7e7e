package checks

import (
	"fmt"
	"math/rand/v2"
	"net/http"
	"net/url"
	"strings"
	"testing"
	"time"

	"github.com/redmaner/MaguroHTTP/router"

	"verifharness/model"
	"verifharness/rep"
)

var c02Atoms = []string{"a", "b", "aa", ".", "..", "...", "", "%2e", "%2E%2e", ".%2e", "%2f", "a%2fb", "%2f..", "..%2f", "a%20b", "\xc3\xa9", "%c3%a9", "%00", "%0a", "a;b", "a:b", "\\", "%5c..", ".a", "a.", "..a", "a..", "~", "*", "%25", "%252e", "index.html", "@", "a&b=c", "+"}

func c02Target(g *rand.Rand) string {
	n := 1 + g.IntN(7)
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteByte('/')
		b.WriteString(pick(g, c02Atoms))
	}
	if chance(g, .3) {
		b.WriteByte('/')
	}
	return b.String()
}

func TestC02(t *testing.T) {
	r := rep.New("C02", "A case is one request target (random mix of dot segments, empty segments, percent-encodings, authority and absolute forms, random bytes) sent through net/http's request parser into a router; judged: the path seen by middleware, handler and error handler equals the model's canonical form and is canonical in itself, query untouched, and a differently spelled target with the same canonical path gets the same answer. Distinct = (spelling features, status, trailing slash) combinations.")
	r.Watchdog(120*time.Second, true)
	g := r.Rng("targets")
	cases := r.N(200000, 1500000)
	type view struct{ where, path, query string }
	var seen []view
	see := func(where string, q *http.Request) { seen = append(seen, view{where, q.URL.Path, q.URL.RawQuery}) }
	build := func() *router.SRouter {
		ro := router.NewRouter()
		ro.ErrorHandler = func(w http.ResponseWriter, q *http.Request, code int) { see("error", q); w.WriteHeader(code) }
		mk := func(id int) http.Handler {
			return http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
				see("handler", q)
				w.Header().Set("X-Id", fmt.Sprint(id))
				w.WriteHeader(200)
			})
		}
		mw := router.MiddlewareHandlerFunc(func(h http.HandlerFunc) http.HandlerFunc {
			return func(w http.ResponseWriter, q *http.Request) { see("middleware", q); h(w, q) }
		})
		id := 0
		for _, h := range []string{"h1", router.DefaultHost} {
			for _, p := range []string{"/", "/a", "/a/b", "/b", "/a/b/aa", "/é", "/a b", "/a/index.html"} {
				if h == "h1" && p == "/" {
					continue
				}
				id++
				ro.AddRoute(h, p, id%3 != 0, "GET", "*", mk(id))
				for k, m := range httpMethods[1:] {
					if (id+k)%3 > 0 {
						ro.AddRoute(h, p, (id+k)%2 > 0, m, "*", mk(100*k+id))
					}
				}
				ro.UseMiddleware(h, p, mw)
			}
		}
		return ro
	}
	ro := build()
	ask := func(method, target, host string) (status int, id string, vs []view, u *url.URL, err error) {
		raw := rawReq(method, target, host, quirks(target+host, nil)...)
		req, err := parse(raw, "192.0.2.1:5")
		if err != nil {
			return 0, "", nil, nil, err
		}
		cu := *req.URL
		seen = nil
		w := serve(ro, req)
		return w.Code, w.Header().Get("X-Id"), seen, &cu, nil
	}
	for i := 0; i < cases && !r.Stop(); i++ {
		p := c02Target(g)
		target := p
		form := "origin"
		switch g.IntN(12) {
		case 0:
			target, form = "http://h1"+p, "absolute"
		case 1:
			target, form = "x:"+strings.TrimPrefix(p, "/"), "opaque"
		case 2:
			target, form = "*", "star"
		case 3:
			target, form = "http://h1", "authority"
		case 4:
			target, form = "http://h1?x", "authorityq"
		case 5:
			target, form = "/"+p, "double"
		}
		query := ""
		if chance(g, .4) && form != "star" {
			query = pick(g, []string{"", "a=b", "../..", "/a/../b", "%2e%2e/", "a=%00", "x=http://y/", "a=b?c=d", "&&", "%zz"})
			target += "?" + query
		}
		host := pick(g, []string{"h1", "h2", "h1:80"})
		method := "GET"
		if chance(g, .5) && (form == "origin" || form == "double") {
			method = pick(g, append([]string{"BREW"}, httpMethods...))
		}
		wit := map[string]any{"method": method, "target": target, "host": host}
		var st int
		var id string
		var vs []view
		var u *url.URL
		var err error
		if !r.Guard("dispatch", wit, func() { st, id, vs, u, err = ask(method, target, host) }) {
			continue
		}
		if err != nil {
			r.Count("rejected_by_parser", 1)
			continue
		}
		want := model.Canon(u.Path)
		wit["decoded"], wit["want"], wit["seen"], wit["status"] = u.Path, want, fmt.Sprint(vs), st
		if len(vs) == 0 {
			r.Violate("nothing-ran", wit, "neither handler nor error handler ran")
		}
		for _, v := range vs {
			if v.path != want {
				r.Violate("not-canonical", wit, "%s saw path %q, canonical form of %q is %q", v.where, v.path, u.Path, want)
			}
			if !c02IsCanon(v.path) {
				r.Violate("not-canonical", wit, "%s saw path %q which is not canonical", v.where, v.path)
			}
			if v.query != u.RawQuery {
				r.Violate("query-changed", wit, "%s saw query %q, sent %q", v.where, v.query, u.RawQuery)
			}
		}
		// another spelling of the same canonical path
		enc := (&url.URL{Path: want}).EscapedPath()
		for k := 0; k < 2; k++ {
			alt := enc
			if k == 1 {
				alt = c02Respell(g, enc)
			}
			if u.RawQuery != "" {
				alt += "?" + u.RawQuery
			}
			h2 := host
			if form == "absolute" || strings.HasPrefix(form, "authority") {
				h2 = "h1"
			} else if form == "opaque" {
				continue
			}
			var st2 int
			var id2 string
			var vs2 []view
			var u2 *url.URL
			if !r.Guard("dispatch", wit, func() { st2, id2, vs2, u2, err = ask(method, alt, h2) }) || err != nil {
				continue
			}
			if model.Canon(u2.Path) != want {
				r.Inconclusive("harness: %q is no respelling of %q", alt, want)
				return
			}
			if st2 != st || id2 != id || len(vs2) != len(vs) {
				wit["alternative"] = alt
				r.Violate("spelling-matters", wit, "%q gives %d/%s, the equivalent %q gives %d/%s", target, st, id, alt, st2, id2)
			}
			for _, v := range vs2 {
				if v.path != want {
					wit["alternative"] = alt
					r.Violate("not-canonical", wit, "%s saw path %q for %q, want %q", v.where, v.path, alt, want)
				}
			}
			r.Eval(fmt.Sprint(st2, id2, k, form))
		}
		feat := []string{}
		for _, f := range []string{"//", "/./", "/../", "%2e", "%2f", "%00", "/..", "/.", "..."} {
			if strings.Contains(strings.ToLower(p), f) {
				feat = append(feat, f)
			}
		}
		r.Count("form_"+form, 1)
		r.Eval(fmt.Sprint(feat, st, form, method, strings.HasSuffix(want, "/"), id))
		if r.WantSample() && len(feat) > 3 {
			r.Sample(wit)
		}
	}
	r.Finish()
}

func c02IsCanon(p string) bool {
	if !strings.HasPrefix(p, "/") {
		return false
	}
	segs := strings.Split(p[1:], "/")
	for i, s := range segs {
		if s == "." || s == ".." || s == "" && i != len(segs)-1 {
			return false
		}
	}
	return true
}

// c02Respell inserts path noise that keeps the canonical form.
func c02Respell(g *rand.Rand, p string) string {
	var b strings.Builder
	for i := 0; i < len(p); i++ {
		if p[i] == '/' {
			for chance(g, .3) {
				b.WriteString(pick(g, []string{"/", "/.", "/zz/..", "/%2e", "/q/%2e%2E", "/x//y/../.."}))
			}
		}
		if p[i] != '/' && p[i] != '%' && chance(g, .1) && (i < 1 || p[i-1] != '%') && (i < 2 || p[i-2] != '%') {
			fmt.Fprintf(&b, "%%%02X", p[i])
			continue
		}
		b.WriteByte(p[i])
	}
	return b.String()
}
