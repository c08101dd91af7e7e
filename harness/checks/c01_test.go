package checks

import (
	"fmt"
	"math/rand/v2"
	"net/http"
	"strings"
	"testing"
	"time"

	"github.com/redmaner/MaguroHTTP/router"

	"verifharness/model"
	"verifharness/rep"
)

var rtHosts = []string{"a.example", "b.example", "127.0.0.1", "localhost", "::1", router.DefaultHost, router.DefaultHost}
var rtSegs = []string{"a", "b", "c", "ab", "A", "a.b", "x-y", "index.html"}
var rtContents = []string{"*", ";", "", "text/html", "text/html;application/json", "application/json;text/html;", "application/json"}
var rtTypes = []string{"", "text/html", "application/json", `text/html; charset="UTF-8"`, "text/htm", "text/htmlx", "application/json;q=1;x=2", "TEXT/plain", "application/java; charset=utf-8"}

func rtPath(g *rand.Rand, slash bool) string {
	n := g.IntN(5)
	if n == 0 {
		return "/"
	}
	p := ""
	for i := 0; i < n; i++ {
		p += "/" + rtSegs[min(g.IntN(len(rtSegs)), g.IntN(len(rtSegs)))]
	}
	if chance(g, .05) {
		p += "/" + strings.Repeat(pick(g, []string{"l", "ll", "m"}), pick(g, []int{40, 60, 100, 300, 1000}))
	}
	if slash && chance(g, .3) {
		p += "/"
	}
	return p
}

func rtHostHeader(g *rand.Rand) string {
	h := pick(g, []string{"a.example", "b.example", "127.0.0.1", "localhost", "unknown.example", "DEFAULT", "xa.example", "a.example.org"})
	if chance(g, .1) {
		return "[::1]:8080"
	}
	if chance(g, .4) {
		h += pick(g, []string{":80", ":7443", ":8080", ":65535"})
	}
	return h
}

// noisy rewrites a canonical path into another spelling of it.
func noisy(g *rand.Rand, p string) string {
	segs := strings.Split(strings.TrimPrefix(p, "/"), "/")
	var b strings.Builder
	for i, s := range segs {
		b.WriteByte('/')
		for chance(g, .3) {
			b.WriteString(pick(g, []string{"/", "./", "zz/../", ".//", "q/r/../../", "%2e/"}))
		}
		if s != "" && chance(g, .2) {
			s = fmt.Sprintf("%%%02x%s", s[0], s[1:])
		}
		b.WriteString(s)
		_ = i
	}
	return b.String()
}

func TestC01(t *testing.T) {
	r := rep.New("C01", "A case is one request against one generated routing table (random hosts incl. default host, nested paths, fallback flags, methods, content lists, re-registrations); judged by an independent routing model: which handler ran (exactly one or none) and the status. Distinct = (decision kind, status, exactness, method class, content list, spelling) combinations; trivial = none.")
	r.Watchdog(120*time.Second, true)
	g := r.Rng("tables")
	tables := r.N(7000, 20000)
	for ti := 0; ti < tables && !r.Stop(); ti++ {
		ro := router.NewRouter()
		dav := chance(g, .3)
		ro.WebDAV = dav
		custom := chance(g, .5)
		var calls []int
		var errs []int
		if custom {
			ro.ErrorHandler = func(w http.ResponseWriter, _ *http.Request, code int) {
				errs = append(errs, code)
				w.WriteHeader(code)
			}
		}
		tab := model.Table{}
		id := 0
		var regs []string
		add := func() {
			host, path := pick(g, rtHosts), rtPath(g, true)
			ms := httpMethods
			if dav && chance(g, .3) {
				ms = davMethods
			}
			m := pick(g, ms)
			if chance(g, .5) {
				m = "GET"
			}
			c := pick(g, rtContents)
			fb := chance(g, .5)
			id++
			me := id
			tab.Add(host, path, m, model.Route{ID: me, Fallback: fb, Content: c})
			regs = append(regs, fmt.Sprintf("%d: %s %s fb=%v %s %q", me, host, path, fb, m, c))
			ro.AddRoute(host, path, fb, m, c, http.HandlerFunc(func(w http.ResponseWriter, _ *http.Request) {
				calls = append(calls, me)
				w.WriteHeader(299)
			}))
		}
		for i := 1 + g.IntN(12); i > 0; i-- {
			add()
		}
		for q := 0; q < 40; q++ {
			if chance(g, .1) {
				add() // re-registration or new route between requests
			}
			// aim at registered routes most of the time
			host, path, method, ct := rtHostHeader(g), rtPath(g, true), pick(g, append(httpMethods, "TRACE", "FOO", "get", "PROPFIND", "LOCK")), pick(g, rtTypes)
			if chance(g, .7) {
				n := pick(g, tab.Nodes())
				path = n.Path
				if chance(g, .5) {
					path = strings.TrimSuffix(path, "/") + rtPath(g, true)
				} else if chance(g, .2) && path != "/" {
					path += "/"
				}
				if n.Host != router.DefaultHost && n.Host != "::1" && chance(g, .6) {
					host = n.Host
				}
				if chance(g, .8) {
					method = pick(g, n.MethodList())
					rt := n.Methods[method]
					if chance(g, .6) {
						ct = strings.Split(rt.Content, ";")[0]
						if ct == "*" {
							ct = pick(g, rtTypes)
						} else if ct != "" && chance(g, .4) {
							ct += ";charset=utf-8"
						}
					}
				}
			}
			if i := strings.IndexByte(path[1:], '/'); i >= 0 && chance(g, .06) {
				// a part of the path where the host belongs (HTTP/2 lets any authority through)
				host, path = host+path[:i+1], path[i+1:]
			}
			spelled := path
			if chance(g, .3) {
				spelled = noisy(g, path)
			}
			target := spelled
			if chance(g, .2) {
				target += "?" + pick(g, []string{"x=1", "a=/../b", "%2e%2e", ""})
			}
			hdr := []string{}
			if ct != "" {
				hdr = append(hdr, "Content-Type", ct)
			}
			if method == "CONNECT" {
				target = spelled
			}
			raw := rawReq(method, target, host, quirks(method+target+host, hdr)...)
			req, err := parse(raw, "192.0.2.1:999")
			if err != nil {
				r.Count("unparsable", 1)
				continue
			}
			want := tab.Decide(req.Host, req.URL.Path, method, ct)
			calls, errs = nil, nil
			wit := map[string]any{"request": raw, "routes": regs, "want": want.Status, "wantRoute": want.Route.ID, "why": want.Why, "webdav": dav}
			if !r.Guard("dispatch", wit, func() {
				w := serve(ro, req)
				got := w.Code
				wit["got"], wit["gotRoutes"], wit["gotErrors"] = got, calls, errs
				if want.Status == 200 {
					if len(calls) != 1 || calls[0] != want.Route.ID || got != 299 || len(errs) != 0 {
						r.Violate("wrong-route", wit, "expected handler %d (%s), got handlers %v status %d", want.Route.ID, want.Why, calls, got)
					}
				} else {
					if len(calls) != 0 || got != want.Status || custom && (len(errs) != 1 || errs[0] != want.Status) {
						r.Violate("wrong-status", wit, "expected %d and no handler (%s), got handlers %v status %d errors %v", want.Status, want.Why, calls, got, errs)
					}
				}
			}) {
				break
			}
			r.Count(fmt.Sprintf("status_%d", want.Status), 1)
			r.Eval(fmt.Sprint(want.Status, want.Why, want.Exact, method, want.Route.Content, want.Route.Fallback, ct, spelled != path))
			if r.WantSample() && want.Status == 200 {
				r.Sample(wit)
			}
		}
	}
	r.Finish()
}
