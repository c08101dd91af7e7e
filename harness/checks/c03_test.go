package checks

import (
	"fmt"
	"net/http"
	"strings"
	"testing"
	"time"

	"github.com/redmaner/MaguroHTTP/router"

	"verifharness/model"
	"verifharness/rep"
)

func TestC03(t *testing.T) {
	r := rep.New("C03", "A case is one request against a router with generated routes and middleware (registered before, between and after routes, on several hosts and paths, some refusing by header, some short-circuiting conditionally, both adapter types); the recorded trace of middleware entries, exits and handler runs is compared with the model's chain. Distinct = (status, chain length, refusal position, exactness, method, host kind) combinations.")
	r.Watchdog(120*time.Second, true)
	g := r.Rng("chains")
	tables := r.N(6000, 20000)
	hosts := []string{"a.example", "b.example", router.DefaultHost}
	paths := []string{"/", "/a", "/a/", "/a/b", "/a/b/", "/a/b/c", "/x"}
	for ti := 0; ti < tables && !r.Stop(); ti++ {
		ro := router.NewRouter()
		tab := model.Table{}
		var trace []string
		var ops []string
		id := 0
		step := func() {
			h, p := pick(g, hosts), pick(g, paths)
			id++
			me := id
			if chance(g, .5) {
				m := pick(g, []string{"GET", "GET", "POST", "HEAD", "DELETE", "OPTIONS", "CONNECT"})
				c := pick(g, []string{"*", "*", ";", "text/html"})
				fb := chance(g, .6)
				tab.Add(h, p, m, model.Route{ID: me, Fallback: fb, Content: c})
				ops = append(ops, fmt.Sprintf("route %d %s %s %s fb=%v %q", me, h, p, m, fb, c))
				ro.AddRoute(h, p, fb, m, c, http.HandlerFunc(func(w http.ResponseWriter, _ *http.Request) {
					trace = append(trace, fmt.Sprintf("H%d", me))
					w.WriteHeader(298)
				}))
				return
			}
			tab.Use(h, p, me)
			ops = append(ops, fmt.Sprintf("mw %d %s %s", me, h, p))
			body := func(next http.Handler, w http.ResponseWriter, q *http.Request) {
				trace = append(trace, fmt.Sprintf("<%d", me))
				if strings.Contains(q.Header.Get("X-Refuse"), fmt.Sprintf(",%d,", me)) {
					w.WriteHeader(477)
					return
				}
				next.ServeHTTP(w, q)
				trace = append(trace, fmt.Sprintf(">%d", me))
			}
			if chance(g, .5) {
				ro.UseMiddleware(h, p, router.MiddlewareHandler(func(next http.Handler) http.Handler {
					return http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) { body(next, w, q) })
				}))
			} else {
				ro.UseMiddleware(h, p, router.MiddlewareHandlerFunc(func(next http.HandlerFunc) http.HandlerFunc {
					return func(w http.ResponseWriter, q *http.Request) { body(next, w, q) }
				}))
			}
		}
		for i := 2 + g.IntN(22); i > 0; i-- {
			step()
		}
		if chance(g, .01) { // many on few routes
			few := [2][]string{hosts, paths}
			hosts, paths = []string{pick(g, hosts)}, []string{pick(g, paths)}
			for i := 30 + g.IntN(90); i > 0; i-- {
				step()
			}
			hosts, paths = few[0], few[1]
		}
		for q := 0; q < 30; q++ {
			if chance(g, .15) {
				step()
			}
			host := pick(g, []string{"a.example", "b.example", "a.example:81", "c.example"})
			p := pick(g, paths)
			if chance(g, .4) {
				p = strings.TrimSuffix(p, "/") + pick(g, []string{"/q", "/b", "/q/r", "/q/"})
			}
			m := pick(g, []string{"GET", "GET", "POST", "HEAD", "DELETE", "PUT", "OPTIONS", "CONNECT"})
			if ns := tab.Nodes(); len(ns) > 0 && chance(g, .75) {
				n := pick(g, ns)
				p, m = n.Path, pick(g, n.MethodList())
				if chance(g, .35) {
					p = strings.TrimSuffix(p, "/") + pick(g, []string{"/q", "/q/r", "/q/"})
				}
				if n.Host != router.DefaultHost {
					host = n.Host
				}
			}
			var hdr []string
			if chance(g, .3) {
				hdr = append(hdr, "Content-Type", "text/html")
			}
			ct := ""
			if len(hdr) > 0 {
				ct = "text/html"
			}
			d := tab.Decide(host, p, m, ct)
			refuse := 0
			if d.Status == 200 && len(d.Node.MW) > 0 && chance(g, .35) {
				refuse = pick(g, d.Node.MW)
				hdr = append(hdr, "X-Refuse", fmt.Sprintf(",%d,", refuse))
			} else if chance(g, .1) && id > 0 {
				hdr = append(hdr, "X-Refuse", fmt.Sprintf(",%d,", 1+g.IntN(id))) // usually not of this route
				for _, mw := range nodeMW(d) {
					if hdr[len(hdr)-1] == fmt.Sprintf(",%d,", mw) {
						refuse = mw
					}
				}
			}
			var want []string
			status := d.Status
			if d.Status == 200 {
				status = 298
				passed := []int{}
				for _, mw := range d.Node.MW {
					want = append(want, fmt.Sprintf("<%d", mw))
					if mw == refuse {
						status = 477
						break
					}
					passed = append(passed, mw)
				}
				if status == 298 {
					want = append(want, fmt.Sprintf("H%d", d.Route.ID))
				}
				for i := len(passed) - 1; i >= 0; i-- {
					want = append(want, fmt.Sprintf(">%d", passed[i]))
				}
			}
			raw := rawReq(m, p, host, quirks(m+p+host, hdr)...)
			req, err := parse(raw, "192.0.2.1:5")
			if err != nil {
				r.Inconclusive("harness: bad request %q: %v", raw, err)
				return
			}
			trace = nil
			wit := map[string]any{"request": raw, "registrations": ops, "want": strings.Join(want, " "), "wantStatus": status}
			if !r.Guard("dispatch", wit, func() {
				w := serve(ro, req)
				got := strings.Join(trace, " ")
				wit["got"], wit["gotStatus"] = got, w.Code
				if got != strings.Join(want, " ") {
					r.Violate("wrong-chain", wit, "chain %q, expected %q", got, strings.Join(want, " "))
				} else if w.Code != status {
					r.Violate("wrong-status", wit, "status %d, expected %d", w.Code, status)
				}
			}) {
				break
			}
			pos := -1
			for i, mw := range nodeMW(d) {
				if mw == refuse {
					pos = i
				}
			}
			r.Count(fmt.Sprintf("status_%d", status), 1)
			r.Count("middleware_runs", strings.Count(strings.Join(want, " "), "<"))
			sig := ""
			if len(nodeMW(d)) > 0 {
				sig = fmt.Sprint(status, len(nodeMW(d)), pos, d.Exact, m, d.Why, d.Node.Path)
			}
			r.Eval(sig)
			if r.WantSample() && len(want) > 5 {
				r.Sample(wit)
			}
		}
	}
	r.Finish()
}

func nodeMW(d model.Decision) []int {
	if d.Node == nil {
		return nil
	}
	return d.Node.MW
}
