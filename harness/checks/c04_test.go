package checks

import (
	"fmt"
	"math/rand/v2"
	"net/http"
	"net/http/httptest"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/redmaner/MaguroHTTP/router"

	"verifharness/model"
	"verifharness/rep"
)

func (t *c04World) clone() model.Table {
	out := model.Table{}
	for h, m := range t.cur {
		for p, n := range m {
			c := &model.Node{Host: n.Host, Path: n.Path, Methods: map[string]model.Route{}, MW: append([]int(nil), n.MW...)}
			for k, v := range n.Methods {
				c.Methods[k] = v
			}
			if out[h] == nil {
				out[h] = map[string]*model.Node{}
			}
			out[h][p] = c
		}
	}
	return out
}

// c04World is the history of one host's registrations by its single writer: state i holds after op i.
type c04World struct {
	host   string
	cur    model.Table
	states []model.Table // states[0] = empty
	begun  []int64       // begun[i]: time op i+1 was called
	ended  []int64
	descr  []string
}

type c04Obs struct {
	host, path, method string
	from, to           int64
	status             int
	trace              string
}

func TestC04(t *testing.T) {
	r := rep.New("C04", "A case is one request served while several goroutines register routes and middleware (each owning one host, incl. the default host) on the same router, with yields at handler and middleware entry, under the race detector. Judged offline: status, handler and middleware chain must equal the routing model's decision on some pair of table states whose registrations had not begun after the request ended nor been missing although returned before it began; afterwards every registration must be present. Distinct = (status, window size, chain length, host kind).")
	r.Watchdog(120*time.Second, true)
	rounds := r.N(60, 1500)
	paths := []string{"/", "/a", "/a/b", "/a/b/c", "/d"}
	for round := 0; round < rounds && !r.Stop(); round++ {
		r.Phase(fmt.Sprint("round ", round))
		g := r.Rng(fmt.Sprint("round", round))
		ro := router.NewRouter()
		ro.ErrorHandler = func(w http.ResponseWriter, _ *http.Request, code int) { w.WriteHeader(code) }
		var clock atomic.Int64
		hosts := []string{router.DefaultHost, "h1", "h2", "h3"}
		worlds := make([]*c04World, len(hosts))
		var wg sync.WaitGroup
		var id atomic.Int64
		start := make(chan struct{})
		var writersLeft atomic.Int64
		nops := 12 + g.IntN(30)
		for wi, h := range hosts {
			w := &c04World{host: h, cur: model.Table{}, states: []model.Table{{}}}
			worlds[wi] = w
			wg.Add(1)
			writersLeft.Add(1)
			wr := rand.New(rand.NewPCG(r.Seed, uint64(round*100+wi)))
			go func() {
				defer wg.Done()
				defer writersLeft.Add(-1)
				<-start
				for o := 0; o < nops; o++ {
					p := pick(wr, paths)
					me := int(id.Add(1))
					isMW := chance(wr, .4)
					m, fb := pick(wr, []string{"GET", "GET", "POST"}), chance(wr, .6)
					if isMW {
						w.cur.Use(w.host, p, me)
					} else {
						w.cur.Add(w.host, p, m, model.Route{ID: me, Fallback: fb, Content: "*"})
					}
					st := w.clone()
					var hd http.Handler = http.HandlerFunc(func(rw http.ResponseWriter, q *http.Request) {
						runtime.Gosched()
						rw.Header().Add("X-T", fmt.Sprintf("H%d", me))
						rw.WriteHeader(200)
					})
					mw := router.MiddlewareHandlerFunc(func(next http.HandlerFunc) http.HandlerFunc {
						return func(rw http.ResponseWriter, q *http.Request) {
							rw.Header().Add("X-T", fmt.Sprintf("<%d", me))
							runtime.Gosched()
							next(rw, q)
						}
					})
					w.begun = append(w.begun, clock.Add(1))
					if isMW {
						ro.UseMiddleware(w.host, p, mw)
					} else {
						ro.AddRoute(w.host, p, fb, m, "*", hd)
					}
					w.ended = append(w.ended, clock.Add(1))
					w.states = append(w.states, st)
					w.descr = append(w.descr, fmt.Sprintf("id=%d mw=%v %s%s %s fb=%v", me, isMW, w.host, p, m, fb))
					if chance(wr, .5) {
						runtime.Gosched()
					}
				}
			}()
		}
		readers := 4
		obs := make([][]c04Obs, readers)
		for ri := 0; ri < readers; ri++ {
			wg.Add(1)
			rr := rand.New(rand.NewPCG(r.Seed, uint64(round*100+50+ri)))
			go func() {
				defer wg.Done()
				<-start
				for n := 0; n < 60 || writersLeft.Load() > 0 && n < 400; n++ {
					o := c04Obs{host: pick(rr, []string{"h1", "h2", "h3", "h4"}), path: pick(rr, append(paths, "/a/z", "/d/e/f", "/a/b/")), method: pick(rr, []string{"GET", "GET", "POST"})}
					req := httptest.NewRequest(o.method, o.path, nil)
					req.Host = o.host
					w := httptest.NewRecorder()
					o.from = clock.Add(1)
					ro.ServeHTTP(w, req)
					o.to = clock.Add(1)
					o.status, o.trace = w.Code, strings.Join(w.Header()["X-T"], " ")
					obs[ri] = append(obs[ri], o)
				}
			}()
		}
		close(start)
		wg.Wait()
		rng := func(w *c04World, o c04Obs) (lo, hi int) {
			for i := range w.ended {
				if w.ended[i] < o.from {
					lo = i + 1
				}
				if w.begun[i] < o.to {
					hi = i + 1
				}
			}
			return
		}
		judge := func(o c04Obs) {
			var hw *c04World
			for _, w := range worlds {
				if w.host == o.host {
					hw = w
				}
			}
			if hw == nil {
				hw = &c04World{states: []model.Table{{}}}
			}
			dl, dh := rng(worlds[0], o)
			hl, hh := rng(hw, o)
			ok := false
			var exp []string
			for i := dl; i <= dh && !ok; i++ {
				for j := hl; j <= hh && !ok; j++ {
					t := model.Table{}
					for k, v := range worlds[0].states[i] {
						t[k] = v
					}
					for k, v := range hw.states[j] {
						t[k] = v
					}
					d := t.Decide(o.host, o.path, o.method, "")
					tr := ""
					if d.Status == 200 {
						var s []string
						for _, m := range d.Node.MW {
							s = append(s, fmt.Sprintf("<%d", m))
						}
						tr = strings.Join(append(s, fmt.Sprintf("H%d", d.Route.ID)), " ")
					}
					if d.Status == o.status && tr == o.trace {
						ok = true
					} else if len(exp) < 10 {
						exp = append(exp, fmt.Sprint(d.Status, " ", tr))
					}
				}
			}
			win := dh - dl + hh - hl
			if win > 0 {
				r.Count("requests_overlapping_registrations", 1)
			}
			if !ok {
				r.Violate("no-such-table", map[string]any{"request": fmt.Sprintf("%+v", o), "possible": exp, "default_registrations": worlds[0].descr, "host_registrations": hw.descr, "default_window": []int{dl, dh}, "host_window": []int{hl, hh}},
					"%s %s%s was answered %d [%s], which no routing table existing during the request gives", o.method, o.host, o.path, o.status, o.trace)
			}
			r.Eval(fmt.Sprint(o.status, min(win, 6), strings.Count(o.trace, "<"), o.host, o.path))
		}
		for _, os := range obs {
			for _, o := range os {
				judge(o)
			}
		}
		// quiescent: every registration present
		for _, h := range []string{"h1", "h2", "h3", "h4"} {
			for _, p := range append(paths, "/a/z", "/d/e/f") {
				for _, m := range []string{"GET", "POST"} {
					req := httptest.NewRequest(m, p, nil)
					req.Host = h
					w := httptest.NewRecorder()
					o := c04Obs{host: h, path: p, method: m, from: clock.Add(1)}
					ro.ServeHTTP(w, req)
					o.to, o.status, o.trace = clock.Add(1), w.Code, strings.Join(w.Header()["X-T"], " ")
					judge(o)
				}
			}
		}
	}
	for round := 0; round < r.N(60, 1500) && !r.Stop(); round++ {
		r.Phase(fmt.Sprint("contested ", round))
		c04Contested(r, r.Rng(fmt.Sprint("contested", round)))
	}
	r.Finish()
}

// c04Contested: several goroutines register on the same host and path while others ask for it. No registration
// is lost, those of one goroutine keep their order, and what a request ran is what was there up to some moment.
func c04Contested(r *rep.R, g *rand.Rand) {
	ro := router.NewRouter()
	ro.ErrorHandler = func(w http.ResponseWriter, _ *http.Request, code int) { w.WriteHeader(code) }
	host := pick(g, []string{router.DefaultHost, "h1"})
	path := pick(g, []string{"/", "/a", "/a/b"})
	methods := []string{"GET", "POST", "PUT", "DELETE", "PATCH"}
	mark := func(rw http.ResponseWriter, s string) { rw.Header().Add("X-T", s) }
	handler := func(m string) http.Handler {
		return http.HandlerFunc(func(rw http.ResponseWriter, q *http.Request) { mark(rw, "H"+m); rw.WriteHeader(200) })
	}
	mw := func(id string) router.Middleware {
		return router.MiddlewareHandlerFunc(func(next http.HandlerFunc) http.HandlerFunc {
			return func(rw http.ResponseWriter, q *http.Request) {
				mark(rw, id)
				next(rw, q)
			}
		})
	}
	ask := func(m string) (int, []string) {
		req := httptest.NewRequest(m, path, nil)
		req.Host = "h1"
		w := httptest.NewRecorder()
		ro.ServeHTTP(w, req)
		return w.Code, w.Header()["X-T"]
	}
	early := chance(g, .5)
	if early {
		ro.AddRoute(host, path, true, "GET", "*", handler("GET"))
	}
	const per = 6
	writers := len(methods)
	var wg sync.WaitGroup
	var left atomic.Int64
	left.Add(int64(writers))
	start := make(chan struct{})
	for wi := 0; wi < writers; wi++ {
		wg.Add(1)
		at := g.IntN(per)
		go func() {
			defer wg.Done()
			defer left.Add(-1)
			<-start
			for i := 0; i < per; i++ {
				if i == at && (wi > 0 || !early) {
					ro.AddRoute(host, path, true, methods[wi], "*", handler(methods[wi]))
				}
				ro.UseMiddleware(host, path, mw(fmt.Sprintf("%d.%d", wi, i)))
				if i%2 == 0 {
					runtime.Gosched()
				}
			}
		}()
	}
	traces := make([][][]string, 3)
	for ri := range traces {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for n := 0; n < 20 || left.Load() > 0 && n < 300; n++ {
				if st, tr := ask("GET"); st == 200 {
					traces[ri] = append(traces[ri], tr)
				}
			}
		}()
	}
	close(start)
	wg.Wait()
	wit := map[string]any{"host": host, "path": path, "early": early}
	var final []string
	for _, m := range methods {
		st, tr := ask(m)
		w := map[string]any{"host": host, "path": path, "early": early, "method": m, "status": st, "trace": tr}
		if st != 200 || len(tr) == 0 || tr[len(tr)-1] != "H"+m {
			r.Violate("contested-route-lost", w, "with all routes of %s%s registered %s is answered %d [%s]", host, path, m, st, strings.Join(tr, " "))
			return
		}
		tr = tr[:len(tr)-1]
		if final == nil {
			final = tr
			wit["final"] = final
			seen := map[string]int{}
			for i, id := range tr {
				seen[id] = i + 1
			}
			for wi := 0; wi < writers; wi++ {
				last := 0
				for i := 0; i < per; i++ {
					at := seen[fmt.Sprintf("%d.%d", wi, i)]
					if at == 0 {
						r.Violate("contested-middleware-lost", w, "middleware %d.%d was registered on %s%s but does not run", wi, i, host, path)
						return
					}
					if at < last {
						r.Violate("contested-middleware-order", w, "middleware %d.%d runs before one registered earlier by the same goroutine", wi, i)
						return
					}
					last = at
				}
			}
			if len(tr) != writers*per {
				r.Violate("contested-middleware-twice", w, "%d middlewares were registered, %d ran", writers*per, len(tr))
				return
			}
		} else if strings.Join(tr, " ") != strings.Join(final, " ") {
			r.Violate("contested-middleware-unstable", w, "the middlewares of one path run in another order for another method")
			return
		}
	}
	for _, ts := range traces {
		for _, tr := range ts {
			k := len(tr) - 1
			if k < 0 || tr[k] != "HGET" || k > len(final) || strings.Join(tr[:k], " ") != strings.Join(final[:k], " ") {
				wit["trace"] = tr
				r.Violate("contested-request", wit, "a request ran [%s], which is no initial part of what was registered", strings.Join(tr, " "))
				return
			}
			r.Count("contested_requests", 1)
			r.Eval(fmt.Sprint("contested", host, path, early, k))
		}
	}
}
