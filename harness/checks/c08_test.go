package checks

import (
	"fmt"
	"net/http"
	"net/http/httptest"
	"runtime"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/redmaner/MaguroHTTP/guard"

	"verifharness/rep"
	"verifharness/srv"
)

func TestC08(t *testing.T) {
	r := rep.New("C08", "A case is one burst of concurrent requests. (a) library under the race detector: fresh limiter or fresh client, 2-48 goroutines released together, several clients at once, other clients' traffic in between; (b) the same over loopback against the real server. Judged: with practically no refill, exactly min(requests, RateBurst) of each client are admitted and the rest get 429. Distinct = (clients, goroutines, burst, requests per client, fresh limiter).")
	r.Watchdog(120*time.Second, true)
	rounds := r.N(2500, 100000)
	var l *guard.Limiter
	var h http.HandlerFunc
	burst := 0
	var handled atomic.Int64
	for round := 0; round < rounds && !r.Stop(); round++ {
		if round%50 == 0 {
			r.Phase(fmt.Sprint("round ", round))
		}
		g := r.Rng(fmt.Sprint("round", round))
		fresh := round%12 == 0
		if fresh {
			burst = 1 + g.IntN(12)
			l = guard.NewLimiter(0.0001, burst, chance(g, .5))
			h = l.LimitHTTP(func(w http.ResponseWriter, _ *http.Request) {
				handled.Add(1)
				w.WriteHeader(299)
			})
		}
		nc := 1 + g.IntN(4)
		per := 1 + g.IntN(2*burst+4)
		type job struct{ c int }
		var jobs []job
		for c := 0; c < nc; c++ {
			for k := 0; k < per; k++ {
				jobs = append(jobs, job{c})
			}
		}
		g.Shuffle(len(jobs), func(i, j int) { jobs[i], jobs[j] = jobs[j], jobs[i] })
		ng := min(len(jobs), pick(g, []int{2, 4, 8, 16, 48}))
		admitted := make([]atomic.Int64, nc)
		other := atomic.Int64{}
		handled.Store(0)
		start := make(chan struct{})
		var wg sync.WaitGroup
		var ready sync.WaitGroup
		for w := 0; w < ng; w++ {
			wg.Add(1)
			ready.Add(1)
			go func() {
				defer wg.Done()
				ready.Done()
				<-start
				for i := w; i < len(jobs); i += ng {
					c := jobs[i].c
					req := httptest.NewRequest("GET", "/", nil)
					req.RemoteAddr = fmt.Sprintf("10.%d.%d.%d:%d", round/256%256, round%256, c, 1000+i)
					req.Header.Set("User-Agent", fmt.Sprint("ua", round))
					rw := httptest.NewRecorder()
					h(rw, req)
					switch rw.Code {
					case 299:
						admitted[c].Add(1)
					case 429:
					default:
						other.Add(1)
					}
					if i%3 == 0 {
						runtime.Gosched()
					}
				}
			}()
		}
		ready.Wait()
		close(start)
		wg.Wait()
		sum := int64(0)
		for c := range admitted {
			want := int64(min(per, burst))
			sum += admitted[c].Load()
			if admitted[c].Load() != want {
				r.Violate("wrong-number-admitted", map[string]any{"burst": burst, "clients": nc, "requests_per_client": per, "goroutines": ng, "admitted": admitted[c].Load(), "fresh_limiter": fresh},
					"%d concurrent requests of one client, burst %d: %d admitted, expected %d", per, burst, admitted[c].Load(), want)
			}
		}
		if other.Load() != 0 || handled.Load() != sum {
			r.Violate("wrong-answer", map[string]any{"other_status": other.Load(), "handler_runs": handled.Load(), "admitted": sum}, "answers other than admitted/429, or handler runs differ")
		}
		r.Count("requests", len(jobs))
		r.Eval(fmt.Sprint(nc, ng, burst, per, fresh))
		if r.WantSample() && ng > 4 {
			r.Sample(map[string]any{"burst": burst, "clients": nc, "requests_per_client": per, "goroutines": ng, "admitted_total": sum})
		}
	}
	// real server
	g := r.Rng("srv")
	dir := rep.Scratch("c08")
	put(dir+"/site", "index.html", "x")
	burst = 5
	p := launch(r, g, dir, M{"Core": core(dir, nil), "Guard": M{"Rate": 0.0001, "RateBurst": burst}, "Serve": M{"ServeDir": dir + "/site", "ServeIndex": "index.html", "Methods": map[string]string{"/": "GET"}}}, nil, srv.Opt{})
	if p != nil {
		defer stop(p)
		bursts := r.N(60, 2000)
		for b := 0; b < bursts && !r.Stop(); b++ {
			r.Phase(fmt.Sprint("server burst ", b))
			const n = 12
			cls := make([]*srv.Client, n)
			ip := fmt.Sprintf("127.1.%d.%d", b/250, 1+b%250)
			for i := range cls {
				cls[i] = client(p, ip)
				cls[i].Get("/warm", "localhost", [2]string{"User-Agent", "warm"}, [2]string{"Content-Type", "x/y"}) // 406 by the router: opens the connection only
			}
			var ok, bad atomic.Int64
			var wg sync.WaitGroup
			start := make(chan struct{})
			for i := range cls {
				wg.Add(1)
				go func() {
					defer wg.Done()
					<-start
					resp, err := cls[i].Get("/", "localhost")
					switch {
					case err != nil || resp.Status != 200 && resp.Status != 429:
						bad.Add(1)
					case resp.Status == 200:
						ok.Add(1)
					}
				}()
			}
			close(start)
			wg.Wait()
			for _, c := range cls {
				c.Close()
			}
			if ok.Load() != int64(burst) || bad.Load() != 0 {
				r.Violate("server-wrong-number-admitted", M{"burst": burst, "concurrent": n, "admitted": ok.Load(), "other": bad.Load()}, "server admitted %d of %d concurrent requests, burst %d (%d bad answers)", ok.Load(), n, burst, bad.Load())
			}
			r.Count("server_requests", n)
			r.Eval(fmt.Sprint("srv", burst, n))
		}
		checkAlive(r, p, nil)
	}
	r.Finish()
}
