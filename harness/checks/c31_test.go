package checks

import (
	"bytes"
	"context"
	"encoding/base64"
	"fmt"
	"io"
	"math/rand/v2"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"github.com/redmaner/MaguroHTTP/guard"
	"github.com/redmaner/MaguroHTTP/router"
	"github.com/redmaner/MaguroHTTP/tuna"

	"verifharness/rep"
	"verifharness/srv"
)

func TestC31(t *testing.T) {
	r := rep.New("C31", "A case is one exchange of a chosen kind and ending (complete, refused, failed, cut off by the upstream at several stages, reset or left by the client at several stages, cancelled streams, uploads given up), tens to hundreds of the same kind in a row on one real server. After each kind, with all clients gone: no file of a site, error page or template is open in the server process, its connections are those the upstream sees idle, few of them; at the end the goroutine dump of the idle server holds no connection, no handler and no more upstream connection loops than the upstream sees connections; memory stays level over tens of thousands of requests; a server that ran out of descriptors answers again once they are free. Distinct = (kind, site, protocol).")
	r.Watchdog(150*time.Second, true)
	r.Phase("clients")
	c31Clients(r, r.Rng("clients"))
	r.Phase("heap")
	c31Heap(r, r.Rng("heap"))
	for s := 0; s < r.N(4, 24) && !r.Stop(); s++ {
		r.Phase(fmt.Sprint("leaks ", s))
		c31Leaks(r, r.Rng(fmt.Sprint("leak", s)), s)
	}
	for s := 0; s < r.N(1, 3) && !r.Stop(); s++ {
		r.Phase(fmt.Sprint("level ", s))
		c31Level(r, r.Rng(fmt.Sprint("level", s)), s)
	}
	for s := 0; s < r.N(2, 6) && !r.Stop(); s++ {
		r.Phase(fmt.Sprint("exhaust ", s))
		c31Exhaust(r, r.Rng(fmt.Sprint("exhaust", s)), s)
	}
	r.Finish()
}

// c31FDs lists what the server, a process of ours, has open.
func c31FDs(p *srv.Proc, dir string) (socks int, files []string) {
	d := fmt.Sprintf("/proc/%d/fd", p.Cmd.Process.Pid)
	es, _ := os.ReadDir(d)
	for _, e := range es {
		l, err := os.Readlink(filepath.Join(d, e.Name()))
		if err != nil {
			continue
		}
		switch {
		case strings.HasPrefix(l, "socket:"):
			socks++
		case strings.HasPrefix(l, dir) && !strings.HasSuffix(l, "/log.txt"):
			files = append(files, strings.TrimPrefix(l, dir))
		}
	}
	return
}

type c31Kind struct {
	name string
	tls  int // 0 any, 1 only with TLS, 2 only without
	do   func(g *rand.Rand, e *c31Env)
}

type c31Env struct {
	r      *rep.R
	w      *world
	stall  chan struct{} // upstreams waiting for ever
	served atomic.Int64
}

func (e *c31Env) dial() net.Conn {
	cn, err := client(e.w.p, "").Dial()
	if err != nil {
		e.r.Violate("dial", M{}, "no connection: %v", err)
		return nil
	}
	cn.SetDeadline(time.Now().Add(60 * time.Second))
	return cn
}

// ask sends one request and reads the answer to its end.
func (e *c31Env) ask(method, host, target string, hdr [][2]string, body []byte) {
	c := client(e.w.p, "")
	defer c.Close()
	_, err := c.Do(srv.Req(method, target, host, hdr, body), method)
	if err != nil && strings.Contains(err.Error(), "timeout") {
		e.r.Violate("no-answer", M{"request": method + " " + host + target}, "%v", err)
	}
}

// part sends one request, reads n bytes and leaves; hard resets the connection.
func (e *c31Env) part(raw []byte, n int64, hard bool) {
	cn := e.dial()
	if cn == nil {
		return
	}
	cn.Write(raw)
	cn.SetReadDeadline(time.Now().Add(200 * time.Millisecond))
	io.CopyN(io.Discard, cn, n)
	if t, ok := cn.(*net.TCPConn); ok && hard {
		t.SetLinger(0)
	}
	cn.Close()
}

// c31Leave is a complete request of any method, with or without a body.
func c31Leave(g *rand.Rand, target, host string) []byte {
	switch g.IntN(3) {
	case 0:
		return srv.Req("POST", target, host, nil, make([]byte, pick(g, []int{0, 1, 5000, 200000})))
	case 1:
		return append(srv.Req("POST", target, host, [][2]string{{"Transfer-Encoding", "chunked"}}, nil), "5\r\nhello\r\n0\r\n\r\n"...)
	}
	return srv.Req("GET", target, host, nil, nil)
}

func c31Kinds() []c31Kind {
	auth := [2]string{"Authorization", adminAuth}
	plan := func(p string) [2]string { return [2]string{"X-Plan", p} }
	ks := []c31Kind{
		{"served", 0, func(g *rand.Rand, e *c31Env) {
			e.ask("GET", "serve0.test", pick(g, []string{"/", "/a/", "/f.bin", "/big.bin", "/x%20y.html"}), nil, nil)
		}},
		{"served-head", 0, func(g *rand.Rand, e *c31Env) { e.ask("HEAD", "serve0.test", "/f.bin", nil, nil) }},
		{"served-304", 0, func(g *rand.Rand, e *c31Env) {
			e.ask("GET", "serve0.test", "/f.bin", [][2]string{{"If-Modified-Since", "Tue, 01 Jan 2047 00:00:00 GMT"}}, nil)
		}},
		{"served-range", 0, func(g *rand.Rand, e *c31Env) {
			e.ask("GET", "serve0.test", "/big.bin", [][2]string{{"Range", pick(g, []string{"bytes=5-9", "bytes=1-2,7-9", "bytes=9999999999-", "bytes=x"})}}, nil)
		}},
		{"served-index-redirect", 0, func(g *rand.Rand, e *c31Env) { e.ask("GET", "serve0.test", "/index.html", nil, nil) }},
		{"served-directory", 0, func(g *rand.Rand, e *c31Env) {
			e.ask("GET", "serve0.test", pick(g, []string{"/a", "/empty", "/empty/"}), nil, nil)
		}},
		{"served-post", 0, func(g *rand.Rand, e *c31Env) { e.ask("POST", "serve0.test", "/f.bin", nil, make([]byte, 5000)) }},
		{"missing", 0, func(g *rand.Rand, e *c31Env) { e.ask("GET", "serve1.test", "/none", nil, nil) }},
		{"refused", 0, func(g *rand.Rand, e *c31Env) { e.ask("GET", "fw0.test", "/secret/s.txt", nil, nil) }},
		{"refused-upload", 0, func(g *rand.Rand, e *c31Env) { e.ask("POST", "fw0.test", "/secret/s.txt", nil, make([]byte, 100000)) }},
		{"limited", 0, func(g *rand.Rand, e *c31Env) { e.ask("GET", "lim0.test", "/", nil, nil) }},
		{"method", 0, func(g *rand.Rand, e *c31Env) { e.ask("BREW", "serve0.test", "/f.bin", nil, nil) }},
		{"list", 0, func(g *rand.Rand, e *c31Env) { e.ask("GET", "download0.test", "/", nil, nil) }},
		{"download", 0, func(g *rand.Rand, e *c31Env) {
			e.ask("GET", "download0.test", pick(g, []string{"/f.bin", "/big.bin", "/a/f.txt"}), nil, nil)
		}},
		{"download-range", 0, func(g *rand.Rand, e *c31Env) {
			e.ask("GET", "download0.test", "/big.bin", [][2]string{{"Range", "bytes=7-70"}}, nil)
		}},
		{"download-304", 0, func(g *rand.Rand, e *c31Env) {
			e.ask("GET", "download0.test", "/f.bin", [][2]string{{"If-Modified-Since", "Tue, 01 Jan 2047 00:00:00 GMT"}}, nil)
		}},
		{"download-head", 0, func(g *rand.Rand, e *c31Env) { e.ask("HEAD", "download0.test", "/f.bin", nil, nil) }},
		{"download-missing", 0, func(g *rand.Rand, e *c31Env) {
			e.ask("GET", "download0.test", pick(g, []string{"/none.bin", "/x%20y.html", "/a", "/dir.bin"}), nil, nil)
		}},
		{"file-reset", 0, func(g *rand.Rand, e *c31Env) {
			e.part(srv.Req("GET", "/big.bin", pick(g, []string{"serve0.test", "download0.test"}), nil, nil), int64(g.IntN(100000)), true)
		}},
		{"file-close", 0, func(g *rand.Rand, e *c31Env) {
			e.part(srv.Req("GET", "/big.bin", pick(g, []string{"serve1.test", "download1.test"}), nil, nil), int64(g.IntN(100000)), false)
		}},
		{"metrics", 0, func(g *rand.Rand, e *c31Env) { e.ask("GET", "m.test", "/metrics", [][2]string{auth}, nil) }},
		{"metrics-denied", 0, func(g *rand.Rand, e *c31Env) { e.ask("GET", "m.test", "/metrics", nil, nil) }},
		{"metrics-reset", 0, func(g *rand.Rand, e *c31Env) {
			e.part(srv.Req("GET", "/metrics", "m.test", [][2]string{auth}, nil), int64(g.IntN(3000)), true)
		}},
		{"request-reset", 0, func(g *rand.Rand, e *c31Env) {
			raw := srv.Req("POST", "/f.bin", pick(g, []string{"serve0.test", "proxy0.test"}), nil, make([]byte, 3000))
			e.part(raw[:1+g.IntN(len(raw)-1)], 0, true)
		}},
		{"garbage", 0, func(g *rand.Rand, e *c31Env) {
			b := make([]byte, 1+g.IntN(300))
			for i := range b {
				b[i] = byte(g.IntN(256))
			}
			e.part(b, 1000, chance(g, .5))
		}},
		{"dead", 0, func(g *rand.Rand, e *c31Env) { e.ask("GET", "dead0.test", "/", nil, nil) }},
		{"dead-upload", 0, func(g *rand.Rand, e *c31Env) { e.ask("POST", "dead0.test", "/", nil, make([]byte, 50000)) }},
		{"proxied", 0, func(g *rand.Rand, e *c31Env) {
			e.ask("GET", "proxy0.test", "/", [][2]string{plan(fmt.Sprintf("%d,%d,%d,0,0", pick(g, []int{0, 100, 200000}), pick(g, []int{200, 404, 500, 302}), g.IntN(2)))}, nil)
		}},
		{"proxied-nobody", 0, func(g *rand.Rand, e *c31Env) {
			e.ask("GET", "proxy0.test", "/raw/"+pick(g, []string{"204", "304", "head"}), nil, nil)
		}},
		{"proxied-head", 0, func(g *rand.Rand, e *c31Env) {
			e.ask("HEAD", "proxy0.test", "/", [][2]string{plan("5000,200,0,0,0")}, nil)
		}},
		{"proxied-upload", 0, func(g *rand.Rand, e *c31Env) {
			e.ask("POST", "proxy1.test", "/", [][2]string{plan("50,200,0,0,0")}, make([]byte, g.IntN(100000)))
		}},
		{"upstream-hangs-up", 0, func(g *rand.Rand, e *c31Env) {
			e.ask("GET", "proxy0.test", "/", [][2]string{plan("0,200,0,1,0")}, nil)
		}},
		{"upstream-cuts", 0, func(g *rand.Rand, e *c31Env) {
			e.ask("GET", "proxy0.test", "/", [][2]string{plan(fmt.Sprintf("100000,200,%d,2,0", g.IntN(2)))}, nil)
		}},
		{"upstream-garbage", 0, func(g *rand.Rand, e *c31Env) { e.ask("GET", "proxy0.test", "/raw/garbage", nil, nil) }},
		{"upstream-early", 0, func(g *rand.Rand, e *c31Env) { e.ask("GET", "proxy0.test", "/raw/early", nil, nil) }},
		{"upstream-101", 0, func(g *rand.Rand, e *c31Env) { e.ask("GET", "proxy0.test", "/raw/101", nil, nil) }},
		{"upstream-chunk-error", 0, func(g *rand.Rand, e *c31Env) { e.ask("GET", "proxy0.test", "/raw/badchunk", nil, nil) }},
		{"upstream-too-long", 0, func(g *rand.Rand, e *c31Env) { e.ask("GET", "proxy0.test", "/raw/toolong", nil, nil) }},
		{"proxied-reset", 0, func(g *rand.Rand, e *c31Env) {
			e.part(srv.Req("GET", "/", "proxy0.test", [][2]string{plan("3000000,200,0,0,0")}, nil), int64(g.IntN(100000)), true)
		}},
		{"proxied-left", 0, func(g *rand.Rand, e *c31Env) {
			e.part(srv.Req("GET", "/", "proxy0.test", [][2]string{plan("3000000,200,1,0,20")}, nil), int64(g.IntN(100)), false)
		}},
		{"left-while-upstream-thinks", 0, func(g *rand.Rand, e *c31Env) {
			e.part(c31Leave(g, "/raw/never", "proxy0.test"), 1, chance(g, .5))
		}},
		{"left-while-upstream-stalls", 0, func(g *rand.Rand, e *c31Env) {
			e.part(c31Leave(g, "/raw/stall", "proxy1.test"), 50000, chance(g, .5))
		}},
		{"upload-given-up", 0, func(g *rand.Rand, e *c31Env) {
			e.part(srv.Req("POST", "/", pick(g, []string{"proxy0.test", "serve0.test", "dead0.test"}), [][2]string{{"Content-Length", "100000"}}, make([]byte, 1000)), 0, chance(g, .5))
		}},
	}
	for _, k := range []string{"/big.bin serve0.test", "/big.bin download0.test", "/metrics m.test", "/raw/stall proxy0.test", "/raw/never proxy0.test", "/none serve1.test", "/ dead0.test"} {
		target, host, _ := strings.Cut(k, " ")
		ks = append(ks, c31Kind{"h2-cancel " + k, 1, func(g *rand.Rand, e *c31Env) {
			tr := c27Transport()
			var cs []net.Conn // all are closed in the end, cancelled streams or not
			var mu sync.Mutex
			tr.DialContext = func(ctx context.Context, network, addr string) (net.Conn, error) {
				cn, err := (&net.Dialer{}).DialContext(ctx, network, addr)
				if err == nil {
					mu.Lock()
					cs = append(cs, cn)
					mu.Unlock()
				}
				return cn, err
			}
			defer func() {
				tr.CloseIdleConnections()
				time.Sleep(10 * time.Millisecond)
				mu.Lock()
				for _, cn := range cs {
					cn.Close()
				}
				mu.Unlock()
			}()
			var wg sync.WaitGroup
			for i := 0; i < 3; i++ {
				ctx, cancel := context.WithCancel(context.Background())
				post := chance(g, .5)
				d, n := time.Duration(g.IntN(30000))*time.Microsecond, int64(g.IntN(100000))
				wg.Add(1)
				go func() {
					defer wg.Done()
					time.AfterFunc(d, cancel)
					var body io.Reader
					method := "GET"
					if post {
						method, body = "POST", bytes.NewReader(make([]byte, 2000))
					}
					req, _ := http.NewRequestWithContext(ctx, method, "https://"+e.w.p.Addr+target, body)
					req.Host = host
					req.Header.Set("Authorization", adminAuth)
					res, err := tr.RoundTrip(req)
					if err == nil {
						io.CopyN(io.Discard, res.Body, n)
						res.Body.Close()
					}
					cancel()
				}()
			}
			wg.Wait()
		}})
	}
	return ks
}

func (e *c31Env) respond(q *srv.UpReq, c net.Conn) bool {
	kind, ok := strings.CutPrefix(q.Target, "/raw/")
	if !ok {
		return c27Respond(q, c)
	}
	switch kind {
	case "204":
		io.WriteString(c, "HTTP/1.1 204 No Content\r\n\r\n")
	case "304":
		io.WriteString(c, "HTTP/1.1 304 Not Modified\r\n\r\n")
	case "head":
		io.WriteString(c, "HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n")
	case "garbage":
		io.WriteString(c, "this is not HTTP at all\r\n\r\n")
		return false
	case "early":
		io.WriteString(c, "HTTP/1.1 413 Large\r\nContent-Length: 3\r\nConnection: close\r\n\r\nbig")
		return false
	case "101":
		io.WriteString(c, "HTTP/1.1 101 Switching Protocols\r\nConnection: Upgrade\r\nUpgrade: x\r\n\r\nhello")
		io.Copy(io.Discard, c)
		return false
	case "badchunk":
		io.WriteString(c, "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n5\r\nhello\r\nzzz\r\n")
		return true
	case "toolong":
		io.WriteString(c, "HTTP/1.1 200 OK\r\nContent-Length: 3\r\n\r\nabcdef")
		return true
	case "never":
		// says nothing until the connection ends
		io.Copy(io.Discard, c)
		return false
	case "stall":
		fmt.Fprintf(c, "HTTP/1.1 200 OK\r\nContent-Length: 1000000\r\n\r\n%s", bytes.Repeat([]byte("s"), 70000))
		io.Copy(io.Discard, c)
		return false
	}
	return true
}

func c31World(r *rep.R, g *rand.Rand, useTLS bool) *world {
	return newWorld(r, g, "c31", useTLS, "", func(w *world, main M, vh map[string]M) {
		main["Core"] = srv.Merge(main["Core"].(M), M{"ReadTimeout": 600, "WriteTimeout": 600, "ReadHeaderTimeout": 600})
		put(w.dir+"/www", "big.bin", strings.Repeat("0123456789abcdef", 200000))
		put(w.dir+"/www", "dir.bin/x", "x")
		os.MkdirAll(w.dir+"/www/empty", 0o755)
	})
}

func c31Leaks(r *rep.R, g *rand.Rand, s int) {
	useTLS := s%2 == 1
	w := c31World(r, g, useTLS)
	if w == nil {
		return
	}
	defer w.close()
	e := &c31Env{r: r, w: w}
	w.up.Respond = e.respond
	base, _ := c31FDs(w.p, w.dir)
	kinds := c31Kinds()
	g.Shuffle(len(kinds), func(i, j int) { kinds[i], kinds[j] = kinds[j], kinds[i] })
	const conc = 4
	for _, k := range kinds {
		if k.tls == 1 && !useTLS || k.tls == 2 && useTLS || r.Stop() {
			continue
		}
		n := r.N(8, 40)
		var wg sync.WaitGroup
		for c := 0; c < conc; c++ {
			gg := rand.New(rand.NewPCG(g.Uint64(), 1))
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < n; i++ {
					k.do(gg, e)
					r.Beat()
				}
			}()
		}
		wg.Wait()
		// at rest: nothing of it is left
		wit := M{"kind": k.name, "times": n * conc, "tls": useTLS}
		bad := ""
		for t0 := time.Now(); time.Since(t0) < 20*time.Second; time.Sleep(20 * time.Millisecond) {
			socks, files := c31FDs(w.p, w.dir)
			live := w.up.Live()
			switch {
			case len(files) > 0:
				bad = fmt.Sprintf("open files: %.300q", fmt.Sprint(files))
			case live > 2*conc:
				bad = fmt.Sprintf("%d upstream connections remain", live)
			case socks > base+live:
				bad = fmt.Sprintf("%d sockets are open, %d at the start, %d to the upstream", socks, base, live)
			default:
				bad = ""
			}
			if bad == "" {
				break
			}
			r.Beat()
		}
		if bad != "" {
			r.Violate("leak-"+k.name, wit, "%d × %s, all clients gone for 20 s: %s", n*conc, k.name, bad)
		}
		r.Eval(fmt.Sprint(k.name, useTLS))
		for i := 1; i < n*conc; i++ {
			r.Eval("")
		}
		r.Count("kinds_at_rest", 1)
		if r.WantSample() {
			r.Sample(wit)
		}
	}
	if !checkAlive(r, w.p, nil) {
		return
	}
	checkPanics(r, w.p, "panic")
	// what still runs in the idle server
	live := w.up.Live()
	w.p.Signal(syscall.SIGQUIT)
	if !w.p.WaitExit(30 * time.Second) {
		r.Inconclusive("no goroutine dump")
		return
	}
	out := w.p.Out.String()
	i := strings.LastIndex(out, "SIGQUIT")
	if i < 0 {
		r.Inconclusive("no goroutine dump: %s", tailS(out, 500))
		return
	}
	gs := regexp.MustCompile(`(?m)^goroutine \d+ .*\[`).Split(out[i:], -1)[1:]
	count := map[string]int{}
	for _, st := range gs {
		switch {
		case strings.Contains(st, "(*persistConn)"):
			count["upstream"]++
		case strings.Contains(st, "http.(*conn).serve") || strings.Contains(st, "http2") || strings.Contains(st, "backgroundRead"):
			count["connection"]++
			if count["example"+""] == 0 {
				r.Note("left connection: " + clip(st))
			}
		case strings.Contains(st, "/repo/"):
			count["server"]++
		default:
			count["runtime"]++
		}
	}
	wit := M{"goroutines": count, "upstream_connections": live, "tls": useTLS}
	if count["connection"] > 0 || count["upstream"] > 2*live || count["server"] > 12 {
		r.Violate("goroutines", srv.Merge(wit, M{"dump": tailS(out[i:], 8000)}), "the idle server still has goroutines of %d client connections, %d of upstream connections (%d open), %d of its own", count["connection"], count["upstream"], live, count["server"])
	}
	r.Count("goroutine_dumps", 1)
	r.Count("goroutines", len(gs))
	r.Eval(fmt.Sprint("dump", useTLS))
}

func c31RSS(p *srv.Proc) int {
	b, _ := os.ReadFile(fmt.Sprintf("/proc/%d/status", p.Cmd.Process.Pid))
	for _, l := range strings.Split(string(b), "\n") {
		if v, ok := strings.CutPrefix(l, "VmRSS:"); ok {
			n, _ := strconv.Atoi(strings.Fields(v)[0])
			return n
		}
	}
	return -1
}

// c31Clients lets very many different clients pass the components every request goes through.
func c31Clients(r *rep.R, g *rand.Rand) {
	ok := http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) { w.WriteHeader(200) })
	fw := guard.NewFirewall()
	fw.Rules = map[string][]string{"/secret": {"*"}}
	ro := router.NewRouter()
	ro.ErrorHandler = func(w http.ResponseWriter, _ *http.Request, code int) { w.WriteHeader(code) }
	ro.AddRoute(router.DefaultHost, "/", true, "GET", "*", ok)
	ro.UseMiddleware(router.DefaultHost, "/", router.MiddlewareHandlerFunc(fw.BlockHTTP))
	// a rule of its own per component: whichever keeps clients is named
	for _, kind := range []string{"limiter-agent", "limiter-address", "router"} {
		var h http.HandlerFunc
		switch kind {
		case "limiter-agent":
			h = guard.NewLimiter(60, 5, false).LimitHTTP(ok)
		case "limiter-address":
			h = guard.NewLimiter(60, 5, true).LimitHTTP(ok)
		default:
			h = ro.ServeHTTP
		}
		heap := func() uint64 {
			runtime.GC()
			runtime.GC()
			var m runtime.MemStats
			runtime.ReadMemStats(&m)
			return m.HeapAlloc
		}
		const per = 150000
		var hs []uint64
		tag := g.Uint32()
		n := 0
		for round := 0; round < r.N(5, 10); round++ {
			var wg sync.WaitGroup
			for k := 0; k < 8; k++ {
				wg.Add(1)
				from := n + k*per/8
				go func() {
					defer wg.Done()
					req := httptest.NewRequest("GET", "/", nil)
					w := httptest.NewRecorder()
					for i := from; i < from+per/8; i++ {
						// header values and addresses are parts of larger strings, as in a server
						buf := fmt.Sprintf("agent-%d-%08d 10.%d.%d.%d:%d /p%d h%d.test", tag, i, i>>16&255, i>>8&255, i&255, 1024+i%60000, i, i)
						f := strings.Fields(buf)
						req.RemoteAddr = f[1]
						if kind == "limiter-address" {
							req.RemoteAddr = fmt.Sprintf("[2001:db8::%x:%x]:99", i>>16, i&0xffff)
						}
						req.Header["User-Agent"] = []string{f[0]}
						if kind == "router" {
							req.URL.Path, req.Host = f[2], f[3]
						}
						h(w, req)
						if i%10000 == 0 {
							r.Beat()
							w = httptest.NewRecorder()
						}
					}
				}()
			}
			wg.Wait()
			n += per
			hs = append(hs, heap()>>10)
			r.Count("distinct_clients", per)
		}
		// the limiters keep at most 262144 clients; the first rounds fill them
		wit := M{"component": kind, "heap_kb_after_round": hs, "clients_per_round": per}
		if d := int64(hs[len(hs)-1]) - int64(hs[2]); d > int64(len(hs)-3)*8000 {
			r.Violate("clients-kept", wit, "%s: the heap grows by %d kB while %d further clients come by once each", kind, d, (len(hs)-3)*per)
		}
		r.Eval("clients " + kind)
		if r.WantSample() {
			r.Sample(wit)
		}
		runtime.KeepAlive(h)
	}
}

// c31Body counts what is closed of the bodies handed out.
type c31Body struct {
	io.Reader
	open *atomic.Int64
	once sync.Once
}

func (b *c31Body) Close() error { b.once.Do(func() { b.open.Add(-1) }); return nil }

type c31Trip func(*http.Request) (*http.Response, error)

func (f c31Trip) RoundTrip(q *http.Request) (*http.Response, error) { return f(q) }

// c31Heap sends very many requests that differ in all a client may choose through the handlers of an instance in this process. Nothing of them is to be kept.
func c31Heap(r *rep.R, g *rand.Rand) {
	dir := rep.Scratch("c31heap")
	for _, p := range []string{"index.html", "a/f.txt", "f.bin", "secret/s.txt"} {
		put(dir+"/www", p, "FILE "+p)
	}
	put(dir, "err404.html", "custom 404 page")
	os.MkdirAll(dir+"/files", 0o755)
	// the limiter knows clients by address, of which there are few
	lim := M{"Rate": 1e9, "RateBurst": 1000000000, "FilterOnIP": true}
	serve := M{"ServeDir": dir + "/www", "ServeIndex": "index.html", "Methods": M{"/": "GET;HEAD;POST"}}
	vh := map[string]M{
		"serve.test":    {"Guard": lim, "Serve": serve},
		"download.test": {"Guard": lim, "Serve": M{"ServeDir": dir + "/www", "ServeIndex": "index.html", "Download": M{"Enabled": true, "Exts": []string{".bin", ".txt"}}}},
		"proxy.test":    {"Guard": lim, "Proxy": M{"Enabled": true, "Rules": M{"proxy.test": "http://127.0.0.1:9/base"}, "Methods": []string{"GET", "POST"}}},
		"dead.test":     {"Guard": lim, "Proxy": M{"Enabled": true, "Rules": M{"dead.test": "http://127.0.0.1:9/dead"}, "Methods": []string{"GET"}}},
		"fw.test":       {"Guard": srv.Merge(lim, M{"Firewall": M{"Enabled": true, "Blacklisting": true, "Subpath": true, "Rules": M{"/secret": []string{"*"}}}}), "Serve": serve},
		"lim.test":      {"Guard": M{"Rate": 0.001, "RateBurst": 2, "FilterOnIP": true}, "Serve": serve},
		"page.test":     {"Guard": lim, "Serve": serve, "Errors": M{"404": dir + "/err404.html"}},
	}
	files := map[string]string{}
	for h, c := range vh {
		files[h] = srv.WriteConfig(dir+"/"+h+".cfg", c, false, g)
	}
	log := "/dev/null"
	path := srv.WriteConfig(dir+"/main.cfg", M{"Core": core(dir, M{"Port": "1", "LogOut": log, "VirtualHosting": true, "VirtualHosts": files, "Metrics": M{"Enabled": true, "Path": "/metrics", "Out": dir + "/m.json", "Users": M{"admin": "pw"}}})}, false, nil)
	s := tuna.NewInstanceFromConfig(path)
	var open atomic.Int64
	s.Transport = c31Trip(func(q *http.Request) (*http.Response, error) {
		if q.Body != nil {
			io.Copy(io.Discard, q.Body)
			q.Body.Close()
		}
		if strings.HasPrefix(q.URL.Path, "/dead") {
			return nil, fmt.Errorf("refused")
		}
		open.Add(1)
		var h http.Header = http.Header{"Content-Type": {"text/plain"}, "X-Up": {q.URL.RawQuery}}
		return &http.Response{StatusCode: 200, Status: "200 OK", Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: h, ContentLength: 2, Request: q, Body: &c31Body{Reader: strings.NewReader("up"), open: &open}}, nil
	})
	heap := func() int64 {
		runtime.GC()
		runtime.GC()
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		return int64(m.HeapAlloc)
	}
	kinds := []struct {
		name, method, host, path string
		status                   int
	}{
		{"file", "GET", "serve.test", "/a/f.txt", 200}, {"index", "GET", "serve.test", "/", 200}, {"redirect", "GET", "serve.test", "/a", 301}, {"missing", "GET", "serve.test", "/none/%d", 404}, {"head", "HEAD", "serve.test", "/a/f.txt", 200},
		{"method", "PUT", "serve.test", "/a/%d", 405}, {"type", "POST", "serve.test", "/a/f.txt", 406}, {"listing", "GET", "download.test", "/", 200}, {"download", "GET", "download.test", "/f.bin", 200}, {"proxied", "GET", "proxy.test", "/x/%d", 200},
		{"uploaded", "POST", "proxy.test", "/x", 200}, {"dead", "GET", "dead.test", "/x/%d", 502}, {"forbidden", "GET", "fw.test", "/secret/%d", 403}, {"limited", "GET", "lim.test", "/", 429}, {"custom-page", "GET", "page.test", "/none/%d", 404}, {"nobody", "GET", "h%d.test", "/%d", 404}, {"metrics", "GET", "serve.test", "/metrics", 401},
	}
	per, rounds := r.N(12000, 40000), 4
	n := 0
	for _, k := range kinds {
		if r.Stop() {
			return
		}
		var hs []int64
		var bad atomic.Int64
		gs := runtime.NumGoroutine()
		for round := 0; round < rounds; round++ {
			var wg sync.WaitGroup
			for c := 0; c < 8; c++ {
				from := n + c*per/8
				wg.Add(1)
				go func() {
					defer wg.Done()
					for i := from; i < from+per/8; i++ {
						target := strings.ReplaceAll(k.path, "%d", fmt.Sprint(i))
						var body io.Reader
						if k.method == "POST" {
							body = strings.NewReader("body")
						}
						req := httptest.NewRequest(k.method, target+fmt.Sprintf("?q=%d", i), body)
						req.Host = strings.ReplaceAll(k.host, "%d", fmt.Sprint(i))
						if i%3 == 0 {
							req.Host += fmt.Sprint(":", 1+i%65000)
						}
						req.RemoteAddr = fmt.Sprintf("10.0.0.%d:%d", 1+i%100, 1024+i/100%64000)
						if i%2 == 0 {
							req.RemoteAddr = fmt.Sprintf("[2001:db8::%x]:%d", 1+i%100, 1024+i/100%64000)
						}
						req.Header.Set("User-Agent", fmt.Sprintf("agent/%d", i))
						req.Header.Set("Cookie", fmt.Sprintf("session=%d", i))
						req.Header.Set("Referer", fmt.Sprintf("http://x.test/%d", i))
						req.Header.Set("X-Request-ID", fmt.Sprint(i))
						if k.status == 401 {
							req.Header.Set("Authorization", "Basic "+base64.StdEncoding.EncodeToString([]byte(fmt.Sprintf("u%d:p%d", i, i))))
						}
						if k.status == 406 {
							req.Header.Set("Content-Type", fmt.Sprintf("text/x%d", i))
						}
						if k.name == "file" && i%2 == 0 {
							req.Header.Set("If-None-Match", fmt.Sprintf(`"%d"`, i))
						}
						w := httptest.NewRecorder()
						s.Router.ServeHTTP(w, req)
						if w.Code != k.status {
							bad.Add(1)
						}
						if i%5000 == 0 {
							r.Beat()
						}
					}
				}()
			}
			wg.Wait()
			n += per
			hs = append(hs, heap())
		}
		r.Eval("heap " + k.name)
		r.Count("heap_requests", per*rounds)
		r.Count("heap_requests_of_another_status", int(bad.Load()))
		least := hs[1] - hs[0]
		for i := 2; i < rounds; i++ {
			least = min(least, hs[i]-hs[i-1])
		}
		wit := M{"kind": k.name, "heap_after_round": hs, "requests_per_round": per}
		if least > int64(per)*24 {
			r.Violate("kept-"+k.name, wit, "every %d requests (%s) leave at least %d bytes behind", per, k.name, least)
		}
		if o := open.Swap(0); o > 0 {
			r.Violate("body-open", wit, "%d answers of the upstream were not closed", o)
		}
		for i := 0; i < 200 && runtime.NumGoroutine() > gs+50; i++ {
			time.Sleep(10 * time.Millisecond)
		}
		if d := runtime.NumGoroutine() - gs; d > 50 {
			r.Violate("goroutines-"+k.name, wit, "%d requests (%s) left %d goroutines behind", per*rounds, k.name, d)
		}
		if r.WantSample() {
			r.Sample(wit)
		}
	}
	runtime.KeepAlive(s)
}

// c31Level sends the same requests very often.
func c31Level(r *rep.R, g *rand.Rand, s int) {
	w := c31World(r, g, s%2 == 1)
	if w == nil {
		return
	}
	defer w.close()
	e := &c31Env{r: r, w: w}
	w.up.Respond = e.respond
	asks := []string{"serve0.test /", "serve0.test /none", "download0.test /", "download0.test /f.bin", "proxy0.test /", "dead0.test /", "fw0.test /secret/s.txt", "lim0.test /", "m.test /metrics", "serve1.test /a/f.txt", "nobody.test /"}
	// the limiters' caches are full after about a thousand requests per client and site
	per, warm, rounds := 3000, 5, r.N(9, 30)
	var rss []int
	long := strings.Repeat("0123456789", 150)
	for round := 0; round < rounds; round++ {
		var wg sync.WaitGroup
		for k := 0; k < 8; k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				c := client(w.p, fmt.Sprintf("127.0.8.%d", 1+k))
				defer c.Close()
				for i := 0; i < per; i++ {
					host, target, _ := strings.Cut(asks[(i+k)%len(asks)], " ")
					if s%2 == 0 && i%3 == 0 {
						// without metrics nothing has to be kept of a path or host
						if i%2 == 0 {
							target = fmt.Sprintf("/none/%d/%d/%d/", round, k, i) + long
						} else {
							host = fmt.Sprintf("h%d-%d-%d.", round, k, i) + long + ".test"
						}
					}
					if _, err := c.Get(target, host); err != nil {
						r.Violate("level-no-answer", M{"request": host + target}, "%v", err)
						return
					}
					r.Beat()
				}
			}()
		}
		wg.Wait()
		rss = append(rss, c31RSS(w.p))
		r.Count("level_requests", 8*per)
	}
	growth, judged := rss[len(rss)-1]-rss[warm], (rounds-1-warm)*8*per
	wit := M{"rss_kb": rss, "requests_per_round": 8 * per}
	// about 0.4 kB per request or more
	if growth > judged*2/5 && growth > 28000 {
		r.Violate("memory-grows", wit, "memory grew by %d kB over %d equal requests", growth, judged)
	}
	r.Eval("level")
	r.Sample(wit)
	r.Note(fmt.Sprint("memory after each round of equal requests (kB): ", rss))
	checkPanics(r, w.p, "panic")
}

// c31Exhaust lets clients use up all descriptors.
func c31Exhaust(r *rep.R, g *rand.Rand, s int) {
	prl, err := exec.LookPath("prlimit")
	if err != nil {
		r.Note("prlimit not found: descriptor exhaustion not exercised")
		return
	}
	dir := rep.Scratch("c31x")
	put(dir, "www/index.html", "INDEX")
	put(dir, "www/f.bin", strings.Repeat("f", 50000))
	up := srv.NewUpstream("u", "")
	defer up.Close()
	limit := 40 + g.IntN(60)
	cfg := M{"Core": core(dir, M{"LogOut": dir + "/log.txt", "ReadHeaderTimeout": 600, "ReadTimeout": 600}), "Guard": noLimit()}
	vh := map[string]M{
		"s.test": {"Guard": noLimit(), "Serve": M{"ServeDir": dir + "/www", "ServeIndex": "index.html", "Methods": M{"/": "GET"}}},
		"d.test": {"Guard": noLimit(), "Serve": M{"ServeDir": dir + "/www", "ServeIndex": "index.html", "Download": M{"Enabled": true, "Exts": []string{".bin"}}}},
		"p.test": {"Guard": noLimit(), "Proxy": M{"Enabled": true, "Rules": M{"p.test": "http://" + up.Addr}, "Methods": []string{"GET"}}},
	}
	p := launch(r, g, dir, cfg, vh, srv.Opt{Wrap: []string{prl, fmt.Sprintf("--nofile=%d", limit), "--"}})
	if p == nil {
		return
	}
	defer p.Kill()
	works := func(stage string) bool {
		for _, q := range [][3]string{{"s.test", "/", "INDEX"}, {"d.test", "/f.bin", "fff"}, {"p.test", "/", "up:u"}, {"s.test", "/none", "404"}, {"d.test", "/", "f.bin"}} {
			last := ""
			ok := false
			for t0 := time.Now(); time.Since(t0) < 40*time.Second && !ok; time.Sleep(30 * time.Millisecond) {
				c := client(p, "")
				c.Timeout = 15 * time.Second
				resp, err := c.Get(q[1], q[0])
				c.Close()
				if err != nil {
					last = err.Error()
				} else {
					last = fmt.Sprint(resp.Status, " ", clip(string(resp.Body)))
					ok = strings.Contains(string(resp.Body), q[2])
				}
				if !checkAlive(r, p, M{"descriptors": limit, "stage": stage}) {
					return false
				}
			}
			if !ok {
				r.Violate("no-recovery", M{"descriptors": limit, "stage": stage, "request": q, "last": last}, "%s, %d descriptors: %s%s is not answered right for 40 s, last %s", stage, limit, q[0], q[1], last)
				return false
			}
			r.Eval(fmt.Sprint(stage, q[0], q[1]))
			r.Beat()
		}
		return true
	}
	if !works("before") {
		return
	}
	for round := 0; round < 2; round++ {
		var cs []net.Conn
		for i := 0; i < limit+30; i++ {
			d := net.Dialer{Timeout: 2 * time.Second}
			cn, err := d.Dial("tcp", p.Addr)
			if err != nil {
				continue
			}
			if i%3 == 0 {
				io.WriteString(cn, "GET /f.bin HTTP/1.1\r\nHost: d.test\r\n")
			} else if i%3 == 1 {
				io.WriteString(cn, fmt.Sprintf("GET / HTTP/1.1\r\nHost: %s\r\n\r\n", pick(g, []string{"p.test", "s.test", "d.test"})))
			}
			cs = append(cs, cn)
		}
		time.Sleep(time.Duration(200+g.IntN(800)) * time.Millisecond)
		socks, _ := c31FDs(p, dir)
		r.Count("sockets_at_exhaustion", socks)
		r.Count("exhaustions", 1)
		for _, c := range cs {
			if chance(g, .3) {
				c.(*net.TCPConn).SetLinger(0)
			}
			c.Close()
		}
		if !works(fmt.Sprint("after descriptors ran out ", round)) {
			return
		}
	}
	checkPanics(r, p, "panic")
}
