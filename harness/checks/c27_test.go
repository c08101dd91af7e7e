package checks

import (
	"bufio"
	"bytes"
	"context"
	"crypto/sha256"
	"crypto/tls"
	"fmt"
	"io"
	"math/rand/v2"
	"net"
	"net/http"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"verifharness/rep"
	"verifharness/srv"
)

func TestC27(t *testing.T) {
	r := rep.New("C27", "A case is one exchange with the real server (built with the race detector) in the middle of a storm of concurrent clients: requests to served, download, proxied, dead, firewalled and rate limited virtual hosts, error pages, the metrics page, uploads, ranges, pipelined, malformed, aborted, stalled and slowly read ones, over HTTP/1.1, TLS and HTTP/2, ending with a stop under load. Its answer must be one the same request got when sent alone before (status, headers without Date, body), for proxied requests the echo of that very request; limited clients are admitted exactly as often as the bucket allows; nothing panics, nothing races, everything complete is counted and logged once. Distinct = (request kind, protocol, status, concurrency).")
	r.Watchdog(150*time.Second, true)
	for s := 0; s < r.N(5, 40) && !r.Stop(); s++ {
		r.Phase(fmt.Sprint("storm ", s))
		c27Server(r, r.Rng(fmt.Sprint("srv", s)), s)
	}
	for s := 0; s < r.N(4, 16) && !r.Stop(); s++ {
		r.Phase(fmt.Sprint("held ", s))
		c27Held(r, r.Rng(fmt.Sprint("held", s)), s)
	}
	r.Finish()
}

// c27Held keeps hundreds of exchanges open at the same time, at an upstream, in unread answers and in half-sent requests: each gets as
// far as it would alone, and others are answered meanwhile.
func c27Held(r *rep.R, g *rand.Rand, s int) {
	dir := rep.Scratch("c27h")
	useTLS := s%2 == 1
	up := srv.NewUpstream("held", "")
	defer up.Close()
	gate := make(chan bool)
	up.Respond = func(q *srv.UpReq, c net.Conn) bool {
		if strings.HasPrefix(q.Target, "/hold") {
			<-gate
		}
		b := "echo " + q.Target
		fmt.Fprintf(c, "HTTP/1.1 200 OK\r\nContent-Length: %d\r\n\r\n%s", len(b), b)
		return true
	}
	put(dir+"/www", "f.txt", "file")
	put(dir+"/www", "big.bin", strings.Repeat("0123456789abcdef", 1<<20))
	o := M{"ReadTimeout": 300, "WriteTimeout": 300, "ReadHeaderTimeout": 300}
	cfg := M{"Core": core(dir, o)}
	if useTLS {
		cert := srv.MakeCert(dir, "tls", false, "localhost")
		cfg["Core"] = srv.Merge(cfg["Core"].(M), M{"TLS": M{"Enabled": true, "TLSCert": cert.CertFile, "TLSKey": cert.KeyFile}})
	}
	vh := map[string]M{
		"px.test": {"Guard": noLimit(), "Proxy": M{"Enabled": true, "Rules": M{"px.test": "http://" + up.Addr}, "Methods": []string{"GET"}}},
		"sv.test": {"Guard": noLimit(), "Serve": M{"ServeDir": dir + "/www", "ServeIndex": "index.html", "Methods": M{"/": "GET;POST"}, "MIMETypes": M{}}},
	}
	p := launch(r, g, dir, cfg, vh, srv.Opt{})
	if p == nil {
		return
	}
	defer stop(p)
	n := pick(g, []int{150, 300, 600})
	wit := M{"held": n, "tls": useTLS}
	env := &c27Env{w: &world{p: p}}
	do := func(a *c27Ask) (*srv.Resp, error) { return env.h1(client(p, ""))(a) }
	if useTLS && s%4 == 1 {
		tr := make([]func(a *c27Ask) (*srv.Resp, error), 1+n/200)
		for i := range tr {
			tr[i] = env.h2(c27Transport())
		}
		var k atomic.Int64
		do = func(a *c27Ask) (*srv.Resp, error) { return tr[int(k.Add(1))%len(tr)](a) }
		wit["http2"] = true
	}
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			t := fmt.Sprint("/hold/", i)
			resp, err := do(&c27Ask{method: "GET", target: t, host: "px.test"})
			if err != nil {
				r.Violate("held-no-answer", srv.Merge(wit, M{"target": t}), "no answer: %v", err)
			} else if resp.Status != 200 || string(resp.Body) != "echo "+t {
				r.Violate("held-answer", srv.Merge(wit, M{"target": t}), "%d %s", resp.Status, clip(string(resp.Body)))
			}
			r.Eval(fmt.Sprint("held", useTLS, n))
		}()
	}
	var conns []net.Conn // unread answers and half-sent requests
	for i := 0; i < n; i++ {
		c, err := client(p, "").Dial()
		if err != nil {
			break
		}
		conns = append(conns, c)
		if i%2 == 0 {
			io.WriteString(c, "GET /big.bin HTTP/1.1\r\nHost: sv.test\r\n\r\n")
		} else {
			io.WriteString(c, pick(g, []string{"GET /f.txt HTTP/1.1\r\nHo", "POST /f.txt HTTP/1.1\r\nHost: sv.test\r\nContent-Length: 10\r\n\r\nabc", "G"}))
		}
	}
	end := time.Now().Add(60 * time.Second)
	for up.Count() < n && time.Now().Before(end) {
		time.Sleep(20 * time.Millisecond)
	}
	if up.Count() < n {
		r.Violate("held-kept-back", wit, "after 60 s only %d of %d requests had reached the upstream", up.Count(), n)
		close(gate)
		return
	}
	r.Count("held_at_once", min(up.Count(), n))
	for i := 0; i < 20 && !r.Stop(); i++ {
		t, host, want := fmt.Sprint("/now/", i), "px.test", fmt.Sprint("echo /now/", i)
		if i%2 == 1 {
			t, host, want = "/f.txt", "sv.test", "file"
		}
		resp, err := env.h1(client(p, ""))(&c27Ask{method: "GET", target: t, host: host})
		if err != nil || resp.Status != 200 || string(resp.Body) != want {
			r.Violate("held-others", srv.Merge(wit, M{"target": t, "host": host}), "while %d exchanges are held another one got %v %v", n, resp, err)
		}
		r.Eval(fmt.Sprint("held-other", useTLS, host))
	}
	close(gate)
	wg.Wait()
	for _, c := range conns {
		c.Close()
	}
	checkAlive(r, p, wit)
	checkPanics(r, p, "panic")
}

type c27Ask struct {
	method, target, host string
	hdr                  [][2]string
	body                 []byte
	raw                  []byte // sent as is on a connection of its own
	mu                   sync.Mutex
	solo                 map[string]string // signature -> whole answer, per protocol
}

func (a *c27Ask) String() string {
	if a.raw != nil {
		return fmt.Sprintf("raw %q", clip(string(a.raw)))
	}
	return fmt.Sprint(a.method, " ", a.host, clip(a.target), " ", a.hdr)
}

// c27Sig is everything of an answer that must not depend on others.
func c27Sig(resp *srv.Resp) (string, string) {
	var hs []string
	for k, vs := range resp.Header {
		// connection management may differ from exchange to exchange
		if k == "Date" || k == "Connection" || k == "Keep-Alive" {
			continue
		}
		for _, v := range vs {
			hs = append(hs, k+": "+v)
		}
	}
	sort.Strings(hs)
	body := string(resp.Body)
	if ct := resp.Header.Get("Content-Type"); strings.HasPrefix(ct, "multipart/byteranges; boundary=") {
		b := ct[len("multipart/byteranges; boundary="):]
		body = strings.ReplaceAll(body, b, "BOUNDARY")
		for i := range hs {
			hs[i] = strings.ReplaceAll(hs[i], b, "BOUNDARY")
		}
	}
	full := fmt.Sprintf("%d\n%s\n\n%d bytes %x\n%s", resp.Status, strings.Join(hs, "\n"), len(body), sha256.Sum256([]byte(body)), clip(body))
	return fmt.Sprint(resp.Status, fmt.Sprintf("%x", sha256.Sum256([]byte(full)))), full
}

type c27Env struct {
	r       *rep.R
	w       *world
	asks    []*c27Ask
	big     []byte
	until   time.Time
	ending  atomic.Bool // the stop signal may have been sent
	conc    int
	mu      sync.Mutex
	open    []io.Closer
	limited map[string]*[2]atomic.Int64 // client|host -> admitted, refused
	private map[string]int              // path -> complete requests
}

func (e *c27Env) keep(c io.Closer) { e.mu.Lock(); e.open = append(e.open, c); e.mu.Unlock() }

var c27Date = regexp.MustCompile(`(?m)^Date: [^\r\n]*`)

func c27Server(r *rep.R, g *rand.Rand, s int) {
	useTLS := s%2 == 1
	e := &c27Env{r: r, limited: map[string]*[2]atomic.Int64{}, private: map[string]int{}, conc: pick(g, []int{12, 24, 40})}
	e.w = newWorld(r, g, "c27", useTLS, "", func(w *world, main M, vh map[string]M) {
		main["Core"] = srv.Merge(main["Core"].(M), M{"ReadTimeout": 60, "WriteTimeout": 60, "ReadHeaderTimeout": 60})
		e.big = make([]byte, 3<<20)
		for i := range e.big {
			e.big[i] = byte(i>>12) ^ byte(i*7)
		}
		put(w.dir+"/www", "big.bin", string(e.big))
	})
	if e.w == nil {
		return
	}
	w := e.w
	defer w.close()
	w.up.Respond = c27Respond
	c27Asks(g, e)
	wit := M{"server": s, "tls": useTLS, "clients": e.conc}

	// alone
	fs := []func(a *c27Ask) (*srv.Resp, error){e.h1(client(w.p, "127.0.1.200"))}
	if useTLS {
		fs = append(fs, e.h2(c27Transport()))
	}
	for round := 0; round < 2; round++ {
		for pr, f := range fs {
			for _, a := range e.asks {
				if a.raw != nil {
					if pr == 0 {
						b, err := c27Raw(w.p, a.raw)
						if err != nil {
							r.Violate("alone-raw", srv.Merge(wit, M{"ask": a.String()}), "no answer although alone: %v", err)
							return
						}
						a.solo[b] = b
					}
					continue
				}
				resp, err := f(a)
				if err != nil || resp.BodyErr != nil {
					r.Violate("alone", srv.Merge(wit, M{"ask": a.String()}), "no complete answer although alone: %v", err)
					return
				}
				k, full := c27Sig(resp)
				a.solo[fmt.Sprint(pr, k)] = full
			}
		}
		r.Beat()
	}
	// a fresh process, whose first requests come all at once
	stop(w.p)
	if w.p = w.start(); w.p == nil {
		return
	}
	e.stampede(g, fmt.Sprint(s))
	if !checkAlive(r, w.p, wit) || r.Stop() {
		return
	}
	e.storm(g, fmt.Sprint(s), time.Duration(r.N(3500, 9000))*time.Millisecond, false)
	if !checkAlive(r, w.p, wit) || r.Stop() {
		return
	}
	// all let go
	for _, c := range e.open {
		c.Close()
	}
	e.open = nil
	e.after(s, wit)
	// and once more, stopped in the middle
	time.AfterFunc(time.Duration(300+g.IntN(1200))*time.Millisecond, func() {
		e.ending.Store(true)
		w.p.Signal(pick(g, []syscall.Signal{syscall.SIGINT, syscall.SIGTERM}))
	})
	e.storm(g, fmt.Sprint(s, "end"), 4*time.Second, true)
	for _, c := range e.open {
		c.Close()
	}
	if !w.p.WaitExit(60 * time.Second) {
		r.Violate("no-exit", wit, "the server is still there 60 s after the signal")
		w.p.Kill()
	}
	checkPanics(r, w.p, "panic")
	r.Count("stops_under_load", 1)
	if r.WantSample() {
		r.Sample(wit)
	}
}

func c27Asks(g *rand.Rand, e *c27Env) {
	add := func(method, host, target string, body []byte, hdr ...[2]string) {
		e.asks = append(e.asks, &c27Ask{method: method, host: host, target: target, hdr: hdr, body: body, solo: map[string]string{}})
	}
	paths := []string{"/", "/a/", "/a/f.txt", "/f.bin", "/x%20y.html", "/none", "/a", "/secret/s.txt", "/a/../f.bin", "/%2e%2e/%2e%2e/etc/passwd", "/index.html", "//a//f.txt", "/big.bin"}
	for _, h := range e.w.order {
		k := e.w.sites[h].kind
		if k == "lim" || k == "proxy" {
			continue
		}
		for _, p := range paths {
			add("GET", h, p, nil)
		}
		add("HEAD", h, "/f.bin", nil)
		add("POST", h, "/a/f.txt", []byte("body of a post"))
		add("PUT", h, "/f.bin", bytes.Repeat([]byte("x"), g.IntN(5000)))
		add("GET", h, "/f.bin", nil, [2]string{"Range", "bytes=3-17"})
		add("GET", h, "/big.bin", nil, [2]string{"Range", fmt.Sprintf("bytes=%d-%d", g.IntN(1<<20), 1<<20+g.IntN(1<<20))})
		add("GET", h, "/big.bin", nil, [2]string{"Range", fmt.Sprintf("bytes=%d-%d,5-9", 1<<20, 1<<20+g.IntN(1<<18))})
		add("GET", h, "/a/f.txt", nil, [2]string{"If-Modified-Since", "Tue, 01 Jan 2047 00:00:00 GMT"})
		add("GET", h, "/a/f.txt", nil, [2]string{"Content-Type", "application/none"})
		add("GET", h, "/q?x="+fmt.Sprint(g.IntN(99)), nil)
		add("BREW", h, "/f.bin", nil)
		add("OPTIONS", h, "/", nil)
	}
	for _, h := range []string{"nobody.test", "", "SERVE0.test", "serve0.test:99", "[::1]", "127.0.0.1"} {
		if h == "" {
			continue
		}
		add("GET", h, "/", nil)
		add("GET", h, "/none", nil)
	}
	add("GET", "m.test", "/metrics", nil, [2]string{"Authorization", "Basic nonsense"})
	add("GET", "m.test", "/metrics", nil)
	add("POST", "m.test", "/metrics", []byte("x"), [2]string{"Authorization", adminAuth})
	if !e.w.tls {
		raw := func(s string) { e.asks = append(e.asks, &c27Ask{raw: []byte(s), solo: map[string]string{}}) }
		raw("GARBAGE\r\n\r\n")
		raw("GET / HTTP/1.1\r\n\r\n")
		raw("GET / HTTP/1.1\r\nHost: a\r\nHost: b\r\n\r\n")
		raw("GET / HTTP/9.9\r\nHost: serve0.test\r\n\r\n")
		raw("GET /a/f.txt HTTP/1.0\r\n\r\n")
		raw("GET /a/f.txt HTTP/1.0\r\nHost: serve1.test\r\n\r\n")
		raw("GET http://serve1.test/a/f.txt HTTP/1.1\r\nHost: fw0.test\r\nConnection: close\r\n\r\n")
		raw("GET /\x00\x01 HTTP/1.1\r\nHost: serve0.test\r\n\r\n")
		raw("POST /a/f.txt HTTP/1.1\r\nHost: serve0.test\r\nTransfer-Encoding: chunked\r\nConnection: close\r\n\r\nzz\r\n")
		raw("POST /a/f.txt HTTP/1.1\r\nHost: serve0.test\r\nTransfer-Encoding: gzip, x\r\n\r\n")
		raw("POST /a/f.txt HTTP/1.1\r\nHost: serve0.test\r\nContent-Length: 4\r\nContent-Length: 5\r\n\r\nabcde")
		raw("POST /a/f.txt HTTP/1.1\r\nHost: serve0.test\r\nContent-Length: -1\r\n\r\n")
		raw("GET / HTTP/1.1\r\nHost: serve0.test\r\nBad Header: x\r\n\r\n")
		raw("CONNECT serve0.test:80 HTTP/1.1\r\nHost: serve0.test\r\nConnection: close\r\n\r\n")
		raw("OPTIONS * HTTP/1.1\r\nHost: serve0.test\r\nConnection: close\r\n\r\n")
		raw("GET /" + strings.Repeat("x/", 20000) + " HTTP/1.1\r\nHost: serve0.test\r\nConnection: close\r\n\r\n")
		raw("PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n")
		raw("GET /f.bin HTTP/1.1\r\nHost: serve0.test\r\nExpect: nonsense\r\nConnection: close\r\n\r\n")
		raw("GET /f.bin HTTP/1.1\r\nHost: serve0.test\r\nUpgrade: websocket\r\nConnection: Upgrade, close\r\n\r\n")
		raw("\x16\x03\x01\x00\x05hello")
	}
}

// c27Respond echoes what the upstream got.
func c27Respond(q *srv.UpReq, c net.Conn) bool {
	sum := sha256.Sum256(q.Body)
	first := fmt.Sprintf("%s %s id=%s body=%d:%x|", q.Method, q.Target, q.Get("X-Id"), len(q.Body), sum[:6])
	var n, code, chunked, cut, delay int
	fmt.Sscanf(q.Get("X-Plan"), "%d,%d,%d,%d,%d", &n, &code, &chunked, &cut, &delay)
	if delay > 0 {
		time.Sleep(time.Duration(delay) * time.Millisecond)
	}
	if code == 0 {
		code = 200
	}
	body := c27Body(first, n)
	head := fmt.Sprintf("HTTP/1.1 %d X\r\nX-Up: u\r\nX-Echo: %s\r\nContent-Type: text/x-echo\r\n", code, q.Get("X-Id"))
	if cut == 1 { // gone before any answer
		return false
	}
	if chunked == 1 {
		io.WriteString(c, head+"Transfer-Encoding: chunked\r\n\r\n")
		if q.Method != "HEAD" {
			for len(body) > 0 {
				k := min(len(body), 7000)
				fmt.Fprintf(c, "%x\r\n%s\r\n", k, body[:k])
				body = body[k:]
				if cut == 2 {
					return false
				}
			}
			io.WriteString(c, "0\r\n\r\n")
		}
		return true
	}
	fmt.Fprintf(c, "%sContent-Length: %d\r\n\r\n", head, len(body))
	if q.Method != "HEAD" {
		if cut == 2 && len(body) > 1 {
			c.Write(body[:len(body)/2])
			return false
		}
		c.Write(body)
	}
	return true
}

func c27Body(first string, n int) []byte {
	b := bytes.Repeat([]byte(first), n/len(first)+1)
	return b
}

func c27Raw(p *srv.Proc, raw []byte) (string, error) {
	cn, err := client(p, "").Dial()
	if err != nil {
		return "", err
	}
	defer cn.Close()
	cn.SetDeadline(time.Now().Add(90 * time.Second))
	cn.Write(raw)
	cn.(*net.TCPConn).CloseWrite()
	b, err := io.ReadAll(cn)
	if ne, ok := err.(net.Error); ok && ne.Timeout() {
		return "", err
	}
	return c27Date.ReplaceAllString(string(b), "Date: X"), nil
}

func c27Transport() *http.Transport {
	return &http.Transport{TLSClientConfig: &tls.Config{InsecureSkipVerify: true, NextProtos: []string{"h2"}}, ForceAttemptHTTP2: true, DisableCompression: true}
}

func (e *c27Env) h1(c *srv.Client) func(a *c27Ask) (*srv.Resp, error) {
	return func(a *c27Ask) (*srv.Resp, error) {
		return c.Do(srv.Req(a.method, a.target, a.host, a.hdr, a.body), a.method)
	}
}

func (e *c27Env) h2(tr *http.Transport) func(a *c27Ask) (*srv.Resp, error) {
	return func(a *c27Ask) (*srv.Resp, error) {
		ctx, cancel := context.WithTimeout(context.Background(), 90*time.Second)
		defer cancel()
		var rd io.Reader
		if a.body != nil {
			rd = bytes.NewReader(a.body)
		}
		req, err := http.NewRequestWithContext(ctx, a.method, "https://"+e.w.p.Addr+a.target, rd)
		if err != nil {
			return nil, err
		}
		req.Host = a.host
		for _, h := range a.hdr {
			req.Header.Add(h[0], h[1])
		}
		res, err := tr.RoundTrip(req)
		if err != nil {
			return nil, err
		}
		defer res.Body.Close()
		b, err := io.ReadAll(res.Body)
		return &srv.Resp{Status: res.StatusCode, Header: res.Header, Body: b, BodyErr: err, Proto: res.Proto, Raw: res}, nil
	}
}

func (e *c27Env) storm(g *rand.Rand, name string, d time.Duration, ending bool) {
	e.until = time.Now().Add(d)
	var wg sync.WaitGroup
	var shared *http.Transport
	if e.w.tls {
		shared = c27Transport()
		defer shared.CloseIdleConnections()
	}
	for k := 0; k < e.conc; k++ {
		gg := e.r.Rng(fmt.Sprint("client", name, k))
		local := fmt.Sprintf("127.0.%d.%d", 1+k%3, 10+k)
		wg.Add(1)
		go func() {
			defer wg.Done()
			c := client(e.w.p, local)
			defer c.Close()
			f, pr := e.h1(c), 0
			if shared != nil && k%2 == 1 {
				f, pr = e.h2(shared), 1
			}
			priv := fmt.Sprintf("/private-%s-%d", name, k)
			for time.Now().Before(e.until) && !e.r.Stop() {
				if e.ending.Load() && e.w.p.Exited() {
					return
				}
				e.one(gg, f, pr, c, local, priv)
				e.r.Beat()
			}
		}()
	}
	wg.Wait()
}

// gone judges an exchange without a complete answer: only right once the server was told to stop.
func (e *c27Env) gone(key string, wit M, err error) {
	if e.ending.Load() {
		e.r.Count("cut_by_stop", 1)
		time.Sleep(20 * time.Millisecond)
		return
	}
	e.r.Violate(key, wit, "no complete answer: %v", err)
}

// alone makes one request whose possible answers are known.
func (e *c27Env) alone(f func(a *c27Ask) (*srv.Resp, error), pr int, a *c27Ask) {
	r, proto := e.r, []string{"h1", "h2"}[pr]
	if a.raw != nil {
		b, err := c27Raw(e.w.p, a.raw)
		ok := false
		for s := range a.solo {
			ok = ok || strings.HasPrefix(s, b) || strings.HasPrefix(b, s)
		}
		if err != nil {
			e.gone("raw", M{"ask": a.String()}, err)
		} else if !ok {
			r.Violate("other-answer-raw", M{"ask": a.String(), "alone": keysSorted(a.solo), "now": clip(b)}, "a raw request is answered differently under load")
		}
		r.Eval(fmt.Sprint("raw", a.String(), e.conc))
		r.Count("raw", 1)
		return
	}
	resp, err := f(a)
	if err != nil || resp.BodyErr != nil {
		if err == nil {
			err = resp.BodyErr
		}
		e.gone("no-answer", M{"ask": a.String(), "proto": proto}, err)
		return
	}
	sig, full := c27Sig(resp)
	if _, ok := a.solo[fmt.Sprint(pr, sig)]; !ok {
		var all []string
		for s, t := range a.solo {
			if strings.HasPrefix(s, fmt.Sprint(pr)) {
				all = append(all, t)
			}
		}
		r.Violate("other-answer", M{"ask": a.String(), "proto": proto, "alone": all, "now": full}, "under load %s is answered %d, unlike alone", a, resp.Status)
	}
	r.Eval(fmt.Sprint(a.method, a.host, a.target, a.hdr, proto, resp.Status, e.conc))
	r.Count("as_alone", 1)
}

// stampede lets all clients make the same request at the same moment, one request after the other.
func (e *c27Env) stampede(g *rand.Rand, name string) {
	var asks []*c27Ask
	for _, a := range e.asks {
		if a.raw == nil && !strings.Contains(a.target, "big.bin") {
			asks = append(asks, a)
		}
	}
	g.Shuffle(len(asks), func(i, j int) { asks[i], asks[j] = asks[j], asks[i] })
	n := 8
	gates := make([]sync.WaitGroup, len(asks))
	for i := range gates {
		gates[i].Add(n)
	}
	var shared *http.Transport
	if e.w.tls {
		shared = c27Transport()
		defer shared.CloseIdleConnections()
	}
	var wg sync.WaitGroup
	for k := 0; k < n; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			c := client(e.w.p, fmt.Sprintf("127.0.1.%d", 100+k))
			defer c.Close()
			f, pr := e.h1(c), 0
			if shared != nil && k%2 == 1 {
				f, pr = e.h2(shared), 1
			}
			gg := e.r.Rng(fmt.Sprint("stampede", name, k))
			for i, a := range asks {
				gates[i].Done()
				gates[i].Wait()
				if e.r.Stop() {
					continue
				}
				e.alone(f, pr, a)
				if i%8 == 0 {
					e.proxied(gg, f, []string{"h1", "h2"}[pr])
				}
				e.r.Beat()
			}
		}()
	}
	wg.Wait()
	e.r.Count("stampedes", len(asks))
}

func (e *c27Env) one(g *rand.Rand, f func(a *c27Ask) (*srv.Resp, error), pr int, c *srv.Client, local, priv string) {
	r := e.r
	proto := []string{"h1", "h2"}[pr]
	switch k := g.IntN(100); {
	case k < 45: // the answer it got alone
		e.alone(f, pr, pick(g, e.asks))
	case k < 65: // proxied
		e.proxied(g, f, proto)
	case k < 70: // limited
		host := pick(g, []string{"lim0.test", "lim1.test"})
		key := local + "|" + host
		ip := local
		if pr == 1 {
			ip = "127.0.0.1" // the shared connection
			key = ip + "|" + host
		}
		e.mu.Lock()
		l := e.limited[key]
		if l == nil {
			l = new([2]atomic.Int64)
			e.limited[key] = l
		}
		e.mu.Unlock()
		resp, err := f(&c27Ask{method: "GET", host: host, target: "/a/f.txt"})
		if err != nil {
			l[0].Add(1 << 20) // unknown
			e.gone("no-answer", M{"host": host}, err)
			return
		}
		switch {
		case resp.Status == 200 && strings.HasPrefix(string(resp.Body), "FILE a/f.txt"):
			l[0].Add(1)
		case resp.Status == 429:
			l[1].Add(1)
		default:
			r.Violate("limited-answer", M{"host": host, "status": resp.Status, "body": clip(string(resp.Body))}, "a limited client got %d", resp.Status)
		}
		r.Eval(fmt.Sprint("lim", host, proto, resp.Status))
		r.Count("limited", 1)
	case k < 74: // metrics page
		resp, err := f(&c27Ask{method: "GET", host: "m.test", target: "/metrics", hdr: [][2]string{{"Authorization", adminAuth}}})
		if err != nil || resp.BodyErr != nil {
			e.gone("metrics", M{}, err)
			return
		}
		if _, perr := parsePage(string(resp.Body)); resp.Status != 200 || perr != nil {
			r.Violate("metrics-page", M{"status": resp.Status, "page": tailS(string(resp.Body), 600)}, "broken metrics page under load: %v", perr)
		}
		r.Eval("metrics" + proto)
		r.Count("metrics_pages", 1)
	case k < 80: // a path nobody else asks for, counted
		resp, err := f(&c27Ask{method: "GET", host: "serve0.test", target: priv})
		if err != nil || resp.BodyErr != nil {
			e.mu.Lock()
			e.private[priv] = -1 << 40
			e.mu.Unlock()
			e.gone("private", M{"path": priv}, err)
			return
		}
		if resp.Status != 404 {
			r.Violate("private-status", M{"path": priv}, "a missing file gives %d", resp.Status)
		}
		e.mu.Lock()
		e.private[priv]++
		e.mu.Unlock()
		r.Eval("private" + proto)
	case k < 84: // pipelined
		var buf []byte
		var as []*c27Ask
		for i := 2 + g.IntN(6); i > 0; i-- {
			a := pick(g, e.asks)
			if a.raw != nil || strings.Contains(a.target, "big") || a.body != nil {
				continue
			}
			as = append(as, a)
			buf = append(buf, srv.Req(a.method, a.target, a.host, a.hdr, nil)...)
		}
		cn, err := client(e.w.p, local).Dial()
		if err != nil {
			e.gone("dial", M{}, err)
			return
		}
		defer cn.Close()
		cn.SetDeadline(time.Now().Add(90 * time.Second))
		go cn.Write(buf)
		br := bufio.NewReader(cn)
		for _, a := range as {
			hr, err := http.ReadResponse(br, &http.Request{Method: a.method})
			if err != nil {
				e.gone("pipeline", M{"ask": a.String(), "of": fmt.Sprint(as)}, err)
				return
			}
			b, err := io.ReadAll(hr.Body)
			if err != nil {
				e.gone("pipeline", M{"ask": a.String(), "of": fmt.Sprint(as)}, err)
				return
			}
			sig, full := c27Sig(&srv.Resp{Status: hr.StatusCode, Header: hr.Header, Body: b})
			if _, ok := a.solo["0"+sig]; !ok {
				r.Violate("other-answer-pipelined", M{"ask": a.String(), "of": fmt.Sprint(as), "now": full, "alone": a.solo}, "pipelined, %s is answered %d, unlike alone", a, hr.StatusCode)
				return
			}
			r.Eval(fmt.Sprint("pipe", a.host, a.target, hr.StatusCode))
			r.Count("pipelined", 1)
			if hr.Close {
				break
			}
		}
	case k < 94: // aborted or stalled
		e.abort(g, c, local, pr)
	default: // the big file, slowly, to the end
		if pr == 1 {
			return
		}
		cn, err := client(e.w.p, local).Dial()
		if err != nil {
			e.gone("dial", M{}, err)
			return
		}
		defer cn.Close()
		cn.SetDeadline(time.Now().Add(55 * time.Second))
		host := pick(g, []string{"serve0.test", "serve1.test", "download0.test"})
		cn.Write(srv.Req("GET", "/big.bin", host, [][2]string{{"Connection", "close"}}, nil))
		br := bufio.NewReaderSize(cn, 4096)
		hr, err := http.ReadResponse(br, nil)
		if err != nil {
			e.gone("big", M{"host": host}, err)
			return
		}
		buf, n := make([]byte, 50000+g.IntN(100000)), 0
		for {
			m, err := io.ReadFull(hr.Body, buf)
			if n+m > len(e.big) || !bytes.Equal(buf[:m], e.big[n:n+m]) {
				r.Violate("big-bytes", M{"host": host, "offset": n}, "a slowly read file has wrong bytes from offset %d", n)
				return
			}
			n += m
			if err != nil {
				break
			}
			time.Sleep(time.Millisecond)
		}
		if n != len(e.big) {
			e.gone("big", M{"host": host, "bytes": n}, io.ErrUnexpectedEOF)
			return
		}
		r.Eval("big" + host)
		r.Count("slow_downloads", 1)
	}
}

var c27N atomic.Int64

func (e *c27Env) proxied(g *rand.Rand, f func(a *c27Ask) (*srv.Resp, error), proto string) {
	r := e.r
	id := fmt.Sprint("id", c27N.Add(1))
	host := pick(g, []string{"proxy0.test", "proxy1.test"})
	m := pick(g, []string{"GET", "GET", "POST", "POST", "HEAD"})
	var body []byte
	if m == "POST" {
		body = bytes.Repeat([]byte(id+";"), g.IntN(pick(g, []int{2, 100, 20000})))
	}
	target := fmt.Sprintf("/p/%s?q=%s", id, id)
	n, code, chunked, cut, delay := pick(g, []int{0, 100, 5000, 100000}), pick(g, []int{200, 200, 200, 201, 404, 500, 302}), g.IntN(2), 0, 0
	if chance(g, .1) {
		cut = 1 + g.IntN(2)
	}
	if chance(g, .2) {
		delay = g.IntN(100)
	}
	a := &c27Ask{method: m, host: host, target: target, body: body, hdr: [][2]string{{"X-Id", id}, {"X-Plan", fmt.Sprintf("%d,%d,%d,%d,%d", n, code, chunked, cut, delay)}}}
	resp, err := f(a)
	if cut == 2 && (err != nil || resp.BodyErr != nil) {
		r.Count("proxied_cut", 1)
		return
	}
	wit := M{"ask": a.String(), "proto": proto, "body": len(body)}
	if err != nil || resp.BodyErr != nil {
		if err == nil {
			err = resp.BodyErr
		}
		e.gone("proxied", wit, err)
		return
	}
	wit["status"], wit["answer"] = resp.Status, clip(string(resp.Body))
	sum := sha256.Sum256(body)
	want := c27Body(fmt.Sprintf("%s %s id=%s body=%d:%x|", m, target, id, len(body), sum[:6]), n)
	switch {
	case cut == 1:
		// the upstream hung up without an answer
		if resp.Status != 502 {
			r.Violate("proxied-502", wit, "the upstream hung up, the answer is %d", resp.Status)
		}
	case cut == 2 && m != "HEAD":
		if len(resp.Body) == len(want) {
			break // everything was in the first piece
		}
		if chunked == 1 || len(want) > 1 {
			r.Violate("proxied-cut", wit, "the upstream's answer was cut, ours looks complete")
		}
	case resp.Status != code || resp.Header.Get("X-Echo") != id:
		r.Violate("proxied-mixed", wit, "answer %d for %q instead of %d for %q", resp.Status, resp.Header.Get("X-Echo"), code, id)
	case m != "HEAD" && !bytes.Equal(resp.Body, want):
		r.Violate("proxied-body", wit, "the body is not the upstream's answer to this request")
	}
	r.Eval(fmt.Sprint("proxied", host, m, code, chunked, cut, n, proto, len(body) > 0))
	r.Count("proxied", 1)
}

// abort leaves an exchange unfinished.
func (e *c27Env) abort(g *rand.Rand, c *srv.Client, local string, pr int) {
	hosts := []string{"serve0.test", "serve1.test", "download0.test", "proxy0.test", "proxy1.test", "dead0.test", "fw0.test", "lim0.test", "m.test"}
	host := pick(g, hosts)
	kind := pick(g, []string{"rst-request", "rst-response", "stall-head", "stall-body", "stall-read", "half-close", "rst-upload", "h2-cancel", "close-at-once"})
	if strings.HasPrefix(host, "lim") && kind != "close-at-once" {
		host = "serve0.test" // would use up the bucket
	}
	auth := [2]string{"Authorization", adminAuth}
	target := pick(g, []string{"/big.bin", "/big.bin", "/", "/none", "/f.bin", "/metrics"})
	e.r.Count("abort_"+kind, 1)
	e.r.Eval(fmt.Sprint("abort", kind, host, target, pr))
	if kind == "h2-cancel" {
		if !e.w.tls {
			return
		}
		tr := c27Transport()
		defer tr.CloseIdleConnections()
		ctx, cancel := context.WithCancel(context.Background())
		req, _ := http.NewRequestWithContext(ctx, "GET", "https://"+e.w.p.Addr+target, nil)
		req.Host = host
		req.Header.Set("X-Plan", "100000,200,1,0,30")
		time.AfterFunc(time.Duration(g.IntN(20000))*time.Microsecond, cancel)
		res, err := tr.RoundTrip(req)
		if err == nil {
			io.CopyN(io.Discard, res.Body, int64(g.IntN(100000)))
			res.Body.Close()
		}
		cancel()
		return
	}
	cc := client(e.w.p, local)
	d := net.Dialer{Timeout: 30 * time.Second, LocalAddr: &net.TCPAddr{IP: net.ParseIP(local)}}
	tcp, err := d.Dial("tcp", e.w.p.Addr)
	if err != nil {
		e.gone("dial", M{"kind": kind}, err)
		return
	}
	if kind == "close-at-once" {
		if chance(g, .5) {
			tcp.(*net.TCPConn).SetLinger(0)
		}
		tcp.Close()
		return
	}
	cn, err := cc.Wrap(tcp)
	if err != nil {
		e.gone("handshake", M{"kind": kind}, err)
		return
	}
	cn.SetDeadline(time.Now().Add(30 * time.Second))
	rst := func() { tcp.(*net.TCPConn).SetLinger(0); tcp.Close() }
	full := srv.Req("GET", target, host, [][2]string{auth, {"X-Plan", "200000,200,0,0,5"}}, nil)
	switch kind {
	case "rst-request":
		cn.Write(full[:g.IntN(len(full))])
		rst()
	case "rst-response":
		cn.Write(full)
		cn.SetReadDeadline(time.Now().Add(300 * time.Millisecond))
		io.CopyN(io.Discard, cn, int64(g.IntN(30000)))
		rst()
	case "half-close":
		cn.Write(full)
		if t, ok := cn.(*net.TCPConn); ok {
			t.CloseWrite()
		} else if t, ok := cn.(*tls.Conn); ok {
			t.CloseWrite()
		}
		io.CopyN(io.Discard, cn, int64(g.IntN(4000000)))
		cn.Close()
	case "rst-upload":
		up := srv.Req("POST", "/u", host, [][2]string{{"Content-Length", "500000"}}, bytes.Repeat([]byte("u"), g.IntN(300000)))
		cn.Write(up)
		rst()
	case "stall-head":
		cn.Write(full[:len(full)-1-g.IntN(20)])
		e.keep(cn)
	case "stall-body":
		cn.Write(srv.Req("POST", "/u", host, [][2]string{{"Content-Length", "5000"}}, []byte("only some")))
		e.keep(cn)
	case "stall-read":
		tcp.(*net.TCPConn).SetReadBuffer(4096)
		cn.Write(full)
		e.keep(cn)
	}
}

// after judges what the storm left behind.
func (e *c27Env) after(s int, wit M) {
	r := e.r
	for key, l := range e.limited {
		_, host, _ := strings.Cut(key, "|")
		burst := int64(e.w.sites[host].limit)
		ok, no := l[0].Load(), l[1].Load()
		if ok >= 1<<20 {
			continue
		}
		if want := min(burst, ok+no); ok != want {
			r.Violate("admitted", M{"client": key, "burst": burst, "admitted": ok, "refused": no}, "%d of %d requests were admitted with a burst of %d", ok, ok+no, burst)
		}
		r.Count("limited_clients", 1)
	}
	// everything complete was counted and logged
	c := client(e.w.p, "")
	defer c.Close()
	deadline := time.Now().Add(30 * time.Second)
	for {
		bad := ""
		resp, err := c.Get("/metrics", "m.test", [2]string{"Authorization", adminAuth})
		if err != nil || resp.Status != 200 {
			r.Violate("metrics-after", wit, "no metrics page afterwards: %v", err)
			return
		}
		m, err := parsePage(string(resp.Body))
		if err != nil {
			r.Violate("metrics-after", wit, "metrics page afterwards: %v", err)
			return
		}
		log := srv.ReadFileString(filepath.Join(e.w.dir, "log.txt"))
		for p, n := range e.private {
			if n < 0 {
				continue
			}
			if got := m.norm()["serve0.test"+p][404]; e.w.tls && got != n { // metrics need TLS
				bad = fmt.Sprintf("%s was answered %d times but counted %d times; %v", p, n, got, m.norm()["serve0.test"+p])
			}
			if got := strings.Count(log, "serve0.test"+p+" "); got != n {
				bad = fmt.Sprintf("%s was answered %d times but logged %d times", p, n, got)
			}
		}
		if bad == "" {
			break
		}
		if time.Now().After(deadline) {
			r.Violate("conservation", srv.Merge(wit, M{"log_tail": tailS(log, 500)}), "%s", bad)
			return
		}
		time.Sleep(100 * time.Millisecond)
	}
	// the answers alone are still the same
	f := e.h1(client(e.w.p, "127.0.1.200"))
	for _, a := range e.asks {
		if a.raw != nil {
			continue
		}
		resp, err := f(a)
		if err != nil || resp.BodyErr != nil {
			r.Violate("alone-after", srv.Merge(wit, M{"ask": a.String()}), "after the storm no complete answer: %v", err)
			return
		}
		sig, full := c27Sig(resp)
		if _, ok := a.solo["0"+sig]; !ok {
			r.Violate("changed-after", srv.Merge(wit, M{"ask": a.String(), "now": full, "before": a.solo}), "after the storm %s is answered differently", a)
			return
		}
		r.Eval("after" + a.String())
	}
	checkPanics(r, e.w.p, "panic")
}
