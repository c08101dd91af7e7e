package checks

import (
	"bytes"
	"crypto/tls"
	"fmt"
	"io"
	"math/rand/v2"
	"net"
	"net/http"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"verifharness/rep"
	"verifharness/srv"
)

// c18 early: the upstream fails before its response headers are complete; the client must get a complete 502.
var c18Early = []string{"close", "reset", "read-close", "read-reset", "half-line", "garbage", "binary", "no-status", "status-0", "status-99", "status-4digits", "bad-version", "bad-header", "half-header", "bad-length", "neg-length", "two-lengths", "bad-encoding", "101", "many-1xx", "1xx-close", "stall", "stall-line", "stall-header", "huge-header", "empty-line-close"}

// c18 late: it fails after its headers; the client must not see a complete answer.
var c18Late = []string{"cl-short", "cl-reset", "cl-none", "ch-no-end", "ch-mid", "ch-size", "ch-bad", "ch-reset", "ch-nothing", "ch-no-crlf"}

type c18Case struct {
	id, mode string
	size     int
	cut      int
	pause    time.Duration
	status   int // of a complete answer
	hdr      [][2]string
}

func c18Answer(cs *c18Case, q *srv.UpReq, c net.Conn, held chan struct{}) bool {
	reset := func() {
		if t, ok := c.(*net.TCPConn); ok {
			t.SetLinger(0)
		}
	}
	wait := func() {
		select {
		case <-held:
		case <-time.After(60 * time.Second):
		}
	}
	body := bytes.Repeat([]byte("0123456789abcdef"), cs.size/16+1)[:cs.size]
	cut := cs.cut
	if cut >= len(body) {
		cut = len(body) - 1
	}
	w := func(s string) { io.WriteString(c, s) }
	switch cs.mode {
	case "answer":
		st := cs.status
		w(fmt.Sprintf("HTTP/1.1 %d %s\r\nContent-Length: %d\r\n", st, http.StatusText(st), cs.size))
		for _, h := range cs.hdr {
			w(h[0] + ": " + h[1] + "\r\n")
		}
		w("\r\n")
		if cs.size > 0 {
			c.Write(body)
		}
		for _, h := range cs.hdr {
			if h[0] == "Connection" {
				return false
			}
		}
		return true
	case "close", "read-close":
	case "reset", "read-reset":
		reset()
	case "half-line":
		w("HTTP/1.1 20")
	case "garbage":
		w("220 smtp ready\r\nwhatever\r\n\r\n")
	case "binary":
		w("\x16\x03\x01\x02\x00\x01\x00\x01\xfc\x03\x03\r\n\r\n")
	case "no-status":
		w("HTTP/1.1\r\nContent-Length: 2\r\n\r\nok")
	case "status-0":
		w("HTTP/1.1 000 Zero\r\nContent-Length: 2\r\n\r\nok")
	case "status-99":
		w("HTTP/1.1 099 Low\r\nContent-Length: 2\r\n\r\nok")
	case "status-4digits":
		w("HTTP/1.1 2000 Much\r\nContent-Length: 2\r\n\r\nok")
	case "bad-version":
		w("HTTQ/1.1 200 OK\r\nContent-Length: 2\r\n\r\nok")
	case "bad-header":
		w("HTTP/1.1 200 OK\r\nno colon here\r\nContent-Length: 2\r\n\r\nok")
	case "half-header":
		w("HTTP/1.1 200 OK\r\nContent-Length: 2\r\nX-Hal")
	case "bad-length":
		w("HTTP/1.1 200 OK\r\nContent-Length: two\r\n\r\nok")
	case "neg-length":
		w("HTTP/1.1 200 OK\r\nContent-Length: -2\r\n\r\nok")
	case "two-lengths":
		w("HTTP/1.1 200 OK\r\nContent-Length: 2\r\nContent-Length: 3\r\n\r\nok?")
	case "bad-encoding":
		w("HTTP/1.1 200 OK\r\nTransfer-Encoding: rot13\r\n\r\nok")
	case "101":
		w("HTTP/1.1 101 Switching Protocols\r\nUpgrade: x\r\nConnection: Upgrade\r\n\r\n")
	case "many-1xx":
		for i := 0; i < 300; i++ {
			w("HTTP/1.1 103 Early Hints\r\nLink: <" + strings.Repeat("x", 50000) + ">\r\n\r\n")
		}
	case "1xx-close":
		w("HTTP/1.1 100 Continue\r\n\r\n")
	case "stall":
		wait()
	case "stall-line":
		w("HTTP/1.1 200 O")
		wait()
	case "stall-header":
		w("HTTP/1.1 200 OK\r\nContent-Length: 2\r\nX-")
		wait()
	case "huge-header":
		w("HTTP/1.1 200 OK\r\nX-Huge: ")
		for i := 0; i < 12<<4; i++ {
			if _, err := c.Write(bytes.Repeat([]byte("h"), 1<<16)); err != nil {
				break
			}
		}
	case "empty-line-close":
		w("\r\n")
	case "cl-short", "cl-reset", "cl-none":
		w(fmt.Sprintf("HTTP/1.1 200 OK\r\nContent-Type: text/plain\r\nContent-Length: %d\r\n\r\n", len(body)))
		if cs.mode == "cl-none" {
			cut = 0
		}
		c.Write(body[:cut])
		time.Sleep(cs.pause)
		if cs.mode == "cl-reset" {
			reset()
		}
	case "ch-no-end", "ch-mid", "ch-size", "ch-bad", "ch-reset", "ch-nothing", "ch-no-crlf":
		w("HTTP/1.1 200 OK\r\nContent-Type: text/plain\r\nTransfer-Encoding: chunked\r\n\r\n")
		var b bytes.Buffer
		chunk := func(d []byte) { fmt.Fprintf(&b, "%x\r\n%s\r\n", len(d), d) }
		switch cs.mode {
		case "ch-no-end", "ch-reset":
			chunk(body)
		case "ch-mid":
			fmt.Fprintf(&b, "%x\r\n%s", len(body), body[:cut])
		case "ch-size":
			chunk(body)
			b.WriteString("1f")
		case "ch-bad":
			chunk(body)
			b.WriteString("zz\r\nboo\r\n0\r\n\r\n")
		case "ch-no-crlf":
			fmt.Fprintf(&b, "%x\r\n%s", len(body), body)
		}
		c.Write(b.Bytes())
		time.Sleep(cs.pause)
		if cs.mode == "ch-reset" {
			reset()
		}
	}
	return false
}

func TestC18(t *testing.T) {
	r := rep.New("C18", "A case is one exchange through the real proxy in which the upstream or the client fails at a chosen point: connection refused, closed, reset, stalled or garbled before the response headers are complete (26 ways), body cut with either framing (10 ways, sizes around the buffers), a complete answer with any of the error and redirection statuses and headers that invite to ask again, client body cut, reset or stalled; alone, on reused upstream connections, and many at once, over HTTP/1.1, TLS and HTTP/2. Judged: early failures give a complete 502, late ones never a complete answer, incomplete client bodies are never forwarded, POST and PATCH arrive upstream at most once, and a request afterwards works. Distinct = (protocol, failure, method, size class, outcome).")
	r.Watchdog(120*time.Second, true)
	for s := 0; s < r.N(4, 60) && !r.Stop(); s++ {
		r.Phase(fmt.Sprint("server ", s))
		c18Server(r, r.Rng(fmt.Sprint("srv", s)), s)
	}
	r.Finish()
}

func c18Server(r *rep.R, g *rand.Rand, s int) {
	dir := rep.Scratch("c18")
	useTLS, vhost := s%4 >= 2, s%2 == 1
	var cases sync.Map
	held := make(chan struct{})
	defer close(held)
	var dropConn atomic.Value // failure to show the next connections before any byte is read
	dropConn.Store("")
	up := srv.NewUpstream("up", "")
	defer up.Close()
	up.OnConn = func(c net.Conn) bool {
		return true
	}
	up.Respond = func(q *srv.UpReq, c net.Conn) bool {
		v, ok := cases.Load(q.Get("X-Id"))
		if !ok {
			b := "fine " + q.Get("X-Id")
			fmt.Fprintf(c, "HTTP/1.1 200 OK\r\nContent-Length: %d\r\n\r\n", len(b))
			if q.Method != "HEAD" {
				io.WriteString(c, b)
			}
			return true
		}
		return c18Answer(v.(*c18Case), q, c, held)
	}
	raw := srv.NewUpstream("raw", "") // fails before reading anything
	defer raw.Close()
	raw.OnConn = func(c net.Conn) bool {
		if dropConn.Load() == "reset" {
			c.(*net.TCPConn).SetLinger(0)
		}
		return false
	}
	dead, undead := deadAddr()
	defer undead()
	rules := M{"up.test": "http://" + up.Addr, "raw.test": "http://" + raw.Addr, "dead.test": "http://" + dead, "noname.test": "http://no-such-host.invalid:1"}
	main := M{"Core": core(dir, M{"ReadHeaderTimeout": 2, "ReadTimeout": 4})}
	if useTLS {
		c := srv.MakeCert(dir, "t", false, "localhost")
		main = srv.Merge(main, M{"Core": M{"TLS": M{"Enabled": true, "TLSCert": c.CertFile, "TLSKey": c.KeyFile}}})
	}
	methods := []string{"GET", "HEAD", "POST", "PUT", "PATCH", "DELETE"}
	page := "<p>gateway trouble</p>"
	errs := M{}
	if chance(g, .5) {
		errs["502"] = put(dir, "502.html", page)
	}
	var vh map[string]M
	if vhost {
		vh = map[string]M{}
		for h := range rules {
			vh[h] = M{"Guard": noLimit(), "Errors": errs, "Proxy": M{"Enabled": true, "Rules": M{h: rules[h]}, "Methods": methods}}
		}
	} else {
		main = srv.Merge(main, M{"Guard": noLimit(), "Errors": errs, "Proxy": M{"Enabled": true, "Rules": rules, "Methods": methods}})
	}
	p := launch(r, g, dir, main, vh, srv.Opt{})
	if p == nil {
		return
	}
	defer stop(p)
	var h2 *http.Transport
	if useTLS {
		h2 = &http.Transport{TLSClientConfig: &tls.Config{InsecureSkipVerify: true, NextProtos: []string{"h2"}}, ForceAttemptHTTP2: true, DisableCompression: true}
	}
	var seq atomic.Int64
	arrived := func(id string) int {
		n := 0
		for _, q := range up.Reqs(0) {
			if q.Get("X-Id") == id {
				n++
			}
		}
		return n
	}
	exchange := func(g *rand.Rand, useH2 bool, pl *c17Plan) (*srv.Resp, error) {
		if useH2 {
			return c17H2(h2, p, pl)
		}
		c := client(p, "")
		cn, err := c.Dial()
		if err != nil {
			return nil, err
		}
		defer cn.Close()
		cn.SetDeadline(time.Now().Add(60 * time.Second))
		if _, err := cn.Write(srv.Req(pl.method, pl.target, pl.host, pl.hdr, pl.body)); err != nil {
			return nil, srv.ErrNoResponse{Err: err}
		}
		return srv.ReadResp(cn, pl.method)
	}
	after := func(g *rand.Rand, useH2 bool, wit any, what string) {
		id := fmt.Sprintf("ok%d", seq.Add(1))
		resp, err := exchange(g, useH2, &c17Plan{host: "up.test", method: "GET", target: "/fine", hdr: [][2]string{{"X-Id", id}}})
		if err != nil || resp.Status != 200 || string(resp.Body) != "fine "+id {
			st := 0
			if resp != nil {
				st = resp.Status
			}
			r.Violate("not-serving-after-"+what, wit, "a request after the failure got %d %v", st, err)
		}
	}
	one := func(g *rand.Rand, mode string, useH2 bool) {
		id := fmt.Sprintf("%d-%d", s, seq.Add(1))
		cs := &c18Case{id: id, mode: mode, size: pick(g, []int{1, 2, 100, 2047, 2048, 4096, 4097, 32768, 40000, 200000, 1500000})}
		cs.cut = pick(g, []int{0, 1, cs.size / 2, cs.size - 1})
		cs.pause = pick(g, []time.Duration{0, 0, 20 * time.Millisecond})
		cases.Store(id, cs)
		pl := &c17Plan{host: "up.test", method: pick(g, []string{"GET", "GET", "POST", "PUT", "PATCH", "DELETE"}), target: "/x", hdr: [][2]string{{"X-Id", id}}}
		early := contains(c18Early, mode)
		switch {
		case mode == "refused":
			early, pl.host = true, "dead.test"
		case mode == "no-name":
			early, pl.host = true, "noname.test"
		case mode == "conn-close" || mode == "conn-reset":
			early, pl.host = true, "raw.test"
			dropConn.Store(strings.TrimPrefix(mode, "conn-"))
		}
		if early && chance(g, .1) {
			pl.method = "HEAD"
		}
		if pl.method != "GET" && pl.method != "HEAD" && chance(g, .7) {
			pl.body = bytes.Repeat([]byte("b"), pick(g, []int{1, 100, 70000}))
		}
		wit := M{"failure": mode, "method": pl.method, "request_body": len(pl.body), "response_size": cs.size, "cut": cs.cut, "h2": useH2, "tls": useTLS, "vhosts": vhost}
		t0 := time.Now()
		resp, err := exchange(g, useH2, pl)
		el := time.Since(t0)
		wit["seconds"] = el.Seconds()
		out := "no response"
		complete := false
		if err == nil {
			out = fmt.Sprint(resp.Status)
			complete = resp.BodyErr == nil
			wit["status"], wit["body"], wit["body_error"] = resp.Status, clip(string(resp.Body)), fmt.Sprint(resp.BodyErr)
		} else {
			wit["error"] = err.Error()
		}
		if err != nil && strings.Contains(err.Error(), "timeout") {
			r.Violate("hang-"+mode, wit, "no answer within 60 s")
		} else if early && (err != nil || resp.Status != 502 || !complete) {
			r.Violate("early-"+mode, wit, "an upstream that fails before its headers gave %s, complete %v, %v", out, complete, err)
		} else if early && pl.method != "HEAD" && errs["502"] != nil && string(resp.Body) != page {
			r.Violate("early-page", wit, "502 came without the site's own page")
		} else if !early && err == nil && complete && resp.Status != 502 {
			r.Violate("late-"+mode, wit, "a body cut by the upstream arrived as a complete %d with %d bytes", resp.Status, len(resp.Body))
		}
		if n := arrived(id); n > 1 && (pl.method == "POST" || pl.method == "PATCH") {
			r.Violate("twice", wit, "%s arrived %d times at the upstream", pl.method, n)
		}
		if early && err == nil && strings.Contains(string(resp.Body), up.Addr) {
			r.Violate("leak", wit, "the error page names the upstream address")
		}
		sz := "s"
		if cs.size > 4096 {
			sz = "l"
		}
		r.Eval(fmt.Sprint(useH2, mode, pl.method, sz, out, complete))
		r.Count("failure_"+mode, 1)
		if r.WantSample() {
			r.Sample(wit)
		}
		after(g, useH2, wit, mode)
	}
	modes := append(append([]string{"refused", "no-name", "conn-close", "conn-reset"}, c18Early...), c18Late...)
	// one after another
	for _, m := range modes {
		if strings.HasPrefix(m, "stall") {
			continue
		}
		for k := 0; k < 2; k++ {
			one(g, m, useTLS && k == 1)
		}
	}
	// many at once
	var wg sync.WaitGroup
	for k := 0; k < 24; k++ {
		gg := rand.New(rand.NewPCG(r.Seed+uint64(s)*77, uint64(k)))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 8 && !r.Stop(); i++ {
				m := pick(gg, modes)
				if k < 6 && i < 2 {
					m = pick(gg, []string{"stall", "stall-line", "stall-header"})
				}
				one(gg, m, useTLS && gg.IntN(2) == 0)
			}
		}()
	}
	wg.Wait()
	// upstream closes kept-alive connections while the next request is under way
	c18Reuse(r, g, p, &cases, up, &seq, s)
	c18Answered(r, g, p, up, &cases, &seq, s, exchange, useTLS)
	c18Client(r, g, p, up, &seq, s, func(w any, what string) { after(g, false, w, what) })
	checkAlive(r, p, nil)
	checkPanics(r, p, "panic")
}

// c18Reuse makes the upstream drop the connection it just answered on when the next request arrives.
func c18Reuse(r *rep.R, g *rand.Rand, p *srv.Proc, cases *sync.Map, up *srv.Upstream, seq *atomic.Int64, s int) {
	for i := 0; i < 30 && !r.Stop(); i++ {
		c := client(p, "")
		c.Timeout = 60 * time.Second
		warm := fmt.Sprintf("warm%d", seq.Add(1))
		if resp, err := c.Get("/fine", "up.test", [2]string{"X-Id", warm}); err != nil || resp.Status != 200 {
			r.Violate("warm", M{"i": i}, "a plain request failed: %v", err)
			c.Close()
			continue
		}
		c.Close()
		method := pick(g, []string{"POST", "PATCH", "POST", "GET", "PUT"})
		id := fmt.Sprintf("re%d-%d", s, seq.Add(1))
		idle := i%3 == 0
		if idle {
			up.DropConns() // closed while idle: the request may take a new connection
		} else {
			cases.Store(id, &c18Case{id: id, mode: pick(g, []string{"read-close", "read-reset", "half-line"}), size: 1})
		}
		var body []byte
		if method != "GET" && chance(g, .7) {
			body = []byte("payload")
		}
		cn, err := client(p, "").Dial()
		if err != nil {
			r.Inconclusive("dial: %v", err)
			return
		}
		cn.SetDeadline(time.Now().Add(60 * time.Second))
		cn.Write(srv.Req(method, "/y", "up.test", [][2]string{{"X-Id", id}}, body))
		resp, err := srv.ReadResp(cn, method)
		cn.Close()
		n := 0
		for _, q := range up.Reqs(0) {
			if q.Get("X-Id") == id {
				n++
			}
		}
		wit := M{"method": method, "body": len(body), "closed_while_idle": idle, "arrived": n}
		if err != nil {
			r.Violate("reuse-no-answer", wit, "%v", err)
			continue
		}
		wit["status"] = resp.Status
		if (method == "POST" || method == "PATCH") && n > 1 {
			r.Violate("twice", wit, "%s arrived %d times at the upstream", method, n)
		}
		if !idle && resp.Status != 502 {
			r.Violate("reuse-status", wit, "got %d", resp.Status)
		}
		if idle && resp.Status != 200 && resp.Status != 502 {
			r.Violate("reuse-status", wit, "got %d", resp.Status)
		}
		if resp.Status == 200 && n != 1 && method != "GET" {
			r.Violate("reuse-count", wit, "200 with %d deliveries", n)
		}
		r.Eval(fmt.Sprint("reuse", method, idle, n, resp.Status))
		r.Count("reused_connections", 1)
	}
}

// c18Answered answers completely, with the errors and redirections an upstream can have. The answer is
// the upstream's, and what was asked for is not asked for again.
func c18Answered(r *rep.R, g *rand.Rand, p *srv.Proc, up *srv.Upstream, cases *sync.Map, seq *atomic.Int64, s int, exchange func(*rand.Rand, bool, *c17Plan) (*srv.Resp, error), useTLS bool) {
	statuses := []int{200, 201, 202, 300, 301, 302, 303, 307, 308, 400, 401, 403, 404, 405, 407, 408, 409, 410, 411, 413, 417, 421, 423, 425, 426, 428, 429, 431, 500, 501, 502, 503, 503, 503, 504, 505, 507, 511, 520, 522, 599, 999}
	// exchange is not made for concurrent use on one connection, it opens one each time
	for i, st := range append(statuses, statuses...) {
		if r.Stop() {
			return
		}
		id := fmt.Sprintf("an%d-%d", s, seq.Add(1))
		cs := &c18Case{id: id, mode: "answer", size: pick(g, []int{0, 1, 20, 5000}), status: st}
		for _, h := range [][2]string{{"Retry-After", pick(g, []string{"0", "0", "1", "120", "Fri, 31 Dec 1999 23:59:59 GMT", "soon"})}, {"Location", pick(g, []string{"/fine", "http://up.test/fine", "http://" + up.Addr + "/other", "?again", ""})}, {"Connection", "close"}, {"WWW-Authenticate", "Basic realm=\"x\""}, {"Refresh", "0"}, {"Upgrade", "h2c"}, {"X-Accel-Redirect", "/fine"}, {"Set-Cookie", "retry=1"}} {
			if h[0] == "Retry-After" && i < len(statuses) {
				cs.hdr = append(cs.hdr, [2]string{h[0], "0"})
			} else if chance(g, .4) {
				cs.hdr = append(cs.hdr, h)
			}
		}
		cases.Store(id, cs)
		pl := &c17Plan{host: "up.test", method: pick(g, []string{"POST", "PATCH", "POST", "GET", "PUT", "DELETE"}), target: "/answered", hdr: [][2]string{{"X-Id", id}}}
		if i < len(statuses) {
			pl.method = []string{"POST", "PATCH"}[i%2]
		}
		if chance(g, .3) {
			pl.hdr = append(pl.hdr, [2]string{pick(g, []string{"Idempotency-Key", "X-Idempotency-Key", "Authorization", "Cookie"}), "k" + id})
		}
		if pl.method != "GET" && chance(g, .7) {
			pl.body = bytes.Repeat([]byte("b"), pick(g, []int{1, 100, 70000}))
		}
		useH2 := useTLS && g.IntN(2) == 0
		resp, err := exchange(g, useH2, pl)
		n := 0
		for _, q := range up.Reqs(0) {
			if q.Get("X-Id") == id {
				n++
			}
		}
		wit := M{"upstream_status": st, "upstream_header": cs.hdr, "size": cs.size, "method": pl.method, "request_body": len(pl.body), "arrived": n, "h2": useH2}
		if err != nil {
			r.Violate("answered-lost", wit, "the complete answer of the upstream did not arrive: %v", err)
		} else if resp.Status != st || len(resp.Body) != cs.size || resp.BodyErr != nil {
			r.Violate("answered-other", wit, "the upstream answered %d with %d bytes, the client got %d with %d, %v", st, cs.size, resp.Status, len(resp.Body), resp.BodyErr)
		}
		if n > 1 && (pl.method == "POST" || pl.method == "PATCH") || n < 1 {
			r.Violate("twice", wit, "%s arrived %d times at the upstream", pl.method, n)
		}
		r.Eval(fmt.Sprint("answered", st, pl.method, useH2, n))
		r.Count("complete_answers", 1)
	}
}

// c18Client fails on the client's side.
func c18Client(r *rep.R, g *rand.Rand, p *srv.Proc, up *srv.Upstream, seq *atomic.Int64, s int, after func(any, string)) {
	kinds := []string{"cl-close", "cl-reset", "cl-half-close", "ch-close", "ch-reset", "ch-half-close", "ch-mid", "ch-bad", "cl-stall", "ch-stall", "headers-only", "expect-close"}
	var wg sync.WaitGroup
	var sem = make(chan struct{}, 16)
	for i := 0; i < 60; i++ {
		kind := kinds[i%len(kinds)]
		gg := rand.New(rand.NewPCG(r.Seed*31+uint64(s), uint64(i)))
		wg.Add(1)
		sem <- struct{}{}
		go func() {
			defer func() { <-sem; wg.Done() }()
			g := gg
			id := fmt.Sprintf("cl%d-%d", s, seq.Add(1))
			method := pick(g, []string{"POST", "PUT", "PATCH"})
			size := pick(g, []int{10, 4096, 100000, 2000000})
			sent := pick(g, []int{0, 1, size / 2, size - 1})
			wit := M{"client_failure": kind, "method": method, "announced": size, "sent": sent}
			cn, err := client(p, "").Dial()
			if err != nil {
				r.Inconclusive("dial: %v", err)
				return
			}
			defer cn.Close()
			cn.SetDeadline(time.Now().Add(60 * time.Second))
			hdr := [][2]string{{"X-Id", id}}
			if strings.HasPrefix(kind, "ch") {
				hdr = append(hdr, [2]string{"Transfer-Encoding", "chunked"})
			} else {
				hdr = append(hdr, [2]string{"Content-Length", fmt.Sprint(size)})
			}
			if kind == "expect-close" {
				hdr = append(hdr, [2]string{"Expect", "100-continue"})
			}
			cn.Write(srv.Req(method, "/body", "up.test", hdr, nil))
			data := bytes.Repeat([]byte("d"), sent)
			if strings.HasPrefix(kind, "ch") {
				if sent > 0 {
					fmt.Fprintf(cn, "%x\r\n%s\r\n", sent, data)
				}
				if kind == "ch-mid" {
					fmt.Fprintf(cn, "ff\r\nabc")
				}
				if kind == "ch-bad" {
					fmt.Fprintf(cn, "xyz\r\nabc\r\n0\r\n\r\n")
				}
			} else if kind != "headers-only" && kind != "expect-close" {
				cn.Write(data)
			}
			tcp, _ := cn.(*net.TCPConn)
			switch {
			case strings.HasSuffix(kind, "reset"):
				if tcp != nil {
					tcp.SetLinger(0)
				}
				cn.Close()
			case strings.HasSuffix(kind, "half-close"):
				if tcp != nil {
					tcp.CloseWrite()
				} else if t, ok := cn.(*tls.Conn); ok {
					t.CloseWrite()
				}
			case strings.HasSuffix(kind, "stall"), kind == "ch-bad":
			default:
				cn.Close()
			}
			// what the server says, if it still can
			status := 0
			if strings.HasSuffix(kind, "half-close") || strings.HasSuffix(kind, "stall") || kind == "ch-bad" {
				if resp, err := srv.ReadResp(cn, method); err == nil {
					status = resp.Status
					wit["status"] = status
					if status >= 200 && status < 400 {
						r.Violate("incomplete-accepted", wit, "an incomplete request was answered with %d", status)
					}
				} else if strings.Contains(err.Error(), "timeout") {
					r.Violate("client-stall", wit, "the server keeps waiting for a stalled request body: %v", err)
				}
			} else {
				// the server notices the end of the connection; nothing may reach the upstream meanwhile
				time.Sleep(300 * time.Millisecond)
			}
			for _, q := range up.Reqs(0) {
				if q.Get("X-Id") == id {
					wit["forwarded"] = M{"body": len(q.Body), "line": q.Line}
					r.Violate("incomplete-forwarded", wit, "a request whose body never arrived completely was forwarded with %d bytes", len(q.Body))
				}
			}
			r.Eval(fmt.Sprint("client", kind, method, size, sent, status))
			r.Count("client_failure_"+kind, 1)
		}()
	}
	wg.Wait()
	after(M{"after": "client failures"}, "client-failures")
	for _, q := range up.Reqs(0) {
		if strings.HasPrefix(q.Get("X-Id"), "cl") {
			r.Violate("incomplete-forwarded", M{"line": q.Line, "headers": q.Header}, "a request whose body never arrived completely was forwarded")
		}
	}
}

func contains(xs []string, x string) bool {
	for _, y := range xs {
		if x == y {
			return true
		}
	}
	return false
}
