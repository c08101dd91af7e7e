package checks

import (
	"bufio"
	"bytes"
	"crypto/tls"
	"fmt"
	"io"
	"math/rand/v2"
	"net"
	"net/http"
	"os"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"verifharness/rep"
	"verifharness/srv"
)

func TestC22(t *testing.T) {
	r := rep.New("C22", "A case is one request the real server is verifiably handling (its upstream holds it, its body is being read after 100-continue, or its response is partly delivered) when SIGINT or SIGTERM arrives; upstreams, bodies and clients go on after a chosen delay of up to 27 s. Judged: every such request gets its complete, right response; new connections are refused; the process is still alive until then and ends soon after, and within the 30 s when a request never ends; the metrics file counts every answered request. Distinct = (kind of request, protocol, signal, delay class, outcome).")
	r.Watchdog(180*time.Second, true)
	var wg sync.WaitGroup
	sem := make(chan struct{}, 8)
	n := r.N(22, 200)
	for s := 0; s < n && !r.Stop(); s++ {
		wg.Add(1)
		sem <- struct{}{}
		go func() {
			defer func() { <-sem; wg.Done() }()
			c22Server(r, r.Rng(fmt.Sprint("srv", s)), s)
		}()
	}
	wg.Wait()
	r.Finish()
}

var c22Kinds = []string{"up-headers", "up-body", "up-chunked", "upload", "file", "late-502", "up-headers", "up-error", "file-vh", "upload-403"}

type c22Req struct {
	id, kind, proto string
	head            chan struct{} // the server is handling it
	gate            chan struct{} // it may go on
	err             error
	status          int
	body            []byte
	done            time.Time
	once            sync.Once
}

func (q *c22Req) handling() { q.once.Do(func() { close(q.head) }) }

func c22Want(id string, n int) []byte {
	return bytes.Repeat([]byte(id+"."), n/(len(id)+1)+1)
}

func c22Server(r *rep.R, g *rand.Rand, s int) {
	dir := rep.Scratch("c22")
	useTLS := s%3 != 2
	cert := srv.MakeCert(dir, "t", false, "localhost")
	big := bytes.Repeat([]byte("0123456789abcdef"), 1<<20) // 16 MB: more than socket buffers hold
	os.MkdirAll(dir+"/www", 0o755)
	os.WriteFile(dir+"/www/big.bin", big, 0o644)
	os.WriteFile(dir+"/www/index.html", []byte("index"), 0o644)
	up := srv.NewUpstream("u", "")
	defer up.Close()
	var reqs sync.Map
	up.Respond = func(u *srv.UpReq, c net.Conn) bool {
		v, ok := reqs.Load(u.Get("X-Id"))
		if !ok {
			io.WriteString(c, "HTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\nok")
			return true
		}
		q := v.(*c22Req)
		want := c22Want(q.id, 60000)
		switch q.kind {
		case "up-headers":
			q.handling()
			<-q.gate
			fmt.Fprintf(c, "HTTP/1.1 201 Made\r\nContent-Length: %d\r\n\r\n%s", len(want), want)
		case "up-error":
			q.handling()
			<-q.gate
			fmt.Fprintf(c, "HTTP/1.1 503 Busy\r\nContent-Length: %d\r\n\r\n%s", len(want), want)
		case "up-body":
			fmt.Fprintf(c, "HTTP/1.1 200 OK\r\nContent-Length: %d\r\n\r\n%s", len(want), want[:30000])
			<-q.gate
			c.Write(want[30000:])
		case "up-chunked":
			fmt.Fprintf(c, "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n%x\r\n%s\r\n", 30000, want[:30000])
			<-q.gate
			fmt.Fprintf(c, "%x\r\n%s\r\n0\r\n\r\n", len(want)-30000, want[30000:])
		case "late-502":
			q.handling()
			<-q.gate
			return false
		default: // upload
			fmt.Fprintf(c, "HTTP/1.1 200 OK\r\nContent-Length: %d\r\n\r\n%s", len(want), want)
		}
		return true
	}
	out := dir + "/metrics.json"
	vh := map[string]M{
		"up.test":   {"Guard": noLimit(), "Proxy": M{"Enabled": true, "Rules": map[string]string{"up.test": "http://" + up.Addr}, "Methods": []string{"GET", "POST"}}},
		"file.test": {"Guard": noLimit(), "Serve": M{"ServeDir": dir + "/www", "ServeIndex": "index.html", "Methods": M{"/": "GET"}}},
		"vh.test":   {"Guard": noLimit(), "Serve": M{"ServeDir": dir + "/www", "ServeIndex": "index.html", "Download": M{"Enabled": true, "Exts": []string{".bin"}}}},
	}
	main := M{"Core": core(dir, M{"ReadTimeout": 200, "WriteTimeout": 200, "ReadHeaderTimeout": 100, "TLS": M{"Enabled": useTLS, "TLSCert": cert.CertFile, "TLSKey": cert.KeyFile},
		"Metrics": M{"Enabled": true, "Path": "/metrics", "Out": out, "Users": M{"admin": "pw"}}})}
	p := launch(r, g, dir, main, vh, srv.Opt{})
	if p == nil {
		return
	}
	defer p.Kill()

	mode := []string{"quick", "quick", "quick", "idle", "stuck", "long", "burst", "long"}[s%8]
	sig := pick(g, []syscall.Signal{syscall.SIGTERM, syscall.SIGTERM, syscall.SIGINT})
	wit := M{"server": s, "mode": mode, "signal": sig.String(), "tls": useTLS}
	var all []*c22Req
	n := 3 + g.IntN(8)
	if mode == "idle" {
		n = 0
	}
	sentBefore := 0
	{ // some finished requests, and idle connections that stay open
		for i := 0; i < 3; i++ {
			c := client(p, "")
			defer c.Close()
			if _, err := c.Get("/", "file.test"); err == nil {
				sentBefore++
			}
		}
		cn, err := net.Dial("tcp", p.Addr)
		if err == nil && chance(g, .5) { // a connection that never says anything
			defer cn.Close()
		}
	}
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		q := &c22Req{id: fmt.Sprintf("id%d-%d", s, i), kind: c22Kinds[g.IntN(len(c22Kinds))], proto: "h1", head: make(chan struct{}), gate: make(chan struct{})}
		if mode == "stuck" && i == 0 {
			q.kind = pick(g, []string{"up-headers", "up-body", "file"})
		}
		if useTLS && !strings.HasPrefix(q.kind, "upload") && chance(g, .5) {
			q.proto = "h2"
		}
		reqs.Store(q.id, q)
		all = append(all, q)
		wg.Add(1)
		go func() {
			defer wg.Done()
			c22Client(p, q)
			q.done = time.Now()
		}()
	}
	for _, q := range all {
		select {
		case <-q.head:
		case <-time.After(60 * time.Second):
			r.Violate("never-handled", wit, "a request of kind %s over %s was not handled before the signal", q.kind, q.proto)
			return
		}
	}
	// a burst of ordinary requests around the signal: each is answered completely or not at all
	var burst atomic.Int64
	stopBurst := make(chan struct{})
	var bw sync.WaitGroup
	if mode == "burst" {
		for i := 0; i < 6; i++ {
			bw.Add(1)
			go func() {
				defer bw.Done()
				c := client(p, "")
				c.Timeout = 20 * time.Second
				for {
					select {
					case <-stopBurst:
						return
					default:
					}
					resp, err := c.Get("/", pick(rand.New(rand.NewPCG(uint64(i), uint64(time.Now().UnixNano()))), []string{"file.test", "up.test", "nobody.test"}))
					if err != nil {
						return
					}
					if resp.BodyErr != nil {
						r.Violate("burst-cut", wit, "an ordinary answer around the signal is cut off: %v", resp.BodyErr)
						return
					}
					burst.Add(1)
				}
			}()
		}
		time.Sleep(time.Duration(g.IntN(60)) * time.Millisecond)
	}
	if p.Exited() {
		r.Violate("server-died", M{"case": wit, "output": tailS(p.Out.String(), 3000)}, "the server ended before the signal")
		return
	}
	p.Signal(sig)
	t0 := time.Now()
	// new connections are refused soon
	refused := make(chan time.Duration, 1)
	go func() {
		for time.Since(t0) < 20*time.Second {
			c, err := net.DialTimeout("tcp", p.Addr, 2*time.Second)
			if err != nil {
				refused <- time.Since(t0)
				return
			}
			c.Close()
			time.Sleep(20 * time.Millisecond)
		}
		refused <- -1
	}()
	if chance(g, .3) {
		go func() {
			time.Sleep(time.Duration(g.IntN(200)) * time.Millisecond)
			if !p.Exited() {
				p.Signal(sig)
			}
		}()
	}
	// let them go on
	base := time.Duration(g.IntN(2500)) * time.Millisecond
	if mode == "long" {
		base = time.Duration(19000+g.IntN(8000)) * time.Millisecond
	}
	var stuck *c22Req
	for i, q := range all {
		if mode == "stuck" && i == 0 {
			stuck = q
			continue
		}
		d := base + time.Duration(g.IntN(500))*time.Millisecond
		time.AfterFunc(d, func() { close(q.gate) })
	}
	wit["delay_ms"] = base.Milliseconds()
	last := t0
	finished := make(chan struct{})
	go func() { wg.Wait(); close(finished) }()
	if stuck == nil {
		select {
		case <-finished:
		case <-time.After(100 * time.Second):
			r.Violate("never-answered", wit, "a request in flight at the signal got no answer and no end of connection")
			return
		}
		last = time.Now()
		if len(all) == 0 {
			last = t0
		}
	}
	if !p.WaitExit(time.Until(last) + 75*time.Second) {
		r.Violate("no-exit", wit, "the process is still there 75 s after the last request ended")
		return
	}
	exit := time.Since(t0)
	close(stopBurst)
	bw.Wait()
	if stuck != nil {
		close(stuck.gate)
		<-finished
	}
	if d := <-refused; d < 0 {
		r.Violate("still-accepting", wit, "20 s after the signal new connections are still accepted")
	}
	counted := sentBefore + int(burst.Load())
	for _, q := range all {
		r.Eval(fmt.Sprint(q.kind, q.proto, sig, mode, base/time.Second, q.status))
		r.Count("in_flight_"+q.kind, 1)
		if q == stuck {
			continue
		}
		counted++
		want, st := c22Want(q.id, 60000), 200
		switch q.kind {
		case "up-headers":
			st = 201
		case "up-error":
			st = 503
		case "late-502":
			st, want = 502, nil
		case "file", "file-vh":
			want = big
		case "upload-403":
			st, want = 405, nil
		}
		w := M{"case": wit, "kind": q.kind, "proto": q.proto, "status": q.status, "got_bytes": len(q.body), "err": fmt.Sprint(q.err), "exit_after_ms": exit.Milliseconds(), "output": tailS(p.Out.String(), 1500)}
		switch {
		case q.err != nil || q.status == 0:
			r.Violate("cut-off", w, "a request in flight at the signal (%s over %s) was not completed: status %d, %d bytes, %v", q.kind, q.proto, q.status, len(q.body), q.err)
		case q.status != st && q.kind != "upload-403":
			r.Violate("wrong-answer", w, "a request in flight at the signal (%s) was answered %d instead of %d", q.kind, q.status, st)
		case want != nil && !bytes.Equal(q.body, want):
			r.Violate("wrong-body", w, "a request in flight at the signal (%s) got %d bytes instead of %d", q.kind, len(q.body), len(want))
		}
	}
	if len(all) == 0 {
		r.Eval(fmt.Sprint("idle", sig, exit/time.Second))
	}
	r.Count("mode_"+mode, 1)
	if useTLS {
		m, err := readMetricsFile(out)
		if err != nil {
			r.Violate("metrics", wit, "metrics file after the shutdown: %v", err)
		} else if m.TotalRequests < counted || m.sum() != m.TotalRequests {
			wit["metrics"] = m
			r.Violate("metrics-missing", wit, "metrics written at shutdown hold %d requests, %d were answered", m.TotalRequests, counted)
		} else if mode != "burst" && stuck == nil && m.TotalRequests > counted {
			wit["metrics"] = m
			r.Violate("metrics-extra", wit, "metrics written at shutdown hold %d requests, %d were answered", m.TotalRequests, counted)
		}
	}
	checkPanics(r, p, "panic")
	if r.WantSample() {
		wit["requests"] = len(all)
		wit["exit_ms"] = exit.Milliseconds()
		r.Sample(wit)
	}
	r.Beat()
}

// c22Client sends the request and reads the answer.
func c22Client(p *srv.Proc, q *c22Req) {
	host, path, method := "up.test", "/x", "GET"
	switch q.kind {
	case "file":
		host, path = "file.test", "/big.bin"
	case "file-vh":
		host, path = "vh.test", "/big.bin"
	case "upload":
		method = "POST"
	case "upload-403":
		host, path, method = "file.test", "/nope", "POST"
	}
	hdr := [][2]string{{"X-Id", q.id}}
	if q.proto == "h2" {
		tr := &http.Transport{TLSClientConfig: &tls.Config{InsecureSkipVerify: true, NextProtos: []string{"h2"}}, ForceAttemptHTTP2: true, DisableCompression: true}
		defer tr.CloseIdleConnections()
		req, _ := http.NewRequest(method, "https://"+p.Addr+path, nil)
		req.Host = host
		req.Header.Set("X-Id", q.id)
		res, err := (&http.Client{Transport: tr, Timeout: 150 * time.Second}).Do(req)
		if err != nil {
			q.err = err
			return
		}
		q.status = res.StatusCode
		q.body, q.err = c22Read(q, res.Body)
		return
	}
	cn, err := client(p, "").Dial()
	if err != nil {
		q.err = err
		return
	}
	defer cn.Close()
	cn.SetDeadline(time.Now().Add(150 * time.Second))
	br := bufio.NewReaderSize(cn, 4096)
	if strings.HasPrefix(q.kind, "upload") {
		data := bytes.Repeat([]byte("u"), 50000)
		hdr = append(hdr, [2]string{"Content-Length", fmt.Sprint(len(data))}, [2]string{"Expect", "100-continue"}, [2]string{"Content-Type", "text/plain"})
		cn.Write(srv.Req(method, path, host, hdr, nil))
		line, err := br.ReadString('\n')
		if err == nil && strings.Contains(line, " 100 ") {
			br.ReadString('\n')
			cn.Write(data[:20000])
			q.handling()
			<-q.gate
			cn.Write(data[20000:])
		} else { // answered without reading the body
			q.handling()
			<-q.gate
			f := strings.Fields(line)
			if err == nil && len(f) > 1 {
				fmt.Sscan(f[1], &q.status)
			}
			q.err = err
			return
		}
	} else {
		cn.Write(srv.Req(method, path, host, hdr, nil))
	}
	res, err := http.ReadResponse(br, &http.Request{Method: method})
	if err != nil {
		q.err = err
		return
	}
	q.status = res.StatusCode
	q.body, q.err = c22Read(q, res.Body)
}

// c22Read reads the body; for the kinds whose body is under way at the signal it reads a little, reports, and goes on later.
func c22Read(q *c22Req, b io.ReadCloser) ([]byte, error) {
	defer b.Close()
	var buf bytes.Buffer
	switch q.kind {
	case "up-body", "up-chunked":
		if _, err := io.CopyN(&buf, b, 1000); err != nil {
			return buf.Bytes(), err
		}
		q.handling()
	case "file", "file-vh":
		if _, err := io.CopyN(&buf, b, 1000); err != nil {
			return buf.Bytes(), err
		}
		q.handling()
		<-q.gate
	}
	_, err := io.Copy(&buf, b)
	return buf.Bytes(), err
}
