package checks

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"math/rand/v2"
	"net"
	"os"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"verifharness/rep"
	"verifharness/srv"
)

const c26Margin = 2500 * time.Millisecond
const c26Idle = 30 * time.Second
const c26Big = 64 << 20

func TestC26(t *testing.T) {
	r := rep.New("C26", "A case is one connection to the real server (plain, TLS or HTTP/2) whose peer stalls or drips at a chosen stage (before the first byte, in the TLS handshake, request line, header, body, a second request, or while reading a 64 MB response; or the upstream stalls before or within its header), with limits configured to well separated values or left at their defaults; the time until the connection is closed or answered is compared with the one limit that applies. Counterparts that stall for less than the limit must be served. Further cases are requests of well-behaved clients while hundreds of connections stall at every stage under long limits. A timing case is judged after three failures in a row. Distinct = (limits, protocol, stage, verdict).")
	r.Watchdog(200*time.Second, false)
	var wg sync.WaitGroup
	run := func(f func()) {
		wg.Add(1)
		go func() { defer wg.Done(); f() }()
	}
	for i, l := range [][3]int{{1, 4, 8}, {1, 8, 4}, {4, 8, 1}} {
		for _, tls := range []bool{false, true} {
			run(func() { c26Server(r, r.Rng(fmt.Sprint("srv", i, tls)), l, tls, true) })
		}
	}
	if r.Tier == "thorough" {
		for i, l := range [][3]int{{2, 5, 9}, {2, 9, 5}, {5, 9, 2}, {3, 15, 8}, {10, 15, 20}, {20, 30, 40}} {
			for _, tls := range []bool{false, true} {
				run(func() { c26Server(r, r.Rng(fmt.Sprint("thorough", i, tls)), l, tls, true) })
			}
		}
	}
	run(func() { c26Server(r, r.Rng("default"), [3]int{8, 30, 30}, r.Seed%2 == 0, false) })
	for i := 0; i < r.N(2, 8); i++ {
		run(func() { c26Others(r, r.Rng(fmt.Sprint("others", i)), i%2 == 1, r.N(150, 600)) })
	}
	wg.Wait()
	r.Finish()
}

type c26Env struct {
	r    *rep.R
	g    *rand.Rand
	p    *srv.Proc
	lim  [3]time.Duration // read header, read, write
	tls  bool
	host map[string]string
	slow atomic.Int64 // nanoseconds the slow upstream waits
	gone chan struct{}
}

// c26Setup starts a server with a served site, a big file and proxies to upstreams that misbehave.
func c26Setup(r *rep.R, g *rand.Rand, coreMore M, useTLS bool) (*c26Env, func()) {
	dir := rep.Scratch("c26")
	put(dir, "www/index.html", "hello")
	f, err := os.Create(dir + "/www/big.bin")
	if err == nil {
		err = f.Truncate(c26Big)
		f.Close()
	}
	if err != nil {
		r.Inconclusive("%v", err)
		return nil, nil
	}
	e := &c26Env{r: r, g: g, tls: useTLS, gone: make(chan struct{}, 10000)}
	ups := map[string]*srv.Upstream{}
	ups["echo.test"] = srv.NewUpstream("echo", "")
	ups["silent.test"] = srv.NewUpstream("silent", "")
	block := make(chan struct{})
	ups["silent.test"].Respond = func(q *srv.UpReq, c net.Conn) bool { <-block; return false }
	ups["deaf.test"] = srv.NewUpstream("deaf", "")
	ups["deaf.test"].OnConn = func(c net.Conn) bool { <-block; return false }
	ups["drip.test"] = srv.NewUpstream("drip", "")
	ups["drip.test"].Respond = func(q *srv.UpReq, c net.Conn) bool {
		for _, b := range []byte("HTTP/1.1 200 OK\r\nX-A: " + strings.Repeat("x", 100000)) {
			if _, err := c.Write([]byte{b}); err != nil {
				return false
			}
			select {
			case <-block:
				return false
			case <-time.After(50 * time.Millisecond):
			}
		}
		return false
	}
	ups["slow.test"] = srv.NewUpstream("slow", "")
	ups["slow.test"].Respond = func(q *srv.UpReq, c net.Conn) bool {
		time.Sleep(time.Duration(e.slow.Load()))
		io.WriteString(c, "HTTP/1.1 200 OK\r\nContent-Length: 4\r\n\r\nslow")
		return true
	}
	ups["bigup.test"] = srv.NewUpstream("bigup", "")
	ups["bigup.test"].Respond = func(q *srv.UpReq, c net.Conn) bool {
		fmt.Fprintf(c, "HTTP/1.1 200 OK\r\nContent-Length: %d\r\n\r\n", c26Big)
		buf := make([]byte, 1<<20)
		for n := 0; n < c26Big; n += len(buf) {
			if _, err := c.Write(buf); err != nil {
				select {
				case e.gone <- struct{}{}:
				default:
				}
				return false
			}
		}
		return true
	}
	vh := map[string]M{"files.test": {"Guard": noLimit(), "Serve": M{"ServeDir": dir + "/www", "ServeIndex": "index.html", "Methods": M{"/": "GET;POST"}}},
		"dl.test": {"Guard": noLimit(), "Serve": M{"ServeDir": dir + "/www/", "ServeIndex": "index.html", "Download": M{"Enabled": true, "Exts": []string{".bin"}}}}}
	for h, u := range ups {
		vh[h] = M{"Guard": noLimit(), "Proxy": M{"Enabled": true, "Rules": M{h: "http://" + u.Addr}, "Methods": []string{"GET", "POST"}}}
	}
	cr := core(dir, coreMore)
	if useTLS {
		c := srv.MakeCert(dir, "t", false, "localhost")
		cr["TLS"] = M{"Enabled": true, "TLSCert": c.CertFile, "TLSKey": c.KeyFile}
	}
	e.p = launch(r, g, dir, M{"Core": cr}, vh, srv.Opt{})
	end := func() {
		close(block)
		if e.p != nil {
			e.p.Kill()
		}
		for _, u := range ups {
			u.Close()
		}
	}
	if e.p == nil {
		end()
		return nil, nil
	}
	return e, end
}

func (e *c26Env) dial() (net.Conn, error) { return client(e.p, "").Dial() }

// dialSmall has a small receive buffer, so that a reader who stops stalls the server soon.
func (e *c26Env) dialSmall(rawTLS bool) (net.Conn, error) {
	d := net.Dialer{Timeout: 30 * time.Second, Control: func(_, _ string, c syscall.RawConn) error {
		return c.Control(func(fd uintptr) { syscall.SetsockoptInt(int(fd), syscall.SOL_SOCKET, syscall.SO_RCVBUF, 8192) })
	}}
	cn, err := d.Dial("tcp", e.p.Addr)
	if err != nil || !e.tls || rawTLS {
		return cn, err
	}
	return c26TLS(cn)
}

// stalled measures how long it takes until the connection is closed; -1 if it still is open after the limit.
func c26Closed(cn net.Conn, since time.Time, limit time.Duration) time.Duration {
	cn.SetReadDeadline(since.Add(limit + c26Margin))
	buf := make([]byte, 4096)
	for {
		if _, err := cn.Read(buf); err != nil {
			if ne, ok := err.(net.Error); ok && ne.Timeout() {
				return -1
			}
			return time.Since(since)
		}
	}
}

// drip writes bytes slowly until the connection breaks.
func c26Drip(cn net.Conn, b string, stop chan struct{}) {
	for i := 0; ; i++ {
		if _, err := cn.Write([]byte{b[i%len(b)]}); err != nil {
			return
		}
		select {
		case <-stop:
			return
		case <-time.After(40 * time.Millisecond):
		}
	}
}

func c26Server(r *rep.R, g *rand.Rand, lim [3]int, useTLS, configured bool) {
	more := M{}
	if configured {
		more = M{"ReadHeaderTimeout": lim[0], "ReadTimeout": lim[1], "WriteTimeout": lim[2]}
	}
	e, end := c26Setup(r, g, more, useTLS)
	if e == nil {
		return
	}
	defer end()
	for i := range lim {
		e.lim[i] = time.Duration(lim[i]) * time.Second
	}
	rh, rd, wr := e.lim[0], e.lim[1], e.lim[2]
	e.slow.Store(int64(rh * 2 / 5))
	var wg sync.WaitGroup
	// each case returns "" if all was well
	try := func(name string, f func() string) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			what := ""
			for k := 0; k < 3; k++ {
				if what = f(); what == "" {
					break
				}
				r.Count("repeated", 1)
			}
			r.Eval(fmt.Sprint(lim, useTLS, configured, name, what == ""))
			if what != "" {
				r.Violate(strings.Fields(name)[0], M{"limits (header, read, write)": fmt.Sprint(lim), "configured": configured, "tls": useTLS, "case": name, "observed": what}, "%s: %s (limits header %v read %v write %v)", name, what, rh, rd, wr)
			} else if r.WantSample() {
				r.Sample(M{"limits": fmt.Sprint(lim), "tls": useTLS, "case": name})
			}
		}()
	}
	closes := func(name string, limit time.Duration, open func() (net.Conn, time.Time, error)) {
		try(name, func() string {
			cn, t0, err := open()
			if err != nil {
				return err.Error()
			}
			defer cn.Close()
			d := c26Closed(cn, t0, limit)
			if d < 0 {
				return fmt.Sprintf("still open %v after the limit of %v", c26Margin, limit)
			}
			return ""
		})
	}
	now := func(cn net.Conn, err error) (net.Conn, time.Time, error) { return cn, time.Now(), err }
	closes("close nothing sent", rh, func() (net.Conn, time.Time, error) { return now(e.dial()) })
	for _, part := range []string{"G", "GET /", "GET / HTTP/1.1\r\n", "GET / HTTP/1.1\r\nHost: files.test\r\n", "POST / HTTP/1.1\r\nHost: files.test\r\nX: yyy", "\r\n"} {
		closes(fmt.Sprintf("close header stalls after %q", part), rh, func() (net.Conn, time.Time, error) {
			cn, t0, err := now(e.dial())
			if err == nil {
				io.WriteString(cn, part)
			}
			return cn, t0, err
		})
	}
	stopDrip := make(chan struct{})
	closes("close header drips", rh, func() (net.Conn, time.Time, error) {
		cn, t0, err := now(e.dial())
		if err == nil {
			io.WriteString(cn, "GET / HTTP/1.1\r\nHost: files.test\r\n")
			go c26Drip(cn, "X-A: aaaa\r\n", stopDrip)
		}
		return cn, t0, err
	})
	closes("close second request stalls", rh, func() (net.Conn, time.Time, error) {
		cn, err := e.dial()
		if err != nil {
			return nil, time.Now(), err
		}
		cn.SetDeadline(time.Now().Add(60 * time.Second))
		io.WriteString(cn, "GET / HTTP/1.1\r\nHost: files.test\r\n\r\n")
		if _, err := srv.ReadResp(cn, "GET"); err != nil {
			cn.Close()
			return nil, time.Now(), err
		}
		io.WriteString(cn, "GET / HTTP/1.1\r\nHos")
		return cn, time.Now(), nil
	})
	if !configured || lim[0] == 1 && lim[1] == 8 {
		for _, q := range []string{"GET / HTTP/1.1\r\nHost: files.test\r\n\r\n", "GET /none HTTP/1.1\r\nHost: files.test\r\n\r\n", "POST / HTTP/1.1\r\nHost: echo.test\r\nContent-Length: 2\r\n\r\nab"} {
			closes(fmt.Sprintf("idle connection after %q", q), c26Idle, func() (net.Conn, time.Time, error) {
				cn, err := e.dial()
				if err != nil {
					return nil, time.Now(), err
				}
				cn.SetDeadline(time.Now().Add(60 * time.Second))
				for k := 0; k < 2; k++ {
					io.WriteString(cn, q)
					if _, err := srv.ReadResp(cn, "GET"); err != nil {
						cn.Close()
						return nil, time.Now(), err
					}
				}
				return cn, time.Now(), nil
			})
		}
		answerAfterIdle := func() string {
			cn, err := e.dial()
			if err != nil {
				return err.Error()
			}
			defer cn.Close()
			cn.SetDeadline(time.Now().Add(60 * time.Second))
			for k := 0; k < 2; k++ {
				io.WriteString(cn, "GET / HTTP/1.1\r\nHost: files.test\r\n\r\n")
				if resp, err := srv.ReadResp(cn, "GET"); err != nil || resp.Status != 200 {
					return fmt.Sprintf("request %d: %v %v", k, resp, err)
				}
				if k == 0 {
					time.Sleep(c26Idle / 3)
				}
			}
			return ""
		}
		try("patience idle connection", answerAfterIdle)
		if useTLS {
			try("idle HTTP/2 connection", func() string { return c26H2Idle(e, c26Idle) })
		}
	}
	if useTLS {
		for _, part := range []string{"", "\x16\x03\x01", "\x16\x03\x01\x02\x00\x01\x00\x01\xfc"} {
			limit := min(rh, rd, wr)
			closes(fmt.Sprintf("close TLS handshake stalls after %d bytes", len(part)), limit, func() (net.Conn, time.Time, error) {
				cn, t0, err := now(e.dialSmall(true))
				if err == nil {
					io.WriteString(cn, part)
				}
				return cn, t0, err
			})
		}
	}
	for _, host := range []string{"files.test", "echo.test", "unknown.test"} {
		for _, kind := range []string{"Content-Length: 1000\r\n\r\nabc", "Content-Length: 1000000\r\n\r\nabc", "Transfer-Encoding: chunked\r\n\r\n5\r\nab", "Content-Length: 5\r\n\r\n"} {
			for _, drip := range []bool{false, true} {
				if drip && strings.Contains(kind, ": 5\r") { // would complete
					continue
				}
				closes(fmt.Sprintf("close body stalls at %s %q drip=%v", host, kind, drip), rd, func() (net.Conn, time.Time, error) {
					cn, t0, err := now(e.dial())
					if err == nil {
						io.WriteString(cn, "POST /up HTTP/1.1\r\nHost: "+host+"\r\n"+kind)
						if drip {
							data := "z"
							if strings.Contains(kind, "chunked") {
								data = "cde\r\n5\r\nab"
							}
							go c26Drip(cn, data, stopDrip)
						}
					}
					return cn, t0, err
				})
			}
		}
	}
	for _, tgt := range [][2]string{{"files.test", "/big.bin"}, {"dl.test", "/big.bin"}, {"bigup.test", "/"}} {
		read := func(pause time.Duration) (int64, error) {
			cn, err := e.dialSmall(false)
			if err != nil {
				return 0, err
			}
			defer cn.Close()
			io.WriteString(cn, "GET "+tgt[1]+" HTTP/1.1\r\nHost: "+tgt[0]+"\r\nConnection: close\r\n\r\n")
			time.Sleep(pause)
			cn.SetReadDeadline(time.Now().Add(100 * time.Second))
			return io.Copy(io.Discard, cn)
		}
		try("write reader of "+tgt[0]+" stalls", func() string {
			if n, _ := read(wr + c26Margin); n >= c26Big {
				return fmt.Sprintf("the client stopped reading for %v and then still got everything", wr+c26Margin)
			} else if n == 0 {
				return "nothing was sent at all"
			}
			if tgt[0] == "bigup.test" {
				select {
				case <-e.gone:
				case <-time.After(20 * time.Second):
					return "the upstream connection is still open after the client was cut off"
				}
			}
			return ""
		})
		if wr > time.Second {
			try("patience reader of "+tgt[0]+" pauses", func() string {
				if n, err := read(wr / 4); n < c26Big {
					return fmt.Sprintf("a client that paused %v got %d bytes: %v", wr/4, n, err)
				}
				return ""
			})
		}
	}
	if useTLS {
		try("write HTTP/2 reader stalls", func() string { return c26H2Stall(e, wr) })
	}
	// counterparts within the limits
	answer := func(name, host string, want int, parts []string, pause time.Duration) {
		try("patience "+name, func() string {
			cn, err := e.dial()
			if err != nil {
				return err.Error()
			}
			defer cn.Close()
			for i, p := range parts {
				if i > 0 {
					time.Sleep(pause)
				}
				io.WriteString(cn, p)
			}
			cn.SetDeadline(time.Now().Add(60 * time.Second))
			resp, err := srv.ReadResp(cn, "GET")
			if err != nil {
				return err.Error()
			}
			if resp.Status != want {
				return fmt.Sprintf("status %d instead of %d", resp.Status, want)
			}
			return ""
		})
	}
	answer("slow header", "", 200, []string{"GET / HT", "TP/1.1\r\nHost: files.test\r\n\r\n"}, rh*2/5)
	answer("slow connection", "", 200, []string{"", "GET / HTTP/1.1\r\nHost: files.test\r\n\r\n"}, rh*2/5)
	if rd*2/5 < wr*3/4 {
		answer("slow body", "", 200, []string{"POST /up HTTP/1.1\r\nHost: echo.test\r\nContent-Length: 6\r\n\r\nabc", "def"}, rd*2/5)
	}
	if rh < wr {
		answer("slow upstream", "", 200, []string{"GET / HTTP/1.1\r\nHost: slow.test\r\n\r\n"}, 0)
		for _, h := range []string{"silent.test", "deaf.test", "drip.test"} {
			for _, m := range []string{"GET / HTTP/1.1\r\nHost: %s\r\n\r\n", "POST /x HTTP/1.1\r\nHost: %s\r\nContent-Length: 3\r\n\r\nabc"} {
				try("upstream "+h+" "+m[:4], func() string {
					cn, err := e.dial()
					if err != nil {
						return err.Error()
					}
					defer cn.Close()
					t0 := time.Now()
					fmt.Fprintf(cn, m, h)
					cn.SetDeadline(t0.Add(rh + c26Margin))
					resp, err := srv.ReadResp(cn, "GET")
					if err != nil {
						return fmt.Sprintf("no answer %v after the request: %v", time.Since(t0), err)
					}
					if resp.Status != 502 {
						return fmt.Sprintf("status %d", resp.Status)
					}
					return ""
				})
			}
		}
	}
	wg.Wait()
	close(stopDrip)
	checkAlive(r, e.p, nil)
	checkPanics(r, e.p, "panic")
	r.Count("servers", 1)
}

func c26TLS(cn net.Conn) (net.Conn, error) {
	c := &srv.Client{TLS: srv.TLSClient("localhost")}
	return c.Wrap(cn)
}

// c26H2Idle gets one answer over HTTP/2 and then stays silent.
func c26H2Idle(e *c26Env, limit time.Duration) string {
	cfg := srv.TLSClient("localhost")
	cfg.NextProtos = []string{"h2"}
	cn, err := (&srv.Client{Addr: e.p.Addr, TLS: cfg}).Dial()
	if err != nil {
		return err.Error()
	}
	defer cn.Close()
	cn.Write(c26H2Get("/none", 4096))
	time.Sleep(time.Second)
	if d := c26Closed(cn, time.Now(), limit); d < 0 {
		return fmt.Sprintf("still open %v after the limit of %v", c26Margin, limit)
	} else if d < limit/2 {
		return fmt.Sprintf("closed after %v", d)
	}
	return ""
}

// c26H2Stall asks for the big file over HTTP/2 without ever opening the flow control window.
func c26H2Stall(e *c26Env, limit time.Duration) string {
	cfg := srv.TLSClient("localhost")
	cfg.NextProtos = []string{"h2"}
	cn, err := (&srv.Client{Addr: e.p.Addr, TLS: cfg}).Dial()
	if err != nil {
		return err.Error()
	}
	defer cn.Close()
	cn.Write(c26H2Get("/big.bin", 0))
	t0 := time.Now()
	cn.SetReadDeadline(t0.Add(limit + c26Margin))
	for {
		var h [9]byte
		if _, err := io.ReadFull(cn, h[:]); err != nil {
			if ne, ok := err.(net.Error); ok && ne.Timeout() {
				return fmt.Sprintf("the stream is still open %v after the limit of %v", c26Margin, limit)
			}
			return ""
		}
		n := int64(h[0])<<16 | int64(h[1])<<8 | int64(h[2])
		if _, err := io.CopyN(io.Discard, cn, n); err != nil {
			return ""
		}
		if h[3] == 7 || h[3] == 3 {
			return ""
		}
	}
}

// c26H2Get is the start of a HTTP/2 connection with one request, which does not acknowledge anything.
func c26H2Get(path string, window uint16) []byte {
	var hp bytes.Buffer
	for _, kv := range [][2]string{{":method", "GET"}, {":scheme", "https"}, {":authority", "files.test"}, {":path", path}} {
		hp.WriteByte(0)
		hp.WriteByte(byte(len(kv[0])))
		hp.WriteString(kv[0])
		hp.WriteByte(byte(len(kv[1])))
		hp.WriteString(kv[1])
	}
	frame := func(typ, flags byte, stream uint32, b []byte) []byte {
		h := []byte{byte(len(b) >> 16), byte(len(b) >> 8), byte(len(b)), typ, flags, 0, 0, 0, 0}
		binary.BigEndian.PutUint32(h[5:], stream)
		return append(h, b...)
	}
	out := append([]byte("PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n"), frame(4, 0, 0, []byte{0, 4, 0, 0, byte(window >> 8), byte(window)})...)
	return append(out, frame(1, 5, 1, hp.Bytes())...)
}

// c26Others serves well-behaved clients while many connections stall.
func c26Others(r *rep.R, g *rand.Rand, useTLS bool, stalls int) {
	e, end := c26Setup(r, g, M{"ReadHeaderTimeout": 300, "ReadTimeout": 300, "WriteTimeout": 300, "Metrics": M{"Enabled": true, "Path": "/metrics", "Out": rep.Scratch("c26m") + "/m.json", "Users": M{"admin": "pw"}}}, useTLS)
	if e == nil {
		return
	}
	defer end()
	open := make(chan net.Conn, stalls)
	var wg sync.WaitGroup
	kinds := []string{"", "GET / HT", "GET / HTTP/1.1\r\nHost: files.test\r\nX: ", "POST / HTTP/1.1\r\nHost: echo.test\r\nContent-Length: 9\r\n\r\nabc", "POST / HTTP/1.1\r\nHost: files.test\r\nContent-Length: 900000\r\n\r\nabc",
		"GET /big.bin HTTP/1.1\r\nHost: files.test\r\n\r\n", "GET /big.bin HTTP/1.1\r\nHost: dl.test\r\n\r\n", "GET / HTTP/1.1\r\nHost: bigup.test\r\n\r\n", "GET / HTTP/1.1\r\nHost: silent.test\r\n\r\n", "GET / HTTP/1.1\r\nHost: deaf.test\r\n\r\n", "GET / HTTP/1.1\r\nHost: drip.test\r\n\r\n", "TLS"}
	for i := 0; i < stalls; i++ {
		k := kinds[i%len(kinds)]
		wg.Add(1)
		go func() {
			defer wg.Done()
			cn, err := e.dialSmall(k == "TLS")
			if err != nil {
				r.Violate("others-refused", M{"stalls": stalls, "tls": useTLS}, "a connection is not accepted while others stall: %v", err)
				return
			}
			if k == "TLS" {
				io.WriteString(cn, "\x16\x03\x01")
			} else {
				io.WriteString(cn, k)
			}
			open <- cn
		}()
	}
	wg.Wait()
	defer func() {
		for close(open); len(open) > 0; {
			(<-open).Close()
		}
	}()
	time.Sleep(300 * time.Millisecond)
	r.Count("stalled_connections", len(open))
	for k := 0; k < 6; k++ {
		gg := rand.New(rand.NewPCG(r.Seed, uint64(k)))
		wg.Add(1)
		go func() {
			defer wg.Done()
			c := client(e.p, "")
			c.Timeout = 30 * time.Second
			defer c.Close()
			for n := 0; n < r.N(60, 300) && !r.Stop(); n++ {
				if gg.IntN(3) == 0 {
					c.Close()
				}
				q := pick(gg, [][3]string{{"files.test", "/", "200"}, {"files.test", "/none", "404"}, {"echo.test", "/", "200"}, {"slow.test", "/", "200"}, {"dl.test", "/", "200"}, {"none.test", "/", "404"}, {"none.test", "/metrics", "401"}})
				t0 := time.Now()
				resp, err := c.Get(q[1], q[0])
				if err != nil {
					r.Violate("others-blocked", M{"stalled": stalls, "tls": useTLS, "request": q, "after": time.Since(t0).String()}, "a request gets no answer while other connections stall: %v", err)
					return
				}
				if fmt.Sprint(resp.Status) != q[2] {
					r.Violate("others-status", M{"request": q}, "status %d while other connections stall", resp.Status)
				}
				r.Eval(fmt.Sprint("others", useTLS, q, k))
				r.Count("requests_beside_stalls", 1)
			}
		}()
	}
	wg.Wait()
	checkAlive(r, e.p, nil)
	checkPanics(r, e.p, "panic")
}
