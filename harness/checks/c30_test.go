package checks

import (
	"bufio"
	"bytes"
	"context"
	"crypto/tls"
	"fmt"
	"io"
	"math/rand/v2"
	"net"
	"net/http"
	"os"
	"strconv"
	"strings"
	"testing"
	"time"

	"verifharness/rep"
	"verifharness/srv"
)

func TestC30(t *testing.T) {
	r := rep.New("C30", "A case is one request of a chosen shape (deep, dotted, slashed, escaped or long target, query, many or huge headers, ranges, content types, credentials, tiny chunks, chunk extensions) and size up to what net/http accepts, sent to every kind of site of the real server, judged by the processor time the server process used for it; or one file or upstream answer of hundreds of MB fetched whole, in part, slowly or not at all, judged by the peak memory of the server process and by how much an upstream can push ahead of the reader. Distinct = (shape, size, site kind, protocol).")
	r.Watchdog(200*time.Second, true)
	r.Phase("cost")
	for s := 0; s < r.N(3, 12) && !r.Stop() && r.Violations() == 0; s++ {
		c30Cost(r, r.Rng(fmt.Sprint("cost", s)), s)
	}
	for s := 0; s < r.N(2, 6) && !r.Stop(); s++ {
		r.Phase(fmt.Sprint("memory ", s))
		c30Memory(r, r.Rng(fmt.Sprint("mem", s)), s)
	}
	r.Finish()
}

// c30CPU is the processor time the process used so far.
func c30CPU(p *srv.Proc) time.Duration {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", p.Cmd.Process.Pid))
	if err != nil {
		return -1
	}
	s := string(b)
	f := strings.Fields(s[strings.LastIndexByte(s, ')')+1:])
	u, _ := strconv.Atoi(f[11])
	k, _ := strconv.Atoi(f[12])
	return time.Duration(u+k) * 10 * time.Millisecond
}

// c30HWM is the peak memory of the process in MB.
func c30HWM(p *srv.Proc) int {
	b, _ := os.ReadFile(fmt.Sprintf("/proc/%d/status", p.Cmd.Process.Pid))
	for _, l := range strings.Split(string(b), "\n") {
		if v, ok := strings.CutPrefix(l, "VmHWM:"); ok {
			n, _ := strconv.Atoi(strings.Fields(v)[0])
			return n / 1024
		}
	}
	return -1
}

type c30Shape struct {
	name   string
	method string
	target func(n int) string
	hdr    func(n int) [][2]string
	body   func(n int) []byte // with its own framing header
}

func c30Rep(s string, n int) string { return strings.Repeat(s, n/len(s)) }

func c30Shapes(g *rand.Rand) []c30Shape {
	t := func(name string, f func(n int) string) c30Shape { return c30Shape{name: "target-" + name, target: f} }
	h := func(name string, f func(n int) [][2]string) c30Shape { return c30Shape{name: "header-" + name, hdr: f} }
	one := func(k string, f func(n int) string) func(n int) [][2]string {
		return func(n int) [][2]string { return [][2]string{{k, f(n)}} }
	}
	return []c30Shape{
		t("deep", func(n int) string { return c30Rep("/x", n) }),
		t("deep-slash", func(n int) string { return c30Rep("/x", n) + "/" }),
		t("under-secret", func(n int) string { return "/secret" + c30Rep("/y", n) }),
		t("under-dir", func(n int) string { return "/a" + c30Rep("/abcdefgh", n) }),
		t("dots", func(n int) string { return c30Rep("/./x", n) }),
		t("dotdot", func(n int) string { return c30Rep("/a/..", n) }),
		t("dotdot-tail", func(n int) string { return c30Rep("/q", n/2) + c30Rep("/..", n/2) }),
		t("slashes", func(n int) string { return c30Rep("/", n) }),
		t("escaped-slash", func(n int) string { return "/" + c30Rep("%2f", n) }),
		t("escaped-dots", func(n int) string { return c30Rep("/%2e%2e", n) }),
		t("escapes", func(n int) string { return "/" + c30Rep("%41", n) }),
		t("bad-utf8", func(n int) string { return "/" + c30Rep("%ff", n) }),
		t("mixed-utf8", func(n int) string { return "/" + c30Rep("%ffa%c3%a9", n) }),
		t("markup", func(n int) string { return "/" + c30Rep("%3C%22%26", n) }),
		t("long", func(n int) string { return "/" + c30Rep("z", n) }),
		t("ext", func(n int) string { return "/f" + c30Rep(".bin", n) }),
		t("semicolons", func(n int) string { return "/" + c30Rep(";", n) }),
		t("query", func(n int) string { return "/?" + c30Rep("a=b&", n) }),
		t("query-hash", func(n int) string { return "/?" + c30Rep("%23a", n) }),
		t("backslash", func(n int) string { return "/" + c30Rep("%5c..", n) }),
		t("index", func(n int) string { return c30Rep("/index.html", n) }),
		h("many", func(n int) [][2]string {
			var out [][2]string
			for i := 0; i < n/12; i++ {
				out = append(out, [2]string{fmt.Sprintf("X-%d", i), "v"})
			}
			return out
		}),
		h("same", func(n int) [][2]string {
			var out [][2]string
			for i := 0; i < n/10; i++ {
				out = append(out, [2]string{"X-Same", "v"})
			}
			return out
		}),
		h("huge", one("X-Huge", func(n int) string { return c30Rep("v ,;=\"", n) })),
		h("ctype", one("Content-Type", func(n int) string { return c30Rep(";", n) })),
		h("ctype2", one("Content-Type", func(n int) string { return "text/html" + c30Rep("; a=b", n) })),
		h("ranges", one("Range", func(n int) string { return "bytes=" + strings.TrimSuffix(c30Rep("0-0,", n), ",") })),
		h("ranges-wide", one("Range", func(n int) string { return "bytes=" + strings.TrimSuffix(c30Rep("0-,", n), ",") })),
		h("ranges-bad", one("Range", func(n int) string { return "bytes=" + c30Rep(",", n) })),
		h("ranges-suffix", one("Range", func(n int) string { return "bytes=" + strings.TrimSuffix(c30Rep("-1,", n), ",") })),
		h("etags", one("If-None-Match", func(n int) string { return strings.TrimSuffix(c30Rep("\"x\", ", n), ", ") })),
		h("since", one("If-Modified-Since", func(n int) string { return c30Rep("Tue, 01 Jan ", n) })),
		h("auth", one("Authorization", func(n int) string { return "Basic " + c30Rep("YWFh", n) })),
		h("auth-colons", one("Authorization", func(n int) string { return "Basic " + c30Rep("Ojo6", n) })),
		h("cookie", one("Cookie", func(n int) string { return c30Rep("a=b; ", n) })),
		h("agent", one("User-Agent", func(n int) string { return c30Rep("<x> ", n) })),
		h("accept", one("Accept-Encoding", func(n int) string { return c30Rep("gzip, ", n) })),
		h("forwarded", one("X-Forwarded-For", func(n int) string { return c30Rep("1.2.3.4, ", n) })),
		h("connection", one("Connection", func(n int) string { return c30Rep("x, ", n) })),
		{name: "body-plain", method: "POST", body: func(n int) []byte { return []byte(fmt.Sprintf("Content-Length: %d\r\n\r\n", n) + c30Rep("b", n)) }},
		{name: "body-chunks", method: "POST", body: func(n int) []byte {
			return []byte("Transfer-Encoding: chunked\r\n\r\n" + c30Rep("1\r\nb\r\n", n) + "0\r\n\r\n")
		}},
		{name: "body-extensions", method: "POST", body: func(n int) []byte {
			return []byte("Transfer-Encoding: chunked\r\n\r\n" + c30Rep("10;ext=val\r\n0123456789abcdef\r\n", n) + "0\r\n\r\n")
		}},
	}
}

func c30Cost(r *rep.R, g *rand.Rand, s int) {
	useTLS := s%3 == 1
	w := newWorld(r, g, "c30", useTLS, "", func(w *world, main M, vh map[string]M) {
		// many sites and rules of other lengths
		for i := 0; i < 40; i++ {
			vh[fmt.Sprintf("extra%d.test", i)] = M{"Guard": noLimit(), "Serve": M{"ServeDir": w.dir + "/www", "ServeIndex": "index.html"}}
		}
		rules := M{}
		for i := 0; i < 30; i++ {
			rules["/"+strings.Repeat("r", i+1)+strings.Repeat("/d", i)] = []string{"10.0.0.1"}
		}
		rules["/secret"] = []string{"*"}
		vh["fw0.test"]["Guard"] = srv.Merge(noLimit(), M{"Firewall": M{"Enabled": true, "Blacklisting": true, "Rules": rules}})
		vh["proxy0.test"]["Guard"] = srv.Merge(noLimit(), M{"Firewall": M{"Enabled": true, "Blacklisting": true, "Rules": rules}})
		put(w.dir+"/www", "f.bin", strings.Repeat("0123456789abcdef", 200000))
		main["Core"] = srv.Merge(main["Core"].(M), M{"ReadTimeout": 300, "WriteTimeout": 300, "ReadHeaderTimeout": 300})
	})
	if w == nil {
		return
	}
	defer w.close()
	hosts := []string{"serve0.test", "download0.test", "proxy0.test", "dead0.test", "fw0.test", "lim0.test", "m.test"}
	const limit = 2500 * time.Millisecond
	worst, worstOf := time.Duration(0), ""
	spent := time.Duration(0) // on requests that cost too much
	for si, sh := range c30Shapes(g) {
		for _, n := range []int{900000, 9000} {
			host := hosts[(si+s)%len(hosts)]
			hs := []string{host, pick(g, hosts)}
			if strings.HasPrefix(sh.name, "target") || strings.HasPrefix(sh.name, "body") {
				hs = append(hs, "fw0.test", "proxy0.test")
			}
			for _, host := range hs {
				if r.Stop() {
					return
				}
				target, hdr := "/f.bin", [][2]string{}
				if host == "m.test" {
					target = "/metrics"
				}
				if sh.target != nil {
					target = sh.target(n)
				}
				if sh.hdr != nil {
					hdr = sh.hdr(n)
				}
				m := "GET"
				if sh.method != "" {
					m = sh.method
				}
				raw := srv.Req(m, target, host, hdr, nil)
				if sh.body != nil {
					raw = append(raw[:len(raw)-2], sh.body(n)...)
				}
				wit := M{"shape": sh.name, "bytes": len(raw), "host": host, "tls": useTLS}
				c0, t0 := c30CPU(w.p), time.Now()
				c := client(w.p, "127.0.5.5")
				c.Timeout = 60 * time.Second
				resp, err := c.Do(raw, m)
				c.Close()
				// with an answer or not, the server must come to rest
				cost := c30CPU(w.p) - c0
				wit["cpu_ms"], wit["wall_ms"] = cost.Milliseconds(), time.Since(t0).Milliseconds()
				if cost > limit {
					r.Violate("cost", wit, "%s with %d bytes to %s cost the server %v of processor time", sh.name, len(raw), host, cost)
					if spent += time.Since(t0); spent > 60*time.Second {
						return // the verdict is clear
					}
					continue
				}
				if err != nil && n < 10000 {
					if _, ok := err.(srv.ErrNoResponse); !ok {
						r.Violate("no-answer", wit, "%s with %d bytes to %s: %v", sh.name, len(raw), host, err)
					}
				}
				st := 0
				if resp != nil {
					st = resp.Status
				}
				if cost > worst {
					worst, worstOf = cost, sh.name
				}
				r.Eval(fmt.Sprint(sh.name, n, host, useTLS, st))
				r.Count("requests", 1)
				if r.WantSample() {
					wit["status"] = st
					r.Sample(wit)
				}
			}
		}
		r.Beat()
	}
	r.Count("worst_cpu_ms", int(worst.Milliseconds()))
	r.Note("costliest request: " + worstOf + " " + worst.String())
	// all shapes kept no processor busy afterwards
	time.Sleep(300 * time.Millisecond)
	c0 := c30CPU(w.p)
	time.Sleep(1500 * time.Millisecond)
	if d := c30CPU(w.p) - c0; d > 1200*time.Millisecond {
		r.Violate("busy-afterwards", M{"cpu_ms": d.Milliseconds()}, "with all requests done the server still uses %v of processor time in 1.5 s", d)
	}
	checkAlive(r, w.p, nil)
	checkPanics(r, w.p, "panic")
}

func c30Memory(r *rep.R, g *rand.Rand, s int) {
	useTLS := s%2 == 1
	const size = 700 << 20
	const allow = 160 // MB of peak over the start
	w := newWorld(r, g, "c30m", useTLS, "", func(w *world, main M, vh map[string]M) {
		f := put(w.dir+"/www", "huge.bin", "")
		os.Truncate(f, size) // sparse
		main["Core"] = srv.Merge(main["Core"].(M), M{"ReadTimeout": 300, "WriteTimeout": 300, "ReadHeaderTimeout": 300})
	})
	if w == nil {
		return
	}
	defer w.close()
	chunk := bytes.Repeat([]byte("relay..."), 1<<13)
	pushed := make(chan int, 1)
	w.up.Respond = func(q *srv.UpReq, c net.Conn) bool {
		n := size
		switch {
		case strings.Contains(q.Target, "chunked"):
			io.WriteString(c, "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n")
			for n > 0 {
				if _, err := fmt.Fprintf(c, "%x\r\n%s\r\n", len(chunk), chunk); err != nil {
					return false
				}
				n -= len(chunk)
			}
			io.WriteString(c, "0\r\n\r\n")
		case strings.Contains(q.Target, "push"):
			// how much goes out while the client reads nothing
			fmt.Fprintf(c, "HTTP/1.1 200 OK\r\nContent-Length: %d\r\n\r\n", size)
			sent := 0
			for sent < size {
				c.SetWriteDeadline(time.Now().Add(3 * time.Second))
				m, err := c.Write(chunk)
				sent += m
				if err != nil {
					break
				}
			}
			pushed <- sent
			return false
		case strings.Contains(q.Target, "drip"):
			// the end comes long after the start
			fmt.Fprintf(c, "HTTP/1.1 200 OK\r\nContent-Length: %d\r\n\r\n", 300000)
			c.Write(bytes.Repeat([]byte("d"), 200000))
			<-pushed
			c.Write(bytes.Repeat([]byte("d"), 100000))
		default:
			fmt.Fprintf(c, "HTTP/1.1 200 OK\r\nContent-Length: %d\r\n\r\n", n)
			for n > 0 {
				if _, err := c.Write(chunk); err != nil {
					return false
				}
				n -= len(chunk)
			}
		}
		return true
	}
	// warm up
	for _, h := range []string{"serve0.test", "proxy0.test"} {
		c := client(w.p, "")
		c.Do(srv.Req("HEAD", "/huge.bin", h, nil, nil), "HEAD")
		c.Close()
	}
	base := c30HWM(w.p)
	judge := func(what string, wit M) {
		hwm := c30HWM(w.p)
		wit["what"], wit["peak_mb"], wit["start_mb"], wit["tls"] = what, hwm, base, useTLS
		if hwm > base+allow {
			r.Violate("memory", wit, "%s: the server's memory grew from %d MB to %d MB", what, base, hwm)
			base = hwm
		}
		r.Eval(fmt.Sprint(what, useTLS))
		r.Count("bodies", 1)
		if r.WantSample() {
			r.Sample(wit)
		}
	}
	get := func(host, target string, hdr [][2]string, h2 bool) (int64, int, error) {
		hc := &http.Transport{DisableCompression: true}
		u := "http://"
		if useTLS {
			u = "https://"
			np := []string{"http/1.1"}
			if h2 {
				np = []string{"h2"}
			}
			hc.TLSClientConfig = &tls.Config{InsecureSkipVerify: true, NextProtos: np}
			hc.ForceAttemptHTTP2 = h2
		}
		defer hc.CloseIdleConnections()
		ctx, cancel := context.WithTimeout(context.Background(), 180*time.Second)
		defer cancel()
		req, _ := http.NewRequestWithContext(ctx, "GET", u+w.p.Addr+target, nil)
		req.Host = host
		for _, h := range hdr {
			req.Header.Add(h[0], h[1])
		}
		res, err := hc.RoundTrip(req)
		if err != nil {
			return 0, 0, err
		}
		defer res.Body.Close()
		n, err := io.Copy(io.Discard, res.Body)
		return n, res.StatusCode, err
	}
	whole := [][2]string(nil)
	type one struct {
		name, host, target string
		hdr                [][2]string
		want               int64
	}
	cases := []one{
		{"served file", "serve0.test", "/huge.bin", whole, size},
		{"served range", "serve0.test", "/huge.bin", [][2]string{{"Range", fmt.Sprintf("bytes=%d-", size/4)}}, size - size/4},
		{"served ranges", "serve1.test", "/huge.bin", [][2]string{{"Range", fmt.Sprintf("bytes=0-%d,%d-", size/3, size/2)}}, -1},
		{"download", "download0.test", "/huge.bin", whole, size},
		{"download range", "download1.test", "/huge.bin", [][2]string{{"Range", fmt.Sprintf("bytes=-%d", size/2)}}, size / 2},
		{"relayed answer", "proxy0.test", "/plain", whole, size},
		{"relayed chunked answer", "proxy1.test", "/chunked", whole, -1},
	}
	for _, c := range cases {
		for _, h2 := range []bool{false, true} {
			if h2 && !useTLS || r.Stop() {
				continue
			}
			r.Beat()
			n, st, err := get(c.host, c.target, c.hdr, h2)
			wit := M{"status": st, "bytes": n, "h2": h2}
			if err != nil || c.want >= 0 && n != c.want || n < size/4 {
				r.Violate("not-sent", srv.Merge(wit, M{"what": c.name}), "%s of %d bytes: got %d, %v", c.name, c.want, n, err)
				continue
			}
			judge(fmt.Sprint(c.name, " h2=", h2), wit)
		}
	}
	// clients that do not read
	for _, q := range [][2]string{{"serve0.test", "/huge.bin"}, {"download0.test", "/huge.bin"}, {"proxy0.test", "/push"}} {
		r.Beat()
		cn, err := client(w.p, "").Dial()
		if err != nil {
			r.Violate("dial", M{}, "%v", err)
			return
		}
		cn.Write(srv.Req("GET", q[1], q[0], nil, nil))
		wit := M{"host": q[0]}
		if q[1] == "/push" {
			select {
			case sent := <-pushed:
				wit["pushed_mb"] = sent >> 20
				if sent > 128<<20 {
					r.Violate("pushed", wit, "an upstream could push %d MB while the client read nothing", sent>>20)
				}
			case <-time.After(60 * time.Second):
				r.Violate("push-stuck", wit, "the upstream was not asked, or never blocked")
			}
		} else {
			time.Sleep(400 * time.Millisecond)
		}
		judge("unread "+q[0], wit)
		cn.Close()
	}
	// the start of an answer arrives before its end exists
	cn, err := client(w.p, "").Dial()
	if err != nil {
		r.Violate("dial", M{}, "%v", err)
		return
	}
	defer cn.Close()
	cn.SetDeadline(time.Now().Add(60 * time.Second))
	cn.Write(srv.Req("GET", "/drip", "proxy0.test", nil, nil))
	br := bufio.NewReader(cn)
	res, err := http.ReadResponse(br, nil)
	n := int64(0)
	if err == nil {
		n, err = io.CopyN(io.Discard, res.Body, 100000)
	}
	if err != nil {
		r.Violate("not-streamed", M{"bytes": n}, "two thirds of an upstream's answer are sent, but after 60 s the client had %d bytes: %v", n, err)
	}
	pushed <- 0
	if err == nil {
		m, _ := io.Copy(io.Discard, res.Body)
		if n+m != 300000 {
			r.Violate("streamed-length", M{"bytes": n + m}, "the streamed answer has %d bytes", n+m)
		}
	}
	r.Eval("drip")
	checkAlive(r, w.p, nil)
	checkPanics(r, w.p, "panic")
}
