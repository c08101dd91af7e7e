package checks

import (
	"fmt"
	"math/rand/v2"
	"net"
	"net/http"
	"strings"
	"sync"
	"testing"
	"time"

	"verifharness/rep"
	"verifharness/srv"
)

func TestC13(t *testing.T) {
	r := rep.New("C13", "A case is one answered request (file, index, range, 304, redirect, download page, download, every kind of error page, metrics page, proxied answer with and without upstream headers of the same names) to the real server with generated per-site header overrides, proxy headers and HSTS settings, TLS on and off, HTTP/1.1 and HTTP/2, sequentially and concurrently. Judged against the configured header set: value of each security header, every configured header, HSTS directives, no header of another site, no defaults on proxied answers. Distinct = (site kind, answer kind, status, TLS, protocol).")
	r.Watchdog(120*time.Second, true)
	for s := 0; s < r.N(24, 180) && !r.Stop(); s++ {
		r.Phase(fmt.Sprint("server ", s))
		c13Server(r, r.Rng(fmt.Sprint("srv", s)), s)
	}
	r.Finish()
}

func c13Server(r *rep.R, g *rand.Rand, s int) {
	w := newWorld(r, g, "c13", s%2 == 0, oneOf(s), nil)
	if w == nil {
		return
	}
	defer w.close()
	w.up.Respond = func(q *srv.UpReq, c net.Conn) bool {
		extra := ""
		switch q.Target {
		case "/own":
			extra = "X-Frame-Options: upstream\r\nServer: upsrv\r\nContent-Security-Policy: up\r\nX-Site-A: up\r\n"
		case "/hsts":
			extra = "Strict-Transport-Security: max-age=5\r\n"
		}
		b := "up"
		fmt.Fprintf(c, "HTTP/1.1 200 OK\r\nContent-Length: %d\r\nX-Up: 1\r\n%s\r\n", len(b), extra)
		if q.Method != "HEAD" {
			c.Write([]byte(b))
		}
		return true
	}
	fs := []fetch{h1Client(w.p, "")}
	if w.tls {
		fs = append(fs, h2Client(w.p))
	}
	for q := 0; q < 500 && !r.Stop(); q++ {
		c13One(r, g, w, pick(g, fs))
	}
	var wg sync.WaitGroup
	for k := 0; k < 6; k++ {
		gg := rand.New(rand.NewPCG(r.Seed+uint64(s), uint64(k)))
		f := h1Client(w.p, "")
		wg.Add(1)
		go func() {
			defer wg.Done()
			for q := 0; q < 100 && !r.Stop(); q++ {
				c13One(r, gg, w, f)
			}
		}()
	}
	wg.Wait()
	checkAlive(r, w.p, nil)
	checkPanics(r, w.p, "panic")
}

func c13One(r *rep.R, g *rand.Rand, w *world, f fetch) {
	host := pick(g, append([]string{"unknown.test"}, w.order...))
	st := w.site(host)
	kind := "unknown"
	if st != nil {
		kind = st.kind
	}
	method := pick(g, []string{"GET", "GET", "GET", "GET", "HEAD", "POST", "DELETE"})
	target := pick(g, []string{"/", "/a/", "/a", "/a/f.txt", "/f.bin", "/x%20y.html", "/missing", "/secret/s.txt", "/index.html", "/own", "/hsts", "/metrics", "/a/f.txt?q=1", "/../f.bin"})
	var hdr [][2]string
	switch g.IntN(14) {
	case 4:
		hdr = append(hdr, [2]string{"If-None-Match", pick(g, []string{`"x"`, "*", `W/"1", "2"`})})
	case 5:
		hdr = append(hdr, [2]string{"If-Match", pick(g, []string{`"x"`, "*"})})
	case 6:
		hdr = append(hdr, [2]string{"If-Unmodified-Since", time.Now().Add(time.Duration(g.IntN(3)-1) * 24 * 365 * 40 * time.Hour).UTC().Format(http.TimeFormat)})
	case 7:
		hdr = append(hdr, [2]string{"Range", "bytes=0-3,9-"}, [2]string{"If-Range", pick(g, []string{`"x"`, "Mon, 02 Jan 2006 15:04:05 GMT"})})
	case 8:
		hdr = append(hdr, [2]string{"Range", pick(g, []string{"bytes=0-3,9-20", "bytes=-5", "bytes=x", "lines=1-2"})})
	case 0:
		hdr = append(hdr, [2]string{"Range", "bytes=5-20"})
	case 1:
		hdr = append(hdr, [2]string{"If-Modified-Since", time.Now().Add(time.Hour).UTC().Format(http.TimeFormat)})
	case 2:
		hdr = append(hdr, [2]string{"Content-Type", "text/x"})
	case 3:
		hdr = append(hdr, [2]string{"Range", "bytes=999999-"})
	}
	if kind == "lim" {
		hdr = append(hdr, [2]string{"User-Agent", fmt.Sprint("c", g.IntN(60))})
	}
	if strings.HasPrefix(target, "/metrics") && chance(g, .5) {
		hdr = append(hdr, [2]string{"Authorization", "Basic YWRtaW46cHc="})
	}
	wit := M{"host": host, "target": target, "method": method, "headers": hdr, "tls": w.tls}
	resp, err := f(method, target, host, hdr)
	if err != nil {
		r.Violate("no-answer", wit, "no answer: %v", err)
		return
	}
	wit["status"], wit["header"] = resp.Status, resp.Header
	proxied := resp.Header.Get("X-Up") != ""
	metrics := target == "/metrics" && resp.Status == 200
	class := "file"
	switch {
	case proxied:
		class = "proxied"
	case metrics:
		class = "metrics"
	case resp.Status == 416 || resp.Status == 412:
		class = "condition"
	case resp.Status >= 400:
		class = "error"
	case resp.Status >= 300:
		class = "redirect-or-304"
	}
	r.Eval(fmt.Sprint(kind, class, resp.Status, method, w.tls, resp.Proto, target))
	r.Count(class, 1)
	if got := normHSTS(resp.Header.Get("Strict-Transport-Security")); got != w.hsts && !(w.hsts == "" && target == "/hsts" && proxied) {
		r.Violate("hsts-"+class, wit, "Strict-Transport-Security is %q, expected %q", got, w.hsts)
	}
	if n := len(resp.Header.Values("Strict-Transport-Security")); n > 1 {
		r.Violate("hsts-twice", wit, "%d Strict-Transport-Security headers", n)
	}
	conf := map[string]string{}
	if st != nil {
		for k, v := range st.headers {
			conf[http.CanonicalHeaderKey(k)] = v
		}
	}
	for k, vs := range resp.Header {
		if strings.HasPrefix(k, "X-Site-") && conf[k] != vs[0] && !(proxied && target == "/own" && vs[0] == "up") {
			r.Violate("foreign-header", wit, "header %s: %v is not configured for %s", k, vs, host)
		}
	}
	if metrics || class == "condition" {
		return
	}
	for k, def := range secDefaults {
		ck := http.CanonicalHeaderKey(k)
		got := strings.Join(resp.Header.Values(k), "|")
		over, isOver := conf[ck]
		switch class {
		case "proxied":
			want := over
			if !isOver && target == "/own" {
				want = map[string]string{"X-Frame-Options": "upstream", "Server": "upsrv", "Content-Security-Policy": "up"}[k]
			}
			if got != want {
				r.Violate("proxied-header", wit, "%s on a proxied answer is %q, expected %q", k, got, want)
			}
		case "error": // an override may or may not extend to error pages
			if got != def && !(isOver && got == over && st.kind != "proxy" && st.kind != "dead") {
				r.Violate("error-header", wit, "%s on an error page is %q, expected %q", k, got, def)
			}
		default:
			want := def
			if isOver {
				want = over
			}
			if got != want {
				r.Violate("file-header", wit, "%s is %q, expected %q", k, got, want)
			}
		}
	}
	if class == "file" || class == "proxied" || class == "redirect-or-304" {
		for k, v := range conf {
			if len(resp.Header.Values(k)) > 1 || resp.Header.Get(k) != v {
				r.Violate("configured-header", wit, "configured header %s is %q, expected %q", k, resp.Header.Get(k), v)
			}
		}
	}
	if r.WantSample() && class == "proxied" {
		r.Sample(wit)
	}
}
