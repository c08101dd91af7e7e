package checks

import (
	"crypto/tls"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"math/rand/v2"
	"net"
	"net/http"
	"os"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"github.com/redmaner/MaguroHTTP/guard"
	"github.com/redmaner/MaguroHTTP/router"
	"github.com/redmaner/MaguroHTTP/tuna"

	"verifharness/model"
	"verifharness/rep"
	"verifharness/srv"
)

// c32Spec is what the embedding program adds to its instance, in this order.
type c32Spec struct {
	Ops   []c32Op
	Out   string // upstream for handlers that use the transport of the instance
	Users map[string]string
	Rules map[string][]string
	Black bool
	Burst int
	Early bool // the program adds its routes when the server is running already
}

type c32Op struct {
	Kind                string // route, or the kind of a middleware: trace, auth, firewall, limit
	ID                  int
	Host, Path, Method  string
	Content, Handler    string // echo, error, out
	Fallback, HandlerFn bool
	Code                int
}

// TestC32Helper is the embedding program: it makes an instance of the core configuration, adds routes and guards and serves.
func TestC32Helper(t *testing.T) {
	file := os.Getenv("C32_SPEC")
	if file == "" {
		t.Skip("helper")
	}
	var sp c32Spec
	b, err := os.ReadFile(file)
	if err == nil {
		err = json.Unmarshal(b, &sp)
	}
	if err != nil {
		fmt.Println("spec:", err)
		os.Exit(3)
	}
	cfg := tuna.NewConfig()
	tuna.LoadConfigFromFile(flag.Arg(1), &cfg)
	s := tuna.NewInstance(cfg.Core)
	lim := guard.NewLimiter(0.001, sp.Burst, true)
	lim.ErrorHandler = s.HandleError
	fw := guard.NewFirewall()
	fw.Blacklisting, fw.Rules, fw.ErrorHandler = sp.Black, sp.Rules, s.HandleError
	ba := guard.SimpleBasicAuth(sp.Users)
	ba.UnauthorizedHandler = s.HandleError
	add := func(op c32Op) {
		id := fmt.Sprint(op.ID)
		switch op.Kind {
		case "route":
			s.Router.AddRoute(op.Host, op.Path, op.Fallback, op.Method, op.Content, http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
				if ms, _ := strconv.Atoi(r.Header.Get("X-Sleep")); ms > 0 {
					time.Sleep(time.Duration(ms) * time.Millisecond)
				}
				w.Header().Add("X-Trace", "h"+id)
				switch op.Handler {
				case "error":
					s.HandleError(w, r, op.Code)
				case "out":
					q, _ := http.NewRequest(r.Method, sp.Out+r.URL.RequestURI(), nil)
					q.Header.Set("User-Agent", "embedded")
					q.Header.Set("X-Stall", r.Header.Get("X-Stall"))
					resp, err := s.Transport.RoundTrip(q)
					if err != nil {
						s.HandleError(w, r, 502)
						return
					}
					defer resp.Body.Close()
					w.Header().Set("Content-Encoding", resp.Header.Get("Content-Encoding"))
					w.WriteHeader(resp.StatusCode)
					io.Copy(w, resp.Body)
					s.LogNetwork(resp.StatusCode, r)
				default:
					n, _ := io.Copy(io.Discard, r.Body)
					w.WriteHeader(op.Code)
					s.WriteString(w, fmt.Sprintf("route %s %s %d", id, r.URL.Path, n))
					s.LogNetwork(op.Code, r)
				}
			}))
		case "auth":
			s.Router.UseMiddleware(op.Host, op.Path, router.MiddlewareHandlerFunc(ba.Authenticate))
		case "firewall":
			s.Router.UseMiddleware(op.Host, op.Path, router.MiddlewareHandlerFunc(fw.BlockHTTP))
		case "limit":
			s.Router.UseMiddleware(op.Host, op.Path, router.MiddlewareHandlerFunc(lim.LimitHTTP))
		default:
			mw := func(next http.Handler) http.Handler {
				return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
					w.Header().Add("X-Trace", "m"+id)
					if r.Header.Get("X-Deny") == id {
						s.HandleError(w, r, op.Code)
						return
					}
					next.ServeHTTP(w, r)
				})
			}
			if op.HandlerFn {
				s.Router.UseMiddleware(op.Host, op.Path, router.MiddlewareHandlerFunc(func(next http.HandlerFunc) http.HandlerFunc { return mw(next).ServeHTTP }))
			} else {
				s.Router.UseMiddleware(op.Host, op.Path, router.MiddlewareHandler(mw))
			}
		}
	}
	all := func() {
		for _, op := range sp.Ops {
			add(op)
		}
		fmt.Println("C32 routes added")
	}
	if sp.Early {
		go func() {
			time.Sleep(300 * time.Millisecond)
			all()
		}()
	} else {
		all()
	}
	s.Serve()
}

func TestC32(t *testing.T) {
	r := rep.New("C32", "A case is one request to a program that embeds a server made by NewInstance from a generated core configuration (TLS or not, virtual hosts with error pages of their own, WebDAV, time limits) with generated routes, middleware, firewall, limiter and authentication added before or while it serves; judged by the routing model and the guards' rules: status, handler, trace of the middleware, page and security headers of refusals, one log line. Further cases: stopping with running requests, stalled peers, clear text on a TLS port, refused virtual host files, no metrics unless the program adds them. Distinct = (status, kind of route or guard, site, protocol, page kind).")
	r.Watchdog(120*time.Second, true)
	for s := 0; s < r.N(14, 80) && !r.Stop(); s++ {
		r.Phase(fmt.Sprint("program ", s))
		c32Program(r, r.Rng(fmt.Sprint("p", s)), s)
	}
	r.Phase("refused configurations")
	c32Refused(r, r.Rng("refused"))
	r.Finish()
}

func c32Wrap() []string {
	return []string{os.Getenv("VERIF_HARNESS_BIN"), "-test.run", "^TestC32Helper$", "-test.timeout", "600s"}
}

const c32MW = "trace"

func c32Program(r *rep.R, g *rand.Rand, s int) {
	dir := rep.Scratch("c32")
	useTLS := s%2 == 1
	dav := chance(g, .4)
	up := srv.NewUpstream("c32", "")
	defer up.Close()
	held := make(chan struct{})
	defer close(held)
	up.Respond = func(q *srv.UpReq, c net.Conn) bool {
		if q.Get("X-Stall") != "" {
			select {
			case <-held:
			case <-time.After(60 * time.Second):
			}
			return false
		}
		enc := "none"
		if v := q.Get("Accept-Encoding"); v != "" {
			enc = "asked-" + v
		}
		b := "up " + q.Target
		fmt.Fprintf(c, "HTTP/1.1 203 Up\r\nContent-Encoding: %s\r\nContent-Length: %d\r\n\r\n", enc, len(b))
		if q.Method != "HEAD" {
			io.WriteString(c, b)
		}
		return true
	}
	// configuration
	cc := core(dir, M{"WebDAV": dav, "ReadHeaderTimeout": 1, "ReadTimeout": 20, "WriteTimeout": 20, "Metrics": M{"Enabled": true, "Path": "/metrics", "Out": dir + "/metrics.json", "Users": M{"admin": "pw"}}})
	if chance(g, .4) {
		cc["FileDir"] = dir + "/files/"
	}
	age := g.IntN(100000)
	if useTLS {
		c := srv.MakeCert(dir, "t", chance(g, .3), "localhost")
		cc = srv.Merge(cc, M{"TLS": M{"Enabled": true, "TLSCert": c.CertFile, "TLSKey": c.KeyFile, "HSTS": M{"MaxAge": age}}})
	}
	tpl := [2]string{}
	if chance(g, .6) {
		tpl = [2]string{fmt.Sprintf("<b>own template %d</b>", g.IntN(1000)), "<i>end</i>"}
		put(dir, "files/templates/error.html", tpl[0]+"{{.HTTPError}}"+tpl[1])
	}
	vhosts := map[string]M{}
	pages := map[string]map[string]string{}
	if chance(g, .7) {
		for _, h := range []string{"a.test", "b.test"} {
			pages[h] = map[string]string{}
			errs := M{}
			for _, c := range append(errCodes, "410", "500", "418") {
				if chance(g, .4) {
					pages[h][c] = "page " + c + " of " + h
					errs[c] = put(dir, "pages/"+h+"/"+c+".html", pages[h][c])
				}
			}
			vhosts[h] = M{"Guard": noLimit(), "Errors": errs, "Serve": M{"ServeDir": dir + "/www", "ServeIndex": "index.html", "Methods": M{"/": "GET"}}}
		}
	}
	if len(vhosts) == 0 {
		vhosts = nil // no virtual hosting at all
	}
	put(dir, "www/index.html", "must not be served")
	put(dir, "www/secret.txt", "must not be served")
	// what the program adds
	sp := c32Spec{Out: "http://" + up.Addr, Users: map[string]string{"u": "pw", "v": ""}, Black: chance(g, .5), Burst: 1 + g.IntN(4), Early: chance(g, .3), Rules: map[string][]string{"/blocked": {"127.0.0.2", "127.0.0.3"}, "/blocked/in": {"*"}}}
	tab := model.Table{}
	hosts := []string{"a.test", "b.test", "c.test", router.DefaultHost}
	ops := map[int]c32Op{}
	kindOf := map[int]string{}
	id := 0
	addRoute := func(host, path, method, content, handler string, fb bool, code int) {
		id++
		op := c32Op{Kind: "route", ID: id, Host: host, Path: path, Method: method, Content: content, Handler: handler, Fallback: fb, Code: code}
		sp.Ops = append(sp.Ops, op)
		tab.Add(host, path, method, model.Route{ID: id, Fallback: fb, Content: content})
		ops[id] = op
	}
	use := func(host, path, kind string) {
		id++
		op := c32Op{Kind: kind, ID: id, Host: host, Path: path, HandlerFn: chance(g, .5), Code: pick(g, []int{401, 403, 429, 502, 418})}
		sp.Ops = append(sp.Ops, op)
		tab.Use(host, path, id)
		ops[id] = op
		kindOf[id] = kind
	}
	segs := []string{"/", "/a", "/a/b", "/a/b/c/", "/x/", "/" + strings.Repeat("long", 1+g.IntN(30)), "/é", "/secret.txt"}
	for i := 6 + g.IntN(20); i > 0; i-- {
		m := pick(g, []string{"GET", "GET", "GET", "POST", "PUT", "HEAD", "DELETE", "OPTIONS", "PATCH"})
		if dav && chance(g, .4) {
			m = pick(g, davMethods)
		}
		h := pick(g, []string{"echo", "echo", "echo", "error", "out"})
		code := pick(g, []int{200, 201, 299, 404, 500})
		if h == "error" {
			code = pick(g, []int{403, 404, 405, 406, 410, 418, 429, 500, 502})
		}
		addRoute(pick(g, hosts), pick(g, segs), m, pick(g, []string{"*", "*", "", ";", "text/plain;application/json"}), h, chance(g, .6), code)
		if chance(g, .4) {
			o := sp.Ops[len(sp.Ops)-1]
			use(o.Host, o.Path, c32MW)
		}
	}
	for _, h := range hosts { // guarded parts, never below another route of the same host that falls back
		if chance(g, .6) {
			addRoute(h, "/private", "GET", "*", "echo", true, 200)
			use(h, "/private", c32MW)
			use(h, "/private", "auth")
		}
		if chance(g, .6) {
			addRoute(h, "/blocked", "GET", "*", "echo", true, 200)
			use(h, "/blocked", "firewall")
		}
	}
	addRoute("lim.test", "/", "GET", "*", "echo", true, 200)
	use("lim.test", "/", "limit")
	b, _ := json.Marshal(sp)
	spec := put(dir, "spec.json", string(b))
	p := launch(r, g, dir, M{"Core": cc}, vhosts, srv.Opt{Wrap: c32Wrap(), Env: []string{"C32_SPEC=" + spec, "VERIF_OUT="}})
	if p == nil {
		return
	}
	defer stop(p)
	wit0 := M{"program": s, "spec": sp, "tls": useTLS, "config": srv.JSON(cc)}
	for end := time.Now().Add(60 * time.Second); !strings.Contains(p.Out.String(), "C32 routes added"); time.Sleep(5 * time.Millisecond) {
		if p.Exited() || time.Now().After(end) {
			r.Violate("no-routes", M{"output": tailS(p.Out.String(), 2000), "program": wit0}, "the routes were not added")
			return
		}
	}
	var h2 *http.Transport
	if useTLS {
		h2 = &http.Transport{TLSClientConfig: &tls.Config{InsecureSkipVerify: true, NextProtos: []string{"h2"}}, ForceAttemptHTTP2: true, DisableCompression: true}
		defer h2.CloseIdleConnections()
	}
	type logged struct {
		mark, method string
		status       int
	}
	var mu sync.Mutex
	var want []logged
	var seq atomic.Int64
	page := func(resp *srv.Resp, host, method string, code int, wit any, what string) {
		if resp.Status != code {
			r.Violate("status-"+what, wit, "expected %d, got %d", code, resp.Status)
			return
		}
		if method == "HEAD" {
			if len(resp.Body) > 0 {
				r.Violate("head-body", wit, "HEAD got a body")
			}
		} else if own, ok := pages[host][fmt.Sprint(code)]; ok {
			if string(resp.Body) != own {
				r.Violate("page", wit, "the page of the virtual host was expected, got %q", clip(string(resp.Body)))
			}
		} else if txt := string(resp.Body); !strings.HasPrefix(txt, tpl[0]) || !strings.HasSuffix(txt, tpl[1]) || !strings.Contains(txt, fmt.Sprint(code)) {
			r.Violate("template", wit, "the page is not the template with the error in it: %q", clip(txt))
		}
		for k, v := range secDefaults {
			if got := resp.Header.Get(k); got != v {
				r.Violate("security-header", wit, "%s is %q", k, got)
			}
		}
		if h := resp.Header.Get("Strict-Transport-Security"); (h != "") != useTLS || useTLS && !strings.HasPrefix(h, fmt.Sprintf("max-age=%d;", age)) {
			r.Violate("hsts", wit, "Strict-Transport-Security is %q", h)
		}
	}
	one := func(g *rand.Rand, sleep int) {
		mark := fmt.Sprintf("id=%d-%d", s, seq.Add(1))
		host := pick(g, []string{"a.test", "b.test", "c.test", "unknown.test"})
		path := pick(g, []string{"/", "/a", "/a/b", "/a/b/c", "/a/b/c/d/", "/x", "/x/y/z", "/private", "/private/p", "/blocked", "/blocked/in/side", "/blocked/x", "/metrics", "/secret.txt", "/index.html", "/nothing", "/é/x"})
		method := pick(g, []string{"GET", "GET", "GET", "POST", "HEAD", "PUT", "DELETE", "PROPFIND", "OPTIONS"})
		ct := pick(g, []string{"", "", "text/plain", "application/json; charset=utf-8", "image/png"})
		if chance(g, .6) {
			n := pick(g, tab.Nodes())
			if n.Host != "lim.test" && len(n.Methods) > 0 {
				path = n.Path
				if n.Host != router.DefaultHost {
					host = n.Host
				}
				method = pick(g, n.MethodList())
				if chance(g, .5) {
					ct = strings.Split(strings.Trim(n.Methods[method].Content, "*"), ";")[0]
				}
				if chance(g, .4) {
					path = strings.TrimSuffix(path, "/") + pick(g, []string{"/", "/deep", "/deep/er/"})
				}
			}
		}
		hdr := [][2]string{}
		if ct != "" {
			hdr = append(hdr, [2]string{"Content-Type", ct})
		}
		d := tab.Decide(host, path, method, ct)
		src := pick(g, []string{"", "127.0.0.2", "127.0.0.3", "127.0.0.4"})
		useH2 := useTLS && chance(g, .4)
		if useH2 {
			src = ""
		}
		ip := src
		if ip == "" {
			ip = "127.0.0.1"
		}
		auth := ""
		switch g.IntN(4) {
		case 0:
			auth = "dTpwdw==" // u:pw
		case 1:
			auth = pick(g, []string{"dTpwVw==", "djo=", "dTo=", "eDpwdw==", "dTpwdzo="})
		}
		if auth != "" {
			hdr = append(hdr, [2]string{"Authorization", "Basic " + auth})
		}
		deny := 0
		// what must happen
		var trace []string
		code, how, errPage := d.Status, "router", true
		if d.Status == 200 {
			stop := false
			for _, m := range d.Node.MW {
				op := ops[m]
				switch kindOf[m] {
				case c32MW:
					trace = append(trace, fmt.Sprintf("m%d", m))
					if deny == 0 && chance(g, .15) {
						deny = m
						hdr = append(hdr, [2]string{"X-Deny", fmt.Sprint(m)})
						code, how, stop = op.Code, "refused", true
					}
				case "auth":
					if auth != "dTpwdw==" && auth != "djo=" {
						code, how, stop = 401, "auth", true
					}
				case "firewall":
					listed := false // whether a rule above or at the path names the client
					if pp := model.Canon(path); pp == "/blocked/in" || strings.HasPrefix(pp, "/blocked/in/") {
						listed = true
					}
					if ip == "127.0.0.2" || ip == "127.0.0.3" {
						listed = true
					}
					if listed == sp.Black {
						code, how, stop = 403, "firewall", true
					}
				}
				if stop {
					break
				}
			}
			if !stop {
				op := ops[d.Route.ID]
				trace = append(trace, fmt.Sprintf("h%d", op.ID))
				code, how, errPage = op.Code, op.Handler, op.Handler == "error"
				if how == "out" {
					code = 203
				}
			}
		}
		stall := how == "out" && chance(g, .08)
		if stall {
			hdr = append(hdr, [2]string{"X-Stall", "1"})
			code, errPage = 502, true
		}
		if sleep > 0 {
			hdr = append(hdr, [2]string{"X-Sleep", fmt.Sprint(sleep)})
		}
		var body []byte
		if method != "GET" && method != "HEAD" && method != "OPTIONS" && chance(g, .6) {
			body = []byte(strings.Repeat("b", pick(g, []int{1, 500, 100000})))
		}
		target := strings.ReplaceAll(path, "é", "%C3%A9") + "?" + mark
		wit := M{"host": host, "method": method, "target": target, "header": hdr, "from": src, "h2": useH2, "expected": code, "by": how, "trace": trace, "program": wit0}
		pl := &c17Plan{host: host, method: method, target: target, hdr: hdr, body: body}
		var resp *srv.Resp
		var err error
		if useH2 {
			resp, err = c17H2(h2, p, pl)
		} else {
			var cn net.Conn
			if cn, err = client(p, src).Dial(); err == nil {
				cn.SetDeadline(time.Now().Add(60 * time.Second))
				cn.Write(srv.Req(method, target, host, hdr, body))
				resp, err = srv.ReadResp(cn, method)
				cn.Close()
			}
		}
		if err != nil {
			r.Violate("no-answer-"+how, wit, "%v", err)
			return
		}
		wit["status"], wit["body"] = resp.Status, clip(string(resp.Body))
		if errPage {
			page(resp, host, method, code, wit, how)
		} else if resp.Status != code {
			r.Violate("status-"+how, wit, "expected %d, got %d", code, resp.Status)
		} else if exp := fmt.Sprintf("route %d %s %d", d.Route.ID, model.Canon(path), len(body)); how == "echo" && method != "HEAD" && string(resp.Body) != exp {
			r.Violate("handler", wit, "expected %q", exp)
		} else if how == "out" && (method != "HEAD" && !strings.HasPrefix(string(resp.Body), "up /") || resp.Header.Get("Content-Encoding") != "none") {
			r.Violate("transport", wit, "the transport of the instance did not fetch what is there as it is: %q, encoding %q", clip(string(resp.Body)), resp.Header.Get("Content-Encoding"))
		}
		if got := strings.Join(resp.Header.Values("X-Trace"), ","); got != strings.Join(trace, ",") {
			r.Violate("trace", wit, "middleware and handler that ran: %s, expected %s", got, strings.Join(trace, ","))
		}
		mu.Lock()
		want = append(want, logged{mark + " ", method, code})
		mu.Unlock()
		pk := "template"
		if _, ok := pages[host][fmt.Sprint(code)]; ok {
			pk = "own"
		}
		r.Eval(fmt.Sprint(code, how, host, useH2, method, errPage, pk, len(trace)))
		r.Count("by_"+how, 1)
		if r.WantSample() {
			r.Sample(wit)
		}
	}
	var wg sync.WaitGroup
	for c := 0; c < 6; c++ {
		gg := rand.New(rand.NewPCG(r.Seed*1000+uint64(s), uint64(c)))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 40 && !r.Stop(); i++ {
				one(gg, 0)
			}
		}()
	}
	wg.Wait()
	// the limiter
	for i := 0; i < sp.Burst+3; i++ {
		resp, err := client(p, "").Get(fmt.Sprintf("/limited/x?id=l%d-%d", s, i), "lim.test")
		wit := M{"request": i, "burst": sp.Burst, "program": wit0}
		if err != nil {
			r.Violate("no-answer-limit", wit, "%v", err)
		} else if i >= sp.Burst {
			page(resp, "lim.test", "GET", 429, wit, "limit")
		} else if resp.Status != 200 {
			r.Violate("status-limit", wit, "refused below the limit: %d", resp.Status)
		}
		r.Eval(fmt.Sprint("limit", i >= sp.Burst))
	}
	if useTLS { // nothing over clear text
		if c, err := net.DialTimeout("tcp", p.Addr, 10*time.Second); err == nil {
			c.SetDeadline(time.Now().Add(10 * time.Second))
			c.Write(srv.Req("GET", "/", "a.test", nil, nil))
			b, _ := io.ReadAll(c)
			c.Close()
			if strings.Contains(string(b), "X-Trace") || !strings.HasPrefix(string(b), "HTTP/1.0 400") && strings.HasPrefix(string(b), "HTTP/") {
				r.Violate("cleartext", wit0, "a request in clear text was answered: %q", clip(string(b)))
			}
		}
		if c, err := tls.Dial("tcp", p.Addr, &tls.Config{InsecureSkipVerify: true, MinVersion: tls.VersionTLS10, MaxVersion: tls.VersionTLS11}); err == nil {
			c.Close()
			r.Violate("old-tls", wit0, "TLS 1.1 was accepted")
		}
		r.Eval("cleartext")
	}
	// a peer that does not finish its headers
	if c, err := net.Dial("tcp", p.Addr); err == nil && !useTLS {
		io.WriteString(c, "GET / HTTP/1.1\r\nHost: a.test\r\nX-")
		c.SetDeadline(time.Now().Add(30 * time.Second))
		t0 := time.Now()
		if _, err := io.ReadAll(c); err != nil && time.Since(t0) > 25*time.Second {
			r.Violate("slow-headers", wit0, "a peer that stalls in its headers is still connected after %s with ReadHeaderTimeout 1", time.Since(t0))
		}
		c.Close()
		r.Eval("slow-headers")
	} else if err == nil {
		c.Close()
	}
	// stopping lets requests finish
	for c := 0; c < 8; c++ {
		gg := rand.New(rand.NewPCG(r.Seed*1000+uint64(s), uint64(100+c)))
		wg.Add(1)
		go func() {
			defer wg.Done()
			one(gg, 1200)
		}()
	}
	time.Sleep(600 * time.Millisecond)
	p.Signal(pick(g, []syscall.Signal{syscall.SIGTERM, syscall.SIGINT}))
	wg.Wait()
	if !p.WaitExit(45 * time.Second) {
		r.Violate("not-stopped", wit0, "still running 45 s after the signal")
	}
	if _, err := os.Stat(dir + "/metrics.json"); err == nil {
		r.Violate("metrics", wit0, "metrics were written although an embedded instance has none")
	}
	// one line per request
	lines := map[string][]string{}
	for _, l := range strings.Split(srv.ReadFileString(dir+"/log.txt"), "\n") {
		if i := strings.Index(l, "id="); i >= 0 && strings.Contains(l, " request=") {
			m := strings.SplitAfterN(l[i:], " ", 2)[0]
			lines[m] = append(lines[m], l)
		}
	}
	for _, w := range want {
		ls := lines[w.mark]
		if len(ls) != 1 || !strings.Contains(ls[0], fmt.Sprintf("NET: %d request=%s ", w.status, w.method)) {
			r.Violate("log", M{"request": w.mark, "status": w.status, "method": w.method, "lines": ls, "program": wit0}, "a request has %d log lines: %q", len(ls), ls)
		}
	}
	r.Count("log_lines", len(want))
	checkPanics(r, p, "panic")
}

// c32Refused starts programs whose configuration must be refused.
func c32Refused(r *rep.R, g *rand.Rand) {
	bad := map[string]string{"missing": "", "syntax": "Serve {", "no-dir": `{"Serve":{"ServeIndex":"index.html","Methods":{"/":"GET"}}}`, "no-rules": `{"Proxy":{"Enabled":true}}`, "nested": `{"Core":{"VirtualHosting":true,"VirtualHosts":{"x":"y"}}}`, "half": `{"Serve":{"ServeDir":"/tmp/",`}
	for _, kind := range keysSorted(bad) {
		dir := rep.Scratch("c32r")
		f := dir + "/bad.cfg"
		if bad[kind] != "" {
			put(dir, "bad.cfg", bad[kind])
		}
		os.MkdirAll(dir+"/files", 0o755)
		port := srv.FreePort()
		spec := put(dir, "spec.json", `{"Ops":[{"Kind":"route","ID":1,"Host":"DEFAULT","Path":"/","Method":"GET","Content":"*","Handler":"echo","Fallback":true,"Code":200}]}`)
		cfg := srv.WriteConfig(dir+"/main.cfg", M{"Core": core(dir, M{"Port": fmt.Sprint(port), "VirtualHosting": true, "VirtualHosts": M{"v.test": f}})}, chance(g, .5), g)
		p, err := srv.Launch(srv.Opt{Dir: dir, Config: cfg, Port: port, Wrap: c32Wrap(), Env: []string{"C32_SPEC=" + spec, "VERIF_OUT="}, NoWait: true})
		if err != nil {
			r.Inconclusive("launch: %v", err)
			return
		}
		if !p.WaitExit(20 * time.Second) {
			r.Violate("accepted-"+kind, M{"virtual host": bad[kind]}, "an instance with a virtual host file that cannot be used serves")
		} else if p.ExitErr() == nil || strings.Contains(p.Out.String(), "C32 routes added") {
			r.Violate("accepted-"+kind, M{"virtual host": bad[kind], "output": tailS(p.Out.String(), 1000)}, "an instance with a virtual host file that cannot be used was made")
		}
		stop(p)
		r.Eval("refused " + kind)
	}
}
