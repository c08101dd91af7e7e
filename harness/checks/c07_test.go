package checks

import (
	"fmt"
	"math/rand/v2"
	"net/http"
	"net/http/httptest"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"github.com/redmaner/MaguroHTTP/guard"

	"verifharness/rep"
	"verifharness/srv"
)

type c07Bucket struct {
	tokens []float64 // possible bucket contents
	last   time.Time
	at     int // request number of its last request
}

// c07Headers make no request cheaper.
var c07Headers = [][2]string{{"Range", "bytes=0-0"}, {"Range", "bytes=9-1"}, {"If-None-Match", `"x"`}, {"If-None-Match", "*"}, {"If-Modified-Since", "Thu, 01 Jan 2099 00:00:00 GMT"}, {"If-Match", `"x"`}, {"Authorization", "Basic YWRtaW46cHc="}, {"X-Forwarded-For", "10.9.9.9"}, {"Forwarded", "for=10.9.9.9"}, {"X-Real-Ip", "10.9.9.9"}, {"Cookie", "a=b"}, {"Upgrade", "websocket"}, {"Accept", "text/html"}, {"Purpose", "prefetch"}, {"Origin", "http://a"}, {"Cache-Control", "no-cache"}}

func TestC07(t *testing.T) {
	r := rep.New("C07", "A case is one request. (a) library: generated histories of many clients (IPv4/IPv6, any port, user agents incl. ones that make address+agent ambiguous) against guard.Limiter in virtual time, judged by an independent token bucket per client; (b) real server with virtually no refill: serve, download, proxy sites and virtual hosts, several client addresses and agents: exactly RateBurst requests of each client are admitted per site. Distinct = (site/mode, admitted or refused, fill class, idle class, filter mode).")
	r.Watchdog(120*time.Second, true)
	scen := r.N(700, 8000)
	for s := 0; s < scen && !r.Stop(); s++ {
		g := r.Rng(fmt.Sprint("lib", s))
		r.Phase(fmt.Sprint("library scenario ", s))
		synctest.Test(t, func(t *testing.T) { c07Lib(r, g, s) })
	}
	e2e := r.N(7, 40)
	for s := 0; s < e2e && !r.Stop(); s++ {
		r.Phase(fmt.Sprint("server scenario ", s))
		c07Server(r, r.Rng(fmt.Sprint("srv", s)), s)
	}
	for s := 0; s < r.N(4, 20) && !r.Stop(); s++ {
		r.Phase(fmt.Sprint("fast refill ", s))
		c07Fast(r, r.Rng(fmt.Sprint("fast", s)), s)
	}
	r.Finish()
}

func c07Lib(r *rep.R, g *rand.Rand, s int) {
	rate := pick(g, []float64{0, 0.001, 0.5, 1, 7, 60, 100, 600, 6000})
	burst := pick(g, []int{0, 1, 2, 3, 10, 50, 1000000})
	onIP := chance(g, .4)
	l := guard.NewLimiter(rate, burst, onIP)
	custom := chance(g, .5)
	refused := 0
	if custom {
		l.ErrorHandler = func(w http.ResponseWriter, _ *http.Request, code int) { refused = code; w.WriteHeader(code) }
	}
	reached := 0
	h := l.LimitHTTP(func(w http.ResponseWriter, _ *http.Request) { reached++; w.WriteHeader(299) })
	ips := []string{"10.0.0.1", "10.0.0.11", "10.0.0.111", "2001:db8::1", "2001:db8::11", "127.0.0.1", "2001:db8:1:2:3:4:5:6", "2001:db8:1:2:3:4:5:7", "2001:db8:1:2:ffff:4:5:6", "2001:db8:1:3:3:4:5:6", "fe80::1%eth0", "fe80::1%eth1", "::ffff:10.0.0.1", "::1", "127.0.0.2", "192.168.1.1", "::", "0.0.0.0", "169.254.1.1", "fd00::1", "8.8.8.8"}
	long := strings.Repeat("Mozilla/5.0 (X11) ", pick(g, []int{3, 7, 20, 60, 250}))
	uas := []string{"", "1", "11", "x", "1x", "Mozilla/5.0", "a\tb", "ü", "mozilla/5.0", "Mozilla/5.1", long + "1", long + "2", "1" + long + "end", "2" + long + "end"}
	mixes := g.IntN(3) // 0: few clients, 1: ambiguous ones, 2: many one-off clients in between
	special, methods, pair := agents[s%len(agents)], []string{"GET", "POST", "HEAD"}, []string{ips[0], ips[1]}
	if s%2 == 1 {
		methods = without(httpMethods, "CONNECT")
		pair = []string{ips[s/2%len(ips)], pick(g, ips)}
	}
	buckets := map[string]*c07Bucket{}
	var hist []string
	nreq := 250
	for i := 0; i < nreq; i++ {
		switch g.IntN(8) {
		case 0:
			time.Sleep(time.Duration(g.Int64N(int64(time.Second))))
		case 1:
			time.Sleep(time.Duration(float64(time.Minute) / max(rate, 0.1) * g.Float64() * 2))
		case 2:
			if chance(g, .1) {
				time.Sleep(time.Duration(g.Int64N(int64(20 * time.Minute))))
			}
		}
		ip, ua := pick(g, ips), pick(g, uas)
		if mixes == 0 {
			ip, ua = pick(g, pair), pick(g, [][]string{{special, ""}, {"", "Mozilla/5.0"}, uas[10:12], uas[12:14], {"Mozilla/5.0", "mozilla/5.0"}, {"1", "11"}}[s/3%6])
		}
		if mixes == 2 && chance(g, .6) {
			ip = fmt.Sprintf("172.16.%d.%d", g.IntN(256), g.IntN(256))
		}
		id := ip + "\x00" + ua
		if onIP {
			id = ip
		}
		req := httptest.NewRequest(pick(g, methods), pick(g, pick(g, [][]string{{"/", "/a", "/a/b?x"}, wellKnown})), nil)
		port := 1 + g.IntN(65000)
		if strings.Contains(ip, ":") {
			req.RemoteAddr = fmt.Sprintf("[%s]:%d", ip, port)
		} else {
			req.RemoteAddr = fmt.Sprintf("%s:%d", ip, port)
		}
		if ua != "" {
			req.Header.Set("User-Agent", ua)
		}
		for chance(g, .2) {
			h := pick(g, c07Headers)
			req.Header.Set(h[0], h[1])
		}
		req.Host = pick(g, []string{"a", "b"})
		srv.NoiseHeader(fmt.Sprint(s, i), req.Header)
		now := time.Now()
		b := buckets[id]
		fresh := b == nil
		idle := time.Duration(0)
		if fresh {
			b = &c07Bucket{tokens: []float64{float64(burst)}, last: now, at: i}
			buckets[id] = b
		}
		idle = now.Sub(b.last)
		for k := range b.tokens {
			b.tokens[k] = min(float64(burst), b.tokens[k]+idle.Seconds()*rate/60)
		}
		if idle >= 15*time.Minute || i-b.at > 900 {
			b.tokens = append(b.tokens, float64(burst))
		}
		b.last, b.at = now, i
		const eps = 1e-5
		var admit, refuse []float64
		for _, tk := range b.tokens {
			if tk >= 1-eps {
				admit = append(admit, max(0, tk-1))
			}
			if tk < 1+eps {
				refuse = append(refuse, tk)
			}
		}
		reached, refused = 0, 0
		wit := map[string]any{"rate_per_min": rate, "burst": burst, "filterOnIP": onIP, "client": req.RemoteAddr, "agent": ua, "tokens": fmt.Sprint(b.tokens), "idle": idle.String(), "history": append([]string(nil), hist...)}
		var code int
		if !r.Guard("limit", wit, func() {
			w := httptest.NewRecorder()
			h(w, req)
			code = w.Code
		}) {
			return
		}
		ok := reached == 1
		hist = append(hist, fmt.Sprintf("%s ip=%s ua=%q -> %d", now.Format("15:04:05.000000"), ip, ua, code))
		if len(hist) > 80 {
			hist = hist[1:]
		}
		switch {
		case ok && len(admit) == 0:
			r.Violate("admitted-too-much", wit, "request admitted although the client's bucket holds %v tokens", b.tokens)
		case !ok && len(refuse) == 0:
			r.Violate("refused-wrongly", wit, "request refused (%d) although the client's bucket holds %v tokens", code, b.tokens)
		case ok && (code != 299 || refused != 0):
			r.Violate("admitted-but-error", wit, "admitted request ended with status %d", code)
		case !ok && (code != 429 || reached != 0 || custom && refused != 429):
			r.Violate("refusal-not-429", wit, "refused request: status %d, handler runs %d, error handler code %d", code, reached, refused)
		}
		if ok {
			b.tokens = admit
		} else {
			b.tokens = refuse
		}
		if len(b.tokens) == 0 {
			return
		}
		if ok {
			r.Count("admitted", 1)
		} else {
			r.Count("refused", 1)
		}
		ic := "0"
		if idle > 0 {
			ic = "short"
		}
		if idle >= 15*time.Minute {
			ic = "reset"
		}
		r.Eval(fmt.Sprint("lib", ok, fresh, ic, onIP, burst, rate, mixes))
	}
	if r.WantSample() {
		r.Sample(map[string]any{"rate_per_min": rate, "burst": burst, "filterOnIP": onIP, "history": hist[:min(12, len(hist))]})
	}
}

// c07Fast judges sites whose budget is refilled quickly: no more requests than the budget and the refill of the time that passed.
func c07Fast(r *rep.R, g *rand.Rand, s int) {
	dir := rep.Scratch("c07f")
	up := srv.NewUpstream("u", "")
	defer up.Close()
	put(dir+"/site", "index.html", "hello")
	put(dir+"/dl", "f.zip", "zip")
	vh := map[string]M{}
	type lim struct {
		rate  float64
		burst int
	}
	lims := map[string]lim{}
	for i, rate := range []float64{600, 1000, 1200, 3000} {
		for _, kind := range []string{"serve", "download", "proxy"} {
			h := fmt.Sprintf("%s%d.test", kind, i)
			l := lim{rate, 1 + g.IntN(4)}
			lims[h] = l
			c := M{"Guard": M{"Rate": l.rate, "RateBurst": l.burst, "FilterOnIP": chance(g, .5)}}
			switch kind {
			case "serve":
				c["Serve"] = M{"ServeDir": dir + "/site", "ServeIndex": "index.html", "Methods": M{"/": "GET"}}
			case "download":
				c["Serve"] = M{"ServeDir": dir + "/dl", "ServeIndex": "index.html", "Download": M{"Enabled": true, "Exts": []string{".zip"}}}
			case "proxy":
				c["Proxy"] = M{"Enabled": true, "Rules": map[string]string{h: "http://" + up.Addr}, "Methods": []string{"GET"}}
			}
			vh[h] = c
		}
	}
	main := M{"Core": core(dir, nil)}
	single := ""
	if s%2 == 1 { // without virtual hosting
		single = pick(g, keysSorted(vh))
		main = srv.Merge(main, vh[single])
		vh = nil
	}
	p := launch(r, g, dir, main, vh, srv.Opt{})
	if p == nil {
		return
	}
	defer stop(p)
	c := client(p, "")
	for _, h := range keysSorted(lims) {
		if single != "" && h != single {
			continue
		}
		l, n, in := lims[h], 120, 0
		start := time.Now()
		for i := 0; i < n; i++ {
			resp, err := c.Get("/", h)
			if err != nil {
				r.Violate("no-answer", M{"host": h}, "no answer: %v", err)
				return
			}
			if resp.Status != 429 {
				in++
			}
		}
		took := time.Since(start)
		wit := M{"host": h, "rate_per_min": l.rate, "burst": l.burst, "requests": n, "admitted": in, "took": took.String(), "virtual_hosts": vh != nil}
		if most := float64(l.burst) + took.Seconds()*l.rate/60 + .01; float64(in) > most {
			r.Violate("server-admitted-too-much", wit, "%d requests admitted within %v, at most %.2f are allowed", in, took, most)
		}
		if in < min(l.burst, n) {
			r.Violate("server-refused-wrongly", wit, "%d requests admitted of a budget of %d", in, l.burst)
		}
		r.Eval(fmt.Sprint("fast ", h, l.burst, single != "", in < n))
		r.Count("fast_refilled_sites", 1)
	}
	checkAlive(r, p, nil)
}

func c07Server(r *rep.R, g *rand.Rand, s int) {
	dir := rep.Scratch("c07")
	up := srv.NewUpstream("u", "")
	defer up.Close()
	site := dir + "/site"
	put(site, "index.html", "hello")
	put(site, "sub/a.txt", "a")
	put(dir+"/dl", "f.zip", "zip")
	guardOf := func(burst int, onIP bool) M {
		return M{"Rate": pick(g, []float64{0.0001, 0}), "RateBurst": burst, "FilterOnIP": onIP}
	}
	serve := M{"ServeDir": site, "ServeIndex": "index.html", "Methods": pick(g, []map[string]string{{"/": "GET;HEAD", "/sub/": "GET"}, {"/": "GET", "/sub": "GET", "/sub/": "GET;HEAD"}, {"/": "GET;POST", "/sub/": "GET", "/sub": "HEAD;GET", "/sub/a.txt": "GET"}})}
	type siteT struct {
		host  string
		burst int
		onIP  bool
		paths []string
		proxy bool
	}
	var sites []siteT
	vh := map[string]M{}
	for i, kind := range []string{"serve", "download", "proxy", "serve"} {
		st := siteT{host: fmt.Sprintf("%s%d.test", kind, i), burst: pick(g, []int{0, 1, 2, 3, 4, 5, 6, 7, 8}), onIP: chance(g, .5), paths: []string{"/", "/sub/a.txt", "/missing", "/index.html/", "/sub", "/sub/"}}
		c := M{"Guard": guardOf(st.burst, st.onIP)}
		switch kind {
		case "serve":
			c["Serve"] = serve
		case "download":
			c["Serve"] = M{"ServeDir": dir + "/dl", "ServeIndex": "index.html", "Download": M{"Enabled": true, "Exts": []string{".zip"}}}
			st.paths = []string{"/", "/f.zip", "/nope"}
		case "proxy":
			c["Proxy"] = M{"Enabled": true, "Rules": map[string]string{st.host: "http://" + up.Addr}, "Methods": []string{"GET", "HEAD"}}
			st.paths = []string{"/", "/x", "/y/z?q"}
			st.proxy = true
		}
		vh[st.host] = c
		sites = append(sites, st)
	}
	main := M{"Core": core(dir, nil)}
	if s%3 == 2 { // single site, no virtual hosting
		st := sites[g.IntN(3)]
		st.host = "localhost"
		c := vh[sites[0].host]
		if st.proxy {
			c = M{"Guard": guardOf(st.burst, st.onIP), "Proxy": M{"Enabled": true, "Rules": map[string]string{"localhost": "http://" + up.Addr}, "Methods": []string{"GET"}}}
		} else if st.paths[1] == "/f.zip" {
			c = vh[sites[1].host]
			st.burst, st.onIP = sites[1].burst, sites[1].onIP
		} else {
			st.burst, st.onIP = sites[0].burst, sites[0].onIP
		}
		main = srv.Merge(main, c)
		sites, vh = []siteT{st}, nil
	}
	p := launch(r, g, dir, main, vh, srv.Opt{})
	if p == nil {
		return
	}
	defer stop(p)
	type cl struct {
		c  *srv.Client
		ip string
		ua string
	}
	var cls []cl
	for _, ip := range []string{"127.0.0.1", "127.0.0.11", "127.0.7.9"} {
		for _, ua := range []string{pick(g, agents), "", "1", "agent/1.0", strings.Repeat("agent ", 60) + "a", strings.Repeat("agent ", 60) + "b"} {
			cls = append(cls, cl{client(p, ip), ip, ua})
		}
	}
	used := map[string]int{}
	total := 0
	for n := 0; n < 500 && !r.Stop(); n++ {
		st := pick(g, sites)
		c := pick(g, cls)
		var hdr [][2]string
		if c.ua != "" {
			hdr = append(hdr, [2]string{"User-Agent", c.ua})
		}
		for chance(g, .2) {
			hdr = append(hdr, pick(g, c07Headers))
		}
		path := pick(g, st.paths)
		if chance(g, .3) {
			path = pick(g, wellKnown)
		}
		before := up.Count()
		resp, err := c.c.Get(path, st.host+pick(g, []string{"", ":8080"}), hdr...)
		if err != nil {
			r.Violate("no-answer", M{"request": path, "host": st.host}, "no answer: %v", err)
			return
		}
		id := st.host + "|" + c.ip
		if !st.onIP {
			id += "|" + c.ua
		}
		used[id]++
		want := used[id] <= st.burst
		wit := M{"host": st.host, "path": path, "client": c.ip, "agent": c.ua, "burst": st.burst, "filterOnIP": st.onIP, "requests_of_client": used[id], "status": resp.Status}
		if want && resp.Status == 429 {
			r.Violate("server-refused-wrongly", wit, "request %d of a client with burst %d was refused", used[id], st.burst)
		}
		if !want && resp.Status != 429 {
			r.Violate("server-admitted-too-much", wit, "request %d of a client with burst %d got %d", used[id], st.burst, resp.Status)
		}
		if got := up.Count() - before; st.proxy && (got == 1) != want {
			r.Violate("server-upstream", wit, "upstream saw %d requests, admitted=%v", got, want)
		}
		total++
		if want {
			r.Count("server_admitted", 1)
		} else {
			r.Count("server_refused", 1)
		}
		r.Eval(fmt.Sprint("srv", st.host, resp.Status, st.onIP, path, min(used[id]-st.burst, 2)))
	}
	checkAlive(r, p, nil)
	checkPanics(r, p, "panic")
}
