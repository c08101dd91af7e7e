package checks

import (
	"fmt"
	"math/rand/v2"
	"net/http"
	"net/url"
	"strings"
	"testing"
	"time"

	"github.com/redmaner/MaguroHTTP/guard"
	"github.com/redmaner/MaguroHTTP/router"

	"verifharness/model"
	"verifharness/rep"
	"verifharness/srv"
)

// c09Refuse is the reference decision of the firewall for a canonical path and client address.
func c09Refuse(black, subpath bool, rules map[string][]string, p, ip string) (refuse bool, why string) {
	match := false
	for k, list := range rules {
		covers := p == k || strings.HasPrefix(p, k+"/")
		if k == "/" {
			covers = !subpath || p == "/"
		}
		if !covers {
			continue
		}
		for _, v := range list {
			if v == "*" || v == ip {
				match = true
				why += " " + k
			}
		}
	}
	if black {
		return match, why
	}
	return !match, why
}

var c09Deep = "/d" + strings.Repeat("/e", 15)

var c09Paths = []string{c09Deep, "/d", "/", "/a", "/a/b", "/a/b/c", "/ab", "/b", "/a b", "/é", "/A", "/a.b"}

const c09Methods = "GET;HEAD;POST;PUT;DELETE;PATCH;OPTIONS"

func c09Rules(g *rand.Rand, ips []string) map[string][]string {
	rules := map[string][]string{}
	for n := g.IntN(5); n > 0; n-- {
		l := []string{}
		for k := g.IntN(4); k > 0; k-- {
			l = append(l, pick(g, append(ips, "*", "10.0.0", "127.0.0.", "::")))
		}
		if chance(g, .15) { // a long list, the order of which must not matter
			for k := pick(g, []int{3, 20, 300, 3000}); k > 0; k-- {
				l = append(l, fmt.Sprintf("192.168.%d.%d", g.IntN(256), g.IntN(256)))
			}
			g.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
		}
		rules[pick(g, c09Paths)] = l
	}
	return rules
}

func TestC09(t *testing.T) {
	r := rep.New("C09", "A case is one request against a generated firewall (black/whitelist, Subpath, rules on nested paths with exact, similar, wildcard, empty lists) from several client addresses, in any spelling of the path: (a) BlockHTTP and BlockProxy behind the router, (b) the real server with served, download and proxied virtual hosts. Judged by an independent decision function: 403 and nothing reached, or reached once. Distinct = (mode, black/white, subpath, decision, path, covering rules).")
	r.Watchdog(120*time.Second, true)
	g := r.Rng("lib")
	ips := []string{"10.0.0.1", "10.0.0.11", "127.0.0.1", "2001:db8::1", "::1"}
	fws := r.N(5000, 60000)
	for f := 0; f < fws && !r.Stop(); f++ {
		rules := c09Rules(g, ips)
		fw := guard.NewFirewall()
		if chance(g, .8) {
			fw.Blacklisting = chance(g, .5)
		}
		fw.Subpath = chance(g, .4)
		fw.Rules = rules
		if len(rules) == 0 && chance(g, .5) {
			fw.Rules = nil
		}
		errs, custom := []int{}, chance(g, .5)
		if custom {
			fw.ErrorHandler = func(w http.ResponseWriter, _ *http.Request, code int) { errs = append(errs, code); w.WriteHeader(code) }
		}
		reached := 0
		for _, mode := range []string{"http", "proxy"} {
			ro := router.NewRouter()
			for _, m := range httpMethods {
				ro.AddRoute(router.DefaultHost, "/", true, m, "*", http.HandlerFunc(func(w http.ResponseWriter, _ *http.Request) { reached++; w.WriteHeader(299) }))
			}
			if mode == "http" {
				ro.UseMiddleware(router.DefaultHost, "/", router.MiddlewareHandlerFunc(fw.BlockHTTP))
			} else {
				ro.UseMiddleware(router.DefaultHost, "/", router.MiddlewareHandlerFunc(fw.BlockProxy))
			}
			for q := 0; q < 12; q++ {
				p := pick(g, c09Paths)
				if chance(g, .4) {
					p = strings.TrimSuffix(p, "/") + pick(g, []string{"/", "/x", "/b", "/x/y/", "/b/c", "/index.html", strings.Repeat("/x", 1+g.IntN(80)), "/" + strings.Repeat("l", 1+g.IntN(2000))})
				}
				if chance(g, .2) {
					p = pick(g, wellKnown)
				}
				ip := pick(g, ips)
				remote := ip + ":4321"
				if strings.Contains(ip, ":") {
					remote = "[" + ip + "]:4321"
				}
				target := strings.ReplaceAll(p, " ", "%20")
				if chance(g, .5) {
					target = noisy(g, target)
				}
				method := "GET"
				if chance(g, .4) {
					method = pick(g, without(httpMethods, "CONNECT"))
				}
				raw := rawReq(method, target, "h.test")
				req, err := parse(raw, remote)
				if err != nil {
					continue
				}
				cp := model.Canon(req.URL.Path)
				want, why := c09Refuse(fw.Blacklisting, fw.Subpath, rules, cp, ip)
				reached, errs = 0, nil
				wit := map[string]any{"mode": mode, "method": method, "target": target, "canonical": cp, "client": ip, "blacklisting": fw.Blacklisting, "subpath": fw.Subpath, "rules": rules, "refuse": want}
				var code int
				if !r.Guard("firewall", wit, func() { code = serve(ro, req).Code }) {
					continue
				}
				wit["status"], wit["reached"] = code, reached
				switch {
				case want && reached > 0:
					r.Violate(mode+"-let-through", wit, "%s from %s must be refused but reached the handler", cp, ip)
				case want && (code != 403 || custom && (len(errs) != 1 || errs[0] != 403)):
					r.Violate(mode+"-wrong-status", wit, "refused with %d %v", code, errs)
				case !want && (reached != 1 || code != 299 || len(errs) > 0):
					r.Violate(mode+"-blocked", wit, "%s from %s is allowed but got %d (handler runs: %d)", cp, ip, code, reached)
				}
				r.Count(fmt.Sprintf("%s_refused_%v", mode, want), 1)
				r.Eval(fmt.Sprint(mode, fw.Blacklisting, fw.Subpath, want, p, why != "", target != p))
				if r.WantSample() && why != "" {
					r.Sample(wit)
				}
			}
		}
	}
	for s := 0; s < r.N(18, 100) && !r.Stop(); s++ {
		r.Phase(fmt.Sprint("server ", s))
		c09Server(r, r.Rng(fmt.Sprint("srv", s)), s)
	}
	r.Phase("with a limiter")
	for i := 0; i < r.N(12, 60) && !r.Stop(); i++ {
		c09Limited(r, g, []string{"serve", "download", "proxy"}[i%3], i%2 == 1)
	}
	r.Finish()
}

// c09Limited asks a site with a firewall and a small budget shared by all clients: refused clients are refused whatever they asked
// before, and the others are let in.
func c09Limited(r *rep.R, g *rand.Rand, mode string, vhost bool) {
	dir := rep.Scratch("c09l")
	up := srv.NewUpstream("u", "")
	defer up.Close()
	put(dir+"/site", "index.html", "content")
	black := chance(g, .5)
	list := []string{"127.0.0.2"}
	if !black {
		list = []string{"127.0.0.1"}
	}
	burst := 1 + g.IntN(4)
	site := M{"Guard": M{"Rate": 0.0001, "RateBurst": burst, "FilterOnIP": false, "Firewall": M{"Enabled": true, "Blacklisting": black, "Subpath": false, "Rules": map[string][]string{"/": list}}}}
	switch mode {
	case "serve":
		site["Serve"] = M{"ServeDir": dir + "/site", "ServeIndex": "index.html", "Methods": M{"/": "GET"}, "MIMETypes": M{}}
	case "download":
		site["Serve"] = M{"ServeDir": dir + "/site", "ServeIndex": "index.html", "Download": M{"Enabled": true, "Exts": []string{".bin"}}}
	case "proxy":
		site["Proxy"] = M{"Enabled": true, "Rules": M{"l.test": "http://" + up.Addr}, "Methods": []string{"GET"}}
	}
	var p *srv.Proc
	if vhost {
		p = launch(r, g, dir, M{"Core": core(dir, nil)}, map[string]M{"l.test": site}, srv.Opt{})
	} else {
		p = launch(r, g, dir, srv.Merge(site, M{"Core": core(dir, nil)}), nil, srv.Opt{})
	}
	if p == nil {
		return
	}
	defer stop(p)
	var got []int
	wit := M{"mode": mode, "virtual_host": vhost, "blacklisting": black, "burst": burst}
	ask := func(ip string) int {
		resp, err := client(p, ip).Do(srv.Req("GET", "/", "l.test", nil, nil), "GET")
		if err != nil {
			return 0
		}
		r.Eval(fmt.Sprint("limited", mode, vhost, black, resp.Status))
		got = append(got, resp.Status)
		return resp.Status
	}
	refused := func() {
		for i := 0; i < burst+4; i++ {
			if c := ask("127.0.0.2"); c != 403 {
				wit["statuses"] = got
				r.Violate("limited-not-403", wit, "request %d of a refused client got %d", i, c)
				return
			}
		}
	}
	refused()
	for i := 0; i < burst; i++ {
		if c := ask("127.0.0.1"); c != 200 {
			wit["statuses"] = got
			r.Violate("limited-blocked", wit, "allowed request %d of %d got %d", i, burst, c)
		}
	}
	ask("127.0.0.1")
	refused()
	if mode == "proxy" && up.Count() > burst+1 {
		r.Violate("limited-forwarded", wit, "the upstream saw %d requests", up.Count())
	}
}

func c09Server(r *rep.R, g *rand.Rand, s int) {
	dir := rep.Scratch("c09")
	up := srv.NewUpstream("u", "")
	defer up.Close()
	for _, p := range []string{"index.html", "a/index.html", "a/b/index.html", "a/b/c", "ab", "b/index.html", "a b", "é", "A", "a.b"} {
		put(dir+"/site", p, "content of "+p)
		if !strings.HasSuffix(p, "index.html") {
			put(dir+"/dl", p+".bin", "dl "+p)
		}
	}
	put(dir+"/dl", "a/b/x.bin", "dl")
	ips := []string{"127.0.0.1", "127.0.0.11", "127.0.0.2", "::1"}
	type site struct {
		host, mode     string
		on, black, sub bool
		exactB         bool
		rules          map[string][]string
	}
	var sites []site
	vh := map[string]M{}
	for i := 0; i < 12; i++ {
		mode := []string{"serve", "download", "proxy"}[i%3]
		st := site{host: fmt.Sprintf("%s%d.test", mode, i), mode: mode, on: i < 6 || i >= 9 || chance(g, .5), black: chance(g, .5), sub: chance(g, .4), rules: c09Rules(g, ips)}
		if i >= 9 || i < 3 && len(st.rules) == 0 { // a firewall without rules
			st.on, st.rules = true, map[string][]string{}
			st.black = (i+s)%3 == 0
		}
		fw := M{"Enabled": st.on, "Blacklisting": st.black, "Subpath": st.sub, "Rules": st.rules}
		c := M{"Guard": srv.Merge(noLimit(), M{"Firewall": fw})}
		switch mode {
		case "serve":
			ms := map[string]string{"/": c09Methods}
			if chance(g, .5) {
				ms["/a/"] = c09Methods
				ms["/b"] = c09Methods
				st.exactB = true
			}
			c["Serve"] = M{"ServeDir": dir + "/site", "ServeIndex": "index.html", "Methods": ms, "MIMETypes": M{}}
		case "download":
			c["Serve"] = M{"ServeDir": dir + "/dl", "ServeIndex": "index.html", "Download": M{"Enabled": true, "Exts": []string{".bin"}}}
		case "proxy":
			c["Proxy"] = M{"Enabled": true, "Rules": map[string]string{st.host: "http://" + up.Addr}, "Methods": strings.Split(c09Methods, ";")}
		}
		vh[st.host] = c
		sites = append(sites, st)
	}
	p := launch(r, g, dir, M{"Core": core(dir, M{"Address": ""})}, vh, srv.Opt{})
	if p == nil {
		return
	}
	defer stop(p)
	cls := map[string]*srv.Client{}
	for _, ip := range ips {
		cls[ip] = client(p, ip)
		if ip == "::1" {
			cls[ip] = &srv.Client{Addr: fmt.Sprintf("[::1]:%d", p.Port)}
		}
	}
	for q := 0; q < 2500 && !r.Stop(); q++ {
		st := pick(g, sites)
		ip := pick(g, ips)
		pt := pick(g, c09Paths)
		if chance(g, .4) {
			pt = strings.TrimSuffix(pt, "/") + pick(g, []string{"/", "/x", "/b", "/b/c", "/q.bin", "/index.html", strings.Repeat("/x", 1+g.IntN(80)), "/" + strings.Repeat("l", 1+g.IntN(2000))})
		}
		if chance(g, .15) {
			pt = pick(g, wellKnown)
		}
		target := strings.ReplaceAll(pt, " ", "%20")
		if chance(g, .4) {
			target = noisy(g, target)
		}
		if chance(g, .12) { // no fragment in a request target: part of the path
			x := "#" + pick(g, []string{"", "x", "/../z", "?"})
			pt, target = pt+strings.TrimSuffix(x, "?"), target+x
		}
		want, why := false, ""
		if st.on {
			want, why = c09Refuse(st.black, st.sub, st.rules, model.Canon(pt), ip)
		}
		method := "GET"
		if st.mode != "download" && chance(g, .4) {
			method = pick(g, strings.Split(c09Methods, ";"))
		}
		before := up.Count()
		resp, err := cls[ip].Do(srv.Req(method, target, st.host, nil, nil), method)
		wit := M{"method": method, "host": st.host, "mode": st.mode, "target": target, "client": ip, "firewall": fmt.Sprintf("%+v", st), "refuse": want}
		if err != nil {
			r.Violate("no-answer", wit, "no answer: %v", err)
			continue
		}
		wit["status"] = resp.Status
		ups := up.Count() - before
		// below a path served without fallback no route exists at all
		unrouted := st.exactB && strings.HasPrefix(model.Canon(pt), "/b/") && resp.Status == 404
		if want && (resp.Status != 403 && !unrouted || ups > 0 || strings.Contains(string(resp.Body), "content of") || strings.Contains(string(resp.Body), "up:")) {
			r.Violate("server-let-through", wit, "refused request got %d, upstream saw %d", resp.Status, ups)
		}
		if !want && resp.Status == 403 {
			r.Violate("server-blocked", wit, "allowed request got 403")
		}
		if !want && st.mode == "proxy" && (ups != 1 || resp.Status != 200) {
			r.Violate("server-not-forwarded", wit, "allowed proxy request got %d, upstream saw %d", resp.Status, ups)
		}
		if st.mode == "proxy" && st.on && ups == 1 {
			// what the upstream is asked for must be allowed as well
			t, _, _ := strings.Cut(up.Reqs(before)[0].Target, "?")
			t, _, _ = strings.Cut(t, "#")
			if u, err := url.PathUnescape(t); err == nil {
				if no, _ := c09Refuse(st.black, st.sub, st.rules, model.Canon(u), ip); no {
					wit["upstream_path"] = t
					r.Violate("server-smuggled", wit, "the upstream was asked for %s, which is refused to %s", t, ip)
				}
			}
		}
		r.Count(fmt.Sprintf("server_%s_refused_%v", st.mode, want), 1)
		r.Eval(fmt.Sprint("srv", st.mode, st.on, st.black, st.sub, want, resp.Status, why != ""))
	}
	checkAlive(r, p, nil)
	checkPanics(r, p, "panic")
}
