package checks

import (
	"crypto/tls"
	"fmt"
	"math/rand/v2"
	"net"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"verifharness/rep"
	"verifharness/srv"
)

func TestC16(t *testing.T) {
	r := rep.New("C16", "A case is one request with a hostile request line or headers (absolute, opaque, authority and empty forms, user info, ports, backslashes, encodings naming decoy addresses, forwarding headers, several hosts, CONNECT, upstream redirects to decoys) to a proxying server in rule-table and virtual-host mode. Judged: decoy listeners on every address named see no connection, each upstream sees only requests for its own host with that host as Host, hosts without a rule reach no upstream, an upstream with an untrusted certificate gets no request. Distinct = (mode, request form, host, status).")
	r.Watchdog(120*time.Second, true)
	for s := 0; s < r.N(24, 120) && !r.Stop(); s++ {
		r.Phase(fmt.Sprint("server ", s))
		c16Server(r, r.Rng(fmt.Sprint("srv", s)), s)
	}
	r.Finish()
}

func c16Server(r *rep.R, g *rand.Rand, s int) {
	dir := rep.Scratch("c16")
	useTLS := s%4 == 3
	vhost := s%2 == 1
	hosts := []string{"px.test", "px.tes", "other.test", "10.1.2.3", "base.test"}
	ups := map[string]*srv.Upstream{}
	base := map[string]string{}
	var decoys []*srv.Upstream
	for i := 0; i < 3; i++ {
		d := srv.NewUpstream(fmt.Sprint("decoy", i), fmt.Sprintf("127.0.7.%d", i+1))
		defer d.Close()
		decoys = append(decoys, d)
	}
	rules := M{}
	for i, h := range hosts {
		u := srv.NewUpstream("UP<"+h+">", fmt.Sprintf("127.0.8.%d", i+1))
		defer u.Close()
		u.Respond = func(q *srv.UpReq, c net.Conn) bool {
			st := "200 OK"
			loc := ""
			if strings.Contains(q.Target, "redir") {
				st, loc = "302 Found", "Location: http://"+decoys[0].Addr+"/\r\nRefresh: 0;url=http://"+decoys[1].Addr+"/\r\nAlt-Svc: h2=\""+decoys[2].Addr+"\"\r\n"
			}
			b := "up:" + u.Name
			if q.Method == "HEAD" {
				b = ""
			}
			fmt.Fprintf(c, "HTTP/1.1 %s\r\nContent-Length: %d\r\nX-Up: %s\r\n%s\r\n%s", st, len(b), u.Name, loc, b)
			return true
		}
		ups[h] = u
		rules[h] = "http://" + u.Addr
		if h == "base.test" {
			base[h] = "/base"
			rules[h] = "http://" + u.Addr + "/base"
		}
	}
	// an upstream whose certificate nobody can trust
	cert := srv.MakeCert(dir, "up", false, "tls.test")
	kp, err := tls.LoadX509KeyPair(cert.CertFile, cert.KeyFile)
	if err != nil {
		r.Inconclusive("certificate: %v", err)
		return
	}
	var spoke sync.Map
	tu := srv.NewUpstream("tls", "127.0.8.100")
	tu.OnConn = func(c net.Conn) bool {
		c.SetDeadline(time.Now().Add(20 * time.Second))
		tc := tls.Server(c, &tls.Config{Certificates: []tls.Certificate{kp}})
		if tc.Handshake() == nil {
			b := make([]byte, 512)
			if n, _ := tc.Read(b); n > 0 {
				spoke.Store(string(b[:n]), true)
			}
		}
		return false
	}
	defer tu.Close()
	rules["tls.test"] = "https://" + tu.Addr
	methods := []string{"GET", "HEAD", "POST", "PUT", "DELETE", "OPTIONS", "PATCH", "CONNECT"}
	main := M{"Core": core(dir, M{})}
	if useTLS {
		c := srv.MakeCert(dir, "t", false, "localhost")
		main = M{"Core": core(dir, M{"TLS": M{"Enabled": true, "TLSCert": c.CertFile, "TLSKey": c.KeyFile}})}
	}
	var vh map[string]M
	put(dir, "www/index.html", "served")
	if vhost {
		vh = map[string]M{"served.test": {"Guard": noLimit(), "Serve": M{"ServeDir": dir + "/www", "ServeIndex": "index.html", "Methods": M{"/": "GET;POST"}}}}
		for h := range rules {
			vh[h] = M{"Guard": noLimit(), "Proxy": M{"Enabled": true, "Rules": M{h: rules[h]}, "Methods": methods}}
		}
	} else {
		main = srv.Merge(main, M{"Guard": noLimit(), "Proxy": M{"Enabled": true, "Rules": rules, "Methods": methods}})
	}
	p := launch(r, g, dir, main, vh, srv.Opt{})
	if p == nil {
		return
	}
	defer stop(p)
	var seen [3]atomic.Int64
	run := func(g *rand.Rand, n int) {
		c := client(p, "")
		for q := 0; q < n && !r.Stop(); q++ {
			h := pick(g, hosts)
			d := pick(g, decoys)
			da := d.Addr
			target, form := "/x", "plain"
			host := h
			var hdr [][2]string
			switch g.IntN(12) {
			case 0:
				target, form = pick(g, []string{"http://", "https://", "HTTP://", "ftp://", "x://", "ws://"})+da+pick(g, []string{"/", "", "/x?y", "/redir"}), "absolute-decoy"
				host = pick(g, []string{h, da})
			case 1:
				target, form = pick(g, []string{"x", "http", "a+b", "p.q", "u-"})+":"+pick(g, []string{"@", "", "1@", ":@", ":1@", "%40", "\\@", "?@", "#@", "pw@"})+da+pick(g, []string{"", "/", "/x", "?a", "/@"}), "opaque"
			case 2:
				target, form = pick(g, []string{"@", ".", ":80@", ":", "0@", "-", "%40", "\\", "#", "?@", ";@"})+da+"/", "no-slash"
			case 3:
				target, form = pick(g, []string{"//", "///", "/\\", "/%2f", "//@", "//x@", "/@", "/:80@", "/.", "/..//", "/%09/", "/http://", "/http:", "/?@", "/;@"})+da+pick(g, []string{"", "/", "/y"}), "slash"
			case 4:
				target, form = pick(g, []string{"http://" + h + "@" + da, "http://" + da + "@" + h, "http://" + h + ":80@" + da + "/", "http://" + h + "#@" + da, "http://" + h + "?@" + da, "http://" + h + "\\@" + da, "http://u:p@" + h + "/", "http://" + h + "/@" + da})+pick(g, []string{"", "/x"}), "userinfo"
			case 5:
				form = "host"
				host = pick(g, []string{h + "@" + da, da + "@" + h, h + ":" + da, h + "/" + da, da, h + "#" + da, h + "?" + da, h + ":80", h + ":99999", h + "%00" + da, h + " " + da, h + ".", strings.ToUpper(h), "[" + da + "]", h + "," + da})
			case 6:
				form = "headers"
				for _, k := range []string{"X-Forwarded-Host", "X-Forwarded-For", "Forwarded", "X-Host", "X-Original-URL", "X-Rewrite-URL", "X-Real-IP", "Proxy", "Referer", "Origin", "Location", "Proxy-Connection", "Via", "X-HTTP-Host-Override", "X-Forwarded-Server", "X-Original-Host", "Host-Override", "X-Upstream", "X-Backend", "Via-Host", "True-Client-IP", "X-Forwarded-Port", "X-Forwarded-Path"} {
					if chance(g, .5) {
						hdr = append(hdr, [2]string{k, pick(g, []string{da, "http://" + da, "host=" + da, pick(g, hosts), pick(g, hosts) + ":80", "host=" + pick(g, hosts), "tls.test"})})
					}
				}
			case 7:
				form = "no-rule"
				if chance(g, .5) {
					hdr = append(hdr, [2]string{pick(g, []string{"X-Forwarded-Host", "Forwarded", "X-Host", "X-Forwarded-Server"}), pick(g, hosts)})
				}
				host = pick(g, []string{"nobody.test", "localhost", "served.test", "127.0.0.1", da, "px.test.", "x.px.test", "px", "www.px.test", "www.other.test", "px.test.www", "test", "xpx.test", "px.testx", "px.test.test", "WWW.px.test", "*.px.test", "*", "_", "px..test", ".px.test", "www.10.1.2.3", "210.1.2.3", "10.1.2.30", "10.1.2", "pxxtest", "px%2etest", "px.test%00", "xn--px.test", "px_test"})
				target = pick(g, []string{"/", "/x", "/redir", "//" + da})
			case 8:
				target, form = pick(g, []string{"/redir", "/redir?to=http://" + da, "/a/redir"}), "redirect"
			case 9:
				target, form = "http://"+h+pick(g, []string{"/x", "", "/?q", "/a/../b", "/a%2fb", ":80/x"}), "absolute-own"
				host = pick(g, []string{h, da, pick(g, hosts), ""})
			case 10:
				target, form, host = pick(g, []string{"/", "/x"}), "untrusted-tls", "tls.test"
			}
			method := pick(g, []string{"GET", "GET", "GET", "POST", "HEAD", "OPTIONS", "DELETE"})
			if chance(g, .05) {
				method, form = "CONNECT", "connect"
				target = pick(g, []string{da, h + ":80", "/x", "http://" + da})
				if chance(g, .5) {
					host = target
				}
			}
			eff := effHost(target, host)
			if method == "CONNECT" && !strings.HasPrefix(target, "/") {
				eff = "?"
			}
			hdr = append(hdr, [2]string{"X-Eff", eff}, [2]string{"X-Form", form})
			var body []byte
			if method == "POST" {
				body = []byte("b")
			}
			wit := M{"target": target, "host": host, "method": method, "headers": hdr, "vhosts": vhost}
			resp, err := c.Do(srv.Req(method, target, host, hdr, body), method)
			status := 0
			if err != nil {
				if strings.Contains(err.Error(), "timeout") {
					r.Violate("no-answer", wit, "%v", err)
				}
			} else {
				status = resp.Status
				wit["status"] = status
				if up := resp.Header.Get("X-Up"); strings.HasPrefix(up, "decoy") {
					r.Violate("decoy-answered", wit, "the answer comes from %s", up)
				}
				if (form == "plain" || form == "headers") && (status != 200 || resp.Header.Get("X-Up") != "UP<"+h+">") {
					r.Violate("not-proxied", wit, "a plain request got %d from %q", status, resp.Header.Get("X-Up"))
				}
				if form == "redirect" && (status != 302 || resp.Header.Get("Location") == "") {
					r.Violate("redirect-not-relayed", wit, "the upstream's redirect arrived as %d", status)
				}
				if form == "no-rule" && (resp.Header.Get("X-Up") != "" || host != "served.test" && status == 200) {
					r.Violate("no-rule", wit, "a host without rule got %d", status)
				}
				if form == "untrusted-tls" && status != 502 {
					r.Violate("untrusted-tls", wit, "an upstream that cannot prove its identity gave %d", status)
				}
			}
			for i, d := range decoys {
				if n := d.Conns(); n > int(seen[i].Swap(int64(n))) {
					r.Violate("decoy-connected-"+form, wit, "the server connected to decoy %d", i)
				}
			}
			r.Eval(fmt.Sprint(vhost, useTLS, form, h, status, method))
			r.Count("form_"+form, 1)
			if r.WantSample() && form != "plain" {
				r.Sample(wit)
			}
		}
	}
	run(g, 700)
	var wg sync.WaitGroup
	for k := 0; k < 6; k++ {
		wg.Add(1)
		gg := rand.New(rand.NewPCG(r.Seed+uint64(s), uint64(k)))
		go func() { defer wg.Done(); run(gg, 100) }()
	}
	wg.Wait()
	for h, u := range ups {
		for _, q := range u.Reqs(0) {
			r.Count("upstream_requests", 1)
			wit := M{"upstream_of": h, "line": q.Line, "headers": q.Header}
			if hh := q.All("Host"); len(hh) != 1 || !strings.EqualFold(hh[0], h) {
				r.Violate("wrong-host", wit, "the upstream of %s saw Host %q", h, hh)
			}
			if e := q.Get("X-Eff"); e != "?" && !strings.EqualFold(e, h) && q.Get("X-Form") != "host" && q.Get("X-Form") != "userinfo" {
				r.Violate("wrong-upstream", wit, "the upstream of %s received a request for %q", h, e)
			}
			if !strings.HasPrefix(q.Target, base[h]+"/") {
				r.Violate("outside-base", wit, "the upstream of %s was asked for %q, its base is %q", h, q.Target, base[h])
			}
		}
	}
	spoke.Range(func(k, _ any) bool {
		r.Violate("untrusted-tls-sent", M{"first_bytes": k}, "a request was sent to an upstream with an untrusted certificate")
		return true
	})
	checkAlive(r, p, nil)
	checkPanics(r, p, "panic")
}
