package checks

import (
	"bytes"
	"context"
	"crypto/tls"
	"fmt"
	"io"
	"math/rand/v2"
	"net"
	"net/http"
	"net/url"
	"reflect"
	"strings"
	"sync"
	"testing"
	"time"

	"verifharness/rep"
	"verifharness/srv"
)

// c17Plan is what one exchange sends and what its upstream is told to answer.
type c17Plan struct {
	id      string
	host    string
	method  string
	target  string
	hdr     [][2]string
	body    []byte
	chunked bool
	expect  bool

	status  int
	rhdr    [][2]string
	rbody   []byte
	framing string // length, chunked, close
	early   bool   // 103 before
	delay   time.Duration
}

var c17Hop = map[string]bool{"connection": true, "keep-alive": true, "proxy-connection": true, "te": true, "trailer": true, "transfer-encoding": true, "upgrade": true, "host": true, "content-length": true, "expect": true}

func c17Multi(hs [][2]string, skip map[string]bool) map[string][]string {
	m := map[string][]string{}
	for _, h := range hs {
		k := strings.ToLower(h[0])
		if !c17Hop[k] && !skip[k] {
			m[k] = append(m[k], h[1])
		}
	}
	return m
}

func c17Target(g *rand.Rand, id string) string {
	segs := []string{"a", "b.txt", "x%20y", "%41", "%2f", "%2F", "%c3%a9", "a%2fb", "..", ".", "~u", "a+b", "a&b", "a=b", "a:b", "@", "a;p=1", "$", "(x)", "*", "!", "'", ",", "%00", "%0a", "%3f", "%23", "%25", "%252e", "index.html", "", ""}
	t := ""
	for i := g.IntN(5); i >= 0; i-- {
		t += "/" + pick(g, segs)
	}
	switch g.IntN(6) {
	case 0, 1:
		t += "?" + pick(g, []string{"q=1&q=2", "", "a=%20b+c", "%zz", "x?y", "=&&=", "a[]=1", "u=http://h/p", "a=%26", "/../", "q=é", "b=2&a=1", ";", strings.Repeat("k=v&", 400)})
	case 2:
		for k := 1 + g.IntN(3); k > 0; k-- {
			t += pick(g, []string{"|", "\"", "{x}", "^", "`", "<b>", "\\", "[1]", "#frag", "#/a?", "é"})
		}
	case 3:
		if chance(g, .2) {
			t += "/" + strings.Repeat("long", 900)
		}
	}
	return t
}

// c17SameTarget compares what was sent with what arrived; bytes that are no legal part of a target may be escaped.
func c17SameTarget(sent, got string) bool {
	if sent == got {
		return true
	}
	illegal := strings.ContainsAny(sent, " |\"{}^`<>\\[]#")
	for i := 0; i < len(sent); i++ {
		illegal = illegal || sent[i] >= 0x7f
	}
	if !illegal {
		return false
	}
	sp, sq, sok := strings.Cut(sent, "?")
	gp, gq, gok := strings.Cut(got, "?")
	dec := func(s string) string {
		// with invalid escapes left as they are
		var b strings.Builder
		for i := 0; i < len(s); i++ {
			if i+3 <= len(s) && s[i] == '%' {
				if u, err := url.PathUnescape(s[i : i+3]); err == nil {
					b.WriteString(u)
					i += 2
					continue
				}
			}
			b.WriteByte(s[i])
		}
		return b.String()
	}
	return sok == gok && strings.Count(strings.ToLower(sp), "%2f") >= strings.Count(strings.ToLower(gp), "%2f") && dec(sp) == dec(gp) && (sq == gq || dec(sq) == dec(gq))
}

var c17Val = []string{"v", "a, b", "x y", "\"q\"", "k=v; p=\"1;2\"", "é", "~!@#$%^&*()", strings.Repeat("z", 3000), "1", "W/\"e\"", "Mon, 02 Jan 2006 15:04:05 GMT"}

func c17Headers(g *rand.Rand, names []string) [][2]string {
	var out [][2]string
	for i := g.IntN(8); i > 0; i-- {
		n := pick(g, names)
		if chance(g, .3) {
			n = strings.ToLower(n)
		}
		for k := pick(g, []int{1, 1, 1, 2, 3}); k > 0; k-- {
			v := pick(g, c17Val)
			if t := c17Typical[strings.ToLower(n)]; len(t) > 0 && chance(g, .5) {
				v = pick(g, t)
			}
			if chance(g, .05) && n != "Cookie" {
				v = ""
			}
			out = append(out, [2]string{n, v})
		}
	}
	g.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	return out
}

// c17Typical are the values on which a proxy could be tempted to act.
var c17Typical = map[string][]string{
	"x-accel-redirect": {"/secret", "http://127.0.0.1:1/"}, "x-sendfile": {"/etc/hostname", "/x"}, "x-original-url": {"/other?x"}, "x-rewrite-url": {"/other"}, "x-forwarded-host": {"two.test"}, "x-forwarded-uri": {"/other"}, "x-forwarded-prefix": {"/pre"}, "x-http-method-override": {"DELETE", "GET"}, "x-upstream": {"127.0.0.1:1"}, "destination": {"/to"}, "x-accel-buffering": {"no"}, "x-accel-expires": {"0", "60"}, "x-accel-limit-rate": {"1"}, "clear-site-data": {"\"*\""},
	"retry-after": {"0", "1", "Mon, 02 Jan 2006 15:04:05 GMT"}, "max-forwards": {"0", "1", "10"}, "via": {"1.1 MaguroHTTP", "1.0 a, 1.1 b"},
	"cache-control": {"no-cache", "no-store", "max-age=0", "max-age=3600, public", "private", "only-if-cached", "no-transform"}, "age": {"0", "10"},
	"if-none-match": {"*", "\"e\""}, "etag": {"\"e\"", "W/\"e\""}, "if-modified-since": {"Mon, 02 Jan 2006 15:04:05 GMT"}, "last-modified": {"Mon, 02 Jan 2006 15:04:05 GMT"},
	"range": {"bytes=0-3", "bytes=-1", "bytes=1-2,4-"}, "if-range": {"\"e\""}, "if-match": {"*", "\"e\""}, "content-range": {"bytes 0-3/10"}, "accept-ranges": {"bytes", "none"},
	"x-forwarded-for": {"10.0.0.1", "127.0.0.1, 10.0.0.1"}, "x-forwarded-proto": {"https", "http"}, "forwarded": {"for=10.0.0.1;proto=https;host=two.test"},
	"authorization": {"Basic YTpi", "Bearer x.y.z"}, "www-authenticate": {"Basic realm=\"x\"", "Negotiate"}, "origin": {"null", "http://one.test"}, "access-control-allow-origin": {"*"},
	"content-disposition": {"attachment; filename=\"a.txt\""}, "alt-svc": {"h3=\":443\"; ma=1", "clear"}, "refresh": {"0; url=/x"}, "vary": {"*", "Accept-Encoding", "Cookie"},
	"set-cookie": {"a=b; Path=/; HttpOnly; Secure; SameSite=Lax", "a=b; Domain=one.test", "a=; Max-Age=0"}, "cookie": {"a=b; c=d"}, "link": {"</s.css>; rel=preload; as=style"}, "allow": {"GET, HEAD"},
	"accept-encoding": {"gzip", "identity", "br, gzip;q=0.5"}, "content-encoding": {"identity", "gzip"}, "content-type": {"application/x-www-form-urlencoded", "multipart/form-data; boundary=x", "text/html"}, "server": {"nginx"}, "x-powered-by": {"PHP/8"}, "date": {"Mon, 02 Jan 2006 15:04:05 GMT"},
}

var c17ReqNames = []string{"Accept", "Accept-Language", "Authorization", "Cookie", "X-Multi", "X-Other", "X-Forwarded-For", "X-Forwarded-Proto", "Forwarded", "Via", "Origin", "Referer", "If-None-Match", "If-Modified-Since", "If-Match", "Range", "If-Range", "Cache-Control", "Pragma", "Dnt", "X_Under", "x.dot", "Content-Type", "Content-Encoding", "Content-MD5", "Date", "From", "Max-Forwards", "Warning", "Accept-Encoding", "X-Accel-Redirect", "X-Sendfile", "X-Original-URL", "X-Rewrite-URL", "X-Forwarded-Host", "X-Forwarded-Uri", "X-Forwarded-Prefix", "X-HTTP-Method-Override", "X-Upstream", "Destination"}
var c17RespNames = []string{"Set-Cookie", "X-Multi", "X-Other", "Vary", "Cache-Control", "ETag", "Last-Modified", "Location", "WWW-Authenticate", "Link", "Via", "Age", "Allow", "Retry-After", "Content-Language", "Content-Disposition", "Accept-Ranges", "Content-Range", "Access-Control-Allow-Origin", "X-Frame-Options", "Content-Security-Policy", "X-Content-Type-Options", "Referrer-Policy", "Server", "X-Powered-By", "Date", "Refresh", "Alt-Svc", "Warning", "P3p", "Content-Location", "X-Accel-Redirect", "X-Sendfile", "X-Accel-Buffering", "X-Accel-Expires", "X-Accel-Limit-Rate", "Surrogate-Control", "Clear-Site-Data", "X_Under", "x.dot", "X-UPPER", "x!#$&'*^`|~"}

func c17Plans(g *rand.Rand, id, host string, methods []string, h2 bool) *c17Plan {
	p := &c17Plan{id: id, host: host, method: pick(g, methods), target: c17Target(g, id), status: 200}
	if h2 {
		for strings.ContainsAny(p.target, "|\"{}^`<>\\[]#é") || strings.Contains(p.target, "%zz") {
			p.target = c17Target(g, id)
		}
	}
	p.hdr = c17Headers(g, c17ReqNames)
	if chance(g, .6) {
		p.hdr = append(p.hdr, [2]string{"User-Agent", pick(g, []string{"curl/8", "Mozilla/5.0 (X; é)", "-"})})
	}
	if chance(g, .3) {
		p.hdr = append(p.hdr, [2]string{"Accept-Encoding", pick(g, []string{"gzip", "gzip, deflate, br", "identity", "*;q=0"})})
	}
	if chance(g, .03) { // many, or long
		for i := 110 + g.IntN(150); i > 0; i-- {
			p.hdr = append(p.hdr, [2]string{fmt.Sprintf("X-N%d", i), pick(g, []string{"", "1", "long enough to count"})})
		}
	} else if chance(g, .03) {
		p.hdr = append(p.hdr, [2]string{"X-Long", strings.Repeat("0123456789abcde ", 1000+g.IntN(2000)) + "end"})
	}
	p.hdr = append(p.hdr, [2]string{"X-Id", id})
	if p.method != "GET" && p.method != "HEAD" && p.method != "TRACE" || chance(g, .1) {
		if chance(g, .8) {
			p.body = c17Body(g)
			p.chunked = chance(g, .4) && len(p.body) > 0
			p.expect = chance(g, .05) && len(p.body) > 0
		}
	}
	p.status = pick(g, []int{200, 200, 200, 200, 201, 202, 203, 204, 205, 206, 207, 226, 300, 301, 302, 303, 304, 305, 307, 308, 400, 401, 402, 403, 404, 405, 406, 409, 410, 413, 416, 418, 421, 422, 429, 451, 500, 501, 502, 503, 504, 508, 511, 599, 600, 799, 999})
	p.rhdr = c17Headers(g, c17RespNames)
	if chance(g, .03) {
		for i := 110 + g.IntN(150); i > 0; i-- {
			p.rhdr = append(p.rhdr, [2]string{fmt.Sprintf("X-N%d", i%120), pick(g, []string{"", "1", "long enough to count"})})
		}
	} else if chance(g, .03) {
		p.rhdr = append(p.rhdr, [2]string{"X-Long", strings.Repeat("0123456789abcde ", 1000+g.IntN(2000)) + "end"})
	} else if chance(g, .05) {
		for i := 5 + g.IntN(40); i > 0; i-- {
			p.rhdr = append(p.rhdr, [2]string{pick(g, []string{"Set-Cookie", "Link", "set-cookie"}), fmt.Sprintf("c%d=%d; Path=/", i, g.IntN(3))})
		}
	}
	if p.status/100 == 3 && chance(g, .8) {
		p.rhdr = append(p.rhdr, [2]string{"Location", pick(g, []string{"/elsewhere", "http://" + host + "/x", "//other/", "../up", "https://example.org/a?b#c"})})
	}
	if p.status != 204 && p.status != 304 && chance(g, .85) {
		p.rbody = c17Body(g)
	}
	if chance(g, .5) {
		p.rhdr = append(p.rhdr, [2]string{"Content-Type", pick(g, []string{"text/html; charset=utf-8", "application/json", "image/png", "x/y"})})
	}
	if chance(g, .25) {
		p.rhdr = append(p.rhdr, [2]string{"Content-Encoding", pick(g, []string{"gzip", "br", "deflate", "GZIP"})})
		if chance(g, .5) {
			p.rbody = append([]byte{0x1f, 0x8b, 8, 0, 0, 0, 0, 0, 0, 0xff, 0x4b, 0x4c, 0x4a, 0x06, 0, 0xc2, 0x41, 0x24, 0x35, 3, 0, 0, 0}, nil...)
			if p.status == 204 || p.status == 304 {
				p.rbody = nil
			}
		}
	}
	p.framing = pick(g, []string{"length", "length", "chunked", "close"})
	p.early = chance(g, .05)
	if chance(g, .1) {
		p.delay = time.Duration(g.IntN(30)) * time.Millisecond
	}
	return p
}

func c17Body(g *rand.Rand) []byte {
	n := pick(g, []int{0, 1, 2, 100, 511, 512, 513, 4095, 4096, 4097, 32767, 32768, 32769, 65536, 100000, 100000 + g.IntN(400000)})
	if chance(g, .01) {
		n = 3<<20 + g.IntN(1<<20)
	}
	if chance(g, .004) {
		n = pick(g, []int{10<<20 + 1, 33<<20 + 7, 17 << 20})
	}
	b := make([]byte, n)
	x := g.Uint32() | 1
	for i := range b {
		x = x*1664525 + 1013904223
		b[i] = byte(x >> 24)
	}
	return b
}

func chunkedBody(g *rand.Rand, b []byte) []byte {
	var o bytes.Buffer
	for len(b) > 0 {
		n := 1 + g.IntN(len(b))
		if len(b) > 50000 {
			n = 1 + g.IntN(50000)
		}
		fmt.Fprintf(&o, "%x\r\n", n)
		o.Write(b[:n])
		o.WriteString("\r\n")
		b = b[n:]
	}
	o.WriteString("0\r\n\r\n")
	return o.Bytes()
}

func TestC17(t *testing.T) {
	r := rep.New("C17", "A case is one exchange through the real proxy: generated method, origin-form target, header multiset, body and framing, answered by a raw upstream with a generated status, header multiset, body and framing; matched by a unique id. Judged: what the upstream received and what the client received equal what was sent (hop-by-hop headers and framing aside), configured proxy headers replace the upstream's. Sequential and concurrent, HTTP/1.1, TLS, HTTP/2, rule table and virtual hosts, with and without base path. Distinct = (mode, protocol, method, request body size class and framing, status, response body size class and framing).")
	r.Watchdog(120*time.Second, true)
	for s := 0; s < r.N(10, 90) && !r.Stop(); s++ {
		r.Phase(fmt.Sprint("server ", s))
		c17Server(r, r.Rng(fmt.Sprint("srv", s)), s)
	}
	r.Finish()
}

func c17Server(r *rep.R, g *rand.Rand, s int) {
	dir := rep.Scratch("c17")
	useTLS, vhost := s%4 >= 2, s%2 == 1
	webdav := chance(g, .5)
	methods := append([]string{}, httpMethods...)
	methods = without(methods, "CONNECT")
	if webdav {
		methods = append(methods, davMethods...)
	}
	var plans sync.Map
	hosts := []string{"one.test", "two.test", "base.test"}
	ups := map[string]*srv.Upstream{}
	base := map[string]string{"base.test": "/b%20se/p"}
	rules := M{}
	over := map[string]string{}
	for i := g.IntN(3); i > 0; i-- {
		over[pick(g, []string{"X-Other", "Server", "X-Frame-Options", "X-New", "Cache-Control", "X-Multi"})] = fmt.Sprint("configured ", i)
	}
	for i, h := range hosts {
		u := srv.NewUpstream(h, fmt.Sprintf("127.0.9.%d", i+1))
		defer u.Close()
		u.Respond = func(q *srv.UpReq, c net.Conn) bool { return c17Respond(&plans, q, c, u.Name) }
		ups[h] = u
		rules[h] = "http://" + u.Addr + base[h]
	}
	main := M{"Core": core(dir, M{"WebDAV": webdav})}
	if useTLS {
		c := srv.MakeCert(dir, "t", false, "localhost")
		main = srv.Merge(main, M{"Core": M{"TLS": M{"Enabled": true, "TLSCert": c.CertFile, "TLSKey": c.KeyFile}}})
	}
	var vh map[string]M
	px := func(rules M) M {
		p := M{"Enabled": true, "Rules": rules, "Methods": methods}
		if len(over) > 0 {
			p["Headers"] = over
		}
		return p
	}
	if vhost {
		vh = map[string]M{}
		for h := range rules {
			vh[h] = M{"Guard": noLimit(), "Proxy": px(M{h: rules[h]})}
		}
	} else {
		main = srv.Merge(main, M{"Guard": noLimit(), "Proxy": px(rules)})
	}
	p := launch(r, g, dir, main, vh, srv.Opt{})
	if p == nil {
		return
	}
	defer stop(p)
	skipReq := map[string]bool{}
	skipResp := map[string]bool{"strict-transport-security": useTLS}
	for k := range over {
		skipResp[strings.ToLower(k)] = true
	}
	cls := func(n int) string {
		switch {
		case n == 0:
			return "0"
		case n < 4096:
			return "s"
		case n < 100000:
			return "m"
		}
		return "l"
	}
	one := func(g *rand.Rand, c *srv.Client, h2 *http.Transport, id string) {
		pl := c17Plans(g, id, pick(g, hosts), methods, h2 != nil)
		plans.Store(id, pl)
		defer plans.Delete(id)
		proto := "h1"
		var resp *srv.Resp
		var err error
		if h2 != nil && chance(g, .25) {
			// bytes in a target that HTTP/1 could not transport
			pl.target = c17RawTarget(g, pl.target)
			c17Raw(r, p, pl, ups, base)
			return
		}
		if h2 != nil {
			proto = "h2"
			pl.hdr = dropHeader(pl.hdr, "Cookie")
			if pl.status == 205 {
				pl.rbody = nil
			}
			resp, err = c17H2(h2, p, pl)
		} else {
			raw := pl.raw(g)
			if pl.expect || g.IntN(3) == 0 && len(raw) > 100 { // one connection per request, written in pieces
				resp, err = c17Pieces(g, c, raw, pl.method)
			} else {
				resp, err = c.Do(raw, pl.method)
			}
		}
		wit := M{"id": id, "method": pl.method, "target": clip(pl.target), "host": pl.host, "headers": pl.hdr, "body": len(pl.body), "chunked": pl.chunked, "status": pl.status, "up_headers": pl.rhdr, "up_body": len(pl.rbody), "framing": pl.framing, "proto": proto}
		if err != nil {
			if proto == "h1" && strings.Contains(err.Error(), "timeout") || proto == "h2" {
				r.Violate("no-answer-"+proto, wit, "%v", err)
			} else {
				r.Violate("no-answer", wit, "%v", err)
			}
			return
		}
		wit["got_status"], wit["got_headers"] = resp.Status, resp.Header
		// the upstream's view
		var seen []*srv.UpReq
		for h, u := range ups {
			for _, q := range u.Reqs(0) {
				if q.Get("X-Id") == id {
					seen = append(seen, q)
					if h != pl.host {
						r.Violate("wrong-upstream", wit, "the request arrived at the upstream of %s", h)
					}
				}
			}
		}
		if len(seen) != 1 {
			r.Violate("forward-count", wit, "the upstream received the request %d times (client got %d)", len(seen), resp.Status)
			return
		}
		q := seen[0]
		wit["upstream_line"], wit["upstream_headers"] = clip(q.Line), q.Header
		if q.Method != pl.method {
			r.Violate("req-method", wit, "upstream saw method %s", q.Method)
		}
		if !c17SameTarget(base[pl.host]+pl.target, q.Target) {
			r.Violate("req-target", wit, "upstream saw target %q, sent %q below base %q", clip(q.Target), clip(pl.target), base[pl.host])
		}
		want, got := c17Multi(pl.hdr, skipReq), c17Multi(q.Header, skipReq)
		if len(want["user-agent"]) > 1 {
			delete(want, "user-agent")
			delete(got, "user-agent")
		}
		if proto == "h2" && want["accept-encoding"] == nil {
			delete(got, "accept-encoding")
		}
		if d := diffMulti(want, got); d != "" {
			r.Violate("req-header", wit, "request headers differ at the upstream: %s", d)
		}
		if !bytes.Equal(q.Body, pl.body) {
			r.Violate("req-body", wit, "upstream received %d body bytes, sent %d", len(q.Body), len(pl.body))
		}
		// the client's view
		if resp.Status != pl.status {
			r.Violate("status", wit, "client got %d, upstream sent %d", resp.Status, pl.status)
		}
		var rh [][2]string
		for k, vs := range resp.Header {
			for _, v := range vs {
				rh = append(rh, [2]string{k, v})
			}
		}
		want, got = c17Multi(pl.rhdr, skipResp), c17Multi(rh, skipResp)
		for _, k := range []string{"date", "content-type"} {
			if want[k] == nil {
				delete(got, k)
			}
			if pl.status == 304 && k == "content-type" {
				delete(want, k)
				delete(got, k)
			}
		}
		if d := diffMulti(want, got); d != "" {
			r.Violate("resp-header", wit, "response headers differ at the client: %s", d)
		}
		for k, v := range over {
			if vs := resp.Header.Values(k); len(vs) != 1 || vs[0] != v {
				r.Violate("configured-header", wit, "configured header %s: %q arrived as %q", k, v, vs)
			}
		}
		if resp.BodyErr != nil {
			r.Violate("resp-incomplete", wit, "response body incomplete: %v", resp.BodyErr)
		} else if pl.method != "HEAD" && !bytes.Equal(resp.Body, pl.rbody) {
			r.Violate("resp-body", wit, "client received %d body bytes, upstream sent %d", len(resp.Body), len(pl.rbody))
		} else if pl.method == "HEAD" && len(resp.Body) > 0 {
			r.Violate("head-body", wit, "a HEAD response carried %d bytes", len(resp.Body))
		}
		if pl.method == "HEAD" && pl.framing == "length" && pl.status != 204 && pl.status != 304 && resp.Header.Get("Content-Length") != fmt.Sprint(len(pl.rbody)) {
			r.Violate("head-length", wit, "HEAD reports length %q, upstream sent %d", resp.Header.Get("Content-Length"), len(pl.rbody))
		}
		r.Eval(fmt.Sprint(vhost, proto, pl.method, cls(len(pl.body)), pl.chunked, pl.status, cls(len(pl.rbody)), pl.framing))
		r.Count("exchanges_"+proto, 1)
		r.Count("header_values_compared", len(pl.hdr)+len(pl.rhdr))
		r.Count("body_bytes_compared", len(pl.body)+len(pl.rbody))
		if r.WantSample() {
			delete(wit, "got_headers")
			r.Sample(wit)
		}
	}
	c := client(p, "")
	c.Noise = false // has headers of its own
	for i := 0; i < 250 && !r.Stop(); i++ {
		one(g, c, nil, fmt.Sprintf("s%d-%d", s, i))
	}
	c.Close()
	var wg sync.WaitGroup
	var h2 *http.Transport
	if useTLS {
		h2 = &http.Transport{TLSClientConfig: &tls.Config{InsecureSkipVerify: true, NextProtos: []string{"h2"}}, ForceAttemptHTTP2: true, DisableCompression: true}
	}
	for k := 0; k < 12; k++ {
		wg.Add(1)
		gg := rand.New(rand.NewPCG(r.Seed*1000+uint64(s), uint64(k)))
		go func() {
			defer wg.Done()
			c := client(p, "")
			c.Noise = false // has headers of its own
			defer c.Close()
			for i := 0; i < 60 && !r.Stop(); i++ {
				if h2 != nil && k%2 == 0 {
					one(gg, nil, h2, fmt.Sprintf("h%d-%d-%d", s, k, i))
				} else {
					one(gg, c, nil, fmt.Sprintf("c%d-%d-%d", s, k, i))
				}
			}
		}()
	}
	wg.Wait()
	checkAlive(r, p, nil)
	checkPanics(r, p, "panic")
}

func clip(s string) string {
	if len(s) > 200 {
		return s[:200] + "..."
	}
	return s
}

func without(xs []string, x string) []string {
	var out []string
	for _, y := range xs {
		if y != x {
			out = append(out, y)
		}
	}
	return out
}

func dropHeader(hs [][2]string, name string) [][2]string {
	var out [][2]string
	for _, h := range hs {
		if !strings.EqualFold(h[0], name) {
			out = append(out, h)
		}
	}
	return out
}

func diffMulti(want, got map[string][]string) string {
	if reflect.DeepEqual(want, got) || len(want) == 0 && len(got) == 0 {
		return ""
	}
	for k, v := range want {
		if !reflect.DeepEqual(v, got[k]) {
			return fmt.Sprintf("%s: sent %s, received %s", k, clip(fmt.Sprintf("%q", v)), clip(fmt.Sprintf("%q", got[k])))
		}
	}
	for k, v := range got {
		if want[k] == nil {
			return fmt.Sprintf("%s: %q was added", k, v)
		}
	}
	return ""
}

func (pl *c17Plan) raw(g *rand.Rand) []byte {
	hdr := append([][2]string{}, pl.hdr...)
	body := pl.body
	if pl.chunked {
		hdr = append(hdr, [2]string{"Transfer-Encoding", "chunked"})
		body = chunkedBody(g, pl.body)
	}
	if pl.expect {
		hdr = append(hdr, [2]string{"Expect", "100-continue"})
	}
	host := pl.host
	if chance(g, .2) {
		host += ":8080"
	}
	return srv.Req(pl.method, pl.target, host, hdr, body)
}

// c17Pieces sends a request in several writes on a connection of its own.
func c17Pieces(g *rand.Rand, c *srv.Client, raw []byte, method string) (*srv.Resp, error) {
	cn, err := c.Dial()
	if err != nil {
		return nil, err
	}
	defer cn.Close()
	go func() {
		for k := 0; k < 4 && len(raw) > 1; k++ {
			n := 1 + g.IntN(len(raw)-1)
			if _, err := cn.Write(raw[:n]); err != nil {
				return
			}
			raw = raw[n:]
			time.Sleep(time.Duration(g.IntN(2000)) * time.Microsecond)
		}
		cn.Write(raw)
	}()
	cn.SetReadDeadline(time.Now().Add(90 * time.Second))
	return srv.ReadResp(cn, method)
}

func c17RawTarget(g *rand.Rand, t string) string {
	odd := []string{" ", "  ", " HTTP/1.1", "\"", "<", "|", "#", "\x80", "é", "\\", "{", "%", "%zz"}
	for i := 1 + g.IntN(3); i > 0; i-- {
		k := 1 + g.IntN(len(t))
		t = t[:k] + pick(g, odd) + t[k:]
	}
	if !strings.Contains(t, "?") && chance(g, .5) {
		t += "?q=" + pick(g, odd) + "&x"
	}
	return t
}

// c17Raw sends a plan as raw HTTP/2. The server may refuse a target; if it proxies the request the upstream sees one
// well-formed request of the same meaning.
func c17Raw(r *rep.R, p *srv.Proc, pl *c17Plan, ups map[string]*srv.Upstream, base map[string]string) {
	st, _, err := h2Do(p, pl.method, pl.host, pl.target, [][2]string{{"x-id", pl.id}}, pl.body)
	wit := M{"id": pl.id, "method": pl.method, "target": clip(pl.target), "host": pl.host, "status": st, "planned": pl.status}
	if err != nil && strings.Contains(err.Error(), "timeout") {
		r.Violate("no-answer-h2", wit, "%v", err)
	}
	n := 0
	for h, u := range ups {
		for _, q := range u.Reqs(0) {
			if q.Get("X-Id") != pl.id {
				continue
			}
			n++
			wit["upstream_line"] = clip(q.Line)
			if h != pl.host {
				r.Violate("wrong-upstream", wit, "the request arrived at the upstream of %s", h)
			}
			if f := strings.Split(q.Line, " "); len(f) != 3 || f[0] != pl.method || f[2] != "HTTP/1.1" {
				r.Violate("req-line", wit, "the upstream received the malformed request line %q", clip(q.Line))
			} else if !c17SameTarget(base[pl.host]+pl.target, q.Target) {
				r.Violate("req-target", wit, "upstream saw target %q, sent %q below base %q", clip(q.Target), clip(pl.target), base[pl.host])
			}
			if !bytes.Equal(q.Body, pl.body) {
				r.Violate("req-body", wit, "upstream received %d body bytes, sent %d", len(q.Body), len(pl.body))
			}
			if err == nil && st != pl.status {
				r.Violate("status", wit, "client got %d, upstream sent %d", st, pl.status)
			}
		}
	}
	if n > 1 {
		r.Violate("forward-count", wit, "the upstream received the request %d times", n)
	}
	r.Count("raw_targets", 1)
	r.Count("raw_targets_proxied", n)
	r.Eval(fmt.Sprint("raw", st, n, pl.method))
}

func c17H2(cl *http.Transport, p *srv.Proc, pl *c17Plan) (*srv.Resp, error) {
	var rd io.Reader
	if len(pl.body) > 0 {
		rd = bytes.NewReader(pl.body)
		if pl.chunked {
			rd = io.MultiReader(rd)
		}
	}
	req, err := http.NewRequest(pl.method, "https://"+p.Addr+pl.target, rd)
	if err != nil {
		return nil, err
	}
	req.Host = pl.host
	ua := false
	for _, h := range pl.hdr {
		req.Header.Add(h[0], h[1])
		ua = ua || strings.EqualFold(h[0], "user-agent")
	}
	if !ua {
		req.Header.Set("User-Agent", "")
	}
	ctx, cancel := context.WithTimeout(context.Background(), 90*time.Second)
	defer cancel()
	res, err := cl.RoundTrip(req.WithContext(ctx))
	if err != nil {
		return nil, err
	}
	defer res.Body.Close()
	b, err := io.ReadAll(res.Body)
	return &srv.Resp{Status: res.StatusCode, Header: res.Header, Body: b, BodyErr: err, Proto: res.Proto, Raw: res}, nil
}

// c17Respond answers a request the way its plan says.
func c17Respond(plans *sync.Map, q *srv.UpReq, c net.Conn, name string) bool {
	v, ok := plans.Load(q.Get("X-Id"))
	if !ok {
		fmt.Fprintf(c, "HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n")
		return true
	}
	pl := v.(*c17Plan)
	time.Sleep(pl.delay)
	var b bytes.Buffer
	if pl.early {
		b.WriteString("HTTP/1.1 103 Early Hints\r\nLink: </x>\r\n\r\n")
	}
	fmt.Fprintf(&b, "HTTP/1.1 %d Whatever\r\n", pl.status)
	for _, h := range pl.rhdr {
		fmt.Fprintf(&b, "%s: %s\r\n", h[0], h[1])
	}
	nobody := q.Method == "HEAD" || pl.status == 204 || pl.status == 304
	body := pl.rbody
	keep := true
	switch {
	case nobody:
		if pl.framing == "length" && pl.status != 204 {
			fmt.Fprintf(&b, "Content-Length: %d\r\n", len(body))
		}
		body = nil
	case pl.framing == "length":
		fmt.Fprintf(&b, "Content-Length: %d\r\n", len(body))
	case pl.framing == "chunked":
		b.WriteString("Transfer-Encoding: chunked\r\n")
		body = chunkedBody(rand.New(rand.NewPCG(uint64(len(body)), 1)), body)
	default:
		b.WriteString("Connection: close\r\n")
		keep = false
	}
	b.WriteString("\r\n")
	b.Write(body)
	c.Write(b.Bytes())
	return keep
}
