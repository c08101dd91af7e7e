package checks

import (
	"fmt"
	"io"
	"math/rand/v2"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"verifharness/rep"
	"verifharness/srv"
)

func TestC24(t *testing.T) {
	r := rep.New("C24", "A case is one start of the real server with a generated configuration: a valid one (serve, download, proxy, firewall, virtual hosts, TLS, metrics, WebDAV in random combination) with one requirement broken (in the main file or in a virtual host's file), which must end with an error and never answer; or the same valid configuration written as JSON, as HCL and in several orders, whose answers to a fixed set of requests must not differ; or one with options left out, which must show the defaults. Distinct = (base, fault, place, syntax) or (base, request).")
	r.Watchdog(150*time.Second, false)
	bases := 0
	var wg sync.WaitGroup
	sem := make(chan struct{}, 6)
	par := func(f func()) {
		wg.Add(1)
		sem <- struct{}{}
		go func() { defer func() { <-sem; wg.Done(); r.Beat() }(); f() }()
	}
	rounds := r.N(3, 20)
	for round := 0; round < rounds && !r.Stop(); round++ {
		for i := range c24Faults {
			f := &c24Faults[i]
			for _, k := range f.kinds {
				bases++
				g := r.Rng(fmt.Sprint("bad", round, f.name, k))
				par(func() { c24Bad(r, g, f, k, round) })
			}
		}
	}
	for s := 0; s < r.N(56, 400) && !r.Stop(); s++ {
		g := r.Rng(fmt.Sprint("same", s))
		par(func() { c24Same(r, g, s) })
	}
	for s := 0; s < r.N(4, 12) && !r.Stop(); s++ {
		g := r.Rng(fmt.Sprint("def", s))
		par(func() { c24Defaults(r, g, s) })
	}
	for s := 0; s < r.N(8, 48) && !r.Stop(); s++ {
		g := r.Rng(fmt.Sprint("cut", s))
		par(func() { c24Cuts(r, g, s) })
	}
	par(func() { c24Port(r, r.Rng("port")) })
	for s := 0; s < r.N(6, 24) && !r.Stop(); s++ {
		g := r.Rng(fmt.Sprint("addr", s))
		par(func() { c24Address(r, g, s) })
	}
	wg.Wait()
	c24Root(r)
	r.Finish()
}

// c24Conf is a valid configuration: main file plus virtual host files by host.
type c24Conf struct {
	dir  string
	main M
	vh   map[string]M
	raw  map[string]string // file name -> replaced content
	env  []string
}

var c24Methods = []string{"GET", "HEAD", "POST", "PUT", "DELETE", "PATCH", "OPTIONS"}

func c24Site(g *rand.Rand, dir, host, kind, up string, dav bool) M {
	c := M{"Guard": noLimit()}
	hd := M{}
	for k, v := range randHeaders(g, "h"+host) {
		hd[k] = v
	}
	if chance(g, .4) {
		hd["X-Special"] = pick(g, []string{`a "quoted" b`, `back\slash`, "tab\tx", "ünï", "# no comment", "{brace}", "a=b // c", "$x", "%20", "/* c */"})
	}
	switch kind {
	case "proxy":
		p := M{"Enabled": true, "Rules": map[string]string{host: "http://" + up}, "Methods": []string{"GET", "HEAD", "POST"}[:1+g.IntN(3)]}
		if len(hd) > 0 {
			p["Headers"] = hd
		}
		if chance(g, .3) { // left over settings of another kind
			c["Serve"] = pick(g, []M{{"ServeDir": dir + "/www", "ServeIndex": "index.html"}, {"Methods": M{"/": "GET"}}, {"Download": M{"Enabled": true, "Exts": []string{".txt"}}}, {"ServeDir": "", "ServeIndex": "", "Methods": M{"/a": "POST"}}})
		}
		c["Proxy"] = p
	case "download":
		s := M{"ServeDir": dir + "/www" + pick(g, []string{"", "/"}), "ServeIndex": "index.html", "Download": M{"Enabled": true, "Exts": []string{".txt", ".bin"}[:1+g.IntN(2)]}}
		if len(hd) > 0 {
			s["Headers"] = hd
		}
		c["Serve"] = s
	default:
		ms := M{}
		for _, p := range []string{"/", "/a", "/a/", "/x.html", "/sub/deep/", "/é"} {
			if p != "/" && chance(g, .5) {
				continue
			}
			n := 1 + g.IntN(3)
			var l []string
			for i := 0; i < n; i++ {
				l = append(l, pick(g, c24Methods))
			}
			if dav && chance(g, .5) {
				l = append(l, "PROPFIND")
			}
			ms[p] = strings.Join(l, ";")
		}
		s := M{"ServeDir": dir + "/www" + pick(g, []string{"", "/"}), "ServeIndex": "index.html", "Methods": ms}
		if len(hd) > 0 {
			s["Headers"] = hd
		}
		if chance(g, .5) {
			mt := M{}
			if chance(g, .6) {
				mt["ResponseTypes"] = M{".txt": "text/x-" + host, ".html": "text/html; charset=ascii"}
			}
			if chance(g, .6) {
				rt := M{}
				for p := range ms {
					if chance(g, .5) {
						rt[p] = pick(g, []string{"text/plain", "text/plain;application/json", ";", "*", "a/b;"})
					}
				}
				if len(rt) > 0 {
					mt["RequestTypes"] = rt
				}
			}
			if len(mt) > 0 {
				s["MIMETypes"] = mt
			}
		}
		c["Serve"] = s
	}
	if chance(g, .4) {
		rules := M{}
		for _, p := range []string{"/", "/a", "/x.html", "/sub"} {
			if chance(g, .4) {
				rules[p] = []string{pick(g, []string{"127.0.0.1", "127.0.0.2", "*"})}
			}
		}
		if len(rules) > 0 {
			c["Guard"] = srv.Merge(noLimit(), M{"Firewall": M{"Enabled": true, "Blacklisting": chance(g, .7), "Subpath": chance(g, .5), "Rules": rules}})
		}
	}
	if chance(g, .4) {
		e := M{}
		for _, code := range []string{"403", "404", "405", "406", "502"} {
			if chance(g, .5) {
				f := dir + "/err-" + host + code
				os.WriteFile(f, []byte("custom "+code+host), 0o644)
				e[code] = f
			}
		}
		if len(e) > 0 {
			c["Errors"] = e
		}
	}
	return c
}

func c24Tree(dir string) {
	for _, p := range []string{"index.html", "a/index.html", "a/f.txt", "x.html", "sub/deep/f.bin", "é"} {
		f := put(dir+"/www", p, "FILE "+p)
		os.Chtimes(f, time.Unix(1e9, 0), time.Unix(1e9, 0))
	}
}

// c24Base makes a valid configuration of a kind: serve, download, proxy or vhosts.
func c24Base(g *rand.Rand, kind, up string) *c24Conf {
	dir := rep.Scratch("c24")
	os.MkdirAll(dir+"/files", 0o755)
	c24Tree(dir)
	c := &c24Conf{dir: dir, raw: map[string]string{}}
	dav := chance(g, .3)
	cr := core(dir, M{"LogOut": pick(g, []string{"stdout", dir + "/log.txt"}), "LogLevel": g.IntN(3)})
	if dav {
		cr["WebDAV"] = true
	}
	if chance(g, .3) {
		cert := srv.MakeCert(dir, "t", false, "localhost")
		cr["TLS"] = M{"Enabled": true, "TLSCert": cert.CertFile, "TLSKey": cert.KeyFile, "HSTS": M{"MaxAge": 77, "Preload": chance(g, .5)}}
	} else if chance(g, .3) {
		cr["TLS"] = M{"Enabled": false, "TLSCert": "/none"}
	}
	if chance(g, .4) {
		cr["Metrics"] = M{"Enabled": true, "Path": "/metrics", "Out": dir + "/metrics.json", "Users": M{"admin": "pw", "b": "c"}}
	}
	if chance(g, .3) {
		cr["FileDir"] = dir + "/files"
	}
	if kind == "vhosts" {
		c.vh = map[string]M{}
		for i, h := range []string{"a.test", "b.test", "c.test", "d.test"} {
			k := []string{"serve", "download", "proxy", "serve"}[i]
			c.vh[h] = c24Site(g, dir, h, k, up, dav)
		}
		c.main = M{"Core": cr}
		if chance(g, .3) { // not looked at with virtual hosting
			c.main["Serve"] = M{"ServeDir": "", "Methods": M{"/": "GET"}}
		}
		return c
	}
	c.main = srv.Merge(M{"Core": cr}, c24Site(g, dir, "a.test", kind, up, dav))
	return c
}

type c24Fault struct {
	name  string
	kinds []string // bases; "v-serve" etc. puts the fault into a virtual host's file
	apply func(g *rand.Rand, c *c24Conf, at M)
}

var c24Any = []string{"serve", "download", "proxy", "vhosts"}

func coreOf(c *c24Conf) M { return c.main["Core"].(M) }

func setIn(m M, k, f string, v any) {
	x, _ := m[k].(M)
	if x == nil {
		x = M{}
	}
	y := M{}
	for a, b := range x {
		y[a] = b
	}
	if v == nil {
		delete(y, f)
	} else {
		y[f] = v
	}
	m[k] = y
}

var c24Faults = []c24Fault{
	{"port-empty", c24Any, func(g *rand.Rand, c *c24Conf, at M) { coreOf(c)["Port"] = "" }},
	{"logout-missing", c24Any, func(g *rand.Rand, c *c24Conf, at M) { delete(coreOf(c), "LogOut") }},
	{"logout-empty", c24Any, func(g *rand.Rand, c *c24Conf, at M) { coreOf(c)["LogOut"] = "" }},
	{"logout-nowhere", c24Any, func(g *rand.Rand, c *c24Conf, at M) { coreOf(c)["LogOut"] = c.dir + "/none/log.txt" }},
	{"filedir-empty", c24Any, func(g *rand.Rand, c *c24Conf, at M) { coreOf(c)["FileDir"] = "" }},
	{"loglevel-negative", c24Any, func(g *rand.Rand, c *c24Conf, at M) { coreOf(c)["LogLevel"] = -1 - g.IntN(3) }},
	{"tls-no-cert", c24Any, func(g *rand.Rand, c *c24Conf, at M) {
		coreOf(c)["TLS"] = M{"Enabled": true, "TLSKey": c.dir + "/t.key"}
	}},
	{"tls-no-key", c24Any, func(g *rand.Rand, c *c24Conf, at M) {
		coreOf(c)["TLS"] = M{"Enabled": true, "TLSCert": c.dir + "/t.cert"}
	}},
	{"tls-nothing", c24Any, func(g *rand.Rand, c *c24Conf, at M) { coreOf(c)["TLS"] = M{"Enabled": true} }},
	{"tls-empty", c24Any, func(g *rand.Rand, c *c24Conf, at M) {
		coreOf(c)["TLS"] = M{"Enabled": true, "TLSCert": "", "TLSKey": ""}
	}},
	{"autocert-no-names", []string{"serve", "vhosts"}, func(g *rand.Rand, c *c24Conf, at M) {
		coreOf(c)["TLS"] = M{"Enabled": true, "AutoCert": M{"Enabled": true, "Certificates": []string{}}}
	}},
	{"autocert-port", []string{"serve", "vhosts"}, func(g *rand.Rand, c *c24Conf, at M) {
		coreOf(c)["TLS"] = M{"Enabled": true, "AutoCert": M{"Enabled": true, "Certificates": []string{"a.test"}}}
	}},
	{"vhosting-without-hosts", []string{"serve", "download", "proxy"}, func(g *rand.Rand, c *c24Conf, at M) {
		coreOf(c)["VirtualHosting"] = true
		if chance(g, .5) {
			coreOf(c)["VirtualHosts"] = M{}
		}
	}},
	{"vhost-file-empty-name", []string{"vhosts"}, func(g *rand.Rand, c *c24Conf, at M) { c.raw["@ref"] = "" }},
	{"vhost-file-missing", []string{"vhosts"}, func(g *rand.Rand, c *c24Conf, at M) { c.raw["@ref"] = c.dir + "/none.cfg" }},
	{"vhost-file-directory", []string{"vhosts"}, func(g *rand.Rand, c *c24Conf, at M) { c.raw["@ref"] = c.dir + "/www" }},
	{"vhost-file-garbage", []string{"vhosts"}, func(g *rand.Rand, c *c24Conf, at M) {
		c.raw["@vhost"] = pick(g, []string{"{", "Serve {", "]", "Serve = = 1", "Guard { Rate = \"x\" }", "\x00\x01"})
	}},
	{"main-garbage", c24Any, func(g *rand.Rand, c *c24Conf, at M) {
		c.raw["@main"] = pick(g, []string{"{", "Core {", "]", "Core = = 1", "Core { LogLevel = \"x\" }", "\x00\x01", "{\"Core\":{\"Port\":{}}}"})
	}},
	{"main-truncated", c24Any, func(g *rand.Rand, c *c24Conf, at M) { c.raw["@cut"] = "1" }},
	{"main-missing", c24Any, func(g *rand.Rand, c *c24Conf, at M) { c.raw["@none"] = "1" }},
	{"main-directory", []string{"serve"}, func(g *rand.Rand, c *c24Conf, at M) { c.raw["@dir"] = "1" }},
	{"main-empty", []string{"serve"}, func(g *rand.Rand, c *c24Conf, at M) { c.raw["@main"] = "" }},
	{"nested-vhosting", []string{"v-serve", "v-download", "v-proxy"}, func(g *rand.Rand, c *c24Conf, at M) {
		at["Core"] = M{"VirtualHosting": true, "VirtualHosts": map[string]string{"n.test": c.dir + "/n.cfg"}}
	}},
	{"proxy-no-rules", []string{"serve", "download", "proxy", "v-serve", "v-download", "v-proxy"}, func(g *rand.Rand, c *c24Conf, at M) {
		p := M{"Enabled": true, "Methods": []string{"GET"}}
		if chance(g, .5) {
			p["Rules"] = M{}
		}
		at["Proxy"] = p
	}},
	{"no-servedir", []string{"serve", "download", "v-serve", "v-download"}, func(g *rand.Rand, c *c24Conf, at M) { setIn(at, "Serve", "ServeDir", nil) }},
	{"empty-servedir", []string{"serve", "download", "v-serve", "v-download"}, func(g *rand.Rand, c *c24Conf, at M) { setIn(at, "Serve", "ServeDir", "") }},
	{"no-serveindex", []string{"serve", "download", "v-serve", "v-download"}, func(g *rand.Rand, c *c24Conf, at M) { setIn(at, "Serve", "ServeIndex", nil) }},
	{"empty-serveindex", []string{"serve", "download", "v-serve", "v-download"}, func(g *rand.Rand, c *c24Conf, at M) { setIn(at, "Serve", "ServeIndex", "") }},
	{"no-servedir-no-index", []string{"serve", "download", "v-serve", "v-download"}, func(g *rand.Rand, c *c24Conf, at M) {
		setIn(at, "Serve", "ServeDir", nil)
		setIn(at, "Serve", "ServeIndex", nil)
	}},
	{"bad-method", []string{"serve", "v-serve"}, func(g *rand.Rand, c *c24Conf, at M) {
		delete(coreOf(c), "WebDAV")
		setIn(at, "Serve", "Methods", M{"/": pick(g, []string{"BREW", "get", "GET;BREW", "GET;get;HEAD", "TRACE", "PROPFIND", "GET;LOCK", " GET", "GET HEAD", "GET,HEAD", "GET; HEAD", "*"})})
	}},
	{"empty-method", []string{"serve", "v-serve"}, func(g *rand.Rand, c *c24Conf, at M) {
		setIn(at, "Serve", "Methods", M{"/": pick(g, []string{"", ";", "GET;", ";GET", "GET;;HEAD"})})
	}},
	{"bad-method-dav", []string{"serve", "v-serve"}, func(g *rand.Rand, c *c24Conf, at M) {
		coreOf(c)["WebDAV"] = true
		setIn(at, "Serve", "Methods", M{"/": pick(g, []string{"PROPFIND;BREW", "propfind", "SEARCH", "REPORT"})})
	}},
	{"bad-proxy-method", []string{"proxy", "v-proxy"}, func(g *rand.Rand, c *c24Conf, at M) {
		delete(coreOf(c), "WebDAV")
		setIn(at, "Proxy", "Methods", pick(g, [][]string{{"BREW"}, {"GET", "brew"}, {"GET;HEAD"}, {"PROPFIND"}, {""}}))
	}},
}

// c24Write stores the files and returns the main file.
func (c *c24Conf) write(g *rand.Rand, syntax string, port int, victim string) string {
	hcl := func() bool { return syntax == "hcl" || syntax == "mix" && chance(g, .5) }
	main := srv.Merge(c.main, M{})
	cr := srv.Merge(c.main["Core"].(M), M{})
	if _, ok := cr["Port"]; !ok {
		cr["Port"] = fmt.Sprint(port)
	}
	if c.vh != nil {
		refs := map[string]string{}
		for h, v := range c.vh {
			f := srv.WriteConfig(c.dir+"/v-"+h+".cfg", v, hcl(), g)
			if h == victim {
				if x, ok := c.raw["@vhost"]; ok {
					os.WriteFile(f, []byte(x), 0o644)
				}
				if x, ok := c.raw["@ref"]; ok {
					f = x
				}
			}
			refs[h] = f
		}
		cr["VirtualHosting"], cr["VirtualHosts"] = true, refs
	}
	main["Core"] = cr
	f := srv.WriteConfig(c.dir+"/main.cfg", main, hcl(), g)
	if x, ok := c.raw["@main"]; ok {
		os.WriteFile(f, []byte(x), 0o644)
	}
	if _, ok := c.raw["@cut"]; ok {
		b, _ := os.ReadFile(f)
		for n := len(b) - 3 - g.IntN(len(b)/2); n > 0; n-- { // inside a block
			if strings.Count(string(b[:n]), "{") > strings.Count(string(b[:n]), "}") {
				os.WriteFile(f, b[:n], 0o644)
				break
			}
		}
	}
	if _, ok := c.raw["@none"]; ok {
		os.Remove(f)
	}
	if _, ok := c.raw["@dir"]; ok {
		return c.dir + "/www"
	}
	return f
}

func c24Bad(r *rep.R, g *rand.Rand, f *c24Fault, kind string, round int) {
	up := "127.0.0.1:9"
	base := kind
	if strings.HasPrefix(kind, "v-") {
		base = "vhosts"
	}
	c := c24Base(g, base, up)
	at, victim := c.main, ""
	if base == "vhosts" {
		victim = map[string]string{"v-serve": pick(g, []string{"a.test", "d.test"}), "v-download": "b.test", "v-proxy": "c.test"}[kind]
		if victim == "" {
			victim = pick(g, []string{"a.test", "b.test", "c.test"})
		}
		at = c.vh[victim]
	}
	f.apply(g, c, at)
	if kind != "vhosts" && base == "vhosts" {
		c.vh[victim] = at
	}
	syntax := []string{"json", "hcl", "mix"}[round%3]
	port := srv.FreePort()
	cfg := c.write(g, syntax, port, victim)
	if f.name == "port-empty" { // an empty port would mean any port
		port = 0
	}
	p, err := srv.Launch(srv.Opt{Dir: c.dir, Config: cfg, Port: port, NoWait: true})
	if err != nil {
		r.Inconclusive("cannot start: %v", err)
		return
	}
	defer p.Kill()
	wit := M{"fault": f.name, "base": kind, "syntax": syntax, "config": clip(srv.ReadFileString(cfg))}
	if victim != "" {
		wit["vhost_config"] = clip(srv.ReadFileString(c.dir + "/v-" + victim + ".cfg"))
	}
	deadline := time.Now().Add(60 * time.Second)
	for !p.WaitExit(3 * time.Millisecond) {
		up := false
		if port != 0 {
			if cn, err := net.DialTimeout("tcp", p.Addr, time.Second); err == nil {
				cn.Close()
				up = true
			}
		} else {
			up = strings.Contains(p.Out.String()+srv.ReadFileString(c.dir+"/log.txt"), "listening")
		}
		if up {
			r.Violate("accepted-"+f.name, wit, "the server starts and listens with an invalid configuration: %s (%s)", f.name, kind)
			r.Eval("accepted " + f.name + kind)
			return
		}
		if time.Now().After(deadline) {
			r.Violate("hangs-"+f.name, wit, "with an invalid configuration (%s) the process neither ends nor serves", f.name)
			return
		}
	}
	if p.Cmd.ProcessState.Success() {
		r.Violate("status-"+f.name, wit, "with an invalid configuration (%s) the process ends with success", f.name)
	}
	r.Eval(fmt.Sprint(f.name, kind, syntax))
	r.Count("refused", 1)
	if r.WantSample() {
		r.Sample(M{"fault": f.name, "base": kind, "syntax": syntax, "output": clip(p.Out.String())})
	}
}

// c24Cuts starts with a configuration file that ends too early, at many places.
func c24Cuts(r *rep.R, g *rand.Rand, s int) {
	kind := []string{"serve", "vhosts", "proxy", "vhosts"}[s%4]
	syntax := []string{"json", "hcl"}[s/4%2]
	c := c24Base(g, kind, "127.0.0.1:9")
	victim := ""
	if kind == "vhosts" {
		victim = pick(g, []string{"a.test", "b.test", "c.test"})
	}
	port := srv.FreePort()
	cfg := c.write(g, syntax, port, victim)
	file := cfg
	if s%4 == 3 { // the file of a virtual host
		file = c.dir + "/v-" + victim + ".cfg"
	}
	whole := srv.ReadFileString(file)
	var inside []int // lengths that leave something open
	depth, quoted := 0, false
	for i := 0; i < len(whole); i++ {
		if depth > 0 || quoted {
			inside = append(inside, i)
		}
		switch ch := whole[i]; {
		case quoted && ch == '\\':
			i++
		case ch == '"':
			quoted = !quoted
		case quoted:
		case ch == '{' || ch == '[':
			depth++
		case ch == '}' || ch == ']':
			depth--
		}
	}
	n := r.N(24, 200)
	for k := 0; k < n && len(inside) > 0 && !r.Stop(); k++ {
		at := inside[g.IntN(len(inside))]
		switch {
		case k < 3:
			at = inside[len(inside)-1-k*2] // only the end is missing
		case k%2 == 0: // behind something complete
			for i := 0; i < 200; i++ {
				if x := inside[g.IntN(len(inside))]; x > 0 && strings.IndexByte("}],\"0123456789e\n", whole[x-1]) >= 0 {
					at = x
					break
				}
			}
		}
		os.WriteFile(file, []byte(whole[:at]), 0o644)
		p, err := srv.Launch(srv.Opt{Dir: c.dir, Config: cfg, Port: port, NoWait: true})
		if err != nil {
			r.Inconclusive("cannot start: %v", err)
			return
		}
		wit := M{"file": filepath.Base(file), "length": at, "whole_length": len(whole), "syntax": syntax, "content": clip(whole[:at])}
		deadline, ended := time.Now().Add(60*time.Second), true
		for !p.WaitExit(3 * time.Millisecond) {
			if strings.Contains(p.Out.String()+srv.ReadFileString(c.dir+"/log.txt"), "listening") || time.Now().After(deadline) {
				r.Violate("accepted-cut", wit, "the server does not end with a configuration file that breaks off at byte %d of %d (%s, %s)", at, len(whole), kind, syntax)
				ended = false
				break
			}
		}
		if ended && p.Cmd.ProcessState.Success() {
			r.Violate("status-cut", wit, "with a configuration file that breaks off the process ends with success")
		}
		p.Kill()
		r.Eval(fmt.Sprint("cut", s, at))
		r.Count("broken_off_"+syntax, 1)
		r.Beat()
		if !ended {
			return
		}
	}
}

// c24Same compares the behaviour of one configuration in several spellings.
func c24Same(r *rep.R, g *rand.Rand, s int) {
	up := srv.NewUpstream("u", "")
	defer up.Close()
	up.Respond = func(q *srv.UpReq, c net.Conn) bool {
		b := "up " + q.Line
		if q.Method == "HEAD" {
			b = ""
		}
		fmt.Fprintf(c, "HTTP/1.1 200 OK\r\nX-Up: 1\r\nContent-Length: %d\r\n\r\n%s", len(b), b)
		return true
	}
	kind := []string{"vhosts", "serve", "vhosts", "download", "vhosts", "proxy", "serve"}[s%7]
	c := c24Base(g, kind, up.Addr)
	type probe struct{ method, host, path, ctype, local string }
	var probes []probe
	for i := 0; i < 70; i++ {
		m := pick(g, []string{"GET", "GET", "GET", "HEAD", "POST", "PUT", "DELETE", "PROPFIND", "OPTIONS", "BREW"})
		probes = append(probes, probe{m, pick(g, []string{"a.test", "b.test", "c.test", "d.test", "x.test", "a.test:80"}), pick(g, []string{"/", "/a", "/a/", "/a/f.txt", "/x.html", "/x", "/sub/deep/f.bin", "/sub", "/%c3%a9", "/metrics", "/none/none", "/a/none"}), pick(g, []string{"", "", "text/plain", "application/json", "a/b", "text/plain; charset=x"}), pick(g, []string{"", "", "127.0.0.2", "127.0.0.3"})})
	}
	var first []string
	var firstName string
	names := []string{"json", "hcl", "hcl", "mix", "hcl"}
	for k, syntax := range names {
		var p *srv.Proc
		var err error
		for try := 0; try < 4; try++ {
			port := srv.FreePort()
			delete(c.main["Core"].(M), "Port")
			p, err = srv.Launch(srv.Opt{Dir: c.dir, Config: c.write(g, syntax, port, ""), Port: port})
			if err == nil || p == nil || !strings.Contains(p.Out.String(), "address already in use") {
				break
			}
		}
		wit := M{"kind": kind, "syntax": syntax, "main": clip(srv.ReadFileString(c.dir + "/main.cfg")), "a.test": clip(srv.ReadFileString(c.dir + "/v-a.test.cfg"))}
		if err != nil {
			if p == nil || strings.Contains(p.Out.String(), "address already in use") {
				r.Inconclusive("%v", err)
			} else {
				r.Violate("valid-refused", wit, "a valid configuration (%s, %s) does not start: %v", kind, syntax, err)
			}
			return
		}
		if t, _ := c.main["Core"].(M)["TLS"].(M); t != nil && t["Enabled"] == true {
			p.TLS = true
		}
		var sig []string
		cls := map[string]*srv.Client{}
		for _, q := range probes {
			cl := cls[q.local]
			if cl == nil {
				cl = client(p, q.local)
				cls[q.local] = cl
			}
			var h [][2]string
			if q.ctype != "" {
				h = append(h, [2]string{"Content-Type", q.ctype})
			}
			resp, err := cl.Do(srv.Req(q.method, q.path, q.host, h, nil), q.method)
			if err != nil {
				r.Violate("no-answer", M{"case": wit, "probe": q}, "%v", err)
				break
			}
			o := fmt.Sprint(resp.Status, " ", string(resp.Body), " ")
			var hs []string
			for k, v := range resp.Header {
				if k != "Date" {
					hs = append(hs, fmt.Sprint(k, v))
				}
			}
			sort.Strings(hs)
			sig = append(sig, o+strings.Join(hs, "|"))
			r.Eval(fmt.Sprint("same", s, q, resp.Status))
		}
		for _, cl := range cls {
			cl.Close()
		}
		p.Kill()
		r.Count("valid_starts_"+syntax, 1)
		if first == nil {
			first, firstName = sig, syntax
			continue
		}
		for i := range sig {
			if i < len(first) && sig[i] != first[i] {
				wit["probe"], wit["one"], wit["other"] = fmt.Sprintf("%+v", probes[i]), clip(first[i]), clip(sig[i])
				r.Violate("differs", wit, "the same configuration answers %s %s%s differently written as %s and as %s (%d)", probes[i].method, probes[i].host, probes[i].path, firstName, syntax, k)
				return
			}
		}
		r.Count("renderings_compared", 1)
	}
}

// c24Defaults starts with options left out.
func c24Defaults(r *rep.R, g *rand.Rand, s int) {
	dir := rep.Scratch("c24d")
	c24Tree(dir)
	os.MkdirAll(dir+"/files", 0o755)
	site := M{"Serve": M{"ServeDir": dir + "/www", "ServeIndex": "index.html", "Methods": M{"/": "GET"}}}
	switch s % 4 {
	case 1:
		site["Guard"] = M{"Rate": 600}
	case 2:
		site["Guard"] = M{"RateBurst": 7}
	case 3:
		site["Guard"] = M{"FilterOnIP": true}
	}
	rate, burst := 100.0, 50
	if s%4 == 1 {
		rate = 600
	}
	if s%4 == 2 {
		burst = 7
	}
	cfg := M{"Core": M{"Address": "127.0.0.1", "FileDir": dir + "/files/", "LogOut": dir + "/log.txt"}}
	var vh map[string]M
	if chance(g, .5) {
		vh = map[string]M{"a.test": site}
	} else {
		cfg = srv.Merge(cfg, site)
	}
	p := launch(r, g, dir, cfg, vh, srv.Opt{})
	if p == nil {
		return
	}
	defer p.Kill()
	c := client(p, "")
	wit := M{"guard": site["Guard"], "vhosts": vh != nil}
	t0 := time.Now()
	ok, n := 0, burst+60
	for i := 0; i < n; i++ {
		resp, err := c.Get("/", "a.test")
		if err != nil {
			r.Violate("no-answer", wit, "%v", err)
			return
		}
		switch resp.Status {
		case 200:
			ok++
		case 429:
		default:
			r.Violate("default-status", wit, "status %d", resp.Status)
			return
		}
		if resp.Header.Get("Strict-Transport-Security") != "" {
			r.Violate("default-hsts", wit, "HSTS without TLS")
		}
		r.Eval(fmt.Sprint("default", s%4, i, resp.Status))
	}
	most := float64(burst) + time.Since(t0).Seconds()*rate/60 + 1
	if ok < burst || float64(ok) > most {
		r.Violate("default-limit", wit, "with the default rate limit %d of %d requests within %v passed, expected %d to %.1f", ok, n, time.Since(t0), burst, most)
	}
	// what the bucket gets back
	t1 := time.Now()
	time.Sleep(2500 * time.Millisecond)
	back := 0
	for i := 0; i < 60; i++ {
		resp, err := c.Get("/", "a.test")
		if err != nil {
			r.Violate("no-answer", wit, "%v", err)
			return
		}
		if resp.Status == 200 {
			back++
		}
	}
	if least, most := 2.5*rate/60-1, time.Since(t1).Seconds()*rate/60+2; float64(back) < least && float64(back) < float64(burst)-1 || float64(back) > most {
		r.Violate("default-rate", wit, "%v after the limit was reached %d requests passed, expected %.1f to %.1f", time.Since(t1), back, least, most)
	}
	if resp, err := c.Get("/metrics", "x.test"); err == nil && resp.Status == 200 && vh != nil {
		r.Violate("default-metrics", wit, "metrics are on by default")
	}
	if lg := srv.ReadFileString(dir + "/log.txt"); strings.Contains(lg, "request=") {
		r.Violate("default-log", wit, "requests are logged at the default level: %s", clip(lg))
	}
	r.Count("default_runs", 1)
	stop(p)
}

// c24Port starts without a port: it is 80.
func c24Port(r *rep.R, g *rand.Rand) {
	dir := rep.Scratch("c24p")
	c24Tree(dir)
	os.MkdirAll(dir+"/files", 0o755)
	for try := 0; try < 3; try++ {
		host := fmt.Sprintf("127.%d.%d.%d", 60+g.IntN(150), g.IntN(256), 1+g.IntN(250))
		cfg := M{"Core": M{"Address": host, "FileDir": dir + "/files/", "LogOut": "stdout"}, "Serve": M{"ServeDir": dir + "/www", "ServeIndex": "index.html", "Methods": M{"/": "GET"}}}
		p, err := srv.Launch(srv.Opt{Dir: dir, Config: srv.WriteConfig(dir+"/main.cfg", cfg, chance(g, .5), g), Port: 80, Host: host})
		if p == nil {
			r.Inconclusive("start: %v", err)
			return
		}
		out := p.Out.String()
		if err != nil && (strings.Contains(out, "permission denied") || strings.Contains(out, "in use")) {
			r.Note("port 80 is not available here, the default port is not exercised")
			continue
		}
		if err != nil {
			r.Violate("default-port", M{"config": cfg, "output": tailS(out, 1500)}, "without a port the server does not listen on port 80: %v", err)
			p.Kill()
			return
		}
		if resp, err := client(p, "").Get("/", "x"); err != nil || resp.Status != 200 {
			r.Violate("default-port", M{"config": cfg, "output": tailS(out, 1500)}, "no answer on port 80: %v", err)
		}
		r.Eval("default port")
		r.Count("default_port", 1)
		stop(p)
		return
	}
}

// c24Address starts with an address: the server listens there and nowhere else.
func c24Address(r *rep.R, g *rand.Rand, s int) {
	dir := rep.Scratch("c24a")
	c24Tree(dir)
	addr := []string{"127.0.0.1", "", "127.0.3.4", "0.0.0.0", "[::1]", "localhost"}[s%6]
	host := strings.Trim(addr, "[]")
	if addr == "" || addr == "0.0.0.0" {
		host = "127.0.0.1"
	}
	cfg := M{"Core": core(dir, M{"Address": addr}), "Guard": noLimit(), "Serve": M{"ServeDir": dir + "/www", "ServeIndex": "index.html", "Methods": M{"/": "GET"}}}
	p := launch(r, g, dir, cfg, nil, srv.Opt{Host: host})
	if p == nil {
		return
	}
	defer stop(p)
	wit := M{"config": srv.JSON(cfg), "port": p.Port}
	resp, err := client(p, "").Get("/", "x")
	if err != nil || resp.Status != 200 {
		r.Violate("address", wit, "no answer on the configured address: %v", err)
		return
	}
	own, ok := listening(p.Cmd.Process.Pid)
	if !ok {
		r.Note("the sockets of the server cannot be listed")
		return
	}
	wit["listening"] = own
	for _, a := range own {
		h, pt, _ := net.SplitHostPort(a)
		fits := h == host || addr == "localhost" && (h == "127.0.0.1" || h == "::1") || host != addr && addr != "[::1]"
		r.Eval(fmt.Sprint("address ", addr, h))
		if pt != fmt.Sprint(p.Port) || !fits {
			r.Violate("listens-elsewhere", wit, "configured for %q, port %d, the server listens on %s", addr, p.Port, a)
		}
	}
	r.Count("addresses", 1)
}

// c24Root: the file directory "/" must be refused; run where "/" is a scratch directory.
func c24Root(r *rep.R) {
	dir := rep.Scratch("c24root")
	cmd := exec.Command("go", "build", "-o", dir+"/server", ".")
	cmd.Dir = "/repo"
	cmd.Env = append(os.Environ(), "CGO_ENABLED=0")
	if out, err := cmd.CombinedOutput(); err != nil {
		r.Inconclusive("static build: %v %s", err, out)
		return
	}
	put(dir, "www/index.html", "index")
	os.Mkdir(dir+"/tmp", 0o777)
	for _, v := range []struct {
		fileDir string
		ok      bool
	}{{"/files/", true}, {"/", false}, {"", false}, {"unset", true}} {
		port := srv.FreePort()
		cfg := M{"Core": M{"Address": "127.0.0.1", "Port": fmt.Sprint(port), "LogOut": "stdout", "FileDir": v.fileDir}, "Serve": M{"ServeDir": "/www", "ServeIndex": "index.html", "Methods": M{"/": "GET"}}}
		if v.fileDir == "unset" {
			delete(cfg["Core"].(M), "FileDir")
			os.MkdirAll(dir+"/usr/lib/magurohttp", 0o755)
		}
		srv.WriteConfig(dir+"/main.cfg", cfg, false, nil)
		c := exec.Command("unshare", "-Ur", "--root="+dir, "/server", "/main.cfg")
		c.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
		var out lockedWriter
		c.Stdout, c.Stderr = &out, &out
		if err := c.Start(); err != nil {
			r.Note("unshare is not available: file directory / not exercised: " + err.Error())
			return
		}
		done := make(chan error, 1)
		go func() { done <- c.Wait() }()
		var listening, exited bool
		var werr error
		for t := time.Now(); time.Since(t) < 60*time.Second && !listening && !exited; {
			select {
			case werr = <-done:
				exited = true
			case <-time.After(5 * time.Millisecond):
				if cn, err := net.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", port)); err == nil {
					cn.Close()
					listening = true
				}
			}
		}
		if !exited {
			syscall.Kill(-c.Process.Pid, syscall.SIGKILL)
			<-done
		}
		wit := M{"FileDir": v.fileDir, "output": tailS(out.String(), 1500)}
		if v.fileDir == "unset" {
			if _, err := os.Stat(dir + "/usr/lib/magurohttp/templates"); err != nil || !listening {
				r.Violate("default-filedir", wit, "without FileDir the server does not use /usr/lib/magurohttp/ (listening %v, %v)", listening, err)
			}
		}
		if v.ok && !listening {
			r.Note("a separate root directory is not available here, file directory / not exercised: " + tailS(out.String(), 300))
			return
		}
		r.Eval("root " + v.fileDir)
		r.Count("root_cases", 1)
		if !v.ok && listening {
			r.Violate("accepted-filedir-root", wit, "the server starts with the file directory %q", v.fileDir)
		} else if !v.ok && (werr == nil || !exited) {
			r.Violate("status-filedir-root", wit, "with the file directory %q the process does not end with an error", v.fileDir)
		}
		if !v.ok {
			if _, err := os.Stat(filepath.Join(dir, "templates")); err == nil {
				r.Violate("filedir-root-written", wit, "with the file directory %q files are written to the root directory", v.fileDir)
			}
		}
	}
}

type lockedWriter struct {
	mu sync.Mutex
	b  strings.Builder
}

func (l *lockedWriter) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.b.Write(p)
}

func (l *lockedWriter) String() string { l.mu.Lock(); defer l.mu.Unlock(); return l.b.String() }

var _ io.Writer = (*lockedWriter)(nil)
