package checks

import (
	"fmt"
	"io"
	"math/rand/v2"
	"net"
	"net/http"
	"os"
	"sort"
	"strings"
	"sync/atomic"
	"testing"
	"time"

	"github.com/redmaner/MaguroHTTP/router"
	"github.com/redmaner/MaguroHTTP/tuna"

	"verifharness/model"
	"verifharness/rep"
	"verifharness/srv"
)

// c33Site is one generated site and what its configuration means.
type c33Site struct {
	host, kind string
	dir        string
	index      string
	exts       []string
	cfg        M
	tab        model.Table
}

var c33Dirs = []string{"/", "/a", "/a/b", "/c", "/é"}
var c33Files = []string{"/f.txt", "/a/f.txt", "/a/b/f.txt", "/c/f.txt", "/c/g.bin", "/é/f.txt"}
var c33Listed = []string{"/", "/", "/", "/a", "/a/", "/a/b", "/a/b/", "/f.txt", "/a/f.txt", "/c/", "/c", "/none", "/none/", "/a/b/c/d/", "/é/", "/é", "/" + strings.Repeat("deep/", 30)}
var c33Types = []string{"", "", "text/plain", "application/json", "application/json; charset=utf-8", "multipart/form-data; boundary=x", "image/png", "text/plain;", "text", "TEXT/PLAIN", "*", ";"}

func c33Methods(g *rand.Rand, dav bool) []string {
	n := pick(g, []int{1, 1, 2, 3, 8})
	var ms []string
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		m := pick(g, append([]string{"GET", "GET"}, httpMethods...))
		if dav && chance(g, .3) {
			m = pick(g, davMethods)
		}
		if !seen[m] || chance(g, .1) {
			ms = append(ms, m)
		}
		seen[m] = true
	}
	return ms
}

// c33Make generates one site; listed hosts of proxy rules may include hosts of others.
func c33Make(g *rand.Rand, dir, host string, vhost, dav bool, up string) *c33Site {
	s := &c33Site{host: host, kind: pick(g, []string{"serve", "serve", "serve", "serve", "download", "proxy"}), index: pick(g, []string{"index.html", "index.html", "main.htm", "sub.txt"}), tab: model.Table{}}
	s.dir = fmt.Sprintf("%s/www-%s", dir, strings.ReplaceAll(host, ":", "_"))
	for _, d := range c33Dirs {
		put(s.dir+d, s.index, "INDEX "+host+" "+d)
	}
	for _, f := range c33Files {
		put(s.dir, f[1:], "FILE "+host+" "+f)
	}
	at := host
	if !vhost {
		at = router.DefaultHost
	}
	s.cfg = M{"Guard": noLimit()}
	sd := s.dir
	if chance(g, .5) {
		sd += "/"
	}
	serve := M{"ServeDir": sd, "ServeIndex": s.index}
	methods := M{}
	for i := pick(g, []int{1, 1, 2, 4, 8, 12}); i > 0; i-- {
		methods[pick(g, c33Listed)] = strings.Join(c33Methods(g, dav), ";")
	}
	types := M{}
	for p := range methods {
		if chance(g, .35) {
			types[p] = pick(g, []string{"*", ";", "text/plain", "text/plain;application/json", "application/json;;", "multipart/form-data", "", "image/png;*"})
		}
	}
	for i := g.IntN(2); i > 0; i-- { // types of paths nobody listed mean nothing
		types[pick(g, c33Listed)+"x"] = "*"
	}
	serve["Methods"] = methods
	if len(types) > 0 {
		serve["MIMETypes"] = M{"RequestTypes": types}
	}
	download := M{"Enabled": s.kind == "download", "Exts": []string{".txt", ".bin"}}
	if s.kind == "download" || chance(g, .2) {
		serve["Download"] = download
	}
	if s.kind == "download" && chance(g, .5) {
		delete(serve, "Methods")
	}
	px := M{"Enabled": s.kind == "proxy", "Rules": M{host: "http://" + up}, "Methods": c33Methods(g, dav)}
	if !vhost {
		px["Rules"] = M{host: "http://" + up, "second.test": "http://" + up + "/second"}
	} else if chance(g, .5) {
		px["Rules"] = M{host: "http://" + up, "not-mine.test": "http://" + up}
	}
	if s.kind == "proxy" || chance(g, .15) {
		s.cfg["Proxy"] = px
	}
	if s.kind != "proxy" || chance(g, .3) {
		s.cfg["Serve"] = serve
	}
	// what it means
	switch s.kind {
	case "proxy":
		for _, m := range px["Methods"].([]string) {
			s.tab.Add(host, "/", m, model.Route{Fallback: true, Content: "*"})
			if !vhost {
				s.tab.Add("second.test", "/", m, model.Route{Fallback: true, Content: "*"})
			}
		}
	case "download":
		s.tab.Add(at, "/", "GET", model.Route{Fallback: true, Content: ""})
	default:
		var ps []string
		for p := range methods {
			ps = append(ps, p)
		}
		sort.Strings(ps)
		for _, p := range ps {
			c := ";"
			if t, ok := types[p]; ok {
				c = t.(string)
			}
			for _, m := range strings.Split(methods[p].(string), ";") {
				s.tab.Add(at, p, m, model.Route{Fallback: strings.HasSuffix(p, "/"), Content: c})
			}
		}
	}
	return s
}

// outcome is the status and body of a request that the routes let in.
func (s *c33Site) outcome(p, method string) (int, string) {
	if s.kind == "proxy" {
		return 299, "up"
	}
	full := p
	dirOf := strings.TrimSuffix(p, "/")
	isDir := false
	for _, d := range c33Dirs {
		if d == dirOf || d == "/" && p == "/" {
			isDir = true
		}
	}
	if s.kind == "download" {
		if p == "/" {
			return 200, "Downloads"
		}
		for _, f := range c33Files {
			if f == p {
				return 200, "FILE " + s.host + " " + p
			}
		}
		if !strings.HasSuffix(p, "/") {
			for _, d := range c33Dirs {
				if strings.TrimSuffix(d, "/")+"/"+s.index == p {
					return 200, "INDEX " + s.host + " " + d
				}
			}
		}
		return 404, ""
	}
	if strings.HasSuffix(p, "/") {
		if isDir {
			d := dirOf
			if d == "" {
				d = "/"
			}
			return 200, "INDEX " + s.host + " " + d
		}
		return 404, ""
	}
	if isDir {
		return 301, ""
	}
	for _, f := range c33Files {
		if f == full {
			return 200, "FILE " + s.host + " " + p
		}
	}
	for _, d := range c33Dirs {
		if strings.TrimSuffix(d, "/")+"/"+s.index == p {
			return 200, "INDEX " + s.host + " " + d
		}
	}
	return 404, ""
}

func TestC33(t *testing.T) {
	r := rep.New("C33", "A case is one request to a generated site (one site, or several virtual hosts) with generated paths, method lists, request types, proxy methods or download mode, in process and over loopback to the real server; the meaning of the configuration is worked out independently (routing model plus model of the files): the status, the file or upstream that answers, and that nothing else is touched. Distinct = (mode, kind, decision, method, content type, path form, virtual hosting).")
	r.Watchdog(120*time.Second, true)
	g := r.Rng("configs")
	for i := 0; i < r.N(1500, 9000) && !r.Stop(); i++ {
		c33Config(r, g, i, false)
	}
	r.Phase("real server")
	for i := 0; i < r.N(30, 200) && !r.Stop(); i++ {
		c33Config(r, g, i, true)
	}
	r.Finish()
}

func c33Config(r *rep.R, g *rand.Rand, n int, e2e bool) {
	dir := rep.Scratch("c33")
	defer os.RemoveAll(dir)
	dav := chance(g, .3)
	vhost := chance(g, .6)
	upAddr := "127.0.0.1:9"
	var sent atomic.Int64
	var lastUp atomic.Value
	lastUp.Store("")
	if e2e {
		up := srv.NewUpstream("c33", "")
		defer up.Close()
		upAddr = up.Addr
		up.Respond = func(q *srv.UpReq, c net.Conn) bool {
			sent.Add(1)
			lastUp.Store(q.Method + " " + q.Target)
			io.WriteString(c, "HTTP/1.1 299 Up\r\nContent-Length: 2\r\n\r\n")
			if q.Method != "HEAD" {
				io.WriteString(c, "up")
			}
			return true
		}
	}
	hosts := []string{"one.test"}
	if vhost {
		hosts = hosts[:0]
		for _, h := range []string{"one.test", "two.test", "sub.one.test", "127.0.0.1", "x_y.test"} {
			if chance(g, .5) {
				hosts = append(hosts, h)
			}
		}
		if len(hosts) == 0 {
			hosts = []string{"one.test"}
		}
	}
	tab := model.Table{}
	sites := map[string]*c33Site{}
	main := M{}
	vh := map[string]M{}
	for _, h := range hosts {
		s := c33Make(g, dir, h, vhost, dav, upAddr)
		sites[h] = s
		for _, n := range s.tab.Nodes() {
			for m, rt := range n.Methods {
				tab.Add(n.Host, n.Path, m, rt)
			}
		}
		if vhost {
			vh[h] = s.cfg
		} else {
			main = s.cfg
		}
	}
	if vhost && chance(g, .4) { // with virtual hosts the sections of the main file mean nothing
		stray := c33Make(g, dir, "stray.test", false, dav, upAddr)
		main = stray.cfg
	}
	main = srv.Merge(main, M{"Core": core(dir, M{"WebDAV": dav, "LogOut": "/dev/null"})})
	wit0 := M{"main": srv.JSON(main), "virtual hosts": vh}
	var ask func(host, method, target, ct string) (int, string, error)
	if e2e {
		var vs map[string]M
		if vhost {
			vs = vh
		}
		p := launch(r, g, dir, main, vs, srv.Opt{})
		if p == nil {
			return
		}
		defer stop(p)
		ask = func(host, method, target, ct string) (int, string, error) {
			var hdr [][2]string
			if ct != "" {
				hdr = append(hdr, [2]string{"Content-Type", ct})
			}
			cn, err := client(p, "").Dial()
			if err != nil {
				return 0, "", err
			}
			defer cn.Close()
			cn.SetDeadline(time.Now().Add(60 * time.Second))
			cn.Write(srv.Req(method, target, host, hdr, nil))
			resp, err := srv.ReadResp(cn, method)
			if err != nil {
				return 0, "", err
			}
			return resp.Status, string(resp.Body), nil
		}
	} else {
		c := srv.Merge(main, M{"Core": M{"Port": "1"}})
		os.MkdirAll(dir+"/files", 0o755)
		if vhost {
			files := M{}
			for h, v := range vh {
				files[h] = srv.WriteConfig(dir+"/"+h+".cfg", v, chance(g, .5), g)
			}
			c = srv.Merge(c, M{"Core": M{"VirtualHosting": true, "VirtualHosts": files}})
		}
		s := tuna.NewInstanceFromConfig(srv.WriteConfig(dir+"/main.cfg", c, chance(g, .5), g))
		s.Transport = c31Trip(func(q *http.Request) (*http.Response, error) {
			sent.Add(1)
			lastUp.Store(q.Method + " " + q.URL.RequestURI())
			return &http.Response{StatusCode: 299, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, ContentLength: 2, Request: q, Body: io.NopCloser(strings.NewReader("up"))}, nil
		})
		ask = func(host, method, target, ct string) (int, string, error) {
			var hdr []string
			if ct != "" {
				hdr = append(hdr, "Content-Type", ct)
			}
			req, err := parse(rawReq(method, target, host, hdr...), "127.0.0.1:1")
			if err != nil {
				return 0, "", err
			}
			rec := serve(s.Router, req)
			return rec.Code, rec.Body.String(), nil
		}
	}
	for q := 0; q < 40; q++ {
		host := pick(g, hosts)
		if chance(g, .1) {
			host = pick(g, []string{"unknown.test", "one.test", "second.test", "not-mine.test", "stray.test", "DEFAULT"})
		}
		path := pick(g, append(append([]string{"/", "/none/x", "/a/b/c/d/e", "/second", "/c/g.bin", "/index.html"}, c33Dirs...), c33Files...))
		method := pick(g, append(httpMethods, "GET", "GET", "PROPFIND", "MOVE", "TRACE", "get"))
		ct := pick(g, c33Types)
		if chance(g, .75) {
			ns := tab.Nodes()
			nd := pick(g, ns)
			if nd.Host != router.DefaultHost {
				host = nd.Host
			}
			if chance(g, .6) {
				path = nd.Path
			}
			if chance(g, .4) {
				path = strings.TrimSuffix(path, "/") + pick(g, []string{"/", "/", "/f.txt", "/b", "/b/f.txt", "/x"})
			}
			method = pick(g, nd.MethodList())
			if c := strings.Trim(nd.Methods[method].Content, "*"); chance(g, .7) {
				ct = pick(g, strings.Split(c, ";"))
				if ct != "" && chance(g, .3) {
					ct += "; charset=utf-8"
				}
			}
		}
		if method == "CONNECT" && e2e {
			continue
		}
		spelled := path
		if chance(g, .25) {
			spelled = noisy(g, path)
		}
		spelled = strings.ReplaceAll(spelled, "é", "%C3%A9")
		hh := host
		if chance(g, .3) {
			hh += pick(g, []string{":80", ":443", ":8080"})
		}
		canon := model.Canon(unescape(spelled))
		d := tab.Decide(host, canon, method, ct)
		want, body, kind := d.Status, "", "refused"
		if d.Status == 200 {
			site := sites[host]
			if !vhost {
				site = sites["one.test"]
			}
			kind = site.kind
			want, body = site.outcome(canon, method)
		}
		before := sent.Load()
		got, text, err := ask(hh, method, spelled, ct)
		wit := M{"host": hh, "method": method, "target": spelled, "content_type": ct, "expected": want, "status": got, "body": clip(text), "why": d.Why, "config": wit0}
		if err != nil {
			if e2e {
				r.Violate("no-answer", wit, "%v", err)
			}
			continue
		}
		if got != want && !(method == "TRACE" && got == 405) {
			what := kind
			if d.Status != 200 {
				what = fmt.Sprint("not-", d.Status)
			}
			r.Violate("status-"+what, wit, "the configuration means %d, got %d", want, got)
		} else if want == 200 && method != "HEAD" && (kind == "download" && canon == "/" && !strings.Contains(text, body) || !(kind == "download" && canon == "/") && text != body) {
			r.Violate("content", wit, "expected %q", body)
		}
		fwd := sent.Load() - before
		if kind == "proxy" && fwd != 1 || kind != "proxy" && fwd != 0 {
			r.Violate("upstream", wit, "%d requests reached the upstream", fwd)
		}
		r.Eval(fmt.Sprint(e2e, kind, want, method, ct != "", d.Exact, spelled != path, vhost, dav))
		r.Count("kind_"+kind, 1)
		r.Count(fmt.Sprint("status_", want), 1)
		if r.WantSample() {
			r.Sample(wit)
		}
	}
}
