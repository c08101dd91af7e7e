package checks

import (
	"fmt"
	"math/rand/v2"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"
	"time"

	"verifharness/rep"
	"verifharness/srv"
)

var c11Names = []string{"a", "b", "c.txt", "d.bin", ".hidden", "é.bin", "s p.bin", "x%41.bin", "..bin", "...", "site", "templates", "index", "q.html"}

// c11Tree creates random files below dir and returns path -> content (unique per file).
func c11Tree(g *rand.Rand, dir, tag string, n int) map[string]string {
	files := map[string]string{}
	for i := 0; i < n; i++ {
		p := ""
		for d := g.IntN(4); d > 0; d-- {
			p += pick(g, []string{"a", "b", "site", "x.bin", "templates"}) + "/"
		}
		p += pick(g, c11Names)
		if fi, err := os.Stat(filepath.Join(dir, p)); err == nil && fi.IsDir() {
			continue
		}
		ok := true
		for q := filepath.Dir(p); q != "."; q = filepath.Dir(q) {
			if _, is := files[q]; is {
				ok = false
			}
		}
		if !ok {
			continue
		}
		files[p] = fmt.Sprintf("MARK<%s:%s>", tag, p)
		put(dir, p, files[p])
	}
	return files
}

func sorted(m map[string]string) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func TestC11(t *testing.T) {
	r := rep.New("C11", "A case is one hostile request (dot segments, encodings, double slashes, absolute/opaque/authority forms, odd hosts and methods, aimed at files inside, beside and above the site) to the real server with served, download and virtual-host sites over generated trees containing directories with and without index, and directories named like the index file. Judged: a 200/206 body is exactly one file of that site or its download page; no body contains the marker of any file outside the site (siblings with the same prefix, other sites, configuration, templates, metrics, certificates); no directory listing. Distinct = (site, target shape, method, status).")
	r.Watchdog(120*time.Second, true)
	for s := 0; s < r.N(14, 120) && !r.Stop(); s++ {
		r.Phase(fmt.Sprint("server ", s))
		c11Server(r, r.Rng(fmt.Sprint("srv", s)), s)
	}
	r.Finish()
}

func c11Server(r *rep.R, g *rand.Rand, s int) {
	dir := rep.Scratch("c11")
	type site struct {
		host, kind, dir string
		files           map[string]string
	}
	sites := []*site{
		{host: "a.test", kind: "serve", dir: dir + "/www/site"},
		{host: "b.test", kind: "serve", dir: dir + "/www/site-b/"},
		{host: "d.test", kind: "download", dir: dir + "/www/dl"},
		{host: "e.test", kind: "download", dir: dir + "/www/dl2/"},
	}
	vhost := s%3 != 0
	if !vhost {
		sites = []*site{sites[2*(s/3%2)]}
	}
	secret := map[string]string{}
	for i, p := range []string{"secret.txt", "secret.bin", "www/secret.bin", "www/sitex", "www/site.bak", "www/site-b.bin", "www/dl.bin", "www/dl-secret/x.bin", "www/index.html", "index.html", "www/.bin"} {
		secret[p] = fmt.Sprintf("SECRET<%d>", i)
		put(dir, p, secret[p])
	}
	sib := []string{".bak", ".bak2/x.bin", "-old/x.txt", "y/x.bin", ".d/.bin", "~", "..bin", "%2e/x.bin", " copy.bin", "index.html"}
	for _, st := range sites { // siblings whose names start with the site's
		for i, p := range sib {
			f := strings.TrimSuffix(st.dir, "/") + p
			if _, err := os.Stat(f); err != nil {
				put("", f, fmt.Sprintf("SECRET<sib%d>", i))
			}
		}
	}
	cert := srv.MakeCert(dir, "tls", false, "localhost")
	put(dir, "files/templates/error.html", "ERRTPL[{{.HTTPError}}]"+"{{/* SECRET<tpl> */}}")
	put(dir, "files/templates/download.html", "DLTPL[{{.DownloadTable}}]{{/* SECRET<tpl> */}}")
	index := pick(g, []string{"index.html", "index", "home.htm"})
	mkcfg := func(st *site) M {
		st.files = c11Tree(g, st.dir, st.host, 12+g.IntN(14))
		if _, is := st.files["a"]; !is {
			for _, p := range []string{index, "a/" + index} {
				if _, err := os.Stat(filepath.Join(st.dir, p)); err != nil {
					st.files[p] = "MARK<" + st.host + ":" + p + ">"
					put(st.dir, p, st.files[p])
				}
			}
		}
		for _, p := range []string{"weird/" + index + "/inner.bin", "noindex/x.bin", "noindex/deep/y.bin"} {
			st.files[p] = "MARK<" + st.host + ":" + p + ">"
			put(st.dir, p, st.files[p])
		}
		c := M{"ServeDir": st.dir, "ServeIndex": index}
		if st.kind == "download" {
			c["Download"] = M{"Enabled": true, "Exts": []string{".bin", ".txt"}}
		} else {
			c["Methods"] = map[string]string{"/": "GET;HEAD;POST;PUT;DELETE;OPTIONS"}
			if chance(g, .5) {
				c["Methods"] = map[string]string{"/": "GET;HEAD;POST;PUT;DELETE;OPTIONS", "/a/": "GET;HEAD", "/site/": "GET;POST", "/a" + dir + "/": "GET", "/mnt" + dir + "/www/": "GET"}
			}
		}
		return M{"Guard": noLimit(), "Serve": c}
	}
	main := M{"Core": core(dir, M{"TLS": M{"Enabled": s%2 == 1, "TLSCert": cert.CertFile, "TLSKey": cert.KeyFile}, "Metrics": M{"Enabled": true, "Path": "/metrics", "Out": dir + "/metrics.json", "Users": M{"u": "SECRET<pw>"}}})}
	var vh map[string]M
	if vhost {
		vh = map[string]M{}
		for _, st := range sites {
			vh[st.host] = mkcfg(st)
		}
	} else {
		main = srv.Merge(main, mkcfg(sites[0]))
	}
	p := launch(r, g, dir, main, vh, srv.Opt{})
	if p == nil {
		return
	}
	defer stop(p)
	c := client(p, "")
	outside := []string{"secret.txt", "secret.bin", "www/secret.bin", "../secret.bin", "sitex", "site.bak", "site-b/a", "dl/a/d.bin", "main.cfg", "metrics.json", "tls.key", "files/templates/error.html", "files/log.txt", "log.txt", "dl-secret/x.bin", "etc/passwd"}
	for q := 0; q < 2500 && !r.Stop(); q++ {
		st := pick(g, sites)
		names := sorted(st.files)
		shape := ""
		var target string
		switch g.IntN(8) {
		case 0, 1: // an existing file or its directory
			target, shape = "/"+pick(g, names), "file"
			if chance(g, .4) {
				target, shape = filepath.Dir(target)+pick(g, []string{"/", "", "//", "/.", "/./"}), "dir"
			}
		case 2, 3: // climbing
			up := strings.Repeat(pick(g, []string{"../", "..%2f", "%2e%2e/", "%2e%2e%2f", ".%2e/", "..%5c", "..\\", "....//", "..;/", "%252e%252e/", "..%00/", "%c0%ae%c0%ae/", "..//"}), 1+g.IntN(5))
			pre := pick(g, []string{"/", "/a/", "//", "/noindex/", "", "/%2f", "/x/../", "/./"})
			target, shape = pre+up+pick(g, outside), "climb"
		case 4: // prefix siblings and absolute paths
			if chance(g, .5) {
				target, shape = pick(g, []string{"/", "", "/", "/a/../", "/./", "//", "/.", "/%2e", "/\\"})+strings.ReplaceAll(strings.ReplaceAll(pick(g, sib), "%", "%25"), " ", "%20"), "sibling"
				break
			}
			target, shape = pick(g, []string{"x", ".bak", "-b/a", "/..", "/.", "//" + dir + "/secret.txt", "/%2f" + dir + "/secret.txt", "/" + dir + "/secret.txt", "/~root/", "/.git/config", "/templates/error.html"}), "prefix"
		case 5:
			target, shape = c02Target(g), "random"
		case 6:
			target, shape = "/"+pick(g, names)+pick(g, []string{"/", "/.", "/..", "%00", "%20", "/../", "?x", "/../../www/secret.bin", "::$DATA", "/" + index, "~", "%2f"}), "suffix"
		case 7:
			target, shape = pick(g, []string{"/weird/", "/weird", "/weird/" + index, "/weird/" + index + "/", "/noindex/", "/noindex", "/noindex/deep/", "/noindex/deep", "/weird//", "/./weird/", "/metrics", "/weird/" + index + "/inner.bin"}), "listing"
		}
		if chance(g, .15) {
			target, shape = pick(g, []string{"http://" + st.host, "http://x", "x:", "file://", "file:"})+target, "abs-"+shape
		}
		target = strings.NewReplacer(" ", "%20", "%41", "%2541").Replace(target)
		host := st.host
		if chance(g, .1) {
			host, shape = pick(g, []string{"..", "../", ".", "", "a.test:80", "a.test/../d.test", "localhost", "DEFAULT", "/", "d.test.", "A.TEST"}), "host-"+shape
		}
		method := pick(g, []string{"GET", "GET", "GET", "GET", "GET", "HEAD", "POST", "PUT", "DELETE", "OPTIONS"})
		var resp *srv.Resp
		var err error
		if s%2 == 1 && chance(g, .2) { // HTTP/2, where any authority and path can be sent
			if chance(g, .5) {
				shape = "h2-auth"
				host = pick(g, []string{st.host, st.host, "DEFAULT", "localhost"}) + pick(g, []string{"/a", "/mnt", "/site", "/", "/.", "/..", "/a/..", dir, "\\a", "%2fa", "\x00/a", "?", "#", "/a/"})
				target = pick(g, []string{"/", dir + "/", dir + "/www/", dir + "/www/site/", "/site/"}) + pick(g, append(outside, pick(g, names)))
			} else {
				target = pick(g, []string{"", "*", "/", "//", "\\", "x:", "file://"}) + strings.NewReplacer("%20", " ", "%00", "\x00").Replace(target)
				shape = "h2-" + shape
			}
			method = "GET"
			var b []byte
			var st2 int
			if st2, b, err = h2Do(p, method, host, target, nil, nil); err == nil {
				resp = &srv.Resp{Status: st2, Body: b}
			}
		} else {
			resp, err = c.Do(srv.Req(method, target, host, nil, nil), method)
		}
		wit := M{"host": host, "site": st.kind, "target": target, "method": method, "vhosts": vhost, "shape": shape}
		if err != nil {
			if strings.Contains(err.Error(), "timeout") || p.Exited() {
				r.Violate("no-answer", wit, "no answer: %v", err)
			}
			continue
		}
		r.Eval(fmt.Sprint(st.kind, vhost, shape, method, resp.Status))
		r.Count(fmt.Sprint("status_", resp.Status), 1)
		body := string(resp.Body)
		wit["status"], wit["body"] = resp.Status, body[:min(len(body), 400)]
		if i := strings.Index(body, "SECRET<"); i >= 0 || strings.Contains(body, "PRIVATE KEY") || strings.Contains(body, "BEGIN CERT") || strings.Contains(body, "root:x:") || strings.Contains(body, "TotalRequests") || strings.Contains(body, "ServeDir") {
			r.Violate("outside-file", wit, "%s %s returned content from outside the site", method, target)
		}
		// the answering site: the request's host (absolute form wins), if it is a site
		ans := ""
		for _, o := range sites {
			if strings.Contains(body, "MARK<"+o.host+":") {
				ans = o.host
			}
		}
		eff := effHost(target, host)
		if ans != "" && vhost && !strings.EqualFold(strings.TrimSuffix(eff, "."), ans) {
			r.Violate("other-site", wit, "content of %s returned for host %s", ans, eff)
		}
		if strings.Contains(body, "<pre>") && strings.Contains(body, "href=") {
			r.Violate("listing", wit, "%s %s returned a directory listing", method, target)
		}
		if (resp.Status == 200 || resp.Status == 206) && method != "HEAD" {
			known := strings.HasPrefix(body, "DLTPL[")
			for _, o := range sites {
				for _, ct := range o.files {
					known = known || ct == body
				}
			}
			if !known {
				r.Violate("foreign-content", wit, "%s %s answered %d with content that is no file of the site", method, target, resp.Status)
			}
			if ans != "" {
				r.Count("files_returned", 1)
			}
		}
		if strings.Contains(body, dir) && !strings.Contains(target, dir) {
			r.Violate("path-disclosed", wit, "the answer discloses the directory %s", dir)
		}
		if r.WantSample() && shape == "climb" {
			r.Sample(wit)
		}
	}
	checkAlive(r, p, nil)
	checkPanics(r, p, "panic")
}

// effHost is the host a request is for: that of an absolute target, else the Host header, without port.
func effHost(target, host string) string {
	if i := strings.Index(target, "://"); i > 0 && !strings.HasPrefix(target, "/") {
		h := target[i+3:]
		if j := strings.IndexAny(h, "/?#"); j >= 0 {
			h = h[:j]
		}
		if j := strings.LastIndex(h, "@"); j >= 0 {
			h = h[j+1:]
		}
		if h != "" {
			host = h
		}
	}
	if i := strings.LastIndex(host, ":"); i >= 0 && !strings.HasSuffix(host, "]") {
		host = host[:i]
	}
	return host
}
