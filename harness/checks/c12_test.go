package checks

import (
	"bytes"
	"crypto/tls"
	"fmt"
	"io"
	"math/rand/v2"
	"mime"
	"mime/multipart"
	"net"
	"net/http"
	"net/url"
	"os"
	"path"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"
	"unicode/utf8"

	"verifharness/rep"
	"verifharness/srv"
)

var c12Types = map[string]string{".aac": "audio/aac", ".avi": "video/x-msvideo", ".bmp": "image/bmp", ".css": "text/css", ".csv": "text/csv", ".gif": "image/gif", ".html": "text/html", ".htm": "text/html", ".jpeg": "image/jpeg", ".jpg": "image/jpeg", ".js": "text/javascript", ".json": "text/json", ".mpeg": "video/mpeg", ".png": "image/png", ".pdf": "application/pdf", ".svg": "image/svg+xml", ".txt": "text/plain", ".xhtml": "application/xhtml-xml", ".xml": "application/xml", ".zip": "application/zip"}

type c12File struct {
	data   []byte
	mod    time.Time
	oldTag string // of the content before, if any was seen
}

// c12Site mirrors one served directory.
type c12Site struct {
	host, dir, index string
	files            map[string]*c12File // "/a/b.txt"
	types            map[string]string   // per-path types
	links            map[string]*c12File // links to files, with what they lead to
	none             []string            // exist, but are neither file nor directory with an index
}

// fixed adds what does not change: links, pipes, sockets.
func (s *c12Site) fixed(g *rand.Rand) {
	s.links = map[string]*c12File{}
	for i, n := range []string{"/ln.txt", "/a/ln", "/ln.html"} {
		d := c12Data(g)
		put(s.dir+"/.kept", fmt.Sprint(i), string(d))
		fi, _ := os.Stat(s.dir + "/.kept/" + fmt.Sprint(i))
		os.MkdirAll(s.dir+"/a", 0o755)
		if os.Symlink(s.dir+"/.kept/"+fmt.Sprint(i), s.dir+n) == nil {
			s.links[n] = &c12File{data: d, mod: fi.ModTime()}
		}
	}
	os.Symlink(s.dir+"/nowhere", s.dir+"/dangling.txt")
	os.Symlink(s.dir+"/loop", s.dir+"/loop")
	syscall.Mkfifo(s.dir+"/pipe", 0o666)
	syscall.Mkfifo(s.dir+"/pipe.html", 0o666)
	os.MkdirAll(s.dir+"/idxdir/"+s.index, 0o755)
	os.MkdirAll(s.dir+"/idxpipe", 0o755)
	syscall.Mkfifo(s.dir+"/idxpipe/"+s.index, 0o666)
	s.none = []string{"/dangling.txt", "/loop", "/loop/x", "/loop/", "/pipe", "/pipe.html", "/pipe/", "/idxdir/", "/idxpipe/", "/idxpipe/" + s.index, "/idxdir/" + s.index + "/", "/ln.txt/", "/ln.txt/x"}
	if sk, err := net.Listen("unix", s.dir+"/sock"); err == nil {
		s.none = append(s.none, "/sock")
		_ = sk // stays open
	}
}

func (s *c12Site) isDir(p string) bool {
	p = strings.TrimSuffix(p, "/") + "/"
	fi, err := os.Stat(s.dir + p)
	return err == nil && fi.IsDir()
}

func (s *c12Site) ctype(p string) string {
	if t, ok := c12Types[path.Ext(p)]; ok {
		return t
	}
	if t, ok := s.types[p]; ok {
		return t
	}
	return "application/octet-stream"
}

func c12Data(g *rand.Rand) []byte {
	n := pick(g, []int{0, 1, 2, 10, 511, 512, 513, 1000, 4096, 5000, 32768, 70000, 70000 + g.IntN(300000)})
	b := make([]byte, n)
	switch g.IntN(3) {
	case 0:
		for i := range b {
			b[i] = byte(g.IntN(256))
		}
	case 1:
		copy(b, "<html><script>alert(1)</script>")
		for i := 31; i < n; i++ {
			b[i] = "abc \n<"[g.IntN(6)]
		}
	default:
		for i := range b {
			b[i] = byte(i>>8) ^ byte(i)
		}
	}
	return b
}

// c12Tags are the ETags seen, with the content they stood for.
var c12Tags sync.Map

var c12Dirs = []string{"/", "/", "/a/", "/a/b/", "/d.txt/", "/sp ace/", "/é/", "/q?x=y/", "/h#y/", "/p%41z/", "/a:b/", "/http:/", "/x\xff\xfe/", "/q'\"&<>/", "/..d/", "/a/q?/", "/;p=1/"}
var c12Base = []string{"f", "page.html", "x.js", "data.bin", "noext", "t.txt", "i.png", ".dot", "a.b.c", "z.zip", "q.json", "semi;colon", "per%cent", "plus+", "amp&", "x.xhtml", "m.mpeg", "doc.pdf", "what.unknown", "UP.HTML", "Mixed.Txt", "x.JSON", "tail.txt.", "a.html~", "html", ".css", "q?.txt", "#h.css", "a:b.js", "%2e", "n\xff.txt", "index.html", "..f", "\\", "~"}

// c12Pre are files that look like ready-made forms of others; nobody asked for them.
var c12Pre = []string{"page.html.gz", "x.js.gz", "x.js.br", "data.bin.gz", "t.txt.zst", "f.gz", "index.html.gz", "index.htm", "index.php", "default.html", "index", ".htaccess", ".htpasswd", ".env", "robots.txt", "m.mpeg.br", "doc.pdf.gz", "page.html.bak", "noext.html", "f.html"}

func init() {
	for _, e := range keysSorted(c12Types) {
		c12Base = append(c12Base, "kind"+e)
	}
	c12Base = append(c12Base, c12Pre...)
}

func c12Path(g *rand.Rand, s *c12Site) string {
	if chance(g, .2) {
		return pick(g, c12Dirs) + s.index
	}
	p := pick(g, c12Dirs) + pick(g, c12Base)
	if chance(g, .1) {
		p = pick(g, []string{"/new/n", "/new/deep/n.css", "/a/b/new.csv", "/new/" + strings.Repeat("l", 240) + ".txt", "/new/" + strings.Repeat("deep/", 60) + "n.txt", "/new/" + strings.Repeat(strings.Repeat("d", 200)+"/", 6) + "n"})
	}
	return p
}

func (s *c12Site) write(p string, d []byte, mod time.Time) bool {
	f := s.dir + p
	if fi, err := os.Stat(f); err == nil && fi.IsDir() {
		return false
	}
	if os.MkdirAll(filepath.Dir(f), 0o755) != nil {
		return false
	}
	if err := os.WriteFile(f, d, 0o644); err != nil {
		return false
	}
	os.Chmod(f, []os.FileMode{0o644, 0o644, 0o755, 0o444, 0o600, 0o777, 0o755 | os.ModeSetuid, 0o755 | os.ModeSetgid, 0o644 | os.ModeSticky}[(len(d)+len(p)+len(s.files))%9])
	if mod.IsZero() {
		mod = time.Now()
	}
	os.Chtimes(f, mod, mod)
	fi, _ := os.Stat(f)
	s.set(p, d, fi.ModTime())
	return true
}

// set notes what the file now is.
func (s *c12Site) set(p string, d []byte, mod time.Time) {
	n := &c12File{data: d, mod: mod}
	if o := s.files[p]; o != nil && !bytes.Equal(o.data, d) {
		n.oldTag = o.oldTag
		if t, ok := c12Tags.Load(o); ok {
			n.oldTag = t.(string)
		}
	}
	s.files[p] = n
}

// c12Mutate changes the directory.
func c12Mutate(g *rand.Rand, s *c12Site) string {
	names := sortedFiles(s.files)
	switch k := g.IntN(7); {
	case k == 0 && len(names) > 4:
		p := pick(g, names)
		os.Remove(s.dir + p)
		delete(s.files, p)
		return "delete"
	case k == 1 && len(names) > 0: // same size, same time, other bytes
		p := pick(g, names)
		o := s.files[p]
		if len(o.data) == 0 {
			return ""
		}
		d := append([]byte(nil), o.data...)
		d[g.IntN(len(d))] ^= 0x55
		if chance(g, .4) {
			s.write(p, d, o.mod.Truncate(time.Second).Add(time.Duration(g.IntN(1e9))))
			return "same-size-same-second"
		}
		s.write(p, d, o.mod)
		return "same-size-same-time"
	case k == 2 && len(names) > 0: // replaced by rename
		p := pick(g, names)
		d := c12Data(g)
		tmp := s.dir + "/.tmp-rename"
		os.WriteFile(tmp, d, 0o644)
		mod := time.Now().Add(-time.Duration(g.IntN(100000)) * time.Second)
		os.Chtimes(tmp, mod, mod)
		os.Rename(tmp, s.dir+p)
		fi, _ := os.Stat(s.dir + p)
		s.set(p, d, fi.ModTime())
		return "rename"
	case k == 3 && len(names) > 0: // truncated or appended
		p := pick(g, names)
		d := append([]byte(nil), s.files[p].data...)
		if chance(g, .5) {
			d = d[:len(d)/2]
		} else {
			d = append(d, "more"...)
		}
		s.write(p, d, time.Time{})
		return "resize"
	case k == 4 && len(names) > 4: // a whole directory disappears
		if chance(g, .3) {
			d := pick(g, []string{"/new/", "/a/b/", "/sp ace/"})
			os.RemoveAll(s.dir + d)
			for _, n := range names {
				if strings.HasPrefix(n, d) {
					delete(s.files, n)
				}
			}
			return "rmdir"
		}
	}
	if s.write(c12Path(g, s), c12Data(g), time.Now().Add(-time.Duration(g.IntN(1000000))*time.Second)) {
		return "write"
	}
	return ""
}

func sortedFiles(m map[string]*c12File) []string {
	t := map[string]string{}
	for k := range m {
		t[k] = ""
	}
	return sorted(t)
}

func c12Escape(p string) string {
	return strings.NewReplacer("%2F", "/").Replace((&url.URL{Path: p}).EscapedPath())
}

// fetch abstracts HTTP/1.1 and HTTP/2 clients.
type fetch func(method, target, host string, hdr [][2]string) (*srv.Resp, error)

func h2Client(p *srv.Proc) fetch {
	tr := &http.Transport{TLSClientConfig: &tls.Config{InsecureSkipVerify: true, NextProtos: []string{"h2"}}, ForceAttemptHTTP2: true, DisableCompression: true}
	cl := &http.Client{Transport: tr, Timeout: 90 * time.Second, CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }}
	return func(method, target, host string, hdr [][2]string) (*srv.Resp, error) {
		req, err := http.NewRequest(method, "https://"+p.Addr+target, nil)
		if err != nil {
			return nil, err
		}
		req.Host = host
		for _, h := range hdr {
			req.Header.Add(h[0], h[1])
		}
		srv.NoiseHeader(method+" "+host+target, req.Header)
		res, err := cl.Do(req)
		if err != nil {
			return nil, err
		}
		defer res.Body.Close()
		b, err := io.ReadAll(res.Body)
		return &srv.Resp{Status: res.StatusCode, Header: res.Header, Body: b, BodyErr: err, Proto: res.Proto, Raw: res}, nil
	}
}

func h1Client(p *srv.Proc, local string) fetch {
	c, n := client(p, local), 0
	return func(method, target, host string, hdr [][2]string) (*srv.Resp, error) {
		raw := srv.Req(method, target, host, hdr, nil)
		if n++; n%11 == 7 { // an old client; the answer must be the same
			old := " HTTP/1.0\r\n"
			if n%2 == 0 {
				old += "Connection: keep-alive\r\n"
			}
			raw = bytes.Replace(raw, []byte(" HTTP/1.1\r\n"), []byte(old), 1)
		}
		return c.Do(raw, method)
	}
}

func TestC12(t *testing.T) {
	r := rep.New("C12", "A case is one GET/HEAD (plain, range, multi-range, conditional) to the real server for a file, directory, index or missing path of a generated tree that keeps changing between requests (rewrites incl. same size and time, renames, truncation, deletion, new directories), over HTTP/1.1, TLS and HTTP/2, several virtual hosts with equal file names, sequentially and with concurrent readers. Judged byte for byte against the harness's mirror of the disk and an RFC 9110 model of ranges and conditions. Distinct = (kind of path, request kind, last change, status, protocol).")
	r.Watchdog(120*time.Second, true)
	for s := 0; s < r.N(12, 200) && !r.Stop(); s++ {
		r.Phase(fmt.Sprint("server ", s))
		c12Server(r, r.Rng(fmt.Sprint("srv", s)), s)
	}
	r.Phase("huge files")
	c12Huge(r, r.Rng("huge"))
	r.Finish()
}

// c12Sparse makes a file of the given size with random bytes at a few places.
func c12Sparse(g *rand.Rand, f string, size int64) bool {
	o, err := os.Create(f)
	if err != nil {
		return false
	}
	defer o.Close()
	if o.Truncate(size) != nil {
		return false
	}
	for _, at := range []int64{0, 1<<31 - 500, 1<<32 - 500, size / 2, size - 1000, g.Int64N(size)} {
		if at >= 0 && at < size-1000 || at == size-1000 {
			b := make([]byte, 1000)
			for i := range b {
				b[i] = byte(1 + g.IntN(255))
			}
			o.WriteAt(b, at)
		}
	}
	return true
}

// c12Huge serves files whose size and offsets need more than 31 or 32 bits.
func c12Huge(r *rep.R, g *rand.Rand) {
	dir := rep.Scratch("c12h")
	os.MkdirAll(dir+"/www/d", 0o755)
	cert := srv.MakeCert(dir, "tls", false, "localhost")
	names := map[string]int64{"/a.bin": 1<<31 + 1000 + g.Int64N(1<<20), "/d/b.zip": 1<<32 + 1000 + g.Int64N(1<<20), "/c.mpeg": 1<<33 + g.Int64N(1<<32)}
	for n, size := range names {
		if !c12Sparse(g, dir+"/www"+n, size) {
			r.Note("no file of more than 2 GB can be made here")
			return
		}
	}
	for round, useTLS := range []bool{false, true} {
		cfg := M{"Core": core(dir, M{"TLS": M{"Enabled": useTLS, "TLSCert": cert.CertFile, "TLSKey": cert.KeyFile}}), "Guard": noLimit(), "Serve": M{"ServeDir": dir + "/www", "ServeIndex": "index.html", "Methods": M{"/": "GET;HEAD"}}}
		p := launch(r, g, dir, cfg, nil, srv.Opt{})
		if p == nil {
			return
		}
		do := []fetch{h1Client(p, "")}
		if useTLS {
			do = append(do, h2Client(p))
		}
		for k, f := range do {
			for _, n := range keysSorted(names) {
				size := names[n]
				wit := M{"path": n, "size": size, "tls": useTLS, "client": k}
				resp, err := f("HEAD", n, "x.test", nil)
				if err != nil || resp.Status != 200 || resp.Header.Get("Content-Length") != fmt.Sprint(size) {
					if resp != nil {
						wit["status"], wit["header"] = resp.Status, resp.Header
					}
					r.Violate("huge-head", wit, "HEAD for a file of %d bytes: %v", size, err)
				}
				r.Eval(fmt.Sprint("huge head", round, k, n))
				o, err := os.Open(dir + "/www" + n)
				if err != nil {
					continue
				}
				for i := 0; i < r.N(14, 100); i++ {
					from := pick(g, []int64{0, 1<<31 - 600, 1<<31 - 1, 1 << 31, 1<<32 - 600, 1<<32 - 1, 1 << 32, size - 1000, size - 1, size / 2, g.Int64N(size)})
					to := min(from+g.Int64N(2000), size-1)
					rg := fmt.Sprintf("bytes=%d-%d", from, to)
					switch {
					case from >= size:
						rg = fmt.Sprintf("bytes=%d-", from)
					case g.IntN(3) == 0 && size-from < 5000:
						rg, to = fmt.Sprintf("bytes=%d-", from), size-1
					case g.IntN(4) == 0:
						from, to = size-1-g.Int64N(3000), size-1
						rg = fmt.Sprintf("bytes=-%d", size-from)
					}
					w := srv.Merge(wit, M{"range": rg})
					resp, err := f("GET", n, "x.test", [][2]string{{"Range", rg}})
					r.Eval(fmt.Sprint("huge range", round, k, n, rg))
					r.Count("huge_ranges", 1)
					if err != nil {
						r.Violate("huge-no-answer", w, "%v", err)
						continue
					}
					if from >= size {
						if resp.Status != 416 {
							r.Violate("huge-416", w, "status %d for a range behind the end of %d bytes", resp.Status, size)
						}
						continue
					}
					want := make([]byte, to-from+1)
					o.ReadAt(want, from)
					if resp.Status != 206 || resp.Header.Get("Content-Range") != fmt.Sprintf("bytes %d-%d/%d", from, to, size) || !bytes.Equal(resp.Body, want) {
						w["status"], w["header"], w["length"] = resp.Status, resp.Header, len(resp.Body)
						r.Violate("huge-range", w, "range %s of a file of %d bytes: status %d, %q, %d bytes", rg, size, resp.Status, resp.Header.Get("Content-Range"), len(resp.Body))
					}
				}
				o.Close()
			}
		}
		if !useTLS {
			c12Whole(r, p, dir+"/www/a.bin", "/a.bin", names["/a.bin"])
		}
		r.Beat()
		stop(p)
	}
}

// c12Whole reads a huge file to its end.
func c12Whole(r *rep.R, p *srv.Proc, file, target string, size int64) {
	o, err := os.Open(file)
	if err != nil {
		return
	}
	defer o.Close()
	wit := M{"path": target, "size": size}
	res, err := http.Get("http://" + p.Addr + target)
	if err != nil {
		r.Violate("huge-no-answer", wit, "%v", err)
		return
	}
	defer res.Body.Close()
	if res.StatusCode != 200 || res.ContentLength != size {
		r.Violate("huge-whole", wit, "status %d, Content-Length %d", res.StatusCode, res.ContentLength)
	}
	a, b, at := make([]byte, 1<<20), make([]byte, 1<<20), int64(0)
	for {
		n, err := io.ReadFull(res.Body, a)
		k, _ := io.ReadFull(o, b)
		if err != nil && n != k || !bytes.Equal(a[:n], b[:min(n, k)]) {
			wit["at"] = at
			r.Violate("huge-whole", wit, "the content differs from the file within the MiB at %d (%v)", at, err)
			return
		}
		if at += int64(n); at%(1<<28) == 0 {
			r.Beat()
		}
		if err != nil {
			break
		}
	}
	r.Eval("huge whole")
	r.Count("huge_bytes_compared", int(at))
}

func c12Server(r *rep.R, g *rand.Rand, s int) {
	dir := rep.Scratch("c12")
	cert := srv.MakeCert(dir, "tls", false, "localhost")
	useTLS := s%2 == 1
	vhost := s%4 >= 1
	var sites []*c12Site
	vh := map[string]M{}
	main := M{"Core": core(dir, M{"TLS": M{"Enabled": useTLS, "TLSCert": cert.CertFile, "TLSKey": cert.KeyFile}})}
	for i := 0; i < 3; i++ {
		st := &c12Site{host: fmt.Sprintf("s%d.test", i), dir: fmt.Sprintf("%s/site%d", dir, i), index: pick(g, []string{"index.html", "index.html", "start.htm", "idx"}), files: map[string]*c12File{}, types: map[string]string{}}
		os.MkdirAll(st.dir, 0o755)
		for k := 0; k < 25; k++ {
			st.write(c12Path(g, st), c12Data(g), time.Now().Add(-time.Duration(g.IntN(1000000))*time.Second))
		}
		st.write("/"+st.index, c12Data(g), time.Time{})
		st.fixed(g)
		for k := 0; k < 8; k++ {
			st.write(pick(g, sortedFiles(st.files))+pick(g, []string{".gz", ".gz", ".br", ".zst", "~", ".orig"}), c12Data(g), time.Time{})
		}
		for k := 0; k < 4; k++ {
			n := pick(g, sortedFiles(st.files))
			if !utf8.ValidString(n) { // cannot be configured
				continue
			}
			st.types[n] = pick(g, []string{"text/markdown", "image/webp", "application/x-special"})
		}
		types := M{}
		for k, v := range st.types {
			types[k] = v
		}
		sd := st.dir
		if chance(g, .5) {
			sd += "/"
		}
		c := M{"Guard": noLimit(), "Serve": M{"ServeDir": sd, "ServeIndex": st.index, "Methods": map[string]string{"/": "GET;HEAD"}, "MIMETypes": M{"ResponseTypes": types}}}
		vh[st.host] = c
		sites = append(sites, st)
		if !vhost {
			main = srv.Merge(main, c)
			break
		}
	}
	if !vhost {
		vh = nil
	}
	p := launch(r, g, dir, main, vh, srv.Opt{})
	if p == nil {
		return
	}
	defer stop(p)
	fs := []fetch{h1Client(p, "")}
	if useTLS {
		fs = append(fs, h2Client(p))
	}
	last := "none"
	for q := 0; q < 900 && !r.Stop(); q++ {
		st := pick(g, sites)
		if chance(g, .4) {
			if m := c12Mutate(g, st); m != "" {
				last = m
			}
		}
		c12One(r, g, pick(g, fs), st, last)
	}
	// concurrent readers on a quiet tree
	var wg sync.WaitGroup
	for k := 0; k < 8; k++ {
		gg := rand.New(rand.NewPCG(r.Seed+uint64(s), uint64(k)))
		f := h1Client(p, "")
		if useTLS {
			f = fs[k%2]
			if k%2 == 0 {
				f = h1Client(p, "")
			}
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			for q := 0; q < 120 && !r.Stop(); q++ {
				c12One(r, gg, f, pick(gg, sites), "concurrent")
			}
		}()
	}
	wg.Wait()
	checkAlive(r, p, nil)
	checkPanics(r, p, "panic")
}

// c12One sends one request and judges the answer.
func c12One(r *rep.R, g *rand.Rand, f fetch, st *c12Site, last string) {
	names := sortedFiles(st.files)
	p, kind := "", ""
	switch g.IntN(11) {
	case 10:
		p = pick(g, st.none)
		if chance(g, .4) {
			p = pick(g, keysSorted(st.links))
		}
	case 0, 1, 2, 3, 4, 5:
		p = pick(g, names)
	case 6, 7:
		p = pick(g, c12Dirs)
		if chance(g, .3) {
			p = path.Dir(pick(g, names)) + "/"
			p = strings.ReplaceAll(p, "//", "/")
		}
	case 8:
		p = strings.TrimSuffix(pick(g, c12Dirs[2:]), "/")
	case 9:
		p = pick(g, names) + pick(g, []string{"x", "/", "/y", ".html", " ", "~", ".gz"})
		if n := pick(g, names); chance(g, .4) { // names close to one that exists
			p = pick(g, []string{strings.TrimSuffix(n, path.Ext(n)), strings.ToUpper(n), strings.ToLower(n), n[:len(n)-1]})
			if b := path.Base(p); p == "" || b == "/" || b == "." || b == ".." {
				p = n
			}
		} else if chance(g, .3) {
			p = pick(g, wellKnown)
		}
		if chance(g, .4) {
			p = pick(g, c12Base)
			p = "/missing/" + p
		}
	}
	// what the path names now
	var want *c12File
	ctp := p
	isDir := st.isDir(p)
	redirect, query := "", ""
	switch {
	case strings.HasSuffix(p, "/"):
		ctp = p + st.index
		want = st.files[ctp]
		kind = "dir"
	case isDir:
		redirect = p + "/"
		kind = "dir-noslash"
	default:
		want = st.files[p]
		kind = "file"
		if l := st.links[p]; l != nil {
			want, kind = l, "link"
		}
		if strings.HasSuffix(p, "/index.html") && want != nil && st.index == "index.html" {
			kind = "index"
		}
	}
	if want == nil && redirect == "" {
		kind = "missing-" + kind
	}
	method := "GET"
	if chance(g, .2) {
		method = "HEAD"
	}
	var hdr [][2]string
	rk := "plain"
	var exp c12Expect
	if want != nil {
		hdr, rk, exp = c12Cond(g, want)
	}
	if chance(g, .4) {
		hdr = append(hdr, [2]string{"Accept-Encoding", pick(g, []string{"gzip", "gzip, deflate, br, zstd", "br;q=1.0, gzip;q=0.5, *;q=0", "identity, gzip"})})
	}
	target := c12Escape(p)
	if kind == "dir-noslash" && chance(g, .3) { // the same directory, spelt differently
		switch i := strings.LastIndex(target, "/"); g.IntN(5) {
		case 0:
			target += pick(g, []string{"/.", "/%2e", "/./.", "/x/..", "/%2E%2e/" + target[i+1:]})
		case 1:
			if i > 0 {
				target = target[:i] + pick(g, []string{"%2f", "%2F", "/%2f", "%2f./", "%2f/"}) + target[i+1:]
			}
		case 2:
			target = target[:i] + pick(g, []string{"/.", "/zz/..", "/%2e", "/zz%2f..", "/"}) + target[i:]
		case 3:
			target = pick(g, []string{"/.", "/..", "/%2e%2e", "/zz%2f.."}) + target
		case 4:
			if c := target[len(target)-1]; c != '%' && !(len(target) > 2 && target[len(target)-3] == '%') && !(len(target) > 1 && target[len(target)-2] == '%') {
				target = target[:len(target)-1] + fmt.Sprintf("%%%02x", c)
			}
		}
		kind = "dir-noslash-respelt"
	}
	if redirect != "" && chance(g, .3) {
		query = pick(g, []string{"?a=b&c", "?x=/../y", "?%41=%2f", "?a?b:c"})
		target += query
	}
	wit := M{"site": st.host, "path": p, "method": method, "headers": hdr, "kind": kind, "request": rk, "last_change": last}
	resp, err := f(method, target, st.host, hdr)
	if err != nil {
		r.Violate("no-answer", wit, "no answer: %v", err)
		return
	}
	r.Eval(fmt.Sprint(kind, rk, last, resp.Status, method, resp.Proto))
	r.Count(fmt.Sprint("status_", resp.Status), 1)
	wit["status"], wit["header"], wit["got_len"] = resp.Status, resp.Header, len(resp.Body)
	if resp.BodyErr != nil {
		r.Violate("body", wit, "body of %s incomplete: %v", p, resp.BodyErr)
		return
	}
	if method == "HEAD" && len(resp.Body) > 0 {
		r.Violate("head-body", wit, "HEAD answered with a body")
	}
	switch {
	case redirect != "":
		loc, _ := resolve(target, resp.Header.Get("Location"))
		wp := c12Escape(p+"/") + query
		if resp.Status != 301 && resp.Status != 302 && resp.Status != 307 && resp.Status != 308 || loc != wp {
			r.Violate("dir-redirect", wit, "directory %s: status %d to %q, expected a redirect to %q", p, resp.Status, loc, wp)
		}
	case want == nil:
		if resp.Status != 404 {
			r.Violate("missing-not-404", wit, "%s does not exist but got %d", p, resp.Status)
		}
	default:
		if kind == "index" && resp.Status == 301 {
			loc, _ := resolve(target, resp.Header.Get("Location"))
			if loc != c12Escape(strings.TrimSuffix(p, "index.html")) {
				r.Violate("index-redirect", wit, "redirected to %q", loc)
			}
			return
		}
		wit["size"] = len(want.data)
		if ce := resp.Header.Get("Content-Encoding"); ce != "" {
			r.Violate("encoding", wit, "Content-Encoding %q", ce)
		}
		exp.judge(r, wit, resp, method, want, st.ctype(ctp), rk)
	}
	if r.WantSample() && rk != "plain" {
		r.Sample(wit)
	}
}

// resolve gives the escaped path?query a Location leads to.
func resolve(base, loc string) (string, error) {
	b, err := url.Parse("http://site.invalid" + base)
	if err != nil {
		return "", err
	}
	l, err := url.Parse(loc)
	if err != nil {
		return "", err
	}
	u := b.ResolveReference(l)
	s := c12Escape(u.Path)
	if u.Opaque != "" || u.Host != b.Host || u.Fragment != "" {
		s = "elsewhere: " + u.String()
	}
	if u.RawQuery != "" {
		s += "?" + u.RawQuery
	}
	return s, nil
}

type c12Expect struct {
	status map[int]bool
	ranges [][2]int64 // for 206
}

func st(codes ...int) map[int]bool {
	m := map[int]bool{}
	for _, c := range codes {
		m[c] = true
	}
	return m
}

// c12Cond generates range and condition headers and what HTTP prescribes for them.
func c12Cond(g *rand.Rand, f *c12File) (hdr [][2]string, kind string, e c12Expect) {
	e.status = st(200)
	size := int64(len(f.data))
	mod := f.mod.Truncate(time.Second)
	stamp := func(t time.Time) string { return t.UTC().Format(http.TimeFormat) }
	k := g.IntN(20)
	if tag, ok := c12Tags.Load(f); ok && chance(g, .1) { // revalidation of what is still current
		return [][2]string{{"If-None-Match", tag.(string)}}, "etag-current", c12Expect{status: st(200, 304)}
	}
	if f.oldTag != "" && chance(g, .5) { // of what is not
		return [][2]string{{"If-None-Match", f.oldTag}}, "etag-stale", e
	}
	if k < 8 {
		return nil, "plain", e
	}
	add := func(k, v string) { hdr = append(hdr, [2]string{k, v}) }
	switch k {
	case 8, 9, 10, 11, 12:
		var specs []string
		n := 1
		if chance(g, .3) {
			n = 2 + g.IntN(3)
		}
		for i := 0; i < n; i++ {
			a := g.Int64N(size + 10)
			b := a + g.Int64N(size+10)
			switch g.IntN(4) {
			case 0:
				specs = append(specs, fmt.Sprintf("%d-", a))
				b = size - 1
			case 1:
				l := g.Int64N(size+10) + 1
				specs = append(specs, fmt.Sprintf("-%d", l))
				a, b = max(0, size-l), size-1
			default:
				specs = append(specs, fmt.Sprintf("%d-%d", a, b))
			}
			if a < size {
				e.ranges = append(e.ranges, [2]int64{a, min(b, size-1)})
			}
		}
		add("Range", "bytes="+strings.Join(specs, ", "))
		kind = fmt.Sprintf("range%d", n)
		switch {
		case size == 0: // net/http answers some of these with an empty 206
			e.status = st(200, 206, 416)
		case n > 1 && len(e.ranges) == 0: // several ranges may be ignored
			e.status = st(200, 416)
		case n > 1:
			e.status = st(200, 206)
		case len(e.ranges) == 0:
			e.status = st(416)
		default:
			e.status = st(206)
		}
		if chance(g, .2) && n == 1 {
			ir := mod
			if chance(g, .5) {
				ir = mod.Add(-time.Hour)
				e.status, e.ranges = st(200), nil
			}
			add("If-Range", stamp(ir))
			kind += "-ifrange"
			if size == 0 {
				e.status = st(200, 206, 416)
			}
			if ir.Equal(mod) && mod.Year() < 2000 {
				e.status = st(200, 206, 416)
			}
		}
	case 13, 14:
		d := time.Duration(g.IntN(3)-1) * time.Hour
		add("If-Modified-Since", stamp(mod.Add(d)))
		kind = "ims" + fmt.Sprint(d >= 0)
		if d >= 0 {
			e.status = st(304)
		}
	case 15:
		d := time.Duration(g.IntN(3)-1) * time.Hour
		add("If-Unmodified-Since", stamp(mod.Add(d)))
		kind = "ius" + fmt.Sprint(d >= 0)
		if d < 0 {
			e.status = st(412)
		}
	case 16:
		add("If-None-Match", `"x", W/"y"`)
		add("If-Modified-Since", stamp(mod))
		kind = "inm-miss"
	case 17:
		add("If-None-Match", "*")
		kind, e.status = "inm-star", st(304)
	case 18:
		add("If-Modified-Since", "garbage")
		kind = "ims-garbage"
	default:
		add("Accept-Encoding", "gzip, br")
		add("Accept", "text/plain")
		kind = "accept"
	}
	return hdr, kind, e
}

func (e c12Expect) judge(r *rep.R, wit M, resp *srv.Resp, method string, f *c12File, ctype, rk string) {
	if !e.status[resp.Status] {
		r.Violate("status-"+rk, wit, "status %d, expected one of %v", resp.Status, e.status)
		return
	}
	size := int64(len(f.data))
	cl := resp.Header.Get("Content-Length")
	ct := strings.TrimSpace(strings.Split(resp.Header.Get("Content-Type"), ";")[0])
	switch resp.Status {
	case 200:
		if ct != ctype {
			r.Violate("content-type", wit, "Content-Type %q, expected %q", ct, ctype)
		}
		if cl != "" && cl != strconv.FormatInt(size, 10) {
			r.Violate("content-length", wit, "Content-Length %s for %d bytes", cl, size)
		}
		if method == "GET" && !bytes.Equal(resp.Body, f.data) {
			r.Violate("content", wit, "body of %d bytes differs from the file's %d bytes", len(resp.Body), size)
		}
	case 206:
		if size == 0 {
			if len(resp.Body) > 0 {
				r.Violate("content", wit, "part of an empty file has %d bytes", len(resp.Body))
			}
			return
		}
		mt, par, _ := mime.ParseMediaType(resp.Header.Get("Content-Type"))
		if mt == "multipart/byteranges" {
			if method != "GET" {
				return
			}
			mr := multipart.NewReader(bytes.NewReader(resp.Body), par["boundary"])
			for i := 0; ; i++ {
				part, err := mr.NextRawPart()
				if err == io.EOF && i == len(e.ranges) {
					return
				}
				if err != nil || i >= len(e.ranges) {
					r.Violate("multipart", wit, "part %d: %v, expected %d parts", i, err, len(e.ranges))
					return
				}
				b, _ := io.ReadAll(part)
				c12Part(r, wit, part.Header.Get("Content-Range"), b, f, e.ranges[i])
			}
		}
		if ct != ctype {
			r.Violate("content-type", wit, "Content-Type %q, expected %q", ct, ctype)
		}
		if len(e.ranges) != 1 {
			r.Violate("ranges", wit, "a single part for %d ranges", len(e.ranges))
			return
		}
		b := resp.Body
		if method == "HEAD" {
			b = nil
		}
		c12Part(r, wit, resp.Header.Get("Content-Range"), b, f, e.ranges[0])
	case 304:
		if len(resp.Body) > 0 {
			r.Violate("body-304", wit, "304 with a body")
		}
	case 416:
		if cr := resp.Header.Get("Content-Range"); cr != fmt.Sprintf("bytes */%d", size) {
			r.Violate("range-416", wit, "416 with Content-Range %q", cr)
		}
	}
	if resp.Status == 200 || resp.Status == 206 {
		if tag := resp.Header.Get("ETag"); tag != "" {
			c12Tags.Store(f, tag)
			r.Count("etags", 1)
		}
		if lm, err := http.ParseTime(resp.Header.Get("Last-Modified")); err == nil && !lm.Equal(f.mod.Truncate(time.Second)) {
			r.Violate("last-modified", wit, "Last-Modified %v, file %v", lm, f.mod)
		}
	}
}

func c12Part(r *rep.R, wit M, cr string, b []byte, f *c12File, want [2]int64) {
	size := len(f.data)
	if cr != fmt.Sprintf("bytes %d-%d/%d", want[0], want[1], size) {
		r.Violate("content-range", wit, "Content-Range %q, expected %d-%d/%d", cr, want[0], want[1], size)
	}
	if b != nil && !bytes.Equal(b, f.data[want[0]:want[1]+1]) {
		r.Violate("range-content", wit, "the part's %d bytes are not the file's %d-%d", len(b), want[0], want[1])
	}
}
