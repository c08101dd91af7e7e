package checks

import (
	"fmt"
	"html"
	"math/rand/v2"
	"net/url"
	"os"
	"path"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"verifharness/rep"
	"verifharness/srv"
)

func TestC28(t *testing.T) {
	r := rep.New("C28", "A case is one index page of a real download site (parsed into rows) compared with the harness's model of the directory tree at that moment, or one of its links followed and compared byte for byte; the tree is generated (nested, special characters, line ends, non-UTF-8, markup, duplicate names, index files, symlinks, FIFOs, sockets, unreadable directories and files with the server running unprivileged) and changed between and during requests; extension lists with duplicates, empty and unused entries; virtual hosts beside each other. Distinct = (tree, extensions, kind of file, verdict).")
	r.Watchdog(120*time.Second, true)
	for s := 0; s < r.N(10, 100) && !r.Stop(); s++ {
		r.Phase(fmt.Sprint("server ", s))
		c28Server(r, r.Rng(fmt.Sprint("srv", s)), s)
	}
	r.Phase("many files")
	c28Many(r, r.Rng("many"))
	r.Phase("huge files")
	c28Huge(r, r.Rng("huge"))
	r.Finish()
}

// c28Huge lists and downloads files whose size needs more than 31 or 32 bits.
func c28Huge(r *rep.R, g *rand.Rand) {
	dir := rep.Scratch("c28h")
	os.MkdirAll(dir+"/www/d", 0o755)
	names := map[string]int64{"/a.bin": 1<<31 + 1000 + g.Int64N(1<<20), "/d/b.bin": 1<<32 + 1000 + g.Int64N(1<<20), "/c.bin": 1<<33 + g.Int64N(1<<32)}
	for n, size := range names {
		if !c12Sparse(g, dir+"/www"+n, size) {
			r.Note("no file of more than 2 GB can be made here")
			return
		}
	}
	os.MkdirAll(dir+"/files/templates", 0o755)
	put(dir, "files/templates/download.html", "<html><body>{{.DownloadTable}}</body></html>")
	p := launch(r, g, dir, M{"Core": core(dir, nil), "Guard": noLimit(), "Serve": M{"ServeDir": dir + "/www", "ServeIndex": "index.html", "Download": M{"Enabled": true, "Exts": []string{".bin"}}}}, nil, srv.Opt{})
	if p == nil {
		return
	}
	defer stop(p)
	c := client(p, "")
	resp, err := c.Get("/", "x.test")
	if err != nil || resp.Status != 200 {
		r.Violate("no-answer", M{}, "no index page: %v", err)
		return
	}
	rows, why := c28Parse(string(resp.Body))
	if why != "" || len(rows) != len(names) {
		r.Violate("malformed", M{"page": tailS(string(resp.Body), 3000)}, "the index page has %d rows for %d huge files %s", len(rows), len(names), why)
	}
	for _, row := range rows {
		t := c28Target(row.href)
		size, ok := names[t]
		w := M{"href": row.href, "size": row.size, "real_size": size}
		if !ok || row.size != fmt.Sprint(size) {
			r.Violate("wrong-size", w, "the index page says %s for %q with %d bytes", row.size, t, size)
			continue
		}
		for i := 0; i < r.N(6, 60); i++ {
			from := pick(g, []int64{0, 1<<31 - 600, 1 << 31, size - 1000, size / 2, g.Int64N(size)})
			to := min(from+g.Int64N(2000), size-1)
			want := make([]byte, to-from+1)
			if o, err := os.Open(dir + "/www" + t); err == nil {
				o.ReadAt(want, from)
				o.Close()
			}
			w["from"], w["to"] = from, to
			resp, err := c.Do(srv.Req("GET", t, "x.test", [][2]string{{"Range", fmt.Sprintf("bytes=%d-%d", from, to)}}, nil), "GET")
			if err != nil || resp.Status != 206 || string(resp.Body) != string(want) {
				r.Violate("huge-part", w, "bytes %d to %d of a download of %d bytes are not delivered: %v", from, to, size, err)
			}
			r.Eval(fmt.Sprint("huge", t, from, to))
			r.Count("huge_parts", 1)
		}
	}
	if len(rows) > 0 { // whole
		c12Whole(r, p, dir+"/www/a.bin", "/a.bin", names["/a.bin"])
	}
}

// c28Many lists thousands of files.
func c28Many(r *rep.R, g *rand.Rand) {
	dir := rep.Scratch("c28m")
	want := map[string]bool{}
	for i, n := 0, 4000+g.IntN(3000); i < n; i++ {
		d := ""
		for k := g.IntN(4); k > 0; k-- {
			d += fmt.Sprintf("d%d/", g.IntN(12))
		}
		f := fmt.Sprintf("%sf%d%s", d, i, pick(g, []string{".bin", ".bin", ".zip", ".txt"}))
		put(dir+"/www", f, "x")
		if !strings.HasSuffix(f, ".txt") {
			want["/"+f] = true
		}
	}
	p := launch(r, g, dir, M{"Core": core(dir, nil), "Guard": noLimit(), "Serve": M{"ServeDir": dir + "/www", "ServeIndex": "index.html", "Download": M{"Enabled": true, "Exts": []string{".zip", ".bin"}}}}, nil, srv.Opt{})
	if p == nil {
		return
	}
	defer stop(p)
	for k := 0; k < 3; k++ {
		wit := M{"files": len(want)}
		resp, err := client(p, "").Get("/", "x.test")
		if err != nil || resp.Status != 200 {
			r.Violate("no-answer", wit, "no index page: %v", err)
			return
		}
		rows, why := c28Parse(string(resp.Body))
		if why != "" {
			r.Violate("malformed", wit, "the index page of %d files: %s", len(want), why)
			return
		}
		left := map[string]bool{}
		for f := range want {
			left[f] = true
		}
		for _, row := range rows {
			t := c28Target(row.href)
			if !left[t] {
				r.Violate("wrong-row", srv.Merge(wit, M{"href": row.href}), "a link to %q, which is no downloadable file or is listed twice", t)
				return
			}
			delete(left, t)
		}
		if len(left) > 0 {
			wit["missing"] = keysSorted(left)[:min(len(left), 20)]
			r.Violate("missing", wit, "%d of %d files are not listed", len(left), len(want))
			return
		}
		r.Eval(fmt.Sprint("many ", len(rows)))
		r.Count("rows_of_large_lists", len(rows))
	}
}

type c28File struct {
	data string
	mod  time.Time
}

type c28Site struct {
	host  string
	dir   string
	exts  []string
	files map[string]c28File // relative path -> regular, readable file
	links map[string]string  // symlink -> file it leads to
	odd   map[string]string  // path -> kind, never listed
	n     int
}

func (s *c28Site) has(rel string) bool {
	e := filepath.Ext(rel)
	for _, x := range s.exts {
		if x == e {
			return true
		}
	}
	return false
}

var c28Names = []string{"a", "b", "file one", "x&y", "<script>alert(1)<", "\"quoted\"", "'q'", "a#b", "a?b=c", "100%", "%41", "%2e%2e", "a+b", "ü", "日本", "\xff\xfe", "new\nline", "tab\tx", "back\\slash", "a:b", ";semi", "-dash", ".hidden", "..dots", "...", "a..b", "&amp;", "</a></td></tr>", "{{.X}}", "{{`", "$HOME", "~", "javascript:alert(1)", "a b  c", "c\r", "\x01", "*", "[x]", "index", "http:", "AAAA" + "BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBB"}
var c28Exts = []string{".txt", ".bin", ".html", ".zip", ".tar.gz", ".TXT", ".b&b", ".q\"q", ".", ".é", ""}

func (s *c28Site) write(g *rand.Rand, rel string) {
	f := filepath.Join(s.dir, rel)
	if err := os.MkdirAll(filepath.Dir(f), 0o755); err != nil {
		return
	}
	s.n++
	d := fmt.Sprintf("DATA %s %q %d", s.host, rel, s.n) + strings.Repeat("#", pick(g, []int{0, 0, 1, 100, 5000, 300000}))
	if chance(g, .05) {
		d = ""
	}
	if err := os.WriteFile(f, []byte(d), 0o644); err != nil {
		return
	}
	if chance(g, .4) {
		os.Chmod(f, pick(g, []os.FileMode{0o755, 0o444, 0o777, 0o755 | os.ModeSetuid, 0o755 | os.ModeSetgid, 0o644 | os.ModeSticky}))
	}
	m := time.Now().Add(-time.Duration(g.IntN(100000000)) * time.Second)
	os.Chtimes(f, m, m)
	s.files[rel] = c28File{d, m}
}

func (s *c28Site) name(g *rand.Rand) string {
	p := ""
	for i := pick(g, []int{0, 0, 0, 1, 1, 2, 4}); i > 0; i-- {
		d := pick(g, c28Names)
		if chance(g, .2) {
			d += pick(g, c28Exts)
		}
		if d == "." || d == ".." {
			d = "d"
		}
		p += d + "/"
	}
	n := pick(g, c28Names) + pick(g, append(c28Exts, s.exts...))
	if chance(g, .06) {
		n = pick(g, s.exts) // nothing but the extension
	}
	if n == "" || n == "." || n == ".." {
		n = "n"
	}
	return p + n
}

func c28Site1(g *rand.Rand, dir, host string) *c28Site {
	s := &c28Site{host: host, dir: dir, files: map[string]c28File{}, links: map[string]string{}, odd: map[string]string{}}
	for i := 1 + g.IntN(4); i > 0; i-- {
		s.exts = append(s.exts, pick(g, []string{".txt", ".txt", ".bin", ".html", ".zip", ".gz", ".TXT", ".b&b", ".q\"q", ".none", ".é"}))
	}
	if chance(g, .3) {
		s.exts = append(s.exts, s.exts[0]) // listed twice
	}
	os.MkdirAll(dir, 0o755)
	os.Chmod(dir, 0o755)
	for i := pick(g, []int{0, 1, 10, 60}); i > 0; i-- {
		rel := s.name(g)
		if !s.free(rel) {
			continue
		}
		s.write(g, rel)
	}
	ext := func() string { return pick(g, s.exts) }
	for i := g.IntN(4); i > 0; i-- { // things that cannot be downloaded
		rel := pick(g, []string{"odd", "o/dd", "o/p/q"}) + fmt.Sprint(i) + ext()
		if !s.free(rel) {
			continue
		}
		f := filepath.Join(dir, rel)
		os.MkdirAll(filepath.Dir(f), 0o755)
		kind := pick(g, []string{"directory", "dangling", "dirlink", "fifo", "loop", "secretdir", "secret"})
		var err error
		switch kind {
		case "directory":
			err = os.Mkdir(f, 0o755)
		case "dangling":
			err = os.Symlink("nowhere"+ext(), f)
		case "dirlink":
			os.Mkdir(f+".d", 0o755)
			err = os.Symlink(filepath.Base(f)+".d", f)
		case "fifo":
			err = syscall.Mkfifo(f, 0o666)
		case "loop":
			err = os.Symlink(filepath.Base(f), f)
		case "secretdir":
			os.Mkdir(f, 0o755)
			put(f, "x"+ext(), "SECRET")
			err = os.Chmod(f, pick(g, []os.FileMode{0, 0o600, 0o700, 0o100, 0o711&^0o77 | 0o44}))
			if fi, _ := os.Stat(f); fi != nil && fi.Mode().Perm() == 0o744 {
				kind = "listdir" // names can be read, files cannot
			}
		case "secret":
			put(dir, rel, "SECRET")
			err = os.Chmod(f, 0o600)
		}
		if err == nil {
			s.odd[rel] = kind
		}
	}
	for i := g.IntN(3); i > 0 && len(s.files) > 0; i-- {
		to := pick(g, keysSorted(s.files))
		rel := fmt.Sprint("ln", i) + ext()
		if s.free(rel) && os.Symlink(filepath.Join(dir, to), filepath.Join(dir, rel)) == nil {
			s.links[rel] = to
		}
	}
	return s
}

func keysSorted[V any](m map[string]V) []string {
	var k []string
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}

// free reports whether a path can be created as a file.
func (s *c28Site) free(rel string) bool {
	if _, err := os.Lstat(filepath.Join(s.dir, rel)); err == nil {
		return false
	}
	for d := path.Dir(rel); d != "."; d = path.Dir(d) {
		if fi, err := os.Lstat(filepath.Join(s.dir, d)); err == nil && (!fi.IsDir() || s.odd[d] != "") {
			return false
		}
	}
	return true
}

type c28Row struct {
	href, text, size, mod string
}

var c28TR = regexp.MustCompile(`(?s)<tr[^>]*>(.*?)</tr>`)
var c28A = regexp.MustCompile(`(?s)<a\s[^>]*?href\s*=\s*"([^"]*)"[^>]*>(.*?)</a>`)
var c28TD = regexp.MustCompile(`(?s)<td[^>]*>(.*?)(?:</td>|$)`)
var c28Tag = regexp.MustCompile(`<[^>]*>`)

// c28Parse takes the rows of an index page; ok is false if it has another shape.
func c28Parse(page string) (rows []c28Row, why string) {
	if n := strings.Count(strings.ToLower(page), "<script"); n > 0 {
		return nil, "it contains a script"
	}
	body := page
	if i := strings.Index(page, "<table"); i >= 0 {
		body = page[i:]
	}
	if i := strings.LastIndex(body, "</table>"); i >= 0 {
		body = body[:i]
	} else {
		return nil, "the table does not end"
	}
	trs := c28TR.FindAllStringSubmatch(body, -1)
	links := strings.Count(body, "<a")
	for _, tr := range trs {
		as := c28A.FindAllStringSubmatch(tr[1], -1)
		if len(as) == 0 {
			continue
		}
		if len(as) > 1 {
			return nil, "a row has several links: " + clip(tr[1])
		}
		links--
		row := c28Row{href: html.UnescapeString(as[0][1]), text: html.UnescapeString(as[0][2])}
		if strings.ContainsAny(as[0][2], "<>") {
			return nil, "markup in a name: " + clip(as[0][2])
		}
		rest := tr[1][strings.Index(tr[1], "</a>"):]
		var cells []string
		for _, td := range c28TD.FindAllStringSubmatch(rest, -1) {
			cells = append(cells, strings.TrimSpace(html.UnescapeString(c28Tag.ReplaceAllString(td[1], ""))))
		}
		if len(cells) < 2 {
			return nil, "a row without size and date: " + clip(tr[1])
		}
		row.size, row.mod = cells[0], cells[1]
		rows = append(rows, row)
	}
	if links != 0 {
		return nil, fmt.Sprintf("%d links outside of the rows", links)
	}
	return rows, ""
}

// c28Target turns a link into the request target a browser would send; "" if it leads elsewhere.
func c28Target(href string) string {
	h := strings.NewReplacer("\t", "", "\n", "", "\r", "", "\\", "/").Replace(strings.TrimFunc(href, func(c rune) bool { return c <= 0x20 }))
	if i := strings.IndexByte(h, '#'); i >= 0 {
		h = h[:i]
	}
	base, _ := url.Parse("http://site/")
	var b strings.Builder // browsers escape what cannot be in a target and keep other percent signs
	for i := 0; i < len(h); i++ {
		c := h[i]
		if c <= 0x20 || c >= 0x7f || strings.IndexByte("\"<>`{}", c) >= 0 {
			fmt.Fprintf(&b, "%%%02X", c)
		} else {
			b.WriteByte(c)
		}
	}
	h = b.String()
	if strings.HasPrefix(h, "/") && !strings.HasPrefix(h, "//") {
		return h
	}
	u, err := base.Parse(h)
	if err != nil || u.Host != "site" || u.Scheme != "http" {
		return ""
	}
	return u.RequestURI()
}

func c28Server(r *rep.R, g *rand.Rand, s int) {
	dir := rep.Scratch("c28")
	os.Chmod(dir, 0o777)
	os.MkdirAll(dir+"/files", 0o777)
	os.Chmod(dir+"/files", 0o777)
	tpl := chance(g, .5)
	if tpl {
		put(dir, "files/templates/download.html", "<html><body>{{.DownloadTable}}</body></html>")
	}
	for _, d := range []string{"/files", "/files/templates"} {
		os.Chmod(dir+d, 0o777)
	}
	var sites []*c28Site
	vh := map[string]M{}
	for i := 0; i < 3; i++ {
		st := c28Site1(g, fmt.Sprintf("%s/site%d", dir, i), fmt.Sprintf("s%d.test", i))
		sites = append(sites, st)
		vh[st.host] = M{"Guard": noLimit(), "Serve": M{"ServeDir": st.dir + pick(g, []string{"", "/"}), "ServeIndex": "index.html", "Download": M{"Enabled": true, "Exts": st.exts}}}
	}
	main := M{"Core": core(dir, nil)}
	if s%4 == 3 {
		main = srv.Merge(main, vh[sites[0].host])
		sites, vh = sites[:1], nil
	}
	var wrap []string
	if s%2 == 0 { // unprivileged, so that permissions count
		wrap = unprivileged
	}
	p := launch(r, g, dir, main, vh, srv.Opt{Wrap: wrap})
	if p == nil {
		return
	}
	defer stop(p)
	root := wrap == nil
	c := client(p, "")
	c.Timeout = 60 * time.Second
	for step := 0; step < r.N(12, 30) && !r.Stop(); step++ {
		for _, st := range sites {
			c28Page(r, c, st, root, step)
			c28Change(g, st)
		}
	}
	// changes while requests are answered
	for _, st := range sites {
		c28Storm(r, g, p, st, root)
		if r.Stop() {
			break
		}
	}
	if chance(g, .7) { // the whole directory is gone, and comes back
		st := sites[0]
		os.Rename(st.dir, st.dir+".gone")
		for _, target := range []string{"/", "/x.txt", "/a/b.txt"} {
			resp, err := c.Get(target, st.host)
			if err != nil {
				r.Violate("gone-no-answer", M{"target": target}, "no answer without the site's directory: %v", err)
			} else if resp.Status == 200 && target != "/" {
				r.Violate("gone-status", M{"target": target}, "status 200 for a file without the site's directory")
			}
			r.Eval(fmt.Sprint("gone", target))
		}
		os.Rename(st.dir+".gone", st.dir)
		c28Page(r, c, st, root, 999)
	}
	c.Close()
	checkAlive(r, p, nil)
	checkPanics(r, p, "panic")
	for _, st := range sites {
		for rel := range st.odd {
			os.Chmod(filepath.Join(st.dir, rel), 0o755)
		}
	}
}

// expect returns what the index page has to list, and what it may list.
func (st *c28Site) expect(root bool) (must map[string]c28File, may map[string]bool) {
	must, may = map[string]c28File{}, map[string]bool{}
	for rel, f := range st.files {
		if st.has(rel) {
			must[rel] = f
		}
	}
	for rel, to := range st.links {
		if f, ok := st.files[to]; ok && st.has(rel) {
			must[rel] = f
		}
	}
	for rel, k := range st.odd {
		switch {
		case k == "secret" && root:
			must[rel] = c28File{data: "SECRET"}
		case k == "secret": // exists but cannot be read
			may[rel] = true
		case k == "secretdir" || k == "listdir":
			for _, e := range st.exts {
				if _, err := os.Stat(filepath.Join(st.dir, rel, "x"+e)); err == nil {
					if root {
						must[rel+"/x"+e] = c28File{data: "SECRET"}
					} else {
						may[rel+"/x"+e] = true
					}
				}
			}
		}
	}
	return
}

func c28Page(r *rep.R, c *srv.Client, st *c28Site, root bool, step int) {
	must, may := st.expect(root)
	wit := M{"exts": st.exts, "files": len(st.files), "odd": st.odd, "step": step, "unprivileged": !root}
	resp, err := c.Get("/", st.host)
	if err != nil {
		r.Violate("no-answer", wit, "no answer for the index page: %v", err)
		return
	}
	if resp.Status != 200 || !strings.HasPrefix(resp.Header.Get("Content-Type"), "text/html") {
		r.Violate("index-status", wit, "index page: status %d, type %q", resp.Status, resp.Header.Get("Content-Type"))
		return
	}
	rows, why := c28Parse(string(resp.Body))
	if why != "" {
		wit["page"] = tailS(string(resp.Body), 3000)
		r.Violate("malformed", wit, "malformed index page: %s", why)
		return
	}
	seen := map[string]bool{}
	for _, row := range rows {
		w := srv.Merge(wit, M{"href": row.href, "text": row.text, "size": row.size, "mod": row.mod})
		t := c28Target(row.href)
		if t == "" {
			r.Violate("foreign-link", w, "a link leads away from the site: %q", row.href)
			continue
		}
		p, _, _ := strings.Cut(t, "?")
		un, err := url.PathUnescape(p)
		rel := strings.TrimPrefix(un, "/")
		f, ok := must[rel]
		if err != nil || !ok && !may[rel] {
			r.Violate("wrong-row", w, "the index page links to %q, which is not a downloadable file", t)
			continue
		}
		if seen[rel] {
			r.Violate("twice", w, "the index page lists a file twice: %q", rel)
		}
		seen[rel] = true
		if row.text != rel && row.text != path.Base(rel) {
			r.Violate("wrong-name", w, "the index page calls the file %q %q", rel, row.text)
		}
		if !ok {
			continue
		}
		if row.size != fmt.Sprint(len(f.data)) {
			r.Violate("wrong-size", w, "the index page says %s for %q with %d bytes", row.size, rel, len(f.data))
		}
		if !f.mod.IsZero() && !strings.Contains(row.mod, f.mod.Format("2006-01-02 15:04:05")) && !strings.Contains(row.mod, f.mod.UTC().Format("2006-01-02 15:04:05")) {
			r.Violate("wrong-date", w, "the index page says %s for %q of %s", row.mod, rel, f.mod)
		}
		if step%4 == 0 || r.Tier == "thorough" {
			c28Follow(r, c, st, t, rel, f, w)
		}
	}
	for rel := range must {
		if !seen[rel] {
			wit["missing"] = rel
			r.Violate("missing", wit, "the index page does not list %q", rel)
			break
		}
	}
	for rel, k := range st.odd {
		if step%4 == 0 && (k == "fifo" || k == "directory" || k == "dangling" || k == "loop" || k == "dirlink") {
			resp, err := c.Get((&url.URL{Path: "/" + rel}).EscapedPath(), st.host)
			if err != nil {
				r.Violate("odd-no-answer", srv.Merge(wit, M{"path": rel, "kind": k}), "no answer for a %s: %v", k, err)
			} else if resp.Status == 200 {
				r.Violate("odd-status", srv.Merge(wit, M{"path": rel, "kind": k}), "status 200 for a %s", k)
			}
			r.Eval(fmt.Sprint("odd", k))
			r.Count("odd_files_requested", 1)
		}
	}
	r.Eval(fmt.Sprint(st.exts, len(must), len(may), len(rows), step))
	r.Count("index_pages", 1)
	r.Count("rows", len(rows))
	if r.WantSample() && len(rows) > 0 {
		r.Sample(srv.Merge(wit, M{"row": rows[0]}))
	}
}

func c28Follow(r *rep.R, c *srv.Client, st *c28Site, target, rel string, f c28File, w M) {
	resp, err := c.Get(target, st.host)
	if err != nil {
		r.Violate("link-no-answer", w, "following the link to %q: %v", rel, err)
		return
	}
	if resp.Status != 200 || resp.BodyErr != nil || string(resp.Body) != f.data {
		w["status"], w["body"] = resp.Status, clip(string(resp.Body))
		r.Violate("link-broken", w, "the link to %q (%s) gives status %d, %d bytes", rel, target, resp.Status, len(resp.Body))
		return
	}
	if d := strings.ToLower(resp.Header.Get("Content-Disposition")); d == "" || strings.HasPrefix(strings.TrimSpace(d), "inline") {
		r.Violate("not-attachment", w, "%q is not sent as an attachment: Content-Disposition %q", rel, d)
	}
	r.Eval("follow " + st.host + rel)
	r.Count("links_followed", 1)
}

// c28Change changes the tree.
func c28Change(g *rand.Rand, st *c28Site) {
	for i := g.IntN(5); i > 0; i-- {
		ks := keysSorted(st.files)
		switch k := g.IntN(6); {
		case k < 2 || len(ks) == 0:
			if rel := st.name(g); st.free(rel) {
				st.write(g, rel)
			}
		case k == 2:
			rel := pick(g, ks)
			os.Remove(filepath.Join(st.dir, rel))
			delete(st.files, rel)
		case k == 3: // rename
			rel, to := pick(g, ks), st.name(g)
			if st.free(to) {
				os.MkdirAll(filepath.Dir(filepath.Join(st.dir, to)), 0o755)
				if os.Rename(filepath.Join(st.dir, rel), filepath.Join(st.dir, to)) == nil {
					st.files[to] = st.files[rel]
					delete(st.files, rel)
				}
			}
		case k == 4: // grow or shrink
			st.write(g, pick(g, ks))
		default: // a whole directory goes
			rel := pick(g, ks)
			if d, _, ok := strings.Cut(rel, "/"); ok && st.odd[d] == "" {
				odd := false
				for o := range st.odd {
					odd = odd || strings.HasPrefix(o, d+"/")
				}
				if odd {
					continue
				}
				os.RemoveAll(filepath.Join(st.dir, d))
				for k := range st.files {
					if strings.HasPrefix(k, d+"/") {
						delete(st.files, k)
					}
				}
			}
		}
	}
}

// c28Storm changes a part of the tree while the index page is read; the rest must always be right.
func c28Storm(r *rep.R, g *rand.Rand, p *srv.Proc, st *c28Site, root bool) {
	must, may := st.expect(root)
	ext := st.exts[0]
	base := filepath.Join(st.dir, "zz storm")
	os.MkdirAll(base, 0o755)
	var wg, rd sync.WaitGroup
	var done atomic.Bool
	for k := 0; k < 4; k++ {
		gg := rand.New(rand.NewPCG(r.Seed, uint64(k)))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for !done.Load() {
				d := filepath.Join(base, fmt.Sprint("d", gg.IntN(6)))
				f := filepath.Join(d, fmt.Sprint("f", gg.IntN(6))+ext)
				switch gg.IntN(6) {
				case 0, 1:
					os.MkdirAll(d, 0o755)
					os.WriteFile(f, []byte("storm"), 0o644)
				case 2:
					os.Remove(f)
				case 3:
					os.RemoveAll(d)
				case 4:
					os.Rename(d, d+"x")
					os.Rename(d+"x", d)
				case 5:
					os.MkdirAll(filepath.Join(d, "deep", "er"), 0o755)
					os.WriteFile(filepath.Join(d, "deep", "er", "f"+ext), []byte("storm"), 0o644)
				}
			}
		}()
	}
	for k := 0; k < 6; k++ {
		rd.Add(1)
		go func() {
			defer rd.Done()
			c := client(p, "")
			c.Timeout = 60 * time.Second
			defer c.Close()
			wit := M{"exts": st.exts, "storm": true}
			for n := 0; n < r.N(40, 150) && !r.Stop(); n++ {
				if n%4 == 3 && len(must) > 0 {
					rel := keysSorted(must)[n%len(must)]
					c28Follow(r, c, st, (&url.URL{Path: "/" + rel}).EscapedPath(), rel, must[rel], srv.Merge(wit, M{"path": rel}))
					continue
				}
				resp, err := c.Get("/", st.host)
				if err != nil {
					r.Violate("storm-no-answer", wit, "no answer for the index page while the directory changes: %v", err)
					return
				}
				rows, why := c28Parse(string(resp.Body))
				if resp.Status != 200 || why != "" {
					r.Violate("storm-page", wit, "index page while the directory changes: status %d, %s", resp.Status, why)
					return
				}
				seen := map[string]bool{}
				for _, row := range rows {
					t, _, _ := strings.Cut(c28Target(row.href), "?")
					un, _ := url.PathUnescape(t)
					rel := strings.TrimPrefix(un, "/")
					if _, ok := must[rel]; !ok && !may[rel] && !strings.HasPrefix(rel, "zz storm/") || filepath.Ext(rel) == "" {
						r.Violate("storm-wrong-row", srv.Merge(wit, M{"row": row}), "the index page lists %q", rel)
					}
					seen[rel] = true
				}
				for rel := range must {
					if !seen[rel] {
						r.Violate("storm-missing", srv.Merge(wit, M{"file": rel}), "a file that was there all the time is not listed: %q", rel)
						break
					}
				}
				r.Eval(fmt.Sprint("storm", st.host, len(rows)))
				r.Count("index_pages_in_storm", 1)
			}
		}()
	}
	rd.Wait()
	done.Store(true)
	wg.Wait()
	os.RemoveAll(base)
}
