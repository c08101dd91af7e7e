package checks

import (
	"crypto/tls"
	"encoding/json"
	"fmt"
	"html"
	"io"
	"math/rand/v2"
	"net"
	"net/http"
	"regexp"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"verifharness/model"
	"verifharness/rep"
	"verifharness/srv"
)

func TestC21(t *testing.T) {
	r := rep.New("C21", "A case is one fetch of the metrics page by a misbehaving client (never reads, reads slowly, resets or closes after a chosen number of bytes, cancels its HTTP/2 stream, HEAD, wrong credentials), at page sizes from a few hundred bytes to tens of MB, or one request whose path or host holds markup. Judged: while and after such clients are there, requests of all other kinds keep being answered and are counted exactly; on the raw page no marker of a visitor appears as markup, while its unescaped text still shows the path. Distinct = (behaviour, protocol, page size, byte position) or (markup kind, placement).")
	r.Watchdog(150*time.Second, true)
	for s := 0; s < r.N(6, 40) && !r.Stop(); s++ {
		r.Phase(fmt.Sprint("stalls ", s))
		c21Stall(r, r.Rng(fmt.Sprint("stall", s)), s)
	}
	for s := 0; s < r.N(3, 20) && !r.Stop(); s++ {
		r.Phase(fmt.Sprint("markup ", s))
		c21Markup(r, r.Rng(fmt.Sprint("markup", s)), s)
	}
	r.Finish()
}

var c21Stalls = []string{"never-read", "slow", "reset", "close", "h2-never-read", "h2-cancel", "head", "denied", "pipeline", "half-close"}

func c21Stall(r *rep.R, g *rand.Rand, s int) {
	size := []int{80000, 400, 20000, 3, 250000, 5000}[s%6]
	short := s%2 == 1 // the stalled page is cut off meanwhile
	w := newWorld(r, g, "c21", true, "", func(w *world, main M, vh map[string]M) {
		b, _ := json.Marshal(bigMetrics(size))
		put(w.dir, "metrics.json", string(b))
		to := 600
		if short {
			to = 2
		}
		main["Core"] = srv.Merge(main["Core"].(M), M{"WriteTimeout": to, "ReadTimeout": 600})
	})
	if w == nil {
		return
	}
	defer w.close()
	w.up.Respond = func(q *srv.UpReq, c net.Conn) bool {
		io.WriteString(c, "HTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\nup")
		return true
	}
	wit := M{"server": s, "paths": size, "write_timeout_short": short}
	// how long the page is
	pc := client(w.p, "")
	resp, err := pc.Get("/metrics", "m.test", [2]string{"Authorization", adminAuth})
	if err != nil || resp.Status != 200 {
		r.Violate("page", wit, "metrics page: %v", err)
		return
	}
	page := len(resp.Body)
	pc.Close()
	before, _ := parsePage(string(resp.Body))
	wit["page_bytes"] = page

	var conns []io.Closer
	var cmu sync.Mutex
	defer func() {
		for _, c := range conns {
			c.Close()
		}
	}()
	keep := func(c io.Closer) { cmu.Lock(); conns = append(conns, c); cmu.Unlock() }
	var kinds []string
	for i := 0; i < 16; i++ {
		kinds = append(kinds, c21Stalls[(i+s)%len(c21Stalls)])
	}
	var served atomic.Int64
	sent := map[string]int{}
	var smu sync.Mutex
	probe := func(gg *rand.Rand, f fetch, n int, stage string) bool {
		for q := 0; q < n; q++ {
			host := pick(gg, []string{"serve0.test", "download1.test", "proxy0.test", "dead1.test", "fw0.test", "nobody.test"})
			path := pick(gg, []string{"/", "/probe-" + fmt.Sprint(gg.IntN(4)), "/secret/s.txt", "/a/f.txt"})
			t0 := time.Now()
			if _, err := f("GET", path, host, nil); err != nil {
				wit["stage"], wit["waited_ms"], wit["request"] = stage, time.Since(t0).Milliseconds(), host+path
				r.Violate("others-blocked", wit, "while clients misbehave on the metrics page (%s) another request got: %v", strings.Join(kinds, " "), err)
				return false
			}
			served.Add(1)
			smu.Lock()
			sent[model.HostOf(host)+path]++
			smu.Unlock()
		}
		return true
	}
	var wg sync.WaitGroup
	for i, kind := range kinds {
		gg := rand.New(rand.NewPCG(r.Seed*3+uint64(s), uint64(i)))
		wg.Add(1)
		go func() {
			defer wg.Done()
			pos := c21Misbehave(w.p, gg, kind, page, keep)
			r.Eval(fmt.Sprint("stall", kind, page>>10, pos>>12))
			r.Count("behaviour_"+kind, 1)
		}()
	}
	stopP := make(chan struct{})
	var pg sync.WaitGroup
	for i := 0; i < 4; i++ {
		gg := rand.New(rand.NewPCG(r.Seed*5+uint64(s), uint64(100+i)))
		f := h1Client(w.p, fmt.Sprintf("127.0.0.%d", 20+i))
		if i%2 == 1 {
			f = h2Client(w.p)
		}
		pg.Add(1)
		go func() {
			defer pg.Done()
			for {
				select {
				case <-stopP:
					return
				default:
				}
				if !probe(gg, f, 10, "meanwhile") {
					return
				}
				r.Beat()
				time.Sleep(2 * time.Millisecond)
			}
		}()
	}
	wg.Wait()
	time.Sleep(time.Duration(g.IntN(300)) * time.Millisecond)
	if short {
		time.Sleep(2500 * time.Millisecond) // until stalled pages are cut off
	}
	close(stopP)
	pg.Wait()
	if r.Stop() && r.Violations() > 0 {
		return
	}
	if !probe(g, h1Client(w.p, "127.0.0.44"), 20, "afterwards") || !probe(g, h2Client(w.p), 20, "afterwards") {
		return
	}
	r.Count("requests_of_others", int(served.Load()))
	// and everything was counted
	deadline := time.Now().Add(20 * time.Second)
	for {
		resp, err := client(w.p, "").Get("/metrics", "m.test", [2]string{"Authorization", adminAuth})
		if err != nil || resp.Status != 200 || resp.BodyErr != nil && !short {
			r.Violate("page-after", wit, "metrics page afterwards: %v", err)
			return
		}
		bad := ""
		if resp.BodyErr == nil {
			m, err := parsePage(string(resp.Body))
			if err != nil {
				bad = err.Error()
			} else {
				bad = c21Counted(before, m, sent)
			}
		}
		if bad == "" {
			break
		}
		if time.Now().After(deadline) {
			r.Violate("not-counted", wit, "%s", bad)
			break
		}
		time.Sleep(100 * time.Millisecond)
	}
	checkAlive(r, w.p, wit)
	checkPanics(r, w.p, "panic")
	if r.WantSample() {
		r.Sample(wit)
	}
}

func c21Counted(before, m *snap, sent map[string]int) string {
	a, b := before.norm(), m.norm()
	for k, n := range sent {
		got := 0
		for st, c := range b[k] {
			got += c - a[k][st]
		}
		if got != n {
			return fmt.Sprintf("%s was requested %d times but counted %d times", k, n, got)
		}
	}
	return ""
}

// c21Misbehave fetches the page in a bad way; it returns the byte position where it stopped.
func c21Misbehave(p *srv.Proc, g *rand.Rand, kind string, page int, keep func(io.Closer)) int {
	auth := adminAuth
	if kind == "denied" {
		auth = "Basic bm86Ym9keQ=="
	}
	pos := 0
	if g.IntN(3) > 0 {
		pos = g.IntN(page + 1)
	}
	if strings.HasPrefix(kind, "h2") {
		tr := &http.Transport{TLSClientConfig: &tls.Config{InsecureSkipVerify: true, NextProtos: []string{"h2"}}, ForceAttemptHTTP2: true, DisableCompression: true}
		req, _ := http.NewRequest("GET", "https://"+p.Addr+"/metrics", nil)
		req.Header.Set("Authorization", auth)
		cl := &http.Client{Transport: tr, Timeout: 300 * time.Second}
		res, err := cl.Do(req)
		if err != nil {
			return 0
		}
		if kind == "h2-cancel" {
			io.CopyN(io.Discard, res.Body, int64(pos))
			res.Body.Close()
			return pos
		}
		keep(res.Body)
		return 0
	}
	d := net.Dialer{Timeout: 30 * time.Second}
	raw, err := d.Dial("tcp", p.Addr)
	if err != nil {
		return 0
	}
	tcp := raw.(*net.TCPConn)
	if kind == "never-read" || kind == "pipeline" || kind == "half-close" || kind == "slow" {
		tcp.SetReadBuffer(4096)
	}
	cn := tls.Client(raw, srv.TLSClient("localhost"))
	cn.SetDeadline(time.Now().Add(90 * time.Second))
	method := "GET"
	if kind == "head" {
		method = "HEAD"
	}
	q := srv.Req(method, "/metrics", "m.test", [][2]string{{"Authorization", auth}}, nil)
	if kind == "pipeline" {
		q = append(append(q, q...), q...)
	}
	if _, err := cn.Write(q); err != nil {
		return 0
	}
	switch kind {
	case "never-read", "pipeline":
		keep(cn)
		return 0
	case "half-close":
		cn.CloseWrite()
		keep(cn)
		return 0
	case "slow":
		b := make([]byte, 512)
		cn.SetReadDeadline(time.Now().Add(2 * time.Second))
		for i := 0; i < 20; i++ {
			n, err := cn.Read(b)
			pos += n
			if err != nil {
				break
			}
			time.Sleep(20 * time.Millisecond)
		}
		keep(cn)
		return pos
	case "head", "denied":
		io.CopyN(io.Discard, cn, 50)
		cn.Close()
		return 50
	}
	io.CopyN(io.Discard, cn, int64(pos))
	if kind == "reset" {
		tcp.SetLinger(0)
		raw.Close()
		return pos
	}
	cn.Close()
	return pos
}

var c21Tags = []string{"<script>%s</script>", "<b%s>", "<img src=x onerror=%s>", "</li><%s>", "</ul></body><%s", "<!--%s-->", "\"><%s>", "'><%s", "<%s", "<svg/onload=%s>", "<a href=\"javascript:%s\">", "<iframe srcdoc=\"&lt;%s\">", "&lt;%s&gt;", "&#60;%s", "&%s;", "<\x00%s>", "<%s\xff>", "</TITLE><%s>", "<%s\n>", "]]><%s"}

var reTag = regexp.MustCompile(`(?i)<[/!?]*[a-z][^<>]*`)

func c21Markup(r *rep.R, g *rand.Rand, s int) {
	w := newWorld(r, g, "c21m", true, "", nil)
	if w == nil {
		return
	}
	defer w.close()
	c := client(w.p, "")
	own := map[string]bool{} // what the page is made of without visitors
	get := func() (string, bool) {
		resp, err := c.Get("/metrics", "m.test", [2]string{"Authorization", adminAuth})
		if err != nil || resp.Status != 200 || resp.BodyErr != nil {
			r.Violate("page", M{"server": s}, "metrics page: %v", err)
			return "", false
		}
		return string(resp.Body), true
	}
	c.Get("/", "serve0.test")
	get()
	b, ok := get()
	if !ok {
		return
	}
	for _, t := range reTag.FindAllString(b, -1) {
		own[t] = true
	}
	if len(own) == 0 {
		r.Inconclusive("no tag found on the metrics page")
		return
	}
	for i := 0; i < r.N(120, 800) && !r.Stop(); i++ {
		mark := fmt.Sprintf("zq%dq%dz", s, i)
		kind := c21Tags[(i+s)%len(c21Tags)]
		text := fmt.Sprintf(kind, mark)
		place := pick(g, []string{"path", "path", "path-raw", "host", "query", "deep", "h2-path", "encoded", "encoded", "entities"})
		host, path := pick(g, append([]string{"nobody.test"}, w.order...)), ""
		enc := func(t string, hard bool) string {
			o := ""
			for j := 0; j < len(t); j++ {
				ch := t[j]
				if hard || ch <= ' ' || ch >= 0x7f || ch == '%' || ch == '?' || ch == '#' || ch == '/' && !strings.Contains(place, "raw") {
					o += fmt.Sprintf("%%%02x", ch)
				} else {
					o += string(ch)
				}
			}
			return o
		}
		want := "" // text the page must show, if it is counted under it
		method := pick(g, []string{"GET", "GET", "HEAD", "POST", "FOO"})
		wit := M{"kind": kind, "place": place, "server": s}
		var err error
		var resp *srv.Resp
		switch place {
		case "encoded":
			// what is percent-encoded twice or more stays text with percent signs
			path = "/" + text
			for k := 1 + g.IntN(3); k >= 0; k-- {
				o := ""
				for j := 0; j < len(path); j++ {
					if ch := path[j]; ch == '%' || j > 0 && (chance(g, .4) || !(ch >= 'a' && ch <= 'z' || ch >= '0' && ch <= '9')) && k < 9 {
						o += fmt.Sprintf("%%%02x", ch)
					} else {
						o += string(ch)
					}
				}
				path = o
			}
		case "entities":
			path = "/" + enc(html.EscapeString(text), chance(g, .5))
		case "query":
			path = "/?" + enc(text, false)
		case "deep":
			path = "/a/" + enc(text, true) + "/b"
			want = model.Canon("/a/" + text + "/b")
		case "host":
			h := strings.NewReplacer("%", "", "/", "", "#", "", "?", "", "\x00", "", "\n", "", "\xff", "", " ", "", "\\", "", "&#", "&").Replace(text)
			path = "http://" + h + "/hostcase"
			wit["host_text"] = h
		default:
			path = "/" + enc(text, chance(g, .3))
			want = "/" + text
		}
		wit["target"] = path
		if place == "h2-path" {
			resp, err = h2Client(w.p)("GET", path, host, nil)
		} else {
			resp, err = c.Do(srv.Req(method, path, host, nil, nil), method)
		}
		if err != nil {
			continue // the HTTP library may refuse it
		}
		wit["status"] = resp.Status
		b, ok := get()
		if !ok {
			return
		}
		for _, t := range reTag.FindAllString(b, -1) {
			if !own[t] {
				r.Violate("markup", wit, "a request placed the markup %q on the metrics page", clip(t))
				if r.Stop() {
					return
				}
				own[t] = true
			}
		}
		for j := 0; ; {
			k := strings.Index(b[j:], mark)
			if k < 0 {
				break
			}
			j += k
			lo := max(0, j-60)
			before := b[lo:j]
			if x := strings.LastIndexByte(before, '<'); x >= 0 && strings.IndexByte(before[x:], '>') < 0 {
				r.Violate("markup", wit, "visitor text stands inside a tag of the metrics page: %q", b[lo:j+len(mark)])
			}
			j += len(mark)
		}
		shown := want != "" && strings.Contains(html.UnescapeString(b), mark)
		r.Eval(fmt.Sprint("markup", kind, place, method, resp.Status))
		r.Count("markup_"+place, 1)
		if shown {
			r.Count("markup_shown_as_text", 1)
		}
	}
	if r.Counter("markup_shown_as_text") == 0 && !r.Stop() {
		r.Inconclusive("no visitor text ever showed up on the page")
	}
	checkAlive(r, w.p, M{"server": s})
}
