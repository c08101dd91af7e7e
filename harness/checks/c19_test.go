package checks

import (
	"encoding/json"
	"fmt"
	"html"
	"math/rand/v2"
	"net"
	"os"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"
	"unicode/utf8"

	"verifharness/model"
	"verifharness/rep"
	"verifharness/srv"
)

// ledger is the client's account of answered requests.
type ledger struct {
	mu    sync.Mutex
	fixed map[string]map[int]int // key -> status -> count
	flex  map[string][]int       // key -> actual statuses that may be counted as 200 or as they are
	total int
}

func newLedger() *ledger { return &ledger{fixed: map[string]map[int]int{}, flex: map[string][]int{}} }

// metricKey is the comparable form of a path: bytes that are no UTF-8 cannot be told apart in JSON.
func metricKey(s string) string {
	var b strings.Builder
	last := false
	for i := 0; i < len(s); {
		c, n := utf8.DecodeRuneInString(s[i:])
		if c == utf8.RuneError {
			if !last {
				b.WriteRune(c)
			}
			last = true
		} else {
			b.WriteString(s[i : i+n])
			last = false
		}
		i += n
	}
	return b.String()
}

func (l *ledger) add(key string, status int, flexible bool) {
	l.mu.Lock()
	defer l.mu.Unlock()
	key = metricKey(key)
	l.total++
	if flexible {
		l.flex[key] = append(l.flex[key], status)
		return
	}
	if l.fixed[key] == nil {
		l.fixed[key] = map[int]int{}
	}
	l.fixed[key][status]++
}

// snap is the server's account.
type snap struct {
	TotalRequests int
	Paths         map[int]map[string]int
}

func (m *snap) sum() int {
	n := 0
	for _, ps := range m.Paths {
		for _, c := range ps {
			n += c
		}
	}
	return n
}

func (m *snap) norm() map[string]map[int]int {
	out := map[string]map[int]int{}
	for st, ps := range m.Paths {
		for p, c := range ps {
			k := metricKey(p)
			if out[k] == nil {
				out[k] = map[int]int{}
			}
			out[k][st] += c
		}
	}
	return out
}

// diff compares an account with the ledger; "" when they agree.
func (l *ledger) diff(m *snap) string {
	l.mu.Lock()
	defer l.mu.Unlock()
	if m.TotalRequests != l.total {
		return fmt.Sprintf("total %d, answered %d%s", m.TotalRequests, l.total, l.pathDiff(m))
	}
	if s := m.sum(); s != m.TotalRequests {
		return fmt.Sprintf("the counts per status and path sum to %d, the total is %d", s, m.TotalRequests)
	}
	return l.pathDiff(m)
}

func (l *ledger) pathDiff(m *snap) string {
	got := m.norm()
	keys := map[string]bool{}
	for k := range got {
		keys[k] = true
	}
	for k := range l.fixed {
		keys[k] = true
	}
	for k := range l.flex {
		keys[k] = true
	}
	names := make([]string, 0, len(keys))
	for k := range keys {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		want, have := l.fixed[k], got[k]
		allowed := map[int]int{}
		for _, s := range l.flex[k] {
			allowed[s]++
		}
		n := len(l.flex[k])
		extra := 0
		for st, c := range have {
			d := c - want[st]
			if d < 0 || d > 0 && st == 200 && d > n || d > 0 && st != 200 && d > allowed[st] {
				return fmt.Sprintf("; %q: counted %d times under %d, expected %d (all: %v, expected %v and %v)", clip(k), c, st, want[st], have, want, l.flex[k])
			}
			extra += d
		}
		for st, c := range want {
			if have[st] < c {
				return fmt.Sprintf("; %q: counted %d times under %d, expected %d (all: %v)", clip(k), have[st], st, c, have)
			}
		}
		if extra != n {
			return fmt.Sprintf("; %q: counted %v, expected %v and %v", clip(k), have, want, l.flex[k])
		}
	}
	return ""
}

var reTotal = regexp.MustCompile(`Total requests:\D*(\d+)`)
var reStatus = regexp.MustCompile(`(?s)<b>(\d+)</b>\s*<ul>(.*?)</ul>`)
var reItem = regexp.MustCompile(`(?s)<li>Amount: (\d+) - Path: (.*?)</li>`)

// parsePage reads the metrics page.
func parsePage(b string) (*snap, error) {
	m := &snap{Paths: map[int]map[string]int{}}
	t := reTotal.FindStringSubmatch(b)
	if t == nil {
		return nil, fmt.Errorf("no total on the page")
	}
	m.TotalRequests, _ = strconv.Atoi(t[1])
	for _, s := range reStatus.FindAllStringSubmatch(b, -1) {
		st, _ := strconv.Atoi(s[1])
		if m.Paths[st] == nil {
			m.Paths[st] = map[string]int{}
		}
		for _, it := range reItem.FindAllStringSubmatch(s[2], -1) {
			n, _ := strconv.Atoi(it[1])
			m.Paths[st][html.UnescapeString(it[2])] += n
		}
	}
	return m, nil
}

const adminAuth = "Basic YWRtaW46cHc="

// readPage fetches the metrics page and accounts for the fetch.
func readPage(c *srv.Client, host string, l *ledger) (*snap, error) {
	resp, err := c.Get("/metrics", host, [2]string{"Authorization", adminAuth})
	if err != nil {
		return nil, err
	}
	if resp.Status != 200 || resp.BodyErr != nil {
		return nil, fmt.Errorf("metrics page: status %d, %v", resp.Status, resp.BodyErr)
	}
	m, err := parsePage(string(resp.Body))
	if l != nil {
		l.add(model.HostOf(host)+"/metrics", 200, false)
	}
	return m, err
}

// settle polls the page until it agrees with the ledger and stays so.
func settle(r *rep.R, c *srv.Client, l *ledger, wit M, key string) bool {
	deadline := time.Now().Add(20 * time.Second)
	last := ""
	good := 0
	for {
		r.Beat()
		l.mu.Lock() // the page shows the state before its own request is counted
		before := &ledger{fixed: clone2(l.fixed), flex: cloneS(l.flex), total: l.total}
		l.mu.Unlock()
		m, err := readPage(c, "stats.test", l)
		if err != nil {
			r.Violate(key+"-page", wit, "%v", err)
			return false
		}
		if last = before.diff(m); last == "" {
			if good++; good == 2 {
				return true
			}
			continue
		}
		good = 0
		if m.TotalRequests > before.total+5 || time.Now().After(deadline) {
			wit["page_total"] = m.TotalRequests
			r.Violate(key, wit, "metrics page: %s", last)
			return false
		}
		time.Sleep(50 * time.Millisecond)
	}
}

func clone2(m map[string]map[int]int) map[string]map[int]int {
	o := map[string]map[int]int{}
	for k, v := range m {
		o[k] = map[int]int{}
		for a, b := range v {
			o[k][a] = b
		}
	}
	return o
}

func cloneS(m map[string][]int) map[string][]int {
	o := map[string][]int{}
	for k, v := range m {
		o[k] = append([]int(nil), v...)
	}
	return o
}

// readMetricsFile parses a metrics file strictly.
func readMetricsFile(path string) (*snap, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	return parseMetrics(b)
}

func parseMetrics(b []byte) (*snap, error) {
	var m snap
	if err := json.Unmarshal(b, &m); err != nil {
		return nil, fmt.Errorf("%v in %d bytes", err, len(b))
	}
	if m.Paths == nil {
		m.Paths = map[int]map[string]int{}
	}
	return &m, nil
}

// bigMetrics is a metrics state with n paths.
func bigMetrics(n int) *snap {
	m := &snap{Paths: map[int]map[string]int{200: {}, 404: {}}}
	for i := 0; i < n; i++ {
		st := 200
		if i%3 == 0 {
			st = 404
		}
		m.Paths[st][fmt.Sprintf("old.test/page/%d/%s", i, strings.Repeat("x", i%50))] = 1 + i%7
	}
	m.TotalRequests = m.sum()
	return m
}

func (l *ledger) load(m *snap) {
	for st, ps := range m.Paths {
		for p, c := range ps {
			k := metricKey(p)
			if l.fixed[k] == nil {
				l.fixed[k] = map[int]int{}
			}
			l.fixed[k][st] += c
		}
	}
	l.total += m.TotalRequests
}

func TestC19(t *testing.T) {
	r := rep.New("C19", "A case is one answered request to the real TLS server (files, index, ranges, 304, redirects, downloads, proxied answers of all statuses, every refusal and error, the metrics page, odd and non-UTF-8 paths, several hosts), sequential and concurrent, over HTTP/1.1 and HTTP/2, from the very first request after the port opens, with and without earlier metrics. Judged: page snapshots taken meanwhile are consistent and never shrink; after quiescence the page, and after shutdown the file, equal the client's ledger per status and path. Distinct = (site kind, status, path, method, protocol).")
	r.Watchdog(120*time.Second, true)
	for s := 0; s < r.N(9, 120) && !r.Stop(); s++ {
		r.Phase(fmt.Sprint("server ", s))
		c19Server(r, r.Rng(fmt.Sprint("srv", s)), s)
	}
	r.Finish()
}

func c19Server(r *rep.R, g *rand.Rand, s int) {
	l := newLedger()
	var old *snap
	w := newWorld(r, g, "c19", true, oneOf(s), func(w *world, main M, vh map[string]M) {
		switch s % 4 {
		case 1:
			old = &snap{TotalRequests: 5, Paths: map[int]map[string]int{200: {"old.test/": 3}, 404: {"old.test/<b>": 2}}}
		case 3:
			old = bigMetrics(150000)
		}
		if old != nil {
			b, _ := json.MarshalIndent(old, "", "  ")
			put(w.dir, "metrics.json", string(b))
			l.load(old)
		}
	})
	if w == nil {
		return
	}
	closed := false
	defer func() {
		if !closed {
			w.close()
		}
	}()
	w.up.Respond = func(q *srv.UpReq, c net.Conn) bool {
		st := 200
		if i := strings.Index(q.Target, "st="); i >= 0 {
			st, _ = strconv.Atoi(q.Target[i+3:])
		}
		b := "up"
		if q.Method == "HEAD" || st == 204 || st == 304 {
			b = ""
		}
		fmt.Fprintf(c, "HTTP/1.1 %d X\r\nX-Up: 1\r\n", st)
		if strings.HasSuffix(q.Target, "&cut") && q.Method != "HEAD" {
			fmt.Fprintf(c, "Content-Length: 90000\r\n\r\n%s", strings.Repeat("part", 12000))
			return false
		}
		if st != 204 && st != 304 {
			fmt.Fprintf(c, "Content-Length: %d\r\n", len(b))
		}
		fmt.Fprintf(c, "\r\n%s", b)
		return true
	}
	wit := M{"server": s, "mode": w.one, "old_total": 0}
	if old != nil {
		wit["old_total"] = old.TotalRequests
	}
	// the very first requests, all at once
	var wg sync.WaitGroup
	for k := 0; k < 12; k++ {
		wg.Add(1)
		gg := rand.New(rand.NewPCG(r.Seed*7+uint64(s), uint64(1000+k)))
		go func() { defer wg.Done(); c19One(r, gg, w, l, h1Client(w.p, ""), "h1") }()
	}
	wg.Wait()
	c := client(w.p, "")
	if !settle(r, c, l, wit, "first-requests") {
		return
	}
	r.Count("first_requests", 12)
	for round := 0; round < 2 && !r.Stop() && s%4 != 3; round++ { // with a big page only the start is of interest
		f := []fetch{h1Client(w.p, ""), h2Client(w.p)}
		for q := 0; q < 80; q++ {
			k := g.IntN(2)
			c19One(r, g, w, l, f[k], []string{"h1", "h2"}[k])
			if q%20 == 19 && !settle(r, c, l, wit, "sequential") {
				return
			}
		}
		stopPoll := make(chan struct{})
		var pg sync.WaitGroup
		pg.Add(1)
		go func() { // snapshots meanwhile
			defer pg.Done()
			pc := client(w.p, "")
			last := 0
			for {
				select {
				case <-stopPoll:
					return
				default:
				}
				m, err := readPage(pc, "poll.test", l)
				if err != nil {
					r.Violate("page-under-load", wit, "%v", err)
					return
				}
				if m.sum() != m.TotalRequests {
					r.Violate("snapshot-inconsistent", wit, "a page shows total %d, its counts sum to %d", m.TotalRequests, m.sum())
				}
				if m.TotalRequests < last {
					r.Violate("snapshot-shrinks", wit, "the total went from %d to %d", last, m.TotalRequests)
				}
				last = m.TotalRequests
				r.Count("snapshots", 1)
			}
		}()
		for k := 0; k < 14; k++ {
			wg.Add(1)
			gg := rand.New(rand.NewPCG(r.Seed*7+uint64(s), uint64(round*100+k)))
			go func() {
				defer wg.Done()
				f, pr := h1Client(w.p, fmt.Sprintf("127.0.0.%d", 1+k)), "h1"
				if k%3 == 0 {
					f, pr = h2Client(w.p), "h2"
				}
				for q := 0; q < 40 && !r.Stop(); q++ {
					c19One(r, gg, w, l, f, pr)
				}
			}()
		}
		wg.Wait()
		close(stopPoll)
		pg.Wait()
		if !settle(r, c, l, wit, "concurrent") {
			return
		}
	}
	if !checkAlive(r, w.p, wit) {
		return
	}
	checkPanics(r, w.p, "panic")
	c.Close()
	w.close()
	closed = true
	m, err := readMetricsFile(w.dir + "/metrics.json")
	if err != nil {
		r.Violate("file", wit, "metrics file after shutdown: %v", err)
		return
	}
	if d := l.diff(m); d != "" {
		r.Violate("file-differs", wit, "metrics file after shutdown: %s", d)
	}
	r.Count("files_compared", 1)
}

var c19Paths = []string{"/", "/a/", "/a", "/a/f.txt", "/f.bin", "/x%20y.html", "/missing", "/secret/s.txt", "/secret", "/index.html", "/a/./f.txt", "/a//f.txt", "/b/../f.bin", "/a/f.txt/", "/?q=1", "/%c3%a9", "/%ff", "/%fe", "/%ff%fe/%80x", "/%00", "/%0a", "/%3cb%3e", "/%22%26", "/a%2ff.txt", "/%e2%80%a8", "/" + "long/", "/metrics", "/Metrics", "/metrics/", "/metricsx", "/200", "/%ef%bf%bd", "/+", "/%2b", "/%25", "/u%5cu0041"}

func c19One(r *rep.R, g *rand.Rand, w *world, l *ledger, f fetch, proto string) {
	host := pick(g, append([]string{"unknown.test", "stats.test"}, w.order...))
	if chance(g, .15) {
		host += pick(g, []string{":443", ":8080"})
	}
	st := w.site(model.HostOf(host))
	kind := "unknown"
	if st != nil {
		kind = st.kind
	}
	method := pick(g, []string{"GET", "GET", "GET", "GET", "HEAD", "POST", "DELETE", "PROPFIND"})
	target := pick(g, c19Paths)
	if chance(g, .2) {
		target = fmt.Sprintf("/p%d", g.IntN(40))
	}
	if chance(g, .15) {
		target = pick(g, wellKnown)
	}
	if chance(g, .01) {
		target = "/" + strings.Repeat(pick(g, []string{"l", "%41", "/x"}), pick(g, []int{300, 1100, 2100, 5000})) + pick(g, []string{"1", "2"})
	}
	if kind == "proxy" && chance(g, .5) {
		target += fmt.Sprintf("?st=%d", pick(g, []int{200, 201, 204, 206, 301, 304, 400, 401, 403, 404, 405, 429, 500, 502, 503, 599, 226, 299, 451, 520, 600, 666, 700, 999}))
		if chance(g, .2) { // the upstream gives up within its answer
			target = strings.ReplaceAll(target, "st=204", "st=200")
			target = strings.ReplaceAll(target, "st=304", "st=503") + "&cut"
		}
	}
	var hdr [][2]string
	switch g.IntN(8) {
	case 0:
		hdr = append(hdr, [2]string{"Range", "bytes=5-20"})
	case 1:
		hdr = append(hdr, [2]string{"If-Modified-Since", time.Now().Add(time.Hour).UTC().Format("Mon, 02 Jan 2006 15:04:05 GMT")})
	case 2:
		hdr = append(hdr, [2]string{"Content-Type", "text/x"})
	}
	if kind == "lim" {
		hdr = append(hdr, [2]string{"User-Agent", fmt.Sprint("c", g.IntN(30))})
	}
	if strings.HasPrefix(target, "/metrics") && chance(g, .5) {
		hdr = append(hdr, [2]string{"Authorization", adminAuth})
	}
	wit := M{"host": host, "target": target, "method": method, "proto": proto}
	resp, err := f(method, target, host, hdr)
	if err != nil {
		r.Violate("no-answer", wit, "no answer: %v", err)
		return
	}
	p, _, _ := strings.Cut(target, "?")
	key := model.HostOf(host) + model.Canon(unescape(p))
	flexible := resp.Header.Get("X-Up") == "" && (resp.Status > 200 && resp.Status < 400 || resp.Status == 416 || resp.Status == 412)
	l.add(key, resp.Status, flexible)
	r.Eval(fmt.Sprint(kind, resp.Status, target, method, proto))
	r.Count(fmt.Sprint("status_", resp.Status), 1)
	if r.WantSample() {
		r.Sample(wit)
	}
}
