package checks

import (
	"encoding/base64"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"net"
	"net/url"
	"os"
	"path"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/redmaner/MaguroHTTP/debug"

	"verifharness/rep"
	"verifharness/srv"
)

func TestC25(t *testing.T) {
	r := rep.New("C25", "A case is one request with a unique id (in its User-Agent, query or path) and hostile contents (encoded control characters and line ends, text shaped like a log entry, spaces, long values, raw HTTP/2 authorities) answered by the real server, sent concurrently from many connections at log levels 0 to 3 to a file, stdout or stderr; afterwards every line of the log is attributed to exactly one request of the client-side ledger, or to the server itself. Plus direct use of debug.Logger: all level combinations and concurrent writers of long messages. Distinct = (level, output, kind of site, status, contents).")
	r.Watchdog(120*time.Second, true)
	g := r.Rng("lib")
	for i := 0; i < r.N(40, 400) && !r.Stop(); i++ {
		c25Lib(r, g)
	}
	for s := 0; s < r.N(60, 300) && !r.Stop(); s++ {
		r.Phase(fmt.Sprint("server ", s))
		c25Server(r, r.Rng(fmt.Sprint("srv", s)), s)
	}
	r.Finish()
}

// c25Lib checks debug.Logger itself.
func c25Lib(r *rep.R, g *rand.Rand) {
	f := filepath.Join(rep.Scratch("c25l"), "log")
	if chance(g, .3) {
		os.WriteFile(f, []byte("old"), 0o644)
	}
	level := g.IntN(4)
	l, err := debug.NewLogger(level, "N-", f)
	if err != nil {
		r.Violate("logger", M{"level": level}, "NewLogger: %v", err)
		return
	}
	writers := pick(g, []int{1, 1, 4, 16})
	type msg struct {
		level int
		text  string
	}
	want := map[string]int{}
	var all [][]msg
	for w := 0; w < writers; w++ {
		var ms []msg
		for i := 0; i < 40; i++ {
			m := msg{g.IntN(5), fmt.Sprintf("m%d-%d-%s", w, i, strings.Repeat(string(rune('a'+g.IntN(26))), pick(g, []int{0, 10, 100, 5000, 70000})))}
			ms = append(ms, m)
			if m.level <= level {
				want[m.text]++
			}
		}
		all = append(all, ms)
	}
	var wg sync.WaitGroup
	for _, ms := range all {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i, m := range ms {
				l.Log(m.level, errors.New(m.text))
				if i%7 == 0 {
					l.Log(m.level, nil) // no error, no message
				}
			}
		}()
	}
	wg.Wait()
	data := strings.TrimPrefix(srv.ReadFileString(f), "old")
	lines := strings.Split(strings.TrimSuffix(data, "\n"), "\n")
	if data == "" {
		lines = nil
	}
	for _, ln := range lines {
		i := strings.LastIndexByte(ln, ' ')
		if !strings.HasPrefix(ln, "N-") || i < 0 || want[ln[i+1:]] == 0 {
			r.Violate("logger-line", M{"level": level, "writers": writers, "line": clip(ln)}, "the log holds a line that is not one whole message of an enabled level")
			return
		}
		want[ln[i+1:]]--
	}
	for k, n := range want {
		if n > 0 {
			r.Violate("logger-missing", M{"level": level, "writers": writers, "message": clip(k)}, "a message of an enabled level is missing in the log")
			return
		}
	}
	r.Eval(fmt.Sprint("lib", level, writers))
	r.Count("logger_lines", len(lines))
}

type c25Req struct {
	id       string
	method   string
	host     string // as sent
	path     string // decoded
	query    string
	ua       string
	addr     string
	status   int
	kind     string
	optional bool // not answered, or the answer was not read
	loose    bool // only the shape of the line is checked
	lines    int
	raw      string
}

var c25Line = regexp.MustCompile(`^MaguroHTTP-\d{4}/\d\d/\d\d \d\d:\d\d:\d\d (.*)$`)

// c25Stop is what the process prints when it is stopped.
var c25Stop = regexp.MustCompile(`(?m)^(Signal \(|.*Server closed|exit status).*\n?`)
var c25Std = regexp.MustCompile(`^\d{4}/\d\d/\d\d \d\d:\d\d:\d\d http: `)
var c25Net = regexp.MustCompile(`^NET: (\d+) request=([^ ]*) (.*)$`)
var c25ID = regexp.MustCompile(`q(\d+)q`)

// text an attacker would like to see in a log
func c25Evil(g *rand.Rand) string {
	fake := "MaguroHTTP-2026/01/01 00:00:00 NET: 200 request=GET good.test/ IP=9.9.9.9:9 User-Agent=x"
	return pick(g, []string{
		"\n" + fake, "\r\n" + fake + "\n", "\r" + fake, "\x00", "\x1b[2K\x1b[1A", "\t", "\v\f", "\x7f\x08\x08", "\n", "\n\n\n", "\r",
		" IP=9.9.9.9:9 User-Agent=x", " 200 request=GET x", "%", "%0a", "%s%d%v%!", "\\n", "ünïcode", "\u2028" + fake, "\u0085", "\xff\xfe", "a b", "\"", "'", "?", "#", ";", strings.Repeat("L", 3000), "<b>", "..", "//", "-"})
}

func c25Esc(g *rand.Rand, s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '-' || c == '=' || c == '.':
			if chance(g, .95) {
				b.WriteByte(c)
				continue
			}
			fallthrough
		default:
			if chance(g, .5) {
				fmt.Fprintf(&b, "%%%02x", c)
			} else {
				fmt.Fprintf(&b, "%%%02X", c)
			}
		}
	}
	return b.String()
}

func c25Server(r *rep.R, g *rand.Rand, s int) {
	level := s % 4
	if s >= 4 && level == 0 {
		level = 1
	}
	outKind := []string{"file", "stdout", "file", "stderr", "file"}[s%5]
	useTLS := s%3 == 1
	one := ""
	if s%6 == 5 {
		one = pick(g, worldKinds)
	}
	w := newWorld(r, g, "c25", useTLS, one, func(w *world, main M, vh map[string]M) {
		c := main["Core"].(M)
		c["LogLevel"] = level
		if outKind != "file" {
			c["LogOut"] = outKind
		}
	})
	if w == nil {
		return
	}
	w.up.Respond = func(q *srv.UpReq, c net.Conn) bool { // some answers stop within the body
		b := "up"
		if q.Method == "HEAD" {
			b = ""
		} else if len(q.Line)%5 == 0 {
			fmt.Fprintf(c, "HTTP/1.1 %d X\r\nContent-Length: 90000\r\n\r\n%s", []int{200, 404, 500}[len(q.Line)/5%3], strings.Repeat("part", 12000))
			return false
		}
		fmt.Fprintf(c, "HTTP/1.1 200 OK\r\nContent-Length: %d\r\n\r\n%s", len(b), b)
		return true
	}
	text := func() string {
		if outKind == "file" {
			return srv.ReadFileString(w.dir + "/log.txt")
		}
		return w.p.Out.String()
	}
	var mu sync.Mutex
	led := map[string]*c25Req{}
	answered := 0
	var wg sync.WaitGroup
	for k := 0; k < 12; k++ {
		gg := r.Rng(fmt.Sprint("cl", s, k))
		wg.Add(1)
		go func() {
			defer wg.Done()
			c := client(w.p, fmt.Sprintf("127.0.%d.%d", 1+gg.IntN(200), 1+gg.IntN(200)))
			defer c.Close()
			for n := 0; n < r.N(60, 120) && !r.Stop(); n++ {
				q := c25Gen(gg, w, fmt.Sprintf("q%d%03d%04dq", s, k, n))
				mode := gg.IntN(30)
				mu.Lock()
				led[q.id] = q
				mu.Unlock()
				if mode == 0 { // gone before the answer
					q.optional = true
					if cn, err := c.Dial(); err == nil {
						q.addr = cn.LocalAddr().String()
						io.WriteString(cn, q.raw)
						if gg.IntN(2) == 0 {
							time.Sleep(time.Duration(gg.IntN(2000)) * time.Microsecond)
						}
						cn.Close()
					}
					continue
				}
				if mode == 1 && useTLS {
					q.optional, q.loose = true, true
					c25H2(w.p, q, gg)
					continue
				}
				resp, err := c.Do([]byte(q.raw), q.method)
				if err != nil {
					r.Violate("no-answer", M{"request": clip(q.raw)}, "%v", err)
					return
				}
				q.addr, q.status = c.LocalAddr(), resp.Status
				if resp.BodyErr != nil {
					r.Count("answers_cut_off", 1)
				}
				if strings.HasPrefix(string(resp.Body), "400 Bad Request") || resp.Status == 400 || resp.Status == 431 || resp.Status == 505 {
					q.optional = true // refused by net/http before the server sees it
					r.Count("refused_by_library", 1)
				} else {
					mu.Lock()
					answered++
					mu.Unlock()
				}
			}
		}()
	}
	wg.Wait()
	if !checkAlive(r, w.p, nil) {
		w.close()
		return
	}
	// lines may be written after the answer
	want := answered
	if level == 0 {
		want = 0
	}
	patience := 60 * time.Second
	if r.Violations() > 0 {
		patience = 3 * time.Second
	}
	for t0 := time.Now(); strings.Count(text(), " NET: ") < want && time.Since(t0) < patience; {
		time.Sleep(20 * time.Millisecond)
	}
	mark := len(text())
	stop(w.p) // waits for the requests being handled
	data := text()
	if outKind != "file" { // the process itself prints to its output when it is stopped
		data = data[:mark] + c25Stop.ReplaceAllString(data[mark:], "")
	}
	w.undead()
	w.up.Close()
	checkPanics(r, w.p, "panic")
	c25Judge(r, w, data, level, outKind, led, one)
}

func c25Judge(r *rep.R, w *world, data string, level int, outKind string, led map[string]*c25Req, one string) {
	lines := strings.Split(strings.TrimSuffix(data, "\n"), "\n")
	base := M{"level": level, "output": outKind}
	wit := func(ln string, q *c25Req) M {
		m := srv.Merge(base, M{"line": tailS(ln, 600)})
		if q != nil {
			m["request"] = clip(q.raw)
			m["client"] = q.addr
			m["status"] = q.status
		}
		return m
	}
	nets, errs, listening := 0, 0, 0
	for i, ln := range lines {
		m := c25Line.FindStringSubmatch(ln)
		if m == nil {
			if outKind != "file" && (c25Std.MatchString(ln) || ln == "") {
				continue
			}
			var prev string
			if i > 0 {
				prev = tailS(lines[i-1], 400)
			}
			r.Violate("foreign-line", srv.Merge(wit(ln, nil), M{"line_before": prev}), "the log holds a line that is no whole entry: %.100q", ln)
			continue
		}
		if j := strings.IndexFunc(ln, func(c rune) bool { return c < 0x20 && c != '\t' || c == 0x7f }); j >= 0 {
			r.Violate("control-character", wit(ln, nil), "a control character 0x%02x of a request is written to the log", ln[j])
			continue
		}
		n := c25Net.FindStringSubmatch(m[1])
		if n == nil {
			switch {
			case strings.HasPrefix(m[1], "NET:"):
				r.Violate("broken-entry", wit(ln, nil), "the log holds a broken entry")
			case strings.HasPrefix(m[1], "ERROR:"):
				errs++
				if level < 2 {
					r.Violate("level-error", wit(ln, nil), "an error is logged at level %d", level)
				}
			case strings.HasPrefix(m[1], "DEBUG:"):
				if level < 3 {
					r.Violate("level-debug", wit(ln, nil), "a debug message is logged at level %d", level)
				}
			case strings.HasPrefix(m[1], "VERBOSE:"):
				r.Violate("level-verbose", wit(ln, nil), "a verbose message is logged at level %d", level)
			default:
				if strings.Contains(m[1], "listening") {
					listening++
				}
			}
			continue
		}
		nets++
		if level < 1 {
			r.Violate("level-net", wit(ln, nil), "a request is logged at level %d", level)
			continue
		}
		ids := c25ID.FindAllString(n[3], -1)
		var q *c25Req
		if len(ids) > 0 {
			q = led[ids[len(ids)-1]]
		}
		if q == nil {
			r.Violate("unknown-entry", wit(ln, nil), "an entry belongs to no request that was sent")
			continue
		}
		if q.lines++; q.lines > 1 {
			r.Violate("twice", wit(ln, q), "a request is logged twice")
			continue
		}
		bad := func(what string, a ...any) {
			r.Violate("wrong-"+strings.Fields(what)[0], wit(ln, q), "log entry with wrong "+what, a...)
		}
		if st, _ := strconv.Atoi(n[1]); q.status != 0 && st != q.status && !(st == 200 && (q.status == 206 || q.status == 304 || q.status == 416 || q.status == 412 || q.status/100 == 3)) {
			bad("status %d, the client got %d", st, q.status)
		}
		if n[2] != q.method && !strings.ContainsAny(q.method, " \t") { // one with spaces must be escaped in some way
			bad("method %s", n[2])
		}
		where := n[3]
		if q.addr != "" || !q.optional {
			tail := " IP=" + q.addr + " User-Agent=" + q.ua
			if !strings.HasSuffix(where, tail) {
				bad("client: it does not end in %.200q", tail)
				continue
			}
			where = strings.TrimSuffix(where, tail)
		} else if j := strings.Index(where, " IP="); j >= 0 {
			where = where[:j]
		}
		if strings.ContainsAny(where, " \t") {
			r.Violate("forged-field", wit(ln, q), "the host or path of a request adds fields to its entry")
			continue
		}
		if q.loose {
			continue
		}
		j := strings.IndexByte(where, '/')
		if j < 0 {
			bad("path: none")
			continue
		}
		host, target := where[:j], where[j:]
		if host != q.host && host != c25NoPort(q.host) {
			bad("host %q", host)
		}
		p, qu, hasQ := strings.Cut(target, "?")
		if un, err := url.PathUnescape(p); err != nil || un != q.path && un != c25Clean(q.path) {
			bad("path %q instead of %q", clip(p), clip(q.path))
		} else if qu != q.query || hasQ && q.query == "" && !strings.Contains(q.raw, "?") {
			bad("query %q instead of %q", clip(qu), clip(q.query))
		}
	}
	deads := 0
	for _, q := range led {
		if q.kind == "dead" && q.status == 502 {
			deads++
		}
		if level >= 1 && q.lines == 0 && !q.optional {
			r.Violate("not-logged", wit("", q), "an answered request has no entry")
			if r.Stop() {
				break
			}
		}
		kind := "plain"
		if strings.ContainsFunc(q.path, func(c rune) bool { return c < 0x20 || c == 0x7f }) {
			kind = "control"
		} else if strings.ContainsAny(q.path, " %") {
			kind = "space"
		}
		r.Eval(fmt.Sprint(level, outKind, q.kind, q.status, kind, q.method, q.optional, len(q.query) > 0, len(q.ua) > 200, q.ua == ""))
	}
	if level >= 2 && deads > 0 && errs == 0 {
		r.Violate("errors-not-logged", base, "%d failed upstream requests and no error in the log at level %d", deads, level)
	}
	if listening == 0 {
		r.Violate("start-not-logged", base, "the start is not logged at level %d", level)
	}
	r.Count("entries", nets)
	r.Count("error_lines", errs)
	r.Count("failed_upstream_requests", deads)
	r.Count("requests", len(led))
	if r.WantSample() && len(lines) > 3 {
		r.Sample(srv.Merge(base, M{"line": clip(lines[len(lines)/2])}))
	}
}

// c25Clean is the canonical form of a path, which the server may use in place of the path sent.
func c25Clean(p string) string {
	c := path.Clean("/" + p)
	if strings.HasSuffix(p, "/") && c != "/" {
		c += "/"
	}
	return c
}

func c25NoPort(h string) string {
	if i := strings.LastIndexByte(h, ':'); i > strings.LastIndexByte(h, ']') {
		return h[:i]
	}
	return h
}

func c25Gen(g *rand.Rand, w *world, id string) *c25Req {
	q := &c25Req{id: id, method: pick(g, []string{"GET", "GET", "GET", "HEAD", "POST", "PUT", "DELETE", "OPTIONS", "PATCH", "TRACE", "BREW", "g!#$%&'*+-.^_`|~"})}
	host := pick(g, append([]string{"unknown.test", "unknown.test"}, w.order...))
	if st := w.site(host); st != nil {
		q.kind = st.kind
	}
	q.host = host + pick(g, []string{"", "", ":8080", ":", ":443", ":80", ":0", ":8443"})
	known := pick(g, []string{"/", "/a/", "/a/f.txt", "/f.bin", "/secret/s.txt", "/x y.html", "/metrics", "/none", "/index.html"})
	if chance(g, .15) {
		known = pick(g, wellKnown)
	}
	p := known
	where := pick(g, []string{"ua", "ua", "path", "query"})
	if where == "path" || chance(g, .4) {
		p = strings.TrimSuffix(p, "/") + "/"
		for i := g.IntN(3); i >= 0; i-- {
			p += c25Evil(g)
		}
		if where == "path" {
			p += id
		}
	}
	if p == "/metrics" {
		q.kind = "metrics"
	}
	raw, rest := "", p
	if where == "path" {
		rest = strings.TrimSuffix(p, id)
	}
	for _, seg := range strings.SplitAfter(rest, "/") {
		raw += c25Esc(g, strings.TrimSuffix(seg, "/"))
		if strings.HasSuffix(seg, "/") {
			raw += pick(g, []string{"/", "/", "/", "/", "%2f", "%2F"})
		}
	}
	if !strings.HasPrefix(raw, "/") {
		raw = "/" + raw[3:]
	}
	if where == "path" {
		raw += id
	}
	q.path = p
	if where == "query" || chance(g, .3) {
		q.query = pick(g, []string{"a=b", "x=%0aMaguroHTTP-&y", "IP=1.2.3.4", "?", "a?b", "/../", "q&&=;"})
		if where == "query" {
			q.query += id
		}
		raw += "?" + q.query
	}
	var hdr [][2]string
	if where == "ua" {
		q.ua = id
	}
	if chance(g, .2) && q.ua == "" {
		q.ua = pick(g, agents)
	} else if chance(g, .7) {
		q.ua = pick(g, []string{pick(g, agents), pick(g, agents), "curl/8", "x IP=9.9.9.9:9 User-Agent=y", "a\tb", "ü", "\xff\x85", "\\n\\r", "%0a%0d", "MaguroHTTP-2026/01/01 00:00:00 NET: 200 request=GET a.test/ IP=", strings.Repeat("U", pick(g, []int{500, 5000, 60000}))}) + q.ua
	}
	if q.ua != "" {
		hdr = append(hdr, [2]string{"User-Agent", q.ua})
	}
	if q.kind == "metrics" && chance(g, .5) {
		hdr = append(hdr, [2]string{"Authorization", "Basic " + base64.StdEncoding.EncodeToString([]byte("admin:pw"))})
	}
	if chance(g, .1) {
		hdr = append(hdr, [2]string{"Range", "bytes=0-3"})
	}
	if chance(g, .1) {
		hdr = append(hdr, [2]string{"If-Modified-Since", time.Now().Add(time.Hour).UTC().Format("Mon, 02 Jan 2006 15:04:05 GMT")})
	}
	if chance(g, .1) { // absolute form; the authority is not a header here
		raw = "http://" + q.host + raw
	} else if chance(g, .04) {
		q.loose = true
		raw = "http://[fe80::1%25e%20IP=9.9.9.9:9%20User-Agent=x]" + raw
	}
	q.raw = string(srv.Req(q.method, raw, q.host, hdr, nil))
	return q
}

// c25H2 sends one request as raw HTTP/2 frames, so that the authority can be anything.
func c25H2(p *srv.Proc, q *c25Req, g *rand.Rand) {
	cfg := srv.TLSClient("localhost")
	cfg.NextProtos = []string{"h2"}
	c := &srv.Client{Addr: p.Addr, TLS: cfg}
	cn, err := c.Dial()
	if err != nil {
		return
	}
	defer cn.Close()
	cn.SetDeadline(time.Now().Add(60 * time.Second))
	q.addr, q.method, q.ua = cn.LocalAddr().String(), "GET", q.id
	auth := pick(g, []string{"serve0.test IP=9.9.9.9:9 User-Agent=x", "a\tb", "a/b c", "serve0.test\n", "x y", "a@b c", "serve0.test"})
	q.host = auth
	path := pick(g, []string{"/x y", "/x\ty", "/a/f.txt", "/%0a%0d", "/a?x IP=9.9.9.9:9 y", "*", "//a b/c", "/ü"})
	if chance(g, .4) {
		q.method = pick(g, []string{"GET serve0.test/x IP=1.2.3.4:5 User-Agent=y", "GET ", " GET", "A\tB", "HEAD", "G=T", "POST /x"})
	}
	q.raw = fmt.Sprintf("HTTP/2 %q %q %q", q.method, auth, path)
	h2Req(cn, [][2]string{{":method", q.method}, {":scheme", "https"}, {":authority", auth}, {":path", path}, {"user-agent", q.ua}}, nil)
}

var _ net.Conn
