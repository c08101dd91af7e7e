package checks

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	"github.com/redmaner/MaguroHTTP/tuna"

	"verifharness/rep"
	"verifharness/srv"
)

func TestC20(t *testing.T) {
	r := rep.New("C20", "A case is one end of a run of the real server (stop, kill at a random time, kill at a chosen moment of the shutdown write, failing write at an enumerated byte limit, run without TLS or metrics) followed by a look at the metrics file and a new start, or one 20-minute period in virtual time. Judged: the file always is exactly the previous or the new complete state (also to a reader racing with the write), the next run starts, continues from it and accumulates, and in virtual time the file is never more than 20 minutes behind. Distinct = (kind of end, size class, outcome).")
	r.Watchdog(120*time.Second, true)
	if !r.Stop() {
		r.Phase("virtual time")
		c20Virtual(r)
	}
	for s := 0; s < r.N(4, 40) && !r.Stop(); s++ {
		r.Phase(fmt.Sprint("histories ", s))
		c20History(r, r.Rng(fmt.Sprint("hist", s)), s)
	}
	for s := 0; s < r.N(2, 12) && !r.Stop(); s++ {
		r.Phase(fmt.Sprint("write crashes ", s))
		c20Crash(r, r.Rng(fmt.Sprint("crash", s)), s)
	}
	for s := 0; s < r.N(2, 8) && !r.Stop(); s++ {
		r.Phase(fmt.Sprint("write failures ", s))
		c20Fail(r, r.Rng(fmt.Sprint("fail", s)), s)
	}
	r.Finish()
}

type c20Env struct {
	up       *srv.Upstream
	px, dead string // configurations of proxying virtual hosts
	main     string
	dir, out string
	cert     srv.Cert
	sub      bool
}

func newC20(g *rand.Rand) *c20Env {
	e := &c20Env{dir: rep.Scratch("c20")}
	e.cert = srv.MakeCert(e.dir, "t", false, "localhost")
	put(e.dir, "www/index.html", "index")
	e.up = srv.NewUpstream("u", "")
	e.up.Respond = func(q *srv.UpReq, c net.Conn) bool {
		st := "200"
		if _, s, ok := strings.Cut(q.Target, "st="); ok {
			st = s
		}
		fmt.Fprintf(c, "HTTP/1.1 %s X\r\nContent-Length: 2\r\n\r\nup", st)
		return true
	}
	dead, _ := deadAddr()
	os.MkdirAll(e.dir+"/vh", 0o755)
	px := func(host, to string) string {
		return srv.WriteConfig(e.dir+"/vh/"+host, M{"Guard": noLimit(), "Proxy": M{"Enabled": true, "Rules": M{host: "http://" + to}, "Methods": []string{"GET"}}}, false, g)
	}
	e.px, e.dead = px("px.test", e.up.Addr), px("dead.test", dead)
	e.main = srv.WriteConfig(e.dir+"/vh/m.test", M{"Guard": noLimit(), "Serve": M{"ServeDir": e.dir + "/www", "ServeIndex": "index.html", "Methods": M{"/": "GET"}}}, false, g)
	e.out = pick(g, []string{e.dir + "/metrics.json", e.dir + "/m/stats", e.dir + "/files/metrics.json"})
	os.MkdirAll(filepath.Dir(e.out), 0o755)
	return e
}

func (e *c20Env) config(tls, metrics bool) M {
	t := M{"Enabled": tls, "TLSCert": e.cert.CertFile, "TLSKey": e.cert.KeyFile}
	if e.main == "" {
		return M{"Guard": noLimit(), "Serve": M{"ServeDir": e.dir + "/www", "ServeIndex": "index.html", "Methods": M{"/": "GET"}},
			"Core": core(e.dir, M{"LogOut": "stdout", "TLS": t, "Metrics": M{"Enabled": metrics, "Path": "/metrics", "Out": e.out, "Users": M{"admin": "pw"}}})}
	}
	return M{"Core": core(e.dir, M{"VirtualHosting": true, "VirtualHosts": map[string]string{"m.test": e.main, "px.test": e.px, "dead.test": e.dead},
		"LogOut": "stdout", "TLS": t, "Metrics": M{"Enabled": metrics, "Path": "/metrics", "Out": e.out, "Users": M{"admin": "pw"}}})}
}

func (e *c20Env) start(r *rep.R, g *rand.Rand, tls, metrics bool, wrap []string) *srv.Proc {
	return launch(r, g, e.dir, e.config(tls, metrics), nil, srv.Opt{Wrap: wrap})
}

// traffic sends n requests and accounts for them.
func c20Traffic(r *rep.R, g *rand.Rand, p *srv.Proc, l *ledger, n int) bool {
	c := client(p, "")
	defer c.Close()
	for i := 0; i < n; i++ {
		path := pick(g, []string{"/", "/index.html", "/missing", "/%ff", "/%fe", "/%00x", fmt.Sprintf("/p%d", g.IntN(50)), "/<b>&", "/%22", "/%e2%80%a8"})
		host := "m.test"
		if chance(g, .25) { // answers of an upstream, its failures, and refusals
			path, host = pick(g, []string{"/?st=201", "/up/x?st=404", "/?st=500", "/?st=503", "/?st=599", "/?st=302", "/?st=429", "/?st=418", "/?st=600", "/?st=999", "/x"}), "px.test"
			if chance(g, .4) {
				path, host = pick(g, []string{"/", "/x", "/y/z"}), "dead.test"
			}
		} else if chance(g, .1) {
			path = "/metrics"
		}
		resp, err := c.Get(path, host)
		if err != nil {
			r.Violate("no-answer", M{"path": path}, "%v", err)
			return false
		}
		if l != nil {
			path, _, _ = strings.Cut(path, "?")
			l.add(host+unescape(path), resp.Status, host == "m.test" && resp.Status > 200 && resp.Status < 400)
		}
	}
	return true
}

func fileID(p string) string {
	fi, err := os.Stat(p)
	if err != nil {
		return "absent"
	}
	b, _ := os.ReadFile(p)
	return fmt.Sprintf("%d %v %x", fi.Size(), fi.ModTime(), b)
}

// c20History is a sequence of runs with different ends.
func c20History(r *rep.R, g *rand.Rand, s int) {
	e := newC20(g)
	l := newLedger()
	if s%4 == 1 { // earlier versions left this behind after a run without TLS
		put(filepath.Dir(e.out), filepath.Base(e.out), "{\n  \"TotalRequests\": 0,\n  \"Paths\": null\n}")
	}
	var hist []string
	for run := 0; run < 7 && !r.Stop(); run++ {
		kind := pick(g, []string{"stop", "stop", "stop", "int", "kill", "no-tls", "no-metrics", "idle", "kill-idle"})
		if run == 0 {
			kind = []string{"stop", "stop", "no-tls", "kill"}[s%4]
		}
		hist = append(hist, kind)
		wit := M{"history": append([]string(nil), hist...), "server": s}
		tls, metrics := kind != "no-tls", kind != "no-metrics"
		before := fileID(e.out)
		p := e.start(r, g, tls, metrics, nil)
		if p == nil {
			r.Note("history: " + strings.Join(hist, " "))
			return
		}
		collecting := tls && metrics
		cur := &ledger{fixed: clone2(l.fixed), flex: cloneS(l.flex), total: l.total}
		n := g.IntN(40)
		if strings.Contains(kind, "idle") {
			n = 0
		}
		if !c20Traffic(r, g, p, cur, n) {
			p.Kill()
			return
		}
		if collecting {
			c := client(p, "")
			if !settle(r, c, cur, wit, "restart") {
				p.Kill()
				return
			}
			c.Close()
		}
		switch {
		case strings.HasPrefix(kind, "kill"):
			p.Kill()
		case kind == "int":
			p.Signal(syscall.SIGINT)
			if !p.WaitExit(50 * time.Second) {
				r.Violate("no-exit", wit, "the server does not end on SIGINT")
				p.Kill()
			}
		default:
			if !p.Stop(50 * time.Second) {
				r.Violate("no-exit", wit, "the server does not end on SIGTERM")
			}
		}
		r.Eval(fmt.Sprint("history", kind, before == "absent", run))
		r.Count("runs_"+kind, 1)
		if !collecting {
			if after := fileID(e.out); after != before {
				r.Violate("touched-"+kind, wit, "a run that collects no metrics changed the metrics file from %s to %s", clip(before), clip(after))
			}
			continue
		}
		if strings.HasPrefix(kind, "kill") { // nothing was due to be written
			if after := fileID(e.out); after != before {
				if m, err := readMetricsFile(e.out); err != nil || cur.diff(m) != "" && l.diff(m) != "" {
					r.Violate("kill-file", wit, "after a kill the metrics file is neither the last written nor the current state: %v", err)
				} else if cur.diff(m) == "" {
					l = cur
				}
			}
			continue
		}
		l = cur
		m, err := readMetricsFile(e.out)
		if err != nil {
			r.Violate("file", wit, "metrics file after a stop: %v", err)
			return
		}
		if d := l.diff(m); d != "" {
			r.Violate("accumulate", wit, "metrics file after a stop: %s", d)
			return
		}
		if r.WantSample() {
			r.Sample(wit)
		}
	}
}

// c20Crash kills the server at chosen moments of the write at shutdown while a reader watches the file.
func c20Crash(r *rep.R, g *rand.Rand, s int) {
	e := newC20(g)
	base := bigMetrics(pick(g, []int{60000, 120000}))
	b, _ := json.MarshalIndent(base, "", "  ")
	os.WriteFile(e.out, b, 0o644)
	curFile := b
	cur := base.TotalRequests
	window := 300 * time.Millisecond
	for k := 0; k < r.N(24, 150) && !r.Stop(); k++ {
		mode := []string{"watch", "watch", "delay", "none"}[k%4]
		p := e.start(r, g, true, true, nil)
		if p == nil {
			return
		}
		n := 1 + g.IntN(5)
		if !c20Traffic(r, g, p, nil, n) {
			p.Kill()
			return
		}
		delay := time.Duration(g.Int64N(int64(window)))
		wit := M{"mode": mode, "delay_ms": delay.Milliseconds(), "bytes": len(curFile), "run": k}
		stopRead := make(chan struct{})
		var wg sync.WaitGroup
		wg.Add(1)
		reads, states := 0, map[string]bool{}
		go func() { // what any other process sees of the file
			defer wg.Done()
			for {
				select {
				case <-stopRead:
					return
				default:
				}
				d, err := os.ReadFile(e.out)
				reads++
				if err == nil && bytes.Equal(d, curFile) {
					states["old"] = true
					continue
				}
				if err != nil {
					r.Violate("reader", wit, "during the write the file cannot be read: %v", err)
					return
				}
				m, err := parseMetrics(d)
				if err != nil || m.TotalRequests != m.sum() || m.TotalRequests < cur {
					r.Violate("reader", wit, "during the write a reader sees %d of %d bytes (%v)", len(d), len(curFile), err)
					return
				}
				states["new"] = true
			}
		}()
		time.Sleep(5 * time.Millisecond)
		dirState := func() string {
			es, _ := os.ReadDir(filepath.Dir(e.out))
			o := ""
			for _, x := range es {
				if fi, err := x.Info(); err == nil && !x.IsDir() && !strings.HasPrefix(x.Name(), "log") {
					o += fmt.Sprint(x.Name(), fi.Size(), fi.ModTime().UnixNano(), ";")
				}
			}
			return o
		}
		d0 := dirState()
		p.Signal(syscall.SIGTERM)
		t0 := time.Now()
		switch mode {
		case "none":
			p.WaitExit(50 * time.Second)
		case "delay":
			select {
			case <-time.After(delay):
			case <-exitOf(p):
			}
		case "watch": // kill shortly after the first visible sign of the write
			for !p.Exited() && time.Since(t0) < 50*time.Second && dirState() == d0 {
				time.Sleep(20 * time.Microsecond)
			}
			wit["write_began_ms"] = time.Since(t0).Milliseconds()
			time.Sleep(time.Duration(g.IntN(6000)) * time.Microsecond)
		}
		early := !p.Exited()
		p.Cmd.Process.Kill()
		p.WaitExit(50 * time.Second)
		close(stopRead)
		wg.Wait()
		if el := time.Since(t0); mode == "none" && el < 20*window {
			window = el + el/4
		}
		d, err := os.ReadFile(e.out)
		what := "old"
		if err != nil {
			r.Violate("crash-file", wit, "after a crash: %v", err)
			return
		}
		if !bytes.Equal(d, curFile) {
			what = "new"
			m, err := parseMetrics(d)
			switch {
			case err != nil:
				what = "torn"
				r.Violate("crash-torn", wit, "after a crash during the write the metrics file has %d bytes and cannot be read: %v", len(d), err)
			case m.TotalRequests != cur+n || m.sum() != m.TotalRequests:
				r.Violate("crash-state", wit, "after a crash the file holds total %d (sum %d), written states are %d and %d", m.TotalRequests, m.sum(), cur, cur+n)
				cur = m.TotalRequests
			default:
				cur = m.TotalRequests
			}
			curFile = d
		}
		if what == "torn" {
			// leave a sound file for the following rounds
			base.TotalRequests = base.sum()
			cur = base.TotalRequests
			os.WriteFile(e.out, b, 0o644)
			curFile = b
		}
		if !early && what == "old" { // it ended by itself, whatever earlier crashes left behind
			r.Violate("crash-then-stop", wit, "the server ended on SIGTERM without writing the metrics, after %d runs of which some were killed", k)
			return
		}
		r.Eval(fmt.Sprint("crash", mode, what, early, len(curFile)>>20, k))
		r.Count("crash_"+mode+"_"+what, 1)
		if early {
			r.Count("crash_killed_while_running", 1)
		}
		r.Count("reader_reads", reads)
		for st := range states {
			r.Count("reader_saw_"+st, 1)
		}
	}
}

func exitOf(p *srv.Proc) chan struct{} {
	ch := make(chan struct{})
	go func() { p.WaitExit(60 * time.Second); close(ch) }()
	return ch
}

// c20Fail lets the write at shutdown fail after every possible (sampled) number of bytes.
func c20Fail(r *rep.R, g *rand.Rand, s int) {
	e := newC20(g)
	// page templates exist already: they are not what fails here
	put(e.dir, "files/templates/error.html", "<p>{{.HTTPError}}</p>")
	put(e.dir, "files/templates/download.html", "<p>{{.DownloadTable}}</p>")
	base := bigMetrics(pick(g, []int{20, 300, 3000}))
	b, _ := json.MarshalIndent(base, "", "  ")
	os.WriteFile(e.out, b, 0o644)
	curFile, cur := b, base.TotalRequests
	prl, err := exec.LookPath("prlimit")
	if err != nil {
		r.Note("prlimit not found: failing writes not exercised")
		return
	}
	steps := r.N(14, 80)
	for k := 0; k < steps && !r.Stop(); k++ {
		limit := len(curFile) * k / (steps - 2)
		if k%3 == 1 {
			limit += g.IntN(100)
		}
		p := e.start(r, g, true, true, []string{prl, fmt.Sprintf("--fsize=%d", limit), "--"})
		if p == nil {
			return
		}
		n := 1 + g.IntN(5)
		if !c20Traffic(r, g, p, nil, n) {
			p.Kill()
			return
		}
		wit := M{"limit": limit, "bytes": len(curFile)}
		exited := p.Stop(50 * time.Second)
		if !exited {
			r.Violate("fail-no-exit", wit, "the server does not end when the write fails")
		}
		d, err := os.ReadFile(e.out)
		what := "old"
		if err != nil {
			r.Violate("fail-file", wit, "after a failed write: %v", err)
			return
		}
		if !bytes.Equal(d, curFile) {
			m, err := parseMetrics(d)
			if err != nil {
				r.Violate("fail-torn", wit, "after a failed write the metrics file has %d bytes and cannot be read: %v", len(d), err)
				os.WriteFile(e.out, curFile, 0o644)
				what = "torn"
			} else if m.TotalRequests != cur+n || m.sum() != m.TotalRequests {
				r.Violate("fail-state", wit, "after a failed write the file holds total %d (sum %d), expected %d or %d", m.TotalRequests, m.sum(), cur, cur+n)
				return
			} else {
				what, curFile, cur = "new", d, cur+n
			}
		}
		r.Eval(fmt.Sprint("fail", limit, what))
		r.Count("failing_write_"+what, 1)
	}
	// and the next unlimited run works on top
	p := e.start(r, g, true, true, nil)
	if p == nil {
		return
	}
	c20Traffic(r, g, p, nil, 3)
	stop(p)
	if m, err := readMetricsFile(e.out); err != nil || m.TotalRequests != cur+3 {
		r.Violate("fail-next", M{"expected": cur + 3}, "after failed writes the next run wrote %v, %v", m, err)
	}
}

// c20Virtual runs the in-process server in virtual time in a process of its own.
func c20Virtual(r *rep.R) {
	for k := 0; k < r.N(8, 24); k++ {
		dir := rep.Scratch("c20v")
		res := dir + "/res.json"
		cmd := exec.Command(os.Getenv("VERIF_HARNESS_BIN"), "-test.run", "^TestC20Helper$", "-test.timeout", "300s")
		cmd.Dir = dir
		cmd.Env = append(os.Environ(), "C20_HELPER="+res, "C20_CASE="+fmt.Sprint(k), fmt.Sprintf("C20_SEED=%d", r.Seed))
		out, err := cmd.CombinedOutput()
		r.Beat()
		var hr struct {
			Done   bool
			Checks int
			Fail   []string
		}
		d, _ := os.ReadFile(res)
		json.Unmarshal(d, &hr)
		wit := M{"case": k, "output": tailS(string(out), 3000)}
		for _, f := range hr.Fail {
			r.Violate("periodic", wit, "%s", f)
		}
		if !hr.Done && len(hr.Fail) == 0 {
			if strings.Contains(string(out), "/repo/") && strings.Contains(string(out), "panic") {
				r.Violate("periodic-panic", wit, "the server panicked in virtual time")
			} else {
				r.Inconclusive("virtual time helper: %v: %s", err, tailS(string(out), 1500))
			}
			continue
		}
		for i := 0; i < hr.Checks; i++ {
			r.Eval(fmt.Sprint("virtual", k, i))
		}
		r.Count("periods", hr.Checks)
	}
}

// TestC20Helper is the child of c20Virtual.
func TestC20Helper(t *testing.T) {
	out := os.Getenv("C20_HELPER")
	if out == "" {
		t.Skip()
	}
	var k int
	var seed uint64
	fmt.Sscan(os.Getenv("C20_CASE"), &k)
	fmt.Sscan(os.Getenv("C20_SEED"), &seed)
	g := rand.New(rand.NewPCG(seed, uint64(k)))
	var fail []string
	checks := 0
	finish := func(done bool) {
		b, _ := json.Marshal(map[string]any{"Done": done, "Checks": checks, "Fail": fail})
		os.WriteFile(out, b, 0o644)
		os.Exit(0)
	}
	dir := filepath.Dir(out)
	e := &c20Env{dir: dir, out: dir + "/m/metrics.json"}
	os.MkdirAll(dir+"/m", 0o755)
	e.cert = srv.MakeCert(dir, "t", false, "localhost")
	put(dir, "www/index.html", "index")
	os.MkdirAll(dir+"/files", 0o755)
	cfg := e.config(true, true)
	old := 0
	switch k % 4 {
	case 1:
		m := bigMetrics(30)
		b, _ := json.Marshal(m)
		os.WriteFile(e.out, b, 0o644)
		old = m.TotalRequests
	case 2:
		os.WriteFile(e.out, []byte(`{"TotalRequests":0,"Paths":{}}`), 0o644)
	}
	cfg = srv.Merge(cfg, M{"Core": M{"LogOut": dir + "/log.txt"}})
	path := srv.WriteConfig(dir+"/main.cfg", srv.Merge(cfg, M{"Core": M{"Port": "1"}}), false, nil)
	synctest.Test(t, func(t *testing.T) {
		s := tuna.NewInstanceFromConfig(path)
		synctest.Wait()
		start := time.Now()
		type mark struct {
			at time.Duration
			n  int
		}
		var marks []mark
		sent := 0
		shown := old // the least the file must hold
		// for a while the file cannot be written; afterwards perhaps nobody comes any more
		from, to := 99, -1
		if k%2 == 1 {
			from = 2 + g.IntN(4)
			to = from + 1 + g.IntN(3)
		}
		quiet, away := g.IntN(3) > 0, false
		back := -time.Hour
		for period := 0; period < 12; period++ {
			if period == from {
				away = os.Rename(dir+"/m", dir+"/m.away") == nil
			}
			if period == to && away {
				os.Rename(dir+"/m.away", dir+"/m")
				away, back = false, time.Since(start)
			}
			for j := g.IntN(6) + 1; j > 0; j-- {
				for q := g.IntN(4); q > 0 && !(quiet && period > from); q-- {
					req, _ := http.NewRequest("GET", "/"+fmt.Sprint(g.IntN(5)), nil)
					req.RequestURI = req.URL.Path
					req.Host = "m.test"
					req.RemoteAddr = "127.0.0.1:1"
					serve(s.Router, req)
					sent++
				}
				marks = append(marks, mark{time.Since(start), sent})
				time.Sleep(time.Duration(g.IntN(9*60)) * time.Second)
			}
			time.Sleep(time.Duration(g.IntN(15)) * time.Minute)
			synctest.Wait()
			// everything counted more than 20 minutes (and a margin) ago must be in the file
			now := time.Since(start)
			need := 0
			for _, m := range marks {
				if m.at <= now-20*time.Minute-2*time.Second {
					need = m.n
				}
			}
			checks++
			if need == 0 || away || now < back+20*time.Minute+2*time.Second {
				continue
			}
			m, err := readMetricsFile(e.out)
			if err != nil {
				fail = append(fail, fmt.Sprintf("after %v of running with %d requests older than 20 minutes the metrics file is: %v", now, need, err))
				finish(false)
			}
			if m.TotalRequests < old+need || m.TotalRequests > old+sent || m.sum() != m.TotalRequests || m.TotalRequests < shown {
				fail = append(fail, fmt.Sprintf("after %v the file holds %d (sum %d): %d earlier, %d counted more than 20 minutes ago, %d in all", now, m.TotalRequests, m.sum(), old, need, sent))
				finish(false)
			}
			shown = m.TotalRequests
		}
		finish(true)
	})
}
