package checks

import (
	"fmt"
	"math/rand/v2"
	"os"
	"path/filepath"
	"strings"
	"syscall"

	"verifharness/rep"
	"verifharness/srv"
)

// wsite is one site of a world.
type wsite struct {
	host, kind string // serve, download, proxy, dead (proxy to nowhere), fw, lim
	headers    map[string]string
	errors     map[string]string // code -> content of the custom page that exists
	errFiles   map[string]string // code -> configured file, whether it exists or not
	limit      int
}

// world is a server with one site of every kind.
type world struct {
	start  func() *srv.Proc // starts the server once more, with the same configuration
	dir    string
	p      *srv.Proc
	up     *srv.Upstream
	dead   string
	undead func()
	tls    bool
	hsts   string // expected directives, sorted by construction; "" without TLS
	main   *wsite // the configuration that answers unknown hosts
	sites  map[string]*wsite
	order  []string
	one    string // the only kind, when virtual hosting is off
	wrap   []string
}

// unprivileged runs the server as a user for whom permissions count.
var unprivileged = []string{"setpriv", "--reuid=65534", "--regid=65534", "--clear-groups", "--pdeathsig", "KILL"}

var worldKinds = []string{"serve", "download", "proxy", "dead", "fw", "lim"}

var secDefaults = map[string]string{
	"X-Frame-Options":         "SAMEORIGIN",
	"X-Content-Type-Options":  "nosniff",
	"X-XSS-Protection":        "1; mode=block",
	"Referrer-Policy":         "no-referrer",
	"Content-Security-Policy": "default-src 'self'",
	"Feature-Policy":          "geolocation 'none'; midi 'none'; notifications 'none'; push 'none'; sync-xhr 'none'; microphone 'none'; camera 'none'; magnetometer 'none'; gyroscope 'none'; speaker 'none'; vibrate 'none'; fullscreen 'none'; payment 'none';",
	"Server":                  "MaguroHTTP",
}

var errCodes = []string{"401", "403", "404", "405", "406", "429", "502"}

// deadAddr is an address nobody listens on.
func deadAddr() (string, func()) {
	// bound but not listening: connections are refused and nobody else can take the port
	fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0)
	if err == nil {
		err = syscall.Bind(fd, &syscall.SockaddrInet4{Addr: [4]byte{127, 0, 0, 1}})
	}
	if err != nil {
		panic(err)
	}
	sa, err := syscall.Getsockname(fd)
	if err != nil {
		panic(err)
	}
	return fmt.Sprintf("127.0.0.1:%d", sa.(*syscall.SockaddrInet4).Port), func() { syscall.Close(fd) }
}

func randHeaders(g *rand.Rand, tag string) map[string]string {
	h := map[string]string{}
	for _, k := range []string{"X-Frame-Options", "X-Content-Type-Options", "X-XSS-Protection", "Referrer-Policy", "Content-Security-Policy", "Feature-Policy", "Server"} {
		if chance(g, .3) {
			n := k
			if chance(g, .3) {
				n = strings.ToLower(k)
			}
			h[n] = "over-" + tag + "-" + k
			if chance(g, .15) { // taken away
				h[n] = ""
			}
		}
	}
	for i := g.IntN(4); i > 0; i-- {
		h["X-Site-"+pick(g, []string{"A", "B", "C", "Dd", "eE"})] = tag + pick(g, []string{"1", " two; words", "=\"q\""})
	}
	if chance(g, .3) {
		h["Cache-Control"] = "max-age=60, " + tag
	}
	return h
}

// hsts counts the worlds with a configured age, so that every age comes up.
var hsts = -1

// newWorld builds and starts a server; mut may adapt the configuration before the start.
func newWorld(r *rep.R, g *rand.Rand, name string, useTLS bool, one string, mut func(w *world, main M, vh map[string]M)) *world {
	w := &world{dir: rep.Scratch(name), tls: useTLS, one: one, sites: map[string]*wsite{}, main: &wsite{kind: "main"}}
	w.up = srv.NewUpstream("u", "")
	w.dead, w.undead = deadAddr()
	for _, p := range []string{"index.html", "a/index.html", "a/f.txt", "f.bin", "x y.html", "secret/s.txt"} {
		put(w.dir+"/www", p, "FILE "+p+strings.Repeat(".", 300))
	}
	mkErrors := func(tag string) (M, map[string]string, map[string]string) {
		cfg, have, files := M{}, map[string]string{}, map[string]string{}
		for _, c := range errCodes {
			f := pick(g, []string{"err" + c + ".html", "err" + c + ".html", "e/" + c + "/index.html", c + ".txt", c})
			f = filepath.Join(w.dir, "errors", tag, f)
			switch g.IntN(6) {
			case 0, 1:
				body := fmt.Sprintf("<p>custom %s of %s</p>", c, tag) + strings.Repeat("#", pick(g, []int{0, 10, 3000, 50000, 130000}))
				put(filepath.Dir(f), filepath.Base(f), body)
				cfg[c], have[c], files[c] = f, body, f
			case 2: // configured but missing
				cfg[c], files[c] = f+".missing", f+".missing"
			case 3: // a directory is no page
				if chance(g, .3) {
					os.MkdirAll(f+".d", 0o755)
					cfg[c] = f + ".d"
				}
			}
		}
		return cfg, have, files
	}
	vh := map[string]M{}
	for _, k := range worldKinds {
		for i := 0; i < 2; i++ {
			if one != "" && (k != one || i > 0) {
				continue
			}
			s := &wsite{host: fmt.Sprintf("%s%d.test", k, i), kind: k, headers: randHeaders(g, fmt.Sprint(k, i))}
			ec, have, files := mkErrors(s.host)
			s.errors, s.errFiles = have, files
			hd := M{}
			for k, v := range s.headers {
				hd[k] = v
			}
			c := M{"Guard": noLimit(), "Errors": ec}
			sv := M{"ServeDir": w.dir + "/www", "ServeIndex": "index.html", "Headers": hd}
			if len(hd) == 0 {
				delete(sv, "Headers")
			}
			switch k {
			case "proxy", "dead":
				a := w.up.Addr
				if k == "dead" {
					a = w.dead
				}
				px := M{"Enabled": true, "Rules": map[string]string{s.host: "http://" + a}, "Methods": []string{"GET", "HEAD", "POST"}, "Headers": hd}
				if len(hd) == 0 {
					delete(px, "Headers")
				}
				c["Proxy"] = px
			case "download":
				sv["Download"] = M{"Enabled": true, "Exts": pick(g, [][]string{{".bin", ".txt"}, {".txt", ".html", ".bin"}, {".txt", ".bin", ".txt"}})}
				c["Serve"] = sv
			default:
				sv["Methods"] = map[string]string{"/": "GET;HEAD;POST"}
				c["Serve"] = sv
			}
			if k == "fw" {
				c["Guard"] = srv.Merge(noLimit(), M{"Firewall": M{"Enabled": true, "Blacklisting": true, "Rules": M{"/secret": []string{"*"}, "/f.bin": []string{"127.0.0.1", "127.0.0.9"}}}})
			}
			if k == "lim" {
				s.limit = 1 + g.IntN(3)
				c["Guard"] = M{"Rate": 0.001, "RateBurst": s.limit}
			}
			vh[s.host] = c
			w.sites[s.host] = s
			w.order = append(w.order, s.host)
		}
	}
	ec, have, files := mkErrors("main")
	w.main.errors, w.main.errFiles = have, files
	main := M{"Errors": ec, "Core": core(w.dir, M{"Metrics": M{"Enabled": true, "Path": "/metrics", "Out": w.dir + "/metrics.json", "Users": M{"admin": "pw"}}})}
	if useTLS {
		c := srv.MakeCert(w.dir, "tls", chance(g, .3), "localhost")
		t := M{"Enabled": true, "TLSCert": c.CertFile, "TLSKey": c.KeyFile}
		age := 31557600
		hs := M{}
		if chance(g, .75) {
			hsts++
			age = []int{0, 300, 1, 63072000, 0, 1 << 31}[hsts%6]
			hs["MaxAge"] = age
		}
		w.hsts = fmt.Sprintf("max-age=%d", age)
		if chance(g, .5) {
			hs["IncludeSubdomains"] = true
			w.hsts += ";includesubdomains"
		}
		if chance(g, .5) {
			hs["Preload"] = true
			w.hsts += ";preload"
		}
		if len(hs) > 0 {
			t["HSTS"] = hs
		}
		main = srv.Merge(main, M{"Core": M{"TLS": t}})
	}
	if one != "" {
		s := w.sites[w.order[0]]
		main = srv.Merge(main, vh[s.host])
		main["Errors"] = vh[s.host]["Errors"]
		w.main = s
		vh = nil
	}
	if mut != nil {
		mut(w, main, vh)
	}
	w.start = func() *srv.Proc { return launch(r, g, w.dir, main, vh, srv.Opt{Wrap: w.wrap}) }
	w.p = w.start()
	if w.p == nil {
		w.undead()
		w.up.Close()
		return nil
	}
	return w
}

func (w *world) close() {
	stop(w.p)
	w.undead()
	w.up.Close()
}

// normHSTS brings a Strict-Transport-Security value into a comparable form.
func normHSTS(v string) string {
	var out []string
	for _, d := range strings.Split(v, ";") {
		if d = strings.ToLower(strings.TrimSpace(d)); d != "" {
			out = append(out, d)
		}
	}
	// max-age first, then alphabetical
	s := ""
	for _, want := range []string{"max-age", "includesubdomains", "preload"} {
		for i, d := range out {
			if strings.HasPrefix(d, want) {
				if s != "" {
					s += ";"
				}
				s += d
				out = append(out[:i], out[i+1:]...)
				break
			}
		}
	}
	for _, d := range out {
		s += ";?" + d
	}
	return s
}

// site is the site that answers a host, nil if none does.
func (w *world) site(host string) *wsite {
	if s := w.sites[host]; s != nil || w.one == "" || w.one == "proxy" || w.one == "dead" {
		return s
	}
	return w.main
}

// oneOf picks the mode of a world: mostly virtual hosting.
func oneOf(s int) string {
	if s%3 == 2 {
		return worldKinds[(s/3)%len(worldKinds)]
	}
	return ""
}
