package checks

import (
	"bufio"
	"fmt"
	"math/rand/v2"
	"net"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"verifharness/srv"
)

// listening returns the TCP addresses on which a process accepts connections; ok is false if they cannot be told.
func listening(pid int) (addrs []string, ok bool) {
	own := map[string]bool{}
	es, err := os.ReadDir(fmt.Sprintf("/proc/%d/fd", pid))
	if err != nil {
		return nil, false
	}
	for _, e := range es {
		if l, err := os.Readlink(filepath.Join(fmt.Sprintf("/proc/%d/fd", pid), e.Name())); err == nil && strings.HasPrefix(l, "socket:[") {
			own[strings.Trim(l[7:], "[]")] = true
		}
	}
	for _, f := range []string{"tcp", "tcp6"} {
		b, err := os.ReadFile(fmt.Sprintf("/proc/%d/net/%s", pid, f))
		if err != nil {
			return nil, false
		}
		for _, l := range strings.Split(string(b), "\n") {
			w := strings.Fields(l)
			if len(w) < 10 || w[3] != "0A" || !own[w[9]] {
				continue
			}
			h, p, _ := strings.Cut(w[1], ":")
			port, _ := strconv.ParseUint(p, 16, 16)
			ip := make(net.IP, len(h)/2)
			for i := range ip { // words in the byte order of the machine
				v, _ := strconv.ParseUint(h[i*2:i*2+2], 16, 8)
				ip[i/4*4+3-i%4] = byte(v)
			}
			if ip.IsUnspecified() {
				ip = nil
			}
			addrs = append(addrs, net.JoinHostPort(strings.TrimSuffix(ip.String(), "<nil>"), strconv.Itoa(int(port))))
		}
	}
	return addrs, len(addrs) > 0
}

// wellKnown are paths that software is tempted to treat in a special way; for the server they are like any other.
var wellKnown = []string{"/robots.txt", "/favicon.ico", "/sitemap.xml", "/health", "/healthz", "/livez", "/readyz", "/ping", "/status", "/version", "/api/v1/x", "/login", "/admin", "/static/app.js", "/assets/site.css", "/img/logo.png", "/.well-known/security.txt", "/.well-known/acme-challenge/token", "/.htaccess", "/.htpasswd", "/.env", "/.git/config", "/cgi-bin/x", "/server-status", "/debug/pprof/", "/crossdomain.xml", "/apple-touch-icon.png", "/manifest.json", "/sw.js", "/wp-login.php", "/index.htm", "/index.php", "/default.html", "/error.html", "/404.html", "/download.html"}

// agents are user agents of the same sort.
var agents = []string{"kube-probe/1.29", "ELB-HealthChecker/2.0", "GoogleHC/1.0", "Googlebot/2.1 (+http://www.google.com/bot.html)", "Mozilla/5.0 (compatible; bingbot/2.0)", "curl/8.5.0", "Wget/1.21", "Go-http-client/1.1", "Go-http-client/2.0", "Prometheus/2.45.0", "UptimeRobot/2.0", "Let's Encrypt validation server", "MaguroHTTP", "localhost", "admin", "-", "Mozilla/4.0 (compatible; MSIE 6.0; Windows NT 5.1)"}

func pick[T any](g *rand.Rand, xs []T) T { return xs[g.IntN(len(xs))] }

func chance(g *rand.Rand, p float64) bool { return g.Float64() < p }

// parse builds a server-side request from raw bytes the way net/http does.
func parse(raw string, remote string) (*http.Request, error) {
	r, err := http.ReadRequest(bufio.NewReader(strings.NewReader(raw)))
	if err != nil {
		return nil, err
	}
	r.RemoteAddr = remote
	return r, nil
}

func serve(h http.Handler, r *http.Request) *httptest.ResponseRecorder {
	w := httptest.NewRecorder()
	h.ServeHTTP(w, r)
	return w
}

// quirks appends headers that must not matter to those of a request.
func quirks(line string, hdr []string) []string {
	has := func(k string) bool {
		for i := 0; i < len(hdr); i += 2 {
			if strings.EqualFold(hdr[i], k) {
				return true
			}
		}
		return false
	}
	for _, x := range srv.NoiseFor([]byte(line+fmt.Sprint(hdr)), true, has) {
		hdr = append(hdr, x[0], x[1])
	}
	return hdr
}

func rawReq(method, target, host string, hdr ...string) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%s %s HTTP/1.1\r\nHost: %s\r\n", method, target, host)
	for i := 0; i+1 < len(hdr); i += 2 {
		fmt.Fprintf(&b, "%s: %s\r\n", hdr[i], hdr[i+1])
	}
	b.WriteString("\r\n")
	return b.String()
}

var httpMethods = []string{"GET", "PUT", "POST", "DELETE", "PATCH", "CONNECT", "OPTIONS", "HEAD"}
var davMethods = []string{"PROPFIND", "PROPPATCH", "MKCOL", "COPY", "MOVE", "LOCK", "UNLOCK"}

// unescape decodes the percent escapes of a path.
func unescape(p string) string {
	if u, err := url.PathUnescape(p); err == nil {
		return u
	}
	return p
}
