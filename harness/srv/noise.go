package srv

import (
	"bytes"
	"hash/fnv"
	"math/rand/v2"
	"net/http"
	"os"
	"strings"
	"sync"
)

// noise are request headers that no guarantee depends on: nothing the server decides may change when they are present.
var noise = [][2]string{
	{"Access-Control-Request-Method", "PUT"}, {"Access-Control-Request-Headers", "authorization, x-a"}, {"Origin", "https://evil.example"}, {"Origin", "null"},
	{"X-Forwarded-For", "127.0.0.1"}, {"X-Forwarded-For", "198.51.100.7, 127.0.0.2"}, {"X-Real-IP", "127.0.0.2"}, {"X-Real-IP", "203.0.113.5"}, {"Forwarded", "for=127.0.0.1;host=a.test;proto=http"},
	{"X-Client-IP", "127.0.0.3"}, {"True-Client-IP", "198.51.100.9"}, {"CF-Connecting-IP", "198.51.100.10"}, {"X-Forwarded-Host", "a.test"}, {"X-Forwarded-Host", "b.test"}, {"X-Forwarded-Proto", "http"}, {"X-Forwarded-Port", "81"}, {"X-Forwarded-Server", "x"}, {"X-Forwarded-Prefix", "/a"},
	{"X-Host", "a.test"}, {"X-Original-URL", "/secret"}, {"X-Rewrite-URL", "/a/f.txt"}, {"X-Original-Host", "a.test"}, {"X-HTTP-Method-Override", "DELETE"}, {"X-HTTP-Method-Override", "GET"}, {"X-Method-Override", "PUT"}, {"X-HTTP-Method", "POST"},
	{"Cookie", "session=1; theme=dark"}, {"Cookie", "Authorization=Basic YWRtaW46cHc="}, {"Cookie", "auth=1; admin=true; debug=1"}, {"Authorization", "Bearer abc.def"}, {"Proxy-Authorization", "Basic YWRtaW46cHc="},
	{"X-Requested-With", "XMLHttpRequest"}, {"Upgrade-Insecure-Requests", "1"}, {"DNT", "1"}, {"Save-Data", "on"}, {"Purpose", "prefetch"}, {"Sec-Purpose", "prefetch"}, {"X-Moz", "prefetch"},
	{"Sec-Fetch-Mode", "navigate"}, {"Sec-Fetch-Site", "cross-site"}, {"Sec-Fetch-Dest", "image"}, {"Cache-Control", "no-cache"}, {"Cache-Control", "only-if-cached"}, {"Cache-Control", "max-age=0"}, {"Pragma", "no-cache"},
	{"Accept", "text/html,application/xhtml+xml;q=0.9,*/*;q=0.8"}, {"Accept", "application/json"}, {"Accept", "image/webp"}, {"Accept", ""}, {"Accept-Language", "nl,en;q=0.5"}, {"Accept-Encoding", "gzip, deflate, br"}, {"Accept-Encoding", "identity;q=0"}, {"Accept-Charset", "utf-16"},
	{"Referer", "https://a.test/"}, {"Referer", "http://evil.example/%0d%0a"}, {"Via", "1.1 proxy"}, {"From", "root@localhost"}, {"Max-Forwards", "0"}, {"Early-Data", "1"}, {"Warning", "199 - x"}, {"Priority", "u=0"}, {"Prefer", "return=minimal"},
	{"X-Debug", "1"}, {"X-Admin", "true"}, {"X-Internal", "1"}, {"X-Request-ID", "%s%n{{.}}"}, {"Traceparent", "00-0af7651916cd43dd8448eb211c80319c-b7ad6b7169203331-01"}, {"X-Purge", "1"}, {"Content-Language", "en"}, {"Content-Location", "/secret"}, {"Depth", "infinity"}, {"Destination", "/other"}, {"Overwrite", "T"}, {"Timeout", "Infinite"}, {"Translate", "f"}, {"X-Empty", ""}, {"X-Accel-Redirect", "/secret"}, {"X-Sendfile", "/etc/hostname"}, {"X-Forwarded-Uri", "/secret"}, {"X-Original-Method", "DELETE"}, {"X-Upstream", "127.0.0.1:1"}, {"X-Backend", "b.test"}, {"X-Forwarded-User", "admin"}, {"X-Remote-User", "admin"}, {"X-Forwarded-Ssl", "on"}, {"Front-End-Https", "on"}, {"X-Cluster-Client-IP", "127.0.0.2"}, {"Fastly-Client-IP", "127.0.0.2"}, {"X-Scheme", "https"}, {"X-Api-Key", "x"}, {"X-No-Log", "1"}, {"X-Bypass", "1"}, {"X-Long", strings.Repeat("y", 3000)},
}

// noiseH1 are such headers that exist in HTTP/1 only.
var noiseH1 = [][2]string{
	{"Upgrade", "websocket"}, {"Upgrade", "h2c"}, {"Upgrade", "TLS/1.2, HTTP/3"}, {"Connection", "Upgrade"}, {"Connection", "keep-alive, Upgrade"}, {"Keep-Alive", "timeout=5"}, {"TE", "trailers"}, {"TE", "gzip;q=0.5"}, {"Proxy-Connection", "keep-alive"}, {"HTTP2-Settings", "AAMAAABkAARAAAAAAAIAAAAA"}, {"Sec-WebSocket-Key", "dGhlIHNhbXBsZSBub25jZQ=="},
}

// NoiseFor returns a few headers for a request, the same ones for the same request and seed. Headers that has reports as present are left out.
func NoiseFor(request []byte, h1 bool, has func(name string) bool) [][2]string {
	h := fnv.New64a()
	h.Write(request)
	h.Write([]byte(os.Getenv("VERIF_SEED")))
	g := rand.New(rand.NewPCG(h.Sum64(), 99))
	var out [][2]string
	if g.IntN(100) < 45 {
		return nil
	}
	seen := map[string]bool{}
	for n := 1 + g.IntN(4); n > 0; n-- {
		x := noise[g.IntN(len(noise))]
		if h1 && g.IntN(7) == 0 {
			x = noiseH1[g.IntN(len(noiseH1))]
		}
		if k := strings.ToLower(x[0]); !seen[k] && !has(k) {
			seen[k] = true
			out = append(out, x)
		}
	}
	if len(out) > 0 {
		noiseMu.Lock()
		noiseN++
		for _, x := range out {
			noiseSeen[x[0]] = true
		}
		l := request
		if i := bytes.IndexByte(l, '\n'); i >= 0 {
			l = l[:i]
		}
		s := strings.TrimSpace(string(l[:min(len(l), 200)]))
		for _, x := range out {
			s += " | " + x[0] + ": " + x[1][:min(len(x[1]), 80)]
		}
		if noiseLast = append(noiseLast, s); len(noiseLast) > 12 {
			noiseLast = noiseLast[1:]
		}
		noiseMu.Unlock()
	}
	return out
}

var (
	noiseMu   sync.Mutex
	noiseN    int
	noiseSeen = map[string]bool{}
	noiseLast []string
)

// NoiseStats returns how many requests had noise, how many header names were used and the latest such requests.
func NoiseStats() (int, int, []string) {
	noiseMu.Lock()
	defer noiseMu.Unlock()
	return noiseN, len(noiseSeen), append([]string(nil), noiseLast...)
}

// AddNoise inserts noise headers into raw request bytes.
func AddNoise(raw []byte) []byte {
	i := bytes.Index(raw, []byte("\r\n\r\n"))
	if i < 0 {
		return raw
	}
	head := bytes.ToLower(raw[:i+2])
	ns := NoiseFor(raw[:i+2], true, func(k string) bool { return bytes.Contains(head, []byte("\n"+k+":")) })
	if ns == nil {
		return raw
	}
	var b bytes.Buffer
	b.Write(raw[:i+2])
	for _, x := range ns {
		b.WriteString(x[0] + ": " + x[1] + "\r\n")
	}
	b.Write(raw[i+2:])
	return b.Bytes()
}

// NoiseHeader adds noise to the headers of a request.
func NoiseHeader(line string, h http.Header) {
	for _, x := range NoiseFor([]byte(line), false, func(k string) bool { return h.Values(k) != nil }) {
		h.Set(x[0], x[1])
	}
}
