package srv

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"net"
	"net/http/httputil"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
)

// UpReq is a request exactly as an upstream received it.
type UpReq struct {
	N       int // sequence number on this upstream
	Conn    int
	Line    string
	Method  string
	Target  string
	Header  [][2]string
	Body    []byte
	BodyErr error
	Chunked bool
}

// Get returns the first value of a header.
func (q *UpReq) Get(k string) string {
	for _, h := range q.Header {
		if strings.EqualFold(h[0], k) {
			return h[1]
		}
	}
	return ""
}

// All returns all values of a header in order.
func (q *UpReq) All(k string) []string {
	var out []string
	for _, h := range q.Header {
		if strings.EqualFold(h[0], k) {
			out = append(out, h[1])
		}
	}
	return out
}

// Upstream is a raw HTTP server that records what it is sent.
type Upstream struct {
	Name    string
	Addr    string
	Port    int
	Respond func(q *UpReq, c net.Conn) (keep bool) // nil: 200 with the upstream's name
	OnConn  func(c net.Conn) bool                  // nil or returns true: proceed with HTTP

	l     net.Listener
	mu    sync.Mutex
	reqs  []*UpReq
	conns atomic.Int64
	live  map[net.Conn]struct{}
}

// NewUpstream starts an upstream on a loopback address ("" = 127.0.0.1, any port).
func NewUpstream(name, ip string) *Upstream {
	if ip == "" {
		ip = "127.0.0.1"
	}
	l, err := net.Listen("tcp", net.JoinHostPort(ip, "0"))
	if err != nil {
		panic(err)
	}
	u := &Upstream{Name: name, l: l, Addr: l.Addr().String(), Port: l.Addr().(*net.TCPAddr).Port, live: map[net.Conn]struct{}{}}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			n := int(u.conns.Add(1))
			u.mu.Lock()
			u.live[c] = struct{}{}
			u.mu.Unlock()
			go u.serve(c, n)
		}
	}()
	return u
}

// Close stops the upstream.
func (u *Upstream) Close() {
	u.l.Close()
	u.mu.Lock()
	for c := range u.live {
		c.Close()
	}
	u.mu.Unlock()
}

// DropConns closes idle and active connections.
func (u *Upstream) DropConns() {
	u.mu.Lock()
	for c := range u.live {
		c.Close()
	}
	u.mu.Unlock()
}

// Live is the number of connections open now.
func (u *Upstream) Live() int { u.mu.Lock(); defer u.mu.Unlock(); return len(u.live) }

// Conns is the number of connections accepted so far.
func (u *Upstream) Conns() int { return int(u.conns.Load()) }

// Count is the number of requests received so far.
func (u *Upstream) Count() int { u.mu.Lock(); defer u.mu.Unlock(); return len(u.reqs) }

// Reqs returns the requests received since index from.
func (u *Upstream) Reqs(from int) []*UpReq {
	u.mu.Lock()
	defer u.mu.Unlock()
	return append([]*UpReq(nil), u.reqs[from:]...)
}

func (u *Upstream) serve(c net.Conn, n int) {
	defer func() {
		c.Close()
		u.mu.Lock()
		delete(u.live, c)
		u.mu.Unlock()
	}()
	if u.OnConn != nil && !u.OnConn(c) {
		return
	}
	br := bufio.NewReaderSize(c, 1<<16)
	for {
		q, err := ReadUpReq(br, func(q *UpReq) {
			if strings.EqualFold(q.Get("Expect"), "100-continue") {
				io.WriteString(c, "HTTP/1.1 100 Continue\r\n\r\n")
			}
		})
		if q == nil {
			_ = err
			return
		}
		q.Conn = n
		u.mu.Lock()
		q.N = len(u.reqs)
		u.reqs = append(u.reqs, q)
		u.mu.Unlock()
		if q.BodyErr != nil {
			return
		}
		if u.Respond == nil {
			b := "up:" + u.Name
			if q.Method == "HEAD" {
				fmt.Fprintf(c, "HTTP/1.1 200 OK\r\nContent-Length: %d\r\nX-Up: %s\r\n\r\n", len(b), u.Name)
			} else {
				fmt.Fprintf(c, "HTTP/1.1 200 OK\r\nContent-Length: %d\r\nX-Up: %s\r\n\r\n%s", len(b), u.Name, b)
			}
			continue
		}
		if !u.Respond(q, c) {
			return
		}
	}
}

// ReadUpReq reads one request keeping header order and spelling.
func ReadUpReq(br *bufio.Reader, beforeBody func(*UpReq)) (*UpReq, error) {
	line, err := br.ReadString('\n')
	if err != nil {
		return nil, err
	}
	q := &UpReq{Line: strings.TrimRight(line, "\r\n")}
	f := strings.SplitN(q.Line, " ", 3)
	if len(f) == 3 {
		q.Method, q.Target = f[0], f[1]
	}
	cl := int64(0)
	for {
		h, err := br.ReadString('\n')
		if err != nil {
			return nil, err
		}
		h = strings.TrimRight(h, "\r\n")
		if h == "" {
			break
		}
		k, v, _ := strings.Cut(h, ":")
		v = strings.TrimSpace(v)
		q.Header = append(q.Header, [2]string{k, v})
		if strings.EqualFold(k, "Content-Length") {
			cl, _ = strconv.ParseInt(v, 10, 64)
		}
		if strings.EqualFold(k, "Transfer-Encoding") && strings.Contains(strings.ToLower(v), "chunked") {
			q.Chunked = true
		}
	}
	if beforeBody != nil {
		beforeBody(q)
	}
	if q.Chunked {
		q.Body, q.BodyErr = io.ReadAll(httputil.NewChunkedReader(br))
		if q.BodyErr == nil {
			for { // trailer
				h, err := br.ReadString('\n')
				if err != nil || strings.TrimRight(h, "\r\n") == "" {
					break
				}
			}
		}
	} else if cl > 0 {
		var b bytes.Buffer
		_, q.BodyErr = io.CopyN(&b, br, cl)
		q.Body = b.Bytes()
	}
	return q, nil
}
