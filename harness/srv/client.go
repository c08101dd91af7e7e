package srv

import (
	"bufio"
	"bytes"
	"crypto/tls"
	"fmt"
	"io"
	"net"
	"net/http"
	"strings"
	"time"
)

// Resp is a response as the client saw it.
type Resp struct {
	Status  int
	Header  http.Header
	Body    []byte
	BodyErr error // non-nil: the body was not complete
	Proto   string
	Raw     *http.Response
}

// Client is a raw HTTP/1.1 client bound to a source address; one request at a time, keep-alive.
type Client struct {
	Addr    string
	Local   string // source IP, e.g. 127.0.3.7; empty: default
	TLS     *tls.Config
	Timeout time.Duration // watchdog per exchange
	Noise   bool          // add headers that must not matter
	conn    net.Conn
	br      *bufio.Reader
	local   string
}

// LocalAddr is the client's address of the last exchange.
func (c *Client) LocalAddr() string { return c.local }

// Dial opens a connection.
func (c *Client) Dial() (net.Conn, error) {
	d := net.Dialer{Timeout: 30 * time.Second}
	if c.Local != "" {
		d.LocalAddr = &net.TCPAddr{IP: net.ParseIP(c.Local)}
	}
	cn, err := d.Dial("tcp", c.Addr)
	if err != nil {
		return nil, err
	}
	return c.Wrap(cn)
}

// Wrap does the TLS handshake on a connection if the client uses TLS.
func (c *Client) Wrap(cn net.Conn) (net.Conn, error) {
	if c.TLS != nil {
		t := tls.Client(cn, c.TLS)
		cn.SetDeadline(time.Now().Add(60 * time.Second))
		if err := t.Handshake(); err != nil {
			cn.Close()
			return nil, err
		}
		cn.SetDeadline(time.Time{})
		return t, nil
	}
	return cn, nil
}

// Close drops the connection.
func (c *Client) Close() {
	if c.conn != nil {
		c.conn.Close()
		c.conn = nil
	}
}

// ErrNoResponse is returned when the server closed the connection without answering.
type ErrNoResponse struct{ Err error }

func (e ErrNoResponse) Error() string { return "no response: " + e.Err.Error() }

// Do sends raw request bytes and reads one response for the given method.
func (c *Client) Do(raw []byte, method string) (*Resp, error) {
	to := c.Timeout
	if to == 0 {
		to = 90 * time.Second
	}
	if c.Noise {
		raw = AddNoise(raw)
	}
	for attempt := 0; ; attempt++ {
		fresh := false
		if c.conn == nil {
			cn, err := c.Dial()
			if err != nil {
				return nil, err
			}
			c.conn, c.br, fresh = cn, bufio.NewReader(cn), true
			c.local = cn.LocalAddr().String()
		}
		c.conn.SetDeadline(time.Now().Add(to))
		_, werr := c.conn.Write(raw)
		resp, err := readResp(c.br, method)
		if err != nil {
			c.Close()
			if ne, ok := err.(net.Error); ok && ne.Timeout() {
				return nil, fmt.Errorf("timeout: no answer within %v: %w", to, err)
			}
			if !fresh && attempt == 0 { // stale keep-alive connection
				continue
			}
			if werr != nil {
				err = werr
			}
			return nil, ErrNoResponse{err}
		}
		if resp.BodyErr != nil || resp.Raw.Close || strings.EqualFold(resp.Header.Get("Connection"), "close") {
			c.Close()
		}
		return resp, nil
	}
}

func readResp(br *bufio.Reader, method string) (*Resp, error) {
	for {
		hr, err := http.ReadResponse(br, &http.Request{Method: method})
		if err != nil {
			return nil, err
		}
		if hr.StatusCode >= 100 && hr.StatusCode < 200 && hr.StatusCode != 101 {
			continue
		}
		r := &Resp{Status: hr.StatusCode, Header: hr.Header, Proto: hr.Proto, Raw: hr}
		r.Body, r.BodyErr = io.ReadAll(hr.Body)
		hr.Body.Close()
		return r, nil
	}
}

// Req builds raw request bytes.
func Req(method, target, host string, hdr [][2]string, body []byte) []byte {
	var b bytes.Buffer
	fmt.Fprintf(&b, "%s %s HTTP/1.1\r\nHost: %s\r\n", method, target, host)
	cl := false
	for _, h := range hdr {
		fmt.Fprintf(&b, "%s: %s\r\n", h[0], h[1])
		if strings.EqualFold(h[0], "Content-Length") || strings.EqualFold(h[0], "Transfer-Encoding") {
			cl = true
		}
	}
	if body != nil && !cl {
		fmt.Fprintf(&b, "Content-Length: %d\r\n", len(body))
	}
	b.WriteString("\r\n")
	b.Write(body)
	return b.Bytes()
}

// Get is shorthand for a GET.
func (c *Client) Get(target, host string, hdr ...[2]string) (*Resp, error) {
	return c.Do(Req("GET", target, host, hdr, nil), "GET")
}

// ReadResp reads one response from a connection used for nothing else.
func ReadResp(c net.Conn, method string) (*Resp, error) {
	r, err := readResp(bufio.NewReader(c), method)
	if err != nil {
		if ne, ok := err.(net.Error); ok && ne.Timeout() {
			return nil, fmt.Errorf("timeout: no answer: %w", err)
		}
		return nil, ErrNoResponse{err}
	}
	return r, nil
}
