package checks

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"time"

	"verifharness/srv"
)

// h2Req sends one request as raw HTTP/2 frames on a new connection, so that every pseudo header
// can hold anything. It returns the status, the body and whether a complete answer came.
func h2Req(cn net.Conn, fields [][2]string, body []byte) (status int, answer []byte, err error) {
	var hp bytes.Buffer
	str := func(s string) {
		n := len(s)
		if n < 127 {
			hp.WriteByte(byte(n))
		} else {
			hp.WriteByte(127)
			for n -= 127; n >= 128; n >>= 7 {
				hp.WriteByte(byte(n&127 | 128))
			}
			hp.WriteByte(byte(n))
		}
		hp.WriteString(s)
	}
	for _, kv := range fields {
		hp.WriteByte(0)
		str(kv[0])
		str(kv[1])
	}
	frame := func(typ, flags byte, stream uint32, b []byte) []byte {
		h := []byte{byte(len(b) >> 16), byte(len(b) >> 8), byte(len(b)), typ, flags, 0, 0, 0, 0}
		binary.BigEndian.PutUint32(h[5:], stream)
		return append(h, b...)
	}
	// SETTINGS with a large window, and one for the connection
	out := append([]byte("PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n"), frame(4, 0, 0, []byte{0, 4, 0x3f, 0xff, 0xff, 0xff})...)
	out = append(out, frame(8, 0, 0, []byte{0x3f, 0, 0, 0})...)
	flags := byte(4)
	if len(body) == 0 {
		flags = 5
	}
	hb := hp.Bytes()
	if len(hb) > 16000 {
		out = append(out, frame(1, flags&1, 1, hb[:16000])...)
		for hb = hb[16000:]; len(hb) > 16000; hb = hb[16000:] {
			out = append(out, frame(9, 0, 1, hb[:16000])...)
		}
		out = append(out, frame(9, 4, 1, hb)...)
	} else {
		out = append(out, frame(1, flags, 1, hb)...)
	}
	for len(body) > 0 {
		n := min(len(body), 16000)
		f := byte(0)
		if n == len(body) {
			f = 1
		}
		out = append(out, frame(0, f, 1, body[:n])...)
		body = body[n:]
	}
	if _, err := cn.Write(out); err != nil {
		return 0, nil, err
	}
	for {
		var h [9]byte
		if _, err := io.ReadFull(cn, h[:]); err != nil {
			return status, answer, err
		}
		b := make([]byte, int(h[0])<<16|int(h[1])<<8|int(h[2]))
		if _, err := io.ReadFull(cn, b); err != nil {
			return status, answer, err
		}
		id := binary.BigEndian.Uint32(h[5:]) & 0x7fffffff
		switch {
		case h[3] == 7 || h[3] == 3 && id == 1:
			return status, answer, fmt.Errorf("refused by the protocol: frame type %d %x", h[3], b)
		case h[3] == 4 && h[4]&1 == 0:
			cn.Write(frame(4, 1, 0, nil))
		case id == 1 && h[3] == 1 && status == 0:
			status = hpackStatus(b)
		case id == 1 && h[3] == 0:
			if h[4]&8 != 0 && len(b) > 0 { // padding
				b = b[1 : len(b)-int(b[0])]
			}
			answer = append(answer, b...)
		}
		if id == 1 && (h[3] == 0 || h[3] == 1) && h[4]&1 == 1 {
			return status, answer, nil
		}
	}
}

// hpackStatus reads the :status field, the first of a header block.
func hpackStatus(b []byte) int {
	for len(b) > 0 && b[0]&0xe0 == 0x20 { // dynamic table size updates
		n := 1
		if b[0]&0x1f == 0x1f {
			for n < len(b) && b[n]&0x80 != 0 {
				n++
			}
			n++
		}
		b = b[min(n, len(b)):]
	}
	if len(b) < 1 {
		return -1
	}
	if b[0] >= 0x88 && b[0] <= 0x8e {
		return []int{200, 204, 206, 304, 400, 404, 500}[b[0]-0x88]
	}
	if b[0]&0x3f < 8 && b[0]&0x3f > 14 && b[0]&0x0f < 8 || len(b) < 3 {
		return -1
	}
	v := b[2:]
	n := int(b[1] & 0x7f)
	if n > len(v) {
		return -1
	}
	v = v[:n]
	if b[1]&0x80 == 0 {
		s := 0
		fmt.Sscan(string(v), &s)
		return s
	}
	bits, at := uint32(0), 0 // Huffman: 0, 1 and 2 are 5 bits, 3 to 9 are 6 bits from 011001 on
	for _, c := range v {
		bits = bits<<8 | uint32(c)
		at += 8
	}
	s := 0
	for k := 0; k < 3; k++ {
		if at < 5 {
			return -1
		}
		if c := bits >> (at - 5) & 31; c < 3 {
			s, at = s*10+int(c), at-5
			continue
		}
		if at < 6 {
			return -1
		}
		c := bits >> (at - 6) & 63
		if c < 0x19 || c > 0x1f {
			return -1
		}
		s, at = s*10+int(c-0x19)+3, at-6
	}
	return s
}

// h2Do sends one raw HTTP/2 request to a server with TLS.
func h2Do(p *srv.Proc, method, auth, path string, hdr [][2]string, body []byte) (int, []byte, error) {
	cfg := srv.TLSClient("localhost")
	cfg.NextProtos = []string{"h2"}
	c := &srv.Client{Addr: p.Addr, TLS: cfg}
	cn, err := c.Dial()
	if err != nil {
		return 0, nil, err
	}
	defer cn.Close()
	cn.SetDeadline(time.Now().Add(60 * time.Second))
	return h2Req(cn, append([][2]string{{":method", method}, {":scheme", "https"}, {":authority", auth}, {":path", path}}, hdr...), body)
}
