package srv

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/rsa"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"fmt"
	"io"
	"math/big"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Bin is the server binary built from /repo.
func Bin() string { return os.Getenv("VERIF_SERVER_BIN") }

var (
	portMu   sync.Mutex
	portNext = 10000 + (os.Getpid()*97)%20000
	portHeld []net.Listener
)

// FreePort picks a TCP port that is unused on this machine. It is below the ports the kernel hands out by itself,
// so that no outgoing connection can take it, and an abstract socket reserves it for this process.
func FreePort() int {
	portMu.Lock()
	defer portMu.Unlock()
	for {
		p := portNext
		if portNext++; portNext >= 32000 {
			portNext = 10000
		}
		res, err := net.Listen("unix", fmt.Sprintf("@verif-port-%d", p))
		if err != nil {
			continue
		}
		ok := true
		for _, a := range []string{"", "127.0.0.1", "[::1]"} {
			l, err := net.Listen("tcp", fmt.Sprintf("%s:%d", a, p))
			if err != nil && !(a == "[::1]" && !strings.Contains(err.Error(), "in use")) {
				ok = false
				break
			}
			if err == nil {
				l.Close()
			}
		}
		if !ok {
			res.Close()
			continue
		}
		portHeld = append(portHeld, res)
		return p
	}
}

type lockedBuf struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (l *lockedBuf) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.b.Len() > 64<<20 {
		return len(p), nil
	}
	return l.b.Write(p)
}
func (l *lockedBuf) String() string { l.mu.Lock(); defer l.mu.Unlock(); return l.b.String() }

// Proc is a running server process.
type Proc struct {
	Cmd    *exec.Cmd
	Dir    string
	Port   int
	Addr   string
	TLS    bool
	Out    *lockedBuf
	exited chan struct{}
	err    error
}

// Opt configures Launch.
type Opt struct {
	Dir    string // scratch directory of this server
	Config string // path of main configuration
	Port   int    // port in the configuration
	Host   string // host to connect to, default 127.0.0.1
	TLS    bool
	Env    []string // extra environment
	Wrap   []string // command prefix (e.g. prlimit)
	NoWait bool     // do not wait for the port
}

// Launch starts the server and waits until it accepts connections or exits.
func Launch(o Opt) (*Proc, error) {
	if o.Host == "" {
		o.Host = "127.0.0.1"
	}
	args := append(append([]string{}, o.Wrap...), Bin(), o.Config)
	cmd := exec.Command(args[0], args[1:]...)
	cmd.Dir = o.Dir
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0 log_path="+os.Getenv("VERIF_RACELOG"), "HTTP_PROXY=", "http_proxy=", "HTTPS_PROXY=", "https_proxy=", "NO_PROXY=*")
	cmd.Env = append(cmd.Env, o.Env...)
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	p := &Proc{Cmd: cmd, Dir: o.Dir, Port: o.Port, Addr: net.JoinHostPort(o.Host, strconv.Itoa(o.Port)), TLS: o.TLS, Out: &lockedBuf{}, exited: make(chan struct{})}
	cmd.Stdout = p.Out
	cmd.Stderr = p.Out
	if err := startLocked(cmd); err != nil {
		return nil, err
	}
	go func() { p.err = cmd.Wait(); close(p.exited) }()
	if o.NoWait {
		return p, nil
	}
	deadline := time.Now().Add(60 * time.Second)
	for {
		if c, err := net.DialTimeout("tcp", p.Addr, time.Second); err == nil {
			c.Close()
			return p, nil
		}
		select {
		case <-p.exited:
			return p, fmt.Errorf("server exited at startup: %v: %s", p.err, tail(p.Out.String(), 2000))
		case <-time.After(5 * time.Millisecond):
		}
		if time.Now().After(deadline) {
			p.Kill()
			return p, fmt.Errorf("server did not listen within 60s: %s", tail(p.Out.String(), 2000))
		}
	}
}

// Pdeathsig is tied to the starting thread: start processes from one locked OS thread that never ends.
var starter = make(chan func())

func init() {
	go func() {
		lockThread()
		for f := range starter {
			f()
		}
	}()
}

func startLocked(cmd *exec.Cmd) error {
	ch := make(chan error)
	starter <- func() { ch <- cmd.Start() }
	return <-ch
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

// Exited reports whether the process has ended.
func (p *Proc) Exited() bool {
	select {
	case <-p.exited:
		return true
	default:
		return false
	}
}

// WaitExit waits for the end of the process.
func (p *Proc) WaitExit(d time.Duration) bool {
	select {
	case <-p.exited:
		return true
	case <-time.After(d):
		return false
	}
}

// ExitErr is the result of Wait.
func (p *Proc) ExitErr() error { return p.err }

// Signal sends a signal.
func (p *Proc) Signal(s syscall.Signal) { p.Cmd.Process.Signal(s) }

// Kill ends the process immediately.
func (p *Proc) Kill() {
	p.Cmd.Process.Kill()
	<-p.exited
}

// Stop asks the process to stop and waits; kills it after d.
func (p *Proc) Stop(d time.Duration) bool {
	if p.Exited() {
		return true
	}
	p.Signal(syscall.SIGTERM)
	if p.WaitExit(d) {
		return true
	}
	p.Kill()
	return false
}

// Cert is a generated certificate.
type Cert struct {
	CertFile, KeyFile string
	Leaf              *x509.Certificate
	Pool              *x509.CertPool
}

// MakeCert writes a self-signed certificate for the names.
func MakeCert(dir, base string, rsaKey bool, names ...string) Cert {
	tpl := &x509.Certificate{SerialNumber: big.NewInt(time.Now().UnixNano()), Subject: pkix.Name{CommonName: "verif"},
		NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(24 * time.Hour),
		KeyUsage: x509.KeyUsageDigitalSignature | x509.KeyUsageCertSign, IsCA: true, BasicConstraintsValid: true,
		ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}, DNSNames: names, IPAddresses: []net.IP{net.ParseIP("127.0.0.1")}}
	var keyPEM []byte
	var der []byte
	var err error
	if rsaKey {
		k, e := rsa.GenerateKey(crand.Reader, 2048)
		if e != nil {
			panic(e)
		}
		der, err = x509.CreateCertificate(crand.Reader, tpl, tpl, &k.PublicKey, k)
		keyPEM = pem.EncodeToMemory(&pem.Block{Type: "RSA PRIVATE KEY", Bytes: x509.MarshalPKCS1PrivateKey(k)})
	} else {
		k, e := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
		if e != nil {
			panic(e)
		}
		der, err = x509.CreateCertificate(crand.Reader, tpl, tpl, &k.PublicKey, k)
		kb, _ := x509.MarshalECPrivateKey(k)
		keyPEM = pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: kb})
	}
	if err != nil {
		panic(err)
	}
	c := Cert{CertFile: filepath.Join(dir, base+".cert"), KeyFile: filepath.Join(dir, base+".key")}
	os.WriteFile(c.CertFile, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}), 0o644)
	os.WriteFile(c.KeyFile, keyPEM, 0o600)
	c.Leaf, _ = x509.ParseCertificate(der)
	c.Pool = x509.NewCertPool()
	c.Pool.AddCert(c.Leaf)
	return c
}

// TLSClient is a client configuration that accepts anything.
func TLSClient(name string) *tls.Config {
	return &tls.Config{InsecureSkipVerify: true, ServerName: name}
}

// ReadFileString returns a file's contents or "".
func ReadFileString(p string) string {
	f, err := os.Open(p)
	if err != nil {
		return ""
	}
	defer f.Close()
	b, _ := io.ReadAll(f)
	return string(b)
}

// RepoPanic extracts a handler panic from server output, if any.
func RepoPanic(out string) string {
	for _, m := range []string{"panic serving", "panic: ", "fatal error: "} {
		if i := strings.Index(out, m); i >= 0 {
			e := i + 1500
			if e > len(out) {
				e = len(out)
			}
			return out[i:e]
		}
	}
	return ""
}
