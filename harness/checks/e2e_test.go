package checks

import (
	"fmt"
	"math/rand/v2"
	"os"
	"path/filepath"
	"strings"
	"time"

	"verifharness/rep"
	"verifharness/srv"
)

type M = srv.M

func init() { rep.Noise = srv.NoiseStats }

// noLimit is a guard section that never refuses.
func noLimit() M { return M{"Rate": 1e9, "RateBurst": 1000000000} }

// core returns a Core section for a server living in dir.
func core(dir string, more M) M {
	return srv.Merge(M{"Address": "127.0.0.1", "FileDir": filepath.Join(dir, "files") + "/", "LogLevel": 1, "LogOut": filepath.Join(dir, "log.txt")}, more)
}

// launch writes the configuration (plus virtual host files) and starts the server; retries when the port got lost.
func launch(r *rep.R, g *rand.Rand, dir string, cfg M, vhosts map[string]M, o srv.Opt) *srv.Proc {
	p, err := tryLaunch(g, dir, cfg, vhosts, o)
	if err != nil {
		out := ""
		if p != nil {
			out = p.Out.String()
		}
		if strings.Contains(out, "address already in use") || p == nil {
			r.Inconclusive("server did not start: %v", err)
		} else {
			r.Violate("no-start", M{"config": srv.JSON(cfg), "output": out}, "the server does not start with a valid configuration: %v", err)
		}
		return nil
	}
	return p
}

func tryLaunch(g *rand.Rand, dir string, cfg M, vhosts map[string]M, o srv.Opt) (*srv.Proc, error) {
	var p *srv.Proc
	var err error
	os.MkdirAll(filepath.Join(dir, "files"), 0o755)
	for try := 0; try < 4; try++ {
		port := srv.FreePort()
		c := srv.Merge(cfg, M{"Core": M{"Port": fmt.Sprint(port)}})
		if vhosts != nil {
			vh := map[string]string{}
			for name, vc := range vhosts {
				f := filepath.Join(dir, "vhost-"+strings.NewReplacer(":", "_", "/", "_").Replace(name)+".cfg")
				srv.WriteConfig(f, vc, g != nil && chance(g, .5), g)
				vh[name] = f
			}
			c = srv.Merge(c, M{"Core": M{"VirtualHosting": true, "VirtualHosts": vh}})
		}
		o.Dir = dir
		o.Config = srv.WriteConfig(filepath.Join(dir, "main.cfg"), c, g != nil && chance(g, .5), g)
		o.Port = port
		if core, ok := c["Core"].(M); ok {
			if t, ok := core["TLS"].(M); ok && t["Enabled"] == true {
				o.TLS = true
			}
		}
		p, err = srv.Launch(o)
		if err == nil || p == nil || !strings.Contains(p.Out.String(), "address already in use") {
			return p, err
		}
	}
	return p, err
}

// client returns a client for the server from the given source address.
func client(p *srv.Proc, local string) *srv.Client {
	c := &srv.Client{Addr: p.Addr, Local: local, Noise: true}
	if p.TLS {
		c.TLS = srv.TLSClient("localhost")
	}
	return c
}

// put writes a file below dir, creating directories.
func put(dir, name, content string) string {
	f := filepath.Join(dir, filepath.FromSlash(name))
	if err := os.MkdirAll(filepath.Dir(f), 0o755); err != nil {
		panic(err)
	}
	if err := os.WriteFile(f, []byte(content), 0o644); err != nil {
		panic(err)
	}
	return f
}

// checkAlive records a violation if the server died or one of its handlers panicked.
func checkAlive(r *rep.R, p *srv.Proc, wit any) bool {
	if p.Exited() {
		r.Violate("server-died", M{"case": wit, "output": tailS(p.Out.String(), 4000)}, "the server process ended: %v", p.ExitErr())
		return false
	}
	return true
}

// checkPanics looks for handler panics in everything the server printed or logged.
func checkPanics(r *rep.R, p *srv.Proc, key string) {
	out := p.Out.String() + srv.ReadFileString(filepath.Join(p.Dir, "log.txt"))
	if s := srv.RepoPanic(out); s != "" && strings.Contains(s, "/repo/") {
		r.Violate(key, M{"output": s}, "the server logged a panic: %.200s", s)
	}
}

func tailS(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func stop(p *srv.Proc) {
	if p != nil {
		p.Stop(40 * time.Second)
	}
}
