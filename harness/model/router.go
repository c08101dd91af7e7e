// Package model holds the reference models the monitors compare against. They are written from the documented behaviour,
// not from the code.
package model

import (
	"sort"
	"strings"
)

// Canon is the canonical form of a decoded request path.
func Canon(p string) string {
	var st []string
	for _, s := range strings.Split(p, "/") {
		switch s {
		case "", ".":
		case "..":
			if len(st) > 0 {
				st = st[:len(st)-1]
			}
		default:
			st = append(st, s)
		}
	}
	c := "/" + strings.Join(st, "/")
	if strings.HasSuffix(p, "/") && c != "/" {
		c += "/"
	}
	return c
}

// Route is one registered method route.
type Route struct {
	ID       int
	Fallback bool
	Content  string
}

// Node is what is registered for a host and path.
type Node struct {
	Host, Path string
	Methods    map[string]Route
	MW         []int
}

// Table is a routing table: host -> path -> node.
type Table map[string]map[string]*Node

func norm(p string) string {
	if p != "/" && strings.HasSuffix(p, "/") {
		return p[:len(p)-1]
	}
	return p
}

func (t Table) node(host, path string) *Node {
	path = norm(path)
	if t[host] == nil {
		t[host] = map[string]*Node{}
	}
	n := t[host][path]
	if n == nil {
		n = &Node{Host: host, Path: path, Methods: map[string]Route{}}
		t[host][path] = n
	}
	return n
}

// Add registers a route.
func (t Table) Add(host, path, method string, r Route) { t.node(host, path).Methods[method] = r }

// Use registers middleware.
func (t Table) Use(host, path string, id int) { n := t.node(host, path); n.MW = append(n.MW, id) }

func (t Table) match(host, p string) (n *Node, exact bool) {
	m := t[host]
	if n := m[p]; n != nil {
		return n, true
	}
	// nearest ancestor
	for p != "/" {
		i := strings.LastIndexByte(p, '/')
		p = p[:i]
		if p == "" {
			p = "/"
		}
		if n := m[p]; n != nil {
			return n, false
		}
	}
	return nil, false
}

// Decision is what must happen to a request.
type Decision struct {
	Status int
	Route  Route
	Node   *Node
	Exact  bool
	Why    string
}

// HostOf removes the port of a host header.
func HostOf(h string) string {
	i := strings.LastIndexByte(h, ':')
	if i < 0 {
		return h
	}
	if strings.HasPrefix(h, "[") {
		j := strings.IndexByte(h, ']')
		if j == len(h)-1 || j < 0 {
			return h
		}
		if h[j+1] == ':' && i == j+1 {
			return h[1:j]
		}
		return h
	}
	if strings.Count(h, ":") > 1 {
		return h
	}
	return h[:i]
}

// Decide applies the routing rules to a request with a decoded path.
func (t Table) Decide(host, path, method, ctype string) Decision {
	host = HostOf(host)
	p := Canon(path)
	hn, he := t.match(host, p)
	dn, de := t.match("DEFAULT", p)
	var n *Node
	var ex bool
	why := ""
	switch {
	case hn == nil && dn == nil:
		return Decision{Status: 404, Why: "none"}
	case hn != nil && dn == nil:
		n, ex, why = hn, he, "host-only"
	case hn == nil:
		n, ex, why = dn, de, "default-only"
	case de && !he:
		n, ex, why = dn, de, "default-exact"
	case he && !de:
		n, ex, why = hn, he, "host-exact"
	case he:
		n, ex, why = hn, he, "both-exact"
	default:
		n, ex, why = hn, he, "both-ancestor"
	}
	r, ok := n.Methods[method]
	if !ok {
		return Decision{Status: 405, Node: n, Exact: ex, Why: why}
	}
	if !ContentOK(r.Content, ctype) {
		return Decision{Status: 406, Node: n, Exact: ex, Why: why}
	}
	if !ex && !r.Fallback {
		return Decision{Status: 404, Node: n, Exact: ex, Why: why + "-nofallback"}
	}
	return Decision{Status: 200, Route: r, Node: n, Exact: ex, Why: why}
}

// ContentOK applies the content list of a route.
func ContentOK(list, ctype string) bool {
	if list == "*" {
		return true
	}
	if i := strings.IndexByte(ctype, ';'); i >= 0 {
		ctype = ctype[:i]
	}
	for _, c := range strings.Split(list, ";") {
		if c == ctype {
			return true
		}
	}
	return false
}

// Nodes lists the nodes that have methods, in a fixed order.
func (t Table) Nodes() []*Node {
	var ns []*Node
	for _, m := range t {
		for _, n := range m {
			if len(n.Methods) > 0 {
				ns = append(ns, n)
			}
		}
	}
	sort.Slice(ns, func(i, j int) bool { return ns[i].Host+" "+ns[i].Path < ns[j].Host+" "+ns[j].Path })
	return ns
}

// MethodList lists a node's methods in a fixed order.
func (n *Node) MethodList() []string {
	var ms []string
	for m := range n.Methods {
		ms = append(ms, m)
	}
	sort.Strings(ms)
	return ms
}
