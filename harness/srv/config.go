// Package srv runs the real server binary, its clients and its upstreams.
package srv

import (
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// M is a configuration tree.
type M = map[string]any

// JSON renders a configuration as JSON.
func JSON(c M) string {
	b, err := json.MarshalIndent(c, "", "\t")
	if err != nil {
		panic(err)
	}
	return string(b)
}

// HCL renders a configuration as HCL; rng (may be nil) shuffles the order of entries.
func HCL(c M, rng *rand.Rand) string {
	var sb strings.Builder
	hclBody(&sb, c, "", rng)
	return sb.String()
}

func keysOf(m M, rng *rand.Rand) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	if rng != nil {
		rng.Shuffle(len(ks), func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })
	}
	return ks
}

func q(s string) string {
	b, _ := json.Marshal(s)
	r := strings.NewReplacer(`\u003c`, "<", `\u003e`, ">", `\u0026`, "&")
	return r.Replace(string(b))
}

func hclBody(sb *strings.Builder, m M, ind string, rng *rand.Rand) {
	for _, k := range keysOf(m, rng) {
		key := k
		if !ident(k) {
			key = q(k)
		}
		switch v := m[k].(type) {
		case M:
			fmt.Fprintf(sb, "%s%s {\n", ind, key)
			hclBody(sb, v, ind+"\t", rng)
			fmt.Fprintf(sb, "%s}\n", ind)
		case map[string]string:
			mm := M{}
			for a, b := range v {
				mm[a] = b
			}
			fmt.Fprintf(sb, "%s%s {\n", ind, key)
			hclBody(sb, mm, ind+"\t", rng)
			fmt.Fprintf(sb, "%s}\n", ind)
		case map[string][]string:
			mm := M{}
			for a, b := range v {
				mm[a] = b
			}
			fmt.Fprintf(sb, "%s%s {\n", ind, key)
			hclBody(sb, mm, ind+"\t", rng)
			fmt.Fprintf(sb, "%s}\n", ind)
		case []string:
			qs := make([]string, len(v))
			for i, s := range v {
				qs[i] = q(s)
			}
			fmt.Fprintf(sb, "%s%s = [%s]\n", ind, key, strings.Join(qs, ", "))
		case string:
			fmt.Fprintf(sb, "%s%s = %s\n", ind, key, q(v))
		default:
			fmt.Fprintf(sb, "%s%s = %v\n", ind, key, v)
		}
	}
}

func ident(s string) bool {
	if s == "" {
		return false
	}
	for i := 0; i < len(s); i++ {
		c := s[i]
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || i > 0 && c >= '0' && c <= '9') {
			return false
		}
	}
	return true
}

// WriteConfig stores a configuration file, as HCL when hcl is set.
func WriteConfig(path string, c M, hcl bool, rng *rand.Rand) string {
	s := JSON(c)
	if hcl {
		s = HCL(c, rng)
	}
	if err := os.MkdirAll(filepath.Dir(path), 0o755); err != nil {
		panic(err)
	}
	if err := os.WriteFile(path, []byte(s), 0o644); err != nil {
		panic(err)
	}
	return path
}

// Merge overlays b on a (deep copies of the maps involved).
func Merge(a, b M) M {
	out := M{}
	for k, v := range a {
		out[k] = v
	}
	for k, v := range b {
		if bm, ok := v.(M); ok {
			if am, ok := out[k].(M); ok {
				out[k] = Merge(am, bm)
				continue
			}
		}
		out[k] = v
	}
	return out
}
