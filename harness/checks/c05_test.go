package checks

import (
	"fmt"
	"math/rand/v2"
	"testing"
	"testing/synctest"
	"time"

	"github.com/cespare/xxhash"

	"github.com/redmaner/MaguroHTTP/cache"

	"verifharness/model"
	"verifharness/rep"
)

// c05Keep is the number of later operations a stored key surely survives ("about a thousand").
const c05Keep = 1000

type c05Entry struct {
	val         any
	set, touch  time.Time
	opsAtSet    int
	opsAtTouch  int
	prev        []any
	wasReturned bool
}

func TestC05(t *testing.T) {
	r := rep.New("C05", "A case is one cache operation (Set, Get with max age near the entry's real age, Find) in a generated single-threaded history in virtual time: few keys, many keys of one shard, ring wrap-around, hash-colliding keys, every value kind. Judged by a reference map with store and touch times: latest value or miss, never expired, never missing within max age and ~1000 operations, age of Find within bounds. Distinct = (operation, outcome, age class, operations since store class, scenario).")
	r.Watchdog(120*time.Second, true)
	for pre := uint64(1); pre < 4; pre++ {
		if k := model.Collide("abc", pre*0x0101010101010101); xxhash.Sum64String(k) != xxhash.Sum64String("abc") {
			r.Inconclusive("harness: collision construction is wrong")
		}
	}
	scen := r.N(500, 6000)
	for s := 0; s < scen && !r.Stop(); s++ {
		g := r.Rng(fmt.Sprint("scenario", s))
		r.Phase(fmt.Sprint("scenario ", s))
		synctest.Test(t, func(t *testing.T) { c05Scenario(r, g, s) })
	}
	for s := 0; s < r.N(40, 400) && !r.Stop(); s++ {
		g := r.Rng(fmt.Sprint("hot", s))
		r.Phase(fmt.Sprint("hot ", s))
		synctest.Test(t, func(t *testing.T) { c05Hot(r, g, s) })
	}
	r.Finish()
}

// c05Hot stores a few keys over and over: that pushes nothing out.
func c05Hot(r *rep.R, g *rand.Rand, s int) {
	c := cache.NewCache()
	keys := model.SameShard(3+g.IntN(20), fmt.Sprint("hot", s, "-"))
	hot := keys[:1+g.IntN(min(4, len(keys)-1))]
	cold := keys[len(hot):]
	for i, k := range cold {
		c.Set(k, i)
	}
	last := map[string]int{}
	n := 900 + g.IntN(4000)
	for i := 0; i < n; i++ {
		k := pick(g, hot)
		c.Set(k, i)
		last[k] = i
		if chance(g, .001) {
			time.Sleep(time.Second)
		}
	}
	for i, k := range cold {
		wit := M{"keys": fmt.Sprint(keys), "hot": len(hot), "stores_of_hot_keys": n}
		if ok, v := c.Get(k, uint64(time.Hour)); !ok || v != i {
			r.Violate("pushed-out", wit, "key %q was lost (%v, %v) although only %d other keys were stored again and again", k, ok, v, len(hot))
			return
		}
		r.Count("survived_repeated_stores", 1)
		r.Eval(fmt.Sprint("hot", len(hot), n/1024))
	}
	for k, i := range last {
		if ok, v := c.Get(k, uint64(time.Hour)); !ok || v != i {
			r.Violate("stale-or-foreign-value", M{"key": k}, "key %q: lookup returned %v, %v, latest value is %d", k, ok, v, i)
		}
	}
}

func c05Scenario(r *rep.R, g *rand.Rand, s int) {
	c := cache.NewCache()
	var keys []string
	kind := []string{"few", "shard", "wrap", "many", "collide", "wrapfew"}[s%6]
	nops := 300
	switch kind {
	case "few":
		keys = []string{"", "a", "b", "c", "long-key-" + string(make([]byte, 300)), "\xff\xfe", "k\n"}[:2+g.IntN(6)]
	case "shard":
		keys = model.SameShard(3+g.IntN(20), fmt.Sprint("s", s, "-"))
		nops = 900
	case "wrap":
		keys = model.SameShard(200+g.IntN(400), fmt.Sprint("w", s, "-"))
		nops = 3500
	case "wrapfew":
		keys = model.SameShard(9+g.IntN(8), fmt.Sprint("f", s, "-"))
		nops = 3500
	case "many":
		for i := 0; i < 400; i++ {
			keys = append(keys, fmt.Sprintf("10.0.%d.%d", i/256, i%256))
		}
		nops = 1500
	case "collide":
		base := fmt.Sprint("10.1.2.", g.IntN(256))
		keys = []string{base, model.Collide(base, g.Uint64()), model.Collide(base, g.Uint64()), "other", model.Collide("other", 7), model.WithHash(0, g.Uint64()), model.WithHash(0, g.Uint64()), "plain"}
	}
	st := map[string]*c05Entry{}
	ops := 0
	next := 0
	newVal := func() any {
		next++
		switch g.IntN(6) {
		case 0:
			return fmt.Sprint("v", next)
		case 1:
			p := new(int)
			*p = next
			return p
		case 2:
			return struct{ a, b int }{next, 1}
		}
		return next
	}
	var hist []string
	note := func(f string, a ...any) {
		if hist = append(hist, fmt.Sprintf(f, a...)); len(hist) > 60 {
			hist = hist[1:]
		}
	}
	for o := 0; o < nops; o++ {
		if chance(g, .3) {
			d := pick(g, []time.Duration{1, 1000, time.Millisecond, time.Second, time.Minute, 14 * time.Minute, 15 * time.Minute})
			d = time.Duration(g.Int64N(int64(d) + 1))
			time.Sleep(d)
			note("sleep %v", d)
		}
		now := time.Now()
		k := pick(g, keys)
		e := st[k]
		ops++
		wit := func() any {
			return map[string]any{"scenario": kind, "op": o, "key": fmt.Sprintf("%q", k), "history": append([]string(nil), hist...)}
		}
		x := g.IntN(10)
		setP := 4
		if kind == "wrap" {
			setP = 6
		}
		switch {
		case x < setP:
			v := newVal()
			c.Set(k, v)
			note("Set(%q,%v)", k, v)
			if e == nil {
				e = &c05Entry{}
				st[k] = e
			}
			e.val, e.set, e.touch, e.opsAtSet, e.opsAtTouch = v, now, now, ops, ops
			r.Count("set", 1)
			r.Eval("")
		default:
			find := x == 9
			var maxAge uint64
			switch g.IntN(6) {
			case 0:
				maxAge = uint64(15 * time.Minute)
			case 1:
				maxAge = uint64(time.Hour)
			case 2:
				maxAge = uint64(g.Int64N(int64(time.Second)))
			default: // close to the real age
				if e != nil {
					ref := e.set
					if chance(g, .5) {
						ref = e.touch
					}
					a := int64(now.Sub(ref)) + pick(g, []int64{0, 1, -1, 1000, -1000, int64(time.Second), -int64(time.Second)})
					maxAge = uint64(max(a, 0))
				} else {
					maxAge = uint64(time.Minute)
				}
			}
			var ok bool
			var v any
			var age uint64
			if !r.Guard("lookup", wit(), func() {
				if find {
					ok, v, age = c.Find(k)
				} else {
					ok, v = c.Get(k, maxAge)
				}
			}) {
				return
			}
			note("lookup(%q,find=%v,maxAge=%d)=%v,%v,%d", k, find, maxAge, ok, v, age)
			out := "miss"
			ageClass := "-"
			since, sinceTouch := -1, 0
			if e != nil {
				since = ops - e.opsAtSet
				sinceTouch = ops - e.opsAtTouch
			}
			if ok {
				out = "hit"
			} else if v != nil || find && age != 0 {
				r.Violate("miss-with-value", wit(), "a miss returned value %v age %d", v, age)
			}
			switch {
			case ok && e == nil:
				r.Violate("foreign-value", wit(), "key %q was never stored, lookup returned %v", k, v)
			case ok && v != e.val:
				r.Violate("stale-or-foreign-value", wit(), "key %q: lookup returned %v, latest value is %v (%d operations ago)", k, v, e.val, since)
			case ok && !find && uint64(now.Sub(e.touch)) > maxAge:
				r.Violate("expired-value", wit(), "key %q last stored or touched %v ago was returned for max age %v", k, now.Sub(e.touch), time.Duration(maxAge))
			case ok && find && (age > uint64(now.Sub(e.set)) || age < uint64(now.Sub(e.touch))):
				r.Violate("wrong-age", wit(), "Find(%q) age %d, stored %d ns ago, touched %d ns ago", k, age, now.Sub(e.set), now.Sub(e.touch))
			case !ok && e != nil && sinceTouch < c05Keep && (find || uint64(now.Sub(e.touch)) < maxAge):
				r.Violate("lost-value", wit(), "key %q stored %v ago, touched %v and %d operations ago, was not found (max age %v, find %v)", k, now.Sub(e.set), now.Sub(e.touch), sinceTouch, time.Duration(maxAge), find)
			}
			if e != nil {
				if ok {
					e.touch, e.opsAtTouch = now, ops
				}
				switch d := int64(now.Sub(e.touch)) - int64(maxAge); {
				case find:
					ageClass = "find"
				case d > 0:
					ageClass = "expired"
				case uint64(now.Sub(e.set)) > maxAge:
					ageClass = "touched"
				default:
					ageClass = "fresh"
				}
			}
			sc := since
			if sc > 20 {
				sc = sc/100*100 + 21
			}
			r.Count(out, 1)
			if since > c05Keep {
				r.Count("lookups_beyond_keep_bound", 1)
			}
			r.Eval(fmt.Sprint(find, out, ageClass, sc, kind))
		}
		if r.Stop() {
			return
		}
	}
	if r.WantSample() {
		r.Sample(map[string]any{"scenario": kind, "keys": len(keys), "operations": nops, "tail_of_history": hist[max(0, len(hist)-12):]})
	}
}
