package checks

import (
	"fmt"
	"math/rand/v2"
	"runtime"
	"sort"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/anishathalye/porcupine"

	"github.com/redmaner/MaguroHTTP/cache"

	"verifharness/model"
	"verifharness/rep"
)

type c06In struct {
	Key string
	Op  byte // s, g, f
	Val int
}
type c06Out struct {
	OK  bool
	Val int
}

var c06Model = porcupine.Model{
	Partition: func(h []porcupine.Operation) [][]porcupine.Operation {
		m := map[string][]porcupine.Operation{}
		for _, o := range h {
			k := o.Input.(c06In).Key
			m[k] = append(m[k], o)
		}
		var ks []string
		for k := range m {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		var out [][]porcupine.Operation
		for _, k := range ks {
			out = append(out, m[k])
		}
		return out
	},
	Init: func() any { return 0 },
	Step: func(st, in, out any) (bool, any) {
		i, o, s := in.(c06In), out.(c06Out), st.(int)
		if i.Op == 's' {
			return true, i.Val
		}
		if !o.OK {
			return s == 0, s
		}
		return o.Val == s, s
	},
	DescribeOperation: func(in, out any) string { return fmt.Sprintf("%+v -> %+v", in, out) },
}

func TestC06(t *testing.T) {
	r := rep.New("C06", "A case is one recorded concurrent operation. (a) short histories of 3-8 goroutines on a fresh cache with few keys (also keys of one shard), checked per key for linearizability against a register by porcupine; (b) long histories that wrap the ring with one writer per key, where a lookup must return a value not older than the last store that returned before it began, nor newer than the last begun; both under the race detector. Distinct = (history shape: keys, goroutines, overlap degree, outcome counts) of histories with overlapping operations.")
	r.Watchdog(120*time.Second, true)
	hour := uint64(time.Hour)
	rounds := r.N(1500, 60000)
	var c *cache.SpearCache
	for round := 0; round < rounds && !r.Stop(); round++ {
		if round%20 == 0 {
			r.Phase(fmt.Sprint("short ", round))
		}
		g := r.Rng(fmt.Sprint("short", round))
		if round%10 == 0 { // fresh shards come with fresh keys, so a cache is good for some rounds
			c = cache.NewCache()
		}
		np := 3 + g.IntN(6)
		var keys []string
		switch round % 3 {
		case 0:
			keys = []string{fmt.Sprint("k", round)}
		case 1:
			keys = model.SameShard(2+g.IntN(3), fmt.Sprint("r", round, "-"))
		default:
			keys = []string{fmt.Sprint("a", round), fmt.Sprint("b", round), fmt.Sprint("c", round)}
		}
		nops := 4 + g.IntN(8)
		hist := make([][]porcupine.Operation, np)
		var clock, val atomic.Int64
		var wg sync.WaitGroup
		start := make(chan struct{})
		for p := 0; p < np; p++ {
			rr := rand.New(rand.NewPCG(r.Seed*7919+uint64(round), uint64(p)))
			setp := .5
			if p%2 == 1 {
				setp = .2
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for i := 0; i < nops; i++ {
					in := c06In{Key: pick(rr, keys)}
					var out c06Out
					var t0 int64
					if chance(rr, setp) || i == 0 && p == 0 {
						in.Op, in.Val = 's', int(val.Add(1))
						t0 = clock.Add(1)
						c.Set(in.Key, in.Val)
					} else {
						var v any
						if chance(rr, .7) {
							in.Op = 'g'
							t0 = clock.Add(1)
							out.OK, v = c.Get(in.Key, hour)
						} else {
							in.Op = 'f'
							t0 = clock.Add(1)
							out.OK, v, _ = c.Find(in.Key)
						}
						if out.OK {
							out.Val, _ = v.(int)
						}
					}
					t1 := clock.Add(1)
					hist[p] = append(hist[p], porcupine.Operation{ClientId: p, Input: in, Call: t0, Output: out, Return: t1})
					if chance(rr, .3) {
						runtime.Gosched()
					}
				}
			}()
		}
		close(start)
		wg.Wait()
		var all []porcupine.Operation
		for _, h := range hist {
			all = append(all, h...)
		}
		over := 0
		for i := range all {
			if all[i].Return > all[i].Call+1 {
				over++
			}
		}
		res, _ := porcupine.CheckOperationsVerbose(c06Model, all, 60*time.Second)
		if res == porcupine.Unknown {
			r.Inconclusive("porcupine timeout in round %d", round)
			break
		}
		if res == porcupine.Illegal {
			sort.Slice(all, func(i, j int) bool { return all[i].Call < all[j].Call })
			var d []string
			for _, o := range all {
				d = append(d, fmt.Sprintf("p%d [%d,%d] %s", o.ClientId, o.Call, o.Return, c06Model.DescribeOperation(o.Input, o.Output)))
			}
			r.Violate("not-linearizable", map[string]any{"history": d}, "history of %d operations on a fresh cache is not linearizable per key", len(all))
		}
		hits := 0
		for _, o := range all {
			if o.Output.(c06Out).OK {
				hits++
			}
		}
		r.Count("overlapping_operations", over)
		r.Count("short_history_operations", len(all))
		r.Count("hits", hits)
		for i := range all {
			sig := ""
			if i == 0 && over > 0 {
				sig = fmt.Sprint(len(keys), np, over, hits, nops)
			}
			r.Eval(sig)
		}
		if r.WantSample() && over > 10 {
			var d []string
			for _, o := range all[:min(len(all), 14)] {
				d = append(d, fmt.Sprintf("p%d [%d,%d] %s", o.ClientId, o.Call, o.Return, c06Model.DescribeOperation(o.Input, o.Output)))
			}
			r.Sample(map[string]any{"round": round, "operations": d})
		}
	}

	// long histories that wrap the ring: one writer per key, monotone values
	long := r.N(30, 1200)
	for round := 0; round < long && !r.Stop(); round++ {
		r.Phase(fmt.Sprint("long ", round))
		g := r.Rng(fmt.Sprint("long", round))
		c := cache.NewCache()
		keys := model.SameShard(6+g.IntN(30), fmt.Sprint("l", round, "-"))
		begun := make([]atomic.Int64, len(keys))
		ended := make([]atomic.Int64, len(keys))
		total := atomic.Int64{}                   // operations started
		stored := make([]atomic.Int64, len(keys)) // total when the last store returned
		var wg sync.WaitGroup
		start := make(chan struct{})
		nw, nr := 3, 4
		for w := 0; w < nw; w++ {
			rr := rand.New(rand.NewPCG(r.Seed+uint64(round), uint64(w)))
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for i := 0; i < 500; i++ {
					k := rr.IntN(len(keys))
					k -= (k - w%nw + nw) % nw // keys w, w+nw, ...
					if k < 0 || k%nw != w {
						k = w
					}
					v := begun[k].Add(1)
					total.Add(1)
					before := total.Load()
					c.Set(keys[k], int(v))
					stored[k].Store(before)
					ended[k].Store(v)
				}
			}()
		}
		for p := 0; p < nr; p++ {
			rr := rand.New(rand.NewPCG(r.Seed+uint64(round), 100+uint64(p)))
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for i := 0; i < 500; i++ {
					k := rr.IntN(len(keys))
					lo := ended[k].Load()
					at := stored[k].Load()
					total.Add(1)
					var ok bool
					var v any
					find := chance(rr, .3)
					if find {
						ok, v, _ = c.Find(keys[k])
					} else {
						ok, v = c.Get(keys[k], hour)
					}
					hi := begun[k].Load()
					now := total.Load()
					iv, _ := v.(int)
					wit := map[string]any{"round": round, "key": keys[k], "returned_before": lo, "begun_after": hi, "got": fmt.Sprint(ok, v), "operations_since_store": now - at}
					if ok && (int64(iv) < lo || int64(iv) > hi) {
						r.Violate("stale-under-concurrency", wit, "lookup returned %d although store %d had returned before it began", iv, lo)
					}
					if !ok && lo > 0 && now-at < c05Keep-50 {
						r.Violate("lost-under-concurrency", wit, "store %d returned only %d operations ago, lookup missed", lo, now-at)
					}
					sig := ""
					if hi != lo {
						sig = fmt.Sprint("long", ok, hi-lo, find, min((now-at)/100, 12))
					}
					r.Eval(sig)
				}
			}()
		}
		close(start)
		wg.Wait()
		r.Count("long_histories", 1)
	}
	r.Finish()
}
