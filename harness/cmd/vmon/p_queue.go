package main

import (
	"fmt"
	"strings"

	"github.com/clipperhouse/jargon"
	"github.com/clipperhouse/jargon/tokenqueue"
	"verif/mon"
)

//
// C24: the token queue
//

func checkQueue(r *mon.Run, g *mon.Gen) {
	r.Rule("Random histories over several queues (push of none, one or many, pop, drop, clear, moving one or all tokens to another queue) are replayed on a plain list; after every operation, every queue must hold exactly the model's tokens, by identity and in order, and the order in which tokens leave is compared token by token. Non-trivial: a history which moves or removes tokens; distinct by the history.")
	r.Assume("popping or moving from an empty queue, and dropping more than its length, are outside the contract")

	r.Each("histories", r.Cases(30000, 600000), func(c *mon.Case) {
		rng := c.Rng
		pool := make([]*jargon.Token, 1+rng.IntN(40))
		for i := range pool {
			pool[i] = jargon.NewToken(g.Word(rng), rng.IntN(4) == 0)
		}
		nq := 1 + rng.IntN(3)
		queues := make([]*tokenqueue.TokenQueue, nq)
		model := make([][]*jargon.Token, nq)
		some := func(n int) []*jargon.Token {
			out := make([]*jargon.Token, n)
			for i := range out {
				out[i] = mon.Pick(rng, pool)
			}
			return out
		}
		for i := range queues {
			ts := some(rng.IntN(4))
			queues[i] = tokenqueue.New(append([]*jargon.Token{}, ts...)...)
			model[i] = ts
		}
		var history []string
		did := func(format string, args ...any) {
			history = append(history, fmt.Sprintf(format, args...))
		}
		bad := func(format string, args ...any) {
			c.Note("history", strings.Join(history, "; "))
			c.Fail(format, args...)
			c.Abort()
		}
		moved := 0
		grow := rng.IntN(3)
		n := 1 + rng.IntN(60)
		if rng.IntN(20) == 0 {
			n = 400
		}
		// now and then, thousands of tokens at once
		large := rng.IntN(60) == 0
		defer func() {
			c.Note("history", strings.Join(history, "; "))
		}()
		for step := 0; step < n; step++ {
			i := rng.IntN(nq)
			q := queues[i]
			switch k := rng.IntN(10 + grow*3); k {
			case 0, 1:
				if len(model[i]) == 0 {
					continue
				}
				did("pop %d", i)
				if t := q.Pop(); t != model[i][0] {
					bad("popped %v, the front was %v", t, model[i][0])
				}
				model[i] = model[i][1:]
				moved++
			case 2, 3:
				if len(model[i]) == 0 {
					continue
				}
				j := rng.IntN(nq)
				did("popto %d->%d", i, j)
				q.PopTo(queues[j])
				t := model[i][0]
				model[i] = model[i][1:]
				model[j] = append(model[j][:len(model[j]):len(model[j])], t)
				moved++
			case 4, 5:
				j := rng.IntN(nq)
				did("flushto %d->%d", i, j)
				q.FlushTo(queues[j])
				if i == j {
					// moved to where they are
					c.See("flushed_to_itself", 1)
					break
				}
				moved += len(model[i])
				model[j] = append(model[j][:len(model[j]):len(model[j])], model[i]...)
				model[i] = nil
			case 6:
				d := rng.IntN(len(model[i]) + 1)
				did("drop %d %d", i, d)
				q.Drop(d)
				model[i] = model[i][d:]
				moved += d
			case 7:
				if rng.IntN(3) == 0 {
					did("clear %d", i)
					q.Clear()
					moved += len(model[i])
					model[i] = nil
				}
			default:
				ts := some(rng.IntN(4))
				if rng.IntN(15) == 0 {
					ts = some(rng.IntN(70))
				}
				if large && rng.IntN(4) == 0 {
					ts = some(1 + g.Len(rng, mon.Pick(rng, []int{2500, 10000, 20000})))
					c.See("large_pushes", 1)
				}
				did("push %d %d", i, len(ts))
				arg := append([]*jargon.Token{}, ts...)
				q.Push(arg...)
				for k := range arg {
					arg[k] = nil // the caller's slice is the caller's
				}
				model[i] = append(model[i][:len(model[i]):len(model[i])], ts...)
			}
			c.See("operations", 1)
			for j, q := range queues {
				want := model[j]
				if q.Len() != len(want) || q.Any() != (len(want) > 0) || len(q.Tokens) != len(want) {
					bad("queue %d: Len %d, Any %v, %d tokens; want %d", j, q.Len(), q.Any(), len(q.Tokens), len(want))
				}
				for k, t := range q.Tokens {
					if t != want[k] {
						bad("queue %d: element %d is %v, want %v", j, k, t, want[k])
					}
				}
				if step%16 == 0 {
					if s, w := q.String(), fmt.Sprintf("%q", want); s != w && len(want) > 0 {
						bad("queue %d: String is %s, want %s", j, s, w)
					}
				}
			}
		}
		// what is left leaves in order
		for j, q := range queues {
			for _, want := range model[j] {
				if t := q.Pop(); t != want {
					bad("queue %d: popped %v, the front was %v", j, t, want)
				}
				moved++
			}
			if q.Any() {
				bad("queue %d: not empty after popping everything", j)
			}
		}
		c.See("tokens_moved", moved)
		if moved > 0 {
			c.Distinct(strings.Join(history, ";"))
		}
		c.Sample(strings.Join(history, "; "))
	})
	// a queue used as a sliding window holds no more than its window
	r.Serial("window", 6, func(c *mon.Case) {
		window := []int{1, 2, 7, 64, 300, 1000}[c.Index]
		q := tokenqueue.New()
		value := strings.Repeat("x", 2000)
		run := func(n int) {
			for i := 0; i < n; i++ {
				q.Push(jargon.NewToken(fmt.Sprint(i)+value, false))
				if q.Len() > window {
					if i%3 == 0 {
						q.Drop(1)
					} else {
						q.Pop()
					}
				}
			}
		}
		run(3 * window)
		base := liveHeap()
		run(r.Scale(60000, 600000))
		growth := liveHeap() - base
		c.Max("max_heap_growth", growth)
		if growth > 16<<20+window*4096 {
			c.Fail("a window of %d tokens holds %d bytes more than at first", window, growth)
		}
		if q.Len() != window {
			c.Fail("length %d, want %d", q.Len(), window)
		}
		c.Distinct(fmt.Sprint(window))
	})
}
