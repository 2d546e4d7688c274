package main

import "math/rand/v2"

// The client-fault workload: clients crash and their storage fails at any time,
// with or without having stored something. Whatever happens, a client knows
// exactly what it has stored: nothing is lost, mixed up, or reported to the user
// without having been stored.

var clientFaultWeights = map[string]int{
	"adv": 10, "mut": 12, "beat": 5, "search": 8, "mon": 6, "own": 2, "upd": 4,
	"deliver": 5, "drop": 1, "crashserver": 1, "cskew": 1,
	"cfsearch": 16, "cfmon": 12, "cfown": 5, "cfupd": 10, "cfdeliver": 6,
}

func runClientFault(env *Env) {
	h := newHonest(env)
	h.w.reuse = true
	for _, op := range env.plan.Ops {
		if op.K[:2] != "cf" {
			h.step(op)
			continue
		}
		rng := newRand(op.S)
		var c *simClient
		if op.K == "cfdeliver" {
			if len(h.flight) == 0 {
				continue
			}
			c = h.flight[int(op.A)%len(h.flight)].c
		} else {
			c = h.client(op.A)
		}
		h.armClient(c, rng)
		switch op.K {
		case "cfsearch":
			op.C = rng.Int64N(4)
			h.send(c, rng, op, "search")
		case "cfmon":
			h.send(c, rng, op, "monitor")
		case "cfown":
			h.send(c, rng, op, "ownerinit")
		case "cfupd":
			h.send(c, rng, op, "update")
		case "cfdeliver":
			h.deliver(int(op.A))
		}
		c.st.failGet, c.st.failPut = -1, -1
		c.inspect()
	}
	for len(h.flight) > 0 {
		h.deliver(env.rng.IntN(len(h.flight)))
	}
	h.settle()
}

// armClient makes one of the next operations on the client's storage fail.
func (h *honest) armClient(c *simClient, rng *rand.Rand) {
	st := c.st
	st.dies = rng.IntN(3) == 0
	st.stored = rng.IntN(2) == 0
	if rng.IntN(2) == 0 {
		st.failGet = st.gets + 1 + rng.IntN(6)
	} else {
		st.failPut = st.puts + 1
		if rng.IntN(4) == 0 {
			st.failPut += rng.IntN(3)
		}
	}
	h.env.sig("f%v%v%d%d", st.dies, st.stored, max(-1, st.failGet-st.gets), max(-1, st.failPut-st.puts))
}
