package main

import (
	"bytes"
	"context"
	"math/rand/v2"
	"reflect"
	"slices"
	"unsafe"

	"github.com/Bren2010/katie/tree/transparency/structs"
)

// The hostile workload: an honest deployment whose responses are changed on
// their way to the client, or given by a server that does not do what it should
// (but has no other log than the honest one). Clients may reject all of it, but
// what they accept has to be true.

type hostileState struct {
	raws  map[string][][]byte // Recent responses by the kind of request.
	heads [][2][]byte         // Earlier tree heads and auditor tree heads.
	fresh int
}

func newHostileState() *hostileState { return &hostileState{raws: make(map[string][][]byte)} }

func (hs *hostileState) keep(kind string, raw []byte) {
	l := append(hs.raws[kind], bytes.Clone(raw))
	if len(l) > 12 {
		l = l[len(l)-12:]
	}
	hs.raws[kind] = l
}

func (h *honest) keepHead() {
	a, b, err := h.w.tx.inner.GetTreeHead()
	must(err)
	if a != nil {
		h.hs.heads = append(h.hs.heads, [2][]byte{bytes.Clone(a), bytes.Clone(b)})
		if len(h.hs.heads) > 20 {
			h.hs.heads = h.hs.heads[1:]
		}
	}
}

// parse decodes a response so that its parts can be changed.
func (p *pending) parse(raw []byte) structs.Marshaller {
	w := p.c.w
	buf := bytes.NewBuffer(bytes.Clone(raw))
	var (
		out structs.Marshaller
		err error
	)
	switch p.kind {
	case "search":
		out, err = orNil(structs.NewSearchResponse(w.pub, p.sreq, buf))
	case "monitor":
		if _, ok := p.mreq.(*structs.ContactMonitorRequest); ok {
			out, err = orNil(structs.NewContactMonitorResponse(w.pub, buf))
		} else {
			out, err = orNil(structs.NewOwnerMonitorResponse(w.pub, buf))
		}
	case "ownerinit":
		out, err = orNil(structs.NewOwnerInitResponse(w.pub, buf))
	case "update":
		out, err = orNil(structs.NewUpdateResponse(w.pub, buf))
	}
	if err != nil || buf.Len() != 0 {
		return nil
	}
	return out
}

// ---- Changes to the structure of a response.

func isBytes(v reflect.Value) bool {
	return v.Kind() == reflect.Slice && v.Type().Elem().Kind() == reflect.Uint8
}

// slots lists everything in v that can be replaced.
func slots(v reflect.Value, out *[]reflect.Value, depth int) {
	if depth > 12 {
		return
	}
	if v.CanAddr() && !v.CanSet() {
		v = reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
	}
	switch v.Kind() {
	case reflect.Pointer:
		if v.CanSet() {
			*out = append(*out, v)
		}
		if !v.IsNil() {
			slots(v.Elem(), out, depth+1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			slots(v.Field(i), out, depth+1)
		}
	case reflect.Slice:
		if v.CanSet() {
			*out = append(*out, v)
		}
		if !isBytes(v) {
			for i := 0; i < v.Len(); i++ {
				slots(v.Index(i), out, depth+1)
			}
		}
	case reflect.Interface:
		*out = append(*out, v)
		if !v.IsNil() {
			// Make the value addressable so that its parts can be changed.
			cp := reflect.New(v.Elem().Type()).Elem()
			cp.Set(v.Elem())
			if cp.Kind() == reflect.Struct {
				var inner []reflect.Value
				slots(cp, &inner, depth+1)
				for i := range inner {
					*out = append(*out, inner[i])
				}
				ifaceCopies = append(ifaceCopies, ifaceCopy{v, cp})
			}
		}
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Int, reflect.Uint:
		if v.CanSet() {
			*out = append(*out, v)
		}
	}
}

type ifaceCopy struct{ iface, val reflect.Value }

var ifaceCopies []ifaceCopy

func flip(rng *rand.Rand, b []byte) []byte {
	b = bytes.Clone(b)
	if len(b) > 0 {
		i := rng.IntN(len(b))
		b[i] ^= 1 << rng.IntN(8)
	}
	return b
}

// mutateSlot changes one part of a response. pool has parts of other responses.
func mutateSlot(rng *rand.Rand, v reflect.Value, pool []reflect.Value) string {
	same := func() (reflect.Value, bool) {
		n := 0
		var got reflect.Value
		for _, o := range pool {
			if o.Type() == v.Type() {
				if isBytes(v) && o.Len() != v.Len() && rng.IntN(4) > 0 {
					continue
				}
				n++
				if rng.IntN(n) == 0 {
					got = o
				}
			}
		}
		return got, n > 0
	}
	if rng.IntN(2) == 0 {
		if o, ok := same(); ok {
			cp := reflect.New(v.Type()).Elem()
			cp.Set(o)
			v.Set(cp)
			return "replace " + v.Type().String()
		}
	}
	switch {
	case isBytes(v):
		b := v.Bytes()
		switch rng.IntN(5) {
		case 0:
			b = append(bytes.Clone(b), byte(rng.Uint32()))
		case 1:
			if len(b) > 0 {
				b = bytes.Clone(b[:len(b)-1])
			}
		case 2:
			b = make([]byte, len(b))
		default:
			b = flip(rng, b)
		}
		v.SetBytes(b)
	case v.Kind() == reflect.Slice:
		n := v.Len()
		cp := reflect.MakeSlice(v.Type(), 0, n+1)
		for i := 0; i < n; i++ {
			cp = reflect.Append(cp, v.Index(i))
		}
		i := 0
		if n > 0 {
			i = rng.IntN(n)
		}
		switch rng.IntN(5) {
		case 0:
			if n > 0 {
				cp = reflect.AppendSlice(cp.Slice(0, i), v.Slice(i+1, n))
			}
		case 1:
			if n > 0 {
				cp = reflect.Append(cp, v.Index(i))
			}
		case 2:
			if n > 1 {
				j := rng.IntN(n)
				a, b := reflect.New(v.Type().Elem()).Elem(), reflect.New(v.Type().Elem()).Elem()
				a.Set(v.Index(i))
				b.Set(v.Index(j))
				cp.Index(i).Set(b)
				cp.Index(j).Set(a)
			}
		case 3:
			cp = cp.Slice(0, i)
		case 4:
			if n > 0 {
				// Insert an element of another response, or the same one.
				el := v.Index(i)
				for _, o := range pool {
					if o.Type() == el.Type() && rng.IntN(3) == 0 {
						el = o
					}
				}
				cp = reflect.Append(cp, el)
			}
		}
		v.Set(cp)
	case v.Kind() == reflect.Pointer:
		if v.IsNil() {
			v.Set(reflect.New(v.Type().Elem()))
		} else {
			v.Set(reflect.Zero(v.Type()))
		}
	case v.Kind() == reflect.Int:
		v.SetInt([]int64{v.Int() + 1, v.Int() - 1, 0, 255, v.Int() ^ 1}[rng.IntN(5)])
	case v.CanUint():
		x := v.Uint()
		v.SetUint([]uint64{x + 1, x - 1, 0, ^uint64(0), x ^ 1, x * 2, rng.Uint64()}[rng.IntN(7)] & (1<<(8*v.Type().Size()-1)<<1 - 1))
	}
	return "change " + v.Type().String()
}

func (h *honest) structural(p *pending, rng *rand.Rand, raw []byte) (out []byte, what string) {
	defer func() {
		// Some of what is made up can not be encoded.
		if r := recover(); r != nil {
			out, what = nil, ""
		}
	}()
	res := p.parse(raw)
	if res == nil {
		return nil, ""
	}
	ifaceCopies = nil
	var mine, pool []reflect.Value
	slots(reflect.ValueOf(res), &mine, 0)
	copies := ifaceCopies
	for _, o := range h.hs.raws[p.kind] {
		if rng.IntN(3) == 0 {
			if other := p.parse(o); other != nil {
				slots(reflect.ValueOf(other), &pool, 0)
			}
		}
	}
	pool = append(pool, mine...)
	if len(mine) == 0 {
		return nil, ""
	}
	for k := 1 + rng.IntN(4)/2; k > 0; k-- {
		v := mine[rng.IntN(len(mine))]
		what += mutateSlot(rng, v, pool) + " "
	}
	for i := len(copies) - 1; i >= 0; i-- {
		if rng.IntN(2) == 0 || copies[i].iface.IsNil() {
			continue
		}
		copies[i].iface.Set(copies[i].val)
	}
	out, err := structs.Marshal(res)
	if err != nil {
		return nil, ""
	}
	return out, what
}

func (h *honest) byteLevel(p *pending, rng *rand.Rand, raw []byte) []byte {
	out := bytes.Clone(raw)
	for k := 1 + rng.IntN(3)/2; k > 0; k-- {
		if len(out) == 0 {
			break
		}
		i := rng.IntN(len(out))
		switch rng.IntN(8) {
		case 0:
			out = out[:i]
		case 1:
			out = slices.Insert(out, i, byte(rng.Uint32()))
		case 2:
			out = slices.Delete(out, i, i+1)
		case 3:
			out = append(out, byte(rng.Uint32()))
		case 4:
			if pool := h.hs.raws[p.kind]; len(pool) > 0 {
				o := pool[rng.IntN(len(pool))]
				j := min(i, len(o))
				out = append(out[:i:i], o[j:]...)
			}
		case 5:
			out[i] = byte(rng.Uint32())
		case 6:
			out[i]++
		default:
			out[i] ^= 1 << rng.IntN(8)
		}
	}
	return out
}

// tamper returns a function that changes some of what the server reads.
func (h *honest) tamper(rng *rand.Rand) func(kind, key string, val []byte) []byte {
	kinds := []string{"index", "version", "entry", "log", "prefix", "head", "auditor"}
	target := kinds[rng.IntN(len(kinds))]
	after := rng.IntN(4)
	style := rng.IntN(6)
	seen := make(map[string][][]byte)
	if target == "prefix" {
		// Others may send the server into a loop, which says nothing about clients.
		style = 2 + style%2
	}
	calls := 0
	return func(kind, key string, val []byte) []byte {
		if calls++; calls > 3000 {
			panic("the server reads forever")
		}
		if kind != target {
			return val
		}
		seen[kind] = append(seen[kind], bytes.Clone(val))
		if after--; after >= 0 {
			return val
		}
		switch style {
		case 0:
			if len(val) > 0 {
				return flip(rng, val)
			}
		case 1:
			return seen[kind][0] // The same as for another key.
		case 2:
			if len(val) > 0 && rng.IntN(3) == 0 {
				return val[:rng.IntN(len(val))]
			}
		case 3:
			if rng.IntN(3) == 0 {
				return nil
			}
		case 4:
			if len(val) > 0 {
				val = bytes.Clone(val)
				val[len(val)-1] += byte(1 + rng.IntN(3))
			}
		case 5:
			if kind == "index" {
				// A different list of positions.
				out := bytes.Clone(val)
				if len(out) > 0 {
					out[rng.IntN(len(out))] = byte(rng.IntN(6))
				}
				if rng.IntN(2) == 0 {
					out = append(out, byte(rng.IntN(4)))
				}
				return out
			} else if len(val) > 0 {
				return flip(rng, val)
			}
		}
		return val
	}
}

// serveHostile performs a request with a server that misbehaves. Its crashes
// are of no interest here.
func (p *pending) serveHostile() {
	w := p.c.w
	defer func() {
		w.flt.tamper = nil
		if r := recover(); r != nil {
			switch r.(type) {
			case harnessError, stopRun:
				panic(r)
			}
			p.rp = reply{err: errServerDown}
			p.rps = []reply{{err: errServerDown}}
			w.env.count("hostile-server-crashes")
		}
	}()
	p.serve()
}

func (h *honest) attack(op Op) {
	env := h.env
	rng := newRand(op.S)
	victim := h.client(op.A).clone()
	victim.loose = true
	for k := 1 + rng.IntN(6); k > 0; k-- {
		h.attackOnce(victim, rng, op.B)
	}
	env.count("campaigns")
}

func (h *honest) attackOnce(c *simClient, rng *rand.Rand, b int64) {
	env, w := h.env, h.w
	if w.ref.n() == 0 {
		return
	}
	l := h.label(b + rng.Int64N(2))
	kind := []string{"search", "search", "search", "monitor", "monitor", "ownerinit", "update"}[rng.IntN(7)]
	ver := -1
	var vals [][]byte
	switch kind {
	case "search":
		if rng.IntN(2) == 0 {
			ver = rng.IntN(w.ref.latest(l) + 3)
		}
	case "update":
		if len(c.own) == 0 {
			kind = "monitor"
			break
		}
		own := sortedKeys(c.own)
		l = own[rng.IntN(len(own))]
		if w.ref.deleted(l) {
			return
		}
		if rng.IntN(3) == 0 {
			vals = append(vals, randVal(rng))
		}
	case "ownerinit":
		if w.ref.deleted(l) || c.size == 0 {
			return
		}
	}
	p := c.begin(kind, l, ver, vals)
	if p == nil {
		return
	}
	p.hostile = true
	how := rng.IntN(10)
	if kind == "update" && how < 3 {
		how = 3 // It is sequenced for real.
	}
	switch how {
	case 0, 1:
		w.flt.tamper = h.tamper(rng)
		env.count("fault:server-reads-wrong-data")
		p.serveHostile()
	case 2:
		if len(h.hs.heads) > 0 {
			head := h.hs.heads[rng.IntN(len(h.hs.heads))]
			w.flt.tamper = func(kind, key string, val []byte) []byte {
				if kind == "head" {
					return bytes.Clone(head[0])
				} else if kind == "auditor" && rng.IntN(2) == 0 {
					return bytes.Clone(head[1])
				}
				return val
			}
			env.count("fault:server-uses-old-head")
		}
		p.serveHostile()
	case 3:
		// The answer to another request.
		if kind == "search" {
			q := *p.sreq
			switch rng.IntN(4) {
			case 0:
				q.Label = []byte(h.label(rng.Int64N(16)))
			case 1:
				q.Version = p64(uint32(rng.IntN(4)))
			case 2:
				q.Last = nil
			case 3:
				q.Last = p64(1 + rng.Uint64N(w.ref.n()))
			}
			tree, err := w.reader(false)
			must(err)
			res, err := tree.Search(context.Background(), &q)
			p.rp = encodeReply(w, res, err)
			if err == nil && (q.Version == nil) != (p.sreq.Version == nil) {
				if p.sreq.Version == nil {
					res.Version = p64(*q.Version)
				} else {
					res.Version = nil
				}
				raw, err := structs.Marshal(res)
				if err != nil {
					return
				}
				p.rp = reply{raw: raw}
			}
			env.count("fault:answer-to-another-request")
		} else {
			p.serveHostile()
		}
	default:
		p.serveHostile()
	}
	if how >= 3 || rng.IntN(4) == 0 {
		p.distort(h, rng)
	}
	if p.kind == "update" {
		for _, rp := range p.rps {
			if rp.raw != nil {
				h.hs.keep(kind, rp.raw)
			}
		}
	} else if p.rp.raw != nil {
		h.hs.keep(kind, p.rp.raw)
	}
	p.deliver()
}

// distort changes responses on their way.
func (p *pending) distort(h *honest, rng *rand.Rand) {
	env := p.c.w.env
	one := func(rp *reply) {
		if rp.raw == nil {
			return
		}
		switch rng.IntN(8) {
		case 0:
			if pool := h.hs.raws[p.kind]; len(pool) > 0 {
				rp.raw = pool[rng.IntN(len(pool))]
				env.count("fault:response-replayed")
			}
		case 1, 2:
			rp.raw = h.byteLevel(p, rng, rp.raw)
			env.count("fault:response-bytes-changed")
		case 3:
		default:
			if raw, what := h.structural(p, rng, rp.raw); raw != nil {
				env.logf("structural change: %s", what)
				rp.raw = raw
				env.count("fault:response-fields-changed")
			}
		}
	}
	if p.kind != "update" {
		one(&p.rp)
		return
	}
	if len(p.rps) == 0 {
		return
	}
	switch rng.IntN(5) {
	case 0:
		i, j := rng.IntN(len(p.rps)), rng.IntN(len(p.rps))
		p.rps[i], p.rps[j] = p.rps[j], p.rps[i]
		env.count("fault:response-reordered")
	case 1:
		i := rng.IntN(len(p.rps))
		p.rps = slices.Insert(p.rps, i, p.rps[i])
		env.count("fault:response-duplicated")
	case 2:
		i := rng.IntN(len(p.rps))
		p.rps = slices.Delete(p.rps, i, i+1)
		env.count("fault:response-dropped")
	default:
		one(&p.rps[rng.IntN(len(p.rps))])
	}
}

func runHostile(env *Env) {
	h := newHonest(env)
	h.hs = newHostileState()
	for _, op := range env.plan.Ops {
		if op.K == "attack" {
			h.keepHead()
			h.attack(op)
		} else {
			h.step(op)
		}
	}
	h.settle()
}
