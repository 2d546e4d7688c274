package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"fmt"
	"math/rand/v2"
	"reflect"
	"runtime"
	"slices"
	"sort"

	"github.com/Bren2010/katie/tree/prefix"
	"github.com/Bren2010/katie/tree/transparency"
	"github.com/Bren2010/katie/tree/transparency/auditor"
	"github.com/Bren2010/katie/tree/transparency/structs"
)

// This file checks what damaged and false messages do: bytes to the decoders of
// all messages and stored records, and requests to the server that no client
// would make.

// ---- The format of messages.

// A format describes how something is encoded.
type format struct {
	kind  string // uint, fixed, bytes, opt, list, seq, result, dyn
	n     int    // Size, or that of the length.
	sub   *format
	names []string
	subs  []*format
	sized bool // Elements of a list are announced by their number alone.
	keyed bool // Elements of a list have different first fields.
	dyn   func(t *node) *format
	ok    func(t *node) bool
}

// A node is something decoded.
type node struct {
	f    *format
	num  uint64
	raw  []byte
	kids []*node
	seq  map[string]*node
	has  bool
}

func fUint(n int) *format             { return &format{kind: "uint", n: n} }
func fFixed(n int) *format            { return &format{kind: "fixed", n: n} }
func fBytes(n int) *format            { return &format{kind: "bytes", n: n} }
func fOpt(f *format) *format          { return &format{kind: "opt", sub: f} }
func fList(n int, f *format) *format  { return &format{kind: "list", n: n, sub: f} }
func fCount(n int, f *format) *format { return &format{kind: "count", n: n, sub: f} }
func fSeq(xs ...any) *format {
	f := &format{kind: "seq"}
	for i := 0; i < len(xs); i += 2 {
		if xs[i+1].(*format) == nil {
			continue
		}
		f.names = append(f.names, xs[i].(string))
		f.subs = append(f.subs, xs[i+1].(*format))
	}
	return f
}

// parse decodes b, which is at least as strict as the code under test has to be.
func (f *format) parse(b []byte) (t *node, rest []byte, ok bool) {
	t = &node{f: f}
	switch f.kind {
	case "uint":
		if len(b) < f.n {
			return nil, nil, false
		}
		for _, x := range b[:f.n] {
			t.num = t.num<<8 | uint64(x)
		}
		return t, b[f.n:], true
	case "fixed":
		if len(b) < f.n {
			return nil, nil, false
		}
		t.raw = b[:f.n]
		return t, b[f.n:], true
	case "bytes":
		l, rest, ok := fUint(f.n).parse(b)
		if !ok || l.num > uint64(len(rest)) {
			return nil, nil, false
		}
		t.raw = rest[:l.num]
		return t, rest[l.num:], true
	case "opt", "head":
		if len(b) == 0 {
			return nil, nil, false
		}
		x := int(b[0])
		if f.kind == "head" {
			x--
		}
		if x != 0 && x != 1 {
			return nil, nil, false
		}
		t.has = x == 1
		b = b[1:]
		if t.has {
			sub, rest, ok := f.sub.parse(b)
			if !ok {
				return nil, nil, false
			}
			t.kids, b = []*node{sub}, rest
		}
		return t, b, true
	case "list", "count":
		num := uint64(f.n)
		if f.kind == "list" {
			l, rest, ok := fUint(f.n).parse(b)
			if !ok {
				return nil, nil, false
			}
			num, b = l.num, rest
		}
		if num > uint64(len(b)) {
			return nil, nil, false
		}
		seen := make(map[uint64]bool)
		for range num {
			sub, rest, ok := f.sub.parse(b)
			if !ok {
				return nil, nil, false
			}
			if f.keyed {
				k := sub.kids[0].num
				if seen[k] {
					return nil, nil, false
				}
				seen[k] = true
			}
			t.kids, b = append(t.kids, sub), rest
		}
		return t, b, true
	case "seq":
		t.seq = make(map[string]*node)
		for i, g := range f.subs {
			if g.kind == "dyn" {
				g = g.dyn(t)
			}
			sub, rest, ok := g.parse(b)
			if !ok {
				return nil, nil, false
			}
			t.kids, t.seq[f.names[i]], b = append(t.kids, sub), sub, rest
		}
		if f.ok != nil && !f.ok(t) {
			return nil, nil, false
		}
		return t, b, true
	case "result":
		if len(b) == 0 {
			return nil, nil, false
		}
		n := 2
		switch b[0] {
		case 2:
			n += 2 * f.n
		case 1, 3:
		default:
			return nil, nil, false
		}
		if len(b) < n {
			return nil, nil, false
		}
		t.raw = b[:n]
		return t, b[n:], true
	}
	panic(f.kind)
}

// make encodes something at random.
func (f *format) make(rng *rand.Rand, out []byte, parent *node) []byte {
	length := func(small int) int {
		if f.n == 1 && rng.IntN(60) == 0 {
			return 255
		}
		return rng.IntN(small)
	}
	putLen := func(n int) {
		var b [8]byte
		binary.BigEndian.PutUint64(b[:], uint64(n))
		out = append(out, b[8-f.n:]...)
	}
	random := func(n int) {
		c := byte(rng.Uint32())
		for range n {
			if rng.IntN(8) > 0 {
				c = byte(rng.Uint32())
			}
			out = append(out, c)
		}
	}
	switch f.kind {
	case "uint":
		var x uint64
		switch rng.IntN(4) {
		case 0:
			x = rng.Uint64()
		case 1:
			x = -rng.Uint64N(3)
		default:
			x = rng.Uint64N(20)
		}
		var b [8]byte
		binary.BigEndian.PutUint64(b[:], x)
		return append(out, b[8-f.n:]...)
	case "fixed":
		random(f.n)
	case "bytes":
		n := length(20)
		if f.n == 2 && rng.IntN(200) == 0 {
			n = 65535
		} else if f.n > 1 && rng.IntN(20) == 0 {
			n = 200 + rng.IntN(400)
		}
		putLen(n)
		random(n)
	case "opt", "head":
		x := rng.IntN(2)
		b := byte(x)
		if f.kind == "head" {
			b++
		}
		out = append(out, b)
		if x == 1 {
			out = f.sub.make(rng, out, nil)
		}
	case "list":
		n := length(5)
		if f.keyed {
			n = min(n, 4)
		}
		putLen(n)
		for range n {
			out = f.sub.make(rng, out, nil)
		}
	case "count":
		for range f.n {
			out = f.sub.make(rng, out, nil)
		}
	case "seq":
		t := &node{seq: make(map[string]*node)}
		for i, g := range f.subs {
			if g.kind == "dyn" {
				g = g.dyn(t)
			}
			start := len(out)
			out = g.make(rng, out, t)
			sub, _, ok := g.parse(out[start:])
			if !ok {
				continue
			}
			t.kids, t.seq[f.names[i]] = append(t.kids, sub), sub
		}
	case "result":
		k := byte(1 + rng.IntN(3))
		out = append(out, k)
		if k == 2 {
			random(2 * f.n)
		}
		random(1)
	}
	return out
}

// differs compares something decoded with the value that the code under test
// has decoded.
func (t *node) differs(v reflect.Value) string {
	for v.Kind() == reflect.Pointer && t.f.kind != "opt" {
		if v.IsNil() {
			return "absent"
		}
		v = v.Elem()
	}
	switch t.f.kind {
	case "uint":
		var x uint64
		switch {
		case v.CanUint():
			x = v.Uint()
		case v.CanInt():
			x = uint64(v.Int())
		default:
			return "of kind " + v.Kind().String()
		}
		if x != t.num {
			return fmt.Sprintf("%d instead of %d", x, t.num)
		}
	case "fixed", "bytes":
		if !bytes.Equal(v.Bytes(), t.raw) {
			return fmt.Sprintf("%x instead of %x", v.Bytes(), t.raw)
		}
	case "opt":
		if v.IsNil() == t.has {
			return fmt.Sprintf("present: %v", !v.IsNil())
		} else if t.has {
			return t.kids[0].differs(v)
		}
	case "head": // Its parts are optional.
		for i, name := range t.f.sub.names {
			p := v.FieldByName(name)
			if p.IsNil() == t.has {
				return fmt.Sprintf("%s present: %v", name, !p.IsNil())
			} else if t.has {
				if d := t.kids[0].kids[i].differs(p); d != "" {
					return name + "." + d
				}
			}
		}
	case "list", "count":
		if v.Len() != len(t.kids) {
			return fmt.Sprintf("%d elements instead of %d", v.Len(), len(t.kids))
		}
		for i, k := range t.kids {
			var e reflect.Value
			if v.Kind() == reflect.Map {
				e = v.MapIndex(reflect.ValueOf(k.kids[0].num))
				if !e.IsValid() {
					return fmt.Sprintf("no element %d", k.kids[0].num)
				}
				k = k.kids[1]
			} else {
				e = v.Index(i)
			}
			if d := k.differs(e); d != "" {
				return fmt.Sprintf("[%d] %s", i, d)
			}
		}
	case "seq":
		for i, name := range t.f.names {
			p := v.FieldByName(name)
			if !p.IsValid() {
				harnessFail("%s has no field %s", v.Type(), name)
			}
			if d := t.kids[i].differs(p); d != "" {
				return name + "." + d
			}
		}
	case "result":
		res := v.Interface().(prefix.PrefixSearchResult)
		if res.Inclusion() != (t.raw[0] == 1) || res.Depth() != int(t.raw[len(t.raw)-1]) {
			return fmt.Sprintf("result %v %d instead of %d %d", res.Inclusion(), res.Depth(), t.raw[0], t.raw[len(t.raw)-1])
		}
	}
	return ""
}

// A message is a kind of message or stored record.
type message struct {
	name  string
	f     *format
	parse func(b *bytes.Buffer) (any, error)
}

func marshalAny(x any) ([]byte, error) {
	switch x := x.(type) {
	case structs.Marshaller:
		return structs.Marshal(x)
	case *auditor.AuditorState:
		return x.Marshal()
	}
	panic(fmt.Sprintf("%T", x))
}

func orNilAny[T any](x *T, err error) (any, error) {
	if err != nil {
		return nil, err
	}
	return x, nil
}

// messages lists the formats of a deployment.
func messages(pub *structs.PublicConfig, withVersion bool) []message {
	cs := pub.Suite
	h, o, vp := cs.HashSize(), cs.CommitmentOpeningSize(), cs.VrfProofSize()
	if1 := func(b bool, f *format) *format {
		if b {
			return f
		}
		return nil
	}
	managed, audited := pub.Mode == modeManaged, pub.Mode == modeAudited
	sig := if1(managed, fBytes(2))

	treeHead := fSeq("TreeSize", fUint(8), "Signature", fBytes(2))
	audHead := fSeq("Timestamp", fUint(8), "TreeSize", fUint(8), "Signature", fBytes(2))
	fullHead := &format{kind: "head", sub: fSeq("TreeHead", treeHead, "AuditorTreeHead", if1(audited, audHead))}
	value := fSeq("Value", fBytes(4), "Signature", sig)
	labelValue := fSeq("Value", fBytes(4))
	opening := fSeq("Opening", fFixed(o), "Value", value)
	info := fSeq("Opening", fFixed(o), "Signature", sig)
	entry := fSeq("Timestamp", fUint(8), "PrefixTree", fFixed(h))
	step := fSeq("Proof", fFixed(vp), "Commitment", fOpt(fFixed(h)))
	px := fSeq("Results", fList(1, &format{kind: "result", n: h}), "Elements", fList(2, fFixed(h)))
	combined := fSeq("Timestamps", fList(1, fUint(8)), "PrefixProofs", fList(1, px), "PrefixRoots", fList(1, fFixed(h)), "Inclusion", fSeq("Elements", fList(2, fFixed(h))))
	mme := fSeq("Position", fUint(8), "Version", fUint(4))
	last, label := fOpt(fUint(8)), fBytes(1)
	ladder := fList(1, step)
	pxEntry := fSeq("VrfOutput", fFixed(h), "Commitment", fFixed(h))
	entries := fList(1, fSeq("Position", fUint(8), "Entry", entry))
	entries.keyed = true
	owner := fSeq("Starting", fUint(8), "VerAtStarting", fUint(8), "UpcomingVers", fList(4, fUint(8)))
	retained := fSeq("Version", fUint(4), "VrfOutput", fFixed(h), "Commitment", fOpt(fFixed(h)))

	frontier := func(n uint64) int {
		if n == 0 {
			return 0
		}
		k := 0
		for rest := n; rest > 0; k++ {
			p := uint64(1)
			for p <= rest/2 {
				p *= 2
			}
			rest -= p
		}
		return k
	}
	ones := func(n uint64) int {
		k := 0
		for ; n > 0; n &= n - 1 {
			k++
		}
		return k
	}
	perSize := func(count func(uint64) int, sub *format) *format {
		return &format{kind: "dyn", dyn: func(t *node) *format { return fCount(count(t.seq["TreeHead"].seq["TreeSize"].num), sub) }}
	}
	audState := fSeq("TreeHead", audHead, "FullSubtrees", perSize(ones, fFixed(h)), "Timestamps", perSize(frontier, fUint(8)),
		"PrefixTree", fFixed(h), "Inserted", fList(2, fSeq("Pos", fUint(8), "VrfOutput", fFixed(h))))
	audState.ok = func(t *node) bool { return t.seq["TreeHead"].seq["TreeSize"].num > 0 }

	var searchVer *format
	sreq := &structs.SearchRequest{Version: p64(uint32(3))}
	if withVersion {
		searchVer, sreq.Version = fUint(4), nil
	}
	return []message{
		{"TreeHead", treeHead, func(b *bytes.Buffer) (any, error) { return orNilAny(structs.NewTreeHead(b)) }},
		{"AuditorTreeHead", audHead, func(b *bytes.Buffer) (any, error) { return orNilAny(structs.NewAuditorTreeHead(b)) }},
		{"FullTreeHead", fullHead, func(b *bytes.Buffer) (any, error) { return orNilAny(structs.NewFullTreeHead(pub, b)) }},
		{"UpdateValue", value, func(b *bytes.Buffer) (any, error) { return orNilAny(structs.NewUpdateValue(pub, b)) }},
		{"LabelValue", labelValue, func(b *bytes.Buffer) (any, error) { return orNilAny(structs.NewLabelValue(b)) }},
		{"OpeningAndValue", opening, func(b *bytes.Buffer) (any, error) { return orNilAny(structs.NewOpeningAndValue(pub, b)) }},
		{"UpdateInfo", info, func(b *bytes.Buffer) (any, error) { return orNilAny(structs.NewUpdateInfo(pub, b)) }},
		{"LogEntry", entry, func(b *bytes.Buffer) (any, error) { return orNilAny(structs.NewLogEntry(cs, b)) }},
		{"BinaryLadderStep", step, func(b *bytes.Buffer) (any, error) { return orNilAny(structs.NewBinaryLadderStep(cs, b)) }},
		{"PrefixProof", px, func(b *bytes.Buffer) (any, error) { return orNilAny(prefix.NewPrefixProof(cs, b)) }},
		{"CombinedTreeProof", combined, func(b *bytes.Buffer) (any, error) { return orNilAny(structs.NewCombinedTreeProof(cs, b)) }},
		{"SearchRequest", fSeq("Last", last, "Label", label, "Version", fOpt(fUint(4))), func(b *bytes.Buffer) (any, error) { return orNilAny(structs.NewSearchRequest(b)) }},
		{"SearchResponse", fSeq("FullTreeHead", fullHead, "Version", searchVer, "Opening", fFixed(o), "Value", value, "BinaryLadder", ladder, "Search", combined),
			func(b *bytes.Buffer) (any, error) { return orNilAny(structs.NewSearchResponse(pub, sreq, b)) }},
		{"ContactMonitorRequest", fSeq("Last", last, "Label", label, "Entries", fList(1, mme)), func(b *bytes.Buffer) (any, error) { return orNilAny(structs.NewContactMonitorRequest(b)) }},
		{"ContactMonitorResponse", fSeq("FullTreeHead", fullHead, "Monitor", combined), func(b *bytes.Buffer) (any, error) { return orNilAny(structs.NewContactMonitorResponse(pub, b)) }},
		{"OwnerInitRequest", fSeq("Last", last, "Label", label, "Start", fUint(8)), func(b *bytes.Buffer) (any, error) { return orNilAny(structs.NewOwnerInitRequest(b)) }},
		{"OwnerInitResponse", fSeq("FullTreeHead", fullHead, "GreatestVersions", fList(1, fUint(4)), "BinaryLadder", fList(2, step), "Init", combined),
			func(b *bytes.Buffer) (any, error) { return orNilAny(structs.NewOwnerInitResponse(pub, b)) }},
		{"OwnerMonitorRequest", fSeq("Last", last, "Label", label, "Entries", fList(1, mme), "Start", fUint(8), "GreatestVersion", fOpt(fUint(4))),
			func(b *bytes.Buffer) (any, error) { return orNilAny(structs.NewOwnerMonitorRequest(b)) }},
		{"OwnerMonitorResponse", fSeq("FullTreeHead", fullHead, "Monitor", combined), func(b *bytes.Buffer) (any, error) { return orNilAny(structs.NewOwnerMonitorResponse(pub, b)) }},
		{"UpdateRequest", fSeq("Last", last, "Label", label, "GreatestVersion", fOpt(fUint(4)), "Values", fList(1, labelValue)),
			func(b *bytes.Buffer) (any, error) { return orNilAny(structs.NewUpdateRequest(b)) }},
		{"ManagerUpdateRequest", fSeq("Last", last, "Label", label, "GreatestVersion", fOpt(fUint(4)), "SignedVersion", fUint(4), "Values", fList(1, value)),
			func(b *bytes.Buffer) (any, error) { return orNilAny(structs.NewManagerUpdateRequest(pub, b)) }},
		{"UpdateResponse", fSeq("FullTreeHead", fullHead, "Position", fUint(8), "Values", fList(1, labelValue), "Info", fList(1, info), "BinaryLadder", ladder, "Update", combined),
			func(b *bytes.Buffer) (any, error) { return orNilAny(structs.NewUpdateResponse(pub, b)) }},
		{"AuditorUpdate", fSeq("Timestamp", fUint(8), "Added", fList(2, pxEntry), "Removed", fList(2, pxEntry), "Proof", px),
			func(b *bytes.Buffer) (any, error) { return orNilAny(structs.NewAuditorUpdate(cs, b)) }},
		{"ClientState", fSeq("TreeHead", treeHead, "AuditorTreeHead", if1(audited, audHead), "FullSubtrees", fList(1, fFixed(h)), "LogEntries", entries),
			func(b *bytes.Buffer) (any, error) { return orNilAny(structs.NewClientState(pub, b)) }},
		{"ClientLabelState", fSeq("Contact", fList(4, mme), "Owner", fOpt(owner), "Versions", fList(4, retained)),
			func(b *bytes.Buffer) (any, error) { return orNilAny(structs.NewClientLabelState(cs, b)) }},
		{"AuditorState", audState, func(b *bytes.Buffer) (any, error) { return orNilAny(auditor.NewAuditorState(cs, b)) }},
	}
}

// allocated runs f and returns how much memory it allocated.
func allocated(f func()) uint64 {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)
	return b.TotalAlloc - a.TotalAlloc
}

// decoded gives bytes to a decoder of the code under test.
func decoded(env *Env, m message, raw []byte, measure bool) {
	t, rest, ok := m.f.parse(raw)
	buf := bytes.NewBuffer(slices.Clip(bytes.Clone(raw)))
	var x any
	var err error
	if measure {
		used := allocated(func() { x, err = m.parse(buf) })
		if used > 8<<20+uint64(len(raw))*100 {
			env.fail("memory", "decoding %d bytes as %s allocates %d bytes", len(raw), m.name, used)
		}
	} else {
		x, err = m.parse(buf)
	}
	env.count("decoded")
	env.sig("%s%v", m.name, err == nil)
	if ok != (err == nil) {
		env.fail("decode", "%x is accepted as %s: %v, but it should be: %v (%v)", raw, m.name, err == nil, ok, err)
	}
	if !ok {
		env.count("undecodable")
		return
	}
	if buf.Len() != len(rest) {
		env.fail("decode", "decoding %x as %s leaves %d bytes, instead of %d", raw, m.name, buf.Len(), len(rest))
	}
	if d := t.differs(reflect.ValueOf(x)); d != "" {
		env.fail("decode", "%x is decoded as %s with a wrong %s", raw, m.name, d)
	}
	again, err := marshalAny(x)
	if err != nil {
		env.fail("encode", "%s that was decoded from %x can not be encoded: %v", m.name, raw, err)
	}
	want := raw[:len(raw)-len(rest)]
	if m.name == "ClientState" { // Its log entries are in no order.
		u, rest, ok := m.f.parse(again)
		if !ok || len(rest) > 0 || len(again) != len(want) {
			env.fail("encode", "%s decoded from %x is encoded as %x", m.name, raw, again)
		}
		if d := u.differs(reflect.ValueOf(x)); d != "" {
			env.fail("encode", "%s decoded from %x is encoded as %x with a wrong %s", m.name, raw, again, d)
		}
		return
	}
	if !bytes.Equal(again, want) {
		env.fail("encode", "%s decoded from %x is encoded as %x", m.name, raw, again)
	}
}

// tooLong makes one part of a message longer than can be encoded.
func tooLong(env *Env, rng *rand.Rand, m message) {
	raw := m.f.make(rng, nil, nil)
	x, err := m.parse(bytes.NewBuffer(raw))
	if err != nil {
		return
	}
	type long struct {
		v reflect.Value
		n int
	}
	var all []long
	var walk func(f *format, v reflect.Value)
	walk = func(f *format, v reflect.Value) {
		for v.Kind() == reflect.Pointer {
			if v.IsNil() {
				return
			}
			v = v.Elem()
		}
		switch f.kind {
		case "bytes":
			if f.n < 4 && v.CanSet() {
				all = append(all, long{v, f.n})
			}
		case "list":
			if v.Kind() != reflect.Slice {
				return
			}
			if f.n < 4 && v.CanSet() {
				all = append(all, long{v, f.n})
			}
			for i := range v.Len() {
				walk(f.sub, v.Index(i))
			}
		case "opt":
			if v.Kind() == reflect.Struct {
				walk(f.sub, v)
			}
		case "seq":
			for i, name := range f.names {
				walk(f.subs[i], v.FieldByName(name))
			}
		case "head":
			for i, name := range f.sub.names {
				walk(f.sub.subs[i], v.FieldByName(name))
			}
		}
	}
	walk(m.f, reflect.ValueOf(x))
	if len(all) == 0 {
		return
	}
	l := all[rng.IntN(len(all))]
	n := 256 + rng.IntN(2)*rng.IntN(300)
	if l.n == 2 {
		n = 65536 + rng.IntN(2)*rng.IntN(300)
	}
	out := reflect.MakeSlice(l.v.Type(), n, n)
	for i := range n {
		if l.v.Len() > 0 {
			out.Index(i).Set(l.v.Index(i % l.v.Len()))
		} else if l.v.Type().Elem().Kind() != reflect.Uint8 {
			return
		}
	}
	l.v.Set(out)
	env.count("fault:too-long")
	again, err := marshalAny(x)
	if err == nil {
		env.fail("encode", "%s with a part of %d elements, which can not be encoded, is encoded as %d bytes", m.name, n, len(again))
	}
}

// ---- The workload.

type wild struct {
	*honest
	seen [][]byte
}

func genWild(rng *rand.Rand, plan *Plan, tier string) {
	genConfig(rng, plan, []int64{1, 1, 2, 2, 3, 3})
	n := 10 + rng.IntN(50)
	for range n {
		k := pick(rng, map[string]int{"adv": 10, "mut": 16, "beat": 6, "search": 5, "mon": 3, "own": 2, "upd": 3, "code": 14, "wild": 30, "remove": 1, "synth": 4})
		plan.Ops = append(plan.Ops, Op{K: k, A: rng.Int64N(8), B: rng.Int64N(8), C: rng.Int64N(6), S: rng.Uint64()})
	}
}

func runWild(env *Env) {
	h := newHonest(env)
	x := &wild{honest: h}
	env.count("runs")
	for _, op := range env.plan.Ops {
		switch op.K {
		case "code":
			x.code(newRand(op.S))
		case "wild":
			x.wild(newRand(op.S), op)
		default:
			h.step(op)
		}
	}
	h.settle()
}

// code gives bytes to decoders.
func (x *wild) code(rng *rand.Rand) {
	env := x.env
	ms := messages(x.w.pub, rng.IntN(2) == 0)
	for range 30 {
		m := ms[rng.IntN(len(ms))]
		switch rng.IntN(8) {
		case 0:
			tooLong(env, rng, m)
			continue
		case 1: // Something else.
			var raw []byte
			if len(x.seen) > 0 && rng.IntN(2) == 0 {
				raw = x.seen[rng.IntN(len(x.seen))]
			} else {
				raw = make([]byte, rng.IntN(60))
				for i := range raw {
					raw[i] = byte(rng.Uint32()) >> (8 * rng.IntN(2))
				}
			}
			decoded(env, m, raw, true)
			continue
		case 2: // Few bytes that announce many.
			raw := m.f.make(rng, nil, nil)
			raw = raw[:rng.IntN(len(raw)+1)]
			for range rng.IntN(6) {
				raw = append(raw, 0xff)
			}
			env.count("fault:bytes-cut")
			decoded(env, m, raw, true)
			continue
		}
		raw := m.f.make(rng, nil, nil)
		if rng.IntN(4) == 0 {
			decoded(env, m, raw, false)
		}
		for i := 1 + rng.IntN(4); i > 0; i-- {
			raw = mutateBytes(rng, raw, x.seen)
		}
		env.count("fault:bytes-changed")
		decoded(env, m, raw, rng.IntN(4) == 0)
		if len(x.seen) < 20 && len(raw) < 4000 {
			x.seen = append(x.seen, raw)
		}
	}
}

// wild sends requests that no client would make.
func (x *wild) wild(rng *rand.Rand, op Op) {
	env, w, r := x.env, x.w, x.w.ref
	n := r.n()
	l := x.label(op.B)
	if rng.IntN(8) == 0 {
		l = fmt.Sprintf("unknown-%d", rng.IntN(3))
	}
	label := []byte(l)
	if rng.IntN(20) == 0 {
		label = bytes.Repeat([]byte{7}, 256+rng.IntN(50))
		l = string(label)
	}
	huge := len(label) > 255
	pos := func() uint64 {
		switch rng.IntN(6) {
		case 0:
			return n + rng.Uint64N(4)
		case 1:
			return -rng.Uint64N(3) - 1
		case 2:
			return 1<<63 - rng.Uint64N(3)
		}
		return rng.Uint64N(n + 1)
	}
	version := func() uint32 {
		switch rng.IntN(6) {
		case 0:
			return -uint32(rng.IntN(3)) - 1
		case 1:
			return 1 << rng.IntN(32)
		}
		return uint32(rng.IntN(r.latest(l) + 4))
	}
	var last *uint64
	switch rng.IntN(4) {
	case 0:
		last = p64(pos())
	case 1, 2:
		if n > 0 {
			last = p64(1 + rng.Uint64N(n))
		}
	}
	badLast := n == 0 || last != nil && (*last == 0 || *last > n) || w.cfg.Mode == modeAudited && w.audHead == nil || w.clockBad(0, max(n, 1)) != ""
	var entries []structs.MonitorMapEntry
	for range rng.IntN(5) {
		e := structs.MonitorMapEntry{Position: pos(), Version: version()}
		if r.latest(l) >= 0 && rng.IntN(3) > 0 {
			e.Version = uint32(rng.IntN(r.latest(l) + 1))
			path := append([]uint64{r.live[l][e.Version].pos}, refRightPath(r.live[l][e.Version].pos, n)...)
			e.Position = path[rng.IntN(len(path))]
		}
		entries = append(entries, e)
	}
	if rng.IntN(3) > 0 {
		sort.Slice(entries, func(i, j int) bool { return entries[i].Position < entries[j].Position })
	}
	badEntries := false
	for i, e := range entries {
		if i > 0 && (entries[i-1].Position >= e.Position || entries[i-1].Version >= e.Version) {
			badEntries = true
		}
		if int64(e.Version) > int64(r.latest(l)) {
			badEntries = true
		} else if p := r.live[l][e.Version].pos; e.Position != p && !slices.Contains(refRightPath(p, n), e.Position) {
			badEntries = true
		}
	}

	tree, err := w.reader(false)
	must(err)
	ctx := context.Background()
	writes := w.flt.writes
	kind := []string{"search", "contact", "owner", "init", "update", "manager"}[rng.IntN(6)]
	env.count("fault:wild-" + kind)
	env.debugf("wild %s label=%q last=%v entries=%v", kind, l, last != nil, entries)
	never, may := false, true // Whether it must or may be refused.
	var asked, res structs.Marshaller
	measured := func(f func()) {
		if used := allocated(f); used > 256<<20 {
			env.fail("memory", "a %s request makes the server allocate %d bytes", kind, used)
		}
	}
	switch kind {
	case "search":
		req := &structs.SearchRequest{Last: last, Label: label}
		if rng.IntN(3) > 0 {
			req.Version = p64(version())
		}
		measured(func() { res, err = orNil(tree.Search(ctx, req)) })
		asked = req
		never = badLast || huge
		may = never || r.deleted(l) || r.life > 0
	case "contact":
		req := &structs.ContactMonitorRequest{Last: last, Label: label, Entries: entries}
		measured(func() { res, err = orNil(tree.ContactMonitor(ctx, req)) })
		asked = req
		never = badLast || badEntries
		may = never || len(entries) > 0 || huge
	case "init":
		req := &structs.OwnerInitRequest{Last: last, Label: label, Start: pos()}
		measured(func() { res, err = orNil(tree.OwnerInit(ctx, req)) })
		asked = req
		never = badLast || req.Start >= n || huge
		if !never && !r.distinguished(n)[req.Start] {
			never = true
		}
		env.debugf("start %d", req.Start)
	case "owner":
		req := &structs.OwnerMonitorRequest{Last: last, Label: label, Entries: entries, Start: pos()}
		if rng.IntN(4) > 0 {
			req.GreatestVersion = p64(version())
		}
		measured(func() { res, err = orNil(tree.OwnerMonitor(ctx, req)) })
		asked = req
		at := -1
		if req.Start < n {
			at = r.greatestAt(l, req.Start)
		}
		g := -1
		if req.GreatestVersion != nil {
			g = int(*req.GreatestVersion)
		}
		env.debugf("start %d at %d greatest %d badLast %v badEntries %v", req.Start, at, g, badLast, badEntries)
		never = badLast || badEntries || req.Start >= n || g > r.latest(l) || at >= 0 && g < at
	case "update", "manager":
		x.wildUpdate(rng, tree, kind, label, last, version)
		return
	}
	env.sig("w%s%v%v", kind, never, err == nil)
	env.logf("wild %s -> %v", kind, err)
	if w.flt.writes != writes {
		env.fail("writes", "a %s request makes the server write to its store", kind)
	}
	if err != nil {
		env.count("refused-wild")
		if !may {
			env.fail("refused", "server refuses a %s request (%q, last %s, n %d) that it can answer: %v", kind, l, showOpt(last), n, err)
		}
		return
	}
	env.count("answered-wild")
	w.disclosed(asked, res)
	if never {
		env.fail("not-refused", "server answers a %s request for %q (last %s, entries %v, n %d) that makes no sense", kind, l, showOpt(last), entries, n)
	}
	if _, err := structs.Marshal(res); err != nil {
		env.fail("encoding", "response to %s can not be encoded: %v", kind, err)
	}
	// The same instance is still of use.
	if rng.IntN(2) == 0 && last == nil {
		w.sticky = tree
		x.synthetic(rng)
		w.sticky = nil
	}
}

func showOpt(x *uint64) string {
	if x == nil {
		return "-"
	}
	return fmt.Sprint(*x)
}

// wildUpdate sends an update that makes no sense to the server.
func (x *wild) wildUpdate(rng *rand.Rand, tree *transparency.Tree, kind string, label []byte, last *uint64, version func() uint32) {
	env, w, r := x.env, x.w, x.w.ref
	l := string(label)
	var greatest *uint32
	g := -1
	if rng.IntN(4) > 0 {
		greatest = p64(version())
		g = int(*greatest)
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	var (
		ch     <-chan wireUpdate
		err    error
		nvals  = rng.IntN(3)
		vals   []structs.LabelValue
		signed []structs.UpdateValue
		sv     = uint32(r.latest(l) + 1)
	)
	if rng.IntN(4) == 0 {
		sv = version()
	}
	valid := true
	for i := range nvals {
		v := randVal(rng)
		vals = append(vals, structs.LabelValue{Value: v})
		var s []byte
		switch rng.IntN(8) {
		case 0:
			valid = false
		case 1:
			s, valid = randCom(rng), false
		case 2:
			valid = false
			if len(label) <= 255 {
				s = w.leafSig(l, int(sv)+i+1, v)
			}
		default:
			if len(label) <= 255 {
				s = w.leafSig(l, int(sv)+i, v)
			} else {
				valid = false
			}
		}
		signed = append(signed, structs.UpdateValue{Value: v, UpdateSuffix: structs.UpdateSuffix{Signature: s}})
	}
	before := r.n()
	var asked structs.Marshaller
	if kind == "update" {
		req := &structs.UpdateRequest{Last: last, Label: label, GreatestVersion: greatest, Values: vals}
		ch, err = tree.Update(ctx, req)
		asked = req
	} else {
		req := &structs.ManagerUpdateRequest{Last: last, Label: label, GreatestVersion: greatest, SignedVersion: sv, Values: signed}
		ch, err = tree.ManagerUpdate(ctx, req)
		asked = req
	}
	env.logf("wild %s %q greatest=%d values=%d -> %v", kind, l, g, nvals, err)
	if err != nil {
		env.count("refused-wild")
		return
	}
	if kind == "manager" && nvals > 0 && (!valid || w.cfg.Mode != modeManaged) {
		env.fail("not-refused", "server takes values for %q without the right signatures of the operator", l)
	} else if kind == "update" && nvals > 0 && w.cfg.Mode == modeManaged {
		env.fail("not-refused", "server takes values for %q without signatures of the operator", l)
	}
	got, fails, sequenced := 0, 0, false
	for open := true; open; {
		select {
		case res, ok := <-ch:
			if !ok {
				open = false
			} else if res.Err != nil {
				fails++
				env.debugf("error: %v", res.Err)
			} else {
				got++
				w.disclosed(asked, res.Out)
				if _, err := structs.Marshal(res.Out); err != nil {
					env.fail("encoding", "response to %s can not be encoded: %v", kind, err)
				}
			}
		case q := <-w.queue:
			if g > r.latest(l) {
				env.fail("not-refused", "server sequences values for %q from someone who claims to know version %d, the greatest is %d", l, g, r.latest(l))
			}
			if len(label) > 255 || int(sv) != r.latest(l)+1 && kind == "manager" {
				close(q.Response) // The application has to refuse it.
				continue
			}
			w.unsequenced = false
			w.sequence(q)
			sequenced = !w.unsequenced && r.n() > before
			if sequenced && w.cfg.Mode == modeManaged {
				// Keep the operator's counter in step.
				_, err := w.mls.inner.IncrementGreatestVersion(label, nvals)
				must(err)
			}
		}
	}
	env.sig("u%s%d%d%v", kind, min(got, 2), fails, sequenced)
	if sequenced {
		env.count("sequenced-wild")
	}
	if got == 0 && fails == 0 && nvals > 0 {
		env.fail("silent", "%s of %q with %d values from someone who knows version %d ends without any answer (sequenced: %v)", kind, l, nvals, g, sequenced)
	}
	if fails > 1 {
		env.fail("stream", "stream goes on after an error")
	}
}
