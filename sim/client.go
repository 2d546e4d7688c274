package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"slices"
	"sort"
	"strings"
	"time"

	"github.com/Bren2010/katie/tree/transparency"
	"github.com/Bren2010/katie/tree/transparency/algorithms"
	"github.com/Bren2010/katie/tree/transparency/structs"
)

// ---- Storage of a client.

type labelRec struct {
	raw      []byte
	terminal uint64
}

type clientStore struct {
	env    *Env
	state  []byte
	labels map[string]labelRec

	puts, gets int
	failPut    int // Number of the put that fails.
	stored     bool
	failGet    int
	dies       bool // The client crashes instead.
	crashes    int
	hit        bool // An operation has failed,
	effect     bool // but it has changed what is stored.
}

func newClientStore(env *Env) *clientStore {
	return &clientStore{env: env, labels: make(map[string]labelRec), failPut: -1, failGet: -1}
}

func (s *clientStore) get() error {
	s.env.gate("client-get")
	s.gets++
	if s.gets == s.failGet {
		s.hit = true
		if s.dies {
			s.crashes++
			s.env.count("fault:client-crash")
			panic(crashed{})
		}
		s.env.count("fault:client-store-read-error")
		return errStoreRead
	}
	return nil
}

func (s *clientStore) GetState() ([]byte, error) {
	if err := s.get(); err != nil {
		return nil, err
	}
	return bytes.Clone(s.state), nil
}

func (s *clientStore) GetLabelState(label []byte) ([]byte, error) {
	if err := s.get(); err != nil {
		return nil, err
	}
	return bytes.Clone(s.labels[string(label)].raw), nil
}

// GetStaleLabel picks any suitable label, in an order that differs from call to
// call.
func (s *clientStore) GetStaleLabel(cutoff uint64) ([]byte, []byte, error) {
	if err := s.get(); err != nil {
		return nil, nil, err
	}
	var cand []string
	for _, l := range sortedKeys(s.labels) {
		if s.labels[l].terminal <= cutoff {
			cand = append(cand, l)
		}
	}
	if len(cand) == 0 {
		return nil, nil, nil
	}
	l := cand[mix(uint64(s.gets), s.env.plan.Seed)%uint64(len(cand))]
	return []byte(l), bytes.Clone(s.labels[l].raw), nil
}

func (s *clientStore) put(f func()) error {
	s.env.gate("client-put")
	s.puts++
	if s.puts == s.failPut {
		s.hit = true
		if s.stored {
			s.effect = true
			f()
		}
		switch {
		case s.dies && s.stored:
			s.env.count("fault:client-crash-after-write")
		case s.dies:
			s.env.count("fault:client-crash")
		case s.stored:
			s.env.count("fault:client-store-write-error-after-write")
		default:
			s.env.count("fault:client-store-write-error")
		}
		if s.dies {
			s.crashes++
			panic(crashed{})
		}
		return errStoreWrite
	}
	f()
	return nil
}

func (s *clientStore) PutState(raw []byte) error {
	return s.put(func() { s.state = bytes.Clone(raw) })
}

func (s *clientStore) PutLabelState(raw, label, rawLabel []byte, terminal uint64) error {
	return s.put(func() {
		s.state = bytes.Clone(raw)
		if rawLabel == nil {
			delete(s.labels, string(label))
		} else {
			s.labels[string(label)] = labelRec{bytes.Clone(rawLabel), terminal}
		}
	})
}

// fingerprint describes everything that is stored.
func (s *clientStore) fingerprint() string {
	var b bytes.Buffer
	fmt.Fprintf(&b, "%x", s.state)
	for _, l := range sortedKeys(s.labels) {
		fmt.Fprintf(&b, "|%x=%x@%d", l, s.labels[l].raw, s.labels[l].terminal)
	}
	return b.String()
}

// ---- A client and what is expected of it.

// An obligation is a version that a client has accepted in an entry that was
// not final yet, which it has to follow up on.
type obligation struct {
	x   uint64
	ver uint32
	// top is the highest ancestor of x to its right that was looked at when the
	// version was accepted.
	top uint64
	com string // Its commitment, if the log can not be trusted.
}

type ownerExp struct {
	starting uint64
	verAt    int
	upcoming []uint64
}

func (o *ownerExp) greatest() int { return o.verAt + len(o.upcoming) }

type simClient struct {
	w    *World
	id   int
	st   *clientStore
	size uint64 // Size of the accepted tree.
	obl  map[string][]obligation
	own  map[string]*ownerExp
	skew time.Duration
	hist map[string]map[int]string // Values seen.

	// Some of what it stores comes from a server that can not be trusted, and
	// has not been verified yet.
	loose bool

	// The instance of the library that it uses, until the given crash.
	inst *transparency.Client
	life int
	uses int
}

func newSimClient(w *World, id int) *simClient {
	return &simClient{w: w, id: id, st: newClientStore(w.env), obl: make(map[string][]obligation), own: make(map[string]*ownerExp), hist: make(map[string]map[int]string)}
}

// clone returns an independent client with the same state.
func (c *simClient) clone() *simClient {
	out := newSimClient(c.w, c.id+100)
	out.st.state = bytes.Clone(c.st.state)
	out.st.puts, out.st.gets = c.st.puts, c.st.gets
	for l, rec := range c.st.labels {
		out.st.labels[l] = labelRec{bytes.Clone(rec.raw), rec.terminal}
	}
	out.size, out.skew, out.loose = c.size, c.skew, c.loose
	for l, o := range c.obl {
		out.obl[l] = slices.Clone(o)
	}
	for l, o := range c.own {
		cp := *o
		cp.upcoming = slices.Clone(o.upcoming)
		out.own[l] = &cp
	}
	return out
}

// lib returns an instance of the client library. Some clients keep theirs until
// they crash, some start a new one for each request, as after a restart, or now
// and then.
func (c *simClient) lib() *transparency.Client {
	c.uses++
	seed := c.w.env.plan.Seed
	again := true
	switch mix(seed, uint64(c.id)) % 4 {
	case 0:
		again = false
	case 1:
		again = mix(seed, uint64(c.id)<<32+uint64(c.uses))%4 > 0
	}
	if c.inst == nil || c.life != c.st.crashes || !again {
		cl, err := transparency.NewClient(c.w.pub, c.st)
		must(err)
		c.inst, c.life = cl, c.st.crashes
	} else {
		c.w.env.count("client-instance-reused")
	}
	return c.inst
}

// at runs f with the client's clock.
func (c *simClient) at(f func()) {
	withOffset(c.skew, f)
}

var clockOffset time.Duration

// withOffset runs f with a clock that is wrong.
func withOffset(d time.Duration, f func()) {
	old := clockOffset
	clockOffset = d
	time.SimSetOffset(int64(d))
	defer func() {
		clockOffset = old
		time.SimSetOffset(int64(old))
	}()
	f()
}

// inspect parses the stored state and checks that it is what the reference
// says about the accepted tree.
func (c *simClient) inspectState() *structs.ClientState {
	env, w, r := c.w.env, c.w, c.w.ref
	if c.st.state == nil {
		if c.size != 0 {
			env.fail("client-state", "client %d lost its state", c.id)
		}
		return nil
	}
	buf := bytes.NewBuffer(bytes.Clone(c.st.state))
	st, err := structs.NewClientState(w.pub, buf)
	if err != nil || buf.Len() != 0 {
		env.fail("client-state", "client %d stored a state that can not be decoded: %v", c.id, err)
	}
	if st.TreeHead.TreeSize != c.size {
		env.fail("client-state", "client %d has accepted size %d but stores %d", c.id, c.size, st.TreeHead.TreeSize)
	}
	n := c.size
	if why := w.verifyHead(&st.TreeHead); why != "" {
		env.fail("client-state", "client %d: %s", c.id, why)
	}
	if w.cfg.Mode == modeAudited {
		if st.AuditorTreeHead == nil {
			env.fail("client-state", "client %d stored no auditor tree head", c.id)
		} else if why := w.verifyAuditorHead(st.AuditorTreeHead); why != "" {
			env.fail("client-state", "client %d: %s", c.id, why)
		}
	}
	want := r.fullSubtrees(n)
	if len(want) != len(st.FullSubtrees) {
		env.fail("client-state", "client %d stores %d full subtrees of a tree of size %d", c.id, len(st.FullSubtrees), n)
	}
	for i := range want {
		if !bytes.Equal(want[i], st.FullSubtrees[i]) {
			env.fail("client-state", "client %d stores a wrong full subtree", c.id)
		}
	}
	frontier := refFrontier(n)
	if len(frontier) != len(st.LogEntries) {
		env.fail("client-state", "client %d stores %d log entries of a tree of size %d", c.id, len(st.LogEntries), n)
	}
	for _, x := range frontier {
		e, ok := st.LogEntries[x]
		if !ok || e.Timestamp != r.ts[r.ix(x)] || !bytes.Equal(e.PrefixTree, r.roots[r.ix(x)]) {
			env.fail("client-state", "client %d stores a wrong log entry %d", c.id, x)
		}
	}
	return st
}

func (c *simClient) inspect() {
	env, r := c.w.env, c.w.ref
	if c.inspectState() == nil {
		return
	}
	for _, l := range sortedKeys(c.st.labels) {
		c.inspectLabel(l)
	}
	for l := range c.obl {
		if _, ok := c.st.labels[l]; !ok && len(c.obl[l]) > 0 && !r.deleted(l) {
			env.fail("monitoring-state", "client %d forgot to monitor %q, it owes %v", c.id, l, c.obl[l])
		}
	}
	for l := range c.own {
		if _, ok := c.st.labels[l]; !ok {
			env.fail("monitoring-state", "client %d forgot that it owns %q", c.id, l)
		}
	}
}

func (c *simClient) labelState(l string) *structs.ClientLabelState {
	rec, ok := c.st.labels[l]
	if !ok {
		return &structs.ClientLabelState{}
	}
	buf := bytes.NewBuffer(bytes.Clone(rec.raw))
	ls, err := structs.NewClientLabelState(c.w.pub.Suite, buf)
	if err != nil || buf.Len() != 0 {
		c.w.env.fail("client-state", "client %d stored a state of %q that can not be decoded: %v", c.id, l, err)
	}
	return ls
}

// progress describes what is left to monitor. The encoded state is no measure
// because retained versions are stored in any order.
func (c *simClient) progress() string {
	out := fmt.Sprint(c.size)
	for _, l := range sortedKeys(c.st.labels) {
		ls := c.labelState(l)
		out += fmt.Sprintf("|%x %v", l, ls.Contact)
		if ls.Owner != nil {
			out += fmt.Sprintf(" %v", *ls.Owner)
		}
	}
	return out
}

func (c *simClient) inspectLabel(l string) {
	env, w, r := c.w.env, c.w, c.w.ref
	rec := c.st.labels[l]
	ls := c.labelState(l)
	if r.deleted(l) {
		return
	}
	n := c.size

	terminal := ^uint64(0)
	for i, e := range ls.Contact {
		if i > 0 && (ls.Contact[i-1].Position >= e.Position || ls.Contact[i-1].Version >= e.Version) {
			env.fail("monitoring-state", "client %d has a monitoring map for %q that is not ascending, which no server accepts: %v", c.id, l, ls.Contact)
		}
		if int(e.Version) >= len(r.live[l]) {
			env.fail("monitoring-state", "client %d monitors version %d of %q, which does not exist", c.id, e.Version, l)
		}
		first := r.live[l][e.Version].pos
		ok := e.Position == first || c.loose && r.greatestAt(l, e.Position) >= int(e.Version)
		for _, y := range refRightPath(first, n) {
			ok = ok || y == e.Position
		}
		if !ok || e.Position >= n {
			env.fail("monitoring-state", "client %d monitors version %d of %q in entry %d, which is not on the direct path of %d", c.id, e.Version, l, e.Position, first)
		}
		terminal = min(terminal, e.Position)
	}
	if ls.Owner != nil {
		terminal = min(terminal, ls.Owner.Starting+1)
	}
	// The label has to be offered for monitoring as soon as there is something to
	// verify.
	if rec.terminal > terminal {
		env.fail("monitoring-state", "client %d monitors %q only after entry %d is final, instead of %d", c.id, l, rec.terminal, terminal)
	}
	for _, o := range c.obl[l] {
		if !c.covered(ls, o) {
			env.fail("monitoring-state", "client %d owes monitoring of version %d of %q in entry %d, but its map is %v (%s)", c.id, o.ver, l, o.x, ls.Contact, r.dump())
		}
	}
	exp := c.own[l]
	if (exp != nil) != (ls.Owner != nil) {
		env.fail("owner-state", "client %d owns %q: %v, but stores %v", c.id, l, exp != nil, ls.Owner)
	}
	if exp != nil {
		o := ls.Owner
		if o.Starting != exp.starting || o.VerAtStarting != exp.verAt || fmt.Sprint(o.UpcomingVers) != fmt.Sprint(exp.upcoming) && len(o.UpcomingVers)+len(exp.upcoming) > 0 {
			env.fail("owner-state", "client %d owns %q with state {%d %d %v}, expected {%d %d %v}", c.id, l, o.Starting, o.VerAtStarting, o.UpcomingVers, exp.starting, exp.verAt, exp.upcoming)
		}
	}
	for _, v := range ls.Versions {
		if !bytes.Equal(v.VrfOutput, w.vrfOf(l, int(v.Version))) {
			env.fail("client-state", "client %d retains a wrong VRF output for version %d of %q", c.id, v.Version, l)
		}
		if v.Commitment != nil && !c.loose && (int(v.Version) >= len(r.live[l]) || !bytes.Equal(v.Commitment, r.live[l][v.Version].com)) {
			env.fail("client-state", "client %d retains a wrong commitment for version %d of %q", c.id, v.Version, l)
		}
	}
}

// looked tells that the version was shown to exist in the given log entries.
// This may take care of a part of the obligations.
func (c *simClient) looked(label string, path []uint64, ver int) {
	for i := range c.obl[label] {
		o := &c.obl[label][i]
		for int(o.ver) <= ver && slices.Contains(path, nextAncestor(o.top)) {
			o.top = nextAncestor(o.top)
		}
	}
}

// owe adds an obligation. Others may have taken care of a part of it.
func (c *simClient) owe(label string, o obligation) {
	for again := true; again; {
		again = false
		next := nextAncestor(o.top)
		for _, p := range c.obl[label] {
			if p.ver >= o.ver && (p.x == next || next <= p.top && slices.Contains(refRightPath(p.x, largeTree), next)) {
				o.top, again = next, true
				break
			}
		}
	}
	c.obl[label] = append(c.obl[label], o)
}

// largeTree is larger than all trees.
var largeTree = uint64(1 << 20)

// nextAncestor is the lowest ancestor of x to its right in any tree.
func nextAncestor(x uint64) uint64 { return refRightPath(x, largeTree)[0] }

func (c *simClient) covered(ls *structs.ClientLabelState, o obligation) bool {
	// What is left to look at are the ancestors of `top` to its right, in this
	// tree and in larger ones. An entry of the map covers them if all of them are
	// also its ancestors.
	next := nextAncestor(o.top)
	for _, e := range ls.Contact {
		if e.Version < o.ver {
			continue
		} else if e.Position == next || e.Position == o.top {
			return true
		}
		for _, y := range refRightPath(e.Position, largeTree) {
			if y == next {
				return true
			}
		}
		for _, y := range refRightPath(o.top, c.size) {
			if y == e.Position {
				return true
			}
		}
	}
	return false
}

// ---- Predictions.

// expect is what the reference says about a request that was served by an
// honest server.
type expect struct {
	n       uint64
	refuse  string // The server has to refuse.
	reject  string // The client has to reject.
	lax     bool   // Anything but a wrong answer goes.
	never   bool   // Refused or rejected, as the log can not show it.
	maybe   bool   // Refused or rejected is fine as well.
	settled bool   // The label was deleted before, but that does not matter.
	outcome searchOutcome
	term    uint64
	ver     int
	val     []byte
	dle     int64
	auditOf uint64
}

// predict covers what is the same for all requests that are answered at size n.
func (w *World) predict(last *uint64, n uint64, audHead *structs.AuditorTreeHead) expect {
	r := w.ref
	e := expect{n: n}
	if e.n == 0 {
		e.refuse = "empty tree"
		return e
	}
	if last != nil && *last > e.n {
		e.refuse = "client is ahead"
		return e
	}
	e.dle = r.rightmostDLE(e.n)
	if w.cfg.Mode == modeAudited {
		if audHead == nil {
			e.refuse = "no auditor head"
			return e
		}
		e.auditOf = audHead.TreeSize
		if last == nil || *last != e.n {
			if audHead.Timestamp > r.ts[r.ix(e.n-1)] || r.ts[r.ix(e.n-1)]-audHead.Timestamp > w.cfg.MaxAuditorLag {
				e.reject = "auditor lag"
			}
		}
	}
	if why := w.clockBad(w.skew, e.n); why != "" {
		e.refuse = "server clock " + why
	}
	return e
}

func (w *World) clockBad(skew time.Duration, n uint64) string {
	ts := int64(w.ref.ts[w.ref.ix(n-1)])
	now := time.Now().Add(skew - clockOffset).UnixMilli()
	if ts-now > int64(w.cfg.MaxAhead) {
		return "behind"
	} else if now-ts > int64(w.cfg.MaxBehind) {
		return "ahead"
	}
	return ""
}

// ---- Requests in flight.

type pending struct {
	c     *simClient
	kind  string // search, monitor, ownerinit, update
	label string
	ver   int // -1: greatest.
	base  uint64
	prev  string // Raw label state when the request was made.

	sreq    *structs.SearchRequest
	sverify transparency.VerifyFunc[*structs.SearchResponse]
	mreq    structs.Marshaller
	mverify transparency.VerifyFunc[structs.Marshaller]
	oreq    *structs.OwnerInitRequest
	overify transparency.VerifyFunc[*structs.OwnerInitResponse]
	ureq    *structs.UpdateRequest
	sv      *transparency.StreamVerifier
	vals    [][]byte
	obl     []obligation
	contact []structs.MonitorMapEntry // What the request asks for.
	baseAud uint64                    // Size of the auditor's tree head that the client has.

	unsequenced bool // The values of the update were not accepted.

	exp  expect
	rp   reply
	rps  []reply
	done bool

	// The state of an update's stream of responses.
	count, accepted, next int
	size                  uint64

	// The response comes from a server that can not be trusted. Rejecting it is
	// always right; if it is accepted, it has to be true.
	hostile bool
	fork    bool     // It is known to come from another log.
	worlds  []*World // All the logs that there are.
	ended   bool     // The client's storage has failed.
}

// begin has the client create a request. It returns nil if there is none.
func (c *simClient) begin(kind, label string, ver int, vals [][]byte) *pending {
	env, w := c.w.env, c.w
	if o := c.own[label]; kind == "update" && o != nil && w.ref.latest(label)-o.greatest() > 200 {
		return nil // The response would have more values than can be encoded.
	}
	p := &pending{c: c, kind: kind, label: label, ver: ver, base: c.size, vals: vals}
	if c.st.labels[label].raw != nil {
		p.prev = string(c.st.labels[label].raw)
	}
	p.baseAud = c.auditorSize()
	var err error
	run := func() error {
		switch kind {
		case "search":
			if ver < 0 {
				p.sreq, p.sverify, err = c.lib().GreatestVersionSearch([]byte(label))
			} else {
				p.sreq, p.sverify, err = c.lib().FixedVersionSearch([]byte(label), uint32(ver))
			}
		case "monitor":
			p.mreq, p.mverify, err = c.lib().Monitor()
		case "ownerinit":
			p.oreq, p.overify, err = c.lib().OwnerInit([]byte(label))
		case "update":
			p.ureq, p.sv, err = c.lib().Update([]byte(label), vals)
		}
		return err
	}
	c.at(func() { err = mayCrash(run) })
	if c.st.hit {
		if err == nil {
			env.fail("ignored-failure", "client %d makes a request (%s %q) although its storage has failed", c.id, kind, label)
		}
		c.st.hit = false
		return nil
	}
	dle := int64(-1)
	if c.size > 0 {
		dle = w.ref.rightmostDLE(c.size)
	}
	want := ""
	switch kind {
	case "monitor":
		if dle < 0 {
			want = "no distinguished entry"
		}
	case "ownerinit":
		if c.own[label] != nil {
			want = "already owned"
		} else if dle < 0 {
			want = "no distinguished entry"
		}
	case "update":
		if c.own[label] == nil {
			want = "not owned"
		}
	}
	env.logf("client %d begins %s %q %d: %v", c.id, kind, label, ver, err)
	if err != nil {
		if want == "" {
			env.fail("request", "client %d can not make a request (%s %q %d): %v", c.id, kind, label, ver, err)
		}
		return nil
	} else if want != "" {
		env.fail("request", "client %d makes a request (%s %q) that it has no state for: %s", c.id, kind, label, want)
	}
	if kind != "monitor" {
		return p
	}
	switch req := p.mreq.(type) {
	case nil:
		// Nothing may be due.
		for _, l := range sortedKeys(c.obl) {
			for _, o := range c.obl[l] {
				if int64(o.x) <= dle && !w.ref.deleted(l) {
					env.fail("monitoring-due", "client %d has nothing to monitor, but owes version %d of %q in entry %d and %d is distinguished", c.id, o.ver, l, o.x, dle)
				}
			}
		}
		for _, l := range sortedKeys(c.own) {
			if int64(c.own[l].starting) < dle {
				env.fail("monitoring-due", "client %d has nothing to monitor, but owns %q verified up to %d and %d is distinguished", c.id, l, c.own[l].starting, dle)
			}
		}
		return nil
	case *structs.ContactMonitorRequest:
		p.label = string(req.Label)
	case *structs.OwnerMonitorRequest:
		p.label = string(req.Label)
	}
	p.prev = string(c.st.labels[p.label].raw)
	p.obl = append([]obligation(nil), c.obl[p.label]...)
	p.contact = c.labelState(p.label).Contact
	return p
}

func lastOf(size uint64) *uint64 {
	if size == 0 {
		return nil
	}
	return &size
}

// serve has the server answer the request, and predicts how the client reacts.
func (p *pending) serve() {
	p.expectAt(p.c.w.ref.n(), p.c.w.audHead)
	p.answer()
}

// answer has the server answer the request.
func (p *pending) answer() {
	w := p.c.w
	switch p.kind {
	case "search":
		p.rp = w.serveSearch(p.sreq)
	case "monitor":
		p.rp = w.serveMonitor(p.mreq)
	case "ownerinit":
		p.rp = w.serveOwnerInit(p.oreq)
	case "update":
		w.unsequenced = false
		p.rps = w.serveUpdate(p.ureq, nil)
		p.unsequenced = w.unsequenced
	}
}

// expectAt predicts what happens if the request is answered at size n.
func (p *pending) expectAt(n uint64, audHead *structs.AuditorTreeHead) {
	r := p.c.w.ref
	p.exp = p.c.w.predict(lastOf(p.base), n, audHead)
	e := &p.exp
	if p.base > 0 && p.base < n && p.c.w.cfg.Mode == modeAudited && p.baseAud < p.c.w.cfg.AuditorStartPos {
		e.reject = "auditor start"
	}
	e.lax = r.deleted(p.label)
	// A server that is not honest does not mind that its clock is wrong.
	readable := e.refuse == "" || p.hostile && strings.HasPrefix(e.refuse, "server clock")
	switch p.kind {
	case "search":
		e.ver = p.ver
		if readable {
			if p.ver < 0 {
				e.outcome, e.term = r.greatestSearch(p.label, e.n)
				e.ver = r.greatestAt(p.label, e.n-1)
			} else {
				e.outcome, e.term = r.fixedSearch(p.label, p.ver, e.n)
			}
			if e.lax && p.prev == "" && !p.hostile {
				p.afterDeletion()
			}
			if e.outcome == outFound {
				e.val = r.live[p.label][e.ver].val
			}
			if e.outcome == outExpired && !e.maybe {
				e.refuse = "expired"
			}
		}
	case "ownerinit":
		if readable && r.expired(p.oreq.Start, e.n) {
			e.refuse = "start expired"
		}
	case "update":
		if greatest := p.ureq.GreatestVersion; greatest != nil && int(*greatest) == r.latest(p.label) || greatest == nil && r.latest(p.label) < 0 {
			e.refuse = "" // The first response is for a new log entry.
		}
	}
}

// afterDeletion predicts the outcome of a search for a label that has been
// deleted, by a client that knows nothing about the label. What was there before
// is still visible in older log entries, but the server does not know of it: if it
// has to prove anything about these entries, the proof may not be accepted.
func (p *pending) afterDeletion() {
	e, r := &p.exp, p.c.w.ref
	e.lax, e.settled = false, true
	walk := func(have contents) searchRef {
		if p.ver < 0 {
			return r.greatestRef(have, p.label, max(e.ver, 0), e.n)
		}
		return r.fixedRef(have, p.label, p.ver, e.n)
	}
	ref := walk(r.have)
	e.maybe = !slices.Equal(ref.trace, walk(r.indexed).trace)
	if p.ver < 0 {
		if ref.out == outMissing && e.ver >= 0 {
			ref.ok = false
		}
	}
	e.outcome, e.term = ref.out, ref.term
	if ref.ok && ref.out == outFound {
		vs := r.live[p.label]
		ref.ok = e.ver >= 0 && e.ver < len(vs) && string(vs[e.ver].com) == ref.com
	}
	if !ref.ok {
		e.outcome, e.never = outMissing, true
	}
}

// deliver gives the answer to the client and checks its reaction.
func (p *pending) deliver() {
	if p.done {
		return
	}
	p.done = true
	p.c.at(func() {
		switch p.kind {
		case "search":
			p.deliverSearch()
		case "monitor":
			p.deliverMonitor()
		case "ownerinit":
			p.deliverOwnerInit()
		case "update":
			p.deliverUpdate()
		}
	})
	p.c.inspect()
}

// mayCrash runs an operation of a client that may crash.
func mayCrash(f func() error) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(crashed); !ok {
				panic(r)
			}
			err = errCrash
		}
	}()
	return f()
}

var errCrash = errors.New("simulated crash of the client")

// faulted handles a failure of the client's storage, or a crash. It returns false
// if nothing has changed because of that. Otherwise err becomes what the result
// would have been.
func (p *pending) faulted(err *error, before string) bool {
	c := p.c
	if !c.st.hit {
		return true
	}
	c.st.hit = false
	c.w.env.logf("client %d %s %q: its storage fails (effect %v): %v", c.id, p.kind, p.label, c.st.effect, *err)
	if *err == nil || *err == algorithms.ErrLabelNotFound || *err == algorithms.ErrLabelExpired {
		c.w.env.fail("ignored-failure", "client %d processes a response to %s of %q although its storage has failed: %v", c.id, p.kind, p.label, *err)
	}
	p.ended = true
	if !c.st.effect {
		if c.st.fingerprint() != before {
			c.w.env.fail("state-after-error", "the storage of client %d fails, but the client changes its state", c.id)
		}
		c.w.env.count("failed-requests")
		return false
	}
	c.st.effect = false
	c.w.env.count("in-doubt-requests")
	*err = nil
	switch {
	case p.kind == "search" && (p.exp.lax || p.exp.settled):
		p.exp.lax = true // It may have been either.
		*err = algorithms.ErrLabelNotFound
	case p.kind == "search" && p.exp.outcome == outMissing:
		*err = algorithms.ErrLabelNotFound
	case p.kind == "search" && p.exp.outcome == outExpired:
		*err = algorithms.ErrLabelExpired
	}
	return true
}

// verdict compares the client's reaction with the prediction and reports
// whether the response was accepted. stale tells that the client's state has
// changed in the meantime.
func (p *pending) verdict(err error, before string, stale bool) bool {
	c, env, e := p.c, p.c.w.env, &p.exp
	refused := p.rp.err != nil
	if p.hostile {
		return p.hostileVerdict(err, before, stale)
	}
	env.logf("client %d %s %q %d at n=%d -> refused=%v err=%v (expect %+v)", c.id, p.kind, p.label, p.ver, e.n, refused, err, e.brief())
	env.sig("%s%v%v%v", p.kind[:2], e.outcome, err == nil, stale)
	if refused {
		if e.refuse == "" && !e.lax && !e.never && !e.maybe {
			env.fail("refused", "server refuses %s of %q (version %d) at size %d from a client at size %d: %v (%s)", p.kind, p.label, p.ver, e.n, p.base, p.rp.err, c.w.ref.dump())
		}
		env.count("refused")
		return false
	}
	if e.refuse != "" && !e.lax {
		env.fail("not-refused", "server answers %s of %q although it should not: %s", p.kind, p.label, e.refuse)
	}
	if err != nil && err != algorithms.ErrLabelNotFound && err != algorithms.ErrLabelExpired {
		if c.st.fingerprint() != before {
			env.fail("state-after-error", "client %d rejects a response with %q but changes its state", c.id, err)
		}
		why := e.reject
		if stale {
			why = "stale"
		}
		if cw := c.w.clockBad(c.skew, e.n); cw != "" {
			why = "client clock"
		}
		if why == "" && !e.lax && !e.never && !e.maybe {
			env.fail("rejected", "client %d rejects an honest response to %s of %q (version %d) at size %d (client at %d): %v (%s)", c.id, p.kind, p.label, p.ver, e.n, p.base, err, c.w.ref.dump())
		}
		env.count("rejected")
		return false
	}
	if stale {
		env.fail("stale-accepted", "client %d accepts a response to %s of %q, although its state has changed since (size %d to %d)", c.id, p.kind, p.label, p.base, c.size)
	}
	if e.never {
		env.fail("deleted-accepted", "client %d accepts a response to %s of %q (version %d) at size %d, although log entries from before its deletion say something else (%s)", c.id, p.kind, p.label, p.ver, e.n, c.w.ref.dump())
	}
	if e.settled {
		env.count("after-deletion")
		if e.maybe {
			env.count("after-deletion-lucky")
		}
	}
	if e.reject != "" {
		env.fail("not-rejected", "client %d accepts a response to %s of %q that it should reject: %s", c.id, p.kind, p.label, e.reject)
	}
	if cw := c.w.clockBad(c.skew, e.n); cw != "" {
		env.fail("clock", "client %d accepts a tree with rightmost timestamp %d although its clock is %s", c.id, c.w.ref.ts[c.w.ref.ix(e.n-1)], cw)
	}
	env.count("accepted")
	env.count("accepted-" + p.kind)
	return true
}

// acceptedSize is the size of the tree in the client's state.
func (c *simClient) acceptedSize() uint64 {
	st, err := structs.NewClientState(c.w.pub, bytes.NewBuffer(bytes.Clone(c.st.state)))
	if err != nil {
		c.w.env.fail("client-state", "client %d stored a state that can not be decoded: %v", c.id, err)
	}
	return st.TreeHead.TreeSize
}

// auditorSize is the size of the auditor's tree head in the client's state.
func (c *simClient) auditorSize() uint64 {
	if c.w.cfg.Mode != modeAudited || c.st.state == nil {
		return 0
	}
	st, err := structs.NewClientState(c.w.pub, bytes.NewBuffer(bytes.Clone(c.st.state)))
	if err != nil || st.AuditorTreeHead == nil {
		return 0
	}
	return st.AuditorTreeHead.TreeSize
}

// hostileVerdict is the verdict about a response of a server that is not
// trusted.
func (p *pending) hostileVerdict(err error, before string, stale bool) bool {
	c, w, env := p.c, p.c.w, p.c.w.env
	env.count("hostile-responses")
	if p.rp.err != nil {
		env.logf("client %d %s %q %d -> server fails", c.id, p.kind, p.label, p.ver)
		env.count("refused")
		return false
	}
	env.logf("client %d %s %q %d -> hostile response, err=%v", c.id, p.kind, p.label, p.ver, err)
	if err != nil && err != algorithms.ErrLabelNotFound && err != algorithms.ErrLabelExpired {
		if c.st.fingerprint() != before {
			env.fail("state-after-error", "client %d rejects a response with %q but changes its state", c.id, err)
		}
		env.count("rejected")
		return false
	}
	if stale {
		env.fail("stale-accepted", "client %d accepts a response to %s of %q, although its state has changed since (size %d to %d)", c.id, p.kind, p.label, p.base, c.size)
	}
	n := p.base
	if c.st.state != nil {
		n = c.acceptedSize()
	}
	if p.fork && n > 0 {
		st, _ := structs.NewClientState(w.pub, bytes.NewBuffer(bytes.Clone(c.st.state)))
		if n > w.ref.n() || w.verifyHead(&st.TreeHead) != "" {
			// It may have been made from an older response of a third log, which
			// does extend the client's.
			i := slices.IndexFunc(p.worlds, func(o *World) bool {
				return p.base <= shared(w.ref, o.ref) && n <= o.ref.n() && o.verifyHead(&st.TreeHead) == ""
			})
			if i >= 0 {
				w = p.worlds[i]
				c.w = w
				env.count("moved-by-old-response")
			}
		}
		if n > w.ref.n() || w.verifyHead(&st.TreeHead) != "" {
			env.fail("fork-accepted", "client %d at size %d accepts a tree of size %d that is not an extension of its own", c.id, p.base, n)
		}
	}
	if n < p.base || n > w.ref.n() || n == 0 {
		env.fail("rollback", "client %d at size %d accepts a tree of size %d, the log has size %d", c.id, p.base, n, w.ref.n())
	}
	var head *structs.AuditorTreeHead
	if w.cfg.Mode == modeAudited {
		st, _ := structs.NewClientState(w.pub, bytes.NewBuffer(bytes.Clone(c.st.state)))
		head = st.AuditorTreeHead
	}
	ver, base := p.exp.ver, p.base
	lax := p.exp.lax
	p.expectAt(n, head)
	if p.kind == "update" {
		p.exp.ver = ver
	}
	p.exp.lax = p.exp.lax || lax
	e := &p.exp
	if e.refuse == "start expired" || e.refuse == "no auditor head" {
		env.fail("not-rejected", "client %d accepts a response to %s of %q that it should reject: %s", c.id, p.kind, p.label, e.refuse)
	}
	if base != n && e.reject != "" {
		env.fail("not-rejected", "client %d accepts a response to %s of %q that it should reject: %s", c.id, p.kind, p.label, e.reject)
	}
	if cw := w.clockBad(c.skew, n); cw != "" {
		env.fail("clock", "client %d accepts a tree with rightmost timestamp %d although its clock is %s", c.id, w.ref.ts[w.ref.ix(n-1)], cw)
	}
	env.sig("h%s%v", p.kind[:2], e.outcome)
	env.count("accepted")
	env.count("accepted-hostile-" + p.kind)
	return true
}

func (e *expect) brief() string {
	return fmt.Sprintf("%s term=%d ver=%d refuse=%q reject=%q dle=%d", e.outcome, e.term, e.ver, e.refuse, e.reject, e.dle)
}

func (p *pending) deliverSearch() {
	c, w, env, e := p.c, p.c.w, p.c.w.env, &p.exp
	before := c.st.fingerprint()
	stale := c.size != p.base
	if e.settled && string(c.st.labels[p.label].raw) != p.prev {
		// The client has learned something about the label in the meantime.
		e.lax, e.never, e.maybe, e.settled = true, false, false, false
	}
	var (
		res *structs.SearchResponse
		err error
	)
	if p.rp.err == nil {
		res, err = decode(p.rp, p.hostile, func(b *bytes.Buffer) (*structs.SearchResponse, error) {
			return structs.NewSearchResponse(w.pub, p.sreq, b)
		})
		if err == nil {
			if env.verbose {
				js, _ := json.Marshal(res.Search)
				env.debugf("%s", js)
			}
			err = mayCrash(func() error { return p.sverify(res) })
		}
	}
	if !p.faulted(&err, before) || !p.verdict(err, before, stale) {
		return
	}
	c.size = e.n
	switch err {
	case algorithms.ErrLabelNotFound:
		if e.outcome != outMissing && !e.lax {
			env.fail("answer", "client %d is shown that version %d of %q does not exist at size %d, but it is %s (%s)", c.id, p.ver, p.label, e.n, e.outcome, w.ref.dump())
		}
		env.count("not-found")
		return
	case algorithms.ErrLabelExpired:
		if e.outcome != outExpired && !e.lax {
			env.fail("answer", "client %d is shown that version %d of %q has expired, but it is %s", c.id, p.ver, p.label, e.outcome)
		}
		env.count("expired")
		return
	}
	if e.outcome != outFound {
		if !e.lax {
			env.fail("answer", "client %d accepts version %d of %q which should be %s at size %d (%s)", c.id, e.ver, p.label, e.outcome, e.n, w.ref.dump())
		}
		return
	}
	got := p.ver
	if p.ver < 0 {
		got = int(*res.Version)
	}
	if got != e.ver || !bytes.Equal(res.Value.Value, e.val) {
		env.fail("answer", "client %d accepts version %d = %x of %q at size %d, the log has version %d = %x (%s)", c.id, got, res.Value.Value, p.label, e.n, e.ver, e.val, w.ref.dump())
	}
	if w.cfg.Mode == modeManaged && !bytes.Equal(res.Value.Signature, w.leafSig(p.label, e.ver, e.val)) && w.ks.suite.Id() == 0xF0F0 {
		env.fail("answer", "client %d accepts a wrong signature of the service operator", c.id)
	}
	env.count("found")
	if w.cfg.Mode == modeContact && int64(e.term) > e.dle && !w.ref.deleted(p.label) {
		top := e.term
		for _, y := range refRightPath(e.term, e.n) {
			top = y
		}
		// Other obligations may have been met by this search.
		path := append([]uint64{e.term}, refRightPath(e.term, e.n)...)
		c.looked(p.label, path, e.ver)
		c.owe(p.label, obligation{x: e.term, ver: uint32(e.ver), top: top})
		env.count("obligations")
	}
}

// discharge removes the obligations that an accepted monitoring response has
// taken care of.
func (c *simClient) discharge(label string, known []obligation, asked []structs.MonitorMapEntry, n uint64) {
	var keep []obligation
	for _, o := range c.obl[label] {
		// An obligation that was made since may have been met already.
		done := false
		if slices.Contains(known, o) || c.covered(&structs.ClientLabelState{Contact: asked}, o) {
			for _, y := range refRightPath(o.x, n) {
				o.top = max(o.top, y)
			}
			done = c.w.ref.distinguishedAncestor(o.x, n) >= 0
		}
		if !done {
			keep = append(keep, o)
		} else {
			c.w.env.count("discharged")
		}
	}
	c.obl[label] = keep
	if len(keep) == 0 {
		delete(c.obl, label)
	}
}

func (p *pending) deliverMonitor() {
	c, w, env, e := p.c, p.c.w, p.c.w.env, &p.exp
	before := c.st.fingerprint()
	stale := c.size != p.base || string(c.st.labels[p.label].raw) != p.prev
	var err error
	if p.rp.err == nil {
		var res structs.Marshaller
		res, err = w.decodeMonitor(p.mreq, p.rp, p.hostile)
		if err == nil {
			err = mayCrash(func() error { return p.mverify(res) })
		}
	}
	if !p.faulted(&err, before) || !p.verdict(err, before, stale) {
		return
	}
	c.size = e.n
	c.discharge(p.label, p.obl, p.contact, e.n)
	if exp := c.own[p.label]; exp != nil && !w.ref.deleted(p.label) {
		// Entries of the map take up a part of what fits into a response.
		owed := 0
		for _, m := range p.contact {
			owed += len(refRightPath(m.Position, e.n))
		}
		c.advanceOwner(p.label, exp, e.n, owed)
	}
	if _, ok := p.mreq.(*structs.OwnerMonitorRequest); ok {
		env.count("owner-monitored")
	} else {
		env.count("contact-monitored")
	}
}

// advanceOwner updates the expected owner state after a verified owner
// monitoring response in a tree of size n.
func (c *simClient) advanceOwner(label string, exp *ownerExp, n uint64, owed int) {
	env, r := c.w.env, c.w.ref
	ls := c.labelState(label)
	if ls.Owner == nil {
		return // Reported by inspect.
	}
	to := ls.Owner.Starting
	if to < exp.starting {
		env.fail("owner-state", "client %d: verified position of %q moves back from %d to %d", c.id, label, exp.starting, to)
	}
	d := r.distinguished(n)
	var todo []uint64
	for _, x := range sortedSet(d) {
		if x > exp.starting {
			todo = append(todo, x)
		}
	}
	// The server may stop after 25 entries, or at a version that the owner does
	// not know.
	known := func(x uint64) int { // Expected by the owner.
		v := exp.verAt
		for _, pos := range exp.upcoming {
			if pos <= x {
				v++
			}
		}
		return v
	}
	last, steps := exp.starting, 0
	for _, x := range todo {
		if r.greatestAt(label, x) != known(x) || steps >= 25 {
			break
		}
		last = x
		steps++
	}
	if to > last {
		env.fail("owner-monitor", "client %d considers %q verified up to %d, but at most %d can be consistent with what it knows (%s)", c.id, label, to, last, r.dump())
	}
	if to < last && !c.loose && !(len(todo)+owed >= 20 && (to > exp.starting || owed >= 20)) {
		env.fail("owner-monitor", "client %d considers %q verified up to %d only, instead of %d (starting %d todo %v up %v)", c.id, label, to, last, exp.starting, todo, exp.upcoming)
	}
	v := known(to)
	var rest []uint64
	for _, pos := range exp.upcoming {
		if pos > to {
			rest = append(rest, pos)
		}
	}
	exp.starting, exp.verAt, exp.upcoming = to, v, rest
	env.add("owner-entries", int64(steps))
}

func (p *pending) deliverOwnerInit() {
	c, w, env, e := p.c, p.c.w, p.c.w.env, &p.exp
	before := c.st.fingerprint()
	stale := c.size != p.base || string(c.st.labels[p.label].raw) != p.prev
	var err error
	if p.rp.err == nil {
		var res *structs.OwnerInitResponse
		res, err = decode(p.rp, p.hostile, func(b *bytes.Buffer) (*structs.OwnerInitResponse, error) {
			return structs.NewOwnerInitResponse(w.pub, b)
		})
		if err == nil {
			err = mayCrash(func() error { return p.overify(res) })
		}
	}
	if !p.faulted(&err, before) || !p.verdict(err, before, stale) {
		return
	}
	c.size = e.n
	start := p.oreq.Start
	if d := w.ref.rightmostDLE(p.base); d < 0 || uint64(d) != start {
		env.fail("owner-init", "client %d at size %d starts owning %q at entry %d instead of %d", c.id, p.base, p.label, start, d)
	}
	c.own[p.label] = &ownerExp{starting: start, verAt: w.ref.greatestAt(p.label, start)}
	env.count("owned")
}

func (p *pending) deliverUpdate() {
	for _, rp := range p.rps {
		if !p.deliverNext(rp) || p.ended {
			return
		}
	}
}

// deliverNext gives the next response of an update to the client. It returns
// false if the client does not accept any more of them.
func (p *pending) deliverNext(rp reply) bool {
	c, w, env := p.c, p.c.w, p.c.w.env
	r := w.ref
	exp := c.own[p.label]
	// p.next follows what the owner of this stream knows.
	if p.count == 0 {
		p.next, p.size = exp.greatest()+1, p.base
	}
	p.count++
	before := c.st.fingerprint()
	stale := c.size != p.size || string(c.st.labels[p.label].raw) != p.prev
	q := *p
	q.rp = rp
	q.base = p.size
	if rp.exp != nil {
		q.exp = *rp.exp
	}
	if p.unsequenced && rp.err != nil && strings.HasPrefix(rp.err.Error(), "failed to sequence") {
		q.exp.refuse = "not sequenced"
	}
	var (
		res *structs.UpdateResponse
		err error
	)
	if rp.err == nil {
		res, err = decode(rp, p.hostile, func(b *bytes.Buffer) (*structs.UpdateResponse, error) {
			return structs.NewUpdateResponse(w.pub, b)
		})
		if err == nil {
			if res.FullTreeHead.TreeHead != nil {
				q.exp.n = res.FullTreeHead.TreeHead.TreeSize
			} else {
				q.exp.n = p.size
			}
			q.exp.reject = ""
			if !p.hostile && res.FullTreeHead.TreeHead != nil && w.cfg.Mode == modeAudited && q.exp.n <= r.n() && q.exp.n > 0 {
				if r.ts[r.ix(q.exp.n-1)]-rp.auditorTs > w.cfg.MaxAuditorLag {
					q.exp.reject = "auditor lag"
				} else if p.baseAud < w.cfg.AuditorStartPos {
					q.exp.reject = "auditor start"
				}
			}
			if !p.hostile && (q.exp.n > r.n() || q.exp.n == 0) {
				env.fail("update", "update response for a tree of size %d, the log has %d", q.exp.n, r.n())
			}
			err = mayCrash(func() error { return p.sv.Verify(res) })
		}
	}
	ok := q.faulted(&err, before)
	p.ended = q.ended
	if !ok || !q.verdict(err, before, stale) {
		return false
	}
	p.size, c.size = q.exp.n, q.exp.n
	p.baseAud = c.auditorSize()
	p.prev = string(c.st.labels[p.label].raw)
	p.accepted++
	// The response has to be for the next entry with new versions.
	pos := res.Position
	if p.hostile {
		p.next = p.acceptedUpdate(&q, exp, res, p.next)
		return true
	}
	if p.next >= len(r.live[p.label]) || r.live[p.label][p.next].pos != pos {
		env.fail("update", "response %d to the update of %q is for entry %d, which does not have version %d (%s)", p.count, p.label, pos, p.next, r.dump())
	}
	var vals [][]byte
	for _, v := range res.Values {
		vals = append(vals, v.Value)
	}
	if len(vals) == 0 {
		vals = p.vals
		env.count("own-updates")
	} else {
		env.count("learned-updates")
	}
	for k := 0; ; k++ {
		have := p.next < len(r.live[p.label]) && r.live[p.label][p.next].pos == pos
		if have != (k < len(vals)) {
			env.fail("update", "response %d to the update of %q shows %d versions in entry %d, the log differs (%s)", p.count, p.label, len(vals), pos, r.dump())
		}
		if !have {
			break
		}
		if !bytes.Equal(r.live[p.label][p.next].val, vals[k]) {
			env.fail("update", "response %d to the update of %q gives version %d the value %x instead of %x", p.count, p.label, p.next, vals[k], r.live[p.label][p.next].val)
		}
		exp.upcoming = append(exp.upcoming, pos)
		p.next++
	}
	if r.rightmostDLE(q.exp.n) < int64(pos) {
		c.looked(p.label, []uint64{pos}, p.next-1)
	}
	c.inspect()
	return true
}

// acceptedUpdate checks an update response of a server that is not trusted. What
// it says about a distinguished log entry is only verified by monitoring it
// later, so the owner may have been told anything about those until then.
func (p *pending) acceptedUpdate(q *pending, exp *ownerExp, res *structs.UpdateResponse, next int) int {
	c, w, env := p.c, p.c.w, p.c.w.env
	r, pos, n := w.ref, res.Position, q.exp.n
	c.loose = true
	vals := p.vals
	if len(res.Values) > 0 {
		vals = nil
		for _, v := range res.Values {
			vals = append(vals, v.Value)
		}
	}
	end := next + len(vals) - 1
	lastUpdate := exp.starting
	if len(exp.upcoming) > 0 {
		lastUpdate = exp.upcoming[len(exp.upcoming)-1]
	}
	if pos >= n || pos <= lastUpdate || len(vals) == 0 {
		env.fail("update", "client %d accepts %d new versions of %q in entry %d of %d, after entry %d", c.id, len(vals), p.label, pos, n, lastUpdate)
	}
	if p.exp.lax || r.deleted(p.label) {
		return end + 1
	}
	d := r.distinguished(n)
	if !d[pos] {
		if g := r.greatestAt(p.label, pos); g != end {
			env.fail("update", "client %d accepts that version %d of %q is the greatest in entry %d, it is %d", c.id, end, p.label, pos, g)
		}
		for i, val := range vals {
			if !bytes.Equal(val, r.live[p.label][next+i].val) {
				env.fail("update", "client %d accepts the value %x of version %d of %q, it is %x", c.id, val, next+i, p.label, r.live[p.label][next+i].val)
			}
		}
	}
	if !d[pos-1] && pos-1 > lastUpdate {
		if g := r.greatestAt(p.label, pos-1); g != next-1 {
			env.fail("update", "client %d accepts that version %d of %q is the greatest in entry %d, it is %d", c.id, next-1, p.label, pos-1, g)
		}
	}
	for range vals {
		exp.upcoming = append(exp.upcoming, pos)
	}
	if r.rightmostDLE(n) < int64(pos) {
		c.looked(p.label, []uint64{pos}, end)
	}
	c.size = n
	c.inspect()
	return end + 1
}

// roundTrip is a request without any faults.
func (c *simClient) roundTrip(kind, label string, ver int, vals [][]byte) *pending {
	p := c.begin(kind, label, ver, vals)
	if p != nil {
		p.serve()
		p.deliver()
	}
	return p
}

func sortU64(x []uint64) []uint64 {
	sort.Slice(x, func(i, j int) bool { return x[i] < x[j] })
	return x
}
