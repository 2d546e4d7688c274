package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"math/rand/v2"
	"reflect"
	"regexp"
	"slices"
	"time"

	"github.com/Bren2010/katie/crypto/suites"
	"github.com/Bren2010/katie/db/memory"
	"github.com/Bren2010/katie/tree/transparency/managed"
	"github.com/Bren2010/katie/tree/transparency/structs"
	"github.com/Bren2010/katie/tree/transparency/wire"
)

// The operator workload: the service operator of a managed log signs what users
// want to have in the log. Several instances of it share a store, they crash,
// the store and the key fail, and the manager of the log is a recorder that may
// refuse anything.

type operator struct {
	env  *Env
	s    *Sched
	ks   keySet
	pub  *structs.PublicConfig
	tx   *memory.ManagedLogStore
	inst []*opInstance

	labels  [][]byte
	counter map[string]int
	signed  map[string][]byte // Value by label and version.
	tasks   map[string]*opTask
	sent    int
	served  int
}

// An opTask is the request that a user is making.
type opTask struct {
	name  string
	rng   *rand.Rand
	inst  *opInstance
	req   *structs.UpdateRequest
	vals  [][]byte
	ctx   context.Context
	given []opRange // Versions that the store has given out.
	fails bool      // The store or the key has failed.
	sub   *structs.ManagerUpdateRequest
	ch    chan wire.UpdateResponse
	err   error
	proxy *opProxy
}

type opRange struct {
	first, count int
	dead         bool // The operator was not told.
}

type opProxy struct {
	method   string
	req, res any
	err      error
	calls    int
}

// An opInstance is a process of the operator.
type opInstance struct {
	o    *operator
	dead bool
	ml   *managed.ManagedLog
}

type crashed struct{}

func genOperator(rng *rand.Rand, plan *Plan, tier string) {
	c := plan.Cfg
	c["suite"] = []int64{0, 0, 0, 0, 3, 3, 1, 2}[rng.IntN(8)]
	c["labels"] = 1 + rng.Int64N(4)
	c["users"] = 1 + rng.Int64N(6)
	c["instances"] = 1 + rng.Int64N(3)
	if rng.IntN(2) == 0 {
		c["preempt"] = []int64{3, 10, 50, 200}[rng.IntN(4)]
	}
	n := 10 + rng.IntN(50)
	if c["suite"] == 1 || c["suite"] == 2 {
		n = 12
	}
	for i := 0; i < n; i++ {
		k := pick(rng, map[string]int{"update": 60, "proxy": 12, "crash": 6, "new": 4})
		plan.Ops = append(plan.Ops, Op{K: k, A: rng.Int64N(16), B: rng.Int64N(16), C: rng.Int64N(8), S: rng.Uint64()})
	}
}

func runOperator(env *Env) {
	c := env.plan.Cfg
	o := &operator{
		env: env, ks: keysFor(c["suite"]), tx: memory.NewManagedLogStore(),
		counter: make(map[string]int), signed: make(map[string][]byte), tasks: make(map[string]*opTask),
	}
	o.pub = o.config(modeManaged)
	for i := int64(0); i < c["labels"]; i++ {
		o.labels = append(o.labels, []byte([]string{"a", "", "ab", "a\x00"}[i]))
	}
	o.refusals(env.rng)
	for range c["instances"] {
		o.start()
	}
	o.s = newSched(env)
	o.s.every = uint64(c["preempt"])
	users := int(c["users"])
	for u := range users {
		o.s.Go(fmt.Sprintf("u%d:", u), func() {
			for i, op := range env.plan.Ops {
				if i%users == u {
					o.step(fmt.Sprintf("u%d:", u), op)
				}
			}
		})
	}
	if !o.s.Run(time.Hour) {
		env.fail("liveness", "requests to the operator do not end")
	}
	env.add("versions-signed", int64(len(o.signed)))
	env.sig("c%d.%d.%d", c["suite"], c["users"], c["instances"])
}

func (o *operator) config(mode structs.DeploymentMode) *structs.PublicConfig {
	conf := structs.Config{
		Suite: o.ks.suite, Mode: mode, MaxAhead: 60_000, MaxBehind: 600_000, ReasonableMonitoringWindow: 10_000,
	}
	switch mode {
	case modeManaged:
		conf.LeafPublicKey = o.ks.leaf.Public()
	case modeAudited:
		conf.AuditorPublicKey, conf.MaxAuditorLag = o.ks.auditor.Public(), 1000
	}
	return (&structs.PrivateConfig{SignatureKey: o.ks.sig, VrfKey: o.ks.vrf, Config: conf}).Public()
}

// refusals starts operators that must not start.
func (o *operator) refusals(rng *rand.Rand) {
	bad := o.config([]structs.DeploymentMode{modeContact, modeAudited}[rng.IntN(2)])
	if rng.IntN(2) == 0 {
		bad.LeafPublicKey = o.ks.leaf.Public()
	}
	if _, err := managed.NewManagedLog(bad, nil, o.tx, o.ks.leaf); err == nil {
		o.env.fail("started", "an operator starts for a log that is not managed by someone else")
	}
	bad = o.config(modeManaged)
	bad.LeafPublicKey = nil
	if _, err := managed.NewManagedLog(bad, nil, o.tx, o.ks.leaf); err == nil {
		o.env.fail("started", "an operator starts for a log without a leaf key")
	}
	if _, err := managed.NewManagedLog(o.pub, nil, o.tx, o.ks.sig); err == nil {
		o.env.fail("started", "an operator starts with another key than the one users have")
	}
}

func (o *operator) start() *opInstance {
	in := &opInstance{o: o}
	ml, err := managed.NewManagedLog(o.pub, &opManager{in}, &opStore{in}, &opKey{in})
	if err != nil {
		o.env.fail("start", "an operator does not start: %v", err)
	}
	in.ml = ml
	o.inst = append(o.inst, in)
	return in
}

var taskName = regexp.MustCompile(`u\d+:`)

// gate is passed by the task that is running, unless its process has crashed.
func (in *opInstance) gate(what string) *opTask {
	o := in.o
	t := o.tasks[taskName.FindString(o.s.cur)]
	if t == nil {
		harnessFail("gate %q outside of a task (%q)", what, o.s.cur)
	}
	if t.inst != in {
		o.env.fail("mixed-up", "a request to one operator process is served by another")
	}
	o.env.gate(t.name + " " + what)
	o.s.running()
	if in.dead {
		panic(crashed{})
	}
	return t
}

func (o *operator) step(name string, op Op) {
	env := o.env
	rng := newRand(op.S)
	o.s.running()
	switch op.K {
	case "crash":
		in := o.inst[int(op.A)%len(o.inst)]
		if !in.dead {
			in.dead = true
			env.count("fault:operator-crash")
		}
		return
	case "new":
		if len(o.inst) < 6 {
			o.start()
		}
		return
	}
	var alive []*opInstance
	for _, in := range o.inst {
		if !in.dead {
			alive = append(alive, in)
		}
	}
	if len(alive) == 0 {
		alive = append(alive, o.start())
	}
	t := &opTask{name: name, rng: rng, inst: alive[rng.IntN(len(alive))]}
	type ctxKey struct{}
	ctx, cancel := context.WithCancel(context.WithValue(context.Background(), ctxKey{}, t))
	defer cancel()
	t.ctx = ctx
	o.tasks[name] = t
	died := func() (died bool) {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(crashed); !ok {
					panic(r)
				}
				died = true
			}
		}()
		env.gate(name + " begin")
		o.s.running()
		if t.inst.dead {
			return true
		}
		if op.K == "proxy" {
			o.proxy(t, op)
		} else {
			o.update(t, op)
		}
		return false
	}()
	delete(o.tasks, name)
	if died {
		env.count("requests-lost")
		env.logf("%s is lost", name)
		return
	}
}

// inside has the operator serve a request, which may be interrupted anywhere.
func (o *operator) inside(t *opTask, f func()) {
	o.served++
	o.env.inside(fmt.Sprintf("%s#%d", t.name, o.served), f)
}

func (o *operator) update(t *opTask, op Op) {
	env, rng := o.env, t.rng
	t.req = &structs.UpdateRequest{Label: bytes.Clone(o.labels[int(op.A)%len(o.labels)])}
	tooLong := rng.IntN(25) == 0
	if tooLong {
		t.req.Label = bytes.Repeat([]byte{'x'}, 256)
	}
	if rng.IntN(3) > 0 {
		t.req.Last = p64(rng.Uint64N(100))
	}
	if rng.IntN(3) > 0 {
		// It does not have to be what the operator knows.
		t.req.GreatestVersion = p64(uint32(rng.IntN(20)))
	}
	for range []int{0, 1, 1, 1, 2, 3, 9}[rng.IntN(7)] {
		val := randVal(rng)
		t.vals = append(t.vals, val)
		t.req.Values = append(t.req.Values, structs.LabelValue{Value: bytes.Clone(val)})
	}
	orig := *t.req
	var ch <-chan wire.UpdateResponse
	var err error
	o.inside(t, func() { ch, err = t.inst.ml.Update(t.ctx, t.req) })
	env.logf("%s update %q with %d values -> %v (given %v)", t.name, t.req.Label, len(t.vals), err, t.given)
	env.sig("%s%v%v%v", t.name, err == nil, t.fails, t.sub != nil)
	switch {
	case t.fails:
		if err == nil {
			env.fail("ignored-failure", "the operator answers a request although its storage or its key has failed")
		}
	case tooLong && len(t.vals) > 0:
		if err == nil || t.sub != nil {
			env.fail("too-long", "the operator signs versions of a label that is too long")
		}
	case t.sub == nil:
		env.fail("not-submitted", "values for %q were not submitted: %v", orig.Label, err)
	case (err == nil) != (t.err == nil):
		env.fail("other-result", "the manager answers %v, but the user is told %v", t.err, err)
	case err == nil && (ch == nil || reflect.ValueOf(ch).Pointer() != reflect.ValueOf(t.ch).Pointer()):
		// The stream may be passed on by other means.
		o.stream(t, ch)
	}
	if err == nil {
		env.count("accepted")
	}
	// The request belongs to the user.
	if !bytes.Equal(t.req.Label, orig.Label) || !slices.EqualFunc(t.req.Values, t.vals, func(a structs.LabelValue, b []byte) bool { return bytes.Equal(a.Value, b) }) {
		env.fail("changed-request", "the operator changes the user's request")
	}
}

func (o *operator) stream(t *opTask, ch <-chan wire.UpdateResponse) {
	want := wire.UpdateResponse{Out: &structs.UpdateResponse{Position: 7}}
	go func() { t.ch <- want; close(t.ch) }()
	var got []wire.UpdateResponse
	for r := range ch {
		got = append(got, r)
	}
	if len(got) != 1 || !reflect.DeepEqual(got[0], want) {
		o.env.fail("other-result", "the manager's responses are not passed on to the user")
	}
}

var (
	errManager = errors.New("simulated refusal by the manager")
	errKey     = errors.New("simulated failure of the key")
)

// opStore is the operator's view of its storage.
type opStore struct{ in *opInstance }

func (s *opStore) IncrementGreatestVersion(label []byte, count int) (int, error) {
	t := s.in.gate("store")
	o := s.in.o
	if t.req == nil || !bytes.Equal(label, t.req.Label) || count < 0 || count > len(t.vals) {
		o.env.fail("wrong-increment", "the operator asks for %d versions of %q to serve a request with %d values for %q", count, label, len(t.vals), t.req.Label)
	}
	fault := t.rng.IntN(12)
	if fault == 0 {
		t.fails = true
		o.env.count("fault:store")
		return 0, errStoreWrite
	}
	prev, err := o.tx.IncrementGreatestVersion(label, count)
	must(err)
	if want, ok := o.counter[string(label)]; !ok && prev != -1 || ok && prev != want {
		o.env.fail("counter", "the greatest version of %q is %d, the store says %d", label, want, prev)
	}
	o.counter[string(label)] = prev + count
	r := opRange{first: prev + 1, count: count}
	if fault == 1 {
		t.fails = true
		o.env.count("fault:store-lost-answer")
		r.dead = true
		t.given = append(t.given, r)
		return []int{0, prev}[t.rng.IntN(2)], errStoreWrite
	}
	t.given = append(t.given, r)
	s.in.gate("stored")
	return prev, nil
}

// opKey is the operator's signing key.
type opKey struct{ in *opInstance }

func (k *opKey) Public() suites.SigningPublicKey { return k.in.o.ks.leaf.Public() }

func (k *opKey) Sign(msg []byte) ([]byte, error) {
	t := k.in.gate("sign")
	o := k.in.o
	if t.req == nil {
		o.env.fail("signed-unasked", "the operator signs something while it forwards another request")
	}
	msg = bytes.Clone(msg)
	for _, r := range t.given {
		for i := range r.count {
			for _, val := range t.vals {
				tbs := refUpdateTBS(o.pub, t.req.Label, uint32(r.first+i), val)
				if !bytes.Equal(tbs, msg) {
					continue
				}
				if r.dead {
					o.env.fail("signed-unasked", "the operator signs version %d of %q, although its storage failed", r.first+i, t.req.Label)
				}
				key := fmt.Sprintf("%d:%s", r.first+i, t.req.Label)
				if old, ok := o.signed[key]; ok && !bytes.Equal(old, val) {
					o.env.fail("equivocation", "the operator signs %x and %x as version %d of %q", old, val, r.first+i, t.req.Label)
				}
				o.signed[key] = val
				if t.rng.IntN(20) == 0 {
					t.fails = true
					o.env.count("fault:key")
					return nil, errKey
				}
				return o.ks.leaf.Sign(msg)
			}
		}
	}
	o.env.fail("signed-unasked", "the operator signs something else than the values of the request with versions that it was given (%v): %x", t.given, msg)
	return nil, nil
}

// opManager is the manager of the log, who is not trusted.
type opManager struct{ in *opInstance }

func (m *opManager) Update(context.Context, *structs.UpdateRequest) (<-chan wire.UpdateResponse, error) {
	m.in.o.env.fail("unsigned", "the operator submits values without signatures")
	return nil, nil
}

func (m *opManager) ManagerUpdate(ctx context.Context, req *structs.ManagerUpdateRequest) (<-chan wire.UpdateResponse, error) {
	t := m.in.gate("submit")
	o, env := m.in.o, m.in.o.env
	if t.req == nil {
		env.fail("submitted-unasked", "the operator submits something that nobody asked for")
	}
	if t.sub != nil {
		env.fail("submitted-twice", "the operator submits a request twice")
	}
	if t.fails {
		env.fail("ignored-failure", "the operator submits a request although its storage or its key has failed")
	}
	if !bytes.Equal(req.Label, t.req.Label) || !reflect.DeepEqual(req.Last, t.req.Last) || !reflect.DeepEqual(req.GreatestVersion, t.req.GreatestVersion) || len(req.Values) != len(t.vals) {
		env.fail("other-request", "the operator submits another request than the user's")
	}
	if len(t.vals) > 0 {
		total := 0
		for _, r := range t.given {
			total += r.count
		}
		if total != len(t.vals) || int(req.SignedVersion) != t.given[0].first {
			env.fail("other-versions", "the operator submits %d values from version %d on after it was given %v", len(t.vals), req.SignedVersion, t.given)
		}
	}
	for i, val := range req.Values {
		if !bytes.Equal(val.Value, t.vals[i]) {
			env.fail("other-request", "the operator submits other values than the user's, or in another order")
		}
		tbs := refUpdateTBS(o.pub, req.Label, req.SignedVersion+uint32(i), val.Value)
		if !o.pub.LeafPublicKey.Verify(tbs, val.Signature) {
			env.fail("wrong-signature", "the operator submits version %d of %q with a wrong signature", req.SignedVersion+uint32(i), req.Label)
		}
	}
	t.sub = req
	env.count("submitted")
	o.sent++
	if t.rng.IntN(6) == 0 {
		t.err = errManager
		env.count("fault:manager-refuses")
		return nil, errManager
	}
	m.in.gate("submitted")
	t.ch = make(chan wire.UpdateResponse)
	return t.ch, nil
}

// proxy makes a request that the operator only forwards.
func (o *operator) proxy(t *opTask, op Op) {
	p := &opProxy{}
	t.proxy = p
	if t.rng.IntN(3) == 0 {
		p.err = errManager
	}
	label := o.labels[int(op.A)%len(o.labels)]
	last := p64(t.rng.Uint64N(50))
	fth := structs.FullTreeHead{TreeHead: &structs.TreeHead{TreeSize: 1 + t.rng.Uint64N(100)}}
	var (
		got any
		err error
		ml  = t.inst.ml
	)
	o.inside(t, func() {
		switch op.C % 4 {
		case 0:
			p.method = "Search"
			req := &structs.SearchRequest{Label: label, Last: last}
			p.req, p.res = req, &structs.SearchResponse{FullTreeHead: fth}
			got, err = ml.Search(t.ctx, req)
		case 1:
			p.method = "ContactMonitor"
			req := &structs.ContactMonitorRequest{Label: label, Last: last}
			p.req, p.res = req, &structs.ContactMonitorResponse{FullTreeHead: fth}
			got, err = ml.ContactMonitor(t.ctx, req)
		case 2:
			p.method = "OwnerInit"
			req := &structs.OwnerInitRequest{Label: label, Last: last}
			p.req, p.res = req, &structs.OwnerInitResponse{FullTreeHead: fth}
			got, err = ml.OwnerInit(t.ctx, req)
		case 3:
			p.method = "OwnerMonitor"
			req := &structs.OwnerMonitorRequest{Label: label, Last: last}
			p.req, p.res = req, &structs.OwnerMonitorResponse{FullTreeHead: fth}
			got, err = ml.OwnerMonitor(t.ctx, req)
		}
	})
	if p.calls != 1 {
		o.env.fail("not-forwarded", "%s was forwarded %d times", p.method, p.calls)
	}
	if (err == nil) != (p.err == nil) || err == nil && !reflect.DeepEqual(got, p.res) {
		o.env.fail("other-result", "%s returns something else than the manager did", p.method)
	}
	o.env.count("forwarded")
}

func forward[Req, Res any](m *opManager, ctx context.Context, method string, req *Req) (*Res, error) {
	t := m.in.gate("forward")
	env := m.in.o.env
	if t.proxy == nil || t.proxy.method != method || !reflect.DeepEqual(t.proxy.req, any(req)) {
		env.fail("other-request", "the operator makes a %s request that nobody asked for", method)
	}
	t.proxy.calls++
	if t.proxy.err != nil {
		return nil, t.proxy.err
	}
	m.in.gate("forwarded")
	return t.proxy.res.(*Res), nil
}

func (m *opManager) Search(ctx context.Context, req *structs.SearchRequest) (*structs.SearchResponse, error) {
	return forward[structs.SearchRequest, structs.SearchResponse](m, ctx, "Search", req)
}
func (m *opManager) ContactMonitor(ctx context.Context, req *structs.ContactMonitorRequest) (*structs.ContactMonitorResponse, error) {
	return forward[structs.ContactMonitorRequest, structs.ContactMonitorResponse](m, ctx, "ContactMonitor", req)
}
func (m *opManager) OwnerInit(ctx context.Context, req *structs.OwnerInitRequest) (*structs.OwnerInitResponse, error) {
	return forward[structs.OwnerInitRequest, structs.OwnerInitResponse](m, ctx, "OwnerInit", req)
}
func (m *opManager) OwnerMonitor(ctx context.Context, req *structs.OwnerMonitorRequest) (*structs.OwnerMonitorResponse, error) {
	return forward[structs.OwnerMonitorRequest, structs.OwnerMonitorResponse](m, ctx, "OwnerMonitor", req)
}
