package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"maps"
	"math/rand/v2"
	"slices"
	"time"

	"github.com/Bren2010/katie/db"
	"github.com/Bren2010/katie/db/memory"
	"github.com/Bren2010/katie/tree/prefix"
	"github.com/Bren2010/katie/tree/transparency"
	"github.com/Bren2010/katie/tree/transparency/algorithms"
	"github.com/Bren2010/katie/tree/transparency/auditor"
	"github.com/Bren2010/katie/tree/transparency/managed"
	"github.com/Bren2010/katie/tree/transparency/structs"
)

const (
	modeContact = 1
	modeManaged = 2
	modeAudited = 3
)

// World is a deployment: a log server with its storage, the third party of its
// mode, and the reference model.
type World struct {
	env  *Env
	ks   keySet
	cfg  structs.PrivateConfig
	pub  *structs.PublicConfig
	kind int64 // 0: LevelDB on the simulated disk; 1: the in-memory store.

	disk  *simDisk
	path  string
	tx    *store
	flt   *storeFaults
	tree  *transparency.Tree
	queue chan transparency.UpdateRequest

	ref *Ref

	key    *flakyKey // The signing key of the log.
	audKey *flakyKey // The signing key of the auditor.

	audStore *auditStore
	aud      *auditor.Auditor
	audHead  *structs.AuditorTreeHead // The head that the server has.
	audNext  *structs.AuditorTreeHead // The head that is being stored.
	audLog   []*structs.AuditorUpdate // All updates that were produced.
	audAt    int                      // How many of them the auditor has processed.

	mls *managedStore

	// Mutations may fail because of faults that are injected on purpose. faulty
	// decides, and is told about, those that do.
	faulty  func(m *attempt, err error) bool
	pending *attempt

	auditorLies bool // Auditor tree heads may have any timestamp.
	auditLost   bool // The output of an applied mutation is lost.

	skew        time.Duration // How wrong the server's clock is.
	unsequenced bool          // An update was not accepted.

	sticky *transparency.Tree // Serves all requests.

	// Some servers keep an instance for as long as the log does not change, or
	// answer with the one that changes the log.
	reuse bool
	kept  *transparency.Tree
	keptB keptFor
	reads uint64

	vast     *vast
	secrets  *secrets
	openings map[string]string // Whose they are.
}

// An attempt is a mutation that was requested from the server.
type attempt struct {
	add    []transparency.LabelValue
	remove []string
	now    uint64
	vers   map[string][]byte // What it stored for every version.
}

var worldCount int

func newWorld(env *Env) *World {
	c := env.plan.Cfg
	get := func(k string, def int64) int64 {
		if v, ok := c[k]; ok {
			return v
		}
		return def
	}
	w := &World{env: env, ks: keysFor(get("suite", 0)), kind: get("store", 0)}
	conf := structs.Config{
		Suite:                      w.ks.suite,
		Mode:                       structs.DeploymentMode(get("mode", modeContact)),
		MaxAhead:                   uint64(get("ahead", 60_000)),
		MaxBehind:                  uint64(get("behind", 600_000)),
		ReasonableMonitoringWindow: uint64(get("rmw", 10_000)),
		MaximumLifetime:            uint64(get("life", 0)),
	}
	switch conf.Mode {
	case modeManaged:
		conf.LeafPublicKey = w.ks.leaf.Public()
	case modeAudited:
		conf.MaxAuditorLag = uint64(get("lag", 60_000))
		conf.AuditorStartPos = uint64(get("audstart", 0))
		conf.AuditorPublicKey = w.ks.auditor.Public()
	}
	w.key = &flakyKey{SigningPrivateKey: w.ks.sig}
	w.cfg = structs.PrivateConfig{SignatureKey: w.key, VrfKey: w.ks.vrf, Config: conf}
	w.pub = w.cfg.Public()
	w.ref = newRef(conf.ReasonableMonitoringWindow, conf.MaximumLifetime)
	w.flt = &storeFaults{readAt: -1, writeAt: -1}
	w.queue = make(chan transparency.UpdateRequest)
	w.openings = make(map[string]string)
	if get("private", 0) == 1 {
		w.secrets = newSecrets()
	}
	longValues = w.secrets != nil
	largeTree = 1 << 20
	if get("vast", 0) == 1 {
		largeTree = 1 << 62
	}
	worldCount++
	w.path = fmt.Sprintf("/sim/%d", worldCount)
	if w.kind == 0 {
		w.disk = newSimDisk(env)
		simDisks[w.path] = w.disk
		env.cleanup(func() { delete(simDisks, w.path) })
		env.cleanup(closeDBs)
	}
	w.mls = &managedStore{inner: memory.NewManagedLogStore(), failAt: -1}
	w.audStore = &auditStore{env: env, failAt: -1}
	w.openStore()
	must(w.openTree())
	if conf.Mode == modeAudited {
		must(w.openAuditor())
	}
	env.sig("m%d.k%d.s%d", conf.Mode, w.kind, get("suite", 0))
	return w
}

func (w *World) openStore() {
	if w.kind == 1 {
		if w.tx == nil {
			w.tx = &store{w: w, inner: memory.NewTransparencyStore()}
		}
		return
	}
	inner, err := db.NewLDBTransparencyStore(w.path)
	must(err)
	w.tx = &store{w: w, inner: inner}
}

func (w *World) openTree() error {
	tree, err := transparency.NewTree(w.cfg, w.tx, w.queue)
	if err != nil {
		return err
	}
	w.tree = tree
	return nil
}

func (w *World) openAuditor() error {
	w.audKey = &flakyKey{SigningPrivateKey: w.ks.auditor}
	a, err := auditor.NewAuditor(w.pub, w.audKey, w.audStore)
	if err != nil {
		return err
	}
	w.aud = a
	return nil
}

// keptFor is what a server instance was started with.
type keptFor struct {
	tx   *store
	tree *transparency.Tree
	n    uint64
	head *structs.AuditorTreeHead
}

// reader returns a server instance for one request, as an application may create
// it. The log may change while an update is served.
func (w *World) reader(update bool) (*transparency.Tree, error) {
	if w.sticky != nil {
		return w.sticky, nil
	}
	if w.reuse {
		w.reads++
		seed := w.env.plan.Seed
		how := mix(seed, 991) % 5
		if how == 4 {
			how = mix(seed, 992+w.reads) % 4
		}
		now := keptFor{w.tx, w.tree, w.ref.n(), w.audHead}
		switch {
		case how == 2 && w.kept != nil && w.keptB == now:
			w.env.count("server-instance-reused")
			return w.kept, nil
		case how == 2:
			tree, err := transparency.NewTree(w.cfg, w.tx.Clone(), w.queue)
			if err == nil {
				w.kept, w.keptB = tree, now
			}
			return tree, err
		case how == 3 && !update && w.cfg.Mode != modeAudited:
			w.env.count("served-by-sequencer")
			return w.tree, nil
		}
	}
	return transparency.NewTree(w.cfg, w.tx.Clone(), w.queue)
}

// ---- The store of the server, with gates and faults.

type storeFaults struct {
	reads, writes   int
	readAt, readFor int
	writeAt         int // A put, delete or commit fails.
	writeErr        error
	commitFail      bool
	clones          bool // Only reads through clones of the store count.
	tamper          func(kind, key string, val []byte) []byte
	hit             bool
}

type store struct {
	w     *World
	inner db.TransparencyStore
	ro    bool
	name  string // Of the task that it belongs to.
}

var errStoreRead = errors.New("simulated store read error")
var errServerDown = errors.New("server crashed")
var errStoreWrite = errors.New("simulated store write error")

func (s *store) read(op string) error {
	s.w.env.gate(s.name + op)
	f := s.w.flt
	if f.clones && !s.ro {
		return nil
	}
	f.reads++
	if f.readAt >= 0 && f.reads > f.readAt && f.reads <= f.readAt+f.readFor {
		s.w.env.count("fault:store-read-error")
		f.hit = true
		return errStoreRead
	}
	return nil
}

func (s *store) write(op string) error {
	if s.ro {
		s.w.env.fail("readonly-write", "%s through a read-only clone of the store", op)
	}
	s.w.env.gate(s.name + op)
	f := s.w.flt
	f.writes++
	if f.writeAt >= 0 && f.writes == f.writeAt+1 {
		s.w.env.count("fault:store-write-error")
		f.hit = true
		return errStoreWrite
	}
	return nil
}

func (s *store) tamper(kind, key string, val []byte) []byte {
	if t := s.w.flt.tamper; t != nil {
		return t(kind, key, val)
	}
	return val
}

func (s *store) Clone() db.TransparencyStore {
	if s.w.kind == 1 {
		return &store{w: s.w, inner: s.inner, ro: true}
	}
	return &store{w: s.w, inner: s.inner.Clone(), ro: true}
}

func (s *store) GetTreeHead() ([]byte, []byte, error) {
	if err := s.read("get-tree-head"); err != nil {
		return nil, nil, err
	}
	a, b, err := s.inner.GetTreeHead()
	if err == nil {
		a, b = s.tamper("head", "", a), s.tamper("auditor", "", b)
	}
	return a, b, err
}

func (s *store) PutTreeHead(raw []byte) error {
	if err := s.write("put-tree-head"); err != nil {
		return err
	}
	return s.inner.PutTreeHead(raw)
}

func (s *store) PutAuditorTreeHead(raw []byte) error {
	if err := s.write("put-auditor"); err != nil {
		return err
	}
	return s.inner.PutAuditorTreeHead(raw)
}

func (s *store) BatchGetIndex(labels [][]byte) ([][]byte, error) {
	if err := s.read("get-index"); err != nil {
		return nil, err
	}
	out, err := s.inner.BatchGetIndex(labels)
	if err == nil {
		for i := range out {
			out[i] = s.tamper("index", string(labels[i]), out[i])
		}
	}
	return out, err
}

func (s *store) PutIndex(label, index []byte) error {
	if err := s.write("put-index"); err != nil {
		return err
	}
	return s.inner.PutIndex(label, index)
}

func (s *store) DeleteIndex(label []byte) error {
	if err := s.write("delete-index"); err != nil {
		return err
	}
	return s.inner.DeleteIndex(label)
}

func (s *store) GetVersion(label []byte, ver uint32) ([]byte, error) {
	if err := s.read("get-version"); err != nil {
		return nil, err
	}
	out, err := s.inner.GetVersion(label, ver)
	if err == nil {
		out = s.tamper("version", fmt.Sprintf("%s:%d", label, ver), out)
	}
	return out, err
}

func (s *store) PutVersion(label []byte, ver uint32, data []byte) error {
	if err := s.write("put-version"); err != nil {
		return err
	}
	if a := s.w.pending; a != nil {
		a.vers[fmt.Sprintf("%s:%d", label, ver)] = bytes.Clone(data)
	}
	return s.inner.PutVersion(label, ver, data)
}

func (s *store) DeleteVersion(label []byte, ver uint32) error {
	if err := s.write("delete-version"); err != nil {
		return err
	}
	return s.inner.DeleteVersion(label, ver)
}

func (s *store) BatchGet(keys []uint64) (map[uint64][]byte, error) {
	if err := s.read("get-entries"); err != nil {
		return nil, err
	}
	out, err := s.inner.BatchGet(keys)
	if err == nil {
		out = s.w.makeEntries(keys, out)
	}
	return tamperMap(s, "entry", out), err
}

func (s *store) Put(key uint64, data []byte) error {
	if err := s.write("put-entry"); err != nil {
		return err
	}
	return s.inner.Put(key, data)
}

func (s *store) Delete(key uint64) error {
	if err := s.write("delete-entry"); err != nil {
		return err
	}
	return s.inner.Delete(key)
}

func (s *store) LogStore() db.LogStore       { return &logStore{s, s.inner.LogStore()} }
func (s *store) PrefixStore() db.PrefixStore { return &prefixStore{s, s.inner.PrefixStore()} }

func (s *store) Commit() error {
	if err := s.write("commit"); err != nil {
		return err
	}
	err := s.inner.Commit()
	if v := s.w.vast; v != nil {
		if err == nil {
			maps.Copy(v.fresh, v.pending)
		}
		clear(v.pending)
	}
	return err
}

func tamperMap[K uint64 | string](s *store, kind string, m map[K][]byte) map[K][]byte {
	if s.w.flt.tamper == nil || m == nil {
		return m
	}
	keys := make(map[string]K)
	for k := range m {
		keys[fmt.Sprint(k)] = k
	}
	for _, str := range sortedKeys(keys) {
		k := keys[str]
		v := s.tamper(kind, str, m[k])
		if v == nil {
			delete(m, k)
		} else {
			m[k] = v
		}
	}
	return m
}

type logStore struct {
	s     *store
	inner db.LogStore
}

func (l *logStore) BatchGet(keys []uint64) (map[uint64][]byte, error) {
	if err := l.s.read("get-log"); err != nil {
		return nil, err
	}
	out, err := l.inner.BatchGet(keys)
	if err == nil {
		out = l.s.w.makeChunks(keys, out)
	}
	return tamperMap(l.s, "log", out), err
}
func (l *logStore) Put(key uint64, value []byte) error {
	if err := l.s.write("put-log"); err != nil {
		return err
	}
	if v := l.s.w.vast; v != nil {
		v.pending[key] = true
	}
	return l.inner.Put(key, value)
}
func (l *logStore) Delete(key uint64) error {
	if err := l.s.write("delete-log"); err != nil {
		return err
	}
	return l.inner.Delete(key)
}

type prefixStore struct {
	s     *store
	inner db.PrefixStore
}

func (p *prefixStore) BatchGet(keys []string) (map[string][]byte, error) {
	if err := p.s.read("get-prefix"); err != nil {
		return nil, err
	}
	out, err := p.inner.BatchGet(keys)
	if err == nil {
		out, err = p.s.w.makeTiles(keys, out, p.inner.BatchGet)
	}
	return tamperMap(p.s, "prefix", out), err
}
func (p *prefixStore) Put(key string, value []byte) error {
	if err := p.s.write("put-prefix"); err != nil {
		return err
	}
	return p.inner.Put(key, value)
}
func (p *prefixStore) Delete(key string) error {
	if err := p.s.write("delete-prefix"); err != nil {
		return err
	}
	return p.inner.Delete(key)
}

// auditStore is the auditor's storage.
type auditStore struct {
	env    *Env
	data   []byte
	puts   int
	failAt int  // The n-th put fails...
	stored bool // ... after its data was stored.
}

func (a *auditStore) GetState() ([]byte, error) { return bytes.Clone(a.data), nil }
func (a *auditStore) PutState(raw []byte) error {
	a.env.gate("auditor-put")
	a.puts++
	if a.failAt == a.puts {
		a.env.count("fault:auditor-store-error")
		if a.stored {
			a.data = bytes.Clone(raw)
		}
		return errStoreWrite
	}
	a.data = bytes.Clone(raw)
	return nil
}

// managedStore is the service operator's storage.
type managedStore struct {
	inner  db.ManagedLogStore
	calls  int
	failAt int
}

func (m *managedStore) IncrementGreatestVersion(label []byte, count int) (int, error) {
	m.calls++
	if m.calls == m.failAt {
		return 0, errStoreWrite
	}
	return m.inner.IncrementGreatestVersion(label, count)
}

// ---- Mutations.

func (w *World) labelValue(label string, val []byte) transparency.LabelValue {
	lv := transparency.LabelValue{Label: []byte(label), Value: structs.UpdateValue{Value: val}}
	return lv
}

// signed adds the operator's signatures to values that the application inserts
// by itself. `next` is the version that the first one is going to have.
func (w *World) signed(label string, vals [][]byte, next int) []transparency.LabelValue {
	var out []transparency.LabelValue
	for i, val := range vals {
		lv := w.labelValue(label, val)
		if w.cfg.Mode == modeManaged {
			lv.Value.Signature = w.leafSig(label, next+i, val)
		}
		out = append(out, lv)
	}
	return out
}

func (w *World) leafSig(label string, ver int, val []byte) []byte {
	sig, err := w.ks.leaf.Sign(refUpdateTBS(w.pub, []byte(label), uint32(ver), val))
	must(err)
	return sig
}

// vrfOf computes the VRF output of a version.
func (w *World) vrfOf(label string, ver int) []byte {
	out, _ := w.ks.vrf.Prove(refVrfInput([]byte(label), uint32(ver)))
	return out
}

// apply records a mutation that was accepted, and checks its output and the new
// tree head against the model.
func (w *World) apply(add []transparency.LabelValue, remove []string, upd *structs.AuditorUpdate, now uint64) {
	w.applyModel(add, remove, upd, now)
	w.checkHead()
}

func (w *World) applyModel(add []transparency.LabelValue, remove []string, upd *structs.AuditorUpdate, now uint64) {
	env, r := w.env, w.ref
	n := r.n()
	if upd == nil {
		env.fail("mutate-output", "a mutation that was accepted returned nothing for the auditor")
	}
	if upd.Timestamp != now {
		env.fail("timestamp", "log entry %d has timestamp %d, but the clock says %d", n, upd.Timestamp, now)
	}
	coms := make(map[string][]byte)
	for _, e := range upd.Added {
		coms[string(e.VrfOutput)] = e.Commitment
	}
	before := make(map[string][]byte, len(r.leaves))
	for k, v := range r.leaves {
		before[k] = v
	}
	touched := make(map[string]bool)
	removed := 0
	for _, label := range dedupStrings(remove) {
		for _, v := range r.live[label] {
			if !bytes.Equal(r.leaves[string(v.vrf)], v.com) {
				harnessFail("model lost a leaf")
			}
			delete(r.leaves, string(v.vrf))
			touched[string(v.vrf)] = true
			removed++
			v.gone, v.goneAt = true, n
			r.past[label] = append(r.past[label], v)
		}
		delete(r.live, label)
	}
	for _, lv := range add {
		label := string(lv.Label)
		if _, ok := r.live[label]; !ok && !r.deleted(label) {
			r.order = append(r.order, label)
		}
		ver := len(r.live[label])
		vrf := w.vrfOf(label, ver)
		com, ok := coms[string(vrf)]
		if !ok {
			env.fail("mutate-output", "version %d of %q was not added to log entry %d", ver, label, n)
		}
		r.live[label] = append(r.live[label], &refVer{ver: ver, val: lv.Value.Value, pos: n, vrf: vrf, com: com})
		r.leaves[string(vrf)] = com
		touched[string(vrf)] = true
	}
	if len(upd.Added) != len(add) || len(upd.Removed) != removed {
		env.fail("mutate-output", "log entry %d has %d additions and %d removals instead of %d and %d", n, len(upd.Added), len(upd.Removed), len(add), removed)
	}
	if removed > 0 && r.collapse == 0 && refCollapses(before, r.leaves, touched) {
		r.collapse = n + 1
	}
	r.ts = append(r.ts, now)
	r.roots = append(r.roots, refPrefixRoot(r.leaves))
	r.adds = append(r.adds, upd.Added)
	r.removes = append(r.removes, upd.Removed)
	w.audLog = append(w.audLog, upd)
	env.add("versions", int64(len(add)))
	env.count("entries")
}

func dedupStrings(in []string) []string {
	seen := make(map[string]bool)
	var out []string
	for _, s := range in {
		if !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	return out
}

// recommit computes the commitments of an attempted mutation from what it
// stored, and the output that it would have had.
func (w *World) recommit(a *attempt) *structs.AuditorUpdate {
	upd := &structs.AuditorUpdate{Timestamp: a.now}
	cnt := make(map[string]int)
	removed := make(map[string]bool)
	for _, l := range dedupStrings(a.remove) {
		removed[l] = true
		for _, v := range w.ref.live[l] {
			upd.Removed = append(upd.Removed, prefix.Entry{VrfOutput: v.vrf, Commitment: v.com})
		}
	}
	for _, lv := range a.add {
		l := string(lv.Label)
		if _, ok := cnt[l]; !ok {
			if !removed[l] {
				cnt[l] = len(w.ref.live[l])
			} else {
				cnt[l] = 0
			}
		}
		ver := cnt[l]
		cnt[l]++
		raw := a.vers[fmt.Sprintf("%s:%d", l, ver)]
		size := w.pub.Suite.CommitmentOpeningSize()
		if len(raw) < size {
			w.env.fail("unstored", "nothing was stored for version %d of %q", ver, l)
		}
		w.keepSecrets(l, ver, raw[:size], lv.Value.Value)
		upd.Added = append(upd.Added, prefix.Entry{VrfOutput: w.vrfOf(l, ver), Commitment: w.commit(l, ver, raw[:size], lv.Value)})
	}
	return upd
}

// commit computes a commitment.
func (w *World) commit(label string, ver int, opening []byte, val structs.UpdateValue) []byte {
	return mac(refCommitKey(w.pub.Suite), opening, refCommitBody([]byte(label), uint32(ver), val))
}

// checkHead verifies that the server's tree head is a signature over exactly
// the contents of the model.
func (w *World) checkHead() {
	th := w.tree.TreeHead()
	n := w.ref.n()
	if n == 0 {
		if th != nil {
			w.env.fail("head", "an empty log has a tree head of size %d", th.TreeSize)
		}
		return
	}
	if th == nil || th.TreeSize != n {
		w.env.fail("head", "log of size %d has tree head %v", n, th)
	}
	if why := w.verifyHead(th); why != "" {
		w.env.fail("head", "%s", why)
	}
}

func (w *World) verifyHead(th *structs.TreeHead) string {
	tbs := refHeadTBS(w.pub, th.TreeSize, w.ref.logHash(0, th.TreeSize))
	if !w.ks.sig.Public().Verify(tbs, th.Signature) {
		return fmt.Sprintf("tree head of size %d is not a signature over the log's contents", th.TreeSize)
	}
	return ""
}

// resync sets the operator's counters to what the log has. The operator's
// counter does not follow updates that fail.
func (w *World) resync() {
	if w.cfg.Mode != modeManaged {
		return
	}
	w.mls.inner = memory.NewManagedLogStore()
	for _, l := range w.ref.order {
		if n := len(w.ref.live[l]); n > 0 {
			_, err := w.mls.inner.IncrementGreatestVersion([]byte(l), n)
			must(err)
		}
	}
}

func nowMs() uint64 { return uint64(time.Now().UnixMilli()) }

// mayRemove tells whether the deletion of a label is allowed in the next entry.
func (w *World) mayRemove(label string, now uint64) bool {
	r := w.ref
	vs := r.live[label]
	if len(vs) == 0 {
		return true
	}
	r.ts = append(r.ts, now)
	prev := r.previousDLE(r.n())
	r.ts = r.ts[:len(r.ts)-1]
	return prev >= 0 && int64(vs[len(vs)-1].pos) <= prev
}

// mutate performs a mutation on the server and checks its outcome. It returns
// false if it was rejected.
func (w *World) mutate(add []transparency.LabelValue, remove []string) bool {
	env, r := w.env, w.ref
	now := uint64(time.Now().Add(w.skew - clockOffset).UnixMilli())
	want := true
	if n := r.n(); n > 0 && now < r.ts[r.ix(n-1)] {
		want = false
	}
	var rm [][]byte
	for _, l := range remove {
		rm = append(rm, []byte(l))
		if want && !w.mayRemove(l, now) {
			want = false
		}
	}
	for _, a := range add {
		if len(a.Label) > 255 {
			want = false // It can not be encoded.
		}
	}
	w.pending = &attempt{add, remove, now, make(map[string][]byte)}
	var upd *structs.AuditorUpdate
	var err error
	withOffset(w.skew, func() {
		env.inside("mutate", func() { upd, err = w.tree.Mutate(add, rm) })
	})
	env.logf("mutate add=%d remove=%v now=%d -> %v", len(add), remove, now, err)
	if err != nil {
		if want && w.faulty != nil && w.faulty(w.pending, err) {
			env.count("failed-mutations")
			return false
		}
		if want {
			env.fail("mutate", "a mutation was rejected that should not be: %v", err)
		}
		env.count("rejected-mutations")
		w.checkHead()
		return false
	}
	if !want {
		env.fail("mutate", "a mutation was accepted that should have been rejected (remove=%v now=%d %s)", remove, now, r.dump())
	}
	w.checkCommitments(w.pending, upd)
	w.apply(add, remove, upd, now)
	env.count("decided")
	return true
}

func byVrfOutput(a, b prefix.Entry) int { return bytes.Compare(a.VrfOutput, b.VrfOutput) }

// checkCommitments verifies that what a mutation commits to is exactly what it
// stored, and that every version has an opening of its own.
func (w *World) checkCommitments(a *attempt, upd *structs.AuditorUpdate) {
	if upd == nil {
		return
	}
	coms := make(map[string][]byte)
	for _, e := range upd.Added {
		coms[string(e.VrfOutput)] = e.Commitment
	}
	for _, e := range w.recommit(a).Added {
		if com, ok := coms[string(e.VrfOutput)]; ok && !bytes.Equal(com, e.Commitment) {
			w.env.fail("commitment", "log entry %d commits to something else than the value of its version", w.ref.n())
		}
	}
	if len(upd.Added) < 255 || w.cfg.Mode == modeAudited {
		w.audited(marshal(upd))
	}
	if !slices.IsSortedFunc(upd.Added, byVrfOutput) || !slices.IsSortedFunc(upd.Removed, byVrfOutput) {
		w.env.fail("audit-order", "the order of what the auditor is told about entry %d is not that of the VRF outputs", w.ref.n())
	}
	size := w.pub.Suite.CommitmentOpeningSize()
	for _, key := range sortedKeys(a.vers) {
		opening := string(a.vers[key][:size])
		if other, ok := w.openings[opening]; ok {
			w.env.fail("opening", "%q has the same opening as %q", key, other)
		}
		w.openings[opening] = key
	}
}

// audit has the auditor process all new updates and gives its tree head to the
// server.
func (w *World) audit(publish bool) {
	env := w.env
	for w.audAt < len(w.audLog) {
		raw, err := structs.Marshal(w.audLog[w.audAt])
		must(err)
		buf := bytes.NewBuffer(raw)
		upd, err := structs.NewAuditorUpdate(w.pub.Suite, buf)
		if err != nil || buf.Len() != 0 {
			env.fail("auditor", "auditor update does not survive encoding: %v", err)
		}
		if err := w.aud.Process(upd); err != nil {
			env.fail("auditor", "auditor rejects log entry %d of an honest log: %v", w.audAt, err)
		}
		w.audAt++
	}
	head, err := w.aud.Commit()
	if err != nil {
		env.fail("auditor", "auditor can not commit: %v", err)
	}
	if why := w.verifyAuditorHead(head); why != "" {
		env.fail("auditor", "%s", why)
	}
	if publish {
		w.publish(head)
	}
}

func (w *World) publish(head *structs.AuditorTreeHead) {
	raw, err := structs.Marshal(head)
	must(err)
	cp := *head
	w.audNext = &cp
	must(w.tx.PutAuditorTreeHead(raw))
	must(w.tx.Commit())
	w.audHead, w.audNext = &cp, nil
	must(w.openTree())
}

func (w *World) verifyAuditorHead(h *structs.AuditorTreeHead) string {
	if h.TreeSize == 0 || h.TreeSize > w.ref.n() {
		return fmt.Sprintf("auditor tree head has size %d, the log %d", h.TreeSize, w.ref.n())
	}
	if h.Timestamp != w.ref.ts[w.ref.ix(h.TreeSize-1)] && !w.auditorLies {
		return fmt.Sprintf("auditor tree head of size %d has timestamp %d instead of %d", h.TreeSize, h.Timestamp, w.ref.ts[w.ref.ix(h.TreeSize-1)])
	}
	tbs := refAuditorTBS(w.pub, h.Timestamp, h.TreeSize, w.ref.logHash(0, h.TreeSize))
	if !w.ks.auditor.Public().Verify(tbs, h.Signature) {
		return fmt.Sprintf("auditor tree head of size %d is not a signature over the log's contents", h.TreeSize)
	}
	return ""
}

// ---- The wire.

func wireReq[T any](w *World, req structs.Marshaller, parse func(*bytes.Buffer) (T, error)) T {
	raw, err := structs.Marshal(req)
	if err != nil {
		w.env.fail("encoding", "request can not be encoded: %v", err)
	}
	buf := bytes.NewBuffer(raw)
	out, err := parse(buf)
	if err != nil {
		w.env.fail("encoding", "request can not be decoded: %v", err)
	} else if buf.Len() != 0 {
		w.env.fail("encoding", "%d bytes are left over after decoding a request", buf.Len())
	}
	if m, ok := any(out).(structs.Marshaller); ok {
		again, err := structs.Marshal(m)
		if err != nil || !bytes.Equal(raw, again) {
			w.env.fail("encoding", "request changes when it is decoded and encoded again")
		}
	}
	return out
}

func marshal(x structs.Marshaller) []byte {
	raw, err := structs.Marshal(x)
	must(err)
	return raw
}

// A reply is an encoded response, or an error that the server returned.
type reply struct {
	raw []byte
	err error

	auditorTs uint64 // Timestamp of the auditor's tree head at the time.
	exp       *expect
}

func encodeReply(w *World, res structs.Marshaller, err error) reply {
	if err != nil {
		return reply{err: err}
	}
	raw, err := structs.Marshal(res)
	if err != nil {
		w.env.fail("encoding", "response can not be encoded: %v", err)
	}
	return reply{raw: raw}
}

func decode[T any](rp reply, loose bool, parse func(*bytes.Buffer) (T, error)) (out T, err error) {
	if rp.err != nil {
		return out, rp.err
	}
	buf := bytes.NewBuffer(rp.raw)
	out, err = parse(buf)
	if err != nil {
		return out, err
	} else if buf.Len() != 0 {
		return out, errors.New("unexpected data appended to response")
	}
	if m, ok := any(out).(structs.Marshaller); ok && !loose {
		again, err := structs.Marshal(m)
		if err != nil || !bytes.Equal(rp.raw, again) {
			return out, errRecode
		}
	}
	return out, nil
}

var errRecode = errors.New("response changes when it is decoded and encoded again")

func (w *World) serveSearch(req *structs.SearchRequest) (out reply) {
	withOffset(w.skew, func() { out = w.answerSearch(req) })
	return out
}

func (w *World) answerSearch(req *structs.SearchRequest) reply {
	tree, err := w.reader(false)
	if err != nil {
		return reply{err: err}
	}
	res, err := tree.Search(context.Background(), wireReq(w, req, structs.NewSearchRequest))
	if err == nil {
		w.disclosed(req, res)
	}
	return encodeReply(w, res, err)
}

// serveMonitor serves the request that Client.Monitor returns.
func (w *World) serveMonitor(req structs.Marshaller) (out reply) {
	withOffset(w.skew, func() { out = w.answerMonitor(req) })
	return out
}

func (w *World) answerMonitor(req structs.Marshaller) reply {
	tree, err := w.reader(false)
	if err != nil {
		return reply{err: err}
	}
	switch req := req.(type) {
	case *structs.ContactMonitorRequest:
		res, err := tree.ContactMonitor(context.Background(), wireReq(w, req, structs.NewContactMonitorRequest))
		if err == nil {
			w.disclosed(req, res)
		}
		return encodeReply(w, res, err)
	case *structs.OwnerMonitorRequest:
		res, err := tree.OwnerMonitor(context.Background(), wireReq(w, req, structs.NewOwnerMonitorRequest))
		if err == nil {
			w.disclosed(req, res)
		}
		return encodeReply(w, res, err)
	}
	harnessFail("unexpected request %T", req)
	return reply{}
}

func (w *World) decodeMonitor(req structs.Marshaller, rp reply, loose bool) (structs.Marshaller, error) {
	if _, ok := req.(*structs.ContactMonitorRequest); ok {
		return decode(rp, loose, func(b *bytes.Buffer) (structs.Marshaller, error) {
			return orNil(structs.NewContactMonitorResponse(w.pub, b))
		})
	}
	return decode(rp, loose, func(b *bytes.Buffer) (structs.Marshaller, error) {
		return orNil(structs.NewOwnerMonitorResponse(w.pub, b))
	})
}

func orNil[T structs.Marshaller](x T, err error) (structs.Marshaller, error) {
	if err != nil {
		return nil, err
	}
	return x, nil
}

func (w *World) serveOwnerInit(req *structs.OwnerInitRequest) (out reply) {
	withOffset(w.skew, func() { out = w.answerOwnerInit(req) })
	return out
}

func (w *World) answerOwnerInit(req *structs.OwnerInitRequest) reply {
	tree, err := w.reader(false)
	if err != nil {
		return reply{err: err}
	}
	res, err := tree.OwnerInit(context.Background(), wireReq(w, req, structs.NewOwnerInitRequest))
	if err == nil {
		w.disclosed(req, res)
	}
	return encodeReply(w, res, err)
}

// sequence applies a request that a server instance submitted.
func (w *World) sequence(req transparency.UpdateRequest) {
	var add []transparency.LabelValue
	for _, v := range req.Values {
		add = append(add, transparency.LabelValue{Label: req.Label, Value: v})
	}
	if req.StartingVersion != nil && int(*req.StartingVersion) != w.ref.latest(string(req.Label))+1 {
		w.env.count("misaligned-updates")
		close(req.Response)
		return
	}
	pos := w.ref.n()
	if !w.mutate(add, nil) {
		w.unsequenced = true
		close(req.Response)
		return
	}
	if w.cfg.Mode == modeAudited && w.ref.collapse == 0 { // See the known findings.
		w.audit(true)
	}
	req.Response <- pos
}

// serveUpdate serves an update, sequencing it when asked to. between is called
// just after it was sequenced.
func (w *World) serveUpdate(req *structs.UpdateRequest, between func()) (out []reply) {
	withOffset(w.skew, func() { out = w.answerUpdate(req, between) })
	return out
}

func (w *World) answerUpdate(req *structs.UpdateRequest, between func()) []reply {
	tree, err := w.reader(true)
	if err != nil {
		return []reply{{err: err}}
	}
	var target interface {
		Update(context.Context, *structs.UpdateRequest) (<-chan wireUpdate, error)
	} = tree
	if w.cfg.Mode == modeManaged {
		ml, err := managed.NewManagedLog(w.pub, tree, w.mls, w.ks.leaf)
		must(err)
		target = ml
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	ch, err := target.Update(ctx, wireReq(w, req, structs.NewUpdateRequest))
	if err != nil {
		return []reply{{err: err}}
	}
	var (
		out []reply
		ats uint64
	)
	if w.audHead != nil {
		ats = w.audHead.Timestamp
	}
	for {
		select {
		case res, ok := <-ch:
			if !ok {
				return out
			}
			if res.Err != nil {
				out = append(out, reply{err: res.Err})
			} else {
				w.disclosed(req, res.Out)
				out = append(out, encodeReply(w, res.Out, nil))
				out[len(out)-1].auditorTs = ats
			}
		case q := <-w.queue:
			w.sequence(q)
			if w.audHead != nil {
				ats = w.audHead.Timestamp
			}
			if between != nil {
				between()
			}
		}
	}
}

// ---- Helpers for workloads.

func labelName(i int64) string {
	switch i {
	case 7:
		return "" // The empty label is a label.
	case 6:
		return string(bytes.Repeat([]byte{0xff}, 255))
	case 5:
		return "label-0\x00" // Two labels that differ in their length only,
	case 4:
		return "Label-1" // or in their case.
	}
	return fmt.Sprintf("label-%d", i)
}

var longValues bool // Whether values can be told from each other.

func randVal(rng *rand.Rand) []byte {
	n := rng.IntN(12)
	if longValues {
		n += secretKey
	} else if rng.IntN(10) == 0 {
		n = 0
	} else if rng.IntN(40) == 0 {
		n = 300 + rng.IntN(3000)
	} else if rng.IntN(10) == 0 {
		return []byte("again") // A version may have the value of another.
	} else if rng.IntN(800) == 0 {
		n = 65530 + rng.IntN(12)
	}
	out := make([]byte, n)
	for i := range out {
		out[i] = byte(rng.Uint32())
	}
	return out
}

var _ = prefix.Entry{}
var _ = algorithms.ErrLabelNotFound
