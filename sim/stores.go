package main

import (
	"bytes"
	"fmt"
	"maps"
	"math/rand/v2"

	"github.com/Bren2010/katie/db"
	"github.com/Bren2010/katie/db/memory"
	"github.com/syndtr/goleveldb/leveldb/opt"
)

// The store workload: the stores are used directly, with keys that are easily
// mixed up, failing disks and crashes. A map with transactions is the model.

func genStores(rng *rand.Rand, plan *Plan, tier string) {
	c := plan.Cfg
	c["kind"] = []int64{0, 0, 0, 1}[rng.IntN(4)]
	c["wbuf"] = []int64{0, 300, 1000, 5000}[rng.IntN(4)]
	c["cache"] = rng.Int64N(3)
	c["keys"] = []int64{2, 5, 12, 100}[rng.IntN(4)]
	ws := map[string]int{"put": 30, "del": 10, "get": 20, "batch": 10, "clone": 8, "commit": 14, "nil": 2, "small": 8, "ro": 2}
	if c["kind"] == 0 {
		ws["eio"], ws["crash"], ws["restart"], ws["rfail"] = rng.IntN(5), rng.IntN(6), 2, rng.IntN(5)
	}
	for _, k := range sortedKeys(ws) {
		if rng.IntN(5) == 0 {
			ws[k] = ws[k]*3 + 1
		}
	}
	for i := 30 + rng.IntN(120); i > 0; i-- {
		plan.Ops = append(plan.Ops, Op{K: pick(rng, ws), A: rng.Int64N(40), B: rng.Int64N(16), C: rng.Int64N(4), S: rng.Uint64()})
	}
}

// A storeKey is the place of a record.
type storeKey struct {
	kind  string // head, auditor, index, version, entry, log, prefix
	label string
	num   uint64
}

func (k storeKey) String() string { return fmt.Sprintf("%s %q %d", k.kind, k.label, k.num) }

type storeState map[storeKey]string

type storesRun struct {
	env   *Env
	disk  *simDisk
	path  string
	store db.TransparencyStore
	// A state is what is committed, pending is what has been changed since. Absent
	// values are marked.
	state   storeState
	pending map[storeKey]*string
	doubts  []map[storeKey]*string
	broken  bool
	keys    []storeKey

	clones []storeClone

	aud    *memory.AuditorStore
	audVal []byte
	mls    *memory.ManagedLogStore
	count  map[string]int
}

type storeClone struct {
	store db.TransparencyStore
	head  storeState // Tree heads that a clone of the memory store was made with.
}

func runStores(env *Env) {
	c := env.plan.Cfg
	if b := c["wbuf"]; b > 0 {
		wb, ts, tot := opt.DefaultWriteBuffer, opt.DefaultCompactionTableSize, opt.DefaultCompactionTotalSize
		opt.DefaultWriteBuffer, opt.DefaultCompactionTableSize, opt.DefaultCompactionTotalSize = int(b), int(b)*2, int(b)*8
		defer func() {
			opt.DefaultWriteBuffer, opt.DefaultCompactionTableSize, opt.DefaultCompactionTotalSize = wb, ts, tot
		}()
	}
	if c["cache"] > 0 {
		saved := opt.DefaultBlockCacheCapacity
		opt.DefaultBlockCacheCapacity = 1
		defer func() { opt.DefaultBlockCacheCapacity = saved }()
	}
	s := &storesRun{
		env: env, state: make(storeState), pending: make(map[storeKey]*string),
		aud: memory.NewAuditorStore(), mls: memory.NewManagedLogStore(), count: make(map[string]int),
	}
	if c["kind"] == 0 {
		worldCount++
		s.path = fmt.Sprintf("/sim/%d", worldCount)
		s.disk = newSimDisk(env)
		simDisks[s.path] = s.disk
		env.cleanup(func() { delete(simDisks, s.path) })
		env.cleanup(closeDBs)
		store, err := db.NewLDBTransparencyStore(s.path)
		must(err)
		s.store = store
	} else {
		s.store = memory.NewTransparencyStore()
	}
	for range c["keys"] {
		k := randStoreKey(env.rng)
		if n := len(s.keys); n > 0 && env.rng.IntN(3) == 0 {
			if twin, ok := s.keys[env.rng.IntN(n)].twin(env.rng); ok {
				k = twin
			}
		}
		s.keys = append(s.keys, k)
	}
	for _, op := range env.plan.Ops {
		s.step(op)
	}
	if s.disk != nil {
		s.restart(true, env.rng)
	}
	for _, k := range s.keys {
		s.check(s.store, k, s.view())
	}
	env.count("decided")
}

func randStoreKey(rng *rand.Rand) storeKey {
	labels := []string{"", "a", "b", "aa", "a:", ":", "a:1", "0", "00", "\x00", "\x00\x00", "\xff", "\x0a", "\x01\x02", "\x12", "tree-head", "%x", string(bytes.Repeat([]byte{'z'}, 255))}
	nums := []uint64{0, 1, 2, 10, 11, 16, 17, 0x10, 0x61, 97, 255, 256, 1 << 16, 1<<32 - 1, 1 << 32, 1<<63 - 1, 1 << 63, 1<<64 - 1}
	k := storeKey{
		kind:  []string{"head", "auditor", "index", "index", "version", "version", "version", "entry", "entry", "log", "log", "prefix", "prefix"}[rng.IntN(13)],
		label: labels[rng.IntN(len(labels))],
		num:   nums[rng.IntN(len(nums))],
	}
	switch k.kind {
	case "head", "auditor":
		k.label, k.num = "", 0
	case "index":
		k.num = 0
	case "version":
		k.num &= 1<<32 - 1
	case "entry", "log":
		k.label = ""
	case "prefix":
		k.label = []string{fmt.Sprintf("%x:%x", k.num, rng.IntN(20)), "", "1", "11", "1:1", "11:", k.label}[rng.IntN(7)]
		k.num = 0
	}
	return k
}

// twin returns a key that looks the same if its parts are not kept apart.
func (k storeKey) twin(rng *rand.Rand) (storeKey, bool) {
	n := len(k.label)
	if k.kind != "version" && k.kind != "index" || n == 0 {
		return k, false
	}
	last := k.label[n-1]
	format, part := "%x", fmt.Sprintf("%x", last)
	if last >= '0' && last <= '9' && rng.IntN(2) == 0 {
		format, part = "%d", string(last)
	}
	if k.kind == "version" {
		part += fmt.Sprintf(format, k.num)
	}
	var num uint64
	if _, err := fmt.Sscanf(part, format, &num); err != nil || num >= 1<<32 || fmt.Sprintf(format, num) != part {
		return k, false
	}
	return storeKey{kind: "version", label: k.label[:n-1], num: num}, true
}

// view is what the writer sees.
func (s *storesRun) view() storeState {
	out := maps.Clone(s.state)
	for k, v := range s.pending {
		if v == nil {
			delete(out, k)
		} else {
			out[k] = *v
		}
	}
	return out
}

func (s *storesRun) put(k storeKey, val []byte) error {
	st := s.store
	switch k.kind {
	case "head":
		return st.PutTreeHead(val)
	case "auditor":
		return st.PutAuditorTreeHead(val)
	case "index":
		return st.PutIndex([]byte(k.label), val)
	case "version":
		return st.PutVersion([]byte(k.label), uint32(k.num), val)
	case "entry":
		return st.Put(k.num, val)
	case "log":
		return st.LogStore().Put(k.num, val)
	}
	return st.PrefixStore().Put(k.label, val)
}

func (s *storesRun) del(k storeKey) error {
	st := s.store
	switch k.kind {
	case "index":
		return st.DeleteIndex([]byte(k.label))
	case "version":
		return st.DeleteVersion([]byte(k.label), uint32(k.num))
	case "entry":
		return st.Delete(k.num)
	case "log":
		return st.LogStore().Delete(k.num)
	}
	return st.PrefixStore().Delete(k.label)
}

// get reads several records of a kind. It returns nil for those that do not exist.
func (s *storesRun) get(st db.TransparencyStore, ks []storeKey) ([][]byte, error) {
	out := make([][]byte, len(ks))
	mark := func(b []byte, ok bool) []byte {
		if ok && b == nil {
			return []byte{}
		}
		return b
	}
	switch ks[0].kind {
	case "head", "auditor":
		head, aud, err := st.GetTreeHead()
		if err != nil {
			return nil, err
		}
		for i, k := range ks {
			out[i] = head
			if k.kind == "auditor" {
				out[i] = aud
			}
		}
	case "index":
		var labels [][]byte
		for _, k := range ks {
			labels = append(labels, []byte(k.label))
		}
		res, err := st.BatchGetIndex(labels)
		if err != nil {
			return nil, err
		} else if len(res) != len(ks) {
			s.env.fail("batch", "%d indices are returned for %d labels", len(res), len(ks))
		}
		out = res
	case "version":
		for i, k := range ks {
			raw, err := st.GetVersion([]byte(k.label), uint32(k.num))
			if err != nil {
				return nil, err
			}
			out[i] = raw
		}
	case "entry", "log":
		var nums []uint64
		for _, k := range ks {
			nums = append(nums, k.num)
		}
		read := st.BatchGet
		if ks[0].kind == "log" {
			read = st.LogStore().BatchGet
		}
		res, err := read(nums)
		if err != nil {
			return nil, err
		}
		found := make(map[uint64]bool)
		for i, n := range nums {
			raw, ok := res[n]
			out[i] = mark(raw, ok)
			found[n] = true
		}
		for n := range res {
			if !found[n] {
				s.env.fail("batch", "record %d is returned, which was not asked for", n)
			}
		}
	default:
		var names []string
		for _, k := range ks {
			names = append(names, k.label)
		}
		res, err := st.PrefixStore().BatchGet(names)
		if err != nil {
			return nil, err
		}
		found := make(map[string]bool)
		for i, n := range names {
			raw, ok := res[n]
			out[i] = mark(raw, ok)
			found[n] = true
		}
		for n := range res {
			if !found[n] {
				s.env.fail("batch", "record %q is returned, which was not asked for", n)
			}
		}
	}
	return out, nil
}

// check reads records and compares them with what they should be.
func (s *storesRun) check(st db.TransparencyStore, k storeKey, want storeState, more ...storeKey) {
	ks := append([]storeKey{k}, more...)
	got, err := s.get(st, ks)
	if err != nil {
		s.env.fail("read", "reading %v fails: %v", ks, err)
	}
	s.compare(ks, got, want)
}

func (s *storesRun) compare(ks []storeKey, got [][]byte, want storeState) {
	for i, k := range ks {
		v, ok := want[k]
		if ok != (got[i] != nil) || v != string(got[i]) {
			s.env.fail("refinement", "%v is %x (exists: %v), it should be %x (%v)", k, got[i], got[i] != nil, v, ok)
		}
	}
	// What is read belongs to the reader.
	for _, raw := range got {
		for j := range raw {
			raw[j] = 0x55
		}
	}
}

func (s *storesRun) similar(rng *rand.Rand, k storeKey, n int) (out []storeKey) {
	for range n {
		for _, o := range s.keys {
			if o.kind == k.kind && rng.IntN(2) == 0 {
				out = append(out, o)
			}
		}
	}
	return out
}

func (s *storesRun) step(op Op) {
	env := s.env
	rng := newRand(op.S)
	k := s.keys[int(op.A)%len(s.keys)]
	env.sig("%s%v", op.K, s.broken)
	switch op.K {
	case "put":
		if k.kind == "auditor" && s.state[storeKey{kind: "head"}] == "" {
			return // There is no auditor tree head without a tree head.
		}
		val := make([]byte, []int{0, 1, 5, 40, 200}[rng.IntN(5)])
		for i := range val {
			val[i] = byte(rng.Uint32())
		}
		if len(val) == 0 && (k.kind == "head" || k.kind == "auditor") {
			val = []byte{1}
		}
		arg := bytes.Clone(val)
		if err := s.put(k, arg); err != nil {
			env.fail("put", "%v can not be written: %v", k, err)
		}
		for i := range arg {
			arg[i] ^= 0xff // The store has its own copy.
		}
		v := string(val)
		s.pending[k] = &v
		s.immediate()
	case "del":
		if k.kind == "head" || k.kind == "auditor" {
			return
		}
		if err := s.del(k); err != nil {
			env.fail("delete", "%v can not be deleted: %v", k, err)
		}
		s.pending[k] = nil
		s.immediate()
	case "nil":
		if k.kind == "head" || k.kind == "auditor" {
			return
		}
		if err := s.put(k, nil); err == nil {
			env.fail("nil", "nothing is stored as %v without an error", k)
		}
		s.check(s.store, k, s.view())
	case "get":
		s.check(s.store, k, s.view())
	case "batch":
		s.check(s.store, k, s.view(), s.similar(rng, k, 1+rng.IntN(2))...)
	case "clone":
		if len(s.clones) == 0 || rng.IntN(3) == 0 {
			head := make(storeState)
			for _, h := range []string{"head", "auditor"} {
				if v, ok := s.state[storeKey{kind: h}]; ok {
					head[storeKey{kind: h}] = v
				}
			}
			s.clones = append(s.clones, storeClone{s.store.Clone(), head})
		}
		c := s.clones[rng.IntN(len(s.clones))]
		want := s.state
		if s.disk == nil && (k.kind == "head" || k.kind == "auditor") {
			want = c.head
		}
		s.check(c.store, k, want, s.similar(rng, k, 1)...)
	case "ro":
		s.readOnly(k)
	case "commit":
		s.commit(rng)
	case "eio":
		d := s.disk
		d.failAt, d.failFor, d.failErr, d.shortFail = d.ops+rng.IntN(4), []int{1, 1, 2, 1000}[rng.IntN(4)], errIO, rng.IntN(2) == 0
		if op.C%2 == 0 {
			d.failErr = errNoSpace
		}
		for i := rng.IntN(3); i >= 0; i-- {
			s.commit(rng)
		}
		if d.ops > d.failAt {
			s.broken = true // Work in the background may have failed.
		}
		d.failAt = -1
		s.check(s.store, k, s.view())
		if rng.IntN(2) == 0 {
			s.restart(rng.IntN(2) == 0, rng)
		}
	case "crash":
		d := s.disk
		d.crashAt, d.tearCrash = d.ops+rng.IntN(4), rng.IntN(2) == 0
		if rng.IntN(4) == 0 {
			d.crashAt = d.ops + rng.IntN(30)
		}
		s.commit(rng)
		s.restart(op.B%3 > 0, rng)
	case "restart":
		s.restart(op.B%2 == 0, rng)
	case "rfail":
		if rng.IntN(2) == 0 {
			s.restart(false, rng)
		}
		d := s.disk
		d.readFail, d.readFor = d.reads+rng.IntN(3), []int{1, 2, 1000}[rng.IntN(3)]
		ks := append([]storeKey{k}, s.similar(rng, k, 1)...)
		got, err := s.get(s.store, ks)
		hit := d.reads > d.readFail
		d.readFail = -1
		if err == nil {
			s.compare(ks, got, s.view())
		} else if !hit {
			env.fail("read", "reading %v fails: %v", ks, err)
		} else {
			env.count("failed-reads")
		}
		s.check(s.store, k, s.view())
	case "small":
		s.small(rng)
	}
}

// immediate makes changes to the memory store, which has no transactions, visible.
func (s *storesRun) immediate() {
	if s.disk == nil {
		s.state, s.pending = s.view(), make(map[storeKey]*string)
	}
}

// readOnly tries to change the database through a clone.
func (s *storesRun) readOnly(k storeKey) {
	if s.disk == nil {
		return // See DESIGN.md.
	}
	saved := s.store
	s.store = saved.Clone()
	func() {
		defer func() { recover() }()
		if s.put(k, []byte("changed")) == nil && s.store.Commit() == nil {
			s.env.count("clone-commits")
		}
	}()
	s.store = saved
	s.check(s.store, k, s.view())
	s.check(s.store.Clone(), k, s.state)
}

func (s *storesRun) commit(rng *rand.Rand) {
	env := s.env
	err := s.store.Commit()
	env.logf("commit of %d changes -> %v", len(s.pending), err)
	if err == nil {
		if s.disk != nil && s.disk.crashed {
			// It was on the disk just in time.
			env.count("acknowledged-by-the-dead")
		}
		s.state, s.pending = s.view(), make(map[storeKey]*string)
		env.count("commits")
		return
	}
	d := s.disk
	if d == nil || !s.broken && !d.crashed && !(d.failAt >= 0 && d.ops > d.failAt) {
		env.fail("commit", "a commit fails for no reason: %v", err)
	}
	env.count("failed-commits")
	s.doubts = append(s.doubts, s.pending)
	s.pending = make(map[storeKey]*string)
	s.broken = true
	if !d.crashed {
		// The changes are dropped.
		k := s.keys[rng.IntN(len(s.keys))]
		s.check(s.store, k, s.state)
		s.check(s.store.Clone(), k, s.state)
	}
}

func (s *storesRun) restart(power bool, rng *rand.Rand) {
	env, d := s.env, s.disk
	crashes := rng.IntN(2)
	for i := 0; ; i++ {
		d.crashed = true
		closeDBs()
		d.restart(power, rng)
		env.count("fault:server-restart")
		if i < crashes {
			d.crashAt, d.tearCrash = d.ops+rng.IntN(12), rng.IntN(2) == 0
		}
		store, err := db.NewLDBTransparencyStore(s.path)
		if err == nil && !d.crashed {
			d.crashAt = -1
			s.store = store
			break
		}
		if !d.crashed {
			env.fail("recovery", "the database can not be opened: %v", err)
		}
	}
	s.clones, s.pending, s.broken = nil, make(map[storeKey]*string), false
	// Everything is there, with at most one of the changes that failed.
	matches := func(want storeState) bool {
		for _, k := range s.keys {
			got, err := s.get(s.store, []storeKey{k})
			if err != nil {
				env.fail("read", "reading %v fails: %v", k, err)
			}
			v, ok := want[k]
			if ok != (got[0] != nil) || v != string(got[0]) {
				return false
			}
		}
		return true
	}
	if !matches(s.state) {
		found := false
		old := s.state
		for _, p := range s.doubts {
			s.state, s.pending = old, p
			s.state, s.pending = s.view(), make(map[storeKey]*string)
			if matches(s.state) {
				found = true
				env.count("in-doubt-survived")
				break
			}
		}
		if !found {
			s.state = old
			for _, k := range s.keys {
				got, _ := s.get(s.store, []storeKey{k})
				env.logf("%v: %x, was %x", k, got[0], old[k])
			}
			env.fail("durability", "after a restart, the database is not what was committed, with or without one of %d commits that failed", len(s.doubts))
		}
	}
	s.doubts = nil
}

// small uses the stores of the auditor and the operator.
func (s *storesRun) small(rng *rand.Rand) {
	env := s.env
	if rng.IntN(2) == 0 {
		got, err := s.aud.GetState()
		if err != nil || (got == nil) != (s.audVal == nil) || !bytes.Equal(got, s.audVal) {
			env.fail("auditor-store", "the auditor's state is %x (%v) instead of %x", got, err, s.audVal)
		}
		for i := range got {
			got[i] ^= 0xff
		}
		if rng.IntN(2) == 0 {
			val := randVal(rng)
			arg := append([]byte{}, val...)
			if err := s.aud.PutState(arg); err != nil {
				env.fail("auditor-store", "the auditor's state can not be stored: %v", err)
			}
			for i := range arg {
				arg[i] ^= 0xff
			}
			s.audVal = append([]byte{}, val...)
		}
		return
	}
	label := []string{"", "a", "aa", "\x61\x61", "61", "\x00"}[rng.IntN(6)]
	n := rng.IntN(4)
	prev, ok := s.count[label]
	if !ok {
		prev = -1
	}
	got, err := s.mls.IncrementGreatestVersion([]byte(label), n)
	if err != nil || got != prev {
		env.fail("operator-store", "the greatest version of %q is %d, the store says %d (%v)", label, prev, got, err)
	}
	s.count[label] = prev + n
}
