package main

import (
	"errors"
	"math/rand/v2"

	"github.com/Bren2010/katie/db"
	"github.com/Bren2010/katie/tree/transparency"
	"github.com/syndtr/goleveldb/leveldb/opt"
)

// The read-fault workload: the storage of a server fails while it serves
// requests. Whoever asked gets an error or the right answer, and the next request
// is served as if nothing had happened.

var readFaultWeights = map[string]int{
	"adv": 8, "mut": 10, "beat": 4, "search": 4, "mon": 8, "own": 3, "upd": 5, "remove": 1, "crashserver": 1,
	"fsearch": 14, "fmon": 9, "fown": 5, "fupd": 9, "fopen": 3,
}

func genReadFault(rng *rand.Rand, plan *Plan, tier string) {
	genHonest(readFaultWeights, []int64{1, 1, 2, 3})(rng, plan, tier)
	plan.Cfg["wbuf"] = []int64{0, 0, 16000, 24000}[rng.IntN(4)]
	plan.Cfg["cache"] = rng.Int64N(3)
	for i := range plan.Ops {
		if op := &plan.Ops[i]; op.K[0] == 'f' {
			op.C = rng.Int64N(4)
		}
	}
}

type readFault struct{ *honest }

func runReadFault(env *Env) {
	if b := env.plan.Cfg["wbuf"]; b > 0 {
		wb, ts, tot := opt.DefaultWriteBuffer, opt.DefaultCompactionTableSize, opt.DefaultCompactionTotalSize
		opt.DefaultWriteBuffer, opt.DefaultCompactionTableSize, opt.DefaultCompactionTotalSize = int(b), int(b)*2, int(b)*8
		defer func() {
			opt.DefaultWriteBuffer, opt.DefaultCompactionTableSize, opt.DefaultCompactionTotalSize = wb, ts, tot
		}()
	}
	if env.plan.Cfg["cache"] == 0 {
		saved := opt.DefaultBlockCacheCapacity
		opt.DefaultBlockCacheCapacity = 1
		defer func() { opt.DefaultBlockCacheCapacity = saved }()
	}
	s := &readFault{newHonest(env)}
	for _, op := range env.plan.Ops {
		switch op.K {
		case "fsearch":
			s.fault(op, "search")
		case "fmon":
			s.fault(op, "monitor")
		case "fown":
			s.fault(op, "ownerinit")
		case "fupd":
			s.fault(op, "update")
		case "fopen":
			s.open(op)
		default:
			s.step(op)
		}
	}
	s.settle()
}

// arm makes reads through read-only clones of the store fail, or reads of the
// disk. It returns a function that ends this and tells if a read has failed.
func (s *readFault) arm(at, count int, disk bool) (disarm func() bool) {
	w := s.w
	if d := w.disk; disk {
		d.readFail, d.readFor = d.reads+at, count
		return func() bool {
			hit := d.reads > d.readFail
			d.readFail = -1
			return hit
		}
	}
	f := w.flt
	f.reads, f.readAt, f.readFor, f.hit, f.clones = 0, at, count, false, true
	return func() bool {
		hit := f.hit
		f.readAt, f.hit, f.clones = -1, false, false
		return hit
	}
}

func (s *readFault) open(op Op) {
	env, w := s.env, s.w
	rng := newRand(op.S)
	if w.kind == 0 && op.C > 0 {
		s.openDisk(rng)
		return
	}
	disarm := s.arm(rng.IntN(3), 1+rng.IntN(2), false)
	_, err := transparency.NewTree(w.cfg, w.tx.Clone(), w.queue)
	if hit := disarm(); hit != (err != nil) {
		env.fail("open", "a server that starts while its store fails (%v) returns %v", hit, err)
	}
}

// openDisk starts a server while reads of its disk fail.
func (s *readFault) openDisk(rng *rand.Rand) {
	env, w := s.env, s.w
	closeDBs()
	w.disk.restart(rng.IntN(2) == 0, rng)
	disarm := s.arm(rng.IntN(12), []int{1, 1, 2, 1000}[rng.IntN(4)], true)
	inner, err := db.NewLDBTransparencyStore(w.path)
	if err == nil {
		w.tx = &store{w: w, inner: inner}
		if err = w.openTree(); err == nil {
			env.count("opened-anyway")
			w.checkHead()
		}
	}
	if hit := disarm(); !hit && err != nil {
		env.fail("open", "the log can not be opened: %v", err)
	} else if err != nil {
		env.count("failed-opens")
	}
	s.crashServer(rng.IntN(2) == 0, rng)
	for _, l := range s.labels {
		if !w.ref.deleted(l) {
			newSimClient(w, 999).roundTrip("search", l, -1, nil)
		}
	}
}

// fault serves a request while reads fail.
func (s *readFault) fault(op Op, kind string) {
	env, w := s.env, s.w
	rng := newRand(op.S)
	c, l := s.client(op.A), s.label(op.B)
	ver := -1
	var vals [][]byte
	switch kind {
	case "search":
		if op.C > 1 {
			ver = rng.IntN(w.ref.latest(l) + 3)
		}
	case "update":
		for i := rng.IntN(4); i > 0; i-- {
			vals = append(vals, randVal(rng))
		}
		if c.own[l] == nil {
			for _, o := range sortedKeys(c.own) {
				l = o
			}
		}
	}
	if kind != "search" && kind != "monitor" && w.ref.deleted(l) {
		return
	}
	p := c.begin(kind, l, ver, vals)
	if p == nil {
		return
	}
	disk := w.kind == 0 && rng.IntN(3) == 0
	if disk && rng.IntN(3) > 0 {
		// Afterwards, everything has to be read from the disk.
		s.crashServer(false, rng)
	}
	// The server instance outlives the failure.
	if w.sticky == nil && rng.IntN(4) > 0 {
		tree, err := w.reader(false)
		must(err)
		w.sticky = tree
		defer func() { w.sticky = nil }()
	}
	if kind == "update" {
		s.update(p, rng, disk)
		return
	}

	// How many reads does it take?
	p.expectAt(w.ref.n(), w.audHead)
	count := func(disk bool) int {
		disarm := s.arm(1<<40, 1, disk)
		before := 0
		if disk {
			before = w.disk.reads
		}
		p.answer()
		disarm()
		if disk {
			return w.disk.reads - before
		}
		return w.flt.reads
	}
	total := count(disk)
	right := p.rp
	var points []int
	for k := range total {
		points = append(points, k)
	}
	rng.Shuffle(total, func(i, j int) { points[i], points[j] = points[j], points[i] })
	points = points[:min(total, 1+rng.IntN(6))]
	if disk {
		points = append(points, 0) // Which reads reach the disk changes all the time.
	}
	for _, k := range points {
		disarm := s.arm(k, []int{1, 1, 2, 1000}[rng.IntN(4)], disk)
		p.answer()
		hit := disarm()
		env.sig("%s%v%d%v", kind[:2], disk, min(k, 30), p.rp.err != nil)
		switch {
		case p.rp.err == nil && hit && !disk:
			env.fail("ignored-failure", "the server answers a request (%s of %q) although read %d of %d of its store has failed", kind, p.label, k, total)
		case p.rp.err == nil && (right.err != nil || string(p.rp.raw) != string(right.raw)):
			// It may be another right answer.
			env.count("other-answers")
			cc := c.clone()
			saved := *p
			if q := cc.begin(kind, p.label, p.ver, nil); q != nil && q.label == p.label {
				q.expectAt(w.ref.n(), w.audHead)
				q.rp = saved.rp
				q.deliver()
			}
		case p.rp.err != nil && hit:
			env.count("failed-requests")
			if !disk && !errors.Is(p.rp.err, errStoreRead) {
				env.count("other-errors")
			}
		case p.rp.err != nil && right.err == nil:
			env.fail("refused", "the server fails for no reason: %v", p.rp.err)
		}
	}
	// Now, it has to work.
	p.serve()
	p.deliver()
	if c.own[p.label] != nil {
		s.owned[p.label] = true
	}
	env.count("decided")
}

// update follows an update while reads fail.
func (s *readFault) update(p *pending, rng *rand.Rand, disk bool) {
	env, w := s.env, s.w
	p.expectAt(w.ref.n(), w.audHead)
	at := rng.IntN(60)
	if rng.IntN(2) == 0 {
		at = rng.IntN(12)
	}
	if disk {
		at = rng.IntN(4)
		w.faulty = func(*attempt, error) bool { return w.disk.reads > w.disk.readFail }
		defer func() { w.faulty = nil }()
	}
	disarm := s.arm(at, []int{1, 1, 2, 1000}[rng.IntN(4)], disk)
	p.answer()
	hit := disarm()
	w.resync()
	n := len(p.rps)
	failed := n > 0 && p.rps[n-1].err != nil
	env.logf("update of %q: read %d fails (%v), %d responses, failed %v", p.label, at, hit, n, failed)
	env.sig("up%v%d%v%v", disk, min(at, 30), hit, failed)
	if hit && !disk && !failed {
		env.fail("ignored-failure", "an update stream for %q ends without an error after %d responses, although read %d of its store has failed", p.label, n, at)
	}
	for i, rp := range p.rps {
		if rp.err != nil && i < n-1 {
			env.fail("after-error", "an update stream goes on after an error")
		}
	}
	if hit && failed {
		env.count("failed-updates")
		p.rps = p.rps[:n-1]
	}
	p.unsequenced = w.unsequenced
	p.deliver()
	env.count("decided")
}
