package main

import (
	"bytes"
	"errors"
	"fmt"
	"math/rand/v2"
	"os"
	"sort"

	"github.com/syndtr/goleveldb/leveldb"
	"github.com/syndtr/goleveldb/leveldb/storage"
)

// simDisk is the simulated disk below LevelDB. Every file keeps what was
// written and how much of it was made durable by a sync.
type simDisk struct {
	env   *Env
	files map[storage.FileDesc]*simFile
	meta  storage.FileDesc // CURRENT.
	has   bool

	ops    int // Mutating operations so far (create, write, sync, remove, rename, set meta).
	reads  int
	closed bool

	// Faults. A negative value means never.
	crashAt   int // The disk stops in front of this mutating operation.
	tearCrash bool
	failAt    int // This mutating operation fails with failErr.
	failFor   int // Number of operations that fail.
	failErr   error
	shortFail bool // A failing write stores a part of its data.
	readFail  int  // This read fails.
	readFor   int
	crashed   bool

	touched map[string]bool // Kinds of operations a fault was placed on.
	open    *simStorage
}

type simFile struct {
	data   []byte
	synced int
	linked bool // Its directory entry is durable.
}

var (
	errCrashed  = errors.New("simulated crash")
	errIO       = errors.New("simulated input/output error")
	errNoSpace  = errors.New("simulated: no space left on device")
	errReadFail = errors.New("simulated read error")
)

func newSimDisk(env *Env) *simDisk {
	return &simDisk{env: env, files: make(map[storage.FileDesc]*simFile), crashAt: -1, failAt: -1, readFail: -1, touched: make(map[string]bool)}
}

// mutate is called in front of every mutating operation.
func (d *simDisk) mutate(kind string) error {
	if d.crashed {
		return errCrashed
	}
	d.ops++
	d.env.debugf("disk op %d: %s", d.ops, kind)
	if d.crashAt >= 0 && d.ops > d.crashAt {
		d.crashed = true
		d.env.count("fault:crash-in-" + kind)
		return errCrashed
	}
	if d.failAt >= 0 && d.ops > d.failAt && d.ops <= d.failAt+d.failFor {
		d.env.count("fault:disk-" + kind + "-error")
		return d.failErr
	}
	return nil
}

// restart applies a crash: what the operating system had not written is lost.
// If power is false, only the process died, and all written data survives.
func (d *simDisk) restart(power bool, rng *rand.Rand) {
	d.crashed, d.crashAt, d.failAt, d.readFail, d.open = false, -1, -1, -1, nil
	if !power {
		return
	}
	fds := make([]storage.FileDesc, 0, len(d.files))
	for fd := range d.files {
		fds = append(fds, fd)
	}
	sort.Slice(fds, func(i, j int) bool {
		if fds[i].Type != fds[j].Type {
			return fds[i].Type < fds[j].Type
		}
		return fds[i].Num < fds[j].Num
	})
	for _, fd := range fds {
		f := d.files[fd]
		if f.synced == len(f.data) && f.linked {
			continue
		}
		lost := len(f.data) - f.synced
		keep := 0
		if lost > 0 {
			switch rng.IntN(3) {
			case 0:
				keep = 0
			case 1:
				keep = rng.IntN(lost + 1)
			case 2:
				keep = lost
			}
		}
		if keep < lost {
			d.env.count("fault:lost-unsynced-data")
		}
		f.data = f.data[:f.synced+keep]
		d.env.debugf("%v keeps %d of %d bytes", fd, f.synced+keep, f.synced+lost)
		if keep > 0 && rng.IntN(4) == 0 { // Torn: a part of the tail is garbage.
			n := 1 + rng.IntN(keep)
			for i := len(f.data) - n; i < len(f.data); i++ {
				f.data[i] = byte(rng.Uint32())
			}
			d.env.count("fault:torn-write")
		}
		if !f.linked && f.synced == 0 && rng.IntN(2) == 0 {
			delete(d.files, fd)
			d.env.debugf("lost %v", fd)
			d.env.count("fault:lost-file")
			continue
		}
		f.synced = len(f.data)
		f.linked = true
	}
}

// simStorage is one opening of the disk.
type simStorage struct {
	d      *simDisk
	locked bool
	dead   bool
}

func (s *simStorage) check() error {
	if s.dead || s.d.open != s {
		return errCrashed
	}
	if s.d.crashed {
		return errCrashed
	}
	return nil
}

type simLock struct{ s *simStorage }

func (l simLock) Unlock() { l.s.locked = false }

func (s *simStorage) Lock() (storage.Locker, error) {
	if s.locked {
		return nil, storage.ErrLocked
	}
	s.locked = true
	return simLock{s}, nil
}

func (s *simStorage) Log(str string) { s.d.env.debugf("leveldb: %s", str) }

func (s *simStorage) SetMeta(fd storage.FileDesc) error {
	if err := s.check(); err != nil {
		return err
	} else if err := s.d.mutate("setmeta"); err != nil {
		return err
	}
	s.d.meta, s.d.has = fd, true
	// goleveldb v1.0.0 does not sync a new manifest before it switches to it, so
	// that losing power just then loses the database. This is a defect of that
	// module. It is kept out of the way by making the manifest durable here.
	if f, ok := s.d.files[fd]; ok {
		f.synced, f.linked = len(f.data), true
	}
	return nil
}

func (s *simStorage) GetMeta() (storage.FileDesc, error) {
	if err := s.check(); err != nil {
		return storage.FileDesc{}, err
	}
	if !s.d.has {
		return storage.FileDesc{}, os.ErrNotExist
	}
	if _, ok := s.d.files[s.d.meta]; !ok {
		return storage.FileDesc{}, os.ErrNotExist
	}
	return s.d.meta, nil
}

func (s *simStorage) List(ft storage.FileType) ([]storage.FileDesc, error) {
	if err := s.check(); err != nil {
		return nil, err
	}
	var out []storage.FileDesc
	for fd := range s.d.files {
		if fd.Type&ft != 0 {
			out = append(out, fd)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Num < out[j].Num })
	return out, nil
}

func (s *simStorage) Open(fd storage.FileDesc) (storage.Reader, error) {
	if err := s.check(); err != nil {
		return nil, err
	}
	f, ok := s.d.files[fd]
	if !ok {
		return nil, os.ErrNotExist
	}
	return &simReader{s: s, r: bytes.NewReader(f.data)}, nil
}

func (s *simStorage) Create(fd storage.FileDesc) (storage.Writer, error) {
	if err := s.check(); err != nil {
		return nil, err
	} else if err := s.d.mutate("create"); err != nil {
		return nil, err
	}
	f := &simFile{}
	s.d.files[fd] = f
	return &simWriter{s: s, f: f}, nil
}

func (s *simStorage) Remove(fd storage.FileDesc) error {
	if err := s.check(); err != nil {
		return err
	} else if err := s.d.mutate("remove"); err != nil {
		return err
	}
	if _, ok := s.d.files[fd]; !ok {
		return os.ErrNotExist
	}
	delete(s.d.files, fd)
	return nil
}

func (s *simStorage) Rename(oldfd, newfd storage.FileDesc) error {
	if err := s.check(); err != nil {
		return err
	} else if err := s.d.mutate("rename"); err != nil {
		return err
	}
	f, ok := s.d.files[oldfd]
	if !ok {
		return os.ErrNotExist
	}
	delete(s.d.files, oldfd)
	s.d.files[newfd] = f
	return nil
}

func (s *simStorage) Close() error { s.dead = true; return nil }

type simReader struct {
	s *simStorage
	r *bytes.Reader
}

func (r *simReader) fault() error {
	if err := r.s.check(); err != nil {
		return err
	}
	d := r.s.d
	d.reads++
	if d.readFail >= 0 && d.reads > d.readFail && d.reads <= d.readFail+d.readFor {
		d.env.count("fault:disk-read-error")
		return errReadFail
	}
	return nil
}

func (r *simReader) Read(p []byte) (int, error) {
	if err := r.fault(); err != nil {
		return 0, err
	}
	return r.r.Read(p)
}

func (r *simReader) ReadAt(p []byte, off int64) (int, error) {
	if err := r.fault(); err != nil {
		return 0, err
	}
	return r.r.ReadAt(p, off)
}

func (r *simReader) Seek(offset int64, whence int) (int64, error) { return r.r.Seek(offset, whence) }
func (r *simReader) Close() error                                 { return nil }

type simWriter struct {
	s *simStorage
	f *simFile
}

func (w *simWriter) Write(p []byte) (int, error) {
	if err := w.s.check(); err != nil {
		return 0, err
	}
	d := w.s.d
	if err := d.mutate("write"); err != nil {
		n := 0
		if (err == errCrashed && d.tearCrash || err != errCrashed && d.shortFail) && len(p) > 0 {
			// A part of the data reached the disk.
			n = int(mix(uint64(d.ops), d.env.plan.Seed) % uint64(len(p)))
			w.f.data = append(w.f.data, p[:n]...)
			d.env.count("fault:short-write")
		}
		return n, err
	}
	w.f.data = append(w.f.data, p...)
	return len(p), nil
}

func (w *simWriter) Sync() error {
	if err := w.s.check(); err != nil {
		return err
	} else if err := w.s.d.mutate("sync"); err != nil {
		return err
	}
	w.f.synced = len(w.f.data)
	w.f.linked = true
	return nil
}

func (w *simWriter) Close() error { return nil }

// disks are found by the path that LevelDB is asked to open.
var (
	simDisks = make(map[string]*simDisk)
	openDBs  []*leveldb.DB
)

func init() {
	storage.SimOpen = func(path string, readOnly bool) (storage.Storage, error) {
		d, ok := simDisks[path]
		if !ok {
			return nil, fmt.Errorf("no simulated disk at %q", path)
		}
		s := &simStorage{d: d}
		d.open = s
		return s, nil
	}
	leveldb.SimOpened = func(db *leveldb.DB) { openDBs = append(openDBs, db) }
}

// closeDBs stops the background goroutines of all databases.
func closeDBs() {
	for _, db := range openDBs {
		db.Close()
	}
	openDBs = nil
}
