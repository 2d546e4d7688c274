import json, os, re, shutil, subprocess, sys
V, B, GOROOT, MODCACHE = sys.argv[1:5]

def put(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.exists(path) and open(path).read() == text:
        return
    open(path, 'w').write(text)

def patch(text, old, new, count=1, what=''):
    if text.count(old) < 1:
        sys.exit('prepare.py: cannot find %r in %s' % (old, what))
    return text.replace(old, new) if count == 0 else text.replace(old, new, count)

# --- Go standard library overlay -------------------------------------------
over = {}
def std(rel, *edits, extra=''):
    src = os.path.join(GOROOT, 'src', rel)
    t = open(src).read()
    for old, new in edits:
        t = patch(t, old, new, what=rel)
    dst = os.path.join(B, 'std', rel)
    put(dst, t + extra)
    over[src] = dst

std('runtime/rand.go',
    ('func rand() uint64 {\n', '''func rand() uint64 {
	if simMapSeed != 0 {
		simRandState += 0x9e3779b97f4a7c15
		z := simRandState
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
		z = (z ^ (z >> 27)) * 0x94d049bb133111eb
		return z ^ (z >> 31)
	}
'''),
    ('func maps_rand() uint64 {\n\treturn rand()\n}',
     'func maps_rand() uint64 {\n\tif simMapSeed != 0 {\n\t\treturn simMapSeed\n\t}\n\treturn rand()\n}'),
    extra='''
var simMapSeed uint64
var simSelectState uint64
var simRandState uint64

// SimSeed fixes the map iteration offset and the state of the generator that
// orders the cases of a select statement. Zero gives back the normal behaviour.
func SimSeed(mapSeed, selectSeed uint64) {
	simMapSeed, simSelectState, simRandState = mapSeed, selectSeed, mapSeed
}

// SimHook is called at the points between statements of the code under test, if
// the goroutine has a label.
var SimHook func(label unsafe.Pointer)

func SimYield() {
	if SimHook != nil {
		simYield()
	}
}

func simYield() {
	if l := getg().simLabel; l != nil {
		SimHook(l)
	}
}

// SimLabel is the label of this goroutine, which those that it starts inherit.
func SimLabel() unsafe.Pointer { return getg().simLabel }

func SimSetLabel(l unsafe.Pointer) { getg().simLabel = l }

func SimGoid() uint64 { return getg().goid }

func simSelectRandn(n uint32) uint32 {
	if simSelectState == 0 {
		return cheaprandn(n)
	}
	simSelectState ^= simSelectState << 13
	simSelectState ^= simSelectState >> 7
	simSelectState ^= simSelectState << 17
	return uint32((uint64(uint32(simSelectState>>16)) * uint64(n)) >> 32)
}
''')
std('runtime/select.go', ('cheaprandn(uint32(norder + 1))', 'simSelectRandn(uint32(norder + 1))'))
# Goroutines get a label. One that waits for a mutex waits for another goroutine
# of the simulation, which is what it waits for with a channel.
std('runtime/runtime2.go',
    ('\tlabels          unsafe.Pointer // profiler labels\n', '\tlabels          unsafe.Pointer // profiler labels\n\tsimLabel        unsafe.Pointer\n'),
    ('\twaitReasonSyncCondWait:          true,\n', '\twaitReasonSyncCondWait:          true,\n\twaitReasonSyncMutexLock: true,\n\twaitReasonSyncRWMutexRLock: true,\n\twaitReasonSyncRWMutexLock: true,\n'))
std('runtime/proc.go',
    ('\t\t\tnewg.labels = mp.curg.labels\n', '\t\t\tnewg.labels = mp.curg.labels\n\t\t\tnewg.simLabel = mp.curg.simLabel\n'),
    ('\tgp.labels = nil\n', '\tgp.labels = nil\n\tgp.simLabel = nil\n'),
    ('const forcePreemptNS = 10 * 1000 * 1000 // 10ms', 'const forcePreemptNS = 3600 * 1000 * 1000 * 1000'))
std('internal/runtime/maps/runtime_alg.go',
    ('hashkey[i] = uintptr(bootstrapRand())', 'bootstrapRand(); hashkey[i] = uintptr(0x9e3779b97f4a7c15 ^ uint64(i)*0x1234567)'),
    ('key[i] = bootstrapRand()', 'bootstrapRand(); key[i] = 0x9e3779b97f4a7c15 * uint64(i+1)'))
std('time/time.go',
    ('func Now() Time {\n', '''var simOffset int64

// SimSetOffset makes Now answer d nanoseconds later than the underlying clock.
func SimSetOffset(d int64) { simOffset = d }

func Now() Time {
	if simOffset != 0 {
		return realNow().Add(Duration(simOffset))
	}
	return realNow()
}

func realNow() Time {
'''))
# --- Points between the statements of the code under test -------------------
# Its in-memory store is left out, as it is not for use by several goroutines.
out = subprocess.run(['go', 'run', '.', '/repo', os.path.join(B, 'yield'), '.git', 'cmd', 'db/memory'],
                     cwd=os.path.join(V, 'tools', 'yield'), stdout=subprocess.PIPE)
if out.returncode == 0:
    over.update(json.loads(out.stdout))
else:
    print('prepare.py: the points between statements are not available', file=sys.stderr)

put(os.path.join(B, 'overlay.json'), json.dumps({'Replace': over}, indent=1))

# --- goleveldb with a storage seam -----------------------------------------
mod = open('/repo/go.mod').read()
ver = re.search(r'github.com/syndtr/goleveldb (\S+)', mod).group(1)
src = os.path.join(MODCACHE, 'github.com/syndtr/goleveldb@' + ver)
dst = os.path.join(B, 'goleveldb')
for dp, dn, fn in os.walk(src):
    dn.sort()
    if os.path.basename(dp) in ('testutil', 'manualtest'):
        dn[:] = []
        continue
    for f in sorted(fn):
        if not (f.endswith('.go') or f in ('go.mod', 'LICENSE')) or f.endswith('_test.go'):
            continue
        rel = os.path.relpath(os.path.join(dp, f), src)
        t = open(os.path.join(dp, f)).read()
        if rel == 'leveldb/storage/file_storage.go':
            t = patch(t, 'func OpenFile(path string, readOnly bool) (Storage, error) {\n',
                      '''// SimOpen, if set, replaces OpenFile.
var SimOpen func(path string, readOnly bool) (Storage, error)

func OpenFile(path string, readOnly bool) (Storage, error) {
	if SimOpen != nil {
		return SimOpen(path, readOnly)
	}
''', what=rel)
        if rel == 'leveldb/db.go':
            t = patch(t, 'func openDB(s *session) (*DB, error) {', '''// SimOpened, if set, is told about every database that was opened.
var SimOpened func(*DB)

func openDB(s *session) (*DB, error) {
	db, err := openDBInner(s)
	if err == nil && SimOpened != nil {
		SimOpened(db)
	}
	return db, err
}

func openDBInner(s *session) (*DB, error) {''', what=rel)
            # A failed transaction keeps the write lock for ever, in this version.
            t = patch(t, """	// Acquire writer lock.
	db.writeLockC <- struct{}{}
""", """	select {
	case db.writeLockC <- struct{}{}:
	case <-time.After(time.Second):
	}
""", what=rel)
        # Housekeeping tickers that only return memory to the allocator: slow
        # them down, so that simulated months do not cost millions of wake-ups.
        if rel == 'leveldb/util/buffer_pool.go':
            t = patch(t, '\tgo p.drain()\n', '', what=rel)
        if rel == 'leveldb/db_state.go':
            t = patch(t, 'time.NewTicker(30 * time.Second)', 'time.NewTicker(2000 * time.Hour)', what=rel)
        put(os.path.join(dst, rel), t)
if not os.path.exists(os.path.join(dst, 'go.mod')):
    put(os.path.join(dst, 'go.mod'), 'module github.com/syndtr/goleveldb\n\ngo 1.14\n\nrequire github.com/golang/snappy v0.0.0-20180518054509-2e65f85255db\n')
