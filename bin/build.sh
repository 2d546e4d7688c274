#!/bin/bash
# Builds the simulator binary from the current working tree of /repo.
#   - copies goleveldb out of the module cache and gives its storage layer a
#     seam (the copy is used through a replace directive; /repo is untouched)
#   - generates an overlay of four files of the Go standard library, which puts
#     map iteration order, select order, the preemption timer and the wall
#     clock's offset under the simulator's control
# Everything it writes goes below /verif/.build.
set -eu
export HOME=${HOME:-/root} PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GONOSUMDB='*' GONOSUMCHECK=1 GOFLAGS="-mod=mod" CGO_ENABLED=0
V=$(cd "$(dirname "$0")/.." && pwd)
B=$V/.build
mkdir -p "$B"
exec 9>"$B/lock"; flock 9
python3 "$V/bin/prepare.py" "$V" "$B" "$(go env GOROOT)" "$(go env GOMODCACHE)"
cd "$V/sim"
go test -c -trimpath -vet=off -overlay "$B/overlay.json" -o "$B/ksim.tmp" . || {
	# Without the points between statements, should they be what is in the way.
	python3 - "$B" <<'EOF'
import json, os, sys
B = sys.argv[1]
o = json.load(open(B + '/overlay.json'))['Replace']
json.dump({'Replace': {k: v for k, v in o.items() if not v.startswith(os.path.join(B, 'yield'))}}, open(B + '/plain.json', 'w'))
EOF
	go test -c -trimpath -vet=off -overlay "$B/plain.json" -o "$B/ksim.tmp" .
}
mv "$B/ksim.tmp" "$B/ksim"
