module ksim

go 1.27

require (
	filippo.io/edwards25519 v1.1.0
	github.com/Bren2010/katie v0.0.0
	github.com/syndtr/goleveldb v1.0.0
)

require (
	filippo.io/nistec v0.0.3 // indirect
	github.com/golang/snappy v0.0.0-20180518054509-2e65f85255db // indirect
)

replace github.com/Bren2010/katie => /repo

replace github.com/syndtr/goleveldb => ../.build/goleveldb
