package unitdb

import (
	"time"

	"github.com/unit-io/unitdb/zz_verif/vcrand"
	"github.com/unit-io/unitdb/zz_verif/vos"
	"github.com/unit-io/unitdb/zz_verif/vrt"
	"github.com/unit-io/unitdb/zz_verif/vtime"
)

const zzPath = "/vdb"

// zzFresh starts with an empty file system and a known clock.
func zzFresh() {
	vcrand.Fixed = true
	vos.Reset()
	vtime.Clear()
	vtime.ClearSec()
	vtime.SetStep(1000)
	vtime.Set(1600000000 * 1000000000)
}

func zzOpen(opts ...Options) *DB {
	vtime.Clear()
	db, err := Open(zzPath, opts...)
	vrt.Assert(err == nil && db != nil, "open-fails")
	vrt.Settle()
	return db
}

// zzLog lets the background log writer run once: what was put so far is in the write ahead log.
func zzLog() {
	vtime.Fire(500 * time.Millisecond)
	vrt.Settle()
}

// zzNextBlock moves on to the next time block, so that Sync takes what was logged.
func zzNextBlock() {
	vtime.Advance(time.Second)
	vtime.Fire(500 * time.Millisecond)
	vrt.Settle()
}

func zzSync(db *DB) {
	zzNextBlock()
	vrt.Assert(db.Sync() == nil, "sync-fails")
}

func zzGet(db *DB, topic string, contract uint32, limit int) [][]byte {
	items, err := db.Get(NewQuery([]byte(topic)).WithContract(contract).WithLimit(limit))
	vrt.Assert(err == nil, "get-fails")
	return items
}
