package unitdb

import (
	"bytes"

	"github.com/unit-io/unitdb/zz_verif/vos"
	"github.com/unit-io/unitdb/zz_verif/vrt"
)

// @const . entriesPerWindowBlock=3
// @const . entriesPerIndexBlock=4
// @const . nBlocks=1

// zzInFiles tells whether any file contains b.
func zzInFiles(b []byte) bool {
	for _, name := range vos.List(zzPath) {
		if bytes.Contains(vos.Data(name), b) {
			return true
		}
	}
	return false
}

// VerifSealed: what is to be encrypted is never written in clear, and everything is read back, with the right key only.
// @prop C15
// @bound database opened with or without encryption, 3 (thorough 4) steps of put with or without encryption of the entry, batch of one of each, sync, close and open (from then on with encryption, or as before), log and kill; then sync; then open with another key; payloads concrete, ideal cipher; the first bytes of a message are its epoch and may be in clear
// @steps 200000000
// @reach end
// @reach plain-found
// @reach wrong-key
func VerifSealed() {
	zzFresh()
	key := []byte("0123456789abcdefghijklmnopqrstuv")
	opts := []Options{WithEncryptionKey(key)}
	enc := vrt.Bool("encrypted")
	if enc {
		opts = append(opts, WithEncryption())
	}
	db := zzOpen(opts...)
	type msg struct {
		p      []byte
		sealed bool
	}
	var msgs []msg
	next := func(sealed bool) *Entry {
		p := []byte("<<message-0>>")
		p[10] += byte(len(msgs))
		msgs = append(msgs, msg{p: append([]byte(nil), p...), sealed: sealed || enc})
		e := NewEntry([]byte("ab.cd"), p)
		if sealed {
			e = e.WithEncryption()
		}
		return e
	}
	check := func(tag string) {
		got := zzGet(db, "ab.cd", 0, 100)
		j := 0
		for i := len(msgs) - 1; i >= 0; i-- {
			vrt.Assert(j < len(got) && bytes.Equal(got[j], msgs[i].p), tag+"/read-back")
			j++
			found := zzInFiles(msgs[i].p[5:])
			vrt.Assert(!msgs[i].sealed || !found, tag+"/in-clear")
			if found {
				vrt.Reach("plain-found")
			}
		}
		vrt.Assert(j == len(got), tag+"/extra")
	}
	n := 3
	if vrt.Thorough() {
		n = 4
	}
	for i := 0; i < n; i++ {
		switch vrt.Choose("op", 6) {
		case 0:
			vrt.Assert(db.PutEntry(next(false)) == nil, "put-refused")
		case 1:
			vrt.Assert(db.PutEntry(next(true)) == nil, "put-refused")
		case 2:
			first := vrt.Bool("first")
			err := db.Batch(func(b *Batch, completed <-chan struct{}) error {
				if err := b.PutEntry(next(first)); err != nil {
					return err
				}
				return b.PutEntry(next(!first))
			})
			vrt.Assert(err == nil, "batch-fails")
			vrt.Settle()
		case 3:
			zzSync(db)
		case 4:
			vrt.Assert(db.Close() == nil, "close-fails")
			vrt.Settle()
			if !enc && vrt.Bool("now-encrypted") {
				enc = true
				opts = append(opts, WithEncryption())
			}
			db = zzOpen(opts...)
		case 5:
			zzLog()
			vos.Reboot()
			db = zzOpen(opts...)
		}
		check("C15/sealed")
	}
	zzSync(db)
	check("C15/sealed-sync")
	vrt.Reach("end")
	vrt.Assert(db.Close() == nil, "close-fails")
	vrt.Settle()
	other := append([]byte(nil), key...)
	other[vrt.Choose("other", 2)*17] ^= 1
	db = zzOpen(WithEncryptionKey(other))
	got, err := db.Get(NewQuery([]byte("ab.cd")).WithLimit(100))
	any := false
	for _, m := range msgs {
		if !m.sealed {
			continue
		}
		any = true
		for _, g := range got {
			vrt.Assert(!bytes.Equal(g, m.p), "C15/wrong-key-reads")
		}
	}
	vrt.Assert(err != nil || !any, "C15/wrong-key-accepted")
	if any {
		vrt.Reach("wrong-key")
	}
}
