package unitdb

import "github.com/unit-io/unitdb/zz_verif/vrt"

// VerifEntryRecord: the record of a message in the log.
// @prop C10
// @bound all values of all fields
// @reach end
func VerifEntryRecord() {
	e := _Entry{seq: vrt.U64("seq"), topicSize: vrt.U16("ts"), valueSize: vrt.U32("vs"), expiresAt: vrt.U32("exp"), topicHash: vrt.U64("hash")}
	buf, err := e.MarshalBinary()
	vrt.Assert(err == nil, "C10/entry-marshal")
	var r _Entry
	vrt.Assert(r.UnmarshalBinary(buf) == nil, "C10/entry-unmarshal")
	vrt.Assert(r.seq == e.seq && r.topicSize == e.topicSize && r.valueSize == e.valueSize &&
		r.expiresAt == e.expiresAt && r.topicHash == e.topicHash, "C10/entry")
	vrt.Reach("end")
}

// VerifInfoRecord: the header of the database.
// @prop C10
// @bound all values of all fields
// @reach end
func VerifInfoRecord() {
	i := _DBInfo{header: _Header{signature: signature, version: vrt.U32("version")}, encryption: int8(vrt.U8("enc")), sequence: vrt.U64("seq"), count: vrt.U64("count")}
	buf, err := i.MarshalBinary()
	vrt.Assert(err == nil, "C10/info-marshal")
	var r _DBInfo
	vrt.Assert(r.UnmarshalBinary(buf) == nil, "C10/info-unmarshal")
	vrt.Assert(r.header == i.header && r.sequence == i.sequence && r.count == i.count, "C10/info")
	vrt.Assert(r.encryption == i.encryption, "C10/info-encryption")
	vrt.Reach("end")
}

// VerifIndexRecord: an index block of full size.
// @prop C10
// @bound blocks of 255 entries: the first three and the last one with any sequence of the block in any order, any sizes and data offsets (deleted or not), any count of entries; the others empty
// @steps 20000000
// @reach end
func VerifIndexRecord() {
	var b _IndexBlock
	base := vrt.U64("base")
	vrt.Assume(base < 1<<39)
	at := []int{0, 1, 2, entriesPerIndexBlock - 1}
	for _, i := range at {
		k := vrt.U8("seq")
		vrt.Assume(k < entriesPerIndexBlock)
		b.entries[i] = _IndexEntry{seq: base*entriesPerIndexBlock + 1 + uint64(k), topicSize: vrt.U16("ts"), valueSize: vrt.U32("vs"), msgOffset: vrt.I64("off")}
	}
	b.entryIdx = vrt.U16("n")
	var r _IndexBlock
	vrt.Assert(r.unmarshalBinary(b.marshalBinary()) == nil, "C10/index-unmarshal")
	for _, i := range at {
		w, g := b.entries[i], r.entries[i]
		vrt.Assert(g.seq == w.seq, "C10/index-seq")
		vrt.Assert(g.topicSize == w.topicSize && g.valueSize == w.valueSize && g.msgOffset == w.msgOffset, "C10/index")
	}
	vrt.Assert(r.entries[3].seq == 0 && r.entryIdx == b.entryIdx, "C10/index-count")
	vrt.Reach("end")
}

// VerifWindowRecord: a window block of full size.
// @prop C10
// @bound blocks of 335 entries: the first two and the last one with any sequence and expiry; any topic, link, cutoff and count
// @steps 20000000
// @reach end
func VerifWindowRecord() {
	var b _WinBlock
	at := []int{0, 1, entriesPerWindowBlock - 1}
	for _, i := range at {
		b.entries[i] = _WinEntry{sequence: vrt.U64("seq"), expiresAt: vrt.U32("exp")}
	}
	b.topicHash, b.next, b.cutoffTime, b.entryIdx = vrt.U64("hash"), vrt.I64("next"), vrt.I64("cutoff"), vrt.U16("n")
	var r _WinBlock
	vrt.Assert(r.unmarshalBinary(b.marshalBinary()) == nil, "C10/window-unmarshal")
	for _, i := range at {
		vrt.Assert(r.entries[i] == b.entries[i], "C10/window")
	}
	vrt.Assert(r.topicHash == b.topicHash && r.next == b.next && r.cutoffTime == b.cutoffTime && r.entryIdx == b.entryIdx, "C10/window-head")
	vrt.Reach("end")
}

// VerifFreeRecord: the list of free blocks.
// @prop C10
// @bound lists of up to 3 blocks with any offset but 0 and any size
// @reach end
func VerifFreeRecord() {
	n := vrt.Choose("n", 4)
	b := &_FreeBlocks{}
	for i := 0; i < n; i++ {
		off := vrt.I64("off")
		vrt.Assume(off != 0)
		b.fb = append(b.fb, _FreeBlock{offset: off, size: vrt.U32("size")})
	}
	buf := b.MarshalBinary()
	r := &_FreeBlocks{}
	vrt.Assert(r.UnmarshalBinary(buf[4:], uint32(n)) == nil && int(buf[0]) == n, "C10/free-unmarshal")
	vrt.Assert(len(r.fb) == n, "C10/free-count")
	for i := 0; i < n; i++ {
		vrt.Assert(r.fb[i] == b.fb[i], "C10/free")
	}
	vrt.Reach("end")
}

// VerifIndexPlace: every sequence has a place of its own in the index file.
// @prop C10
// @bound any two sequences up to 2^35; block size and entries per block as in the code
// @reach end
func VerifIndexPlace() {
	a, b := vrt.U64("a"), vrt.U64("b")
	vrt.Assume(a > 0 && a < b && b < 1<<35)
	ia, ib := blockIndex(a), blockIndex(b)
	vrt.Assert(ia >= 0 && ia <= ib, "C10/place-order")
	oa, ob := blockOffset(ia), blockOffset(ib)
	vrt.Assert(oa >= 0 && oa == int64(ia)*4096 && ob == int64(ib)*4096, "C10/place-offset")
	if ia == ib {
		vrt.Assert(b-a < entriesPerIndexBlock, "C10/place-full")
	}
	vrt.Reach("end")
}

// VerifWindowPlace: every window block has a place of its own in the window file.
// @prop C10
// @bound any number of window blocks up to 2^30
// @reach end
func VerifWindowPlace() {
	k := vrt.I32("blocks")
	vrt.Assume(k >= 0 && k < 1<<30)
	w := &_WindowWriter{windowIdx: k, winBlocks: make(map[int32]_WinBlock), winLeases: make(map[int32][]uint64)}
	off, err := w.append(vrt.U64("hash"), 0, _WindowEntries{newWinEntry(vrt.U64("seq")|1, 0)})
	vrt.Assert(err == nil, "C10/window-append")
	vrt.Assert(off == (int64(k)+1)*4096, "C10/window-place")
	vrt.Assert(winBlockOffset(k) == int64(k)*4096, "C10/window-offset")
	vrt.Reach("end")
}
