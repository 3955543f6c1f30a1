package wal

import "github.com/unit-io/unitdb/zz_verif/vrt"

// VerifLogRecord: the header of a log.
// @prop C10
// @bound all values of all fields
// @reach end
func VerifLogRecord() {
	l := _LogInfo{version: vrt.U16("version"), timeID: vrt.I64("time"), count: vrt.U32("count"), size: vrt.U32("size")}
	buf, err := l.MarshalBinary()
	vrt.Assert(err == nil && len(buf) == logHeaderSize, "C10/log-marshal")
	var r _LogInfo
	vrt.Assert(r.UnmarshalBinary(buf) == nil, "C10/log-unmarshal")
	vrt.Assert(r.version == l.version && r.timeID == l.timeID && r.count == l.count && r.size == l.size, "C10/log")
	vrt.Reach("end")
}
