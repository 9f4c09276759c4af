package zzscsi

import (
	"github.com/gostor/gotgt/pkg/api"
	"github.com/gostor/gotgt/pkg/scsi"
	zz "github.com/gostor/gotgt/pkg/zzsym"
)

// hasActions tells whether an operation code has service actions (SPC-4).
func hasActions(op byte) bool {
	return op == 0x5e || op == 0x5f || op == 0x9e || op == 0xa3
}

// ZZSupportedOps compares what REPORT SUPPORTED OPERATION CODES lists with what
// becomes of a command.
//
//zz:prop C37
//zz:bound every operation code and service action, with a CDB which is right otherwise; with and without timeouts descriptors; ORWRITE and persistent reservations switched on and off
//zz:need listed not-listed action
//zz:opt conc=300
func ZZSupportedOps() {
	scsi.EnableORWrite16 = zz.Choose("orwrite", 2) == 1
	scsi.EnablePersistentReservation = zz.Choose("reservations", 2) == 1
	rctd := zz.Choose("rctd", 2) == 1
	zzMedium = &zzStore{size: 64, mem: make([]byte, 64)}
	t := zzNewTarget(3, true, 0)
	cdb := make([]byte, 16)
	cdb[0], cdb[1], cdb[8] = 0xa3, 0x0c, 16
	size := 8
	if rctd {
		cdb[2], size = 0x80, 20
	}
	c := t.cmd(0, 0, cdb, false, 4096, nil)
	t.run(c)
	zz.Assert(c.Result == stGood, "good")
	n := int(c.InSDBBuffer.Resid)
	if n < 4 || n > 4096 {
		zz.Assert(false, "length")
		zz.Stop()
	}
	list := c.InSDBBuffer.Buffer[:n]
	zz.Assert(be(list[:4]) == uint64(n-4) && (n-4)%size == 0, "length")
	op, sa := zz.U8("op"), zz.U8("action")
	zz.Assume(sa < 32)
	was := map[[2]byte]bool{}
	var here, any []bool
	for p := list[4:]; len(p) >= size; p = p[size:] {
		k := [2]byte{p[0], p[3]}
		zz.Assert(!was[k], "once")
		was[k] = true
		action := p[5]&1 != 0
		zz.Assert(action == hasActions(p[0]) && p[2] == 0 && (action || p[3] == 0), "service-action-valid")
		zz.Assert((p[5]&2 != 0) == rctd && p[5]&^3 == 0 && p[1] == 0 && p[4] == 0, "flags")
		zz.Assert(p[6] == 0 && p[7] == []byte{6, 10, 10, 0, 16, 12, 0, 0}[p[0]>>5], "length-of-the-cdb")
		if rctd {
			zz.Assert(p[8] == 0 && p[9] == 10, "timeouts-descriptor")
		}
		any = append(any, op == p[0])
		if action {
			here = append(here, zz.And(op == p[0], sa == p[3]))
		} else {
			here = append(here, op == p[0])
		}
	}
	x := make([]byte, 16)
	x[0], x[1] = op, sa
	switch {
	case zz.Branch(op == 0x5e):
		x[8] = 64
	case zz.Branch(op == 0x5f):
		x[2], x[8] = 1, 24
	case zz.Branch(op == 0x9e):
		x[13] = 64
	case zz.Branch(op == 0xa3):
		x[9] = 64
	case zz.Branch(op == 0xa0):
		x[1], x[9] = 0, 64
	default:
		x[1] = 0
	}
	c = t.cmd(0, 0, x, false, 64, nil)
	c.OutSDBBuffer = &api.SCSIDataBuffer{Length: 24, Buffer: make([]byte, 24)}
	t.run(c)
	asc := uint16(0)
	if zz.Branch(c.Result == stCheck) {
		_, a, ok := sense(c)
		zz.Assert(ok, "sense")
		asc = a
	}
	listed := zz.Or(here...)
	if zz.Branch(listed) {
		zz.Cover("listed")
		zz.Assert(asc != 0x2000, "listed-is-supported")
		if hasActions(op) {
			zz.Cover("action")
			// REGISTER AND MOVE has other parameters
			zz.Assert(zz.Or(asc != 0x2400, zz.And(op == 0x5f, sa == 7)), "listed-action-is-supported")
		}
	} else {
		zz.Cover("not-listed")
		zz.Assert(zz.Or(asc == 0x2000, zz.And(asc == 0x2400, zz.Or(any...), hasActions(op))), "not-listed-is-refused")
	}
}
