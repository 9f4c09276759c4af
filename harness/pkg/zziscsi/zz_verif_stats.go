package zziscsi

import (
	"github.com/gostor/gotgt/pkg/port/iscsit"
	"github.com/gostor/gotgt/pkg/scsi"
	zz "github.com/gostor/gotgt/pkg/zzsym"
)

// counted is what the statistics should say.
type counted struct {
	reads, writes, rbytes, wbytes int64
	ops                           map[int]int64
}

func (w *counted) same(s scsi.Stats) {
	zz.Assert(zz.And(s.ReadIOPS == w.reads, s.WriteIOPS == w.writes), "reads-and-writes-counted-once-each")
	zz.Assert(zz.And(s.TotalReadBlockCount == w.rbytes, s.TotalWriteBlockCount == w.wbytes), "bytes-of-reads-and-writes")
	n := int64(0)
	for op, k := range s.SCSIIOCount {
		zz.Assert(k == w.ops[op], "commands-counted-by-operation")
		n += k
	}
	all := int64(0)
	for _, k := range w.ops {
		all += k
	}
	zz.Assert(n == all, "every-command-is-counted")
}

func rw6(op byte, lba uint32, n byte) []byte {
	c := make([]byte, 16)
	c[0], c[2], c[3], c[4] = op, byte(lba>>8), byte(lba), n
	return c
}

func rw12(op byte, lba, n uint32) []byte {
	c := make([]byte, 16)
	c[0] = op
	putBE(c[2:6], uint64(lba))
	putBE(c[6:10], uint64(n))
	return c
}

func rw16(op byte, lba uint64, n uint32) []byte {
	c := make([]byte, 16)
	c[0] = op
	putBE(c[2:10], lba)
	putBE(c[10:14], uint64(n))
	return c
}

// ZZStatistics executes one command with arbitrary fields, or several commands in two sessions and compares the statistics.
//
//zz:prop C32
//zz:bound one command with any address, opcode and length, or 3 (thorough: 4) steps in two sessions: READ and WRITE (6), (10), (12) and (16) of 1 or 2 blocks at any address with the data unsolicited or solicited and the answer in one or several PDUs, expected lengths up to 2048 in steps of 256, every other opcode, NOP-Out
//zz:need read write solicited fails other nop
func ZZStatistics() {
	iscsit.EnableStats = true
	r, _ := oneTarget(4)
	a, b := r.dial(), r.dial()
	a.login("MaxRecvDataSegmentLength=512")
	b.loginAs(iniName+"2", 0x400001370000, 0, 1, tgtName)
	w := &counted{ops: map[int]int64{}}
	w.same(r.drv.Stats())
	cdb := func(form int, write bool, lba uint32, n int) []byte {
		k := byte(0)
		if write {
			k = 2
		}
		switch form {
		case 0:
			return rw6(8+k, lba, byte(n))
		case 1:
			return rw10(0x28+k, lba, uint16(n))
		case 2:
			return rw12(0xa8+k, lba, uint32(n))
		}
		return rw16(0x88+k, uint64(lba), uint32(n))
	}
	first, steps := zz.Choose("first", 2), 3
	if zz.Thorough() {
		steps = 4
	}
	if first == 0 {
		steps = 1
	}
	for i := 0; i < steps; i++ {
		c := a
		if i == 1 {
			c = b
		}
		form, n := 1, 1
		if i == 0 {
			form, n = zz.Choose("form", 4), 1+zz.Choose("blocks", 2)
		}
		switch zz.Choose("step", 5) {
		case 0:
			// wherever it is, whatever length the initiator expects
			before := r.drv.Stats()
			lba, edtl := uint32(1), uint32(n*blk)
			if first == 0 {
				lba, edtl = zz.U32("lba"), zz.U32("edtl")
				zz.Assume(zz.And(edtl <= 4*blk, edtl&0xff == 0))
			}
			if form == 0 {
				zz.Assume(lba < 1<<16)
			}
			x := cdb(form, false, lba, n)
			c.send(c.scsi(0xc1, 0, edtl, x, nil))
			c.cmdSN++
			p := c.pdus()
			zz.Assert(len(p) > 0, "answered")
			now := r.drv.Stats()
			got := now.TotalReadBlockCount - before.TotalReadBlockCount
			if p[len(p)-1].op() == 0x25 {
				zz.Cover("read")
				zz.Assert(zz.Implies(edtl == uint32(n*blk), got == int64(n*blk)), "bytes-of-a-read")
				zz.Assert(zz.And(got >= int64(n*blk), got <= int64(edtl)), "bytes-of-a-read")
			} else {
				zz.Cover("fails")
				// a read which fails is counted, what it would have
				// transferred may be
				zz.Assert(zz.Or(got == 0, got == int64(edtl)), "bytes-of-a-read-which-fails")
			}
			w.reads++
			w.rbytes += got
			w.ops[int(x[0])]++
		case 1:
			zz.Cover("write")
			x := cdb(form, true, 1, n)
			c.send(c.scsi(0xa1, 0, uint32(n*blk), x, make([]byte, n*blk)))
			c.cmdSN++
			zz.Assert(c.one("answered").op() == 0x21, "response")
			w.writes++
			w.wbytes += int64(n * blk)
			w.ops[int(x[0])]++
		case 2:
			zz.Cover("solicited")
			x := cdb(form, true, 1, n)
			c.send(c.scsi(0xa1, 0, uint32(n*blk), x, nil))
			c.cmdSN++
			tag := c.itt
			p := c.one("r2t")
			zz.Assert(p.op() == 0x31, "r2t")
			w.same(r.drv.Stats())
			if zz.Choose("between", 2) == 1 {
				// another command while the first waits for its data
				y := make([]byte, 16)
				c.send(c.scsi(0x81, 0, 0, y, nil))
				c.cmdSN++
				zz.Assert(c.one("between").op() == 0x21, "response")
				w.ops[0]++
				w.same(r.drv.Stats())
			}
			c.send(c.dataOut(tag, p.w(20), true, 0, 0, make([]byte, n*blk)))
			zz.Assert(c.one("answered").op() == 0x21, "response")
			w.writes++
			w.wbytes += int64(n * blk)
			w.ops[int(x[0])]++
		case 3:
			zz.Cover("other")
			x := make([]byte, 16)
			op := byte(0x12)
			if first == 0 {
				op = zz.U8("other")
			}
			rw := op == 0x08
			for _, y := range []byte{0x0a, 0x28, 0x2a, 0x88, 0x8a, 0xa8, 0xaa} {
				rw = zz.Or(rw, op == y)
			}
			zz.Assume(!rw)
			x[0] = op
			c.send(c.scsi(0x81, 0, 0, x, nil))
			c.cmdSN++
			zz.Assert(c.one("answered").op() == 0x21, "response")
			w.ops[int(zz.Concrete(uint64(op)))]++
		case 4:
			zz.Cover("nop")
			c.send(c.bhs(0x40, 0x80, 0))
			zz.Assert(c.one("answered").op() == 0x20, "nop-in")
		}
		w.same(r.drv.Stats())
	}
}
