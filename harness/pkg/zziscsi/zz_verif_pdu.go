package zziscsi

import (
	zz "github.com/gostor/gotgt/pkg/zzsym"
)

func zero(b []byte) bool { return zz.EqBytes(b, make([]byte, len(b))) }

// layout checks the parts of a PDU of the target that are the same whatever it
// answers: the opcode, reserved fields, and the form of the data segment.
func layout(p pdu) {
	op := p.op()
	h := p.h
	zz.Assert(zero(p.pad), "padding-zero")
	switch op {
	case 0x20: // NOP-In
		zz.Assert(zz.And(h[1] == 0x80, zero(h[2:4]), zero(h[8:16]), p.w(20) == 0xffffffff, zero(h[36:48])), "layout-nop-in")
	case 0x21: // SCSI response
		zz.Assert(zz.And(h[1]&0x99 == 0x80, zero(h[8:16]), zero(h[20:24]), zero(h[36:44])), "layout-scsi-response")
		zz.Assert(zz.Implies(h[1]&0x06 == 0, zero(h[44:48])), "no-residual-without-flag")
		zz.Assert(h[1]&0x06 != 0x06, "overflow-or-underflow")
		if n := len(p.data); n > 0 {
			zz.Assert(n >= 2, "sense-length")
			zz.Assert(be(p.data[:2]) == uint64(n-2), "sense-length")
		}
	case 0x22: // task management response
		zz.Assert(zz.And(h[1] == 0x80, h[3] == 0, zero(h[8:16]), zero(h[20:24]), zero(h[36:48]), len(p.data) == 0), "layout-task-response")
	case 0x23: // login response
		zz.Assert(zz.And(h[1]&0x30 == 0, zero(h[2:4]), zero(h[20:24]), zero(h[38:48])), "layout-login-response")
		zz.Assert(h[1]&0xc0 != 0xc0, "transit-or-continue")
	case 0x24: // text response
		zz.Assert(zz.And(h[1] == 0x80, zero(h[2:4]), zero(h[8:16]), p.w(20) == 0xffffffff, zero(h[36:48])), "layout-text-response")
	case 0x25: // Data-In
		zz.Assert(zz.And(h[1]&0x78 == 0, h[2] == 0, zero(h[8:16])), "layout-data-in")
		zz.Assert(zz.Implies(h[1]&1 == 0, zz.And(h[1]&6 == 0, h[3] == 0, zero(h[44:48]))), "layout-data-in-no-status")
		zz.Assert(zz.Implies(h[1]&1 == 1, h[1]&0x80 != 0), "status-only-with-final")
		zz.Assert(zz.Implies(h[1]&6 == 0, zero(h[44:48])), "no-residual-without-flag")
		zz.Assert(h[1]&0x06 != 0x06, "overflow-or-underflow")
	case 0x26: // logout response
		zz.Assert(zz.And(h[1] == 0x80, h[3] == 0, zero(h[8:16]), zero(h[20:24]), zero(h[36:40]), zero(h[44:48]), len(p.data) == 0), "layout-logout-response")
	case 0x31: // R2T
		zz.Assert(zz.And(h[1] == 0x80, zero(h[2:4]), p.w(20) != 0xffffffff, len(p.data) == 0), "layout-r2t")
	case 0x3f: // reject
		zz.Assert(zz.And(h[1] == 0x80, h[3] == 0, zero(h[8:16]), p.w(16) == 0xffffffff, zero(h[20:24]), zero(h[36:48]), len(p.data) >= 48), "layout-reject")
	default:
		zz.Assert(false, "known-opcode")
	}
}

// ZZEcho sends a NOP-Out whose every field is arbitrary, with additional header
// segments, data and padding, and another PDU right after it.
//
//zz:prop C18,C19
//zz:bound NOP-Out with up to 2 AHS words and 6 bytes of data; arbitrary tag, LUN, target tag, status number, AHS, data and padding bytes; session and status numbers arbitrary
//zz:need echoed silent
func ZZEcho() {
	r, _ := oneTarget(2)
	c := r.dial()
	c.cmdSN = zz.U32("cmdsn")
	c.stat = zz.U32("stat")
	c.login()
	n := zz.Choose("len", 7)
	ahs := zz.Choose("ahs", 3)
	h := c.bhs(0x00, 0x80, n)
	imm := zz.Choose("imm", 2) == 1
	if imm {
		h[0] |= 0x40
	}
	h[4] = byte(ahs)
	tag := zz.U32("itt")
	copy(h[8:16], zz.Bytes("lun", 8))
	putBE(h[16:20], uint64(tag))
	copy(h[20:24], zz.Bytes("ttt", 4))
	copy(h[28:32], zz.Bytes("exp", 4))
	data := zz.Bytes("data", n)
	c.send(h)
	c.send(zz.Bytes("ahsdata", 4*ahs))
	c.send(data)
	c.send(zz.Bytes("pad", (4-n%4)%4))
	if !imm {
		c.cmdSN++
	}
	next := c.bhs(0x40, 0x80, 0)
	putBE(next[16:20], 0x77665544)
	c.send(next)
	got := c.pdus()
	silent := zz.Branch(tag == 0xffffffff)
	want := 2
	if silent {
		want = 1
		zz.Cover("silent")
	}
	zz.Assert(len(got) == want, "answers")
	if len(got) != want {
		return
	}
	for i, p := range got {
		layout(p)
		zz.Assert(p.op() == 0x20, "nop-in")
		zz.Assert(p.statSN() == c.stat+uint32(i), "stat-sn")
		zz.Assert(p.expCmd() == c.cmdSN, "exp-cmd-sn")
	}
	if !silent {
		zz.Cover("echoed")
		zz.Assert(got[0].itt() == tag, "tag")
		zz.Assert(zz.EqBytes(got[0].data, data), "ping-data")
		zz.Observe("nop", got[0].h)
	}
	zz.Assert(got[want-1].itt() == 0x77665544, "next-tag")
	zz.Assert(len(got[want-1].data) == 0, "next-data")
	zz.Assert(!c.closed, "open")
}

// ZZLun sends INQUIRY to an arbitrary LUN field.
//
//zz:prop C09,C18,C19
//zz:bound every 8-byte LUN field, tag and number; LUNs 0, 3 and 0x123 exist
//zz:need there absent
func ZZLun() {
	r := newRig()
	r.disk(tgtName, 0, 2)
	r.disk(tgtName, 3, 2)
	r.disk(tgtName, 0x123, 2)
	r.portal(0, r.here())
	r.target(tgtName, map[string][]uint64{"1": {0}})
	r.run()
	c := r.dial()
	c.cmdSN = zz.U32("cmdsn")
	c.stat = zz.U32("stat")
	c.login()
	b := c.scsi(0xc1, 0, 36, []byte{0x12, 0, 0, 0, 36, 0}, nil)
	lun := zz.Bytes("lun", 8)
	tag := zz.U32("itt")
	zz.Assume(tag != 0xffffffff)
	copy(b[8:16], lun)
	putBE(b[16:20], uint64(tag))
	c.send(b)
	p := c.one("answered")
	layout(p)
	zz.Assert(p.itt() == tag, "tag")
	zz.Assert(p.statSN() == c.stat, "stat-sn")
	zz.Assert(p.expCmd() == c.cmdSN+1, "exp-cmd-sn")
	rest := zero(lun[2:])
	peripheral := zz.And(rest, lun[0] == 0)
	flat := zz.And(rest, lun[0]>>6 == 1)
	num := uint64(lun[0]&0x3f)<<8 | uint64(lun[1])
	there := zz.Or(zz.And(peripheral, zz.Or(lun[1] == 0, lun[1] == 3)), zz.And(flat, zz.Or(num == 0, num == 3, num == 0x123)))
	if zz.Branch(there) {
		zz.Cover("there")
		zz.Assert(p.op() == 0x25, "data-in")
		zz.Assert(len(p.data) == 36, "length")
		zz.Assert(p.data[0] == 0, "unit-connected")
		return
	}
	zz.Cover("absent")
	if p.op() == 0x25 {
		zz.Assert(p.data[0] == 0x7f, "no-unit")
		return
	}
	zz.Assert(zz.And(p.op() == 0x21, p.h[2] == 0, p.h[3] == 2, len(p.data) >= 16), "check-condition")
	zz.Assert(zz.And(p.data[4]&0xf == 5, p.data[14] == 0x25, p.data[15] == 0), "unit-not-supported")
}

// ZZBlock reads and writes one block at an arbitrary address.
//
//zz:prop C18,C19
//zz:bound READ and WRITE (6, 10, 12, 16) of one block at every LBA of a disk of 3 blocks and beyond it; arbitrary data, tag and numbers
//zz:need read write beyond
func ZZBlock() {
	const nblk = 3
	r, st := oneTarget(nblk)
	c := r.dial()
	c.cmdSN = zz.U32("cmdsn")
	c.stat = zz.U32("stat")
	c.login()
	for i := 0; i < nblk; i++ {
		copy(st.mem[i*blk:], zz.Bytes("medium", 4))
	}
	was := append([]byte{}, st.mem...)
	form := zz.Choose("form", 4)
	write := zz.Choose("write", 2) == 1
	cdb := make([]byte, 16)
	var lba uint64
	switch form {
	case 0:
		cdb[0] = 0x08
		lba = uint64(zz.U32("lba")) & 0x1fffff
		putBE(cdb[1:4], lba)
		cdb[4] = 1
	case 1:
		cdb[0] = 0x28
		lba = uint64(zz.U32("lba"))
		putBE(cdb[2:6], lba)
		cdb[8] = 1
	case 2:
		cdb[0] = 0xa8
		lba = uint64(zz.U32("lba"))
		putBE(cdb[2:6], lba)
		cdb[9] = 1
	case 3:
		cdb[0] = 0x88
		lba = zz.U64("lba")
		putBE(cdb[2:10], lba)
		cdb[13] = 1
	}
	var data []byte
	flags := byte(0xc1)
	if write {
		cdb[0] += 2
		flags = 0xa1
		data = make([]byte, blk)
		copy(data[blk-4:], zz.Bytes("data", 4))
	}
	b := c.scsi(flags, 0, blk, cdb, data)
	tag := zz.U32("itt")
	zz.Assume(tag != 0xffffffff)
	putBE(b[16:20], uint64(tag))
	copy(b[28:32], zz.Bytes("exp", 4))
	c.send(b)
	p := c.one("answered")
	layout(p)
	zz.Assert(p.itt() == tag, "tag")
	zz.Assert(p.statSN() == c.stat, "stat-sn")
	zz.Assert(p.expCmd() == c.cmdSN+1, "exp-cmd-sn")
	if !zz.Branch(lba < nblk) {
		zz.Cover("beyond")
		zz.Assert(p.op() == 0x21, "scsi-response")
		zz.Assert(zz.And(p.h[2] == 0, p.h[3] == 2), "check-condition")
		zz.Assert(len(p.data) >= 2+14, "sense")
		zz.Assert(zz.And(p.data[2]&0x7f == 0x70, p.data[4]&0xf == 5, p.data[14] == 0x21, p.data[15] == 0), "lba-out-of-range")
		zz.Assert(zz.EqBytes(st.mem, was), "medium-untouched")
		return
	}
	at := int(zz.Concrete(lba)) * blk
	if write {
		zz.Cover("write")
		zz.Assert(p.op() == 0x21, "scsi-response")
		zz.Assert(zz.And(p.h[1] == 0x80, p.h[2] == 0, p.h[3] == 0, len(p.data) == 0), "good")
		copy(was[at:], data)
	} else {
		zz.Cover("read")
		zz.Assert(p.op() == 0x25, "data-in")
		zz.Assert(zz.And(p.h[1] == 0x81, p.h[3] == 0, zero(p.h[36:44])), "good")
		zz.Assert(zz.EqBytes(p.data, was[at:at+blk]), "data")
	}
	zz.Assert(zz.EqBytes(st.mem, was), "medium")
	zz.Observe("hdr", p.h)
}

// ZZTooLong announces more data than the target takes.
//
//zz:prop C18
//zz:bound every data segment length above 64 KiB, every AHS length, every initiator opcode, before and after login
func ZZTooLong() {
	r, st := oneTarget(2)
	c := r.dial()
	ops := []byte{0x40, 0x41, 0x42, 0x43, 0x44, 0x05, 0x46, 0x10}
	if zz.Choose("login", 2) == 1 {
		c.login()
	}
	h := c.bhs(ops[zz.Choose("op", len(ops))], 0x80, 0)
	n := zz.U32("len")
	zz.Assume(zz.And(n > 65536, n < 1<<24))
	h[4] = zz.U8("ahs")
	putBE(h[5:8], uint64(n))
	c.send(h)
	zz.Assert(len(c.pdus()) == 0, "no-answer")
	zz.Assert(c.closed, "closed")
	zz.Assert(zz.And(len(st.writes) == 0, st.reads == 0), "nothing-executed")
}

// ZZUnknown sends a PDU of a kind the target does not know.
//
//zz:prop C04,C18,C19
//zz:bound every opcode no initiator has or the target has no support for, all other bytes of the header arbitrary
func ZZUnknown() {
	r, st := oneTarget(2)
	c := r.dial()
	c.cmdSN = zz.U32("cmdsn")
	c.stat = zz.U32("stat")
	c.login()
	h := zz.Bytes("h", 48)
	h[4], h[5], h[6], h[7] = 0, 0, 0, 0
	op := h[0] & 0x3f
	zz.Assume(zz.And(op > 6, op != 0x23))
	h = append([]byte{}, h...)
	c.send(h)
	p := c.one("rejected")
	layout(p)
	zz.Assert(p.op() == 0x3f, "reject")
	zz.Assert(p.h[2] == 5, "reason")
	zz.Assert(p.statSN() == c.stat, "stat-sn")
	zz.Assert(p.expCmd() == c.cmdSN, "exp-cmd-sn")
	zz.Assert(zz.EqBytes(p.data, h), "header-returned")
	zz.Assert(zz.And(len(st.writes) == 0, st.reads == 0), "nothing-executed")
	zz.Assert(!c.closed, "open")
}

// ZZAnswers has the target send each kind of response.
//
//zz:prop C04,C19,C23
//zz:bound one response of each kind; arbitrary tag, numbers, login identifiers
//zz:need login nop response check data-in r2t task text logout reject
func ZZAnswers() {
	r, st := oneTarget(2)
	c := r.dial()
	c.cmdSN = zz.U32("cmdsn")
	c.stat = zz.U32("stat")
	first := c.stat
	tag := zz.U32("itt")
	zz.Assume(tag != 0xffffffff)
	isid := zz.U64("isid") & 0xffffffffffff
	cid := zz.U16("cid")
	l := loginPDU(c, 0x87, isid, 0, cid, text("InitiatorName="+iniName, "SessionType=Normal", "TargetName="+tgtName, "MaxBurstLength=1024"))
	putBE(l[16:20], uint64(tag))
	c.send(l)
	p := c.one("login-answered")
	layout(p)
	zz.Assert(zz.And(p.op() == 0x23, p.h[1] == 0x87, p.h[36] == 0, p.h[37] == 0), "login-accepted")
	zz.Assert(zz.And(be(p.h[8:14]) == isid, be(p.h[14:16]) != 0, p.itt() == tag), "login-identifiers")
	zz.Assert(p.statSN() == first, "login-stat-sn")
	zz.Assert(p.expCmd() == c.cmdSN, "login-exp-cmd-sn")
	zz.Assert(int32(p.maxCmd()-p.expCmd()) >= 0, "login-window")
	if zz.Choose("seg", 2) == 1 {
		zz.Cover("login")
	}
	copy(st.mem, zz.Bytes("medium", 8))

	var b []byte
	imm := byte(0)
	numbered := uint32(1)
	if zz.Choose("imm", 2) == 1 {
		imm, numbered = 0x40, 0
	}
	kind := zz.Choose("kind", 9)
	lastStat := first + 1
	stats := uint32(1)
	switch kind {
	case 0:
		b = c.bhs(0x00, 0x80, 0)
	case 1:
		b = c.scsi(0x81, 0, 0, make([]byte, 16), nil) // TEST UNIT READY
	case 2:
		b = c.scsi(0xc1, 0, blk, rw10(0x28, 99, 1), nil)
	case 3:
		b = c.scsi(0xc1, 0, blk, rw10(0x28, 0, 1), nil)
	case 4:
		b = c.scsi(0xa1, 0, blk, rw10(0x2a, 0, 1), nil)
	case 5:
		b = c.bhs(0x02, 0x80|5, 0)
		copy(b[20:24], zz.Bytes("ref", 4))
	case 6:
		t := text("SendTargets=")
		b = append(c.bhs(0x04, 0x80, len(t)), pad(t)...)
		putBE(b[20:24], 0xffffffff)
	case 7:
		b = c.bhs(0x06, 0x80, 0)
		putBE(b[20:22], uint64(cid))
	case 8:
		b = c.bhs(0x10, 0x80, 0)
		numbered = 0
	}
	b[0] |= imm
	putBE(b[16:20], uint64(tag))
	c.send(b)
	p = c.one("answered")
	layout(p)
	zz.Assert(p.statSN() == lastStat, "stat-sn")
	zz.Assert(p.expCmd() == c.cmdSN+numbered, "exp-cmd-sn")
	zz.Assert(int32(p.maxCmd()-p.expCmd()) >= 0, "window-open")
	if kind != 8 {
		zz.Assert(p.itt() == tag, "tag")
	}
	switch kind {
	case 0:
		zz.Assert(p.op() == 0x20, "nop-in")
		zz.Cover("nop")
	case 1:
		zz.Assert(zz.And(p.op() == 0x21, p.h[1] == 0x80, p.h[2] == 0, p.h[3] == 0, len(p.data) == 0), "response-good")
		zz.Cover("response")
	case 2:
		zz.Assert(zz.And(p.op() == 0x21, p.h[2] == 0, p.h[3] == 2, len(p.data) >= 20), "response-check")
		zz.Assert(zz.And(p.data[2]&0x7f == 0x70, p.data[4]&0xf == 5, p.data[14] == 0x21), "sense")
		zz.Cover("check")
	case 3:
		zz.Assert(zz.And(p.op() == 0x25, p.h[1] == 0x81, p.h[3] == 0, zero(p.h[36:48])), "data-in")
		zz.Assert(zz.EqBytes(p.data, st.mem[:blk]), "data")
		zz.Cover("data-in")
	case 4:
		zz.Assert(p.op() == 0x31, "r2t")
		zz.Assert(zz.And(p.w(36) == 0, p.w(40) == 0, p.w(44) == blk), "r2t-range")
		zz.Cover("r2t")
		stats = 0
	case 5:
		zz.Assert(zz.And(p.op() == 0x22, p.h[2] == 0), "task-response")
		zz.Cover("task")
	case 6:
		zz.Assert(zz.And(p.op() == 0x24, len(p.data) > 0), "text-response")
		zz.Cover("text")
	case 7:
		zz.Assert(zz.And(p.op() == 0x26, p.h[2] == 0), "logout-response")
		zz.Assert(c.closed, "closed-after-logout")
		zz.Cover("logout")
		return
	case 8:
		zz.Assert(zz.And(p.op() == 0x3f, zz.EqBytes(p.data, b)), "reject")
		zz.Cover("reject")
	}
	zz.Observe("answer", p.h)
	// and what follows carries on from there
	c.cmdSN += numbered
	b = c.bhs(0x00, 0x80, 0)
	c.send(b)
	p = c.one("next-answered")
	zz.Assert(p.statSN() == lastStat+stats, "next-stat-sn")
	zz.Assert(p.expCmd() == c.cmdSN+1, "next-exp-cmd-sn")
}
