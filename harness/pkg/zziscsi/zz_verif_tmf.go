package zziscsi

import (
	zz "github.com/gostor/gotgt/pkg/zzsym"
)

type pending struct {
	c       *ini
	st      *zzStore
	lun     uint64
	tag     uint32
	ttt     []byte
	lba     int
	aborted bool
	maybe   bool
}

// ZZTaskManagement has writes wait for their data, in two sessions and on two
// logical units, sends a task management request, and then the data.
//
//zz:prop C27
//zz:bound up to 3 writes waiting for data in one session and 1 in another, on 2 logical units; every function, referenced task tag, RefCmdSN and the LUNs 0 to 255 in both formats, immediate or not
//zz:need abort abort-none set set-no-lun reset reset-no-lun other
func ZZTaskManagement() {
	r := newRig()
	stores := []*zzStore{r.disk(tgtName, 0, 4), r.disk(tgtName, 1, 4)}
	r.portal(0, r.here())
	r.target(tgtName, map[string][]uint64{"1": {0}})
	r.run()
	a, b := r.dial(), r.dial()
	a.login()
	b.loginAs(iniName+"2", 0x400001370000, 0, 1, tgtName)
	b.itt = 0x100 // the same tags as in the other session

	var tasks []*pending
	write := func(c *ini, lba int) {
		lun := uint64(zz.Choose("lun", 2))
		c.send(c.scsi(0xa1, lun, blk, rw10(0x2a, uint32(lba), 1), nil))
		c.cmdSN++
		p := c.one("r2t")
		zz.Assert(zz.And(p.op() == 0x31, p.itt() == c.itt), "r2t")
		tasks = append(tasks, &pending{c: c, st: stores[lun], lun: lun, tag: c.itt, ttt: p.h[20:24], lba: lba})
	}
	n := 2
	if zz.Thorough() {
		n = 3
	}
	for i := 0; i < n; i++ {
		write(a, i)
	}
	write(b, 3)

	fn := zz.U8("function")
	tag := zz.U32("referenced")
	lun := zz.U8("lun")
	h := a.bhs(0x02, 0x80|fn, 0)
	if zz.Choose("immediate", 2) == 1 {
		h[0] |= 0x40
	} else {
		a.cmdSN++
	}
	zz.Assume(fn < 0x80)
	h[8], h[9] = 0, lun
	if zz.Choose("format", 2) == 1 {
		// flat space addressing
		h[8] = 0x40
	}
	putBE(h[20:24], uint64(tag))
	putBE(h[32:36], uint64(zz.U32("refcmdsn")))
	a.send(h)
	p := a.one("answered")
	layout(p)
	zz.Assert(p.op() == 0x22, "task-management-response")
	zz.Assert(p.itt() == a.itt, "tag")
	zz.Assert(p.statSN() == a.stat, "stat-sn")
	a.stat++
	zz.Assert(len(b.pdus()) == 0, "other-session-silent")
	code := p.h[2]
	exists := zz.Branch(lun < 2)
	switch zz.Concrete(uint64(fn)) {
	case 1:
		var t *pending
		for _, x := range tasks {
			if x.c == a && zz.Branch(x.tag == tag) {
				t = x
			}
		}
		if t == nil {
			zz.Cover("abort-none")
			zz.Assert(zz.Or(code == 1, code == 0), "no-such-task")
			break
		}
		zz.Cover("abort")
		if !zz.Branch(uint64(lun) == t.lun) {
			// the wrong logical unit: it may be refused
			zz.Assert(zz.Or(code == 0, zz.Or(code == 1, code == 2)), "aborted-or-not")
			t.aborted = zz.Branch(code == 0)
			break
		}
		zz.Assert(code == 0, "function-complete")
		t.aborted = true
	case 2:
		if !exists {
			zz.Cover("set-no-lun")
			zz.Assert(code == 2, "lun-does-not-exist")
			break
		}
		zz.Cover("set")
		zz.Assert(code == 0, "function-complete")
		for _, t := range tasks {
			t.aborted = t.c == a && zz.Branch(uint64(lun) == t.lun)
		}
	case 5:
		if !exists {
			zz.Cover("reset-no-lun")
			zz.Assert(code == 2, "lun-does-not-exist")
			break
		}
		zz.Cover("reset")
		zz.Assert(code == 0, "function-complete")
		for _, t := range tasks {
			t.aborted = zz.Branch(uint64(lun) == t.lun)
		}
	case 3, 4, 6, 7:
		zz.Cover("other")
		zz.Assert(code == 5, "not-supported")
	case 8:
		zz.Assert(zz.Or(code == 4, code == 5), "reassignment-not-supported")
	default:
		zz.Assert(zz.Or(code == 255, code == 5), "unknown-function")
	}
	for i, t := range tasks {
		data := make([]byte, blk)
		data[0], data[blk-1] = byte(i+1), byte(i+1)
		h := t.c.bhs(0x05, 0x80, blk)
		putBE(h[16:20], uint64(t.tag))
		copy(h[20:24], t.ttt)
		t.c.send(append(h, data...))
		got := t.c.pdus()
		if t.aborted {
			zz.Assert(len(got) == 0, "no-response-to-an-aborted-task")
			zz.Assert(len(t.st.writes) == 0 || t.st.mem[t.lba*blk] == 0, "aborted-task-changes-nothing")
			continue
		}
		zz.Assert(len(got) == 1, "other-tasks-complete")
		if len(got) != 1 {
			zz.Stop()
		}
		zz.Assert(zz.And(got[0].op() == 0x21, zz.And(got[0].h[3] == 0, got[0].itt() == t.tag)), "other-tasks-succeed")
		zz.Assert(zz.EqBytes(t.st.mem[t.lba*blk:(t.lba+1)*blk], data), "other-tasks-write")
		zz.Assert(got[0].statSN() == t.c.stat, "stat-sn-goes-on")
		t.c.stat++
	}
	for _, c := range []*ini{a, b} {
		zz.Assert(!c.closed, "connection-goes-on")
		c.send(c.bhs(0x40, 0x80, 0))
		zz.Assert(c.one("works").op() == 0x20, "works")
	}
}

// ZZResetReservation resets a logical unit that is reserved.
//
//zz:prop C27,C12
//zz:bound a RESERVE(6) by one of 2 sessions; every task management function by either, LUNs 0 to 255; then commands of both
//zz:need reset kept
func ZZResetReservation() {
	r := newRig()
	r.disk(tgtName, 0, 2)
	r.disk(tgtName, 1, 2)
	r.portal(0, r.here())
	r.target(tgtName, map[string][]uint64{"1": {0}})
	r.run()
	c := []*ini{r.dial(), r.dial()}
	c[0].login()
	c[1].loginAs(iniName+"2", 0x400001370000, 0, 1, tgtName)
	run := func(c *ini, op byte) byte {
		cdb := make([]byte, 16)
		cdb[0] = op
		c.send(c.scsi(0x81, 0, 0, cdb, nil))
		c.cmdSN++
		p := c.one("answered")
		zz.Assert(p.op() == 0x21, "response")
		return byte(zz.Concrete(uint64(p.h[3])))
	}
	zz.Assert(run(c[0], 0x16) == 0, "reserved")
	by := c[zz.Choose("by", 2)]
	fn, lun := zz.U8("function"), zz.U8("lun")
	zz.Assume(fn < 0x80)
	h := by.bhs(0x42, 0x80|fn, 0)
	h[9] = lun
	putBE(h[20:24], uint64(zz.U32("referenced")))
	by.send(h)
	p := by.one("answered")
	zz.Assert(p.op() == 0x22, "task-management-response")
	want := byte(0x18)
	if zz.Branch(zz.And(fn == 5, lun == 0)) {
		want = 0
		zz.Cover("reset")
	} else {
		zz.Cover("kept")
	}
	zz.Assert(run(c[1], 0) == want, "reservation-state")
	zz.Assert(run(c[0], 0) == 0, "holder-goes-on")
}
