package zziscsi

import (
	"strconv"

	"github.com/gostor/gotgt/pkg/port/iscsit"
	"github.com/gostor/gotgt/pkg/scsi"
	zz "github.com/gostor/gotgt/pkg/zzsym"
)

// What one of two initiators does at the same time as the other.
const (
	doWrite = iota
	doSolicited
	doRead
	doNop
	doLuns
	doLogout
	doDrop
	doAgain
	doNew
	doTargets
	doReset
	doAbort
	doKinds
)

type actor struct {
	r      *rig
	k      int // which of the two
	round  int
	kind   int
	name   string
	isid   uint64
	c      *ini // the session
	x      *ini // the connection which is used
	tag    uint32
	want   []byte
	alive  bool // the session lives on
	others bool // the other may abort this command
}

// pattern goes into the data of the blocks.
var pattern byte

func block(k, round int) []byte {
	b := make([]byte, blk)
	for i := range b {
		b[i] = byte(k*64+i+round) ^ pattern
	}
	return b
}

func (a *actor) prepare() {
	a.c = a.r.dial()
	a.c.loginAs(a.name, a.isid, 0, 1, tgtName)
	a.x, a.alive = a.c, true
	switch a.kind {
	case doSolicited:
		a.c.send(a.c.scsi(0xa1, 0, blk, rw10(0x2a, uint32(a.k), 1), nil))
		a.c.cmdSN++
		p := a.c.one("r2t")
		zz.Assert(p.op() == 0x31, "r2t")
		a.tag, a.want = a.c.itt, p.h[20:24]
	case doAgain:
		a.x = a.r.dial()
	case doNew:
		a.x = a.r.dial()
	case doTargets:
		a.x = a.r.dial()
		a.x.loginAs(a.name, a.isid+8, 0, 1, "")
	}
}

func (a *actor) act() {
	c := a.x
	switch a.kind {
	case doWrite:
		c.send(c.scsi(0xa1, 0, blk, rw10(0x2a, uint32(a.k), 1), block(a.k, a.round+1)))
		c.cmdSN++
	case doSolicited:
		c.send(c.dataOut(a.tag, uint32(be(a.want)), true, 0, 0, block(a.k, a.round+1)))
	case doRead:
		c.send(c.scsi(0xc1, 0, blk, rw10(0x28, uint32(2+a.k), 1), nil))
		c.cmdSN++
	case doNop:
		c.send(append(c.bhs(0x00, 0x80, 8), "ping pon"...))
		c.cmdSN++
	case doLuns:
		x := make([]byte, 16)
		x[0], x[9] = 0xa0, 64
		c.send(c.scsi(0xc1, 0, 64, x, nil))
		c.cmdSN++
	case doLogout:
		c.send(c.bhs(0x06, 0x80, 0))
		c.cmdSN++
		a.alive = false
	case doDrop:
		c.c.Close()
		a.alive = false
	case doAgain:
		c.send(loginPDU(c, 0x87, a.isid, 0, 1, text("InitiatorName="+a.name, "SessionType=Normal", "TargetName="+tgtName)))
	case doNew:
		c.send(loginPDU(c, 0x87, a.isid+16, 0, 1, text("InitiatorName="+a.name, "SessionType=Normal", "TargetName="+tgtName)))
	case doTargets:
		t := text("SendTargets=All")
		h := c.bhs(0x04, 0x80, len(t))
		h[20], h[21], h[22], h[23] = 0xff, 0xff, 0xff, 0xff
		c.send(append(h, pad(t)...))
		c.cmdSN++
	case doReset, doAbort:
		fn := byte(5)
		if a.kind == doAbort {
			fn = 2
		}
		h := c.bhs(0x02, 0x80|fn, 0)
		c.send(h)
		c.cmdSN++
	}
}

// answered looks at what has come. A reset of the logical unit by the other
// may have aborted the command.
func (a *actor) answered(mem []byte) {
	got := a.x.pdus()
	kind := a.kind
	command := kind == doWrite || kind == doSolicited || kind == doRead || kind == doLuns
	now := mem[a.k*blk : (a.k+1)*blk]
	if kind == doWrite || kind == doSolicited {
		was, is := block(a.k, a.round), block(a.k, a.round+1)
		if len(got) == 0 || got[0].op() != 0x21 {
			zz.Assert(zz.Or(zz.EqBytes(now, was), zz.EqBytes(now, is)), "whole-block")
		} else {
			zz.Assert(zz.EqBytes(now, is), "written")
		}
	}
	if command && a.others && len(got) == 0 {
		zz.Cover("aborted")
		a.finish(mem)
		return
	}
	if kind == doDrop {
		a.finish(mem)
		return
	}
	zz.Assert(len(got) > 0, "answered")
	if len(got) == 0 {
		zz.Stop()
	}
	p := got[len(got)-1]
	zz.Assert(len(got) == 1 || kind == doRead || kind == doLuns, "one-answer")
	for _, q := range got {
		layout(q)
	}
	if kind != doAgain && kind != doNew {
		if p.op() != 0x25 || p.h[1]&1 != 0 {
			zz.Assert(p.statSN() == a.x.stat, "statsn")
			a.x.stat++
		}
		zz.Assert(p.itt() == a.x.itt, "task-tag")
		zz.Assert(p.expCmd() == a.x.cmdSN, "expcmdsn")
	}
	switch kind {
	case doWrite, doSolicited:
		zz.Assert(p.op() == 0x21 && p.h[2] == 0 && p.h[3] == 0, "good")
	case doRead:
		was := block(2+a.k, 0)
		zz.Assert(len(got) == 1 && p.op() == 0x25 && p.h[1]&0x81 == 0x81 && p.h[3] == 0, "data-and-status")
		zz.Assert(zz.EqBytes(p.data, was), "data-as-stored")
	case doNop:
		zz.Assert(p.op() == 0x20 && string(p.data) == "ping pon", "echo")
	case doLuns:
		zz.Assert(len(got) == 1 && p.op() == 0x25 && p.h[3] == 0, "luns")
		zz.Assert(len(p.data) == 16 && be(p.data[:4]) == 8 && be(p.data[8:]) == 0, "the-lun")
	case doLogout:
		zz.Assert(p.op() == 0x26 && p.h[2] == 0, "logged-out")
		zz.Assert(a.x.closed, "closed")
	case doAgain, doNew:
		zz.Assert(p.op() == 0x23 && p.h[36] == 0 && p.h[1] == 0x87, "logged-in")
		a.x.tsih, a.x.stat = uint16(be(p.h[14:16])), p.statSN()+1
	case doTargets:
		zz.Assert(p.op() == 0x24, "text-response")
		t := told(p.data)
		zz.Assert(len(t) == 1 && len(t[tgtName]) == 1 && t[tgtName][0] == a.r.here()+",1", "the-target")
	case doReset, doAbort:
		zz.Assert(p.op() == 0x22 && p.h[2] == 0, "function-complete")
	}
	a.finish(mem)
}

// finish sees whether the sessions work, and only those that should.
func (a *actor) finish(mem []byte) {
	switch a.kind {
	case doLogout, doDrop:
		return
	case doAgain:
		a.c.settle()
		zz.Assert(a.c.closed, "reinstated-session-is-closed")
		a.x.works()
		return
	case doNew:
		a.x.works()
	}
	a.c.works()
}

func (c *ini) works() {
	zz.Assert(!c.closed, "stays-open")
	if c.closed {
		zz.Stop()
	}
	c.send(c.scsi(0x81, 0, 0, make([]byte, 16), nil))
	c.cmdSN++
	p := c.one("works")
	zz.Assert(p.op() == 0x21 && p.itt() == c.itt && p.expCmd() == c.cmdSN, "works")
}

// ZZSideBySide has two sessions do something at the same time.
//
//zz:prop C02,C20,C21,C23,C26,C35
//zz:opt tries=3
//zz:bound two sessions of the same or of different initiators, each of which does one of 12 things (a write with its data, the data of a write, a read, NOP-Out, REPORT LUNS, a logout, the end of the connection, the same session again, another session, SendTargets, a reset, an abort) at the same time, every interleaving with up to 1 preemption at statements which touch what both use
//zz:need aborted
func ZZSideBySide() {
	r, st := oneTarget(4)
	pattern = zz.U8("pattern")
	a := &actor{r: r, k: 0, name: initiators[0], isid: 1}
	b := &actor{r: r, k: 1, name: initiators[1], isid: 1}
	if zz.Choose("same", 2) == 1 {
		b.name, b.isid = a.name, 2
	}
	a.kind = zz.Choose("a", doKinds)
	b.kind = zz.Choose("b", doKinds)
	a.others, b.others = b.kind == doReset, a.kind == doReset
	rounds := 1
	if !zz.Symbolic() {
		rounds = 20
	}
	for round := 0; round < rounds; round++ {
		for k := 0; k < 2; k++ {
			copy(st.mem[k*blk:], block(k, round))
			copy(st.mem[(2+k)*blk:], block(2+k, 0))
		}
		a.round, b.round = round, round
		a.prepare()
		b.prepare()
		zz.Quiesce()
		zz.Races(1)
		a.act()
		zz.HeadStart()
		b.act()
		zz.Quiesce()
		zz.Races(0)
		a.answered(st.mem)
		b.answered(st.mem)
		n := 0
		for _, x := range []*actor{a, b} {
			if x.alive {
				n++
			}
			if x.kind == doNew {
				n++
			}
		}
		nexus := 0
		for _, t := range r.svc.Targets {
			nexus += len(t.ITNexus)
		}
		zz.Assert(nexus == n, "one-nexus-per-session")
		for _, x := range []*actor{a, b} {
			x.c.c.Close()
			x.x.c.Close()
		}
		zz.Quiesce()
	}
}

// ZZStatisticsRace has two sessions read and write at the same time, and
// compares the statistics.
//
//zz:prop C32,C35
//zz:opt tries=3
//zz:bound two sessions with one READ or WRITE each at the same time, while the statistics are asked for or not, every interleaving with up to 2 preemptions at statements which touch what both use
func ZZStatisticsRace() {
	iscsit.EnableStats = true
	r, _ := oneTarget(4)
	w := &counted{ops: map[int]int64{}}
	var write [2]bool
	for i := range write {
		write[i] = zz.Choose("write"+strconv.Itoa(i), 2) == 1
	}
	ask := zz.Choose("ask", 2) == 1
	c := []*ini{r.dial(), r.dial()}
	for i, x := range c {
		x.loginAs(initiators[i], 1, 0, 1, tgtName)
	}
	rounds := 1
	if !zz.Symbolic() {
		rounds = 40
	}
	for ; rounds > 0; rounds-- {
		zz.Quiesce()
		zz.Races(2)
		for i, x := range c {
			if i > 0 {
				zz.HeadStart()
			}
			if write[i] {
				x.send(x.scsi(0xa1, 0, blk, rw10(0x2a, uint32(i), 1), make([]byte, blk)))
				w.writes++
				w.wbytes += blk
				w.ops[0x2a]++
			} else {
				x.send(x.scsi(0xc1, 0, 2*blk, rw10(0x28, uint32(i), 2), nil))
				w.reads++
				w.rbytes += 2 * blk
				w.ops[0x28]++
			}
			x.cmdSN++
		}
		if ask {
			zz.HeadStart()
			s := r.drv.Stats()
			n := int64(0)
			for _, k := range s.SCSIIOCount {
				n += k
			}
			zz.Assert(n == s.ReadIOPS+s.WriteIOPS, "consistent")
		}
		zz.Quiesce()
		zz.Races(0)
		for _, x := range c {
			zz.Assert(len(x.pdus()) > 0, "answered")
		}
		w.same(r.drv.Stats())
	}
}

// ZZRemap changes the LUNs of a target while a session with it does something.
//
//zz:prop C30,C35,C09
//zz:opt tries=3
//zz:bound a LUN added, removed, or the mapping read again, at the same time as one of: a read from that LUN, REPORT LUNS, a read from another LUN, a LU reset, a logout, a login; every interleaving with up to 2 preemptions at statements which touch what both use
//zz:need there not-there
func ZZRemap() {
	r := newRig()
	r.disk(tgtName, 0, 2)
	st := r.disk(tgtName, 1, 2)
	pattern = zz.U8("pattern")
	copy(st.mem, block(1, 0))
	m := scsi.LUNMapping{TargetName: tgtName, LUN: 1, DeviceID: 1001}
	r.portal(0, r.here())
	r.target(tgtName, map[string][]uint64{"1": {0}})
	r.run()
	change, kind := zz.Choose("change", 3), zz.Choose("kind", 6)
	rounds := 1
	if !zz.Symbolic() {
		rounds = 20
	}
	for ; rounds > 0; rounds-- {
		zz.Assert(scsi.AddLUNMapping(m) == nil, "mapped")
		if change == 0 {
			scsi.DelLUNMapping(m)
		}
		c := r.dial()
		c.login()
		x := c
		if kind == 5 {
			x = r.dial()
		}
		zz.Quiesce()
		zz.Races(2)
		switch kind {
		case 0, 2:
			lun := uint64(1)
			if kind == 2 {
				lun = 0
			}
			c.send(c.scsi(0xc1, lun, blk, rw10(0x28, 0, 1), nil))
			c.cmdSN++
		case 1:
			y := make([]byte, 16)
			y[0], y[9] = 0xa0, 64
			c.send(c.scsi(0xc1, 0, 64, y, nil))
			c.cmdSN++
		case 3:
			h := c.bhs(0x02, 0x85, 0)
			h[9] = 1
			c.send(h)
			c.cmdSN++
		case 4:
			c.send(c.bhs(0x06, 0x80, 0))
		case 5:
			x.send(loginPDU(x, 0x87, 77, 0, 1, text("InitiatorName="+iniName, "SessionType=Normal", "TargetName="+tgtName)))
		}
		zz.HeadStart()
		switch change {
		case 0:
			zz.Assert(scsi.AddLUNMapping(m) == nil, "mapped")
		case 1:
			scsi.DelLUNMapping(m)
		case 2:
			r.drv.RereadTargetLUNMap()
		}
		zz.Quiesce()
		zz.Races(0)
		got := x.pdus()
		zz.Assert(len(got) == 1, "answered")
		if len(got) != 1 {
			zz.Stop()
		}
		p := got[0]
		there := false
		switch kind {
		case 0, 2:
			if p.op() == 0x25 {
				there = true
				zz.Assert(zz.And(len(p.data) == blk, p.h[3] == 0), "data")
				want := block(1, 0)
				if kind == 2 {
					want = make([]byte, blk)
				}
				zz.Assert(zz.EqBytes(p.data, want), "data-of-the-lun")
			} else {
				zz.Assert(zz.And(p.op() == 0x21, p.h[3] == 2), "no-such-lun")
				zz.Assert(kind == 0, "the-other-lun-stays")
			}
		case 1:
			zz.Assert(p.op() == 0x25, "luns")
			n := len(p.data)
			there = n == 24
			zz.Assert(zz.And(n == 16 || n == 24, be(p.data[:4]) == uint64(n-8)), "one-or-two-luns")
		case 3:
			there = p.h[2] == 0
			zz.Assert(p.op() == 0x22 && (p.h[2] == 0 || p.h[2] == 2), "reset")
		case 4:
			zz.Assert(p.op() == 0x26, "logged-out")
		case 5:
			zz.Assert(p.op() == 0x23 && p.h[36] == 0, "logged-in")
		}
		if kind == 0 || kind == 1 || kind == 3 {
			zz.Assert(there || change != 2, "stays-mapped")
			if there {
				zz.Cover("there")
			} else {
				zz.Cover("not-there")
			}
		}
		c.c.Close()
		x.c.Close()
		zz.Quiesce()
	}
}
