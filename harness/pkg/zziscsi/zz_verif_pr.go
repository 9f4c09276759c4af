package zziscsi

import (
	zz "github.com/gostor/gotgt/pkg/zzsym"
)

// prOut sends PERSISTENT RESERVE OUT and returns the status.
func (c *ini) prOut(action, typ byte, key, sa uint64) byte {
	cdb := make([]byte, 16)
	cdb[0], cdb[1], cdb[2], cdb[8] = 0x5f, action, typ, 24
	p := make([]byte, 24)
	putBE(p[0:8], key)
	putBE(p[8:16], sa)
	c.send(c.scsi(0xa1, 0, 24, cdb, p))
	c.cmdSN++
	r := c.one("answered")
	zz.Assert(r.op() == 0x21, "response")
	c.stat = r.statSN() + 1
	return r.h[3]
}

// writes tries to write a block and returns the status.
func (c *ini) writes(lba uint32, with byte) byte {
	d := make([]byte, blk)
	d[0] = with
	c.send(c.scsi(0xa1, 0, blk, rw10(0x2a, lba, 1), d))
	c.cmdSN++
	r := c.one("answered")
	zz.Assert(r.op() == 0x21, "response")
	c.stat = r.statSN() + 1
	return r.h[3]
}

// ZZReservationOutlives: persistent reservations are those of the initiator
// port, whichever of its sessions it uses.
//
//zz:prop C33
//zz:bound one initiator registers (any key) and reserves (any of the types) and its session ends by logout, loss of the connection, or goes on; a login follows with any ISID, with the same or another initiator name
//zz:need same other-isid other-name logout lost reinstated
func ZZReservationOutlives() {
	r, st := oneTarget(4)
	a := r.dial()
	a.login()
	key := zz.U64("key")
	zz.Assume(key != 0)
	zz.Assert(a.prOut(0, 0, 0, key) == 0, "registers")
	typ := []byte{1, 3, 5, 6}[zz.Choose("type", 4)]
	zz.Assert(a.prOut(1, typ, key, 0) == 0, "reserves")
	isid := zz.U64("isid")
	zz.Assume(isid < 1<<48)
	same := true
	if zz.Branch(isid != 0x400001370000) {
		zz.Cover("other-isid")
		same = false
	}
	name := iniName
	if zz.Choose("name", 2) == 1 {
		zz.Cover("other-name")
		name += "2"
		same = false
	}
	switch zz.Choose("end", 3) {
	case 0:
		zz.Cover("logout")
		a.send(a.bhs(0x46, 0x80, 0))
		zz.Assert(a.one("logout").op() == 0x26, "logout-response")
		a.c.Close()
		a.settle()
	case 1:
		zz.Cover("lost")
		a.c.Close()
		a.settle()
	case 2:
		// goes on, unless the login takes its place
		if same {
			zz.Cover("reinstated")
		}
	}
	b := r.dial()
	b.loginAs(name, isid, 0, 1, tgtName)
	status := b.writes(1, 7)
	if same {
		zz.Cover("same")
		zz.Assert(status == 0, "holder-has-access-again")
		zz.Assert(b.prOut(2, typ, key, 0) == 0, "holder-releases")
		zz.Assert(b.prOut(0, 0, key, 0) == 0, "registered-still")
		return
	}
	zz.Assert(status == 0x18, "kept-out")
	zz.Assert(len(st.writes) == 0, "kept-out-command-has-no-effect")
	zz.Assert(b.prOut(2, typ, key, 0) == 0x18, "not-registered")
}

// command sends a command without data and returns the status.
func (c *ini) command(cdb ...byte) byte {
	full := make([]byte, 16)
	copy(full, cdb)
	c.send(c.scsi(0x80, 0, 0, full, nil))
	c.cmdSN++
	r := c.one("answered")
	zz.Assert(r.op() == 0x21, "response")
	c.stat = r.statSN() + 1
	return r.h[3]
}

// ZZReserveSessions: RESERVE is for one session, and ends with it.
//
//zz:prop C12,C26
//zz:bound two sessions, the second with any ISID and the same or another initiator name; the reservation ends by RELEASE, logout, loss of the connection, a new session in its place, a logical unit reset by either, or not at all
//zz:need release logout lost replaced reset kept
func ZZReserveSessions() {
	r, st := oneTarget(4)
	a := r.dial()
	const isid = 0x400001370000
	a.login()
	other := zz.U64("isid")
	zz.Assume(other < 1<<48)
	name := iniName
	if zz.Choose("name", 2) == 1 {
		name += "2"
	} else {
		zz.Assume(other != isid)
	}
	b := r.dial()
	b.loginAs(name, other, 0, 1, tgtName)
	zz.Assert(a.command(0x16) == 0, "reserved")
	zz.Assert(b.writes(1, 7) == 0x18, "kept-out")
	zz.Assert(len(st.writes) == 0, "kept-out-command-has-no-effect")
	zz.Assert(b.command(0x17) == 0, "release-by-another-is-good")
	zz.Assert(b.command(0x00) == 0x18, "release-by-another-has-no-effect")
	zz.Assert(a.writes(0, 8) == 0, "holder-has-access")
	reset := func(c *ini, f byte) {
		h := c.bhs(0x42, 0x80|f, 0)
		putBE(h[20:24], 0xffffffff)
		c.send(h)
		p := c.one("reset-answered")
		zz.Assert(zz.And(p.op() == 0x22, p.h[2] == 0), "reset-done")
		c.stat = p.statSN() + 1
	}
	switch zz.Choose("end", 6) {
	case 0:
		zz.Cover("kept")
		zz.Assert(b.command(0x16) == 0x18, "reserved-by-another")
		zz.Assert(b.writes(1, 7) == 0x18, "kept-out-still")
		return
	case 1:
		zz.Cover("release")
		zz.Assert(a.command(0x17) == 0, "released")
	case 2:
		zz.Cover("logout")
		a.send(a.bhs(0x46, 0x80, 0))
		zz.Assert(a.one("logout").op() == 0x26, "logout-response")
		a.c.Close()
		a.settle()
	case 3:
		zz.Cover("lost")
		a.c.Close()
		a.settle()
	case 4:
		zz.Cover("replaced")
		n := r.dial()
		n.login()
		zz.Assert(n.command(0x00) == 0, "the-new-session-has-access")
	case 5:
		zz.Cover("reset")
		if zz.Choose("by", 2) == 0 {
			reset(a, 5)
		} else {
			reset(b, 5)
		}
	}
	zz.Assert(b.writes(1, 7) == 0, "access-after-the-end")
	zz.Assert(b.command(0x16) == 0, "reserved-in-turn")
}
