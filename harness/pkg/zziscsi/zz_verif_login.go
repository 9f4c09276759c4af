package zziscsi

import (
	"strings"

	zz "github.com/gostor/gotgt/pkg/zzsym"
)

// refused checks the answer to a login that is refused: nothing, or a failure
// status, and the end of the connection.
func (c *ini) refused(got []pdu) {
	for _, p := range got {
		layout(p)
		zz.Assert(zz.Or(p.op() == 0x23, p.op() == 0x3f), "refused-answer")
		if p.op() == 0x23 {
			zz.Assert(zz.And(p.h[36] != 0, p.h[36] <= 3), "refused-status")
			zz.Assert(p.h[1]&0x80 == 0, "refused-no-transit")
			zz.Assert(p.statSN() == c.stat, "refused-stat-sn")
		}
	}
	zz.Assert(len(got) <= 1, "refused-once")
	zz.Assert(c.closed, "refused-closed")
}

// ZZBeforeLogin sends any PDUs before the login phase has ended, and then a command.
//
//zz:prop C24,C23
//zz:bound up to 2 (thorough: 3) PDUs with every opcode, flags and stages and one of 6 texts, then a read and a write
//zz:need in out refused security operational
func ZZBeforeLogin() {
	r, st := oneTarget(2)
	c := r.dial()
	c.cmdSN = zz.U32("cmdsn")
	c.stat = zz.U32("stat")
	names := text("InitiatorName="+iniName, "SessionType=Normal", "TargetName="+tgtName)
	texts := [][]byte{
		names,
		text("InitiatorName="+iniName, "SessionType=Normal", "TargetName="+tgtName, "AuthMethod=CHAP,None", "HeaderDigest=CRC32C,None"),
		{},
		text("InitiatorName="+iniName, "SessionType=Normal", "TargetName="+iqn+"nobody"),
		text("SessionType=Normal", "TargetName="+tgtName),
		text("InitiatorName="+iniName, "SessionType=Normal", "TargetName="+tgtName, "AuthMethod=CHAP"),
	}
	stage := byte(0xff) // the stage the login is in
	full := false
	named := false // the names have come
	good := true   // and are right
	bound := false // and a session has been bound to them
	steps := 2
	if zz.Thorough() {
		steps = 3
	}
	for i := 0; i < steps && !full; i++ {
		if !zz.Branch(zz.Bool("more")) {
			break
		}
		k := zz.Choose("text", len(texts))
		t := texts[k]
		h := c.bhs(0, 0, len(t))
		op := zz.U8("op")
		zz.Assume(op&0x80 == 0)
		h[0] = op
		h[1] = zz.U8("flags")
		h[2], h[3] = zz.U8("vmax"), 0
		putBE(h[8:14], 0x400001370000)
		c.send(append(h, pad(append([]byte{}, t...))...))
		got := c.pdus()
		if !zz.Branch(op&0x3f == 3) {
			c.refused(got)
			return
		}
		flags := h[1]
		transit := zz.Branch(flags&0x80 != 0)
		cont := zz.Branch(flags&0x40 != 0)
		csg := byte(zz.Concrete(uint64(flags >> 2 & 3)))
		nsg := byte(zz.Concrete(uint64(flags & 3)))
		if c.closed {
			zz.Cover("refused")
			c.refused(got)
			// right requests are not refused
			plain := k < 2 && !cont && stage == 0xff
			zz.Assert(!(plain && csg == 1 && (!transit || nsg == 3)), "operational-accepted")
			zz.Assert(!(plain && csg == 0 && (!transit || nsg == 1 || nsg == 3)), "security-accepted")
			zz.Assert(!(csg == 1 && stage == 1 && !cont && (!transit || nsg == 3) && named && good && (k < 3 || k == 5 || bound)), "next-stage-accepted")
			return
		}
		zz.Assert(len(got) == 1, "answered")
		if len(got) != 1 {
			return
		}
		p := got[0]
		layout(p)
		zz.Assert(p.op() == 0x23, "login-response")
		zz.Assert(p.h[36] == 0, "accepted")
		zz.Assert(p.statSN() == c.stat, "stat-sn")
		zz.Assert(zz.And(p.expCmd() == c.cmdSN, int32(p.maxCmd()-p.expCmd()) >= 0), "numbers")
		zz.Assert(p.itt() == c.itt, "tag")
		c.stat++
		zz.Assert(!(transit && cont), "transit-and-continue-refused")
		zz.Assert(p.h[1]>>2&3 == csg, "stage-echoed")
		if cont {
			zz.Assert(p.h[1]&0x80 == 0, "no-transit-before-the-rest")
			// the rest of the text has to follow: end the exploration here
			return
		}
		zz.Assert(csg != 2, "reserved-stage-refused")
		zz.Assert(stage == 0xff || csg == stage, "stage-in-order")
		if !bound && (k < 2 || k == 3 || k == 5) {
			named = true
			good = k != 3
		}
		if !bound && k == 4 {
			good = true
		}
		if csg == 0 {
			zz.Cover("security")
		} else {
			zz.Cover("operational")
		}
		stage = csg
		if zz.Branch(p.h[1]&0x80 != 0) {
			zz.Assert(transit, "transit-as-asked")
			to := byte(zz.Concrete(uint64(p.h[1] & 3)))
			zz.Assert(to > csg && to <= nsg && to != 2 || to == 3 && csg == 1, "transit-to-a-later-stage")
			stage = to
			full = to == 3
		}
		if csg == 1 {
			zz.Assert(named, "name-needed")
			zz.Assert(good, "target-needed")
			// later names change nothing
			bound = true
		}
	}
	if full {
		zz.Assert(named && good, "names-needed")
		zz.Cover("in")
	} else {
		zz.Cover("out")
	}
	if zz.Choose("then", 2) == 0 {
		c.send(c.scsi(0xc1, 0, blk, rw10(0x28, 0, 1), nil))
	} else {
		c.send(c.scsi(0xa1, 0, blk, rw10(0x2a, 0, 1), make([]byte, blk)))
	}
	got := c.pdus()
	if full {
		zz.Assert(len(got) == 1, "works")
		zz.Assert(st.reads+len(st.writes) == 1, "executed")
		return
	}
	zz.Assert(st.reads+len(st.writes) == 0, "nothing-executed")
	c.refused(got)
}

// ZZLoginAgain sends a login request after the login phase.
//
//zz:prop C24
//zz:bound one login request with any flags after login, in a normal and in a discovery session
func ZZLoginAgain() {
	r, _ := oneTarget(2)
	c := r.dial()
	disc := zz.Choose("discovery", 2) == 1
	if disc {
		c.loginAs(iniName, 1, 0, 1, "")
	} else {
		c.login()
	}
	t := text("InitiatorName="+iqn+"other", "SessionType=Normal", "TargetName="+tgtName)
	l := loginPDU(c, 0, 1, zz.U16("tsih"), zz.U16("cid"), t)
	l[1] = zz.U8("flags")
	zz.Assume(l[1]&0xc0 != 0xc0)
	c.send(l)
	got := c.pdus()
	for _, p := range got {
		zz.Assert(p.op() == 0x3f, "rejected")
		c.stat++
	}
	if c.closed {
		return
	}
	zz.Assert(len(got) == 1, "answered")
	c.send(c.scsi(0xc1, 0, 36, []byte{0x12, 0, 0, 0, 36, 0}, nil))
	got = c.pdus()
	if disc {
		for _, p := range got {
			zz.Assert(p.op() == 0x3f, "no-commands-in-discovery")
		}
		return
	}
	zz.Assert(len(got) == 1 && got[0].op() == 0x25, "session-goes-on")
}

// ZZDiscoveryOnly sends requests of a normal session in a discovery session.
//
//zz:prop C24,C28
//zz:bound one PDU of each kind with any flags in a discovery session, whose login names no target, one that exists or one that does not
//zz:need none named missing
func ZZDiscoveryOnly() {
	r, st := oneTarget(2)
	c := r.dial()
	switch zz.Choose("target", 3) {
	case 0:
		zz.Cover("none")
		c.loginAs(iniName, 1, 0, 1, "")
	case 1:
		zz.Cover("named")
		c.loginAs(iniName, 1, 0, 1, "", "TargetName="+tgtName)
	case 2:
		zz.Cover("missing")
		c.send(loginPDU(c, 0x87, 1, 0, 1, text("InitiatorName="+iniName, "SessionType=Discovery", "TargetName="+tgtName+"x")))
		p := c.one("login-answered")
		layout(p)
		if zz.Branch(p.h[36] != 0) {
			c.refused([]pdu{p})
			return
		}
	}
	h := zz.Bytes("h", 48)
	h = append([]byte{}, h...)
	h[4], h[5], h[6], h[7] = 0, 0, 0, 0
	op := h[0] & 0x3f
	zz.Assume(zz.And(op != 4, op != 6))
	c.send(h)
	for _, p := range c.pdus() {
		layout(p)
		zz.Assert(zz.Or(p.op() == 0x3f, zz.And(p.op() == 0x20, op == 0)), "no-answer-but-reject")
	}
	zz.Assert(st.reads+len(st.writes) == 0, "nothing-executed")
}

// ZZSplitText sends the text of a login in pieces.
//
//zz:prop C17,C24,C25
//zz:bound the text of a login cut in 2 or 3 pieces at any place, also inside of a key or value
func ZZSplitText() {
	r, _ := oneTarget(2)
	c := r.dial()
	c.stat = zz.U32("stat")
	t := text("InitiatorName="+iniName, "SessionType=Normal", "TargetName="+tgtName, "DefaultTime2Wait=7", "X-zz=1")
	step := 7
	if zz.Thorough() {
		step = 1
	}
	a := step * zz.Choose("cut", len(t)/step)
	b := len(t)
	if zz.Choose("three", 2) == 1 {
		b = a + (len(t)-a)/2
	}
	cuts := []int{0, a, b, len(t)}
	var p pdu
	for i := 0; i < 3; i++ {
		if i > 0 && cuts[i] == cuts[i+1] {
			continue
		}
		flags := byte(0x47)
		if cuts[i+1] == len(t) {
			flags = 0x87
		}
		if flags == 0x47 {
			flags &^= 3
		}
		c.send(loginPDU(c, flags, 1, 0, 1, t[cuts[i]:cuts[i+1]]))
		p = c.one("answered")
		layout(p)
		zz.Assert(zz.And(p.op() == 0x23, p.h[36] == 0), "accepted")
		zz.Assert(p.statSN() == c.stat, "stat-sn")
		c.stat++
		if flags != 0x87 {
			zz.Assert(p.h[1]&0xc0 == 0, "waits-for-the-rest")
			zz.Assert(len(p.data) == 0, "no-text-yet")
		}
	}
	zz.Assert(p.h[1] == 0x87, "full-feature")
	kv := items(p.data)
	zz.Assert(count(kv, "DefaultTime2Wait=") == 1 && find(kv, "DefaultTime2Wait=") == "7", "whole-key")
	zz.Assert(count(kv, "X-zz=") == 1 && find(kv, "X-zz=") == "NotUnderstood", "whole-unknown-key")
	c.send(c.bhs(0x40, 0x80, 0))
	zz.Assert(c.one("works").op() == 0x20, "works")
}

// items takes a text apart.
func items(b []byte) []string {
	var out []string
	start := 0
	for i := range b {
		if zz.Branch(b[i] == 0) {
			out = append(out, string(b[start:i]))
			start = i + 1
		}
	}
	zz.Assert(start == len(b), "text-ends-with-null")
	return out
}

func count(kv []string, key string) int {
	n := 0
	for _, s := range kv {
		if strings.HasPrefix(s, key) {
			n++
		}
	}
	return n
}

func find(kv []string, key string) string {
	for _, s := range kv {
		if strings.HasPrefix(s, key) {
			return s[len(key):]
		}
	}
	return ""
}
