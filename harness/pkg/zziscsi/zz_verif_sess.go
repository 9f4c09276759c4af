package zziscsi

import (
	zz "github.com/gostor/gotgt/pkg/zzsym"
)

type session struct {
	name int
	isid uint64
	tsih uint16
	conn *ini
	cid  uint16
}

// sessions is what the initiators know of the sessions with the target.
type sessions struct {
	r      *rig
	live   []*session
	holder *session // of the reservation
	dead   []*ini
}

var initiators = []string{iniName, iniName + "2"}

func (m *sessions) find(name int, isid uint64) *session {
	for _, s := range m.live {
		if s.name == name && s.isid == isid {
			return s
		}
	}
	return nil
}

func (m *sessions) end(s *session) {
	for i, x := range m.live {
		if x == s {
			m.live = append(m.live[:i:i], m.live[i+1:]...)
		}
	}
	if m.holder == s {
		m.holder = nil
	}
}

// login logs in; tsih may be symbolic.
func (m *sessions) login(name int, isid uint64, tsih, cid uint16) {
	c := m.r.dial()
	c.send(loginPDU(c, 0x87, isid, tsih, cid, text("InitiatorName="+initiators[name], "SessionType=Normal", "TargetName="+tgtName)))
	got := c.pdus()
	old := m.find(name, isid)
	if c.closed {
		zz.Cover("refused")
		c.refused(got)
		zz.Assert(tsih != 0, "new-session-accepted")
		if old != nil {
			zz.Assert(!zz.And(tsih == old.tsih, cid == old.cid), "connection-reinstated")
		}
		return
	}
	zz.Assert(len(got) == 1, "answered")
	p := got[0]
	layout(p)
	zz.Assert(zz.And(p.op() == 0x23, zz.And(p.h[36] == 0, p.h[1] == 0x87)), "accepted")
	zz.Assert(be(p.h[8:14]) == isid, "isid")
	c.stat = p.statSN() + 1
	h := uint16(be(p.h[14:16]))
	if zz.Branch(tsih == 0) {
		for _, s := range m.live {
			if s != old {
				zz.Assert(h != s.tsih, "handle-is-new")
			}
		}
		zz.Assert(h != 0, "handle-not-zero")
		if old != nil {
			zz.Cover("reinstated")
			m.dead = append(m.dead, old.conn)
			m.end(old)
		} else {
			zz.Cover("new")
		}
		m.live = append(m.live, &session{name, isid, h, c, cid})
		return
	}
	zz.Assert(old != nil, "no-session-to-join")
	if old == nil {
		zz.Stop()
	}
	zz.Assert(tsih == old.tsih, "handle-of-the-session")
	zz.Assert(h == old.tsih, "handle-kept")
	zz.Assert(cid == old.cid, "one-connection-per-session")
	zz.Cover("replaced")
	m.dead = append(m.dead, old.conn)
	c.cmdSN = old.conn.cmdSN
	old.conn = c
}

// check sends a command over each connection.
func (m *sessions) check() {
	for _, s := range m.live {
		c := s.conn
		c.send(c.scsi(0x81, 0, 0, make([]byte, 16), nil))
		c.cmdSN++
		p := c.one("session-works")
		zz.Assert(p.op() == 0x21, "session-works")
		zz.Assert(p.itt() == c.itt, "own-response")
		zz.Assert(p.statSN() == c.stat, "stat-sn")
		c.stat++
		zz.Assert(p.expCmd() == c.cmdSN, "exp-cmd-sn")
		want := byte(0)
		if m.holder != nil && m.holder != s {
			want = 0x18
		}
		zz.Assert(p.h[3] == want, "reservation-state")
	}
	for _, c := range m.dead {
		zz.Assert(len(c.pdus()) == 0, "old-connection-silent")
		zz.Assert(c.closed, "old-connection-closed")
	}
	n := 0
	for _, t := range m.r.svc.Targets {
		n += len(t.ITNexus)
	}
	zz.Assert(n == len(m.live), "one-nexus-per-session")
}

func (m *sessions) step() {
	op := 0
	if len(m.live) > 0 {
		op = zz.Choose("op", 4)
	}
	if op == 0 {
		tsih := uint16(0)
		if zz.Choose("join", 2) == 1 {
			tsih = zz.U16("tsih")
			zz.Assume(tsih != 0)
		}
		m.login(zz.Choose("name", 2), []uint64{1, 1<<47 + 1}[zz.Choose("isid", 2)], tsih, zz.U16("cid"))
		return
	}
	s := m.live[zz.Choose("session", len(m.live))]
	c := s.conn
	switch op {
	case 1:
		c.c.Close()
		m.end(s)
		zz.Quiesce()
		zz.Cover("dropped")
	case 2:
		h := c.bhs(0x46, 0x80, 0)
		putBE(h[20:22], uint64(s.cid))
		c.send(h)
		p := c.one("logout-answered")
		zz.Assert(zz.And(p.op() == 0x26, p.h[2] == 0), "logout-response")
		zz.Assert(p.statSN() == c.stat, "stat-sn")
		m.dead = append(m.dead, c)
		m.end(s)
		zz.Cover("logged-out")
	case 3:
		cdb := make([]byte, 16)
		cdb[0] = 0x16
		c.send(c.scsi(0x81, 0, 0, cdb, nil))
		c.cmdSN++
		p := c.one("reserve-answered")
		c.stat++
		want := byte(0x18)
		if m.holder == nil || m.holder == s {
			want = 0
			m.holder = s
			zz.Cover("reserved")
		}
		zz.Assert(zz.And(p.op() == 0x21, p.h[3] == want), "reserve")
	}
}

// ZZSessions has sessions begin, end, be replaced and reserve the logical unit.
//
//zz:prop C26
//zz:bound sequences of 4 (thorough: 5) logins, connection losses, logouts and reservations; 2 initiator names, 2 ISIDs, every CID, TSIH 0 and every other one
//zz:need new refused reinstated replaced dropped logged-out reserved
func ZZSessions() {
	r, _ := oneTarget(2)
	m := &sessions{r: r}
	steps := 4
	if zz.Thorough() {
		steps = 5
	}
	for i := 0; i < steps; i++ {
		m.step()
		m.check()
	}
}

// ZZReplacedTasks has a connection or session replaced while a write waits for its data.
//
//zz:prop C26,C21
//zz:bound a write waiting for data in a session that is reinstated, whose connection is, that is dropped, or logs out; then every tag of a Data-Out in the new one
//zz:need session connection
func ZZReplacedTasks() {
	r, st := oneTarget(2)
	c := r.dial()
	c.login()
	c.send(c.scsi(0xa1, 0, blk, rw10(0x2a, 0, 1), nil))
	c.cmdSN++
	tag := c.itt
	p := c.one("r2t")
	zz.Assert(p.op() == 0x31, "r2t")
	how := zz.Choose("how", 4)
	d := r.dial()
	tsih := uint16(0)
	switch how {
	case 0:
		zz.Cover("connection")
		tsih = c.tsih
		d.cmdSN = c.cmdSN
	case 1:
		zz.Cover("session")
	case 2:
		c.c.Close()
		zz.Quiesce()
	case 3:
		c.send(c.bhs(0x46, 0x80, 0))
		c.one("logout")
	}
	d.loginAs(iniName, 0x400001370000, tsih, 1, tgtName)
	if how < 2 {
		c.pdus()
		zz.Assert(c.closed, "old-connection-closed")
	}
	data := zz.Bytes("data", blk)
	h := d.bhs(0x05, 0x80, blk)
	t := zz.U32("tag")
	putBE(h[16:20], uint64(t))
	putBE(h[20:24], zz.U64("ttt")&0xffffffff)
	d.send(append(h, append([]byte{}, data...)...))
	for _, p := range d.pdus() {
		zz.Assert(p.op() == 0x3f, "nothing-but-reject")
		d.stat++
	}
	zz.Assert(len(st.writes) == 0, "task-is-gone")
	_ = tag
	if d.closed {
		return
	}
	d.send(d.scsi(0xa1, 0, blk, rw10(0x2a, 1, 1), data))
	q := d.one("works")
	zz.Assert(zz.And(q.op() == 0x21, q.h[3] == 0), "works")
	zz.Assert(len(st.writes) == 1 && zz.EqBytes(st.mem[blk:], data), "written")
}

// ZZHalfLogin has a second login for a session begin, and stay unfinished or fail.
//
//zz:prop C26
//zz:bound a session and a login that stays in a stage, is refused, or loses its connection; same or other name and ISID
//zz:need same other
func ZZHalfLogin() {
	r, _ := oneTarget(2)
	m := &sessions{r: r}
	m.login(0, 1, 0, 1)
	m.check()
	name, isid := zz.Choose("name", 2), uint64(1+zz.Choose("isid", 2))
	d := r.dial()
	kv := []string{"InitiatorName=" + initiators[name], "SessionType=Normal", "TargetName=" + tgtName}
	stage := zz.Choose("stage", 3)
	flags := byte(0)
	switch stage {
	case 0: // security
	case 1:
		flags = 0x81
	case 2: // in the operational stage
		flags = 0x04
	}
	d.send(loginPDU(d, flags, isid, 0, 1, text(kv...)))
	zz.Assert(d.one("answered").op() == 0x23, "answered")
	if zz.Choose("then", 2) == 0 {
		d.c.Close()
		zz.Quiesce()
	} else {
		// no login request: it is refused
		d.send(d.scsi(0x81, 0, 0, make([]byte, 16), nil))
		d.pdus()
		zz.Assert(d.closed, "refused")
	}
	if name == 0 && isid == 1 && stage == 2 {
		// the target may have replaced the session already, or not
		zz.Cover("same")
		m.live[0].conn.settle()
		if m.live[0].conn.closed {
			m.end(m.live[0])
		}
	} else {
		zz.Cover("other")
	}
	m.check()
	m.login(0, 2, 0, 1)
	m.check()
}

// ZZDeafInitiator has an initiator go away before its response is sent.
//
//zz:prop C26
//zz:bound a command, ping, text request or write whose initiator closes the connection right after it, with a session of another initiator
func ZZDeafInitiator() {
	r, _ := oneTarget(2)
	m := &sessions{r: r}
	m.login(0, 1, 0, 1)
	m.login(1, 1, 0, 1)
	c := m.live[0].conn
	switch zz.Choose("request", 5) {
	case 0:
		c.send(c.scsi(0xc1, 0, 2*blk, rw10(0x28, 0, 2), nil))
	case 1:
		c.send(c.bhs(0x40, 0x80, 0))
	case 2:
		c.send(c.scsi(0xa1, 0, blk, rw10(0x2a, 0, 1), nil))
	case 3:
		t := text("SendTargets=")
		c.send(append(c.bhs(0x44, 0x80, len(t)), pad(t)...))
	case 4:
		h := c.bhs(0x42, 0x85, 0)
		c.send(h)
	}
	c.c.Close()
	zz.Quiesce()
	m.end(m.live[0])
	m.check()
	m.login(0, 1, 0, 1)
	m.check()
}
