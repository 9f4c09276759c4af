package zziscsi

import (
	zz "github.com/gostor/gotgt/pkg/zzsym"
)

// mark is a write with immediate data of its own, to see when it executes.
func (c *ini) mark(sn uint32, m byte, imm bool) ([]byte, uint32) {
	d := make([]byte, blk)
	d[0], d[blk-1] = m, ^m
	b := c.scsi(0xa1, 0, blk, rw10(0x2a, 0, 1), d)
	putBE(b[24:28], uint64(sn))
	if imm {
		b[0] |= 0x40
	}
	return b, c.itt
}

// executed tells which marks were executed.
func executed(st *zzStore) []byte {
	var m []byte
	for _, w := range st.writes {
		zz.Assert(zz.And(w.off == 0, len(w.data) == blk, w.data[blk-1] == ^w.data[0]), "write-intact")
		m = append(m, byte(zz.Concrete(uint64(w.data[0]))))
	}
	return m
}

func same(a, b []byte) bool { return string(a) == string(b) }

// ZZOrder has commands arrive in every order, with a duplicate and an immediate one among them.
//
//zz:prop C22,C23
//zz:bound 4 numbered commands in every order of arrival, one of them twice, one immediate command in between; every starting CmdSN
//zz:need reversed duplicate immediate
func ZZOrder() {
	r, st := oneTarget(2)
	c := r.dial()
	base := zz.U32("cmdsn")
	c.cmdSN = base
	c.stat = zz.U32("stat")
	c.login()
	const n = 4
	left := []int{0, 1, 2, 3}
	immAt := zz.Choose("immAt", n+1)
	dup := zz.Choose("dup", n+1) // n: none
	var seen [n]bool
	next := 0
	var want []byte
	var tags [n]uint32
	var wantTag []uint32
	reversed := true
	arrive := func(k int) {
		b, tag := c.mark(base+uint32(k), byte(k), false)
		c.send(b)
		zz.Quiesce()
		if seen[k] {
			return
		}
		seen[k] = true
		tags[k] = tag
		for next < n && seen[next] {
			want = append(want, byte(next))
			wantTag = append(wantTag, tags[next])
			next++
		}
	}
	for i := 0; i <= n; i++ {
		if i == immAt {
			b, tag := c.mark(base+uint32(next), 0x80, true)
			c.send(b)
			zz.Quiesce()
			want = append(want, 0x80)
			wantTag = append(wantTag, tag)
			zz.Cover("immediate")
		}
		if i == n {
			break
		}
		j := zz.Choose("who", len(left))
		k := left[j]
		left = append(append([]int{}, left[:j]...), left[j+1:]...)
		if k != n-1-i {
			reversed = false
		}
		arrive(k)
		if k == dup {
			zz.Cover("duplicate")
			arrive(k)
		}
	}
	if reversed {
		zz.Cover("reversed")
	}
	got := executed(st)
	zz.Assert(same(got, want), "executed-in-order-once")
	ps := c.pdus()
	zz.Assert(len(ps) == len(wantTag), "answered-once")
	if len(ps) != len(wantTag) {
		return
	}
	for i, p := range ps {
		zz.Assert(zz.And(p.op() == 0x21, p.h[3] == 0, p.itt() == wantTag[i]), "answer")
		zz.Assert(p.statSN() == c.stat+uint32(i), "stat-sn")
		zz.Assert(int32(p.maxCmd()-p.expCmd()) >= 0, "window")
	}
	zz.Assert(ps[len(ps)-1].expCmd() == base+uint32(next), "exp-cmd-sn")
}

// ZZWindow sends a command with an arbitrary CmdSN.
//
//zz:prop C22,C23
//zz:bound one command with any CmdSN before the two whose turn it is; every starting CmdSN; write, NOP-Out or task management
//zz:need now next later outside
func ZZWindow() {
	r, st := oneTarget(2)
	c := r.dial()
	base := zz.U32("cmdsn")
	c.cmdSN = base
	c.stat = zz.U32("stat")
	login := c.login()
	window := login.maxCmd()
	zz.Assert(int32(window-base) >= 0, "window-open")
	sn := zz.U32("sn")
	ahead := sn - base
	var x []byte
	var xtag uint32
	kind := zz.Choose("kind", 3)
	switch kind {
	case 0:
		x, xtag = c.mark(sn, 'x', false)
	case 1:
		x = c.bhs(0x00, 0x80, 0)
		xtag = c.itt
		putBE(x[24:28], uint64(sn))
	case 2:
		x = c.bhs(0x02, 0x81, 0)
		xtag = c.itt
		putBE(x[20:24], 0xabcdef)
		putBE(x[24:28], uint64(sn))
	}
	c.send(x)
	zz.Quiesce()
	a, atag := c.mark(base, 'a', false)
	b, btag := c.mark(base+1, 'b', false)
	c.send(a)
	zz.Quiesce()
	c.send(b)
	ps := c.pdus()
	var want []byte
	var wantTag []uint32
	switch {
	case zz.Branch(ahead == 0):
		zz.Cover("now")
		want, wantTag = []byte{'x', 'b'}, []uint32{xtag, btag}
	case zz.Branch(ahead == 1):
		zz.Cover("next")
		want, wantTag = []byte{'a', 'x'}, []uint32{atag, xtag}
	case zz.Branch(ahead == 2):
		zz.Cover("later")
		want, wantTag = []byte{'a', 'b', 'x'}, []uint32{atag, btag, xtag}
	default:
		zz.Cover("outside")
		want, wantTag = []byte{'a', 'b'}, []uint32{atag, btag}
	}
	var wantWrites []byte
	for _, m := range want {
		if m != 'x' || kind == 0 {
			wantWrites = append(wantWrites, m)
		}
	}
	zz.Assert(same(executed(st), wantWrites), "executed-in-order-once")
	zz.Assert(len(ps) == len(wantTag), "answered-once")
	if len(ps) != len(wantTag) {
		return
	}
	last := window
	for i, p := range ps {
		zz.Assert(p.itt() == wantTag[i], "answer")
		zz.Assert(p.statSN() == c.stat+uint32(i), "stat-sn")
		zz.Assert(int32(p.maxCmd()-p.expCmd()) >= 0, "window")
		zz.Assert(int32(p.maxCmd()-last) >= 0, "window-never-shrinks")
		last = p.maxCmd()
	}
	zz.Assert(ps[len(ps)-1].expCmd() == base+uint32(len(want)), "exp-cmd-sn")
}

// ZZNumbers runs sequences of requests of every kind and follows all the numbers.
//
//zz:prop C23,C22
//zz:bound every sequence of 3 (thorough: 4) requests of 11 kinds; every starting CmdSN and StatSN
//zz:need done
func ZZNumbers() {
	r, _ := oneTarget(4)
	c := r.dial()
	c.cmdSN = zz.U32("cmdsn")
	c.stat = zz.U32("stat")
	l := c.login("MaxRecvDataSegmentLength=512")
	last := l.maxCmd()
	steps := 3
	if zz.Thorough() {
		steps = 4
	}
	check := func(p pdu, status bool) {
		zz.Assert(p.expCmd() == c.cmdSN, "exp-cmd-sn")
		zz.Assert(int32(p.maxCmd()-p.expCmd()) >= 0, "window-open")
		zz.Assert(int32(p.maxCmd()-last) >= 0, "window-never-shrinks")
		last = p.maxCmd()
		if status {
			zz.Assert(p.statSN() == c.stat, "stat-sn")
			c.stat++
		}
	}
	for i := 0; i < steps; i++ {
		switch zz.Choose("kind", 11) {
		case 0: // immediate ping
			c.send(c.bhs(0x40, 0x80, 0))
			check(c.one("nop"), true)
		case 1:
			c.send(c.bhs(0x00, 0x80, 0))
			c.cmdSN++
			check(c.one("nop"), true)
		case 2: // no answer wanted
			b := c.bhs(0x40, 0x80, 0)
			putBE(b[16:20], 0xffffffff)
			c.send(b)
			zz.Assert(len(c.pdus()) == 0, "no-answer")
		case 3:
			c.send(c.scsi(0x81, 0, 0, make([]byte, 16), nil))
			c.cmdSN++
			check(c.one("response"), true)
		case 4: // several Data-In
			c.send(c.scsi(0xc1, 0, 1024, rw10(0x28, 0, 2), nil))
			c.cmdSN++
			ps := c.pdus()
			zz.Assert(len(ps) == 2, "data-in")
			for j, p := range ps {
				check(p, j == len(ps)-1)
			}
		case 5: // R2T, Data-Out
			c.send(c.scsi(0xa1, 0, blk, rw10(0x2a, 1, 1), nil))
			tag := c.itt
			c.cmdSN++
			p := c.one("r2t")
			check(p, false)
			zz.Assert(p.statSN() == c.stat, "r2t-stat-sn")
			c.send(c.dataOut(tag, p.w(20), true, 0, 0, make([]byte, blk)))
			check(c.one("response"), true)
		case 6: // check condition
			c.send(c.scsi(0xc1, 0, blk, rw10(0x28, 99, 1), nil))
			c.cmdSN++
			check(c.one("response"), true)
		case 7:
			b := c.bhs(0x42, 0x81, 0)
			putBE(b[20:24], 0x1234)
			c.send(b)
			check(c.one("task"), true)
		case 8:
			t := text("SendTargets=")
			b := append(c.bhs(0x04, 0x80, len(t)), pad(t)...)
			putBE(b[20:24], 0xffffffff)
			c.send(b)
			c.cmdSN++
			check(c.one("text"), true)
		case 9: // unsupported
			c.send(c.bhs(0x10, 0x80, 0))
			check(c.one("reject"), true)
		case 10: // out of the window
			b := c.scsi(0x81, 0, 0, make([]byte, 16), nil)
			putBE(b[24:28], uint64(c.cmdSN-1))
			c.send(b)
			zz.Assert(len(c.pdus()) == 0, "ignored")
		}
	}
	zz.Assert(!c.closed, "open")
	zz.Cover("done")
}

// ZZWholeWindow uses up the window that a response has told of, the last command first.
//
//zz:prop C22
//zz:bound NOP-Outs for every number of the window advertised by the login response, or by the response to a command after it, the last one first (thorough also: in the reverse order), and one that is beyond the window of a command response before them; every starting CmdSN
//zz:need login command
//zz:opt unwind=300
func ZZWholeWindow() {
	r, _ := oneTarget(2)
	c := r.dial()
	c.cmdSN = zz.U32("cmdsn")
	c.stat = zz.U32("stat")
	p := c.login()
	nop := func(sn uint32) uint32 {
		h := c.bhs(0x00, 0x80, 0)
		putBE(h[20:24], 0xffffffff)
		putBE(h[24:28], uint64(sn))
		c.send(h)
		return c.itt
	}
	beyond := uint32(0)
	if zz.Choose("after", 2) == 1 {
		zz.Cover("command")
		nop(c.cmdSN)
		c.cmdSN++
		p = c.one("answered")
		beyond = nop(p.maxCmd() + 1)
	} else {
		zz.Cover("login")
	}
	base := c.cmdSN
	n := int(zz.Concrete(uint64(p.maxCmd()-base))) + 1
	zz.Assert(n > 0 && n <= 4096, "window-open")
	reverse := zz.Thorough() && zz.Choose("reverse", 2) == 1
	tags := make([]uint32, n)
	tags[n-1] = nop(p.maxCmd())
	for i := 1; i < n; i++ {
		k := i - 1
		if reverse {
			k = n - 1 - i
		}
		tags[k] = nop(base + uint32(k))
	}
	got := c.pdus()
	zz.Assert(len(got) == n, "every-command-of-the-window-is-answered")
	for i, p := range got {
		zz.Assert(p.itt() != beyond, "nothing-beyond-the-window")
		if i < n {
			zz.Assert(p.itt() == tags[i], "in-order")
		}
		zz.Assert(p.expCmd() == base+uint32(i)+1, "exp-cmd-sn")
	}
}

// ZZDiscoveryNumbers looks at the sequence numbers of a discovery session.
//
//zz:prop C23,C28
//zz:bound 3 requests (thorough: 4) in a discovery session: SendTargets or empty text requests, NOP-Out, logout, immediate or not, any initial CmdSN
//zz:need text immediate other logout
func ZZDiscoveryNumbers() {
	r, _ := oneTarget(2)
	c := r.dial()
	c.cmdSN = zz.U32("cmdsn")
	c.stat = zz.U32("stat")
	c.loginAs(iniName, 1, 0, 1, "")
	n := 3
	if zz.Thorough() {
		n = 4
	}
	for i := 0; i < n; i++ {
		var h, t []byte
		want := byte(0x24)
		kind := zz.Choose("kind", 3)
		switch kind {
		case 0:
			zz.Cover("text")
			t = text("SendTargets=All")
			h = c.bhs(0x04, 0x80, len(t))
			putBE(h[20:24], 0xffffffff)
		case 1:
			zz.Cover("other")
			h = c.bhs(0x00, 0x80, 0)
			putBE(h[20:24], 0xffffffff)
			want = 0x3f
		case 2:
			zz.Cover("logout")
			h = c.bhs(0x06, 0x80, 0)
			want = 0x26
		}
		if zz.Choose("immediate", 2) == 1 {
			zz.Cover("immediate")
			h[0] |= 0x40
		} else {
			c.cmdSN++
		}
		c.send(append(h, pad(t)...))
		p := c.one("answered")
		layout(p)
		op := p.op()
		zz.Assert(op == want || kind == 1 && op == 0x20, "response")
		zz.Assert(p.statSN() == c.stat, "stat-sn")
		zz.Assert(p.expCmd() == c.cmdSN, "exp-cmd-sn")
		// the initiator may send another request
		zz.Assert(int32(p.maxCmd()-p.expCmd()) >= 0, "window-open")
		c.stat++
		if kind == 2 {
			zz.Assert(c.closed, "closed")
			return
		}
	}
}
