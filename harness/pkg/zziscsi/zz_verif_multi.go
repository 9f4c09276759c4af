package zziscsi

import (
	"github.com/gostor/gotgt/pkg/config"
	zz "github.com/gostor/gotgt/pkg/zzsym"
)

// ZZTwoTargets has sessions with two targets, each with a write which waits
// for its data, does several things in them, and then sends the data.
//
//zz:prop C26,C27,C09,C30,C02
//zz:bound 2 targets with 2 LUNs each, sessions of the same initiator port with both and another session with the first, a write waiting for its data in each; 2 (thorough: 3) steps among a write, LU reset, abort task set, NOP, logout, the same session again; the data sent in either order
//zz:need write reset again logout abort
func ZZTwoTargets() {
	r := newRig()
	names := []string{tgtName, iqn + "other"}
	var stores [2][2]*zzStore
	r.portal(0, r.here())
	for i, n := range names {
		for lun := range stores[i] {
			stores[i][lun] = r.disk(n, uint64(lun), 8)
		}
		r.target(n, map[string][]uint64{"1": {0}})
	}
	r.run()
	type side struct {
		c       *ini
		tgt     int
		isid    uint64
		lun     uint64
		lba     uint32
		tag     uint32
		ttt     uint32
		waiting bool
		fill    byte
	}
	ss := []*side{{tgt: 0, isid: 1, lun: 0, lba: 1}, {tgt: 1, isid: 1, lun: 0, lba: 1}, {tgt: 0, isid: 2, lun: 1, lba: 2}}
	var want [2][2][8]byte
	login := func(s *side) {
		s.c = r.dial()
		s.c.itt = 0x100
		s.c.loginAs(iniName, s.isid, 0, 1, names[s.tgt])
	}
	for i, s := range ss {
		login(s)
		for _, o := range ss[:i] {
			zz.Assert(o.c.tsih != s.c.tsih, "handles-differ")
		}
		s.fill = byte(0x51 + i)
		s.c.send(s.c.scsi(0xa1, s.lun, blk, rw10(0x2a, s.lba, 1), nil))
		s.c.cmdSN++
		p := s.c.one("r2t")
		zz.Assert(p.op() == 0x31, "r2t")
		s.tag, s.ttt, s.waiting = s.c.itt, p.w(20), true
	}
	steps := 2
	if zz.Thorough() {
		steps = 3
	}
	for i := 0; i < steps; i++ {
		s := ss[zz.Choose("session", 3)]
		if s.c == nil {
			zz.Stop()
		}
		c := s.c
		switch zz.Choose("step", 5) {
		case 0:
			zz.Cover("write")
			lun := uint64(zz.Choose("lun", 2))
			d := make([]byte, blk)
			for k := range d {
				d[k] = byte(0xa0 + i)
			}
			c.send(c.scsi(0xa1, lun, blk, rw10(0x2a, uint32(4+i), 1), d))
			c.cmdSN++
			zz.Assert(c.one("answered").op() == 0x21, "response")
			want[s.tgt][lun][4+i] = byte(0xa0 + i)
		case 1:
			zz.Cover("reset")
			h := c.bhs(0x02, 0x85, 0)
			lun := zz.Choose("lun", 2)
			h[9] = byte(lun)
			c.send(h)
			c.cmdSN++
			p := c.one("answered")
			zz.Assert(zz.And(p.op() == 0x22, p.h[2] == 0), "function-complete")
			for _, o := range ss {
				if o.tgt == s.tgt && o.lun == uint64(lun) {
					o.waiting = false
				}
			}
		case 2:
			zz.Cover("abort")
			h := c.bhs(0x02, 0x82, 0)
			lun := zz.Choose("lun", 2)
			h[9] = byte(lun)
			c.send(h)
			c.cmdSN++
			p := c.one("answered")
			zz.Assert(zz.And(p.op() == 0x22, p.h[2] == 0), "function-complete")
			if s.lun == uint64(lun) {
				s.waiting = false
			}
		case 3:
			zz.Cover("logout")
			c.send(c.bhs(0x06, 0x80, 0))
			p := c.one("answered")
			zz.Assert(zz.And(p.op() == 0x26, c.closed), "logged-out")
			s.c, s.waiting = nil, false
		case 4:
			zz.Cover("again")
			login(s)
			c.settle()
			zz.Assert(c.closed, "reinstated-session-is-closed")
			s.waiting = false
		}
	}
	turn := zz.Choose("order", 2)
	for i := range ss {
		s := ss[i]
		if turn == 1 {
			s = ss[len(ss)-1-i]
		}
		if s.c == nil || !s.waiting {
			continue
		}
		d := make([]byte, blk)
		for k := range d {
			d[k] = s.fill
		}
		s.c.send(s.c.dataOut(s.tag, s.ttt, true, 0, 0, d))
		p := s.c.one("answered")
		zz.Assert(zz.And(p.op() == 0x21, zz.And(p.h[2] == 0, p.h[3] == 0)), "good")
		want[s.tgt][s.lun][s.lba] = s.fill
	}
	for t := range stores {
		for l, st := range stores[t] {
			for b, x := range want[t][l] {
				for k := 0; k < blk; k++ {
					if st.mem[b*blk+k] != x {
						zz.Assert(false, "medium")
						return
					}
				}
			}
		}
	}
	for _, s := range ss {
		if s.c != nil {
			s.c.works()
		}
	}
}

// ZZResized changes the size of a device while it is in use.
//
//zz:prop C06,C01,C03
//zz:bound a device which becomes smaller, to any number of blocks up to 8, through the driver; a READ or WRITE of 1 to 3 blocks at any address
//zz:need in out
func ZZResized() {
	r, st := oneTarget(8)
	c := r.dial()
	c.login()
	n := zz.U8("blocks")
	zz.Assume(zz.And(n >= 1, n <= 8))
	zz.Assert(r.drv.Resize(uint64(n)*blk) == nil, "resized")
	cdb := make([]byte, 16)
	cdb[0] = 0x25
	c.send(c.scsi(0xc1, 0, 8, cdb, nil))
	c.cmdSN++
	p := c.one("capacity")
	zz.Assert(zz.And(p.op() == 0x25, len(p.data) == 8), "capacity")
	zz.Assert(be(p.data[:4]) == uint64(n)-1, "last-block")
	lba := zz.U32("lba")
	k := 1 + zz.Choose("count", 3)
	write := zz.Choose("write", 2) == 1
	if write {
		c.send(c.scsi(0xa1, 0, uint32(k*blk), rw10(0x2a, lba, uint16(k)), make([]byte, k*blk)))
	} else {
		c.send(c.scsi(0xc1, 0, uint32(k*blk), rw10(0x28, lba, uint16(k)), nil))
	}
	c.cmdSN++
	in := uint64(lba)+uint64(k) <= uint64(n)
	ps := c.pdus()
	zz.Assert(len(ps) > 0, "answered")
	last := ps[len(ps)-1]
	if zz.Branch(in) {
		zz.Cover("in")
		zz.Assert(last.h[3] == 0, "good")
		zz.Assert(st.reads+len(st.writes) == 1, "one-access")
	} else {
		zz.Cover("out")
		zz.Assert(zz.And(last.op() == 0x21, last.h[3] == 2), "check-condition")
		zz.Assert(st.reads+len(st.writes) == 0, "no-access")
	}
}

type portals interface {
	HasPortal(tgtName string, tpgt uint16, portal string) bool
	AddiSCSIPortal(tgtName string, tpgt uint16, portal string) error
}

// ZZTargetTwice adds targets and portals, some of them twice.
//
//zz:prop C28,C30
//zz:bound 2 targets with 1 or 2 portal groups each, one added again with another configuration; portals added to a group which has or does not have them, or to one that does not exist
//zz:need twice added
func ZZTargetTwice() {
	r := newRig()
	names := []string{tgtName, iqn + "other"}
	r.portal(0, r.here())
	r.portal(1, "10.0.0.1:3260")
	for i, n := range names {
		r.disk(n, 0, 1+i)
		r.target(n, map[string][]uint64{"1": {0}, "2": {1}})
	}
	d := r.drv.(portals)
	have := map[string]bool{}
	key := func(t int, g uint16, p string) string { return string([]byte{byte('0' + t), byte('0' + g)}) + p }
	for t := range names {
		have[key(t, 1, r.here())] = true
		have[key(t, 2, "10.0.0.1:3260")] = true
	}
	for i := 0; i < 2; i++ {
		t := zz.Choose("target", 2)
		if zz.Choose("twice", 2) == 1 {
			zz.Cover("twice")
			r.cfg.ISCSITargets[names[t]] = config.ISCSITarget{TPGTs: map[string][]uint64{"3": {1}}}
			zz.Assert(r.drv.NewTarget(names[t], r.cfg) != nil, "refused")
			continue
		}
		zz.Cover("added")
		g := uint16(1 + zz.Choose("group", 3))
		p := []string{r.here(), "10.0.0.1:3260", "10.0.0.2:3260"}[zz.Choose("portal", 3)]
		err := d.AddiSCSIPortal(names[t], g, p)
		zz.Assert((err == nil) == (g != 3 && !have[key(t, g, p)]), "added")
		if g != 3 {
			have[key(t, g, p)] = true
		}
	}
	n := 0
	for t := range names {
		for g := uint16(1); g <= 3; g++ {
			for _, p := range []string{r.here(), "10.0.0.1:3260", "10.0.0.2:3260"} {
				zz.Assert(d.HasPortal(names[t], g, p) == have[key(t, g, p)], "has-portal")
				if have[key(t, g, p)] {
					n++
				}
			}
		}
	}
	zz.Assert(!d.HasPortal(iqn+"none", 1, r.here()), "no-such-target")
	list, err := r.svc.GetTargetList()
	zz.Assert(err == nil && len(list) == 2, "targets")
	for i, t := range list {
		zz.Assert(t.Name == names[i], "name")
	}
	r.run()
	c := r.dial()
	c.loginAs(iniName, 1, 0, 1, "")
	t := text("SendTargets=All")
	h := c.bhs(0x44, 0x80, len(t))
	putBE(h[20:24], 0xffffffff)
	c.send(append(h, pad(t)...))
	p := c.one("answered")
	got := told(p.data)
	zz.Assert(len(got) == 2, "targets-told")
	for k, name := range names {
		for _, a := range got[name] {
			q, g := a[:len(a)-2], uint16(a[len(a)-1]-'0')
			zz.Assert(have[key(k, g, q)], "address")
			n--
		}
	}
	zz.Assert(n == 0, "every-address-told")
}
