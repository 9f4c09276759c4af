package zziscsi

import (
	zz "github.com/gostor/gotgt/pkg/zzsym"
)

// ZZHosts has initiators of several hosts connect and leave.
//
//zz:prop C34
//zz:bound connections from any of 19 hosts, with addresses that begin with those of others; 4 (thorough 5) events: a connection of any host which logs in, does nothing, or reinstates the session of another one, or any connection that leaves by logout, in the middle of a login or without a word; hosts blocked or not
//zz:need refused same-host next-host unblocked still-there
func ZZHosts() {
	r := newRig()
	r.disk(tgtName, 0, 1)
	r.portal(0, r.here())
	r.target(tgtName, map[string][]uint64{"1": {0}})
	block := zz.Choose("block", 2) == 1
	if block {
		r.drv.EnableBlockMultipleHostLogin()
	}
	r.run()
	type live struct {
		c     *ini
		host  byte
		state int // 1: discovery session, 2: normal session
	}
	var conns []live
	n := 4
	if zz.Thorough() {
		n = 5
	}
	left := false
	for i := 0; i < n; i++ {
		k := zz.Choose("event", 2)
		if k == 1 && len(conns) == 0 {
			zz.Stop()
		}
		if k == 0 {
			h := zz.U8("host")
			zz.Assume(h < 19)
			how := zz.Choose("how", 3)
			c := r.dialFrom(h)
			here := true
			for _, l := range conns {
				here = zz.And(here, zz.Or(!block, l.host == h))
			}
			here = zz.Branch(here)
			if here && len(conns) > 0 && block {
				zz.Cover("same-host")
				if left {
					zz.Cover("still-there")
				}
			}
			if !here {
				c.settle()
				zz.Assert(len(c.rx) == 0, "refused-without-a-word")
				zz.Assert(c.closed, "other-host-is-refused")
				zz.Cover("refused")
				if left {
					zz.Cover("still-there")
				}
				if !c.closed {
					zz.Stop()
				}
				continue
			}
			if block && left && len(conns) == 0 {
				zz.Cover("next-host")
			}
			if !block && len(conns) > 0 {
				zz.Cover("unblocked")
			}
			switch how {
			case 0:
				c.settle()
				zz.Assert(!c.closed, "connection-is-accepted")
			case 1:
				c.loginAs(iniName, uint64(i+1), 0, 1, "")
			case 2:
				// all of these are one initiator port
				for j, l := range conns {
					if l.state == 2 {
						conns = append(append([]live{}, conns[:j]...), conns[j+1:]...)
						break
					}
				}
				c.loginAs(iniName, 0x99, 0, 1, tgtName)
			}
			conns = append(conns, live{c, h, how})
			continue
		}
		j := zz.Choose("who", len(conns))
		l := conns[j]
		conns = append(append([]live{}, conns[:j]...), conns[j+1:]...)
		left = true
		switch {
		case l.state != 0 && zz.Choose("logout", 2) == 1:
			h := l.c.bhs(0x06, 0x80, 0)
			l.c.send(h)
			p := l.c.one("logout-answered")
			zz.Assert(p.op() == 0x26, "logout-response")
		case l.state == 0 && zz.Choose("half", 2) == 1:
			l.c.send(loginPDU(l.c, 0x87, 7, 0, 1, text("InitiatorName=x"))[:50])
			l.c.c.Close()
		default:
			l.c.c.Close()
		}
		zz.Quiesce()
	}
	for _, l := range conns {
		l.c.settle()
		zz.Assert(!l.c.closed, "nobody-else-is-affected")
	}
}
