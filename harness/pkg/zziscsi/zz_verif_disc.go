package zziscsi

import (
	"strconv"
	"strings"

	"github.com/gostor/gotgt/pkg/config"
	zz "github.com/gostor/gotgt/pkg/zzsym"
)

type group struct {
	tpgt    string
	portals []int
}

// told takes a SendTargets answer apart: the addresses of each target.
func told(b []byte) map[string][]string {
	m := map[string][]string{}
	name := ""
	for _, s := range items(b) {
		switch {
		case strings.HasPrefix(s, "TargetName="):
			name = s[len("TargetName="):]
			_, dup := m[name]
			zz.Assert(!dup, "target-told-once")
			m[name] = []string{}
		case strings.HasPrefix(s, "TargetAddress="):
			zz.Assert(name != "", "address-of-a-target")
			m[name] = append(m[name], s[len("TargetAddress="):])
		default:
			zz.Assert(false, "nothing-but-names-and-addresses")
		}
	}
	return m
}

// ZZSendTargets asks for the targets there are.
//
//zz:prop C17,C19,C28
//zz:bound 1 to 3 targets with 1 or 2 portal groups of 3 portals in 5 arrangements each; SendTargets with All, the name of each target, an empty value, any other value of 3 bytes, a prefix or extension of a name; in a discovery session and in a normal one; with a cluster address or without
//zz:need all one none own cluster
func ZZSendTargets() {
	r := newRig()
	addrs := []string{r.here(), "10.0.0.1:3260", "[fe80::1]:3261"}
	ids := []uint16{0, 7, 65535}
	for i, a := range addrs {
		r.portal(ids[i], a)
	}
	// none of the targets is without the portal in use
	arrangements := [][]group{
		{{"1", []int{0}}},
		{{"1", []int{0, 1, 2}}},
		{{"65535", []int{0, 2}}},
		{{"2", []int{1}}, {"10", []int{0}}},
		{{"0", []int{0, 1}}, {"3", []int{2}}},
	}
	names := []string{tgtName, tgtName + "1", iqn + "other"}
	n := 1 + zz.Choose("targets", 3)
	conf := map[string][]group{}
	pick := zz.Choose("arrangement", len(arrangements))
	for i := 0; i < n; i++ {
		gs := arrangements[(pick+i*2)%len(arrangements)]
		m := map[string][]uint64{}
		for _, g := range gs {
			for _, p := range g.portals {
				m[g.tpgt] = append(m[g.tpgt], uint64(ids[p]))
			}
		}
		r.disk(names[i], 0, 1)
		r.target(names[i], m)
		conf[names[i]] = gs
	}
	cluster := zz.Choose("cluster", 2) == 1
	if cluster {
		r.drv.SetClusterIP("192.168.7.1:3261")
		zz.Cover("cluster")
	}
	r.run()
	c := r.dial()
	discovery := zz.Choose("discovery", 2) == 1
	if discovery {
		c.loginAs(iniName, 1, 0, 1, "")
	} else {
		c.loginAs(iniName, 1, 0, 1, names[n-1])
	}
	var want []string
	value := ""
	k := zz.Choose("value", 7)
	switch k {
	case 0:
		value = "All"
		if discovery {
			want = names[:n]
			zz.Cover("all")
		}
	case 1, 2, 3:
		value = names[k-1]
		if k <= n && (discovery || k == n) {
			want = []string{value}
			zz.Cover("one")
		}
	case 4:
		if !discovery {
			want = []string{names[n-1]}
			zz.Cover("own")
		}
	case 5:
		b := zz.Bytes("v", 3)
		for i := range b {
			zz.Assume(zz.And(b[i] != 0, b[i] != '='))
		}
		value = string(b)
		zz.Assume(!(value == "All"))
		zz.Cover("none")
	case 6:
		value = names[n-1] + "x"
		if zz.Choose("shorter", 2) == 1 {
			value = tgtName[:len(tgtName)-1]
		}
	}
	t := text("SendTargets=" + value)
	h := c.bhs(0x04, 0x80, len(t))
	putBE(h[20:24], 0xffffffff)
	// in whatever order the maps are gone through
	zz.MapOrder(true)
	c.send(append(h, pad(t)...))
	p := c.one("answered")
	zz.MapOrder(false)
	layout(p)
	if len(want) == 0 && p.op() == 0x3f {
		// what can't be asked for may be rejected
		return
	}
	zz.Assert(p.op() == 0x24, "text-response")
	zz.Assert(p.itt() == c.itt, "tag")
	zz.Assert(p.h[1] == 0x80, "final")
	zz.Assert(p.w(20) == 0xffffffff, "no-more-to-come")
	got := told(p.data)
	zz.Assert(len(got) == len(want), "targets-told")
	for _, name := range want {
		have, ok := got[name]
		zz.Assert(ok, "target-told")
		total := 0
		for _, g := range conf[name] {
			for i, q := range g.portals {
				addr := addrs[q]
				if cluster {
					if i > 0 {
						break
					}
					addr = "192.168.7.1:3261"
				}
				total++
				m := 0
				for _, a := range have {
					if a == addr+","+g.tpgt {
						m++
					}
				}
				zz.Assert(m == 1, "address-told-once")
			}
		}
		zz.Assert(len(have) == total, "no-other-address")
	}
}

// ZZDiscoveredLogin logs in to what has been discovered.
//
//zz:prop C28,C24
//zz:bound each name that discovery tells, with the address of the connection in a portal group 1 to 3 or in none; a name in another case, a prefix and an extension
//zz:need in out
func ZZDiscoveredLogin() {
	r := newRig()
	r.portal(0, r.here())
	r.portal(1, "10.0.0.1:3260")
	names := []string{tgtName, iqn + "other", iqn + "far"}
	tp := []string{"1", "3", "2"}
	for i, n := range names {
		r.disk(n, 0, 1+i)
		id := uint64(0)
		if i == 2 {
			id = 1
		}
		r.target(n, map[string][]uint64{tp[i]: {id}})
	}
	r.run()
	c := r.dial()
	k := zz.Choose("name", 6)
	name := ""
	switch k {
	case 0, 1, 2:
		name = names[k]
	case 3:
		name = tgtName + "x"
	case 4:
		name = tgtName[:len(tgtName)-1]
	case 5:
		name = iqn
	}
	c.send(loginPDU(c, 0x87, 1, 0, 1, text("InitiatorName="+iniName, "SessionType=Normal", "TargetName="+name)))
	got := c.pdus()
	if k >= 2 {
		zz.Cover("out")
		c.refused(got)
		return
	}
	zz.Cover("in")
	zz.Assert(len(got) == 1 && got[0].op() == 0x23 && got[0].h[36] == 0, "accepted")
	kv := items(got[0].data)
	zz.Assert(find(kv, "TargetPortalGroupTag=") == tp[k], "group-of-the-portal")
	c.stat = got[0].statSN() + 1
	// it is that target
	cdb := make([]byte, 16)
	cdb[0] = 0x25
	c.send(c.scsi(0xc1, 0, 8, cdb, nil))
	p := c.one("capacity")
	zz.Assert(zz.And(p.op() == 0x25, len(p.data) == 8), "capacity")
	zz.Assert(be(p.data[:4]) == uint64(k), "the-target-logged-in-to")
}

// ZZPortalGroups configures a portal group with any number.
//
//zz:prop C30,C28
//zz:bound one portal group whose number is any text of 1 to 5 characters, and what is told of it for the numbers to 10, 99, 256, 32768 and 65535; its portal exists or not
//zz:need number refused too-large leading-zero no-portal
func ZZPortalGroups() {
	r := newRig()
	r.disk(tgtName, 0, 1)
	r.portal(3, r.here())
	n := 1 + zz.Choose("len", 5)
	b := zz.Bytes("tpgt", n)
	var v uint64
	number := true
	for _, x := range b {
		number = zz.And(number, x >= '0', x <= '9')
		v = v*10 + uint64(x) - '0'
	}
	portal := uint64(3)
	if zz.Choose("portal", 2) == 1 {
		zz.Cover("no-portal")
		portal = 4
	}
	r.cfg.ISCSITargets[tgtName] = config.ISCSITarget{TPGTs: map[string][]uint64{string(b): {portal}}}
	err := r.drv.NewTarget(tgtName, r.cfg)
	good := zz.Branch(zz.And(number, v <= 65535))
	if !good || portal == 4 {
		if zz.Branch(number) && !good {
			zz.Cover("too-large")
		}
		zz.Cover("refused")
		zz.Assert(err != nil, "bad-portal-group-is-refused")
		return
	}
	zz.Cover("number")
	zz.Assert(err == nil, "portal-group-accepted")
	if n > 1 && zz.Branch(b[0] == '0') {
		zz.Cover("leading-zero")
	}
	if n > 1 {
		zz.Assume(zz.Or(v <= 10, v == 99, v == 256, v == 32768, v == 65535))
	}
	v = zz.Concrete(v)
	r.run()
	c := r.dial()
	c.loginAs(iniName, 1, 0, 1, "")
	t := text("SendTargets=All")
	h := c.bhs(0x04, 0x80, len(t))
	putBE(h[20:24], 0xffffffff)
	c.send(append(h, pad(t)...))
	p := c.one("answered")
	got := told(p.data)
	zz.Assert(len(got) == 1 && len(got[tgtName]) == 1 && got[tgtName][0] == r.here()+","+strconv.Itoa(int(v)), "told-as-configured")
	// the target can be logged in to, and answers with its portal group
	d := r.dial()
	l := d.login()
	zz.Assert(find(items(l.data), "TargetPortalGroupTag=") == strconv.Itoa(int(v)), "portal-group-of-the-login")
}
