package zzscsi

import (
	"fmt"

	"github.com/gostor/gotgt/pkg/api"
	"github.com/gostor/gotgt/pkg/config"
	"github.com/gostor/gotgt/pkg/scsi"
	zz "github.com/gostor/gotgt/pkg/zzsym"
)

// pairUnit is one of the units the same things are done to.
type pairUnit struct {
	t   *zzTarget
	tid int
	reg [3]bool
}

// newPairUnit makes a target of its own with one unit of four blocks of 8 bytes.
func newPairUnit(svc *scsi.SCSITargetService, tid int) *pairUnit {
	st := &zzStore{size: 32, mem: []byte("the medium of the unit as it was"), zeroes: true}
	scsi.RegisterBackingStore("zz", func() (api.BackingStore, error) { return st, nil })
	id, name := uint64(1000+tid), fmt.Sprintf("%s%d", zzName, tid)
	zz.Assert(scsi.AddBackendStorage(config.BackendStorage{DeviceID: id, Path: "zz:dev", Online: true, BlockShift: 3}) == nil, "setup-backend")
	zz.Assert(scsi.AddLUNMapping(scsi.LUNMapping{TargetName: name, LUN: 0, DeviceID: id}) == nil, "setup-mapping")
	tgt, err := svc.NewSCSITarget(tid, "iscsi", name)
	zz.Assert(err == nil, "setup-target")
	tgt.TargetPortGroups[0].TargetPortGroup = append(tgt.TargetPortGroups[0].TargetPortGroup, &api.SCSITargetPort{RelativeTargetPortID: 1, TargetPortName: name + ",t,0x0001"})
	u := &pairUnit{tid: tid, t: &zzTarget{svc: svc, tgt: tgt, stores: map[uint64]*zzStore{0: st}}}
	for i := byte(1); i <= 3; i++ {
		n := &api.ITNexus{ID: zzID(i), Tag: "zz"}
		scsi.AddITNexus(tgt, n)
		u.t.nexus = append(u.t.nexus, n)
	}
	return u
}

func pairKey(n int) uint64 { return uint64(0x1100 * (n + 1)) }

// do runs a command of nexus n and returns what the initiator sees.
func (u *pairUnit) do(n int, cdb []byte, write bool, k int, out []byte) []byte {
	c := u.t.cmd(n, 0, cdb, write, k, out)
	if u.t.svc.AddCommandQueue(u.tid, c) != nil {
		return []byte{0xff}
	}
	got := []byte{c.Result}
	if key, asc, ok := sense(c); c.Result == stCheck && ok {
		got = append(got, key, byte(asc>>8), byte(asc))
	}
	if !write && c.Result == stGood {
		got = append(got, c.InSDBBuffer.Buffer...)
	}
	return got
}

func (u *pairUnit) prOut(n int, action, typ byte, rk, sa uint64) []byte {
	p := make([]byte, 24)
	putBE(p[0:8], rk)
	putBE(p[8:16], sa)
	cdb := make([]byte, 16)
	cdb[0], cdb[1], cdb[2], cdb[8] = 0x5f, action, typ, 24
	return u.do(n, cdb, true, 24, p)
}

func (u *pairUnit) io(n int, op byte, data string) []byte {
	o := opByCode(op)
	if o.read {
		return u.do(n, rwCDB(o, 0, 1, 1), false, 8, nil)
	}
	return u.do(n, rwCDB(o, 0, 1, 1), true, len(data), []byte(data))
}

var pairOps = []string{"reserve", "release", "register", "unregister", "pr-reserve", "pr-release", "preempt", "clear", "write", "orwrite", "read", "loss", "reset", "write-same", "write-verify", "move", "unmap", "read-keys", "replace"}

// step is what nexus n (0 or 1) does.
func (u *pairUnit) step(op string, n int, typ byte) []byte {
	own := uint64(0)
	if u.reg[n] {
		own = pairKey(n)
	}
	data := []string{"\x01\x23\x45\x67\x89\xab\xcd\xef", "\x10\x32\x54\x76\x98\xba\xdc\xfe"}[n]
	simple := make([]byte, 16)
	switch op {
	case "reserve":
		simple[0] = 0x16
		return u.do(n, simple, false, 0, nil)
	case "release":
		simple[0] = 0x17
		return u.do(n, simple, false, 0, nil)
	case "register":
		return u.prOut(n, 6, 0, 0, pairKey(n))
	case "replace":
		return u.prOut(n, 0, 0, own, pairKey(n)+0x55)
	case "unregister":
		return u.prOut(n, 0, 0, own, 0)
	case "pr-reserve":
		return u.prOut(n, 1, typ, own, 0)
	case "pr-release":
		return u.prOut(n, 2, typ, own, 0)
	case "clear":
		return u.prOut(n, 3, 0, own, 0)
	case "preempt":
		return u.prOut(n, 4, typ, own, pairKey(1-n))
	case "move":
		return u.prOut(n, 7, 0, own, pairKey(1-n))
	case "write":
		return u.io(n, 0x2a, data)
	case "orwrite":
		return u.io(n, 0x8b, data)
	case "write-same":
		return u.io(n, 0x93, data)
	case "write-verify":
		return u.io(n, 0x2e, data)
	case "read":
		return u.io(n, 0x88, "")
	case "read-keys":
		simple[0], simple[8] = 0x5e, 64
		return u.do(n, simple, false, 64, nil)
	case "unmap":
		p := make([]byte, 24)
		p[1], p[3], p[15], p[19] = 22, 16, 1, 1
		simple[0], simple[8] = 0x42, 24
		return u.do(n, simple, true, 24, p)
	case "loss":
		scsi.RemoveITNexus(u.t.tgt, u.t.nexus[n])
	case "reset":
		if scsi.ResetLogicalUnit(u.t.tgt, [8]uint8{}) {
			return []byte{0}
		}
	}
	return nil
}

// see is everything the nexuses can tell about the unit afterwards.
func (u *pairUnit) see() []byte {
	var out []byte
	for n := 0; n < 3; n++ {
		for a := byte(0); a < 2; a++ {
			cdb := make([]byte, 16)
			cdb[0], cdb[1], cdb[8] = 0x5e, a, 64
			out = append(out, u.do(n, cdb, false, 64, nil)...)
		}
		out = append(out, u.io(n, 0x28, "")...)
		out = append(out, u.io(n, 0x2a, "written!")[0])
	}
	return append(out, u.t.stores[0].mem...)
}

// ZZPair runs two commands of different initiators at the same time: what they
// answer and what they leave behind is that of one after the other.
//
//zz:prop C11,C12,C35
//zz:bound two commands of two initiators on one unit, each one of RESERVE, RELEASE, PERSISTENT RESERVE OUT REGISTER (new key, other key, no key), RESERVE, RELEASE, PREEMPT, CLEAR, REGISTER AND MOVE, WRITE, ORWRITE, WRITE SAME, WRITE AND VERIFY, READ, UNMAP, PERSISTENT RESERVE IN, loss of the nexus, unit reset; before: nothing, both registered, the first or second holds a persistent reservation (Write Exclusive; thorough: also All Registrants), the second holds the unit with RESERVE; one preemption (thorough 2) of one by the other at any statement that touches shared memory
//zz:need order-1 order-2 same
//zz:opt tries=3 conc=200
func ZZPair() {
	svc := scsi.NewSCSITargetService()
	scsi.RegisterBackingStore("null", func() (api.BackingStore, error) { return &zzNull{}, nil })
	state := zz.Choose("before", 5)
	typ := byte(1)
	k := 1
	if zz.Thorough() {
		k = 2
		if zz.Choose("all-registrants", 2) == 1 {
			typ = 7
		}
	}
	first := pairOps[zz.Choose("first", len(pairOps))]
	second := pairOps[zz.Choose("second", len(pairOps))]
	var units [3]*pairUnit
	for i := range units {
		u := newPairUnit(svc, i+1)
		if state >= 1 && state <= 3 {
			for n := 0; n < 2; n++ {
				zz.Assert(u.prOut(n, 0, 0, 0, pairKey(n))[0] == stGood, "setup")
				u.reg[n] = true
			}
		}
		switch state {
		case 2, 3:
			zz.Assert(u.prOut(state-2, 1, typ, pairKey(state-2), 0)[0] == stGood, "setup")
		case 4:
			zz.Assert(u.step("reserve", 1, 0)[0] == stGood, "setup")
		}
		units[i] = u
	}
	u := units[0]
	a, b := make(chan []byte, 1), make(chan []byte, 1)
	zz.Races(k)
	go func() { a <- u.step(first, 0, typ) }()
	zz.HeadStart()
	go func() { b <- u.step(second, 1, typ) }()
	ra, rb := <-a, <-b
	zz.Races(0)
	after := u.see()
	a1 := units[1].step(first, 0, typ)
	b1 := units[1].step(second, 1, typ)
	s1 := units[1].see()
	b2 := units[2].step(second, 1, typ)
	a2 := units[2].step(first, 0, typ)
	s2 := units[2].see()
	one := zz.EqBytes(ra, a1) && zz.EqBytes(rb, b1) && zz.EqBytes(after, s1)
	two := zz.EqBytes(ra, a2) && zz.EqBytes(rb, b2) && zz.EqBytes(after, s2)
	if one && two {
		zz.Cover("same")
	} else if one {
		zz.Cover("order-1")
	} else if two {
		zz.Cover("order-2")
	}
	zz.Assert(one || two, "as-one-after-the-other")
}
