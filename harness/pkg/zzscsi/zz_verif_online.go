package zzscsi

import (
	zz "github.com/gostor/gotgt/pkg/zzsym"
)

const keyNotReady = 0x02

// mediumOps are the operation codes of the commands which need the medium.
var mediumOps = []byte{0x04, 0x42, 0x25, 0x9e}

// ZZOffline has a device which is configured offline, or online, take any
// command for its medium.
//
//zz:prop C38
//zz:bound every medium access opcode, FORMAT UNIT, UNMAP, READ CAPACITY(10/16) and GET LBA STATUS; every other CDB byte symbolic, or a well-formed command for one block; 0, 1 or 24 bytes of data-out or data-in; writes protected by software or not; a device configured offline or online, removable or not, provisioned thin or not; then TEST UNIT READY, INQUIRY with or without a page and REPORT LUNS
//zz:need offline online well-formed any
//zz:opt conc=300
func ZZOffline() {
	zzOffline = zz.Choose("offline", 2) == 1
	st := &zzStore{size: 64, mem: zz.Bytes("medium", 64)}
	before := append([]byte{}, st.mem...)
	zzMedium = st
	t := zzNewTarget(3, zz.Choose("thin", 2) == 1, 0)
	t.tgt.Devices[0].Attrs.SWP = zz.Choose("swp", 2) == 1
	swp := t.tgt.Devices[0].Attrs.SWP
	t.tgt.Devices[0].Attrs.Removable = zz.Choose("removable", 2) == 1
	ready := t.cmd(0, 0, make([]byte, 6), false, 0, nil)
	t.run(ready)
	zz.Assert((ready.Result == stGood) == !zzOffline, "ready-when-online")

	k := zz.Choose("op", len(ioOps)+len(mediumOps))
	well := zz.Choose("well-formed", 2) == 1
	cdb := make([]byte, 16)
	write, n, modifies := false, 0, false
	if k < len(ioOps) {
		o := &ioOps[k]
		same := o.code == 0x41 || o.code == 0x93
		cdb = rwCDB(o, 0, 1, 1)
		write = o.write || o.verify || same
		// a write-protected device also refuses PRE-FETCH
		modifies = o.write || same || o.code == 0x34 || o.code == 0x90
		n = 8
	} else {
		cdb[0] = mediumOps[k-len(ioOps)]
		switch cdb[0] {
		case 0x04:
			write, modifies = true, true
		case 0x42:
			cdb[8], n, write, modifies = 24, 24, true, true
		case 0x25:
			n = 8
		case 0x9e:
			cdb[1], cdb[13], n = 0x10, 32, 32
			if zz.Choose("lba-status", 2) == 1 {
				cdb[1] = 0x12
			}
		}
	}
	data := make([]byte, n)
	if well {
		zz.Cover("well-formed")
		if cdb[0] == 0x42 {
			data[1], data[3], data[19] = 22, 16, 1
		}
		if cdb[0] == 0x2f || cdb[0] == 0xaf || cdb[0] == 0x8f {
			copy(data, st.mem[8:])
		}
	} else {
		if !zzOffline {
			zz.Stop()
		}
		zz.Cover("any")
		op := cdb[0]
		cdb = zz.Bytes("cdb", 16)
		cdb[0] = op
		if op == 0x9e {
			zz.Assume(zz.Or(cdb[1]&0x1f == 0x10, cdb[1]&0x1f == 0x12))
		}
		n = []int{0, 1, 24}[zz.Choose("length", 3)]
		data = zz.Bytes("data", n)
	}
	c := t.cmd(1, 0, cdb, write, n, data)
	t.run(c)
	zz.Observe("result", int(c.Result))
	if zzOffline {
		zz.Cover("offline")
		zz.Assert(c.Result == stCheck, "no-medium-access-offline")
		key, _, ok := sense(c)
		zz.Assert(ok, "sense")
		if well {
			zz.Assert(key == keyNotReady || (key == 0x07 && swp && modifies), "not-ready")
		}
		if !write {
			zz.Assert(c.InSDBBuffer.Resid == 0, "no-data")
		}
		zz.Assert(len(st.ops) == 0, "medium-not-touched")
		zz.Assert(zz.EqBytes(st.mem, before), "medium-not-touched")
	} else {
		zz.Cover("online")
		if well && !(swp && modifies) && cdb[0] != 0x04 && !(cdb[0] == 0x9e && cdb[1] == 0x12) && !(cdb[0] == 0x42 && !t.tgt.Devices[0].Attrs.ThinProvisioning) {
			zz.Assert(c.Result == stGood, "medium-access-online")
		}
	}

	// it is there all the same
	q := t.cmd(0, 0, []byte{0x12, 0, 0, 0, 255, 0}, false, 255, nil)
	if zz.Choose("vpd", 2) == 1 {
		q.SCB[1], q.SCB[2] = 1, 0x83
	}
	t.run(q)
	zz.Assert(q.Result == stGood && q.InSDBBuffer.Resid > 0, "inquiry")
	zz.Assert((q.InSDBBuffer.Buffer[0]>>5 == 0) == !zzOffline && q.InSDBBuffer.Buffer[0]&0x1f == 0, "peripheral-qualifier")
	l := t.cmd(0, 0, []byte{0xa0, 0, 0, 0, 0, 0, 0, 0, 0, 64, 0, 0}, false, 64, nil)
	t.run(l)
	zz.Assert(l.Result == stGood && be(l.InSDBBuffer.Buffer[:4]) == 8, "report-luns")
	again := t.cmd(2, 0, make([]byte, 6), false, 0, nil)
	t.run(again)
	zz.Assert((again.Result == stGood) == !zzOffline, "ready-when-online")
}

// ZZEject has a unit, removable or not, take START STOP UNIT commands from
// several initiators, and sees after each whether its medium is there.
//
//zz:prop C38
//zz:bound 2 (thorough: 3) START STOP UNIT commands with any bytes, with PREVENT ALLOW MEDIUM REMOVAL allowing it before them or not, a unit removable or not; after each TEST UNIT READY, READ, WRITE, READ CAPACITY
//zz:need ejected loaded kept
func ZZEject() {
	st := &zzStore{size: 64, mem: zz.Bytes("medium", 64)}
	zzMedium = st
	t := zzNewTarget(3, false, 0)
	removable := zz.Choose("removable", 2) == 1
	t.tgt.Devices[0].Attrs.Removable = removable
	if zz.Choose("allow", 2) == 1 {
		c := t.cmd(1, 0, []byte{0x1e, 0, 0, 0, 0, 0}, false, 0, nil)
		t.run(c)
		zz.Assert(c.Result == stGood, "allow")
	}
	online := true
	steps := 2
	if zz.Thorough() {
		steps = 3
	}
	for i := 0; i < steps; i++ {
		k := string(rune('0' + i))
		cdb := zz.Bytes("cdb"+k, 6)
		cdb[0] = 0x1b
		c := t.cmd(i%3, 0, cdb, false, 0, nil)
		t.run(c)
		zz.Assert(c.Result == stGood, "start-stop")
		if zz.Branch(zz.And(cdb[4]&0x02 != 0, cdb[4]&0xf0 == 0)) && removable {
			online = zz.Branch(cdb[4]&0x01 != 0)
			if online {
				zz.Cover("loaded")
			} else {
				zz.Cover("ejected")
			}
		} else {
			zz.Cover("kept")
		}
		n := len(st.ops)
		for _, c := range [][]byte{make([]byte, 6), {0x28, 0, 0, 0, 0, 2, 0, 0, 1, 0}, {0x2a, 0, 0, 0, 0, 2, 0, 0, 1, 0}, {0x25, 0, 0, 0, 0, 0, 0, 0, 0, 0}} {
			x := t.cmd(2, 0, c, c[0] == 0x2a, 8, make([]byte, 8))
			t.run(x)
			zz.Assert((x.Result == stGood) == online, "medium-there")
			if !online {
				key, _, ok := sense(x)
				zz.Assert(ok && key == keyNotReady, "not-ready")
				zz.Assert(len(st.ops) == n, "medium-not-touched")
			}
		}
	}
}
