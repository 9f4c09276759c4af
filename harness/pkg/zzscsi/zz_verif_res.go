package zzscsi

import (
	"github.com/gostor/gotgt/pkg/api"
	"github.com/gostor/gotgt/pkg/scsi"
	zz "github.com/gostor/gotgt/pkg/zzsym"
)

// prModel is the state the SPC rules give: a key per registered nexus (0: not
// registered), the generation and the reservation.
type prModel struct {
	reg  [3]bool
	key  [3]uint64
	gen  uint64
	held bool
	by   int
	typ  byte
}

func allRegistrants(t byte) bool { return t == 7 || t == 8 }

func validType(t byte) bool {
	return t == 1 || t == 3 || t == 5 || t == 6 || t == 7 || t == 8
}

func (m *prModel) holder(n int) bool {
	return m.held && m.reg[n] && (m.by == n || allRegistrants(m.typ))
}

func (m *prModel) registrants() int {
	k := 0
	for _, r := range m.reg {
		if r {
			k++
		}
	}
	return k
}

// unregister removes a registration and what depends on it.
func (m *prModel) unregister(n int) {
	m.reg[n] = false
	m.key[n] = 0
	if !m.held {
		return
	}
	if allRegistrants(m.typ) {
		if m.registrants() == 0 {
			m.held = false
		}
		return
	}
	if m.by == n {
		m.held = false
	}
}

const (
	prGood = iota
	prConflict
	prIllegal
	prRelease
)

// apply performs one PERSISTENT RESERVE OUT and returns its outcome.
func (m *prModel) apply(n int, action, typ byte, rk, sa uint64) int {
	if action == 0 || action == 6 {
		if m.reg[n] {
			if action == 0 && zz.Branch(rk != m.key[n]) {
				return prConflict
			}
			if zz.Branch(sa != 0) {
				m.key[n] = sa
			} else {
				m.unregister(n)
			}
		} else {
			if action == 0 && zz.Branch(rk != 0) {
				return prConflict
			}
			if !zz.Branch(sa != 0) {
				m.gen = ^uint64(0) // whether this counts is not specified
				return prGood
			}
			m.reg[n], m.key[n] = true, sa
		}
		m.gen++
		return prGood
	}
	if action == 1 && !validType(typ) {
		return prIllegal
	}
	if !m.reg[n] || zz.Branch(rk != m.key[n]) {
		return prConflict
	}
	switch action {
	case 1:
		if m.held {
			if !m.holder(n) || m.typ != typ {
				return prConflict
			}
			return prGood
		}
		m.held, m.by, m.typ = true, n, typ
	case 2:
		if !m.held || !m.holder(n) {
			return prGood
		}
		if m.typ != typ {
			return prRelease
		}
		m.held = false
	case 3:
		*m = prModel{gen: m.gen + 1}
	case 4:
		match := [3]bool{}
		any := false
		zero := !zz.Branch(sa != 0)
		for i := range m.reg {
			if m.reg[i] && !zero && zz.Branch(m.key[i] == sa) {
				match[i] = true
				any = true
			}
		}
		if !zero && !any {
			return prConflict
		}
		take := false
		if !m.held {
			if zero {
				return prIllegal
			}
		} else if allRegistrants(m.typ) {
			if zero {
				take = true
				match = [3]bool{true, true, true}
			}
		} else if match[m.by] {
			take = true
		} else if zero {
			return prIllegal
		}
		if take {
			if !validType(typ) {
				return prIllegal
			}
			m.by, m.typ = n, typ
		}
		for i := range m.reg {
			if i != n && match[i] {
				m.reg[i], m.key[i] = false, 0
			}
		}
		m.gen++
	}
	return prGood
}

// prOut sends a PERSISTENT RESERVE OUT.
func (t *zzTarget) prOut(n int, action, scopeType byte, rk, sa uint64, flags byte) *api.SCSICommand {
	p := make([]byte, 24)
	putBE(p[0:8], rk)
	putBE(p[8:16], sa)
	p[20] = flags
	cdb := make([]byte, 16)
	cdb[0], cdb[1], cdb[2], cdb[8] = 0x5f, action, scopeType, 24
	c := t.cmd(n, 0, cdb, true, 24, p)
	t.run(c)
	return c
}

func (t *zzTarget) prIn(n int, action byte) []byte {
	cdb := make([]byte, 16)
	cdb[0], cdb[1], cdb[8] = 0x5e, action, 255
	c, d := t.dataIn(n, 0, cdb, 255)
	zz.Assert(c.Result == stGood && len(d) >= 8, "reserve-in")
	zz.Assert(int(be(d[4:8])) == len(d)-8, "reserve-in-length")
	return d
}

// checkPR compares what PERSISTENT RESERVE IN reports with the model.
func checkPR(t *zzTarget, m *prModel) {
	d := t.prIn(1, 0)
	if m.gen>>32 != 0 {
		m.gen = be(d[0:4])
	}
	zz.Assert(be(d[0:4]) == m.gen, "generation")
	zz.Assert(len(d) == 8+8*m.registrants(), "number-of-keys")
	// the same keys, each as often
	for i := range m.reg {
		if !m.reg[i] {
			continue
		}
		a, b := uint64(0), uint64(0)
		for j := range m.reg {
			if m.reg[j] {
				a += zz.IteU64(m.key[j] == m.key[i], 1, 0)
			}
		}
		for j := 8; j+8 <= len(d); j += 8 {
			b += zz.IteU64(be(d[j:j+8]) == m.key[i], 1, 0)
		}
		zz.Assert(a == b, "registered-keys")
	}
	d = t.prIn(2, 1)
	zz.Assert(be(d[0:4]) == m.gen, "generation-in-read-reservation")
	if !m.held {
		zz.Assert(len(d) == 8, "no-reservation")
		return
	}
	zz.Cover("reserved")
	zz.Assert(len(d) == 24, "reservation")
	zz.Assert(d[21] == m.typ, "reservation-scope-and-type")
	if allRegistrants(m.typ) {
		zz.Assert(be(d[8:16]) == 0, "all-registrants-key")
	} else {
		zz.Assert(be(d[8:16]) == m.key[m.by], "holder-key")
	}
}

func checkOutcome(c *api.SCSICommand, out int, id string) {
	switch out {
	case prGood:
		zz.Assert(c.Result == stGood, id+"-good")
	case prConflict:
		zz.Cover("conflict")
		zz.Assert(c.Result == stConfl, id+"-conflict")
	case prIllegal:
		wantSense(c, keyIll, 0x2400, id+"-illegal")
	case prRelease:
		zz.Cover("wrong-release")
		wantSense(c, keyIll, 0x2604, id+"-invalid-release")
	}
}

// ZZReservations: any state, then any commands.
//
//zz:prop C11
//zz:bound start states: each of three nexuses registered with any key or not, reservation held by any of them with any of the six types or none; then 1 (thorough 2) PERSISTENT RESERVE OUT with REGISTER, RESERVE, RELEASE, CLEAR, PREEMPT or REGISTER AND IGNORE from any nexus with any keys and any type
//zz:need conflict reserved wrong-release
//zz:opt conc=20
func ZZReservations() {
	zzMedium = &zzStore{size: 1 << 20}
	t := zzNewTarget(9, false, 0)
	m := anyPRState(t)
	checkPR(t, m)
	steps := 1
	if zz.Thorough() {
		steps = 2
	}
	for s := 0; s < steps; s++ {
		prStep(t, m)
	}
}

// anyPRState registers any of the nexuses with any keys and makes one of them
// the holder, or none.
func anyPRState(t *zzTarget) *prModel {
	m := &prModel{}
	regs := zz.Choose("registered", 8)
	for i := 0; i < 3; i++ {
		if regs>>uint(i)&1 != 0 {
			k := zz.U64("key")
			zz.Assume(k != 0)
			c := t.prOut(i, 0, 0, 0, k, 0)
			checkOutcome(c, m.apply(i, 0, 0, 0, k), "register")
		}
	}
	types := []byte{1, 3, 5, 6, 7, 8}
	h := zz.Choose("holder", 4)
	if h < 3 {
		if !m.reg[h] {
			zz.Stop()
		}
		typ := types[zz.Choose("heldtype", len(types))]
		c := t.prOut(h, 1, typ, m.key[h], 0, 0)
		checkOutcome(c, m.apply(h, 1, typ, m.key[h], 0), "reserve")
	}
	return m
}

// keepsOut tells whether the reservation keeps a nexus from reads, or writes.
func (m *prModel) keepsOut(n int, write bool) bool {
	if !m.held || m.holder(n) {
		return false
	}
	switch m.typ {
	case 1:
		return write
	case 3:
		return true
	case 5, 7:
		return !m.reg[n] && write
	}
	return !m.reg[n]
}

// ZZFence: who has access to the medium under a persistent reservation.
//
//zz:prop C33
//zz:bound start states: each of three nexuses registered with any key or not, reservation held by any of them with any of the six types or none; then none or one more PERSISTENT RESERVE OUT from any nexus with any keys (and then READ(10) or WRITE(10); thorough: any command); then a command of any nexus: every medium access opcode with any CDB when it is kept out, with a block in range when it is not; TEST UNIT READY, INQUIRY, REPORT LUNS, REQUEST SENSE, READ CAPACITY, PERSISTENT RESERVE IN
//zz:need kept-out-of-writes kept-out-of-all registrant holder free always
//zz:opt conc=20
func ZZFence() {
	zzMedium = &zzStore{size: 64, mem: make([]byte, 64)}
	t := zzNewTarget(3, true, 0)
	op := zz.Choose("op", len(ioOps)+3)
	more := zz.Choose("more", 2) == 1
	if more && !zz.Thorough() && op != 1 && op != 5 {
		zz.Stop()
	}
	m := anyPRState(t)
	if more {
		n := zz.Choose("nexus", 3)
		action := []byte{0, 2, 3, 4, 6}[zz.Choose("action", 5)]
		if !zz.Thorough() && !m.reg[n] {
			zz.Stop()
		}
		rk, sa := zz.U64("rk"), zz.U64("sa")
		if !zz.Thorough() {
			// what has an effect
			zz.Assume(rk == m.key[n])
		}
		if action == 4 && !m.held {
			zz.Stop()
		}
		c := t.prOut(n, action, m.typ, rk, sa, 0)
		checkOutcome(c, m.apply(n, action, m.typ, rk, sa), "out")
	}
	n := zz.Choose("by", 3)
	k := len(zzMedium.ops)
	if op == len(ioOps) {
		zz.Cover("always")
		cdb := make([]byte, 16)
		cdb[0] = []byte{0x00, 0x12, 0xa0, 0x03, 0x25, 0x5e}[zz.Choose("other", 6)]
		cdb[4], cdb[8], cdb[9] = 0, 1, 0
		if cdb[0] == 0x25 {
			cdb[8] = 0
		}
		c := t.cmd(n, 0, cdb, false, 256, nil)
		t.run(c)
		zz.Assert(c.Result != stConfl, "never-kept-out-of-these")
		return
	}
	write := op > len(ioOps)
	var o *ioOp
	if !write {
		o = &ioOps[op]
		write = o.write || o.code == 0x41 || o.code == 0x93 || o.code == 0x35 || o.code == 0x91
	}
	if m.keepsOut(n, write) {
		if m.keepsOut(n, false) {
			zz.Cover("kept-out-of-all")
		} else {
			zz.Cover("kept-out-of-writes")
		}
		cdb := zz.Bytes("cdb", 16)
		if o != nil {
			cdb[0] = o.code
		} else {
			cdb[0] = []byte{0x42, 0x04}[op-len(ioOps)-1]
		}
		c := t.cmd(n, 0, cdb, write, 24, zz.Bytes("data", 24))
		t.run(c)
		zz.Assert(c.Result == stConfl, "kept-out")
		zz.Assert(len(zzMedium.ops) == k, "kept-out-command-has-no-effect")
		return
	}
	switch {
	case !m.held:
		zz.Cover("free")
	case m.holder(n):
		zz.Cover("holder")
	case m.reg[n]:
		zz.Cover("registrant")
	}
	var c *api.SCSICommand
	if o == nil {
		cdb := make([]byte, 16)
		cdb[0] = []byte{0x42, 0x04}[op-len(ioOps)-1]
		c = t.cmd(n, 0, cdb, true, 0, nil)
	} else {
		c = t.cmd(n, 0, rwCDB(o, 0, 1, 1), !o.read, 8, make([]byte, 8))
	}
	t.run(c)
	zz.Assert(c.Result == stGood, "has-access")
}

func prStep(t *zzTarget, m *prModel) {
	n := zz.Choose("nexus", 3)
	action := []byte{0, 1, 2, 3, 4, 6}[zz.Choose("action", 6)]
	var typ byte
	switch action {
	case 1, 2, 4:
		typ = []byte{1, 3, 5, 6, 7, 8, 0, 2, 9}[zz.Choose("type", 9)]
	}
	rk, sa := zz.U64("rk"), zz.U64("sa")
	if action == 4 && !m.held && m.reg[n] {
		// preempting one's own key when there is no reservation is not specified
		zz.Assume(sa != m.key[n])
	}
	c := t.prOut(n, action, typ, rk, sa, 0)
	checkOutcome(c, m.apply(n, action, typ, rk, sa), "out")
	checkPR(t, m)
}

// ZZReservationHistory: from nothing, sequences of commands.
//
//zz:prop C11
//zz:bound histories of 3 (thorough 4) PERSISTENT RESERVE OUT from two nexuses, reservation types 1 and 7 (write exclusive, and for all registrants), keys 0 or any symbolic values
//zz:need conflict reserved
//zz:opt conc=20
func ZZReservationHistory() {
	zzMedium = &zzStore{size: 1 << 20}
	t := zzNewTarget(9, false, 0)
	m := &prModel{}
	steps := 3
	if zz.Thorough() {
		steps = 4
	}
	for s := 0; s < steps; s++ {
		n := zz.Choose("nexus", 2)
		action := []byte{0, 1, 2, 3, 4, 6}[zz.Choose("action", 6)]
		var typ byte
		switch action {
		case 1, 2, 4:
			typ = []byte{1, 7}[zz.Choose("type", 2)]
		}
		rk, sa := zz.U64("rk"), zz.U64("sa")
		if action == 4 && !m.held && m.reg[n] {
			zz.Assume(sa != m.key[n])
		}
		c := t.prOut(n, action, typ, rk, sa, 0)
		checkOutcome(c, m.apply(n, action, typ, rk, sa), "out")
		checkPR(t, m)
	}
}

// ZZReserveParams: malformed PERSISTENT RESERVE OUT changes nothing.
//
//zz:prop C11,C04
//zz:bound all 16 CDB bytes symbolic but the opcode; 0, 8, 23, 24, 25 or 48 bytes of parameter data, all symbolic; registered holder, or nothing registered
//zz:need unchanged changed
//zz:opt conc=70
func ZZReserveParams() {
	zzMedium = &zzStore{size: 1 << 20}
	t := zzNewTarget(9, false, 0)
	t.prepare([]int{3, 0}[zz.Choose("state", 2)])
	keys, res := t.prIn(0, 0), t.prIn(0, 1)
	keys, res = append([]byte{}, keys...), append([]byte{}, res...)
	n := []int{24, 0, 8, 23, 25, 48}[zz.Choose("n", 6)]
	cdb := zz.Bytes("cdb", 16)
	cdb[0] = 0x5f
	p := zz.Bytes("param", n)
	sent := append([]byte{}, p...)
	nexus := zz.Choose("nexus", 2) * 2
	c := t.cmd(nexus, 0, cdb, true, n, p)
	t.run(c)
	outcome(c)
	k2, r2 := t.prIn(0, 0), t.prIn(0, 1)
	action := cdb[1] & 0x1f
	bad := zz.Or(be(cdb[5:9]) != 24, n < 24)
	if n >= 24 {
		// SPEC_I_PT, ALL_TG_PT and APTPL are not supported
		bad = zz.Or(bad, sent[20]&0x0d != 0)
	}
	bad = zz.And(bad, action != 7)
	bad = zz.Or(bad, action > 7, action == 5)
	// a scope other than the logical unit
	bad = zz.Or(bad, zz.And(zz.Or(action == 1), cdb[2]&0xf0 != 0))
	if zz.Branch(bad) {
		zz.Assert(c.Result == stCheck, "malformed-is-refused")
		k, _, _ := sense(c)
		zz.Assert(k == keyIll, "malformed-sense")
	}
	if c.Result != stGood {
		zz.Cover("unchanged")
		zz.Assert(zz.EqBytes(keys, k2) && zz.EqBytes(res, r2), "refused-command-changes-nothing")
	} else {
		zz.Cover("changed")
	}
}

// ZZReserve: RESERVE, RELEASE and everything that ends a reservation.
//
//zz:prop C12
//zz:bound histories of 3 (thorough 4) steps: RESERVE, RELEASE or a medium command by any of three nexuses, unit reset, loss of a nexus; two units; every medium opcode in the last step
//zz:need conflict own released
func ZZReserve() {
	zzMedium = nil
	t := zzNewTarget(3, false, 0, 1)
	for l, d := range t.tgt.Devices {
		d.Size = 32
		t.stores[l].size = 32
		t.stores[l].mem = make([]byte, 32)
	}
	holder := map[int]int{0: -1, 1: -1}
	steps := 3
	if zz.Thorough() {
		steps = 4
	}
	gone := -1
	for s := 0; s <= steps; s++ {
		n := zz.Choose("nexus", 3)
		if n == gone {
			zz.Stop()
		}
		lun := zz.Choose("lun", 2)
		if s == 0 && (n != 0 || lun != 0) {
			zz.Stop() // the rest is the same up to names
		}
		do := 4
		if s < steps {
			do = zz.Choose("do", 4)
		}
		if s == 0 && do != 0 {
			zz.Stop()
		}
		switch do {
		case 0, 1: // RESERVE, RELEASE
			cdb := make([]byte, 16)
			cdb[0] = byte(0x16 + do)
			c := t.cmd(n, uint64(lun), cdb, false, 0, nil)
			t.run(c)
			other := holder[lun] >= 0 && holder[lun] != n
			if do == 0 && other {
				zz.Assert(c.Result == stConfl, "reserve-conflicts")
			} else {
				zz.Assert(c.Result == stGood, "reserve-or-release-good")
				if do == 0 {
					holder[lun] = n
				} else if !other {
					if holder[lun] == n {
						zz.Cover("released")
					}
					holder[lun] = -1
				}
			}
		case 2:
			zz.Assert(scsi.ResetLogicalUnit(t.tgt, [8]uint8{byte(lun)}), "reset")
			holder[lun] = -1
		case 3:
			if gone >= 0 {
				zz.Stop()
			}
			scsi.RemoveITNexus(t.tgt, t.nexus[n])
			gone = n
			for l := range holder {
				if holder[l] == n {
					holder[l] = -1
				}
			}
		case 4:
			o := &ioOps[zz.Choose("op", len(ioOps))]
			st := t.stores[uint64(lun)]
			k := len(st.ops)
			var c *api.SCSICommand
			data := 8
			if o.read {
				c = t.cmd(n, uint64(lun), rwCDB(o, 0, 1, 1), false, data, nil)
			} else {
				c = t.cmd(n, uint64(lun), rwCDB(o, 0, 1, 1), true, data, make([]byte, data))
			}
			t.run(c)
			if holder[lun] >= 0 && holder[lun] != n {
				zz.Cover("conflict")
				zz.Assert(c.Result == stConfl, "reserved-unit-conflicts")
				zz.Assert(len(st.ops) == k, "conflicting-command-has-no-effect")
			} else {
				zz.Cover("own")
				zz.Assert(c.Result == stGood, "access-by-holder-or-unreserved")
			}
		}
	}
}
