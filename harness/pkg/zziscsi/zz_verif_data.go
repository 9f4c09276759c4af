package zziscsi

import (
	"strconv"

	zz "github.com/gostor/gotgt/pkg/zzsym"
)

// readBack collects the answer to a read of a total of have bytes, of which the
// initiator expects want, and checks how it came.
func readBack(c *ini, got []pdu, tag uint32, seg, burst int, have, want uint32) []byte {
	var data []byte
	n := have
	if n > want {
		n = want
	}
	inBurst := 0
	if len(got) == 0 {
		zz.Assert(false, "answered")
		zz.Stop()
	}
	last := len(got) - 1
	for i, p := range got {
		layout(p)
		zz.Assert(p.itt() == tag, "tag")
		if p.op() == 0x21 {
			break
		}
		zz.Assert(p.op() == 0x25, "data-in")
		zz.Assert(p.w(36) == uint32(i), "data-sn")
		zz.Assert(p.w(40) == uint32(len(data)), "offset")
		zz.Assert(len(p.data) <= seg, "segment-size")
		zz.Assert(len(p.data) > 0 || n == 0 && len(got) == 1, "segment-empty")
		data = append(data, p.data...)
		inBurst += len(p.data)
		zz.Assert(inBurst <= burst, "burst-size")
		if p.h[1]&0x80 != 0 {
			inBurst = 0
		}
		zz.Assert(zz.Implies(i == last, p.h[1]&0x80 != 0), "final-on-last")
		zz.Assert(zz.Implies(i != last, p.h[1]&1 == 0), "status-on-last-only")
		zz.Assert(p.expCmd() == c.cmdSN, "exp-cmd-sn")
		zz.Assert(int32(p.maxCmd()-p.expCmd()) >= 0, "window")
	}
	p := got[last]
	zz.Assert(uint32(len(data)) == n, "length")
	zz.Assert(zz.Or(p.op() == 0x21, p.h[1]&1 == 1), "status-sent")
	zz.Assert(p.h[3] == 0, "status-good")
	zz.Assert(p.statSN() == c.stat, "stat-sn")
	switch {
	case have < want:
		zz.Assert(p.h[1]&6 == 2, "underflow")
		zz.Assert(p.w(44) == want-have, "underflow-count")
	case have > want:
		zz.Assert(p.h[1]&6 == 4, "overflow")
		zz.Assert(p.w(44) == have-want, "overflow-count")
	default:
		zz.Assert(p.h[1]&6 == 0, "no-residual")
	}
	return data
}

// ZZRead reads blocks with every relation between what is expected, what there
// is, and the sizes that were negotiated.
//
//zz:prop C02,C19,C20,C23,C25
//zz:bound 1 to 3 blocks; expected length 0 to 4 blocks in odd steps; MaxRecvDataSegmentLength 512 to 4096 and the default; MaxBurstLength 512 to 2048 and the default; medium arbitrary
//zz:need split burst under refused
func ZZRead() {
	segs := []int{0, 512, 600, 1024, 1025, 4096}
	bursts := []int{0, 512, 1000, 1024, 2048}
	edtls := []uint32{0, 1, 511, 512, 513, 1023, 1024, 1025, 1536, 2048}
	r, st := oneTarget(3)
	c := r.dial()
	c.cmdSN = zz.U32("cmdsn")
	c.stat = zz.U32("stat")
	var kv []string
	seg, burst := 8192, 262144
	if s := segs[zz.Choose("seg", len(segs))]; s != 0 {
		kv = append(kv, "MaxRecvDataSegmentLength="+strconv.Itoa(s))
		seg = s
	}
	if b := bursts[zz.Choose("burst", len(bursts))]; b != 0 {
		kv = append(kv, "MaxBurstLength="+strconv.Itoa(b))
		burst = b
	}
	c.login(kv...)
	copy(st.mem, zz.Bytes("medium", len(st.mem)))
	n := 1 + zz.Choose("blocks", 3)
	want := edtls[zz.Choose("edtl", len(edtls))]
	c.send(c.scsi(0xc1, 0, want, rw10(0x28, uint32(3-n), uint16(n)), nil))
	tag := c.itt
	c.cmdSN++
	have := uint32(n * blk)
	got := c.pdus()
	if want < have && len(got) == 1 && got[0].op() == 0x21 && zz.Branch(got[0].h[3] == 2) {
		// the target may refuse a read which can't be answered in full
		zz.Cover("refused")
		layout(got[0])
		zz.Assert(len(got[0].data) >= 16, "sense")
		zz.Assert(got[0].data[4]&0xf == 5, "sense-key")
		return
	}
	data := readBack(c, got, tag, seg, burst, have, want)
	zz.Assert(zz.EqBytes(data, st.mem[len(st.mem)-n*blk:][:len(data)]), "data")
	if len(got) > 1 {
		zz.Cover("split")
	}
	if int(have) > burst && int(want) > burst {
		zz.Cover("burst")
	}
	if have < want {
		zz.Cover("under")
	}
	c.stat++
	// the connection goes on
	c.send(c.bhs(0x40, 0x80, 0))
	p := c.one("next-answered")
	zz.Assert(zz.And(p.op() == 0x20, p.statSN() == c.stat), "next-stat-sn")
	zz.Observe("last", got[len(got)-1].h)
}

// ZZParameterData asks for parameter data with any allocation length, expecting any number of bytes.
//
//zz:prop C10,C19,C20
//zz:bound INQUIRY, REPORT LUNS, READ CAPACITY and MODE SENSE with allocation lengths 0 to 64 and expected lengths 0 to 64 in odd steps
//zz:need under over exact
func ZZParameterData() {
	r, _ := oneTarget(3)
	c := r.dial()
	c.login()
	lens := []int{0, 1, 3, 4, 8, 15, 16, 35, 36, 37, 64}
	alloc := lens[zz.Choose("alloc", len(lens))]
	want := uint32(lens[zz.Choose("edtl", len(lens))])
	cdb := make([]byte, 16)
	var full int
	switch zz.Choose("cmd", 4) {
	case 0:
		cdb[0], cdb[4] = 0x12, byte(alloc)
		full = 36
	case 1:
		cdb[0], cdb[9] = 0xa0, byte(alloc)
		full = 16
	case 2:
		cdb[0], cdb[1], cdb[13] = 0x9e, 0x10, byte(alloc)
		full = 32
	case 3:
		cdb[0] = 0x25
		full, alloc = 8, 8
	}
	if cdb[0] == 0xa0 {
		zz.Assume(alloc >= 16)
	}
	c.send(c.scsi(0xc1, 0, want, cdb, nil))
	tag := c.itt
	c.cmdSN++
	got := c.pdus()
	if cdb[0] == 0x12 {
		// the length of standard data is the target's to choose
		if len(got) == 0 || len(got[0].data) < 5 {
			full = alloc
			if full > 36 {
				return
			}
		} else {
			full = int(zz.Concrete(uint64(got[0].data[4]))) + 5
		}
	}
	have := full
	if have > alloc {
		have = alloc
	}
	readBack(c, got, tag, 8192, 262144, uint32(have), want)
	switch {
	case uint32(have) < want:
		zz.Cover("under")
	case uint32(have) > want:
		zz.Cover("over")
	default:
		zz.Cover("exact")
	}
}

// dataOut is one Data-Out PDU for a task.
func (c *ini) dataOut(tag, ttt uint32, final bool, sn, off uint32, data []byte) []byte {
	h := make([]byte, 48)
	h[0] = 0x05
	if final {
		h[1] = 0x80
	}
	putBE(h[5:8], uint64(len(data)))
	putBE(h[16:20], uint64(tag))
	putBE(h[20:24], uint64(ttt))
	putBE(h[28:32], uint64(c.stat))
	putBE(h[36:40], uint64(sn))
	putBE(h[40:44], uint64(off))
	return append(h, pad(append([]byte{}, data...))...)
}

// solicited serves R2Ts until the command is answered; done is what the target
// has already. It returns the response.
func (c *ini) solicited(tag uint32, data []byte, done, burst int, piece func(n int) int) pdu {
	for sn := uint32(0); ; sn++ {
		p := c.one("answered")
		layout(p)
		zz.Assert(p.itt() == tag, "tag")
		if p.op() != 0x31 {
			zz.Assert(done == len(data), "all-data-asked-for")
			return p
		}
		zz.Assert(p.statSN() == c.stat, "r2t-stat-sn")
		zz.Assert(p.w(36) == sn, "r2t-sn")
		zz.Assert(p.w(40) == uint32(done), "r2t-offset")
		n := int(zz.Concrete(uint64(p.w(44))))
		zz.Assert(n > 0, "r2t-empty")
		zz.Assert(n <= burst, "r2t-burst")
		zz.Assert(done+n <= len(data), "r2t-range")
		if done+n > len(data) || n == 0 {
			zz.Stop()
		}
		for k, dsn := 0, uint32(0); k < n; dsn++ {
			m := piece(n - k)
			c.send(c.dataOut(tag, p.w(20), k+m == n, dsn, uint32(done+k), data[done+k:done+k+m]))
			k += m
		}
		done += n
	}
}

// piece chooses how much of n bytes goes in the next PDU.
func piece(n int) int {
	sizes := []int{n, 300}
	if zz.Thorough() {
		sizes = []int{n, 512, 100}
	}
	m := sizes[zz.Choose("piece", len(sizes))]
	if m > n {
		m = n
	}
	if n-m > 512 && m < 512 {
		// no more than one odd piece
		m = n - 511
	}
	return m
}

// ZZWrite writes blocks with every split-up of the data.
//
//zz:prop C02,C19,C20,C21,C23,C25
//zz:bound 2 to 3 blocks (1 to 3 thorough); immediate data of 0 to all bytes in odd steps, negotiated or not; MaxBurstLength 512, 1000, 1024 and the default; Data-Out PDUs of several sizes; all data arbitrary
//zz:need immediate solicited mixed refused bursts
func ZZWrite() {
	bursts := []int{0, 512, 1000, 1024}
	r, st := oneTarget(3)
	c := r.dial()
	c.cmdSN = zz.U32("cmdsn")
	c.stat = zz.U32("stat")
	var kv []string
	burst := 262144
	if b := bursts[zz.Choose("burst", len(bursts))]; b != 0 {
		kv = append(kv, "MaxBurstLength="+strconv.Itoa(b))
		burst = b
	}
	immOK := true
	switch zz.Choose("immediate", 3) {
	case 1:
		kv = append(kv, "ImmediateData=Yes")
	case 2:
		kv = append(kv, "ImmediateData=No")
		immOK = false
	}
	c.login(kv...)
	copy(st.mem, zz.Bytes("medium", 8))
	was := append([]byte{}, st.mem...)
	n := 3 - zz.Choose("blocks", 2)
	if zz.Thorough() {
		n -= zz.Choose("fewer", 2)
	}
	data := zz.Bytes("data", n*blk)
	imms := []int{0, 1, 511, 512, 513, n * blk}
	imm := imms[zz.Choose("imm", len(imms))]
	zz.Assume(imm <= n*blk)
	lba := 3 - n
	c.send(c.scsi(0xa1, 0, uint32(n*blk), rw10(0x2a, uint32(lba), uint16(n)), data[:imm]))
	tag := c.itt
	c.cmdSN++
	if imm > 0 && !immOK {
		zz.Cover("refused")
		for _, p := range c.pdus() {
			zz.Assert(p.op() == 0x21 && p.h[3] != 0 || p.op() == 0x3f, "not-good")
		}
		zz.Assert(len(st.writes) == 0, "not-executed")
		return
	}
	p := c.solicited(tag, data, imm, burst, piece)
	zz.Assert(p.op() == 0x21, "response")
	zz.Assert(zz.And(p.h[1] == 0x80, p.h[2] == 0, p.h[3] == 0, len(p.data) == 0), "good")
	zz.Assert(p.statSN() == c.stat, "stat-sn")
	zz.Assert(p.expCmd() == c.cmdSN, "exp-cmd-sn")
	copy(was[lba*blk:], data)
	zz.Assert(zz.EqBytes(st.mem, was), "medium")
	zz.Assert(len(st.writes) == 1, "once")
	switch {
	case imm == n*blk:
		zz.Cover("immediate")
	case imm == 0:
		zz.Cover("solicited")
	default:
		zz.Cover("mixed")
	}
	if n*blk-imm > burst {
		zz.Cover("bursts")
	}
	zz.Observe("response", p.h)
}

// ZZMisplaced sends Data-Out with an arbitrary offset, length and tag.
//
//zz:prop C21,C18
//zz:bound a write of 2 blocks after 0 or 512 bytes of immediate data; one Data-Out with any offset and tag and 0 to 1040 bytes, final or not
//zz:need placed misplaced stranger
func ZZMisplaced() {
	r, st := oneTarget(4)
	c := r.dial()
	c.login()
	data := zz.Bytes("data", 2*blk)
	imm := 512 * zz.Choose("imm", 2)
	c.send(c.scsi(0xa1, 0, 2*blk, rw10(0x2a, 1, 2), data[:imm]))
	tag := c.itt
	c.cmdSN++
	r2t := c.one("r2t")
	zz.Assert(r2t.op() == 0x31, "r2t")
	was := append([]byte{}, st.mem...)
	lens := []int{0, 4, 512, 513, 1024, 1040}
	n := lens[zz.Choose("len", len(lens))]
	d := zz.Bytes("bad", n)
	final := zz.Choose("final", 2) == 1
	off := zz.U32("off")
	to := zz.U32("to")
	mine := zz.Branch(to == tag)
	c.send(c.dataOut(to, r2t.w(20), final, 0, off, d))
	got := c.pdus()
	left := 2*blk - imm
	if !mine {
		zz.Cover("stranger")
		// the data is nobody's: the write still waits for its own
		zz.Assert(len(st.writes) == 0, "not-executed")
		if c.closed {
			return
		}
		for _, p := range got {
			zz.Assert(p.op() == 0x3f, "not-answered")
			c.stat++
		}
		c.send(c.dataOut(tag, r2t.w(20), true, 0, uint32(imm), data[imm:]))
		p := c.one("answered")
		zz.Assert(zz.And(p.op() == 0x21, p.h[3] == 0, p.itt() == tag), "good")
		copy(was[blk:], data)
		zz.Assert(zz.EqBytes(st.mem, was), "medium")
		return
	}
	if zz.Branch(zz.And(off == uint32(imm), n <= left)) {
		zz.Cover("placed")
		if n == left && final {
			zz.Assert(len(got) == 1, "answered")
			copy(was[blk:], data[:imm])
			copy(was[blk+imm:], d)
			zz.Assert(zz.EqBytes(st.mem, was), "medium")
			return
		}
		zz.Assert(len(st.writes) == 0, "waits-for-the-rest")
		return
	}
	zz.Cover("misplaced")
	zz.Assert(len(st.writes) == 0, "not-executed")
	for _, p := range got {
		zz.Assert(p.op() == 0x21 && p.h[3] != 0 || p.op() == 0x3f, "not-good")
	}
	if c.closed || len(got) == 0 {
		return
	}
	// whatever comes later, the misplaced data is not written
	c.stat++
	c.send(c.dataOut(tag, r2t.w(20), true, 0, uint32(imm), data[imm:]))
	c.pdus()
	if len(st.writes) != 0 {
		copy(was[blk:], data)
	}
	zz.Assert(zz.EqBytes(st.mem, was), "medium")
}

// ZZMismatch writes with an expected length that is not the length of the CDB.
//
//zz:prop C21
//zz:bound WRITE of 1 to 2 blocks with 0 to 3 blocks expected, in odd steps; immediate or solicited; all data arbitrary
//zz:need short long
func ZZMismatch() {
	r, st := oneTarget(4)
	c := r.dial()
	c.login()
	copy(st.mem, zz.Bytes("medium", 16))
	was := append([]byte{}, st.mem...)
	n := 1 + zz.Choose("blocks", 2)
	lens := []int{0, 1, 511, 512, 513, 1023, 1024, 1025, 1536}
	want := lens[zz.Choose("edtl", len(lens))]
	data := zz.Bytes("data", want)
	imm := 0
	if zz.Choose("imm", 2) == 1 {
		imm = want
	}
	c.send(c.scsi(0xa1, 0, uint32(want), rw10(0x2a, 1, uint16(n)), data[:imm]))
	tag := c.itt
	c.cmdSN++
	p := c.solicited(tag, data, imm, 262144, func(n int) int { return n })
	zz.Assert(p.op() == 0x21, "response")
	if want < n*blk {
		zz.Cover("short")
		// refused, or done as far as there is data
		if p.h[3] == 0 {
			copy(was[blk:], data)
		}
		zz.Assert(zz.EqBytes(st.mem, was), "medium")
		return
	}
	if want > n*blk {
		zz.Cover("long")
	}
	zz.Assert(p.h[3] == 0, "good")
	copy(was[blk:], data[:n*blk])
	zz.Assert(zz.EqBytes(st.mem, was), "medium")
}

// ZZTwoWrites has two writes wait for data at the same time, on one connection.
//
//zz:prop C21,C22
//zz:bound two writes of one block each and a read in between, Data-Out of the two in every order and split; all data arbitrary; any starting CmdSN
//zz:need swapped
func ZZTwoWrites() {
	r, st := oneTarget(4)
	c := r.dial()
	c.cmdSN = zz.U32("cmdsn")
	c.login()
	was := append([]byte{}, st.mem...)
	data := [2][]byte{zz.Bytes("a", blk), zz.Bytes("b", blk)}
	var tag [2]uint32
	var ttt [2]uint32
	var imm [2]int
	for i := range tag {
		imm[i] = 100 * zz.Choose("imm", 2)
		c.send(c.scsi(0xa1, 0, blk, rw10(0x2a, uint32(1+i), 1), data[i][:imm[i]]))
		tag[i] = c.itt
		c.cmdSN++
		p := c.one("r2t")
		zz.Assert(zz.And(p.op() == 0x31, p.itt() == tag[i], p.w(40) == uint32(imm[i]), p.w(44) == uint32(blk-imm[i])), "r2t")
		ttt[i] = p.w(20)
	}
	done := imm
	order := []int{}
	for k := 0; k < 4; k++ {
		i := zz.Choose("who", 2)
		if done[i] == blk {
			i = 1 - i
		}
		if done[i] == blk {
			break
		}
		n := blk - done[i]
		if n > 300 && zz.Choose("half", 2) == 1 {
			n = 256
		}
		c.send(c.dataOut(tag[i], ttt[i], done[i]+n == blk, 0, uint32(done[i]), data[i][done[i]:done[i]+n]))
		done[i] += n
		if done[i] < blk {
			zz.Assert(len(c.pdus()) == 0, "waits")
			continue
		}
		order = append(order, i)
		p := c.one("answered")
		zz.Assert(zz.And(p.op() == 0x21, p.itt() == tag[i], p.h[3] == 0), "good")
		zz.Assert(zz.And(p.statSN() == c.stat, p.expCmd() == c.cmdSN), "numbers")
		c.stat++
		copy(was[(1+i)*blk:], data[i])
		zz.Assert(zz.EqBytes(st.mem, was), "medium")
	}
	if len(order) == 2 && order[0] == 1 {
		zz.Cover("swapped")
	}
	zz.Assert(len(st.writes) == len(order), "once")
}

// ZZBrokenWrite loses the connection while a write waits for its data.
//
//zz:prop C21,C26
//zz:bound a write of 2 blocks cut after any of its PDUs, then a new login
func ZZBrokenWrite() {
	r, st := oneTarget(4)
	c := r.dial()
	c.login()
	data := zz.Bytes("data", 2*blk)
	was := append([]byte{}, st.mem...)
	imm := []int{0, 512, 1000}[zz.Choose("imm", 3)]
	c.send(c.scsi(0xa1, 0, 2*blk, rw10(0x2a, 1, 2), data[:imm]))
	tag := c.itt
	p := c.one("r2t")
	n := (2*blk - imm) / 2
	switch zz.Choose("cut", 3) {
	case 1:
		c.send(c.dataOut(tag, p.w(20), false, 0, uint32(imm), data[imm:imm+n]))
	case 2:
		b := c.dataOut(tag, p.w(20), true, 0, uint32(imm), data[imm:])
		c.send(b[:len(b)-4])
	}
	c.c.Close()
	zz.Quiesce()
	zz.Assert(len(st.writes) == 0, "not-executed")
	d := r.dial()
	d.login()
	// the task of the old session is gone
	d.send(d.dataOut(tag, p.w(20), true, 0, uint32(imm), data[imm:]))
	d.pdus()
	zz.Assert(len(st.writes) == 0, "not-executed")
	zz.Assert(zz.EqBytes(st.mem, was), "medium")
}

// ZZLargeExpectation expects much more parameter data than there is.
//
//zz:prop C18,C20
//zz:bound READ CAPACITY(10) and INQUIRY with expected lengths of 64 KiB and 16 MiB and 8 more
//zz:need under
//zz:opt alloc=17000000
func ZZLargeExpectation() {
	r, _ := oneTarget(3)
	c := r.dial()
	c.login()
	want := []uint32{1 << 16, 1<<16 + 8, 1 << 24, 1<<24 + 8}[zz.Choose("edtl", 4)]
	cdb := make([]byte, 16)
	full := 8
	cdb[0] = 0x25
	if zz.Choose("cmd", 2) == 1 {
		cdb[0], cdb[4] = 0x12, 36
		full = 36
	}
	c.send(c.scsi(0xc1, 0, want, cdb, nil))
	tag := c.itt
	c.cmdSN++
	readBack(c, c.pdus(), tag, 8192, 262144, uint32(full), want)
	zz.Cover("under")
}
