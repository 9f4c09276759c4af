package zzscsi

import (
	zz "github.com/gostor/gotgt/pkg/zzsym"
)

// ioOp describes a medium access command independently of the implementation
// (SBC-3: where the LBA and the length sit in the CDB).
type ioOp struct {
	name    string
	code    byte
	lbaAt   int
	lbaLen  int
	cntAt   int
	cntLen  int
	write   bool // data-out
	read    bool
	verify  bool
	zeroAll bool // a count of 0 means "to the end of the medium"
}

var ioOps = []ioOp{
	{name: "READ(6)", code: 0x08, read: true},
	{name: "READ(10)", code: 0x28, lbaAt: 2, lbaLen: 4, cntAt: 7, cntLen: 2, read: true},
	{name: "READ(12)", code: 0xa8, lbaAt: 2, lbaLen: 4, cntAt: 6, cntLen: 4, read: true},
	{name: "READ(16)", code: 0x88, lbaAt: 2, lbaLen: 8, cntAt: 10, cntLen: 4, read: true},
	{name: "WRITE(6)", code: 0x0a, write: true},
	{name: "WRITE(10)", code: 0x2a, lbaAt: 2, lbaLen: 4, cntAt: 7, cntLen: 2, write: true},
	{name: "WRITE(12)", code: 0xaa, lbaAt: 2, lbaLen: 4, cntAt: 6, cntLen: 4, write: true},
	{name: "WRITE(16)", code: 0x8a, lbaAt: 2, lbaLen: 8, cntAt: 10, cntLen: 4, write: true},
	{name: "WRITE AND VERIFY(10)", code: 0x2e, lbaAt: 2, lbaLen: 4, cntAt: 7, cntLen: 2, write: true, verify: true},
	{name: "WRITE AND VERIFY(12)", code: 0xae, lbaAt: 2, lbaLen: 4, cntAt: 6, cntLen: 4, write: true, verify: true},
	{name: "WRITE AND VERIFY(16)", code: 0x8e, lbaAt: 2, lbaLen: 8, cntAt: 10, cntLen: 4, write: true, verify: true},
	{name: "VERIFY(10)", code: 0x2f, lbaAt: 2, lbaLen: 4, cntAt: 7, cntLen: 2, verify: true},
	{name: "VERIFY(12)", code: 0xaf, lbaAt: 2, lbaLen: 4, cntAt: 6, cntLen: 4, verify: true},
	{name: "VERIFY(16)", code: 0x8f, lbaAt: 2, lbaLen: 8, cntAt: 10, cntLen: 4, verify: true},
	{name: "PRE-FETCH(10)", code: 0x34, lbaAt: 2, lbaLen: 4, cntAt: 7, cntLen: 2, zeroAll: true},
	{name: "PRE-FETCH(16)", code: 0x90, lbaAt: 2, lbaLen: 8, cntAt: 10, cntLen: 4, zeroAll: true},
	{name: "SYNCHRONIZE CACHE(10)", code: 0x35, lbaAt: 2, lbaLen: 4, cntAt: 7, cntLen: 2, zeroAll: true},
	{name: "SYNCHRONIZE CACHE(16)", code: 0x91, lbaAt: 2, lbaLen: 8, cntAt: 10, cntLen: 4, zeroAll: true},
	{name: "WRITE SAME(10)", code: 0x41, lbaAt: 2, lbaLen: 4, cntAt: 7, cntLen: 2, zeroAll: true},
	{name: "WRITE SAME(16)", code: 0x93, lbaAt: 2, lbaLen: 8, cntAt: 10, cntLen: 4, zeroAll: true},
	{name: "ORWRITE(16)", code: 0x8b, lbaAt: 2, lbaLen: 8, cntAt: 10, cntLen: 4, write: true},
}

// decode returns the addressed first block and number of blocks.
func (o *ioOp) decode(cdb []byte) (lba, cnt uint64) {
	if o.lbaLen == 0 { // 6-byte form
		lba = uint64(cdb[1]&0x1f)<<16 | uint64(cdb[2])<<8 | uint64(cdb[3])
		cnt = zz.IteU64(cdb[4] == 0, 256, uint64(cdb[4]))
		return
	}
	return be(cdb[o.lbaAt : o.lbaAt+o.lbaLen]), be(cdb[o.cntAt : o.cntAt+o.cntLen])
}

// pattern is n bytes, arbitrary at the edges of each block and fixed inside.
func pattern(name string, n, blk int, salt byte) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i)*7 + salt
	}
	for i := 0; i < n; i += blk {
		b[i] = zz.U8(name)
		if j := i + blk - 1; j < n {
			b[j] = zz.U8(name)
		}
	}
	return b
}

// ZZIOInRange: a medium access command whose blocks are on the medium touches
// nothing but these blocks, moves exactly them, and is refused only for what
// is wrong with the rest of the command.
//
//zz:prop C01,C02,C03
//zz:bound every medium access opcode; every other CDB byte, LBA and device size below 2^63 bytes symbolic; 0..3 blocks (256 for a 6-byte count of 0) of 8 and 512 (thorough: 4096) bytes; buffers of exactly the transfer length, one byte more or less, one block more or less; data bytes at block edges symbolic
//zz:need stored read-data written zero-count verify-match
//zz:opt conc=20
func ZZIOInRange() {
	o := ioOps[zz.Choose("op", len(ioOps))]
	shifts := []uint{3, 9}
	if zz.Thorough() {
		shifts = []uint{3, 9, 12}
	}
	shift := shifts[zz.Choose("shift", len(shifts))]
	blk := 1 << shift
	k := zz.Choose("count", 4)
	cdb := zz.Bytes("cdb", 16)
	cdb[0] = o.code
	var lba uint64
	cnt := uint64(k)
	if o.lbaLen == 0 {
		cdb[4] = byte(k)
		lba = uint64(cdb[1]&0x1f)<<16 | uint64(cdb[2])<<8 | uint64(cdb[3])
		if k == 0 {
			if shift != 3 {
				zz.Stop()
			}
			cnt = 256
		}
	} else {
		putBE(cdb[o.cntAt:o.cntAt+o.cntLen], cnt)
		lba = be(cdb[o.lbaAt : o.lbaAt+o.lbaLen])
	}
	size := zz.U64("size")
	zz.Assume(size < 1<<63)
	blocks := size >> shift
	same := o.code == 0x41 || o.code == 0x93
	if o.zeroAll && k == 0 {
		zz.Cover("zero-count")
		left := 1 + zz.Choose("left", 3)
		zz.Assume(zz.And(lba < blocks, blocks-lba == uint64(left)))
		cnt = uint64(left)
	} else {
		zz.Assume(zz.And(lba <= blocks, cnt <= blocks-lba))
		if k == 0 {
			zz.Assume(lba < blocks)
		}
	}
	tl := int(cnt) << shift
	lo := int64(lba << shift)
	st := &zzStore{size: size, base: lo, win: pattern("old", tl+blk, blk, 3)}
	before := append([]byte{}, st.win...)
	zzMedium = st
	t := zzNewTarget(shift, false, 0)

	n := 0
	exact := true
	if o.read || o.write || (o.verify && !o.write) || same {
		full := tl
		if same {
			full = blk
		}
		d := 0
		if shift == 3 && cnt < 4 {
			d = []int{0, 1, -1, blk, -blk}[zz.Choose("delta", 5)]
		}
		if full+d < 0 {
			zz.Stop()
		}
		n, exact = full+d, d == 0
		_ = exact
	}
	toDev := o.write || o.verify || same
	data := pattern("data", n, blk, 90)
	match := o.verify && !o.write && zz.Choose("match", 2) == 1
	if match {
		copy(data, before)
	}
	want := append([]byte{}, data...)
	c := t.cmd(0, 0, cdb, toDev, n, data)
	t.run(c)

	// C01: nothing outside the addressed blocks
	end := lo + int64(tl)
	for i := range st.ops {
		p := &st.ops[i]
		zz.Cover("stored")
		limit := end
		if p.kind == opSync && o.zeroAll && k == 0 {
			limit = int64(size)
		}
		zz.Assert(zz.And(p.n >= 0, p.off >= lo, p.off <= limit, p.n <= limit-p.off), "access-within-addressed-range")
		if p.kind == opWrite {
			zz.Assert(o.write || same, "only-writes-write")
		}
	}
	zz.Assert(zz.EqBytes(st.win[tl:], before[tl:]), "blocks-after-the-range-unchanged")

	// what is wrong with the command itself
	bad := false
	f := cdb[1]
	wrprot := f&0xe0 != 0
	if o.lbaLen == 0 || o.code == 0x34 || o.code == 0x90 || o.code == 0x35 || o.code == 0x91 {
		wrprot = false
	}
	if same {
		bad = zz.Or(wrprot, f&0x10 != 0, f&0x06 != 0, f&0x08 != 0)
		if n < blk {
			ndob := o.code == 0x93
			bad = zz.Or(bad, !zz.And(ndob, f&0x01 != 0))
		}
	} else {
		bad = wrprot
	}
	if o.read && n < tl {
		bad = true
	}
	if zz.Branch(bad) {
		wantSense(c, keyIll, 0x2400, "refused")
		zz.Assert(zz.EqBytes(st.win, before), "refused-command-changes-nothing")
		return
	}
	switch {
	case o.read:
		zz.Assert(c.Result == stGood, "read-good")
		zz.Assert(int(c.InSDBBuffer.Resid) == tl, "read-length")
		zz.Assert(zz.EqBytes(c.InSDBBuffer.Buffer[:tl], before[:tl]), "read-data")
		zz.Assert(zz.EqBytes(st.win, before), "read-changes-nothing")
		if tl > 0 {
			zz.Cover("read-data")
		}
	case same:
		zz.Assert(c.Result == stGood, "write-same-good")
		zero := f&0x01 != 0
		for i := 0; i < tl; i++ {
			var w byte
			if n >= blk {
				w = want[i%blk]
			}
			if o.code == 0x93 {
				w = byte(zz.IteU64(zero, 0, uint64(w)))
			}
			zz.Assert(st.win[i] == w, "write-same-data")
		}
	case o.write:
		if n < tl { // the initiator sent too little: nothing else is touched
			return
		}
		zz.Assert(c.Result == stGood, "write-good")
		for i := 0; i < tl; i++ {
			w := want[i]
			if o.code == 0x8b {
				w |= before[i]
			}
			zz.Assert(st.win[i] == w, "write-data")
		}
		if tl > 0 {
			zz.Cover("written")
		}
	case o.verify:
		zz.Assert(zz.EqBytes(st.win, before), "verify-changes-nothing")
		if match && n >= tl {
			zz.Cover("verify-match")
			zz.Assert(c.Result == stGood, "verify-good")
		}
	case o.code == 0x35 || o.code == 0x91:
		zz.Assert(c.Result == stGood, "sync-good")
		covered := cnt == 0
		for i := range st.ops {
			p := &st.ops[i]
			if p.kind == opSync {
				covered = zz.Or(covered, zz.And(p.off <= lo, p.off+p.n >= end))
			}
		}
		zz.Assert(covered, "sync-covers-range")
	default:
		zz.Assert(c.Result == stGood, "prefetch-good")
	}
}

// ZZIOOutRange: a medium access command that addresses a block beyond the end
// of the medium is refused and the backing store is not touched at all.
//
//zz:prop C01,C03
//zz:bound every medium access opcode; all CDB bytes symbolic (LBA, count and every flag); device size below 2^63 bytes symbolic; block sizes 8, 512, 4096; buffers of 0, 1 or 2 blocks
//zz:need outrange wrap
func ZZIOOutRange() {
	o := ioOps[zz.Choose("op", len(ioOps))]
	shift := []uint{3, 9, 12}[zz.Choose("shift", 3)]
	size := zz.U64("size")
	zz.Assume(size < 1<<63)
	zzMedium = &zzStore{size: size}
	t := zzNewTarget(shift, zz.Choose("thin", 2) == 1, 0)
	cdb := zz.Bytes("cdb", 16)
	cdb[0] = o.code
	lba, cnt := o.decode(cdb)
	blocks := size >> shift
	zz.Assume(zz.Or(lba > blocks, cnt > blocks-lba))
	nb := zz.Choose("blocks", 3)
	n := nb << shift
	write := o.write || o.code == 0x2f || o.code == 0xaf || o.code == 0x8f || o.code == 0x41 || o.code == 0x93
	c := t.cmd(0, 0, cdb, write, n, make([]byte, n))
	t.run(c)
	zz.Cover("outrange")
	if o.lbaLen == 8 && zz.Branch(lba+cnt < lba) {
		zz.Cover("wrap")
	}
	zz.Assert(len(zzMedium.ops) == 0, "store-untouched-out-of-range")
	zz.Assert(c.Result == stCheck, "out-of-range-refused")
	k, a, ok := sense(c)
	zz.Assert(ok, "out-of-range-sense")
	zz.Assert(k == keyIll, "out-of-range-key")
	zz.Assert(zz.Or(a == 0x2100, a == 0x2400), "out-of-range-asc")
}
