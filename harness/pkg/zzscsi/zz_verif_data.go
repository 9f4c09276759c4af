package zzscsi

import (
	"github.com/gostor/gotgt/pkg/api"
	zz "github.com/gostor/gotgt/pkg/zzsym"
)

// rwCDB builds a medium access CDB.
func rwCDB(o *ioOp, flags byte, lba, cnt uint64) []byte {
	cdb := make([]byte, 16)
	cdb[0] = o.code
	if o.lbaLen == 0 {
		cdb[1], cdb[2], cdb[3], cdb[4] = byte(lba>>16), byte(lba>>8), byte(lba), byte(cnt)
		return cdb
	}
	cdb[1] = flags
	putBE(cdb[o.lbaAt:o.lbaAt+o.lbaLen], lba)
	putBE(cdb[o.cntAt:o.cntAt+o.cntLen], cnt)
	return cdb
}

func opByCode(code byte) *ioOp {
	for i := range ioOps {
		if ioOps[i].code == code {
			return &ioOps[i]
		}
	}
	return nil
}

// ZZHistory: reads return what was written last.
//
//zz:prop C02
//zz:bound a medium of 3 (thorough 4) blocks of 8 bytes with symbolic contents; histories of 2 (thorough 3) writing commands of any kind (12 opcodes in the last, 6 in earlier ones), any LBA from 0 to one beyond the medium, 0..2 blocks, symbolic data; then every block is read with a READ of any CDB size
//zz:need wrote refused readback
//zz:opt conc=20
func ZZHistory() {
	const blk = 8
	nblk := 3
	steps := 2
	if zz.Thorough() {
		nblk, steps = 4, 3
	}
	medium := zz.Bytes("medium", nblk*blk)
	ref := append([]byte{}, medium...)
	zzMedium = &zzStore{size: uint64(nblk * blk), mem: medium}
	t := zzNewTarget(3, false, 0)
	few := []byte{0x0a, 0x2a, 0x8a, 0x8b, 0x41, 0x2e}
	all := []byte{0x0a, 0x2a, 0xaa, 0x8a, 0x2e, 0xae, 0x8e, 0x8b, 0x41, 0x93, 0x28, 0x2f}
	for s := 0; s < steps; s++ {
		set := few
		if s == steps-1 {
			set = all
		}
		o := opByCode(set[zz.Choose("op", len(set))])
		cnt := zz.Choose("count", 3)
		if o.lbaLen == 0 && cnt == 0 {
			zz.Stop() // 256 blocks: never on this medium
		}
		lba := zz.Choose("lba", nblk+1)
		same := o.code == 0x41 || o.code == 0x93
		n := cnt * blk
		if same {
			n = blk
		}
		data := zz.Bytes("data", n)
		keep := append([]byte{}, data...)
		c := t.cmd(0, 0, rwCDB(o, 0, uint64(lba), uint64(cnt)), !o.read, n, data)
		if o.code == 0x2f {
			c = t.cmd(0, 0, rwCDB(o, 2, uint64(lba), uint64(cnt)), true, n, data)
		}
		t.run(c)
		fits := lba+cnt <= nblk && !(cnt == 0 && lba >= nblk)
		if !fits {
			zz.Cover("refused")
			zz.Assert(c.Result != stGood, "out-of-range-is-refused")
			continue
		}
		if o.read || (o.verify && !o.write) {
			continue
		}
		zz.Assert(c.Result == stGood, "write-succeeds")
		zz.Cover("wrote")
		end := lba + cnt
		if same && cnt == 0 {
			end = nblk
		}
		for i := lba * blk; i < end*blk; i++ {
			v := keep[(i-lba*blk)%len(keep)]
			if o.code == 0x8b {
				v |= ref[i]
			}
			ref[i] = v
		}
	}
	ri := zz.Choose("read", 4)
	r := opByCode([]byte{0x28, 0x08, 0xa8, 0x88}[ri])
	lba := ri % nblk
	cnt := nblk - lba
	c := t.cmd(1, 0, rwCDB(r, 0, uint64(lba), uint64(cnt)), false, cnt*blk, nil)
	t.run(c)
	zz.Assert(c.Result == stGood && int(c.InSDBBuffer.Resid) == cnt*blk, "read-succeeds")
	zz.Cover("readback")
	zz.Assert(zz.EqBytes(c.InSDBBuffer.Buffer, ref[lba*blk:]), "read-returns-what-was-written")
	zz.Assert(zz.EqBytes(medium, ref), "medium-holds-what-was-written")
}

// ZZFaults: a fault of the backing store is reported.
//
//zz:prop C05,C15,C36
//zz:bound every medium access opcode and UNMAP, all flag bits, LBA 0..2 and 0..2 blocks on a medium of 4 blocks of 8 bytes; each call on the backing store fails or not
//zz:need fault nofault fua
func ZZFaults() {
	k := zz.Choose("op", len(ioOps)+1)
	st := &zzStore{size: 32, mem: zz.Bytes("medium", 32), faulty: true}
	zzMedium = st
	t := zzNewTarget(3, true, 0)
	var c *api.SCSICommand
	var o *ioOp
	lba, cnt := 0, 0
	flags := byte(0)
	if k == len(ioOps) {
		p := make([]byte, 24)
		p[1], p[3], p[19] = 22, 16, 1
		cdb := make([]byte, 16)
		cdb[0], cdb[8] = 0x42, 24
		c = t.cmd(0, 0, cdb, true, 24, p)
	} else {
		o = &ioOps[k]
		lba, cnt = zz.Choose("lba", 3), zz.Choose("count", 3)
		if o.lbaLen == 0 && cnt == 0 {
			zz.Stop()
		}
		flags = zz.U8("flags")
		if o.lbaLen == 0 {
			flags = 0
		}
		same := o.code == 0x41 || o.code == 0x93
		n := cnt << 3
		if same {
			n = 8
		}
		data := zz.Bytes("data", n)
		if o.verify && !o.write {
			copy(data, st.mem[lba*8:])
		}
		c = t.cmd(0, 0, rwCDB(o, flags, uint64(lba), uint64(cnt)), o.write || o.verify || same, n, data)
	}
	t.run(c)
	failed := false
	for i := range st.ops {
		if st.ops[i].failed {
			failed = true
		}
	}
	zz.Observe("calls", len(st.ops))
	if failed {
		zz.Cover("fault")
		zz.Assert(c.Result == stCheck, "fault-is-not-good")
		key, _, ok := sense(c)
		zz.Assert(ok, "fault-sense")
		zz.Assert(zz.Or(key == keyMedium, key == keyHW), "fault-sense-key")
		if o != nil && o.read {
			zz.Assert(c.InSDBBuffer.Resid == 0 || true, "no-data")
		}
		return
	}
	zz.Cover("nofault")
	if zz.Branch(c.Result == stCheck) {
		key, _, _ := sense(c)
		zz.Assert(zz.Or(key == keyIll, key == keyMis), "no-media-error-without-fault")
		return
	}
	if o == nil {
		zz.Assert(len(st.ops) == 1 && st.ops[0].kind == opUnmap, "unmap-is-passed-on")
		return
	}
	lo, hi := int64(lba*8), int64((lba+cnt)*8)
	if o.zeroAll && cnt == 0 {
		hi = 32
	}
	sync := o.code == 0x35 || o.code == 0x91
	fua := o.write && o.lbaLen != 0 && zz.Branch(flags&0x08 != 0)
	if sync || fua {
		zz.Cover("fua")
		// the last sync comes after the last write and covers the range
		covered := lo == hi
		for i := range st.ops {
			p := &st.ops[i]
			if p.kind == opWrite && p.n > 0 {
				covered = false
			}
			if p.kind == opSync && p.off <= lo && p.off+p.n >= hi {
				covered = true
			}
		}
		zz.Assert(covered, "durable-before-good")
	}
}

// ZZVerify: the comparison covers every byte.
//
//zz:prop C03,C05,C16
//zz:bound VERIFY (10/12/16) and WRITE AND VERIFY (10/12/16), 0..3 blocks of 8 bytes (2 of 512 in the thorough tier), all medium contents and data, data one byte or block short or long; a medium that loses or corrupts any one byte of a write
//zz:need equal differ corrupted
func ZZVerify() {
	shift := uint(3)
	if zz.Thorough() {
		shift = []uint{3, 9}[zz.Choose("shift", 2)]
	}
	blk := 1 << shift
	size := 4 << shift
	med := pattern("medium", size, blk, 0)
	if shift == 3 {
		med = zz.Bytes("medium", size)
	}
	st := &zzStore{size: uint64(size), mem: med}
	st.corrupt = -1
	zzMedium = st
	t := zzNewTarget(shift, false, 0)
	o := opByCode([]byte{0x2f, 0xaf, 0x8f, 0x2e, 0xae, 0x8e}[zz.Choose("op", 6)])
	cnt := zz.Choose("count", 4)
	if shift == 9 && cnt > 2 {
		zz.Stop()
	}
	lba := zz.Choose("lba", 2)
	before := append([]byte{}, med...)
	n := cnt << shift
	d := []int{0, -1, 1, -blk, blk}[zz.Choose("delta", 5)]
	if n+d < 0 {
		zz.Stop()
	}
	var data []byte
	if shift == 3 {
		data = zz.Bytes("data", n+d)
	} else {
		data = pattern("data", n+d, blk, 0)
	}
	sent := append([]byte{}, data...)
	f := zz.U8("flags") & 0x1a
	if !o.write {
		zz.Assume(f&0x02 != 0)
	} else if n > 0 {
		st.corrupt = zz.Choose("corrupt", n+1) - 1
		st.corrupt0 = lba << shift
		st.damage = st.corrupt >= 0
	}
	c := t.cmd(0, 0, rwCDB(o, f, uint64(lba), uint64(cnt)), true, n+d, data)
	t.run(c)
	if o.write {
		if d < 0 {
			return
		}
		back := st.mem[lba<<shift : lba<<shift+n]
		same := zz.EqBytes(back, sent[:n])
		zz.Assert((c.Result == stGood) == same, "write-verify-good-iff-written")
		if st.corrupt >= 0 {
			zz.Cover("corrupted")
			wantSense(c, keyMis, 0x1d00, "write-verify-miscompare")
		}
		return
	}
	zz.Assert(zz.EqBytes(st.mem, before), "verify-changes-nothing")
	if n+d < n {
		zz.Assert(c.Result != stGood, "short-data-does-not-verify")
		return
	}
	same := zz.EqBytes(before[lba<<shift:lba<<shift+n], sent[:n])
	if zz.Branch(same) {
		zz.Cover("equal")
		zz.Assert(c.Result == stGood, "equal-data-verifies")
	} else {
		zz.Cover("differ")
		wantSense(c, keyMis, 0x1d00, "miscompare")
	}
}

// ZZUnmap: exactly the extents listed are deallocated.
//
//zz:prop C01,C03,C04,C13,C14
//zz:bound parameter lists of 0..2 (thorough 3) descriptors plus 0, 1, 8 or 15 stray bytes, every byte symbolic except that the header lengths are small (0..64 or any above the list); every device size below 2^63; every parameter list length; block sizes 512 and 4096
//zz:need unmapped range anchor empty cut
func ZZUnmap() {
	shift := []uint{9, 12}[zz.Choose("shift", 2)]
	size := zz.U64("size")
	zz.Assume(size < 1<<63)
	st := &zzStore{size: size}
	zzMedium = st
	t := zzNewTarget(shift, true, 0)
	max := 3
	if zz.Thorough() {
		max = 4
	}
	nd := zz.Choose("descriptors", max)
	n := 8 + 16*nd + []int{0, 1, 8, 15}[zz.Choose("stray", 4)]
	if nd == 0 {
		n -= 8 * zz.Choose("noheader", 2)
	}
	p := zz.Bytes("list", n)
	cdb := zz.Bytes("cdb", 16)
	cdb[0] = 0x42
	plen := int(cdb[7])<<8 | int(cdb[8])
	zz.Assume(zz.Or(plen <= 40, plen >= n))
	if n >= 8 {
		dl := int(p[2])<<8 | int(p[3])
		zz.Assume(zz.Or(dl <= 40, dl >= n))
	}
	list := append([]byte{}, p...)
	c := t.cmd(0, 0, cdb, true, n, p)
	t.run(c)
	if zz.Branch(cdb[1]&1 != 0) {
		zz.Cover("anchor")
		wantSense(c, keyIll, 0x2400, "anchor")
		zz.Assert(len(st.ops) == 0, "refused-unmap-does-nothing")
		return
	}
	// how far the list goes
	limit := n
	if zz.Branch(plen < n) {
		limit = int(zz.Concrete(uint64(plen)))
		zz.Cover("cut")
	}
	if limit >= 8 {
		dl := 8 + (int(list[2])<<8 | int(list[3]))
		if zz.Branch(dl < limit) {
			limit = int(zz.Concrete(uint64(dl)))
		}
	}
	var off, cnt []uint64
	ok := true
	for i := 8; i+16 <= limit; i += 16 {
		l, k := be(list[i:i+8]), be(list[i+8:i+12])
		off, cnt = append(off, l), append(cnt, k)
		blocks := size >> shift
		ok = zz.And(ok, l <= blocks, k <= blocks-l)
	}
	if !zz.Branch(ok) {
		zz.Cover("range")
		wantSense(c, keyIll, 0x2100, "extent-out-of-range")
		zz.Assert(len(st.ops) == 0, "refused-unmap-does-nothing")
		return
	}
	zz.Assert(c.Result == stGood, "unmap-good")
	var gotOff, gotLen []uint64
	for i := range st.ops {
		zz.Assert(st.ops[i].kind == opUnmap, "unmap-only-unmaps")
		for j := range st.ops[i].unmapOff {
			// an empty extent is none
			if zz.Branch(st.ops[i].unmapLen[j] != 0) {
				gotOff = append(gotOff, st.ops[i].unmapOff[j])
				gotLen = append(gotLen, st.ops[i].unmapLen[j])
			}
		}
	}
	k := 0
	for i := range off {
		if !zz.Branch(cnt[i] != 0) {
			continue
		}
		zz.Assert(k < len(gotOff), "every-extent-unmapped")
		zz.Assert(zz.And(gotOff[k] == off[i]<<shift, gotLen[k] == cnt[i]<<shift), "extent")
		k++
		zz.Cover("unmapped")
	}
	zz.Assert(k == len(gotOff), "no-other-extent-unmapped")
	if len(off) == 0 {
		zz.Cover("empty")
	}
}

// ZZReadOnly: a write-protected unit is not modified by any command.
//
//zz:prop C13
//zz:bound every supported opcode with every other CDB byte symbolic; data-out of 0, 8, 24 bytes, data-in of 0, 8, 24 bytes; medium of 4 blocks of 8 bytes; read-only or software write protection
//zz:need protected reads
func ZZReadOnly() {
	op := supportedOps[zz.Choose("op", len(supportedOps))]
	st := &zzStore{size: 32, mem: zz.Bytes("medium", 32)}
	before := append([]byte{}, st.mem...)
	zzMedium = st
	t := zzNewTarget(3, zz.Choose("thin", 2) == 1, 0)
	if zz.Choose("how", 2) == 0 {
		t.tgt.Devices[0].Attrs.Readonly = true
	} else {
		t.tgt.Devices[0].Attrs.SWP = true
	}
	cdb := zz.Bytes("cdb", 16)
	cdb[0] = op
	someAlloc(cdb)
	n := []int{0, 8, 24}[zz.Choose("n", 3)]
	write := zz.Choose("write", 2) == 1
	c := t.cmd(0, 0, cdb, write, n, zz.Bytes("out", n))
	t.run(c)
	for i := range st.ops {
		zz.Assert(st.ops[i].kind != opWrite && st.ops[i].kind != opUnmap, "write-protected-unit-not-written")
	}
	zz.Assert(zz.EqBytes(st.mem, before), "write-protected-medium-unchanged")
	switch op {
	case 0x0a, 0x2a, 0xaa, 0x8a, 0x2e, 0xae, 0x8e, 0x8b, 0x41, 0x93, 0x42, 0x04:
		zz.Assert(c.Result == stCheck, "write-is-refused")
		k, a, _ := sense(c)
		zz.Assert(zz.Or(zz.And(k == keyProt, a == 0x2700), zz.And(k == keyIll, zz.Or(a == 0x2400, a == 0x2100))), "write-protected-sense")
		if zz.Branch(zz.And(cdb[1] == 0, cdb[2] == 0, cdb[3] == 0, cdb[4] == 0, cdb[5] == 0)) {
			zz.Cover("protected")
			if op != 0x8a && op != 0x8e && op != 0x8b && op != 0x93 {
				zz.Assert(k == keyProt, "valid-write-is-write-protected")
			}
		}
	case 0x08, 0x28, 0xa8, 0x88:
		if n == 8 && !write {
			o := opByCode(op)
			lba, cnt := o.decode(cdb)
			valid := zz.And(lba < 4, cnt == 1)
			if o.lbaLen != 0 {
				valid = zz.And(valid, cdb[1]&0xe0 == 0)
			}
			if zz.Branch(valid) {
				zz.Cover("reads")
				zz.Assert(c.Result == stGood, "reads-still-work")
				at := int(zz.Concrete(lba)) * 8
				zz.Assert(zz.EqBytes(c.InSDBBuffer.Buffer, before[at:at+8]), "reads-the-medium")
			}
		}
	}
}

// ZZWriteProtectBit: MODE SENSE tells about write protection.
//
//zz:prop C13,C08
//zz:bound read-only, software write protection, both, none; both CDB sizes; every page code
//zz:need set clear
func ZZWriteProtectBit() {
	zzMedium = &zzStore{size: 1 << 20}
	t := zzNewTarget(9, false, 0)
	a := zz.Choose("ro", 2) == 1
	b := zz.Choose("swp", 2) == 1
	t.tgt.Devices[0].Attrs.Readonly, t.tgt.Devices[0].Attrs.SWP = a, b
	code := []byte{0x1a, 0x5a}[zz.Choose("code", 2)]
	page := zz.U8("page")
	zz.Assume(page <= 0x3f)
	c, d := modeSense(t, code, 0, page, 0)
	if c.Result != stGood {
		return
	}
	i := 2
	if code == 0x5a {
		i = 3
	}
	zz.Assert((d[i]&0x80 != 0) == (a || b), "write-protect-bit")
	if a || b {
		zz.Cover("set")
	} else {
		zz.Cover("clear")
	}
}
