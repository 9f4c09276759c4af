package zzscsi

import (
	zz "github.com/gostor/gotgt/pkg/zzsym"
)

// ZZCrash: the power fails at some point of a sequence of commands. What the
// target has said to be on stable storage is there afterwards.
//
//zz:prop C36
//zz:bound a medium of 3 blocks of 8 bytes behind a cache that keeps nothing which is not synced; a WRITE(10) with or without FUA, one of the medium access commands with any flags, LBA 0..2 and 0..2 blocks, and a third one which is a write, a sync of the whole medium, or none; a crash before any call on the backing store or at the end; arbitrary contents and data
//zz:need fua synced lost in-flight
func ZZCrash() {
	const blk, nblk = 8, 3
	st := &zzStore{size: blk * nblk, mem: zz.Bytes("medium", blk*nblk)}
	st.synced = append([]byte{}, st.mem...)
	zzMedium = st
	t := zzNewTarget(3, false, 0)
	var must [blk * nblk]byte // what was last told to be on stable storage
	var later [blk * nblk][]byte
	copy(must[:], st.mem)
	st.crash = zz.Choose("crash", 8)
	exec := func(o *ioOp, flags byte, lba, cnt int) {
		same := o.code == 0x41 || o.code == 0x93
		n := cnt * blk
		if same {
			n = blk
		}
		data := zz.Bytes("data", n)
		if o.verify && !o.write {
			copy(data, st.mem[lba*blk:])
		}
		lo, hi := lba*blk, (lba+cnt)*blk
		if o.zeroAll && cnt == 0 {
			hi = blk * nblk
		}
		c := t.cmd(0, 0, rwCDB(o, flags, uint64(lba), uint64(cnt)), o.write || o.verify || same, n, data)
		was := append([]byte{}, st.mem...)
		t.run(c)
		gone := st.crashed()
		good := !gone && zz.Branch(c.Result == stGood)
		if gone && (o.write || same) {
			zz.Cover("in-flight")
		}
		if o.write || same {
			for i := lo; i < hi && i < len(later); i++ {
				v := data[(i-lo)%n]
				if o.code == 0x8b {
					v |= was[i]
				}
				if o.code == 0x93 {
					v = byte(zz.IteU64(flags&1 != 0, 0, uint64(v)))
				}
				later[i] = append(later[i], v)
			}
		}
		if !good {
			return
		}
		sync := o.code == 0x35 || o.code == 0x91
		if o.write && o.lbaLen != 0 && zz.Branch(flags&0x08 != 0) {
			zz.Cover("fua")
			sync = true
		}
		if sync {
			zz.Cover("synced")
			for i := lo; i < hi && i < len(later); i++ {
				must[i], later[i] = st.mem[i], nil
			}
		}
	}
	write, flush := &ioOps[5], &ioOps[19]
	first := zz.Choose("first", 3)
	fua := byte(0)
	if zz.Choose("fua", 2) == 1 {
		fua = 8
	}
	exec(write, fua, []int{0, 1, 0}[first], []int{1, 2, 3}[first])
	if !st.crashed() {
		o := &ioOps[zz.Choose("op", len(ioOps))]
		lba, cnt := zz.Choose("lba", nblk), zz.Choose("count", 3)
		if lba+cnt > nblk || o.lbaLen == 0 && cnt == 0 {
			zz.Stop()
		}
		flags := zz.U8("flags")
		if o.lbaLen == 0 {
			flags = 0
		}
		exec(o, flags, lba, cnt)
	}
	if !st.crashed() {
		switch zz.Choose("third", 3) {
		case 0:
			exec(write, 0, 1, 1)
		case 1:
			exec(flush, 0, 0, 0)
		}
	}
	lost := false
	for i := range later {
		ok := st.synced[i] == must[i]
		for _, v := range later[i] {
			ok = zz.Or(ok, st.synced[i] == v)
		}
		zz.Assert(ok, "survives")
		lost = lost || len(later[i]) > 0
	}
	if lost {
		zz.Cover("lost")
	}
}
