package zzscsi

import (
	"github.com/gostor/gotgt/pkg/api"
	"github.com/gostor/gotgt/pkg/scsi"
	zz "github.com/gostor/gotgt/pkg/zzsym"
)

// farStore is a medium of any size: each block holds its own offset until it is written.
type farStore struct {
	scsi.BaseBackingStore
	blk  int
	size uint64
	offs []uint64
	data [][]byte
}

func (s *farStore) Open(dev *api.SCSILu, path string) error  { return nil }
func (s *farStore) Close(dev *api.SCSILu) error              { return nil }
func (s *farStore) Init(dev *api.SCSILu, o string) error     { return nil }
func (s *farStore) Exit(dev *api.SCSILu) error               { return nil }
func (s *farStore) Size(dev *api.SCSILu) uint64              { return s.size }
func (s *farStore) DataSync(off, tl int64) error             { return nil }
func (s *farStore) DataAdvise(off, tl int64, a uint32) error { return nil }
func (s *farStore) Unmap(d []api.UnmapBlockDescriptor) error { return nil }

// holds is what there is at an offset.
func (s *farStore) holds(off uint64) []byte {
	b := make([]byte, s.blk)
	putBE(b[:8], off)
	for i, o := range s.offs {
		for k := range b {
			b[k] = byte(zz.IteU64(o == off, uint64(s.data[i][k]), uint64(b[k])))
		}
	}
	return b
}

func (s *farStore) Read(off, tl int64) ([]byte, error) {
	zz.Assert(tl == int64(s.blk), "one-block")
	return s.holds(uint64(off)), nil
}

func (s *farStore) Write(b []byte, off int64) error {
	zz.Assert(len(b) == s.blk, "one-block")
	if len(b) != s.blk {
		zz.Stop()
	}
	s.offs = append(s.offs, uint64(off))
	s.data = append(s.data, append([]byte{}, b...))
	return nil
}

// ZZFarApart: blocks anywhere on a medium of any size, written and read with CDBs of different sizes.
//
//zz:prop C01,C02
//zz:bound a medium of any number of blocks up to 2^48, of 8 or 512 bytes each, every block with contents of its own; two blocks written with symbolic data at any addresses by WRITE (6), (10), (12), (16), WRITE AND VERIFY, ORWRITE or WRITE SAME; then a READ of any CDB size of a block at any address
//zz:need first second neither
//zz:opt conc=20
func ZZFarApart() {
	shift := uint(3)
	if zz.Choose("block size", 2) == 1 {
		shift = 9
	}
	blk := 1 << shift
	t := zzNewTarget(shift, false, 0)
	blocks := zz.U64("blocks")
	zz.Assume(zz.And(blocks > 0, blocks <= 1<<48))
	st := &farStore{blk: blk, size: blocks << shift}
	t.tgt.Devices[0].Storage = st
	t.tgt.Devices[0].Size = st.size
	ref := &farStore{blk: blk}
	address := func(o *ioOp) uint64 {
		lba := zz.U64("lba")
		zz.Assume(lba < blocks)
		switch o.lbaLen {
		case 0:
			zz.Assume(lba < 1<<21)
		case 4:
			zz.Assume(lba < 1<<32)
		}
		return lba
	}
	var lbas []uint64
	for s := 0; s < 2; s++ {
		set := []byte{0x0a, 0x2a, 0xaa, 0x8a}
		if s == 1 {
			set = []byte{0x0a, 0x8a, 0x2e, 0xae, 0x8e, 0x8b, 0x41, 0x93}
		}
		if zz.Thorough() {
			set = []byte{0x0a, 0x2a, 0xaa, 0x8a, 0x2e, 0xae, 0x8e, 0x8b, 0x41, 0x93}
		}
		o := opByCode(set[zz.Choose("op", len(set))])
		lba := address(o)
		data := make([]byte, blk)
		copy(data, zz.Bytes("data", 8))
		want := append([]byte{}, data...)
		if o.code == 0x8b {
			for i, v := range ref.holds(lba << shift) {
				want[i] |= v
			}
		}
		c := t.cmd(0, 0, rwCDB(o, 0, lba, 1), true, blk, data)
		t.run(c)
		zz.Assert(c.Result == stGood, "write-succeeds")
		ref.Write(want, int64(lba<<shift))
		lbas = append(lbas, lba)
	}
	r := opByCode([]byte{0x08, 0x28, 0xa8, 0x88}[zz.Choose("read", 4)])
	lba := address(r)
	c := t.cmd(1, 0, rwCDB(r, 0, lba, 1), false, blk, nil)
	t.run(c)
	zz.Assert(c.Result == stGood && int(c.InSDBBuffer.Resid) == blk, "read-succeeds")
	zz.Assert(zz.EqBytes(c.InSDBBuffer.Buffer, ref.holds(lba<<shift)), "read-returns-what-was-written")
	switch {
	case zz.Branch(lba == lbas[1]):
		zz.Cover("second")
	case zz.Branch(lba == lbas[0]):
		zz.Cover("first")
	default:
		zz.Cover("neither")
	}
}
