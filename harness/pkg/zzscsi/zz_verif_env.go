// Package zzscsi holds the symbolic harnesses for the SCSI target service.
// They enter through the exported service API, the way the iSCSI port does.
package zzscsi

import (
	"errors"
	"io"

	"github.com/gostor/gotgt/pkg/api"
	"github.com/gostor/gotgt/pkg/config"
	"github.com/gostor/gotgt/pkg/scsi"
	zz "github.com/gostor/gotgt/pkg/zzsym"
	uuid "github.com/satori/go.uuid"
)

const (
	opRead = iota
	opWrite
	opSync
	opAdvise
	opUnmap
)

var errInjected = errors.New("injected fault")

// storeOp is one call the target made on its backing store.
type storeOp struct {
	kind     int
	off, n   int64
	data     []byte
	failed   bool
	unmapOff []uint64
	unmapLen []uint64
}

// zzStore is the recording backing store.
type zzStore struct {
	scsi.BaseBackingStore
	size   uint64
	mem    []byte // when set, the medium
	win    []byte // when set, what the medium holds from base on
	base   int64
	faulty bool // when set, every call may fail
	// a write to mem loses the byte at corrupt0+corrupt, when that is >= 0
	corrupt, corrupt0 int
	damage            bool
	zeroes            bool   // unmapping zeroes mem
	short             bool   // when set, reads may come back short
	synced            []byte // when set, what survives a crash
	crash             int    // with synced: the number of the call before which everything stops
	dirty             bool
	ops               []storeOp
}

var zzMedium *zzStore

type zzNull struct{ scsi.BaseBackingStore }

func (s *zzNull) Open(dev *api.SCSILu, path string) error  { return nil }
func (s *zzNull) Close(dev *api.SCSILu) error              { return nil }
func (s *zzNull) Init(dev *api.SCSILu, o string) error     { return nil }
func (s *zzNull) Exit(dev *api.SCSILu) error               { return nil }
func (s *zzNull) Size(dev *api.SCSILu) uint64              { return 0 }
func (s *zzNull) Read(off, tl int64) ([]byte, error)       { return nil, nil }
func (s *zzNull) Write(b []byte, off int64) error          { return nil }
func (s *zzNull) DataSync(off, tl int64) error             { return nil }
func (s *zzNull) DataAdvise(off, tl int64, a uint32) error { return nil }
func (s *zzNull) Unmap(d []api.UnmapBlockDescriptor) error { return nil }

func (s *zzStore) Open(dev *api.SCSILu, path string) error { return nil }
func (s *zzStore) Close(dev *api.SCSILu) error             { return nil }
func (s *zzStore) Init(dev *api.SCSILu, o string) error    { return nil }
func (s *zzStore) Exit(dev *api.SCSILu) error              { return nil }
func (s *zzStore) Size(dev *api.SCSILu) uint64             { return s.size }

func (s *zzStore) fails() bool {
	if s.crashed() {
		return true
	}
	return s.faulty && zz.Choose("fault", 2) == 1
}

func (s *zzStore) crashed() bool { return s.synced != nil && len(s.ops) >= s.crash }

func (s *zzStore) Read(off, tl int64) ([]byte, error) {
	bad := s.fails()
	s.ops = append(s.ops, storeOp{kind: opRead, off: off, n: tl, failed: bad})
	if bad {
		if s.faulty && zz.Choose("end-of-file", 2) == 1 {
			// as of a file which has become shorter
			return nil, io.EOF
		}
		return nil, errInjected
	}
	if s.mem != nil {
		if !zz.Branch(zz.And(off >= 0, tl >= 0, off <= int64(len(s.mem)), tl <= int64(len(s.mem)), off+tl <= int64(len(s.mem)))) {
			return nil, errInjected
		}
		o, n := int(zz.Concrete(uint64(off))), int(zz.Concrete(uint64(tl)))
		out := make([]byte, n)
		copy(out, s.mem[o:o+n])
		return out, nil
	}
	if s.win != nil && zz.Branch(s.inWin(off, tl)) {
		o, n := int(zz.Concrete(uint64(off-s.base))), int(zz.Concrete(uint64(tl)))
		return append([]byte{}, s.win[o:o+n]...), nil
	}
	if !zz.Branch(zz.And(tl >= 0, tl <= 1<<16)) {
		return nil, errInjected
	}
	n := int(zz.Concrete(uint64(tl)))
	return make([]byte, n), nil
}

func (s *zzStore) inWin(off, n int64) bool {
	return zz.And(off >= s.base, n >= 0, n <= int64(len(s.win)), off-s.base <= int64(len(s.win))-n)
}

func (s *zzStore) Write(b []byte, off int64) error {
	bad := s.fails()
	d := append([]byte(nil), b...)
	s.ops = append(s.ops, storeOp{kind: opWrite, off: off, n: int64(len(b)), data: d, failed: bad})
	if bad {
		return errInjected
	}
	s.dirty = true
	if s.mem != nil {
		if !zz.Branch(zz.And(off >= 0, off <= int64(len(s.mem)), off+int64(len(b)) <= int64(len(s.mem)))) {
			return errInjected
		}
		o := int(zz.Concrete(uint64(off)))
		for i := range b {
			if s.corrupt0+s.corrupt == o+i && s.damage {
				s.mem[o+i] = ^b[i]
			} else {
				s.mem[o+i] = b[i]
			}
		}
	}
	if s.win != nil && zz.Branch(s.inWin(off, int64(len(b)))) {
		copy(s.win[int(zz.Concrete(uint64(off-s.base))):], b)
	}
	return nil
}

func (s *zzStore) DataSync(off, tl int64) error {
	bad := s.fails()
	s.ops = append(s.ops, storeOp{kind: opSync, off: off, n: tl, failed: bad})
	if bad {
		return errInjected
	}
	s.dirty = false
	if s.synced != nil && zz.Branch(zz.And(off >= 0, tl >= 0, off <= int64(len(s.mem)), off+tl <= int64(len(s.mem)))) {
		o, n := int(zz.Concrete(uint64(off))), int(zz.Concrete(uint64(tl)))
		copy(s.synced[o:o+n], s.mem[o:])
	}
	return nil
}

func (s *zzStore) DataAdvise(off, tl int64, a uint32) error {
	s.ops = append(s.ops, storeOp{kind: opAdvise, off: off, n: tl})
	return nil
}

func (s *zzStore) Unmap(d []api.UnmapBlockDescriptor) error {
	bad := s.fails()
	o := storeOp{kind: opUnmap, failed: bad}
	for i := range d {
		o.unmapOff = append(o.unmapOff, d[i].Offset)
		o.unmapLen = append(o.unmapLen, uint64(d[i].TL))
	}
	s.ops = append(s.ops, o)
	if bad {
		return errInjected
	}
	if s.zeroes {
		for k := range o.unmapOff {
			copy(s.mem[o.unmapOff[k]:], make([]byte, o.unmapLen[k]))
		}
	}
	return nil
}

// zzTarget is one target with LUNs served by recording stores.
type zzTarget struct {
	svc    *scsi.SCSITargetService
	tgt    *api.SCSITarget
	nexus  []*api.ITNexus
	stores map[uint64]*zzStore
}

var lastStore *zzStore

func addDevice(id uint64) {
	scsi.RegisterBackingStore("zz", func() (api.BackingStore, error) { lastStore = &zzStore{size: 1 << 20}; return lastStore, nil })
	err := scsi.AddBackendStorage(config.BackendStorage{DeviceID: id, Path: "zz:dev", Online: true, BlockShift: 9})
	zz.Assert(err == nil, "setup-backend")
}

const zzName = "iqn.2016-09.com.gotgt.gostor:zz"

func zzID(n byte) uuid.UUID {
	var u uuid.UUID
	u[0], u[15] = 0xa0, n
	return u
}

// zzOffline has the devices of a target configured offline.
var zzOffline bool

// zzNewTarget builds a target whose LUNs are the given ones.
func zzNewTarget(shift uint, thin bool, luns ...uint64) *zzTarget {
	t := &zzTarget{svc: scsi.NewSCSITargetService(), stores: map[uint64]*zzStore{}}
	scsi.RegisterBackingStore("null", func() (api.BackingStore, error) { return &zzNull{}, nil })
	var cur *zzStore
	scsi.RegisterBackingStore("zz", func() (api.BackingStore, error) { return cur, nil })
	for i, l := range luns {
		cur = &zzStore{}
		if zzMedium != nil {
			cur = zzMedium
		}
		id := uint64(1000 + i)
		err := scsi.AddBackendStorage(config.BackendStorage{DeviceID: id, Path: "zz:dev", Online: !zzOffline, ThinProvisioning: thin, BlockShift: shift})
		zz.Assert(err == nil, "setup-backend")
		err = scsi.AddLUNMapping(scsi.LUNMapping{TargetName: zzName, LUN: l, DeviceID: id})
		zz.Assert(err == nil, "setup-mapping")
		t.stores[l] = cur
	}
	tgt, err := t.svc.NewSCSITarget(1, "iscsi", zzName)
	zz.Assert(err == nil, "setup-target")
	tgt.TargetPortGroups[0].TargetPortGroup = append(tgt.TargetPortGroups[0].TargetPortGroup, &api.SCSITargetPort{RelativeTargetPortID: 1, TargetPortName: zzName + ",t,0x0001"})
	t.tgt = tgt
	for i := byte(1); i <= 3; i++ {
		n := &api.ITNexus{ID: zzID(i), Tag: "zz"}
		scsi.AddITNexus(tgt, n)
		t.nexus = append(t.nexus, n)
	}
	return t
}

// zzCmd is the command as the iSCSI port builds it.
func (t *zzTarget) cmd(nexus int, lun uint64, cdb []byte, write bool, n int, out []byte) *api.SCSICommand {
	c := &api.SCSICommand{ITNexusID: t.nexus[nexus].ID, SCB: cdb, SCBLength: len(cdb), RelTargetPortID: 1, Tag: 1}
	c.OpCode = cdb[0]
	for i := 0; i < 8; i++ {
		c.Lun[i] = byte(lun >> (8 * uint(i)))
	}
	if write {
		c.Direction = api.SCSIDataWrite
		c.OutSDBBuffer = &api.SCSIDataBuffer{Length: uint32(n), Buffer: out}
	} else {
		c.Direction = api.SCSIDataRead
		c.InSDBBuffer = &api.SCSIDataBuffer{Length: uint32(n), Buffer: make([]byte, n)}
	}
	return c
}

func (t *zzTarget) run(c *api.SCSICommand) {
	err := t.svc.AddCommandQueue(1, c)
	zz.Assert(err == nil, "command-accepted")
}

const (
	stGood    = 0
	stCheck   = 2
	stBusy    = 8
	stConfl   = 0x18
	keyMedium = 3
	keyHW     = 4
	keyIll    = 5
	keyProt   = 7
	keyMis    = 0xe
)

// sense returns key and asc of a command's sense data (fixed format).
func sense(c *api.SCSICommand) (byte, uint16, bool) {
	if c.SenseBuffer == nil || len(c.SenseBuffer.Buffer) < 14 {
		return 0, 0, false
	}
	b := c.SenseBuffer.Buffer
	return b[2] & 0xf, uint16(b[12])<<8 | uint16(b[13]), b[0]&0x7f == 0x70
}

func wantSense(c *api.SCSICommand, key byte, asc uint16, id string) {
	zz.Assert(c.Result == stCheck, id+"-status")
	k, a, ok := sense(c)
	zz.Assert(ok, id+"-sense-present")
	zz.Assert(k == key, id+"-key")
	zz.Assert(a == asc, id+"-asc")
}

func be(b []byte) uint64 {
	var v uint64
	for _, x := range b {
		v = v<<8 | uint64(x)
	}
	return v
}

func putBE(b []byte, v uint64) {
	for i := len(b) - 1; i >= 0; i-- {
		b[i] = byte(v)
		v >>= 8
	}
}
