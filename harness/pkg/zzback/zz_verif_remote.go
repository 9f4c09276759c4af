// Package zzback holds the symbolic harnesses for the backing stores.
package zzback

import (
	"errors"
	"io"

	"github.com/gostor/gotgt/pkg/api"
	"github.com/gostor/gotgt/pkg/config"
	"github.com/gostor/gotgt/pkg/scsi"
	_ "github.com/gostor/gotgt/pkg/scsi/backingstore"
	"github.com/gostor/gotgt/pkg/scsi/backingstore/remote"
	zz "github.com/gostor/gotgt/pkg/zzsym"
)

var errInjected = errors.New("injected fault")

type call struct {
	write bool
	off   int64
	n     int
}

// far is the layer below a remote store: a window of a large medium, the
// calls on which may come back short or fail.
type far struct {
	base  int64
	mem   []byte
	calls []call
	bad   int // calls which did not go through
	syncs int
	serr  error
}

func (f *far) in(off int64, n int) bool {
	return zz.And(off >= f.base, off-f.base <= int64(len(f.mem)-n))
}

func (f *far) ReadAt(b []byte, off int64) (int, error) {
	f.calls = append(f.calls, call{false, off, len(b)})
	zz.Assert(len(b) <= len(f.mem) && f.in(off, len(b)), "reads-only-what-is-asked-for")
	o := int(zz.Concrete(uint64(off - f.base)))
	n, err := f.plan(len(b), true)
	copy(b[:n], f.mem[o:])
	for i := n; i < len(b); i++ {
		b[i] = 0xee // a reader may use all of the buffer as scratch space
	}
	return n, err
}

func (f *far) WriteAt(b []byte, off int64) (int, error) {
	f.calls = append(f.calls, call{true, off, len(b)})
	zz.Assert(len(b) <= len(f.mem) && f.in(off, len(b)), "writes-only-what-is-asked-for")
	o := int(zz.Concrete(uint64(off - f.base)))
	n, err := f.plan(len(b), false)
	copy(f.mem[o:o+n], b[:n])
	return n, err
}

// plan picks what becomes of one transfer.
func (f *far) plan(n int, read bool) (int, error) {
	k := 5
	if read {
		k = 6
	}
	what := zz.Choose("transfer", k)
	if what == 0 {
		return n, nil
	}
	if what == 5 {
		zz.Cover("all-of-it-with-EOF")
		return n, io.EOF
	}
	f.bad++
	if what == 1 {
		return 0, errInjected
	}
	zz.Assume(n > 0)
	m := zz.Choose("short", n)
	switch what {
	case 2:
		zz.Cover("short")
		return m, nil
	case 3:
		zz.Cover("short-with-EOF")
		return m, io.EOF
	}
	zz.Cover("short-with-error")
	return m, errInjected
}

func (f *far) Sync() (int, error) {
	f.syncs++
	return 0, f.serr
}

func (f *far) Unmap(off, n int64) (int, error) { return 0, nil }

// remoteStore is a remote store on top of f, opened the way a LUN opens it.
func remoteStore(f *far) api.BackingStore {
	remote.Size = uint64(1) << 40
	scsi.RegisterBackingStore("null", func() (api.BackingStore, error) { return remote.NewRemoteBackingStore() })
	err := scsi.InitSCSILUMapEx(&config.BackendStorage{DeviceID: 1, Path: "RemBs:zz", Online: true, BlockShift: 9}, "zz", 0, f)
	zz.Assert(err == nil, "setup")
	lu := scsi.GetLU("zz", 0)
	zz.Assert(lu != nil && lu.Storage != nil, "setup")
	zz.Assert(lu.Size == uint64(1)<<40, "size-of-the-store")
	return lu.Storage
}

// ZZRemote: what a remote store returns is what the layer below holds, and
// what it acknowledges has got there.
//
//zz:prop C31
//zz:opt tries=2
//zz:bound two transfers of 0..4 bytes and of 2 bytes (thorough: of 0..6 bytes each) at any 64-bit offset, symbolic content; every transfer of the layer below complete, short or failed, with and without io.EOF
//zz:need short short-with-EOF short-with-error all-of-it-with-EOF read wrote refused-read refused-write
func ZZRemote() {
	top := 5
	if zz.Thorough() {
		top = 7
	}
	f := &far{base: zz.I64("base"), mem: zz.Bytes("medium", 12)}
	zz.Assume(zz.And(f.base >= 0, f.base < 1<<62))
	st := remoteStore(f)
	model := append([]byte{}, f.mem...)
	for i := 0; i < 2; i++ {
		n, at := 2, 3
		if i == 0 || zz.Thorough() {
			n, at = zz.Choose("length", top), zz.Choose("at", 4)
		}
		off := f.base + int64(at)
		f.calls, f.bad = nil, 0
		if zz.Choose("op", 2) == 0 {
			got, err := st.Read(off, int64(n))
			zz.Assert(err == nil || f.bad > 0, "read-fails-only-when-the-layer-below-does")
			if err == nil {
				zz.Cover("read")
				zz.Assert(len(got) == n, "read-returns-all-or-fails")
				zz.Assert(zz.EqBytes(got, model[at:at+n]), "read-returns-the-bytes")
			} else {
				zz.Cover("refused-read")
			}
			zz.Assert(zz.EqBytes(f.mem, model), "read-changes-nothing")
			continue
		}
		data := zz.Bytes("data", n)
		before := append([]byte{}, model...)
		err := st.Write(data, off)
		zz.Assert(err == nil || f.bad > 0, "write-fails-only-when-the-layer-below-does")
		copy(model[at:at+n], data)
		if err == nil {
			zz.Cover("wrote")
			zz.Assert(zz.EqBytes(f.mem, model), "acknowledged-write-is-complete")
			continue
		}
		zz.Cover("refused-write")
		for k := range f.mem {
			zz.Assert(zz.Or(f.mem[k] == before[k], f.mem[k] == model[k]), "failed-write-stays-in-its-range")
		}
		model = append([]byte{}, f.mem...)
	}
}

// ZZRemoteSync: a sync is acknowledged when the layer below has done it.
//
//zz:prop C31,C36
//zz:bound one sync of any range, done or failed
//zz:need synced failed
func ZZRemoteSync() {
	f := &far{mem: make([]byte, 8)}
	st := remoteStore(f)
	if zz.Bool("fails") {
		f.serr = errInjected
		zz.Cover("failed")
		zz.Assert(st.DataSync(zz.I64("off"), zz.I64("len")) != nil, "failed-sync-is-reported")
		return
	}
	err := st.DataSync(zz.I64("off"), zz.I64("len"))
	zz.Cover("synced")
	zz.Assert(err == nil, "sync-succeeds")
	zz.Assert(f.syncs > 0, "sync-reaches-the-layer-below")
}
