package zzback

import (
	"errors"
	"io"
	"io/fs"
	"os"
	"runtime"
	"time"

	"github.com/gostor/gotgt/pkg/api"
	"github.com/gostor/gotgt/pkg/scsi"
	zz "github.com/gostor/gotgt/pkg/zzsym"
)

// In a symbolic run the operating system's files are this model; natively
// the same harnesses work on a real file in a scratch directory.
type sysFile struct {
	data   []byte
	device bool // a device which is full, as /dev/full
	node   bool
}

type openFile struct {
	f      *sysFile
	closed bool
}

var (
	disk    map[string]*sysFile
	handles map[*os.File]*openFile
	pos     map[*os.File]int64 // the shared file position
	synced  map[*sysFile][]byte

	errBadOffset = errors.New("negative offset")
	errNoSpace   = errors.New("no space left on device")
	errNoSync    = errors.New("can not be synced")
	errNoFile    = errors.New("no such file")
	errClosed    = errors.New("file already closed")
)

func sysReset() {
	disk = map[string]*sysFile{}
	handles = map[*os.File]*openFile{}
	pos = map[*os.File]int64{}
	synced = map[*sysFile][]byte{}
}

type sysInfo struct{ f *sysFile }

func (i sysInfo) Name() string       { return "disk" }
func (i sysInfo) Size() int64        { return int64(len(i.f.data)) }
func (i sysInfo) ModTime() time.Time { return time.Time{} }
func (i sysInfo) IsDir() bool        { return false }
func (i sysInfo) Sys() interface{}   { return nil }
func (i sysInfo) Mode() fs.FileMode {
	if i.f.device {
		return fs.ModeDevice | fs.ModeCharDevice | 0o666
	}
	return 0o644
}

//zz:stub os.Stat
func sysStat(name string) (os.FileInfo, error) {
	f := disk[name]
	if f == nil {
		return nil, errNoFile
	}
	return sysInfo{f}, nil
}

//zz:stub (*os.File).Stat
func sysFstat(h *os.File) (os.FileInfo, error) {
	if h == nil || handles[h] == nil || handles[h].closed {
		return nil, errClosed
	}
	return sysInfo{handles[h].f}, nil
}

//zz:stub os.OpenFile
func sysOpen(name string, flag int, perm os.FileMode) (*os.File, error) {
	f := disk[name]
	if f == nil {
		if flag&os.O_CREATE == 0 {
			return nil, errNoFile
		}
		f = &sysFile{}
		disk[name] = f
	}
	if flag&os.O_TRUNC != 0 && !f.device {
		f.data = nil
	}
	h := new(os.File)
	handles[h] = &openFile{f: f}
	pos[h] = 0
	return h, nil
}

func sysUse(h *os.File) (*sysFile, error) {
	if h == nil || handles[h] == nil || handles[h].closed {
		return nil, errClosed
	}
	return handles[h].f, nil
}

func (f *sysFile) readAt(b []byte, off int64) int {
	if f.device {
		for i := range b {
			b[i] = 0
		}
		return len(b)
	}
	if off >= int64(len(f.data)) {
		return 0
	}
	return copy(b, f.data[off:])
}

func (f *sysFile) writeAt(b []byte, off int64) (int, error) {
	if f.device && len(b) > 0 {
		return 0, errNoSpace
	}
	for int64(len(f.data)) < off+int64(len(b)) {
		f.data = append(f.data, 0)
	}
	return copy(f.data[off:], b), nil
}

//zz:stub (*os.File).ReadAt
func sysReadAt(h *os.File, b []byte, off int64) (int, error) {
	f, err := sysUse(h)
	if err != nil {
		return 0, err
	}
	if off < 0 {
		return 0, errBadOffset
	}
	n := f.readAt(b, off)
	if n < len(b) {
		return n, io.EOF
	}
	return n, nil
}

//zz:stub (*os.File).WriteAt
func sysWriteAt(h *os.File, b []byte, off int64) (int, error) {
	f, err := sysUse(h)
	if err != nil {
		return 0, err
	}
	if off < 0 {
		return 0, errBadOffset
	}
	return f.writeAt(b, off)
}

//zz:stub (*os.File).Seek
func sysSeek(h *os.File, off int64, whence int) (int64, error) {
	f, err := sysUse(h)
	if err != nil {
		return 0, err
	}
	switch whence {
	case io.SeekCurrent:
		off += pos[h]
	case io.SeekEnd:
		off += int64(len(f.data))
	}
	if f.device {
		off = 0
	}
	if off < 0 {
		return 0, errBadOffset
	}
	pos[h] = off
	return off, nil
}

//zz:stub (*os.File).Read
func sysRead(h *os.File, b []byte) (int, error) {
	f, err := sysUse(h)
	if err != nil || len(b) == 0 {
		return 0, err
	}
	p := pos[h]
	n := f.readAt(b, p)
	pos[h] = p + int64(n)
	if n == 0 {
		return 0, io.EOF
	}
	return n, nil
}

//zz:stub (*os.File).Write
func sysWrite(h *os.File, b []byte) (int, error) {
	f, err := sysUse(h)
	if err != nil {
		return 0, err
	}
	p := pos[h]
	n, err := f.writeAt(b, p)
	pos[h] = p + int64(n)
	return n, err
}

//zz:stub (*os.File).Truncate
func sysTruncate(h *os.File, size int64) error {
	f, err := sysUse(h)
	if err != nil {
		return err
	}
	for int64(len(f.data)) < size {
		f.data = append(f.data, 0)
	}
	f.data = f.data[:size]
	return nil
}

//zz:stub (*os.File).Close
func sysClose(h *os.File) error {
	if _, err := sysUse(h); err != nil {
		return err
	}
	handles[h].closed = true
	return nil
}

//zz:stub (*os.File).Sync
func sysSync(h *os.File) error {
	f, err := sysUse(h)
	if err != nil {
		return err
	}
	if f.device {
		return errNoSync
	}
	synced[f] = append([]byte{}, f.data...)
	return nil
}

//zz:stub github.com/gostor/gotgt/pkg/util.Fdatasync
func sysFdatasync(h *os.File) error { return sysSync(h) }

//zz:stub github.com/gostor/gotgt/pkg/util.Fadvise
func sysFadvise(h *os.File, off, n int64, advise uint32) error { return nil }

const (
	plain = "disk"
	full  = "/dev/full"
)

// medium makes the file of a disk.
func medium(data []byte) {
	if zz.Symbolic() {
		sysReset()
		disk[plain] = &sysFile{data: append([]byte{}, data...)}
		disk[full] = &sysFile{device: true}
		return
	}
	zz.Assert(os.WriteFile(plain, data, 0o644) == nil, "setup")
}

// content is what the file holds.
func content() []byte {
	if zz.Symbolic() {
		return disk[plain].data
	}
	b, err := os.ReadFile(plain)
	zz.Assert(err == nil, "setup")
	return b
}

// cut shortens the file behind the store's back.
func cut(n int) {
	if zz.Symbolic() {
		disk[plain].data = disk[plain].data[:n]
		return
	}
	zz.Assert(os.Truncate(plain, int64(n)) == nil, "setup")
}

func fileStore() api.BackingStore {
	st, err := scsi.NewBackingStore("file")
	zz.Assert(err == nil && st != nil, "setup")
	return st
}

// ZZFile: what a file store returns is what the file holds, and what it
// acknowledges is in the file.
//
//zz:prop C02,C31,C36
//zz:opt tries=2
//zz:bound a file of 8 symbolic bytes, two transfers of 0..4 bytes and of 3 bytes (thorough: of 0..6 bytes each), the file cut to any length in between, every offset from -1 on past the end
//zz:need read past-the-end negative wrote cut
func ZZFile() {
	const size = 8
	top := 5
	if zz.Thorough() {
		top = 7
	}
	model := zz.Bytes("medium", size)
	medium(model)
	st := fileStore()
	zz.Assert(st.Open(nil, plain) == nil, "open")
	zz.Assert(st.Size(nil) == size, "size-of-the-store")
	for i := 0; i < 2; i++ {
		n, at := 3, 4
		if i == 0 || zz.Thorough() {
			n, at = zz.Choose("length", top), zz.Choose("at", size+3)-1
		}
		if zz.Choose("op", 2) == 0 {
			got, err := st.Read(int64(at), int64(n))
			switch {
			case at < 0:
				zz.Cover("negative")
				zz.Assert(n == 0 || err != nil, "read-outside-the-store-fails")
			case at+n > len(model):
				zz.Cover("past-the-end")
				zz.Assert(n == 0 || err != nil, "short-read-is-reported")
			default:
				zz.Cover("read")
				zz.Assert(err == nil, "read-succeeds")
				zz.Assert(len(got) == n, "read-returns-all")
				zz.Assert(zz.EqBytes(got, model[at:at+n]), "read-returns-the-bytes")
			}
			zz.Assert(zz.EqBytes(content(), model), "read-changes-nothing")
		} else if at+n <= len(model) {
			data := zz.Bytes("data", n)
			err := st.Write(data, int64(at))
			if at < 0 {
				zz.Assert(n == 0 || err != nil, "write-outside-the-store-fails")
			} else {
				zz.Cover("wrote")
				zz.Assert(err == nil, "write-succeeds")
				model = append([]byte{}, model...)
				copy(model[at:at+n], data)
			}
			zz.Assert(zz.EqBytes(content(), model), "acknowledged-write-is-complete")
		}
		if i == 0 && zz.Bool("cut") {
			k := zz.Choose("left", size)
			cut(k)
			model = model[:k]
			zz.Cover("cut")
		}
	}
	if zz.Symbolic() {
		zz.Assert(st.DataSync(0, size) == nil, "sync-succeeds")
		zz.Assert(zz.EqBytes(synced[disk[plain]], model), "sync-reaches-the-file")
	}
	zz.Assert(st.Close(nil) == nil, "close")
	if _, err := st.Read(0, 1); err == nil {
		zz.Assert(false, "read-of-a-closed-store-fails")
	}
	zz.Assert(st.Write([]byte{1}, 0) != nil, "write-to-a-closed-store-fails")
	zz.Assert(zz.EqBytes(content(), model), "closed-store-changes-nothing")
}

// ZZFileFaults: what the operating system refuses is not acknowledged.
//
//zz:prop C15,C31,C36
//zz:bound a device which is full and can not be synced, a file which does not exist
//zz:need full missing
func ZZFileFaults() {
	medium(nil)
	st := fileStore()
	if zz.Bool("missing") {
		zz.Cover("missing")
		zz.Assert(st.Open(nil, "nowhere") != nil, "missing-file-is-refused")
		return
	}
	zz.Cover("full")
	zz.Assert(st.Open(nil, full) == nil, "open")
	zz.Assert(st.Write(zz.Bytes("data", 4), int64(zz.Choose("at", 4))) != nil, "failed-write-is-reported")
	zz.Assert(st.DataSync(0, 0) != nil, "failed-sync-is-reported")
}

// pause lets the other transfer run.
func pause() {
	if zz.Symbolic() {
		_ = pos[nil]
		return
	}
	runtime.Gosched()
}

// ZZFileRace: transfers at the same time do not get in each other's way.
//
//zz:prop C02,C31
//zz:opt tries=3
//zz:bound two transfers (read or write, of 2 bytes each at different offsets) at the same time, every interleaving with up to 2 preemptions at statements which touch what both use
//zz:need reads writes
func ZZFileRace() {
	rounds := 1
	if !zz.Symbolic() {
		rounds = 20000
	}
	w0, w1 := zz.Bool("first-writes"), zz.Bool("second-writes")
	if !w0 && !w1 {
		zz.Cover("reads")
	}
	if w0 && w1 {
		zz.Cover("writes")
	}
	zz.Races(2)
	init := []byte{1, 2, 3, 4, 5, 6, 7, 8}
	medium(init)
	st := fileStore()
	zz.Assert(st.Open(nil, plain) == nil, "open")
	one := func(w bool, at int, tag byte, want []byte, done chan bool) {
		if w {
			done <- st.Write([]byte{tag, tag + 1}, int64(at)) == nil
			return
		}
		b, err := st.Read(int64(at), 2)
		pause()
		done <- err == nil && len(b) == 2 && b[0] == want[0] && b[1] == want[1]
	}
	model := append([]byte{}, init...)
	for r := 0; r < rounds; r++ {
		a, b := make(chan bool, 1), make(chan bool, 1)
		tag := byte(r * 4)
		x, y := append([]byte{}, model[1:3]...), append([]byte{}, model[5:7]...)
		go one(w0, 1, tag, x, a)
		go one(w1, 5, tag+2, y, b)
		if w0 {
			model[1], model[2] = tag, tag+1
		}
		if w1 {
			model[5], model[6] = tag+2, tag+3
		}
		zz.Assert(<-a, "transfer-is-not-disturbed")
		zz.Assert(<-b, "transfer-is-not-disturbed")
		if r < 1000 || r%100 == 0 {
			zz.Assert(zz.EqBytes(content(), model), "writes-land-where-they-belong")
		}
	}
}
