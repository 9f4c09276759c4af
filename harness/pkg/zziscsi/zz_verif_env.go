// Package zziscsi holds the symbolic harnesses for the iSCSI port. They are
// initiators: everything they do and see goes through TCP connections to the
// port the driver listens on. Under the engine net.Listen is replaced by an
// in-memory listener; natively the connections are real ones over loopback.
package zziscsi

import (
	"errors"
	"io"
	"net"
	"strconv"
	"time"

	"github.com/gostor/gotgt/pkg/api"
	"github.com/gostor/gotgt/pkg/config"
	_ "github.com/gostor/gotgt/pkg/port/iscsit"
	"github.com/gostor/gotgt/pkg/scsi"
	zz "github.com/gostor/gotgt/pkg/zzsym"
)

// ---- network ----

type memAddr string

func (a memAddr) Network() string { return "tcp" }
func (a memAddr) String() string  { return string(a) }

type memConn struct {
	in, peer      chan []byte
	left          []byte
	local, remote memAddr
	eof           bool // the peer has closed
	shut          bool // this end has
	other         *memConn
}

func (c *memConn) Read(b []byte) (int, error) {
	for len(c.left) == 0 {
		if c.eof || c.shut {
			return 0, io.EOF
		}
		d := <-c.in
		if d == nil {
			c.eof = true
			return 0, io.EOF
		}
		c.left = d
	}
	n := copy(b, c.left)
	c.left = c.left[n:]
	return n, nil
}

func (c *memConn) Write(b []byte) (int, error) {
	if c.shut || c.other.shut {
		return 0, errors.New("closed")
	}
	if len(b) == 0 {
		return 0, nil
	}
	c.peer <- append([]byte{}, b...)
	return len(b), nil
}

func (c *memConn) Close() error {
	if c.shut {
		return errors.New("closed")
	}
	c.shut = true
	// nil is the end of the stream, for the peer and whoever is reading here
	c.peer <- nil
	c.in <- nil
	return nil
}

func (c *memConn) LocalAddr() net.Addr                { return c.local }
func (c *memConn) RemoteAddr() net.Addr               { return c.remote }
func (c *memConn) SetDeadline(t time.Time) error      { return nil }
func (c *memConn) SetReadDeadline(t time.Time) error  { return nil }
func (c *memConn) SetWriteDeadline(t time.Time) error { return nil }

type memListener struct {
	ch chan net.Conn
	at memAddr
}

func (l *memListener) Accept() (net.Conn, error) { return <-l.ch, nil }
func (l *memListener) Close() error              { return nil }
func (l *memListener) Addr() net.Addr            { return l.at }

var listener *memListener
var dialled int

//zz:stub net.Listen
func zzListen(network, address string) (net.Listener, error) {
	listener = &memListener{ch: make(chan net.Conn, 8), at: memAddr("[::]" + address)}
	return listener, nil
}

const host = "127.0.0.1"

func freePort() int {
	if zz.Symbolic() {
		return 33333
	}
	l, err := net.Listen("tcp", host+":0")
	if err != nil {
		panic(err)
	}
	defer l.Close()
	return l.Addr().(*net.TCPAddr).Port
}

func dial(port int) net.Conn { return dialFrom(host, port) }

func dialFrom(from string, port int) net.Conn {
	if zz.Symbolic() {
		zz.Quiesce()
		dialled++
		a, b := make(chan []byte, 512), make(chan []byte, 512)
		us, them := memAddr(from+":"+strconv.Itoa(50000+dialled)), memAddr(host+":"+strconv.Itoa(port))
		here := &memConn{in: b, peer: a, local: us, remote: them}
		there := &memConn{in: a, peer: b, local: them, remote: us, other: here}
		here.other = there
		listener.ch <- there
		return here
	}
	for i := 0; ; i++ {
		d := net.Dialer{LocalAddr: &net.TCPAddr{IP: net.ParseIP(from)}}
		c, err := d.Dial("tcp", host+":"+strconv.Itoa(port))
		if err == nil {
			return c
		}
		if i > 1000 {
			panic(err)
		}
		time.Sleep(5 * time.Millisecond)
	}
}

// ---- backing store ----

type wr struct {
	off  int64
	data []byte
}

type zzStore struct {
	scsi.BaseBackingStore
	mem    []byte
	reads  int
	writes []wr
	syncs  int
}

func (s *zzStore) Open(dev *api.SCSILu, path string) error { return nil }
func (s *zzStore) Close(dev *api.SCSILu) error             { return nil }
func (s *zzStore) Init(dev *api.SCSILu, o string) error    { return nil }
func (s *zzStore) Exit(dev *api.SCSILu) error              { return nil }
func (s *zzStore) Size(dev *api.SCSILu) uint64             { return uint64(len(s.mem)) }
func (s *zzStore) Read(off, tl int64) ([]byte, error) {
	s.reads++
	if off < 0 || tl < 0 || off+tl > int64(len(s.mem)) {
		return nil, errors.New("out of range")
	}
	return append([]byte{}, s.mem[off:off+tl]...), nil
}
func (s *zzStore) Write(b []byte, off int64) error {
	s.writes = append(s.writes, wr{off, append([]byte{}, b...)})
	if off < 0 || off+int64(len(b)) > int64(len(s.mem)) {
		return errors.New("out of range")
	}
	copy(s.mem[off:], b)
	return nil
}
func (s *zzStore) DataSync(off, tl int64) error             { s.syncs++; return nil }
func (s *zzStore) DataAdvise(off, tl int64, a uint32) error { return nil }
func (s *zzStore) Unmap(d []api.UnmapBlockDescriptor) error { return nil }

// ---- rig: a target driver listening on a port ----

const (
	iqn     = "iqn.2016-09.com.gotgt.gostor:"
	tgtName = iqn + "zz"
	iniName = "iqn.2000-01.org.zz:ini"
	blk     = 512
)

type rig struct {
	svc    *scsi.SCSITargetService
	drv    scsi.SCSITargetDriver
	port   int
	cfg    *config.Config
	stores []*zzStore
	ndev   uint64
}

func newRig() *rig {
	r := &rig{svc: scsi.NewSCSITargetService(), port: freePort()}
	r.cfg = &config.Config{ISCSITargets: map[string]config.ISCSITarget{}}
	scsi.RegisterBackingStore("null", func() (api.BackingStore, error) { return &zzStore{}, nil })
	drv, err := scsi.NewTargetDriver("iscsi", r.svc)
	zz.Assert(err == nil, "setup-driver")
	r.drv = drv
	return r
}

// disk adds a LUN of n blocks to a target that is not set up yet.
func (r *rig) disk(target string, lun uint64, n int) *zzStore {
	st := &zzStore{mem: make([]byte, n*blk)}
	scsi.RegisterBackingStore("zz", func() (api.BackingStore, error) { return st, nil })
	id := 1000 + r.ndev
	r.ndev++
	err := scsi.AddBackendStorage(config.BackendStorage{DeviceID: id, Path: "zz:dev", Online: true, BlockShift: 9})
	zz.Assert(err == nil, "setup-backend")
	err = scsi.AddLUNMapping(scsi.LUNMapping{TargetName: target, LUN: lun, DeviceID: id})
	zz.Assert(err == nil, "setup-mapping")
	return st
}

func (r *rig) portal(id uint16, addr string) {
	r.cfg.ISCSIPortals = append(r.cfg.ISCSIPortals, config.ISCSIPortalInfo{ID: id, Portal: addr})
}

func (r *rig) here() string { return host + ":" + strconv.Itoa(r.port) }

func (r *rig) target(name string, tpgts map[string][]uint64) {
	r.cfg.ISCSITargets[name] = config.ISCSITarget{TPGTs: tpgts}
	err := r.drv.NewTarget(name, r.cfg)
	zz.Assert(err == nil, "setup-target")
}

func (r *rig) run() { go r.drv.Run(r.port) }

// oneTarget is a running target with a disk of n blocks at LUN 0.
func oneTarget(n int) (*rig, *zzStore) {
	r := newRig()
	st := r.disk(tgtName, 0, n)
	r.portal(0, r.here())
	r.target(tgtName, map[string][]uint64{"1": {0}})
	r.run()
	return r, st
}

// ---- initiator ----

type pdu struct {
	h    []byte
	data []byte
	pad  []byte
}

func (p pdu) op() byte       { return byte(zz.Concrete(uint64(p.h[0]))) }
func (p pdu) itt() uint32    { return uint32(be(p.h[16:20])) }
func (p pdu) statSN() uint32 { return uint32(be(p.h[24:28])) }
func (p pdu) expCmd() uint32 { return uint32(be(p.h[28:32])) }
func (p pdu) maxCmd() uint32 { return uint32(be(p.h[32:36])) }
func (p pdu) w(off int) uint32 {
	return uint32(be(p.h[off : off+4]))
}

type ini struct {
	c      net.Conn
	rx     []byte
	closed bool
	cmdSN  uint32
	stat   uint32 // the next StatSN
	itt    uint32
	tsih   uint16
}

// inis keeps the connections from being closed by the garbage collector.
var inis []*ini

func (r *rig) dial() *ini { return r.dialFrom(0) }

// dialFrom connects from one of several hosts.
func (r *rig) dialFrom(h byte) *ini {
	from := "127.0.0."
	if zz.Branch(h < 9) {
		from += string([]byte{'1' + h})
	} else {
		// an address which begins with another one
		from += "1" + string([]byte{'0' + h - 9})
	}
	inis = append(inis, &ini{c: dialFrom(from, r.port), cmdSN: 1, itt: 0x100, stat: 0})
	return inis[len(inis)-1]
}

func (c *ini) send(b []byte) { c.c.Write(b) }

// settle lets the target work, and takes what it has sent.
func (c *ini) settle() {
	zz.Quiesce()
	if m, ok := c.c.(*memConn); ok {
		for {
			select {
			case d := <-m.in:
				if d == nil {
					c.closed = true
					return
				}
				c.rx = append(c.rx, d...)
				continue
			default:
			}
			return
		}
	}
	buf := make([]byte, 1<<16)
	for !c.closed {
		c.c.SetReadDeadline(time.Now().Add(3 * time.Millisecond))
		n, err := c.c.Read(buf)
		c.rx = append(c.rx, buf[:n]...)
		if err != nil {
			if ne, ok := err.(net.Error); ok && ne.Timeout() {
				return
			}
			c.closed = true
		}
	}
}

// pdus returns what has come since the last call.
func (c *ini) pdus() []pdu {
	c.settle()
	var out []pdu
	for len(c.rx) > 0 {
		zz.Assert(len(c.rx) >= 48, "whole-header")
		h := c.rx[:48]
		n := int(zz.Concrete(be(h[5:8])))
		pad := (n + 3) / 4 * 4
		ahs := int(zz.Concrete(uint64(h[4])))
		zz.Assert(ahs == 0, "no-ahs")
		zz.Assert(len(c.rx) >= 48+pad, "whole-data-segment")
		if len(c.rx) < 48+pad {
			zz.Stop()
		}
		out = append(out, pdu{h: h, data: c.rx[48 : 48+n], pad: c.rx[48+n : 48+pad]})
		c.rx = c.rx[48+pad:]
	}
	return out
}

func (c *ini) one(id string) pdu {
	p := c.pdus()
	zz.Assert(len(p) == 1, id)
	if len(p) != 1 {
		zz.Stop()
	}
	return p[0]
}

// bhs is a header with the usual fields in place.
func (c *ini) bhs(op, flags byte, dlen int) []byte {
	h := make([]byte, 48)
	h[0], h[1] = op, flags
	putBE(h[5:8], uint64(dlen))
	c.itt++
	putBE(h[16:20], uint64(c.itt))
	putBE(h[24:28], uint64(c.cmdSN))
	putBE(h[28:32], uint64(c.stat))
	return h
}

func pad(b []byte) []byte {
	for len(b)%4 != 0 {
		b = append(b, 0)
	}
	return b
}

func text(kv ...string) []byte {
	var b []byte
	for _, s := range kv {
		b = append(b, s...)
		b = append(b, 0)
	}
	return b
}

func loginPDU(c *ini, flags byte, isid uint64, tsih, cid uint16, t []byte) []byte {
	h := c.bhs(0x43, flags, len(t))
	putBE(h[8:14], isid)
	putBE(h[14:16], uint64(tsih))
	putBE(h[20:22], uint64(cid))
	return append(h, pad(append([]byte{}, t...))...)
}

// login is the standard one-step login; it returns the response.
func (c *ini) login(kv ...string) pdu {
	return c.loginAs(iniName, 0x400001370000, 0, 1, tgtName, kv...)
}

func (c *ini) loginAs(name string, isid uint64, tsih, cid uint16, tgt string, kv ...string) pdu {
	first := []string{"InitiatorName=" + name, "SessionType=Discovery"}
	if tgt != "" {
		first = []string{"InitiatorName=" + name, "SessionType=Normal", "TargetName=" + tgt}
	}
	c.send(loginPDU(c, 0x87, isid, tsih, cid, text(append(first, kv...)...)))
	p := c.one("login-answered")
	zz.Assert(p.op() == 0x23, "login-response")
	zz.Assert(p.h[36] == 0, "login-accepted")
	c.tsih = uint16(be(p.h[14:16]))
	c.stat = p.statSN() + 1
	return p
}

func (c *ini) scsi(flags byte, lun uint64, edtl uint32, cdb []byte, data []byte) []byte {
	h := c.bhs(0x01, flags, len(data))
	h[9] = byte(lun)
	putBE(h[20:24], uint64(edtl))
	copy(h[32:48], cdb)
	return append(h, pad(append([]byte{}, data...))...)
}

func rw10(op byte, lba uint32, n uint16) []byte {
	b := make([]byte, 16)
	b[0] = op
	putBE(b[2:6], uint64(lba))
	putBE(b[7:9], uint64(n))
	return b
}

func be(b []byte) uint64 {
	var v uint64
	for _, x := range b {
		v = v<<8 | uint64(x)
	}
	return v
}

func putBE(b []byte, v uint64) {
	for i := len(b) - 1; i >= 0; i-- {
		b[i] = byte(v)
		v >>= 8
	}
}
