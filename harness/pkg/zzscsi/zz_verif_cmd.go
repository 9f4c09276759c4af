package zzscsi

import (
	"github.com/gostor/gotgt/pkg/api"
	"github.com/gostor/gotgt/pkg/config"
	"github.com/gostor/gotgt/pkg/scsi"
	zz "github.com/gostor/gotgt/pkg/zzsym"
)

var supportedOps = []byte{0x00, 0x03, 0x04, 0x08, 0x0a, 0x12, 0x15, 0x16, 0x17, 0x1a, 0x1b, 0x1d, 0x1e, 0x25, 0x28, 0x2a, 0x2e, 0x2f,
	0x34, 0x35, 0x41, 0x42, 0x55, 0x5a, 0x5e, 0x5f, 0x88, 0x8a, 0x8b, 0x8e, 0x8f, 0x90, 0x91, 0x93, 0x9e, 0xa0, 0xa3,
	0xa8, 0xaa, 0xae, 0xaf}

func supported(op int) bool {
	for _, o := range supportedOps {
		if int(o) == op {
			return true
		}
	}
	return false
}

// outcome checks what holds for the outcome of any command.
func outcome(c *api.SCSICommand) {
	zz.Assert(zz.Or(c.Result == stGood, c.Result == stCheck, c.Result == stConfl), "status-valid")
	if zz.Branch(c.Result == stCheck) {
		zz.Cover("check-condition")
		zz.Assert(c.SenseBuffer != nil, "sense-with-check-condition")
		b := c.SenseBuffer.Buffer
		zz.Assert(len(b) == 18 && c.SenseBuffer.Length == 18, "sense-length")
		zz.Assert(zz.And(b[0] == 0x70, b[1] == 0, b[7] == 10), "sense-header")
		zz.Assert(b[2]&0xf0 == 0 && b[2] != 0, "sense-key-set")
		return
	}
	zz.Assert(c.SenseBuffer == nil, "no-sense-without-check-condition")
}

// prepared brings the logical unit into one of several states.
func (t *zzTarget) prepare(state int) {
	reg := func(nexus int, key uint64, action byte, typ byte) {
		p := make([]byte, 24)
		if action == 0 {
			putBE(p[8:16], key)
		} else {
			putBE(p[0:8], key)
		}
		cdb := make([]byte, 16)
		cdb[0], cdb[1], cdb[2], cdb[8] = 0x5f, action, typ, 24
		c := t.cmd(nexus, 0, cdb, true, 24, p)
		t.run(c)
		zz.Assert(c.Result == stGood, "prepare")
	}
	switch state {
	case 1: // registered
		reg(0, 11, 0, 0)
	case 2: // reserved by another nexus, for all registrants
		reg(1, 12, 0, 0)
		reg(1, 12, 1, 7)
	case 3: // reserved by this nexus, another one is registered
		reg(1, 12, 0, 0)
		reg(0, 11, 0, 0)
		reg(0, 11, 1, 5)
	case 4:
		t.tgt.Devices[0].Attrs.Readonly = true
	case 5:
		c := t.cmd(1, 0, []byte{0x16, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}, false, 0, nil)
		t.run(c)
	}
}

// allocField returns where the allocation length of a data-in command is.
func allocField(op int) (int, int) {
	switch op {
	case 0x03, 0x1a:
		return 4, 1
	case 0x12:
		return 3, 2
	case 0x5a, 0x5e:
		return 7, 2
	case 0x9e:
		return 10, 4
	case 0xa0, 0xa3:
		return 6, 4
	}
	return 0, 0
}

// someAlloc leaves out the allocation lengths that only C10 is about.
func someAlloc(cdb []byte) {
	if at, n := allocField(int(cdb[0])); n > 0 {
		a := be(cdb[at : at+n])
		zz.Assume(zz.Or(a <= 20, a >= 250))
	}
}

// ZZAnyCommand: any command at all gets one well-formed answer.
//
//zz:prop C04,C05
//zz:bound all 256 opcodes with every other CDB byte symbolic (allocation lengths 0..20 and from 250; all of them in C10); data-in or data-out buffer of 0, 7, 24, 48 bytes with symbolic contents; a medium of 4 blocks of 8 bytes; unit unreserved, registered, reserved (quick: 2 of these states)
//zz:need check-condition unsupported good
//zz:opt conc=70
func ZZAnyCommand() {
	op := zz.Choose("op", 256)
	zzMedium = &zzStore{size: 32, mem: zz.Bytes("medium", 32)}
	thin := zz.Choose("thin", 2) == 1
	t := zzNewTarget(3, thin, 0)
	states := 2
	if zz.Thorough() {
		states = 6
	}
	if !supported(op) {
		states = 1
	}
	st := zz.Choose("state", states)
	if !zz.Thorough() && st == 1 {
		st = 3
	}
	t.prepare(st)
	cdb := zz.Bytes("cdb", 16)
	cdb[0] = byte(op)
	someAlloc(cdb)
	n := []int{0, 24, 7, 48}[zz.Choose("n", 4)]
	write := zz.Choose("write", 2) == 1
	c := t.cmd(0, 0, cdb, write, n, zz.Bytes("out", n))
	t.run(c)
	outcome(c)
	if !supported(op) {
		zz.Cover("unsupported")
		wantSense(c, keyIll, 0x2000, "unsupported-opcode")
		zz.Assert(len(zzMedium.ops) == 0, "unsupported-no-access")
	} else {
		if zz.Branch(c.Result == stGood) {
			zz.Cover("good")
		} else if c.Result == stCheck {
			k, a, _ := sense(c)
			zz.Assert(zz.Implies(a == 0x2000, false), "supported-opcode-is-known")
			_ = k
		}
	}
	zz.Observe("result", c.Result)
	zz.Observe("resid", c.InSDBBuffer.Resid)
}

// ZZAnyLun: any command to any LUN field; unknown LUNs are refused and no
// store but the addressed one is accessed.
//
//zz:prop C04,C05,C09
//zz:bound every supported opcode with every other CDB byte symbolic (allocation lengths 0..20 and from 250), all 2^64 LUN values with units 0 and 5, or 3 and 300 mapped; media of 4 blocks of 8 bytes
//zz:need known unknown phantom
//zz:opt conc=70
func ZZAnyLun() {
	op := int(supportedOps[zz.Choose("op", len(supportedOps))])
	zzMedium = nil
	l1, l2 := uint64(0), uint64(5)
	if zz.Choose("luns", 2) == 1 {
		l1, l2 = 3, 300
	}
	t := zzNewTarget(3, false, l1, l2)
	for _, s := range t.stores {
		s.mem = make([]byte, 32)
	}
	for _, d := range t.tgt.Devices {
		d.Size = 32
	}
	lun := zz.U64("lun")
	cdb := zz.Bytes("cdb", 16)
	cdb[0] = byte(op)
	someAlloc(cdb)
	write := zz.Choose("write", 2) == 1
	n := 24
	c := t.cmd(0, 0, cdb, write, n, make([]byte, n))
	for i := 0; i < 8; i++ {
		c.Lun[i] = byte(lun >> (8 * uint(i)))
	}
	t.run(c)
	outcome(c)
	for l, s := range t.stores {
		zz.Assert(zz.Or(len(s.ops) == 0, l == lun), "only-the-addressed-store-is-accessed")
	}
	if zz.Branch(zz.Or(lun == l1, lun == l2)) {
		zz.Cover("known")
		if c.Result == stCheck {
			_, a, _ := sense(c)
			zz.Assert(a != 0x2500, "known-lun-is-known")
		}
		return
	}
	if zz.Branch(lun == 0) {
		zz.Cover("phantom")
		return
	}
	zz.Cover("unknown")
	if op != 0x12 && op != 0xa0 && op != 0x03 {
		wantSense(c, keyIll, 0x2500, "unknown-lun")
	}
}

func capacity10(t *zzTarget) (uint64, uint64) {
	cdb := make([]byte, 16)
	cdb[0] = 0x25
	c := t.cmd(0, 0, cdb, false, 8, nil)
	t.run(c)
	zz.Assert(c.Result == stGood && c.InSDBBuffer.Resid == 8, "read-capacity-10")
	b := c.InSDBBuffer.Buffer
	return be(b[0:4]), be(b[4:8])
}

func capacity16(t *zzTarget) (uint64, uint64, []byte) {
	cdb := make([]byte, 16)
	cdb[0], cdb[1], cdb[13] = 0x9e, 0x10, 32
	c := t.cmd(0, 0, cdb, false, 32, nil)
	t.run(c)
	zz.Assert(c.Result == stGood && c.InSDBBuffer.Resid == 32, "read-capacity-16")
	b := c.InSDBBuffer.Buffer
	return be(b[0:8]), be(b[8:12]), b
}

func blockDescriptor(t *zzTarget, code byte) (uint64, uint64) {
	cdb := make([]byte, 16)
	cdb[0], cdb[2] = code, 0x3f
	at, bl := 4, 3
	if code == 0x1a {
		cdb[4] = 255
	} else {
		cdb[8] = 255
		at, bl = 8, 7
	}
	c := t.cmd(0, 0, cdb, false, 255, nil)
	t.run(c)
	zz.Assert(c.Result == stGood && int(c.InSDBBuffer.Resid) >= at+8, "mode-sense")
	b := c.InSDBBuffer.Buffer
	zz.Assert(b[bl] == 8, "block-descriptor-length")
	return be(b[at : at+4]), be(b[at+4 : at+8])
}

// checkCapacity compares every report of the capacity.
func checkCapacity(t *zzTarget, shift uint, size uint64) {
	blocks := size >> shift
	last, blen, raw := capacity16(t)
	zz.Assert(last == blocks-1, "capacity-16-last-lba")
	zz.Assert(blen == 1<<shift, "capacity-16-block-length")
	zz.Assert(raw[12]&0x0f == 0, "capacity-16-no-protection")
	last10, blen10 := capacity10(t)
	zz.Assert(last10 == zz.IteU64(last > 0xfffffffe, 0xffffffff, last), "capacity-10-last-lba")
	zz.Assert(blen10 == blen, "capacity-10-block-length")
	for _, code := range []byte{0x1a, 0x5a} {
		n, bl := blockDescriptor(t, code)
		zz.Assert(n == zz.IteU64(blocks > 0xfffffffe, 0xffffffff, blocks), "block-descriptor-blocks")
		zz.Assert(bl == blen, "block-descriptor-block-length")
	}
	// what can be accessed
	lba := zz.U64("lba")
	code := []byte{0x88, 0x8a, 0x28, 0x2a, 0xa8, 0xaa, 0x8f}[zz.Choose("access", 7)]
	cdb := make([]byte, 16)
	cdb[0] = code
	if code >= 0x88 && code < 0x90 {
		putBE(cdb[2:10], lba)
		cdb[13] = 1
	} else {
		zz.Assume(lba < 1<<32)
		putBE(cdb[2:6], lba)
		if code < 0x80 {
			cdb[8] = 1
		} else {
			cdb[9] = 1
		}
	}
	n := 1 << shift
	c := t.cmd(0, 0, cdb, code&0xf == 0xa, n, make([]byte, n))
	t.run(c)
	zz.Assert((c.Result == stGood) == (lba <= last), "accessible-up-to-last-lba")
	if zz.Branch(lba <= last) {
		zz.Cover("accessible")
	} else {
		zz.Cover("beyond")
	}
}

// ZZCapacity: all reports of the capacity agree, also after a resize.
//
//zz:prop C06
//zz:bound device size any value from one block to 2^63 bytes, resized once to any other such size or not; block sizes 512, 4096 and 8
//zz:need accessible beyond resized
//zz:opt conc=20
func ZZCapacity() {
	shift := []uint{9, 12, 3}[zz.Choose("shift", 3)]
	size := zz.U64("size")
	zz.Assume(zz.And(size < 1<<63, size >= 1<<shift))
	zzMedium = &zzStore{size: size}
	t := zzNewTarget(shift, false, 0)
	if zz.Choose("resize", 2) == 1 {
		zz.Cover("resized")
		size = zz.U64("newsize")
		zz.Assume(zz.And(size < 1<<63, size >= 1<<shift))
		zz.Assert(t.svc.Resize(size) == nil, "resize")
	}
	checkCapacity(t, shift, size)
}

// dataIn runs a data-in command with a buffer of n bytes preset to 0xaa.
func (t *zzTarget) dataIn(nexus int, lun uint64, cdb []byte, n int) (*api.SCSICommand, []byte) {
	c := t.cmd(nexus, lun, cdb, false, n, nil)
	b := c.InSDBBuffer.Buffer
	for i := range b {
		b[i] = 0xaa
	}
	t.run(c)
	if c.Result != stGood {
		return c, nil
	}
	zz.Assert(int(c.InSDBBuffer.Resid) <= n, "data-fits")
	return c, b[:c.InSDBBuffer.Resid]
}

func inquiry(vpd bool, page byte, alloc int) []byte {
	cdb := make([]byte, 16)
	cdb[0], cdb[2], cdb[3], cdb[4] = 0x12, page, byte(alloc>>8), byte(alloc)
	if vpd {
		cdb[1] = 1
	}
	return cdb
}

// ZZInquiry: standard INQUIRY data, the list of VPD pages and every page.
//
//zz:prop C04,C07
//zz:bound every page code, EVPD bit; three pairs of device ids; thin or not
//zz:need page nopage std serial
func ZZInquiry() {
	zzMedium = nil
	thin := zz.Choose("thin", 2) == 1
	ids := [][2]uint64{{1000, 1001}, {7, 1<<60 - 1}, {12, 120}}[zz.Choose("ids", 3)]
	id1, id2 := ids[0], ids[1]
	t := zzNewTarget(9, thin, 0, 1)
	t.tgt.Devices[0].UUID, t.tgt.Devices[1].UUID = id1, id2
	for _, d := range t.tgt.Devices {
		d.Size = 1 << 20
	}
	c, list := t.dataIn(0, 0, inquiry(true, 0, 255), 255)
	zz.Assert(c.Result == stGood, "page-list")
	zz.Assert(len(list) >= 5 && list[1] == 0 && int(be(list[2:4])) == len(list)-4, "page-list-header")
	for i := 5; i < len(list); i++ {
		zz.Assert(list[i-1] < list[i], "page-list-ascending")
	}
	page := zz.U8("page")
	if zz.Choose("evpd", 2) == 0 {
		zz.Cover("std")
		c, d := t.dataIn(0, 0, inquiry(false, page, 255), 255)
		if zz.Branch(page != 0) {
			wantSense(c, keyIll, 0x2400, "page-without-evpd")
			return
		}
		zz.Assert(c.Result == stGood, "standard-inquiry")
		zz.Assert(len(d) >= 36 && len(d) == 5+int(d[4]), "standard-inquiry-length")
		zz.Assert(d[0] == list[0], "same-peripheral-device-type")
		zz.Assert(d[0] == 0, "disk-connected")
		zz.Assert(d[3]&0x0f == 2, "response-data-format")
		zz.Assert(d[7]&0x02 != 0, "command-queuing")
		for i := 8; i < 36; i++ {
			zz.Assert(d[i] >= 0x20 && d[i] <= 0x7e, "identification-is-ascii")
		}
		return
	}
	c, d := t.dataIn(0, 0, inquiry(true, page, 255), 255)
	listed := false
	for _, p := range list[4:] {
		listed = zz.Or(listed, p == page)
	}
	zz.Assert((c.Result == stGood) == listed, "listed-pages-are-the-readable-pages")
	if c.Result != stGood {
		zz.Cover("nopage")
		wantSense(c, keyIll, 0x2400, "unknown-page")
		return
	}
	zz.Cover("page")
	zz.Assert(d[0] == list[0] && d[1] == page, "page-code")
	zz.Assert(len(d) == 4+int(be(d[2:4])), "page-length")
	if zz.Branch(page == 0x80) {
		zz.Cover("serial")
		_, e := t.dataIn(1, 1, inquiry(true, 0x80, 255), 255)
		zz.Assert(len(e) == len(d) && string(e) != string(d), "serial-number-differs-between-units")
		for _, x := range d[4:] {
			zz.Assert(x >= 0x20 && x <= 0x7e, "serial-number-is-ascii")
		}
	}
}

// ZZInquiryIDs: identification descriptors and provisioning pages.
//
//zz:prop C07
//zz:bound two device ids below 2^60 (symbolic), thin or not, both nexuses, three target port states
//zz:need naa
func ZZInquiryIDs() {
	zzMedium = nil
	thin := zz.Choose("thin", 2) == 1
	id1, id2 := zz.U64("id1"), zz.U64("id2")
	zz.Assume(zz.And(id1 != id2, id1 < 1<<60, id2 < 1<<60))
	t := zzNewTarget(9, thin, 0, 1)
	t.tgt.Devices[0].UUID, t.tgt.Devices[1].UUID = id1, id2
	t.tgt.TargetPortGroups[0].TargetPortGroup = append(t.tgt.TargetPortGroups[0].TargetPortGroup,
		&api.SCSITargetPort{RelativeTargetPortID: 2, TargetPortName: zzName + ",t,0x0002"})
	for _, d := range t.tgt.Devices {
		d.Size = 1 << 20
	}
	naa := func(nexus int, lun uint64, port uint16) []byte {
		c := t.cmd(nexus, lun, inquiry(true, 0x83, 255), false, 255, nil)
		c.RelTargetPortID = port
		t.run(c)
		zz.Assert(c.Result == stGood, "page-83")
		d := c.InSDBBuffer.Buffer[:c.InSDBBuffer.Resid]
		zz.Assert(len(d) == 4+int(be(d[2:4])), "page-83-length")
		var id []byte
		ports := 0
		for i := 4; i < len(d); {
			zz.Assert(i+4 <= len(d), "descriptor-header-inside")
			n := int(d[i+3])
			zz.Assert(i+4+n <= len(d), "descriptor-inside")
			assoc, typ, set := d[i+1]>>4&3, d[i+1]&0xf, d[i]&0xf
			v := d[i+4 : i+4+n]
			zz.Assert(set >= 1 && set <= 3, "code-set")
			zz.Assert(d[i+1]&0x80 == 0 || d[i]>>4 == 5, "protocol-iscsi")
			switch typ {
			case 3:
				zz.Assert(id == nil && assoc == 0 && set == 1 && n == 8, "naa-descriptor")
				zz.Assert(v[0]>>4 == 3, "naa-locally-assigned")
				id = v
			case 4:
				zz.Assert(n == 4 && set == 1 && be(v) == uint64(port), "relative-port-descriptor")
				ports++
			case 5:
				zz.Assert(n == 4 && set == 1 && be(v) == 0, "port-group-descriptor")
			case 8:
				zz.Assert(n%4 == 0 && set == 3, "name-descriptor")
				want := zzName + ",t,0x0001"
				if port == 2 {
					want = zzName + ",t,0x0002"
				}
				for len(v) > 0 && v[len(v)-1] == 0 {
					v = v[:len(v)-1]
				}
				zz.Assert(string(v) == want, "port-name")
			case 0, 1:
				zz.Assert(string(v) == zzName, "target-name")
			default:
				zz.Assert(false, "descriptor-type")
			}
			i += 4 + n
		}
		zz.Assert(id != nil && ports == 1, "descriptors-present")
		return id
	}
	a := naa(0, 0, 1)
	b := naa(0, 1, 1)
	a2 := naa(1, 0, 2)
	zz.Cover("naa")
	zz.Assert(!zz.EqBytes(a, b), "naa-differs-between-units")
	zz.Assert(zz.EqBytes(a, a2), "naa-same-over-every-path")

	_, _, rc := capacity16(t)
	lbpme := rc[14]&0x80 != 0
	_, b0 := t.dataIn(0, 0, inquiry(true, 0xb0, 255), 255)
	_, b2 := t.dataIn(0, 0, inquiry(true, 0xb2, 255), 255)
	zz.Assert(len(b0) == 64 && len(b2) >= 8, "provisioning-pages")
	zz.Assert(lbpme == thin && (b2[5]&0x80 != 0) == thin, "unmap-support-agrees")
	zz.Assert((be(b0[20:24]) != 0) == thin && (be(b0[24:28]) != 0) == thin, "unmap-limits-agree")
}

type modePage struct {
	code, sub byte
	raw       []byte
}

func modeSense(t *zzTarget, code, b1, b2, b3 byte) (*api.SCSICommand, []byte) {
	cdb := make([]byte, 16)
	cdb[0], cdb[1], cdb[2], cdb[3] = code, b1, b2, b3
	if code == 0x1a {
		cdb[4] = 255
	} else {
		cdb[8] = 255
	}
	return t.dataIn(0, 0, cdb, 255)
}

// modePages splits MODE SENSE data into its parts.
func modePages(code byte, dbd bool, d []byte) []modePage {
	at := 4
	if code == 0x1a {
		zz.Assert(len(d) >= 4, "mode-header")
		zz.Assert(int(d[0]) == len(d)-1, "mode-data-length")
		zz.Assert(d[1] == 0, "medium-type")
		zz.Assert(int(d[3]) == map[bool]int{true: 0, false: 8}[dbd], "block-descriptor-length")
		at += int(d[3])
	} else {
		at = 8
		zz.Assert(len(d) >= 8, "mode-header")
		zz.Assert(int(be(d[0:2])) == len(d)-2, "mode-data-length")
		zz.Assert(d[2] == 0 && d[4]&1 == 0, "medium-type")
		zz.Assert(int(be(d[6:8])) == map[bool]int{true: 0, false: 8}[dbd], "block-descriptor-length")
		at += int(be(d[6:8]))
	}
	var out []modePage
	for at < len(d) {
		zz.Assert(at+2 <= len(d), "page-header-inside")
		p := modePage{code: d[at] & 0x3f}
		n := 2 + int(d[at+1])
		if d[at]&0x40 != 0 {
			zz.Assert(at+4 <= len(d), "subpage-header-inside")
			p.sub = d[at+1]
			n = 4 + int(be(d[at+2:at+4]))
		}
		zz.Assert(at+n <= len(d), "page-inside")
		p.raw = d[at : at+n]
		out = append(out, p)
		at += n
	}
	return out
}

// ZZModeSense: every page that exists, as listed by the all-pages request.
//
//zz:prop C04,C08
//zz:bound both CDB sizes; every page code, subpage code, page control and DBD, every other CDB byte as for a long enough allocation length
//zz:need one none saved all
//zz:opt conc=20
func ZZModeSense() {
	code := []byte{0x1a, 0x5a}[zz.Choose("code", 2)]
	zzMedium = &zzStore{size: 1 << 20}
	t := zzNewTarget(9, false, 0)
	dbd := zz.Choose("dbd", 2) == 1
	pc := byte(zz.Choose("pc", 4))
	b1 := byte(0)
	if dbd {
		b1 = 8
	}
	if pc == 3 {
		zz.Cover("saved")
		c, _ := modeSense(t, code, b1, 0xc0|zz.U8("page")&0x3f, zz.U8("sub"))
		wantSense(c, keyIll, 0x3900, "saved-values")
		return
	}
	c, d := modeSense(t, code, b1, pc<<6|0x3f, 0)
	zz.Assert(c.Result == stGood, "all-pages")
	all := modePages(code, dbd, d)
	for i := range all {
		for j := range all[:i] {
			zz.Assert(all[i].code != all[j].code || all[i].sub != all[j].sub, "each-page-once")
		}
	}
	need := map[byte]bool{}
	for _, p := range all {
		need[p.code] = true
	}
	zz.Assert(need[8] && need[0x0a], "caching-and-control-page")
	zz.Cover("all")
	page, sub := zz.U8("page"), zz.U8("sub")
	zz.Assume(zz.And(page < 0x3f, sub != 0xff))
	c, d = modeSense(t, code, b1, pc<<6|page, sub)
	exists := false
	for _, p := range all {
		exists = zz.Or(exists, zz.And(p.code == page, p.sub == sub))
	}
	zz.Assert((c.Result == stGood) == exists, "pages-of-the-list-are-the-pages-that-exist")
	if c.Result != stGood {
		zz.Cover("none")
		wantSense(c, keyIll, 0x2400, "unknown-page")
		return
	}
	zz.Cover("one")
	one := modePages(code, dbd, d)
	zz.Assert(len(one) == 1, "one-page")
	zz.Assert(one[0].code == page && one[0].sub == sub, "the-page-asked-for")
	for _, p := range all {
		if zz.Branch(zz.And(p.code == page, p.sub == sub)) {
			zz.Assert(string(p.raw) == string(one[0].raw), "same-contents-as-in-the-list")
		}
	}
	// current values are the values the other CDB size reports
	c, e := modeSense(t, code^0x40, b1, pc<<6|page, sub)
	zz.Assert(c.Result == stGood, "other-size")
	two := modePages(code^0x40, dbd, e)
	zz.Assert(len(two) == 1 && string(two[0].raw) == string(one[0].raw), "same-contents-in-both-sizes")
	zz.Assert(d[map[byte]int{0x1a: 2, 0x5a: 3}[code]] == 0x10, "device-specific-parameter")
}

// ZZReportLuns: the list is the set of mapped LUNs and LUN 0.
//
//zz:prop C09,C30
//zz:bound any two different LUN numbers below 16384, or one; map iteration in any order
//zz:need two zero
func ZZReportLuns() {
	zzMedium = &zzStore{size: 1 << 20}
	var t *zzTarget
	l1, l2 := zz.U64("l1"), zz.U64("l2")
	zz.Assume(zz.And(l1 < 1<<14, l2 < 1<<14))
	n := 1 + zz.Choose("n", 2)
	luns := []uint64{l1}
	if n == 2 {
		zz.Assume(l1 != l2)
		luns = append(luns, l2)
		zz.Cover("two")
	}
	t = zzNewTarget(9, false, luns...)
	zz.MapOrder(true)
	cdb := make([]byte, 16)
	cdb[0], cdb[8] = 0xa0, 1
	_, d := t.dataIn(0, 0, cdb, 256)
	zz.MapOrder(false)
	zz.Assert(len(d) >= 16 && int(be(d[0:4])) == len(d)-8 && len(d)%8 == 0, "list-length")
	zero := false
	for _, l := range luns {
		zero = zz.Or(zero, l == 0)
	}
	want := n + 1
	if zz.Branch(zero) {
		want = n
		zz.Cover("zero")
	}
	zz.Assert(len(d) == 8+8*want, "number-of-luns")
	enc := func(l uint64) uint64 { return zz.IteU64(l < 256, l<<48, (0x4000|l)<<48) }
	find := func(v uint64) {
		f := false
		for i := 8; i < len(d); i += 8 {
			f = zz.Or(f, be(d[i:i+8]) == v)
		}
		zz.Assert(f, "lun-listed")
	}
	find(0)
	for _, l := range luns {
		find(enc(l))
	}
}

// ZZAllocLen: parameter data under any allocation length.
//
//zz:prop C10
//zz:bound every command that returns parameter data; every allocation length its CDB can hold; expected data length of 300 or 5 bytes (for the list of operation codes: 1500 or 5, and, if not thorough, allocation lengths below 120 or no more than 19 short of the list); parameter data up to 254 bytes (1454); up to two registrations
//zz:need cut whole refused
//zz:opt conc=1510
func ZZAllocLen() { allocLen(0, 19) }

// ZZAllocInquiry: INQUIRY data under any allocation length.
//
//zz:prop C07
//zz:bound standard data and every page; every allocation length; expected data length of 300 or 5 bytes
//zz:need cut whole
//zz:opt conc=310
func ZZAllocInquiry() { allocLen(0, 6) }

// ZZAllocMode: mode data under any allocation length.
//
//zz:prop C08
//zz:bound both CDB sizes, all pages and one; every allocation length; expected data length of 300 or 5 bytes
//zz:need cut whole
//zz:opt conc=310
func ZZAllocMode() { allocLen(6, 11) }

// ZZAllocCapacity: READ CAPACITY(16) data under any allocation length.
//
//zz:prop C06
//zz:bound every allocation length; expected data length of 300 or 5 bytes
//zz:need cut whole
//zz:opt conc=310
func ZZAllocCapacity() { allocLen(12, 13) }

// ZZAllocLuns: the LUN list under any allocation length.
//
//zz:prop C09
//zz:bound every allocation length; expected data length of 300 or 5 bytes
//zz:need refused whole
//zz:opt conc=310
func ZZAllocLuns() { allocLen(13, 14) }

// ZZAllocReservations: the data of PERSISTENT RESERVE IN under any allocation length.
//
//zz:prop C11
//zz:bound every allocation length; expected data length of 300 or 5 bytes; three states of registration
//zz:need cut whole
//zz:opt conc=310
func ZZAllocReservations() { allocLen(16, 19) }

// allocLen goes over the commands from one to another.
func allocLen(from, to int) {
	cmds := []struct {
		cdb      []byte
		at, n    int
		min      int
		optional bool
	}{
		{cdb: []byte{0x12}, at: 3, n: 2},
		{cdb: []byte{0x12, 1, 0x00}, at: 3, n: 2},
		{cdb: []byte{0x12, 1, 0x80}, at: 3, n: 2},
		{cdb: []byte{0x12, 1, 0x83}, at: 3, n: 2},
		{cdb: []byte{0x12, 1, 0xb0}, at: 3, n: 2},
		{cdb: []byte{0x12, 1, 0xb2}, at: 3, n: 2},
		{cdb: []byte{0x1a, 0, 0x3f}, at: 4, n: 1},
		{cdb: []byte{0x1a, 8, 0x08}, at: 4, n: 1},
		{cdb: []byte{0x5a, 0, 0x3f}, at: 7, n: 2},
		{cdb: []byte{0x5a, 8, 0x0a}, at: 7, n: 2},
		{cdb: []byte{0x5a, 0, 0x4a, 1}, at: 7, n: 2},
		{cdb: []byte{0x03}, at: 4, n: 1},
		{cdb: []byte{0x9e, 0x10}, at: 10, n: 4},
		{cdb: []byte{0xa0}, at: 6, n: 4, min: 16},
		{cdb: []byte{0xa3, 0x0c}, at: 6, n: 4},
		{cdb: []byte{0xa3, 0x0c, 0x80}, at: 6, n: 4},
		{cdb: []byte{0x5e, 0}, at: 7, n: 2, min: 8},
		{cdb: []byte{0x5e, 1}, at: 7, n: 2, min: 8},
		{cdb: []byte{0x5e, 2}, at: 7, n: 2, min: 8},
	}
	k := from + zz.Choose("cmd", to-from)
	m := cmds[k]
	zzMedium = &zzStore{size: 1 << 20}
	t := zzNewTarget(9, false, 0)
	if m.cdb[0] == 0x5e {
		t.prepare([]int{0, 2, 3}[zz.Choose("state", 3)])
	}
	full := make([]byte, 16)
	copy(full, m.cdb)
	for i := 0; i < m.n; i++ {
		full[m.at+i] = 0
	}
	most := 300
	if m.cdb[0] == 0xa3 {
		most = 1500
	}
	if m.n == 1 {
		full[m.at] = 255
	} else {
		full[m.at+m.n-2], full[m.at+m.n-1] = byte(most>>8), byte(most)
	}
	c, whole := t.dataIn(0, 0, full, most)
	zz.Assert(c.Result == stGood && len(whole) > 0 && len(whole) < most-45, "whole")
	whole = append([]byte{}, whole...)

	cdb := append([]byte{}, full...)
	a := zz.Bytes("alloc", m.n)
	copy(cdb[m.at:], a)
	alloc := be(a)
	if most > 1000 && !zz.Thorough() {
		zz.Assume(zz.Or(alloc < 120, alloc > uint64(len(whole)-20)))
	}
	n := []int{most, 5}[zz.Choose("n", 2)]
	c = t.cmd(0, 0, cdb, false, n, nil)
	buf := c.InSDBBuffer.Buffer
	for i := range buf {
		buf[i] = 0xaa
	}
	t.run(c)
	if m.min > 0 && zz.Branch(alloc < uint64(m.min)) {
		if c.Result != stGood { // a length too short for the header may be refused
			zz.Cover("refused")
			wantSense(c, keyIll, 0x2400, "short-allocation-length")
			return
		}
	}
	zz.Assert(c.Result == stGood, "same-status")
	want := len(whole)
	if zz.Branch(alloc < uint64(want)) {
		want = int(zz.Concrete(alloc))
		zz.Cover("cut")
	} else {
		zz.Cover("whole")
	}
	zz.Assert(int(c.InSDBBuffer.Resid) == want, "length-returned")
	if want > n {
		want = n
	}
	zz.Assert(zz.EqBytes(buf[:want], whole[:want]), "prefix-of-the-whole-data")
	for i := want; i < len(buf); i++ {
		zz.Assert(buf[i] == 0xaa, "nothing-beyond-the-allocation-length")
	}
}

// ZZLunMap: mappings of devices to LUNs over a history of changes.
//
//zz:prop C09,C30
//zz:bound histories of 3 (thorough 4) operations on two devices and two targets, one of them with a unit: add or remove a mapping of any LUN of either target to a device with any of 100 ids, add or remove a device with any of 100 ids; then any LUN of either is looked up
//zz:need mapped refused removed replaced duplicate missing reread
func ZZLunMap() {
	zzMedium = nil
	type mapping struct {
		target int
		lun    uint64
		st     *zzStore
	}
	type device struct {
		id uint64
		st *zzStore
	}
	t := zzNewTarget(9, false)
	names := []string{"iqn.a", "iqn.b"}
	var tgts []*api.SCSITarget
	var maps []mapping
	// what was added last comes first
	var devs []device
	for i := 0; i < 2; i++ {
		lastStore = nil
		addDevice(uint64(2000 + i))
		devs = append(devs, device{uint64(2000 + i), lastStore})
	}
	zz.Assert(scsi.AddLUNMapping(scsi.LUNMapping{TargetName: names[1], LUN: 1, DeviceID: 2001}) == nil, "setup-mapping")
	maps = append(maps, mapping{1, 1, devs[1].st})
	for i, n := range names {
		tgt, err := t.svc.NewSCSITarget(i+1, "iscsi", n)
		zz.Assert(err == nil, "setup-target")
		tgts = append(tgts, tgt)
	}
	steps := 3
	if zz.Thorough() {
		steps = 4
	}
	exists := func(id uint64) (int, bool) {
		for i := range devs {
			if zz.Branch(devs[i].id == id) {
				return i, true
			}
		}
		return 0, false
	}
	for s := 0; s < steps; s++ {
		do := zz.Choose("do", 4)
		id := uint64(2000)
		if do != 1 {
			d := zz.U8("dev")
			zz.Assume(d < 100)
			id = 2000 + uint64(d)
		}
		at, lun := 0, uint64(0)
		if do < 2 {
			at, lun = zz.Choose("target", 2), zz.U64("lun")
		}
		switch do {
		case 0:
			err := scsi.AddLUNMapping(scsi.LUNMapping{TargetName: names[at], LUN: lun, DeviceID: id})
			k, ok := exists(id)
			zz.Assert((err == nil) == ok, "mapping-is-accepted-exactly-if-its-device-exists")
			if !ok {
				zz.Cover("refused")
				break
			}
			zz.Cover("mapped")
			fresh := true
			for j := range maps {
				if maps[j].target == at && zz.Branch(maps[j].lun == lun) {
					maps[j].st = devs[k].st
					fresh = false
					zz.Cover("replaced")
					break
				}
			}
			if fresh {
				maps = append(maps, mapping{at, lun, devs[k].st})
			}
		case 1:
			scsi.DelLUNMapping(scsi.LUNMapping{TargetName: names[at], LUN: lun, DeviceID: id})
			for j := range maps {
				if maps[j].target == at && zz.Branch(maps[j].lun == lun) {
					maps = append(append([]mapping{}, maps[:j]...), maps[j+1:]...)
					zz.Cover("removed")
					break
				}
			}
		case 2:
			st := &zzStore{size: 1 << 20}
			scsi.RegisterBackingStore("zz", func() (api.BackingStore, error) { return st, nil })
			err := scsi.AddBackendStorage(config.BackendStorage{DeviceID: id, Path: "zz:dev", Online: true, BlockShift: 9})
			_, dup := exists(id)
			zz.Assert((err == nil) == !dup, "device-is-accepted-exactly-if-its-id-is-new")
			if dup {
				zz.Cover("duplicate")
			} else {
				devs = append(devs, device{id, st})
			}
		case 3:
			scsi.DelBackendStorage(id)
			if k, ok := exists(id); ok {
				devs = append(append([]device{}, devs[:k]...), devs[k+1:]...)
			} else {
				zz.Cover("missing")
			}
		}
	}
	t.svc.RereadTargetLUNMap()
	zz.Cover("reread")
	at, probe := zz.Choose("probe-target", 2), zz.U64("probe")
	var want *zzStore
	found, count := false, 0
	for _, m := range maps {
		if m.target != at {
			continue
		}
		count++
		if zz.Branch(m.lun == probe) {
			want, found = m.st, true
		}
	}
	m := scsi.GetTargetLUNMap(names[at])
	lu := scsi.GetLU(names[at], probe)
	zz.Assert((lu != nil) == found, "lun-is-there-exactly-if-it-is-mapped")
	zz.Assert(len(m) == count, "number-of-mapped-luns")
	if found && lu != nil && want != nil {
		zz.Assert(lu.Storage == api.BackingStore(want), "lun-serves-its-device")
	}
	zz.Assert(m[probe] == lu, "lookup")
	zz.Assert(tgts[at].Devices[probe] == lu && len(tgts[at].Devices) == count, "targets-see-the-mapping-once-reread")
}

// lunNumber is the number that a text stands for, if it is one.
func lunNumber(b []byte) (uint64, bool) {
	ok := len(b) > 0
	var v uint64
	for _, x := range b {
		ok = zz.And(ok, x >= '0', x <= '9')
		v = v*10 + uint64(x) - '0'
	}
	return v, ok
}

// ZZConfigMap: a whole configuration is mapped as it is written.
//
//zz:prop C09,C30
//zz:bound configurations of two devices (the second with any of 3 ids) and two targets, the first with one or two LUNs, the second with one; the texts of two of the LUN numbers of 1, 2 or 3 (thorough 4) characters that are any bytes; each LUN with any of 3 device ids, one of which does not exist
//zz:need mapped refused duplicate-device not-a-number missing-device leading-zero
func ZZConfigMap() {
	zzMedium = nil
	var stores []*zzStore
	scsi.RegisterBackingStore("zz", func() (api.BackingStore, error) {
		s := &zzStore{size: 1 << 20}
		stores = append(stores, s)
		return s, nil
	})
	second := uint64(3000 + zz.Choose("second", 2))
	cfg := &config.Config{
		Storages: []config.BackendStorage{
			{DeviceID: 3000, Path: "zz:a", Online: true, BlockShift: 9},
			{DeviceID: second, Path: "zz:b", Online: true, BlockShift: 9},
		},
		ISCSITargets: map[string]config.ISCSITarget{},
	}
	type lun struct {
		target string
		num    uint64
		number bool
		dev    uint64
	}
	longest := 3
	if zz.Thorough() {
		longest = 4
	}
	n := 1 + zz.Choose("len", longest)
	text := zz.Bytes("text", n)
	num, number := lunNumber(text)
	luns := []lun{{"iqn.a", num, number, uint64(3000 + zz.Choose("dev", 3))}}
	a := config.ISCSITarget{LUNs: map[string]uint64{string(text): luns[0].dev}}
	if zz.Choose("more", 2) == 1 {
		// not the LUN that is there already
		zz.Assume(zz.Implies(number, num != 7))
		a.LUNs["7"] = 3000
		luns = append(luns, lun{"iqn.a", 7, true, 3000})
	}
	cfg.ISCSITargets["iqn.a"] = a
	if zz.Choose("other", 2) == 1 {
		text := zz.Bytes("text2", 1)
		num, number := lunNumber(text)
		luns = append(luns, lun{"iqn.b", num, number, 3000})
		cfg.ISCSITargets["iqn.b"] = config.ISCSITarget{LUNs: map[string]uint64{string(text): 3000}}
	}
	err := scsi.InitSCSILUMap(cfg)
	good := second != 3000
	if !good {
		zz.Cover("duplicate-device")
	}
	for i, l := range luns {
		if i == 0 && zz.Branch(zz.And(l.number, text[0] == '0', n > 1)) {
			zz.Cover("leading-zero")
		}
		if !zz.Branch(l.number) {
			zz.Cover("not-a-number")
			good = false
		}
		if l.dev != 3000 && l.dev != second {
			zz.Cover("missing-device")
			good = false
		}
	}
	zz.Assert((err == nil) == good, "configuration-is-accepted-exactly-if-it-is-good")
	count := 0
	for _, name := range []string{"iqn.a", "iqn.b"} {
		for num, lu := range scsi.GetTargetLUNMap(name) {
			count++
			ok := false
			for _, l := range luns {
				if l.target == name && len(stores) == 2 && (l.dev == 3000 || l.dev == second) {
					ok = zz.Or(ok, zz.And(l.number, l.num == num, lu != nil && lu.Storage == api.BackingStore(stores[l.dev-3000])))
				}
			}
			zz.Assert(ok, "a-mapped-lun-is-a-configured-one")
		}
	}
	if good {
		zz.Cover("mapped")
		zz.Assert(count == len(luns), "every-configured-lun-is-mapped")
	} else {
		zz.Cover("refused")
	}
}
