package zziscsi

import (
	zz "github.com/gostor/gotgt/pkg/zzsym"
)

// number makes the text of a number out of symbolic digits, and its value.
// plain tells that it is written the usual way.
func number(name string, n int, hex bool) (s string, v uint64, plain bool) {
	d := zz.Bytes(name, n)
	b := make([]byte, n)
	for i := range b {
		x := d[i]
		if hex {
			zz.Assume(zz.Or(zz.And(x >= '0', x <= '9'), zz.Or(zz.And(x >= 'a', x <= 'f'), zz.And(x >= 'A', x <= 'F'))))
			low := uint64(x) - '0'
			low = zz.IteU64(x >= 'a', uint64(x)-'a'+10, zz.IteU64(zz.And(x >= 'A', x <= 'F'), uint64(x)-'A'+10, low))
			v = v<<4 | low
		} else {
			zz.Assume(zz.And(x >= '0', x <= '9'))
			v = v*10 + uint64(x) - '0'
		}
		b[i] = x
	}
	plain = zz.Or(n == 1, b[0] != '0')
	s = string(b)
	if hex {
		s = "0x" + s
	}
	return s, v, plain
}

// value reads a decimal number.
func value(s string, id string) uint64 {
	var v uint64
	zz.Assert(len(s) > 0 && len(s) <= 10, id)
	for i := 0; i < len(s); i++ {
		zz.Assert(zz.And(s[i] >= '0', s[i] <= '9'), id)
		v = v*10 + uint64(s[i]) - '0'
	}
	return v
}

type numKey struct {
	name          string
	min, max, def uint64
	larger        bool // the result is the larger of the values
}

var numKeys = []numKey{
	{"MaxBurstLength", 512, 16777215, 262144, false},
	{"FirstBurstLength", 512, 16777215, 65536, false},
	{"MaxOutstandingR2T", 1, 65535, 1, false},
	{"DefaultTime2Wait", 0, 3600, 2, true},
	{"DefaultTime2Retain", 0, 3600, 20, false},
	{"ErrorRecoveryLevel", 0, 2, 0, false},
	{"MaxConnections", 1, 65535, 1, false},
}

type boolKey struct {
	name string
	or   bool
	def  bool
}

var boolKeys = []boolKey{
	{"InitialR2T", true, true},
	{"ImmediateData", false, true},
	{"DataPDUInOrder", true, true},
	{"DataSequenceInOrder", true, true},
	{"IFMarker", false, false},
	{"OFMarker", false, false},
	{"RDMAExtensions", false, false},
}

// offer logs in with one more key, in one of three ways: in the first request,
// in the second operational one, or after the security stage. It returns the
// items of the responses, and whether the login has been accepted.
func (c *ini) offer(way int, names []string, kv ...string) ([]string, bool) {
	var all []string
	req := func(flags byte, kv ...string) bool {
		c.send(loginPDU(c, flags, 1, 0, 1, text(kv...)))
		got := c.pdus()
		if c.closed {
			c.refused(got)
			return false
		}
		zz.Assert(len(got) == 1 && got[0].op() == 0x23 && got[0].h[36] == 0, "login-answered")
		layout(got[0])
		c.stat = got[0].statSN() + 1
		c.tsih = uint16(be(got[0].h[14:16]))
		all = append(all, items(got[0].data)...)
		return true
	}
	switch way {
	case 0:
		if !req(0x87, append(append([]string{}, names...), kv...)...) {
			return all, false
		}
	case 1:
		if !req(0x04, names...) || !req(0x87, kv...) {
			return all, false
		}
	case 2:
		if !req(0x81, append(append([]string{}, names...), "AuthMethod=None")...) || !req(0x87, kv...) {
			return all, false
		}
		zz.Assert(count(all, "AuthMethod=") == 1 && find(all, "AuthMethod=") == "None", "auth-method")
	}
	if names[1] == "SessionType=Normal" {
		zz.Assert(count(all, "TargetPortalGroupTag=") == 1, "group-tag-declared")
		zz.Assert(find(all, "TargetPortalGroupTag=") == "1", "group-tag")
	}
	zz.Assert(count(all, "MaxRecvDataSegmentLength=") == 1, "segment-length-declared")
	return all, true
}

func normalNames() []string {
	return []string{"InitiatorName=" + iniName, "SessionType=Normal", "TargetName=" + tgtName}
}

// answers are the items but those the target declares itself.
func answers(all []string) []string {
	var out []string
	for _, s := range all {
		if count([]string{s}, "TargetPortalGroupTag=")+count([]string{s}, "MaxRecvDataSegmentLength=")+count([]string{s}, "AuthMethod=")+count([]string{s}, "TargetAlias=") == 0 {
			out = append(out, s)
		}
	}
	return out
}

// ZZNegoNumber offers a numeric key.
//
//zz:prop C25
//zz:bound one numeric key with every value of up to 5 and of 8 to 10 decimal or 1 to 6 hexadecimal digits (thorough: any up to 10), and what is no number of 2 bytes; in each kind of login
//zz:need agreed rejected
func ZZNegoNumber() {
	r, _ := oneTarget(2)
	c := r.dial()
	k := numKeys[zz.Choose("key", len(numKeys))]
	way := zz.Choose("way", 3)
	var s string
	var v uint64
	bad := false
	plain := true
	switch zz.Choose("form", 3) {
	case 0:
		lens := []int{1, 2, 3, 4, 5, 8, 10}
		if zz.Thorough() {
			lens = []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10}
		}
		s, v, plain = number("d", lens[zz.Choose("len", len(lens))], false)
	case 1:
		s, v, plain = number("x", 1+zz.Choose("len", 6), true)
	case 2:
		b := zz.Bytes("b", 2)
		zz.Assume(zz.And(b[0] != 0, b[1] != 0))
		digit := func(x byte) bool { return zz.And(x >= '0', x <= '9') }
		zz.Assume(!zz.And(digit(b[0]), digit(b[1])))
		s = string(b)
		bad = true
	}
	all, ok := c.offer(way, normalNames(), k.name+"="+s)
	if !ok {
		// only a wrong offer may end the login
		zz.Assert(zz.Or(zz.Or(bad, !plain), zz.Or(v < k.min, v > k.max)), "right-offer-accepted")
		return
	}
	got := answers(all)
	zz.Assert(len(got) == 1 && count(got, k.name+"=") == 1, "answered-once")
	if len(got) != 1 {
		return
	}
	a := find(got, k.name+"=")
	if a == "Reject" {
		zz.Cover("rejected")
		zz.Assert(zz.Or(zz.Or(bad, !plain), zz.Or(v < k.min, v > k.max)), "reject-only-what-is-wrong")
		return
	}
	zz.Cover("agreed")
	zz.Assert(!bad, "no-number-refused")
	zz.Assert(zz.And(v >= k.min, v <= k.max), "out-of-range-refused")
	w := value(a, "number")
	// the result is the limit both can live with: that of the initiator, or a better one of the target
	if k.larger {
		zz.Assert(w >= v, "result-at-least-the-offer")
	} else {
		zz.Assert(w <= v, "result-at-most-the-offer")
	}
	zz.Assert(zz.And(w >= k.min, w <= k.max), "result-in-range")
	own := k.def
	if k.larger {
		zz.Assert(w == zz.IteU64(v > own, v, own), "maximum")
	} else {
		zz.Assert(w == zz.IteU64(v < own, v, own), "minimum")
	}
}

// ZZNegoBool offers a boolean key.
//
//zz:prop C25
//zz:bound one boolean key with Yes, No and any other value of 2 and 3 ASCII characters; in each kind of login
func ZZNegoBool() {
	r, _ := oneTarget(2)
	c := r.dial()
	k := boolKeys[zz.Choose("key", len(boolKeys))]
	way := zz.Choose("way", 3)
	n := 2 + zz.Choose("len", 2)
	b := zz.Bytes("v", n)
	for i := range b {
		zz.Assume(zz.And(b[i] != 0, b[i] < 0x80))
	}
	s := string(b)
	all, ok := c.offer(way, normalNames(), k.name+"="+s)
	yes, no := zz.Branch(s == "Yes"), zz.Branch(s == "No")
	if !ok {
		zz.Assert(!yes && !no, "right-offer-accepted")
		return
	}
	got := answers(all)
	zz.Assert(len(got) == 1 && count(got, k.name+"=") == 1, "answered-once")
	if len(got) != 1 {
		return
	}
	a := find(got, k.name+"=")
	if !yes && !no {
		low := func(x byte) byte { return byte(zz.IteU64(zz.And(x >= 'A', x <= 'Z'), uint64(x)+32, uint64(x))) }
		same := func(w string) bool {
			if len(w) != len(s) {
				return false
			}
			eq := true
			for i := 0; i < len(w); i++ {
				eq = zz.And(eq, low(s[i]) == w[i])
			}
			return eq
		}
		zz.Assert(zz.Or(a == "Reject", zz.Or(same("yes"), same("no"))), "malformed-refused")
		return
	}
	want := k.def && yes
	if k.or {
		want = k.def || yes
	}
	if want {
		zz.Assert(a == "Yes", "yes")
	} else {
		// a key that is obsolete may be refused as well
		zz.Assert(a == "No", "no")
	}
}

// ZZNegoOther offers digests, declarations and keys the target doesn't know.
//
//zz:prop C25
//zz:bound lists of digests; the declarative keys; a key of 4 arbitrary letters; in each kind of login and both kinds of session; up to 2 of them at once
func ZZNegoOther() {
	zz.MapOrder(true)
	r, _ := oneTarget(2)
	c := r.dial()
	way := zz.Choose("way", 3)
	names := normalNames()
	if zz.Choose("discovery", 2) == 1 {
		names = []string{"InitiatorName=" + iniName, "SessionType=Discovery"}
	}
	var kv []string
	type want struct{ key, a, b string }
	var wants []want
	lists := []string{"None", "CRC32C", "CRC32C,None", "None,CRC32C", "zz", "zz,None"}
	switch zz.Choose("digest", 3) {
	case 1, 2:
		k := "HeaderDigest"
		if zz.Choose("which", 2) == 1 {
			k = "DataDigest"
		}
		l := lists[zz.Choose("list", len(lists))]
		kv = append(kv, k+"="+l)
		if l == "CRC32C" || l == "zz" {
			wants = append(wants, want{k, "Reject", "Reject"})
		} else {
			wants = append(wants, want{k, "None", "None"})
		}
	}
	switch zz.Choose("other", 3) {
	case 1:
		kv = append(kv, "InitiatorAlias=zz")
	case 2:
		b := zz.Bytes("key", 4)
		for i := range b {
			zz.Assume(zz.And(b[i] >= 'A', b[i] <= 'Z'))
		}
		kv = append(kv, "X-"+string(b)+"=1")
		wants = append(wants, want{"X-" + string(b), "NotUnderstood", "NotUnderstood"})
	}
	all, ok := c.offer(way, names, kv...)
	zz.Assert(ok, "accepted")
	if !ok {
		return
	}
	got := answers(all)
	zz.Assert(len(got) == len(wants), "as-many-answers")
	for _, w := range wants {
		n := 0
		for _, s := range got {
			if s == w.key+"="+w.a || s == w.key+"="+w.b {
				n++
			}
		}
		zz.Assert(n == 1, "answer")
	}
	// and the session works
	c.send(c.bhs(0x40, 0x80, 0))
	p := c.one("works")
	if names[1] == "SessionType=Normal" {
		zz.Assert(p.op() == 0x20, "works")
	}
}

// ZZSegmentLength declares the length of data segments the initiator takes, and reads.
//
//zz:prop C25,C20
//zz:bound every MaxRecvDataSegmentLength of 3 to 8 digits (a read of 2 KiB with each that is a multiple of 256)
//zz:need short whole refused
func ZZSegmentLength() {
	r, _ := oneTarget(4)
	c := r.dial()
	s, v, plain := number("d", 3+zz.Choose("len", 6), false)
	zz.Assume(plain)
	_, ok := c.offer(zz.Choose("way", 3), normalNames(), "MaxRecvDataSegmentLength="+s)
	if !ok {
		zz.Cover("refused")
		zz.Assert(zz.Or(v < 512, v > 16777215), "right-length-accepted")
		return
	}
	zz.Assert(zz.And(v >= 512, v <= 16777215), "wrong-length-refused")
	zz.Assume(v%256 == 0)
	c.send(c.scsi(0xc1, 0, 4*blk, rw10(0x28, 0, 4), nil))
	off := uint64(0)
	for i, p := range c.pdus() {
		zz.Assert(p.op() == 0x25, "data-in")
		zz.Assert(uint64(len(p.data)) <= v, "segment-fits")
		zz.Assert(uint64(p.w(40)) == off, "offset")
		zz.Assert(p.w(36) == uint32(i), "data-sn")
		off += uint64(len(p.data))
	}
	zz.Assert(off == 4*blk, "all-data")
	if zz.Branch(v < 4*blk) {
		zz.Cover("short")
	} else {
		zz.Cover("whole")
	}
}

// ZZBurst agrees on a burst length, and writes with R2T.
//
//zz:prop C25,C21,C23
//zz:bound every MaxBurstLength of 3 to 5 digits that is a multiple of 128 agreed on in each kind of login, a write of 2 KiB with any immediate part
//zz:need one several
func ZZBurst() {
	r, st := oneTarget(4)
	c := r.dial()
	s, v, plain := number("d", 3+zz.Choose("len", 3), false)
	zz.Assume(plain)
	zz.Assume(zz.And(v >= 512, v%128 == 0))
	immediate := zz.Choose("immediate", 2) == 1
	keys := []string{"MaxBurstLength=" + s, "FirstBurstLength=512"}
	if !immediate {
		keys = append(keys, "ImmediateData=No")
	}
	all, ok := c.offer(zz.Choose("way", 3), normalNames(), keys...)
	zz.Assert(ok, "accepted")
	if !immediate {
		zz.Assert(find(all, "ImmediateData=") == "No", "no-immediate-data")
	}
	first := 0
	if immediate {
		first = 256 * zz.Choose("first", 3)
	}
	data := zz.Bytes("data", 4*blk)
	c.send(c.scsi(0xa1, 0, 4*blk, rw10(0x2a, 0, 4), data[:first]))
	itt := c.itt
	off := uint64(first)
	for i := 0; off < 4*blk; i++ {
		zz.Assert(len(st.writes) == 0, "not-yet")
		p := c.one("r2t")
		zz.Assert(p.op() == 0x31, "r2t")
		zz.Assert(uint64(p.w(40)) == off, "r2t-offset")
		zz.Assert(p.w(36) == uint32(i), "r2t-sn")
		want := uint64(p.w(44))
		zz.Assert(zz.And(want > 0, want <= v), "r2t-fits-the-burst")
		zz.Assert(off+want <= 4*blk, "r2t-inside")
		n := zz.Concrete(want)
		if i > 0 {
			zz.Cover("several")
		} else if off+n == 4*blk {
			zz.Cover("one")
		}
		h := c.bhs(0x05, 0x80, int(n))
		putBE(h[16:20], uint64(itt))
		copy(h[20:24], p.h[20:24])
		putBE(h[40:44], off)
		c.send(append(h, pad(append([]byte{}, data[off:off+n]...))...))
		off += n
	}
	p := c.one("status")
	zz.Assert(zz.And(p.op() == 0x21, p.h[3] == 0), "good")
	zz.Assert(zz.EqBytes(st.mem, data), "data")
}

// ZZNoImmediate sends immediate data in a session which has agreed on none.
//
//zz:prop C25
//zz:bound ImmediateData offered as Yes or No in each kind of login; a write with immediate data
func ZZNoImmediate() {
	r, st := oneTarget(2)
	c := r.dial()
	no := zz.Choose("no", 2) == 1
	kv := []string{"ImmediateData=Yes"}
	if no {
		kv = []string{"ImmediateData=No"}
	}
	_, ok := c.offer(zz.Choose("way", 3), normalNames(), kv...)
	zz.Assert(ok, "accepted")
	c.send(c.scsi(0xa1, 0, blk, rw10(0x2a, 0, 1), make([]byte, blk)))
	got := c.pdus()
	if no {
		zz.Assert(len(st.writes) == 0, "no-immediate-data")
		return
	}
	zz.Assert(len(st.writes) == 1 && len(got) == 1 && got[0].op() == 0x21, "immediate-data")
}
