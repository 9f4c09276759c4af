package util

import (
	zz "github.com/gostor/gotgt/pkg/zzsym"
)

// zzText is a text of exactly n bytes with no NUL and, if key, no '='.
func zzText(name string, n int, key bool) string {
	b := zz.Bytes(name, n)
	for _, c := range b {
		zz.Assume(c != 0)
		if key {
			zz.Assume(c != '=')
		}
	}
	return string(b)
}

// ZZKVRoundTrip: what is marshalled is what is parsed.
//
//zz:prop C17
//zz:bound two pairs, keys 1..3 bytes, values 0..3 bytes, all byte values
//zz:need two
func ZZKVRoundTrip() {
	n := zz.Choose("pairs", 3)
	var kvs []KeyValue
	for i := 0; i < n; i++ {
		k := zzText("k", 1+zz.Choose("klen", 3), true)
		v := zzText("v", zz.Choose("vlen", 4), false)
		kvs = append(kvs, KeyValue{k, v})
	}
	if n == 2 {
		zz.Assume(!zz.EqBytes([]byte(kvs[0].Key), []byte(kvs[1].Key)))
		zz.Cover("two")
	}
	m := ParseKVText(MarshalKVText(kvs))
	zz.Assert(len(m) == n, "parsed-pair-count")
	for _, kv := range kvs {
		got, ok := m[kv.Key]
		zz.Assert(ok, "key-kept")
		zz.Assert(zz.EqBytes([]byte(got), []byte(kv.Value)), "value-kept")
	}
	zz.Observe("n", len(m))
}

// ZZKVAnyText: any bytes at all are parsed to the items they hold.
//
//zz:prop C17
//zz:bound texts of 0..8 (thorough 10) bytes, all byte values, what follows the last NUL without "="
//zz:need item keyless no-separator twice
//zz:opt conc=300
func ZZKVAnyText() {
	longest := 8
	if zz.Thorough() {
		longest = 10
	}
	b := zz.Bytes("text", zz.Choose("len", longest+1))
	type item struct{ key, value string }
	var items []item
	start, sep := 0, -1
	for i, c := range b {
		if zz.Branch(c == 0) {
			switch {
			case sep < 0:
				if i > start {
					zz.Cover("no-separator")
				}
			case sep == start:
				zz.Cover("keyless")
			default:
				zz.Cover("item")
				items = append(items, item{string(b[start:sep]), string(b[sep+1 : i])})
			}
			start, sep = i+1, -1
		} else if zz.Branch(c == '=') && sep < 0 {
			sep = i
		}
	}
	zz.Assume(sep < 0)
	m := ParseKVText(b)
	distinct := 0
	for i, x := range items {
		again := false
		ok := false
		got, there := m[x.key]
		zz.Assert(there, "every-item-is-found")
		for j, y := range items {
			if len(x.key) != len(y.key) || !zz.Branch(zz.EqBytes([]byte(x.key), []byte(y.key))) {
				continue
			}
			if j < i {
				zz.Cover("twice")
				again = true
			}
			ok = zz.Or(ok, zz.And(len(got) == len(y.value), got == y.value))
		}
		zz.Assert(ok, "with-a-value-it-has")
		if !again {
			distinct++
		}
	}
	zz.Assert(len(m) == distinct, "nothing-but-the-items")
}
