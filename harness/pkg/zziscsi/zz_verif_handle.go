package zziscsi

import (
	zz "github.com/gostor/gotgt/pkg/zzsym"
)

type handles interface {
	AllocTSIH() uint16
	ReleaseTSIH(tsih uint16)
}

// ZZHandles takes and gives back session handles.
//
//zz:prop C29
//zz:bound sequences of 5 (thorough: 7) allocations and releases, of handles in use and of any other
//zz:need alloc release release-unused
func ZZHandles() {
	d := newRig().drv.(handles)
	var used []uint16
	steps := 5
	if zz.Thorough() {
		steps = 7
	}
	for i := 0; i < steps; i++ {
		switch zz.Choose("op", 3) {
		case 0:
			zz.Cover("alloc")
			h := d.AllocTSIH()
			zz.Assert(zz.And(h != 0, h != 0xffff), "valid-handle")
			for _, u := range used {
				zz.Assert(h != u, "handle-not-in-use")
			}
			used = append(used, h)
		case 1:
			if len(used) == 0 {
				zz.Stop()
			}
			zz.Cover("release")
			k := zz.Choose("which", len(used))
			d.ReleaseTSIH(used[k])
			used = append(used[:k:k], used[k+1:]...)
		case 2:
			// of a handle nobody has
			h := zz.U16("handle")
			for _, u := range used {
				zz.Assume(h != u)
			}
			zz.Cover("release-unused")
			d.ReleaseTSIH(h)
		}
	}
}

// ZZHandleRace takes and gives back session handles in two threads.
//
//zz:prop C29
//zz:opt tries=3
//zz:bound two threads with 3 allocations or releases each, every interleaving with up to 3 (thorough: 4) preemptions at statements which touch what both use
func ZZHandleRace() {
	d := newRig().drv.(handles)
	var ops [2][3]bool
	for t := range ops {
		for k := range ops[t] {
			ops[t][k] = k == 0 || zz.Choose("op", 2) == 0
		}
	}
	rounds := 1
	if !zz.Symbolic() {
		// natively the schedule can't be forced, so it is tried often, and
		// with handles in use to make the search for a free one take its time
		rounds = 3000
		for i := 0; i < 300; i++ {
			d.AllocTSIH()
		}
	}
	for ; rounds > 0; rounds-- {
		var got [2][]uint16
		done := make(chan int, 2)
		start := make(chan int)
		if zz.Thorough() {
			zz.Races(4)
		} else {
			zz.Races(3)
		}
		for t := range ops {
			t := t
			go func() {
				<-start
				for _, alloc := range ops[t] {
					if alloc {
						got[t] = append(got[t], d.AllocTSIH())
					} else if n := len(got[t]); n > 0 {
						d.ReleaseTSIH(got[t][n-1])
						got[t] = got[t][:n-1]
					}
				}
				done <- t
			}()
		}
		close(start)
		<-done
		<-done
		zz.Races(0)
		all := append(append([]uint16{}, got[0]...), got[1]...)
		for i, h := range all {
			zz.Assert(zz.And(h != 0, h != 0xffff), "valid-handle")
			for _, u := range all[:i] {
				zz.Assert(h != u, "handle-not-in-use")
			}
		}
		for _, h := range all {
			d.ReleaseTSIH(h)
		}
	}
}

// ZZRacingLogins has two initiators log in at the same time.
//
//zz:prop C26,C29
//zz:opt tries=3
//zz:bound two logins at the same time, of the same or of different initiator names, to the same target, every interleaving with up to 2 preemptions at statements which touch what both use
//zz:need same other
func ZZRacingLogins() {
	r, _ := oneTarget(2)
	same := zz.Choose("same", 2) == 1
	rounds := 1
	if !zz.Symbolic() {
		rounds = 40
	}
	for ; rounds > 0; rounds-- {
		c := []*ini{r.dial(), r.dial()}
		zz.Quiesce()
		zz.Races(2)
		for i, x := range c {
			name := initiators[i]
			if same {
				name = initiators[0]
			}
			x.send(loginPDU(x, 0x87, 1, 0, 1, text("InitiatorName="+name, "SessionType=Normal", "TargetName="+tgtName)))
		}
		zz.Quiesce()
		zz.Races(0)
		n := 0
		var tsih []uint16
		for _, x := range c {
			got := x.pdus()
			if len(got) > 0 {
				zz.Assert(len(got) == 1 && got[0].op() == 0x23 && got[0].h[36] == 0, "accepted")
				tsih = append(tsih, uint16(be(got[0].h[14:16])))
				x.stat = got[0].statSN() + 1
			}
			if !x.closed {
				n++
				x.send(x.bhs(0x40, 0x80, 0))
				zz.Assert(x.one("works").op() == 0x20, "works")
			}
		}
		if same {
			zz.Cover("same")
			zz.Assert(n == 1, "one-session-left")
		} else {
			zz.Cover("other")
			zz.Assert(n == 2 && len(tsih) == 2, "both-sessions")
			zz.Assert(tsih[0] != tsih[1], "handles-differ")
		}
		nexus := 0
		for _, t := range r.svc.Targets {
			nexus += len(t.ITNexus)
		}
		zz.Assert(nexus == n, "one-nexus-per-session")
		for _, x := range c {
			x.c.Close()
		}
		zz.Quiesce()
	}
}
