package zziscsi

import (
	"strconv"

	"github.com/gostor/gotgt/pkg/api"
	zz "github.com/gostor/gotgt/pkg/zzsym"
)

// listed takes the list of targets and compares it with the sessions of each.
func listed(r *rig, names []string, sessions map[string]int) []api.SCSITarget {
	l, err := r.svc.GetTargetList()
	zz.Assert(err == nil && len(l) == len(names), "every-target-once")
	seen := map[string]bool{}
	for i := range l {
		t := &l[i]
		n, ok := sessions[t.Name]
		zz.Assert(ok && !seen[t.Name], "every-target-once")
		seen[t.Name] = true
		zz.Assert(len(t.ITNexus) == n, "the-sessions")
		for id, x := range t.ITNexus {
			zz.Assert(x != nil && x.ID == id && x.Tag != "", "nexus")
		}
		for j := 0; j < i; j++ {
			zz.Assert(l[j].TID != t.TID, "distinct-ids")
		}
	}
	return l
}

// ZZTargetList compares the list of targets with the sessions there are, and
// looks again at lists which were taken earlier.
//
//zz:prop C39
//zz:bound two targets, 4 (thorough: 5) steps: one of two initiators logs in to either target or to discovery, with ISIDs of which 16 bits are arbitrary, logs out, or its connection ends; after each step the list, and all the lists before it
//zz:need login discovery logout drop both again
func ZZTargetList() {
	r := newRig()
	names := []string{tgtName, tgtName + "2"}
	r.portal(0, r.here())
	for _, n := range names {
		r.disk(n, 0, 2)
		r.target(n, map[string][]uint64{"1": {0}})
	}
	r.run()
	type sess struct {
		c    *ini
		who  int
		isid uint64
		t    string
	}
	var live []sess
	sessions := map[string]int{names[0]: 0, names[1]: 0}
	var lists [][]api.SCSITarget
	var counts []map[string]int
	look := func() {
		lists = append(lists, listed(r, names, sessions))
		m := map[string]int{}
		for k, v := range sessions {
			m[k] = v
		}
		counts = append(counts, m)
		for i, l := range lists {
			for j := range l {
				zz.Assert(len(l[j].ITNexus) == counts[i][l[j].Name], "earlier-list-stays")
			}
		}
	}
	look()
	steps := 4
	if zz.Thorough() {
		steps = 5
	}
	for s := 0; s < steps; s++ {
		k := strconv.Itoa(s)
		what := 0
		if len(live) > 0 {
			what = zz.Choose("what"+k, 3)
		}
		switch what {
		case 0:
			who, to := 0, 0
			to = zz.Choose("to"+k, 3)
			if s > 0 {
				who = zz.Choose("who"+k, 2)
			}
			isid := 0x400000000000 + uint64(zz.U16("isid"+k))
			t := append([]string{""}, names...)[to]
			c := r.dial()
			c.loginAs(initiators[who], isid, 0, 1, t)
			if t == "" {
				zz.Cover("discovery")
				break
			}
			zz.Cover("login")
			for i, x := range live {
				if x.who == who && x.t == t && zz.Branch(x.isid == isid) {
					zz.Cover("again")
					x.c.settle()
					sessions[t]--
					live = append(live[:i:i], live[i+1:]...)
					break
				}
			}
			live = append(live, sess{c, who, isid, t})
			sessions[t]++
			if sessions[names[0]] > 0 && sessions[names[1]] > 0 {
				zz.Cover("both")
			}
		default:
			i := zz.Choose("which"+k, len(live))
			x := live[i]
			if what == 1 {
				zz.Cover("logout")
				x.c.send(x.c.bhs(0x06, 0x80, 0))
			} else {
				zz.Cover("drop")
				x.c.c.Close()
			}
			x.c.settle()
			sessions[x.t]--
			live = append(live[:i:i], live[i+1:]...)
		}
		zz.Quiesce()
		look()
	}
}

// ZZListRace takes the list of targets, and reads it, while a session comes or goes.
//
//zz:prop C39,C35
//zz:opt tries=3
//zz:bound the list taken and read while one session logs in (the same initiator as another session or not, with ISIDs of which 16 bits are arbitrary), logs out or ends; every interleaving with up to 2 preemptions at statements which touch what both use
func ZZListRace() {
	r, _ := oneTarget(2)
	kind := zz.Choose("kind", 4)
	isid := 0x400000000000 + uint64(zz.U16("isid"))
	rounds := 1
	if !zz.Symbolic() {
		rounds = 40
	}
	for ; rounds > 0; rounds-- {
		c, x := r.dial(), r.dial()
		c.loginAs(initiators[0], 0x400000000001, 0, 1, tgtName)
		zz.Quiesce()
		zz.Races(2)
		switch kind {
		case 0:
			x.send(loginPDU(x, 0x87, isid, 0, 1, text("InitiatorName="+initiators[1], "SessionType=Normal", "TargetName="+tgtName)))
		case 1:
			x.send(loginPDU(x, 0x87, isid, 0, 1, text("InitiatorName="+initiators[0], "SessionType=Normal", "TargetName="+tgtName)))
		case 2:
			c.send(c.bhs(0x06, 0x80, 0))
		case 3:
			c.c.Close()
		}
		zz.HeadStart()
		l, err := r.svc.GetTargetList()
		zz.Assert(err == nil && len(l) == 1 && l[0].Name == tgtName, "every-target-once")
		n := 0
		for id, y := range l[0].ITNexus {
			zz.Assert(y != nil && y.ID == id, "nexus")
			n++
		}
		zz.Assert(n == len(l[0].ITNexus), "list-stays")
		zz.Assert(n <= 2 && (kind > 0 || n > 0), "the-sessions")
		zz.Quiesce()
		zz.Races(0)
		zz.Assert(len(l[0].ITNexus) == n, "list-stays")
		c.c.Close()
		x.c.Close()
		zz.Quiesce()
	}
}
