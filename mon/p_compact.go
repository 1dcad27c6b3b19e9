package main

import (
	"fmt"
)

// ---- C23: the dictionary stores every state of the minimal automaton once ----

func init() {
	register(&Prop{ID: "C23", Level: "exploration", Rule: ruleLex + "; non-trivial: at least 2 keys",
		Cases: func(t string) []Case {
			return append(reachCases(t), lexCases(t, scale(t, quickIO, deepIO), checkC23)...)
		},
		MinObserved: map[string]int64{"dictionaries": 10000, "occupied units": 500000, "units saved by sharing": 300000, "dictionaries with shared states": 10000,
			"dictionaries over 16 blocks": 10, "dictionaries over 1000 blocks": 1, "dictionaries over 2^21 units": 1, "dictionaries of 2^20 to 2^21 units": 3}})
}

// reachCases: suffixes shared over distances of up to 2^21 units.
func reachCases(tier string) (cs []Case) {
	n := 6
	if tier == "thorough" {
		n = 40
	}
	for i := 0; i < n; i++ {
		cs = append(cs, Case{fmt.Sprintf("reach/%d", i), func(c *Ctx) {
			var suf, ks []string
			for j := 0; j < 100<<uint(i%3); j++ {
				suf = append(suf, randStr(c.R, allBytes, 1+c.R.Intn(5)))
			}
			m := 230000 + c.R.Intn(30000)
			if i%2 == 1 {
				m = 90000 + c.R.Intn(60000)
			}
			for j := 0; j < m; j++ {
				ks = append(ks, randStr(c.R, allBytes, 7)+suf[c.R.Intn(len(suf))])
			}
			ks = dedup(ks)
			checkC23(c, &Lex{"suffixes shared over far distances", ks, genVals(c.R, "suffix", ks)})
		}})
	}
	return
}

func checkC23(c *Ctx, l *Lex) {
	b := build(c, l)
	units, rest, err := parseUnits32(written(c, b.Dict))
	if err != nil || len(rest) != 0 {
		c.Fail("file of the dictionary: %v, %d bytes left", err, len(rest))
	}
	c.note = func() string { return "the dictionary of " + l.Spec }
	if len(units) > 1<<20 && len(units) <= 1<<21 {
		c.Obs("dictionaries of 2^20 to 2^21 units", 1)
	}
	occ, used := fileUse(c, l, units, 0)
	_, transitions, edges, _ := minimal(l)
	c.Eval(2)
	if occ < transitions+1 {
		c.Fail("%d units are occupied, the minimal automaton has %d transitions: the monitor is wrong", occ, transitions)
	}
	// Up to 2^21 units every unit can refer to every other one.
	if len(units) <= 1<<21 && occ != transitions+1 {
		c.Fail("%d units are occupied, one for each of the %d transitions of the minimal automaton and the root would do (%d keys, %d units)", occ, transitions, len(l.Keys), len(units))
	}
	// Beyond, states may be stored again, but no more often than the trie has them.
	if occ > edges+1 {
		c.Fail("%d units are occupied, the trie has %d edges", occ, edges)
	}
	if len(l.Keys) > 0 {
		for bi := 0; bi*256 < len(units); bi++ {
			any := false
			for _, u := range used[bi*256 : min(bi*256+256, len(units))] {
				if u {
					any = true
					break
				}
			}
			c.Eval(1)
			if !any {
				c.Fail("no unit of block %d of %d is occupied", bi, (len(units)+255)/256)
			}
		}
	} else if len(units) > 256 {
		c.Fail("the empty dictionary has %d units", len(units))
	}
	c.Obs("occupied units", occ)
	c.Obs("units saved by sharing", edges+1-occ)
	if edges+1 > occ {
		c.Obs("dictionaries with shared states", 1)
	}
	for _, x := range []int{16, 1000} {
		if len(units) > x*256 {
			c.Obs(fmt.Sprintf("dictionaries over %d blocks", x), 1)
		}
	}
	if len(units) > 1<<21 {
		c.Obs("dictionaries over 2^21 units", 1)
		c.Obs("units stored again beyond 2^21", occ-transitions-1)
	}
	if len(l.Keys) >= 2 {
		c.Seen(l.Sig())
	}
	if len(c.samples) == 0 && len(l.Keys) > 2 && len(l.Keys) < 3000 {
		c.Sample(map[string]interface{}{"keys": l.Dump(3), "trie edges": edges, "transitions": transitions, "occupied": occ, "units": len(units)})
	}
}
