package main

import (
	"fmt"
	"os"
	"sort"
)

// diffTerms prints where two terms differ (VERIF_DIFF=1, for work on the
// canonical form): the operands of unproved equalities.
var diffOn = os.Getenv("VERIF_DIFF") != ""

func diffTerms(a, b *Term, path string, left *int) {
	if *left <= 0 || same(a, b) {
		return
	}
	if a.op == b.op && a.w == b.w && a.val == b.val && !a.IsConst() && a.op != OpVar && len(a.x.args) == len(b.x.args) {
		ok := true
		for i := range a.x.coef {
			if a.x.coef[i] != b.x.coef[i] {
				ok = false
			}
		}
		if ok {
			for i := range a.x.args {
				diffTerms(a.x.args[i], b.x.args[i], path+"/"+opNames[a.op]+fmt.Sprint(i), left)
			}
			return
		}
	}
	if a.op == OpLin && b.op == OpLin && a.w == b.w && a.val == b.val {
		var pa, pb []int
		for i, p := range a.x.args {
			if !hasArg(b, p, a.x.coef[i]) {
				pa = append(pa, i)
			}
		}
		for i, p := range b.x.args {
			if !hasArg(a, p, b.x.coef[i]) {
				pb = append(pb, i)
			}
		}
		by := func(t *Term, ix []int) {
			sort.Slice(ix, func(i, j int) bool { return t.x.coef[ix[i]] < t.x.coef[ix[j]] })
		}
		by(a, pa)
		by(b, pb)
		ok := len(pa) == len(pb)
		for i := range pa {
			ok = ok && a.x.coef[pa[i]] == b.x.coef[pb[i]]
		}
		if ok {
			for i := range pa {
				diffTerms(a.x.args[pa[i]], b.x.args[pb[i]], path+"/lin", left)
			}
			return
		}
	}
	*left--
	fmt.Fprintf(os.Stderr, "DIFF at %s\n  A %s\n  B %s\n", path, a, b)
}

func diffCond(c *Term) {
	left := 4
	if c.op == OpEq {
		diffTerms(c.x.args[0], c.x.args[1], "", &left)
	} else if c.op == OpBAnd {
		for _, x := range c.x.args {
			if x.op == OpEq {
				diffTerms(x.x.args[0], x.x.args[1], "", &left)
				if left <= 0 {
					return
				}
			}
		}
	}
}

func hasArg(t, p *Term, c uint64) bool {
	for i, q := range t.x.args {
		if same(p, q) && t.x.coef[i] == c {
			return true
		}
	}
	return false
}
