package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"os/exec"
	"strings"
	"testing"
)

// TestLIA checks that the translation to integers keeps the models of the original.
func TestLIA(t *testing.T) {
	rng := rand.New(rand.NewSource(7))
	for iter := 0; iter < 40; iter++ {
		var script strings.Builder
		var dump []string
		for sub := 0; sub < 40; sub++ {
			env := map[*Term]uint64{}
			pool := map[int][]*Term{}
			interesting := func(w int) uint64 {
				switch rng.Intn(5) {
				case 0:
					return uint64(rng.Intn(10)) & mask(w)
				case 1:
					return mask(w) - uint64(rng.Intn(3))&mask(w)
				case 2:
					return mask(rng.Intn(w) + 1)
				}
				return rng.Uint64() & mask(w)
			}
			var vars []*Term
			for _, w := range []int{8, 16, 64} {
				for i := 0; i < 3; i++ {
					v := Var(string(rune('a'+i))+string(rune('0'+w/8)), w)
					env[v] = interesting(w)
					vars = append(vars, v)
					pool[w] = append(pool[w], v)
				}
				pool[w] = append(pool[w], BV(w, interesting(w)), BV(w, uint64(rng.Intn(w+1))))
			}
			p := Var("p", 0)
			env[p] = uint64(rng.Intn(2))
			pool[0] = append(pool[0], p)
			pick := func(w int) *Term { return pool[w][rng.Intn(len(pool[w]))] }
			for k := 0; k < 16; k++ {
				w := []int{8, 16, 64, 64}[rng.Intn(4)]
				a, b := pick(w), pick(w)
				var r *Term
				switch rng.Intn(20) {
				case 0, 1:
					r = Add(a, b)
				case 2:
					r = Sub(a, b)
				case 3:
					r = Mul(a, BV(w, interesting(w)))
				case 4:
					r = BAnd(a, b)
				case 5:
					r = BAnd(a, BV(w, mask(rng.Intn(w)+1)))
				case 6:
					r = Shl(a, BV(w, uint64(rng.Intn(w))))
				case 7:
					r = Lshr(a, BV(w, uint64(rng.Intn(w))))
				case 8:
					r = Ashr(a, BV(w, uint64(rng.Intn(w))))
				case 9:
					r = Eq(a, b)
				case 10, 11:
					r = Ult(a, b)
				case 12, 13:
					r = Slt(a, b)
				case 14:
					r = Ite(pick(0), a, b)
				case 15:
					if w < 64 {
						r = Zext(a, 64)
					} else {
						lo := rng.Intn(40)
						r = Extract(a, lo+7, lo)
					}
				case 16:
					if w < 64 {
						r = Sext(a, 64)
					} else {
						lo := rng.Intn(40)
						r = Extract(a, lo+15, lo)
					}
				case 17:
					c := BV(w, uint64(rng.Intn(20)+1))
					r = [](func(a, b *Term) *Term){UDiv, URem, SDiv, SRem}[rng.Intn(4)](a, c)
				case 18:
					r = Or(pick(0), pick(0))
				case 19:
					r = Not(And(pick(0), pick(0)))
				}
				pool[r.w] = append(pool[r.w], r)
			}
			var fs []*Term
			holds := func(x *Term) {
				if evalTerm(x, env, map[*Term]*big.Int{}).Sign() == 0 {
					x = Not(x)
				}
				fs = append(fs, x)
			}
			for _, v := range vars {
				for k := 0; k < 2; k++ {
					c := BV(v.w, env[v]+uint64(rng.Intn(3))-1)
					if rng.Intn(2) == 0 {
						c = BV(v.w, interesting(v.w))
					}
					if rng.Intn(2) == 0 {
						holds(Slt(v, c))
					} else {
						holds(Ult(v, c))
					}
				}
			}
			for w, ts := range pool {
				for _, x := range ts {
					if w == 0 {
						holds(x)
					} else {
						if rng.Intn(4) > 0 {
							continue
						}
						holds(Eq(x, BV(w, evalTerm(x, env, map[*Term]*big.Int{}).Uint64())))
						holds(Ult(x, pick(w)))
						holds(Slt(x, pick(w)))
					}
				}
			}
			// the ranges must not come from the pinned values alone
			if rng.Intn(2) == 0 {
				fs = propagate(fs)
			}
			smt := writeLIA(fs)
			pins := ""
			for _, v := range vars {
				if strings.Contains(smt, "declare-const |"+v.name+"|") {
					pins += fmt.Sprintf("(assert (= |%s| %s))\n", v.name, num(constInt(env[v], v.w)))
				}
			}
			smt = strings.Replace(smt, "(set-logic QF_UFLIA)\n", "", 1)
			smt = strings.Replace(smt, "(check-sat)\n", pins+"(check-sat)\n", 1)
			script.WriteString("(push)\n" + smt + "(pop)\n")
			dump = append(dump, smt)
		}
		cmd := exec.Command("z3-new", "-in", "-T:120")
		cmd.Stdin = strings.NewReader(script.String())
		out, _ := cmd.Output()
		res := strings.Fields(string(out))
		if len(res) != len(dump) {
			t.Fatalf("solver: %s", out)
		}
		for i, r := range res {
			if r != "sat" && r != "unknown" {
				t.Fatalf("case %d: %s\n%s", i, r, dump[i])
			}
		}
	}
}
