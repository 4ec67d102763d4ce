package main

import (
	"math/big"
	"math/rand"
	"testing"
)

// raw builds the same operation without simplification so that both can be compared.
func TestSimplifier(t *testing.T) {
	rng := rand.New(rand.NewSource(1))
	raw := func(op Op, w int, val uint64, args ...*Term) *Term {
		return &Term{op: op, w: w, val: val, args: args, id: 1 << 30}
	}
	for iter := 0; iter < 60000; iter++ {
		type pair struct{ s, r *Term }
		pool := map[int][]pair{}
		env := map[*Term]uint64{}
		interesting := func(w int) uint64 {
			switch rng.Intn(5) {
			case 0:
				return uint64(rng.Intn(10)) & mask(w)
			case 1:
				return mask(w) - uint64(rng.Intn(3))&mask(w)
			case 2:
				return mask(rng.Intn(w) + 1)
			}
			return rng.Uint64() & mask(w)
		}
		for _, w := range []int{8, 16, 64} {
			for i := 0; i < 2; i++ {
				v := Var(string(rune('a'+i))+string(rune('0'+w/8)), w)
				env[v] = interesting(w)
				pool[w] = append(pool[w], pair{v, v})
			}
			c := BV(w, interesting(w))
			pool[w] = append(pool[w], pair{c, c})
			c = BV(w, uint64(rng.Intn(w+1)))
			pool[w] = append(pool[w], pair{c, c})
		}
		bv := Var("p", 0)
		env[bv] = uint64(rng.Intn(2))
		pool[0] = append(pool[0], pair{bv, bv})
		pick := func(w int) pair { return pool[w][rng.Intn(len(pool[w]))] }
		check := func(p pair) {
			a := evalTerm(p.s, env, map[*Term]*big.Int{})
			b := evalTerm(p.r, env, map[*Term]*big.Int{})
			if p.s.w != p.r.w || a.Cmp(b) != 0 {
				t.Fatalf("mismatch: %s vs %s: %v %v", p.s.str(20), p.r.str(20), a, b)
			}
			if p.s.w > 0 && p.s.w <= 64 {
				if a.Uint64() > umax(p.s) || a.Uint64() < umin(p.s) {
					t.Fatalf("range: %s", p.s.str(20))
				}
			}
			pool[p.s.w] = append(pool[p.s.w], p)
		}
		for k := 0; k < 14; k++ {
			w := []int{8, 16, 64}[rng.Intn(3)]
			a, b := pick(w), pick(w)
			switch rng.Intn(24) {
			case 0:
				check(pair{Add(a.s, b.s), raw(OAdd, w, 0, a.r, b.r)})
			case 1:
				check(pair{Sub(a.s, b.s), raw(OAdd, w, 0, a.r, raw(OMulC, w, mask(w), b.r))})
			case 2:
				check(pair{Mul(a.s, b.s), raw(OMul, w, 0, a.r, b.r)})
			case 3:
				check(pair{BAnd(a.s, b.s), raw(OBAnd, w, 0, a.r, b.r)})
			case 4:
				check(pair{BOr(a.s, b.s), raw(OBOr, w, 0, a.r, b.r)})
			case 5:
				check(pair{BXor(a.s, b.s), raw(OBXor, w, 0, a.r, b.r)})
			case 6:
				check(pair{Shl(a.s, b.s), raw(OShl, w, 0, a.r, b.r)})
			case 7:
				check(pair{Lshr(a.s, b.s), raw(OLshr, w, 0, a.r, b.r)})
			case 8:
				check(pair{Ashr(a.s, b.s), raw(OAshr, w, 0, a.r, b.r)})
			case 9:
				check(pair{Eq(a.s, b.s), raw(OEq, 0, 0, a.r, b.r)})
			case 10:
				check(pair{Ult(a.s, b.s), raw(OUlt, 0, 0, a.r, b.r)})
			case 11:
				check(pair{Slt(a.s, b.s), raw(OSlt, 0, 0, a.r, b.r)})
			case 12:
				c := pick(0)
				check(pair{Ite(c.s, a.s, b.s), raw(OIte, w, 0, c.r, a.r, b.r)})
			case 13:
				hi := rng.Intn(w)
				lo := rng.Intn(hi + 1)
				p := pair{Extract(a.s, hi, lo), raw(OExtract, hi-lo+1, uint64(hi)<<8|uint64(lo), a.r)}
				check(p)
				check(pair{Zext(p.s, 64), raw(OConcat, 64, 0, BV(64, 0), p.r)})
			case 14:
				check(pair{Zext(a.s, 64), raw(OConcat, 64, 0, BV(64, 0), a.r)})
			case 15:
				check(pair{Sext(a.s, 64), raw(OSext, 64, 0, a.r)})
			case 16:
				check(pair{UDiv(a.s, b.s), raw(OUDiv, w, 0, a.r, b.r)})
			case 17:
				check(pair{URem(a.s, b.s), raw(OURem, w, 0, a.r, b.r)})
			case 18:
				check(pair{SDiv(a.s, b.s), raw(OSDiv, w, 0, a.r, b.r)})
			case 19:
				check(pair{SRem(a.s, b.s), raw(OSRem, w, 0, a.r, b.r)})
			case 20:
				c, d := pick(0), pick(0)
				check(pair{And(c.s, d.s), raw(OAnd, 0, 0, c.r, d.r)})
				check(pair{Or(c.s, d.s), raw(OOr, 0, 0, c.r, d.r)})
				check(pair{orList([]*Term{c.s, d.s, a1(pick(0).s)}), raw(OOr, 0, 0, raw(OOr, 0, 0, c.r, d.r), tFalse)})
			case 21:
				c := pick(0)
				check(pair{Not(c.s), raw(ONot, 0, 0, c.r)})
			case 22:
				c, d, e := pick(0), pick(0), pick(0)
				check(pair{Ite(c.s, d.s, e.s), raw(OIte, 0, 0, c.r, d.r, e.r)})
				check(pair{Eq(d.s, e.s), raw(OEq, 0, 0, d.r, e.r)})
			case 23:
				check(pair{BNot(a.s), raw(OBNot, w, 0, a.r)})
			}
		}
	}
}

func a1(*Term) *Term { return tFalse }
