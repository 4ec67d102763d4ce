package main

import "math/big"

// Evaluation of terms under a concrete assignment (used to test the simplifier).

func bigMask(w int) *big.Int {
	return new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(w)), big.NewInt(1))
}

func evalTerm(t *Term, env map[*Term]uint64, memo map[*Term]*big.Int) *big.Int {
	if v, ok := memo[t]; ok {
		return v
	}
	ev := func(i int) *big.Int { return evalTerm(t.args[i], env, memo) }
	b2 := func(b bool) *big.Int {
		if b {
			return big.NewInt(1)
		}
		return big.NewInt(0)
	}
	sgn := func(v *big.Int, w int) *big.Int {
		if w > 0 && v.Bit(w-1) == 1 {
			return new(big.Int).Sub(v, new(big.Int).Lsh(big.NewInt(1), uint(w)))
		}
		return v
	}
	r := new(big.Int)
	m := bigMask(t.w)
	if t.w == 0 {
		m = big.NewInt(1)
	}
	switch t.op {
	case OConst:
		r.SetUint64(t.val)
	case OVar, OApp:
		r.SetUint64(env[t])
	case ONot:
		r = b2(ev(0).Sign() == 0)
	case OAnd:
		r = b2(ev(0).Sign() != 0 && ev(1).Sign() != 0)
	case OOr:
		r = b2(ev(0).Sign() != 0 || ev(1).Sign() != 0)
	case OEq:
		r = b2(ev(0).Cmp(ev(1)) == 0)
	case OIte:
		if ev(0).Sign() != 0 {
			r = ev(1)
		} else {
			r = ev(2)
		}
	case OAdd:
		r.SetUint64(t.val)
		for i := range t.args {
			r.Add(r, ev(i))
		}
	case OMulC:
		r.Mul(new(big.Int).SetUint64(t.val), ev(0))
	case OMul:
		r.Mul(ev(0), ev(1))
	case OUDiv:
		if ev(1).Sign() == 0 {
			r.Set(m)
		} else {
			r.Quo(ev(0), ev(1))
		}
	case OURem:
		if ev(1).Sign() == 0 {
			r.Set(ev(0))
		} else {
			r.Rem(ev(0), ev(1))
		}
	case OSDiv:
		if ev(1).Sign() == 0 {
			r.Set(m)
		} else {
			r.Quo(sgn(ev(0), t.w), sgn(ev(1), t.w))
		}
	case OSRem:
		if ev(1).Sign() == 0 {
			r.Set(ev(0))
		} else {
			r.Rem(sgn(ev(0), t.w), sgn(ev(1), t.w))
		}
	case OBAnd:
		r.And(ev(0), ev(1))
	case OBOr:
		r.Or(ev(0), ev(1))
	case OBXor:
		r.Xor(ev(0), ev(1))
	case OBNot:
		r.Xor(ev(0), m)
	case OShl:
		if ev(1).Cmp(big.NewInt(int64(t.w))) < 0 {
			r.Lsh(ev(0), uint(ev(1).Uint64()))
		}
	case OLshr:
		if ev(1).Cmp(big.NewInt(int64(t.w))) < 0 {
			r.Rsh(ev(0), uint(ev(1).Uint64()))
		}
	case OAshr:
		s := uint(t.w)
		if ev(1).Cmp(big.NewInt(int64(t.w))) < 0 {
			s = uint(ev(1).Uint64())
		}
		r.Rsh(sgn(ev(0), t.w), s)
	case OUlt:
		r = b2(ev(0).Cmp(ev(1)) < 0)
	case OSlt:
		w := t.args[0].w
		r = b2(sgn(ev(0), w).Cmp(sgn(ev(1), w)) < 0)
	case OConcat:
		for i, a := range t.args {
			r.Lsh(r, uint(a.w))
			r.Or(r, ev(i))
		}
	case OExtract:
		r.Rsh(ev(0), uint(t.val&0xff))
	case OSext:
		r.Set(sgn(ev(0), t.args[0].w))
	}
	r = new(big.Int).And(r, m)
	memo[t] = r
	return r
}
