package main

import (
	"fmt"
	"math/big"
)

// secp256k1 constants, written down here independently of /repo.
var (
	ecP   = hexBig("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f")
	ecN   = hexBig("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141")
	ecGx  = hexBig("79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798")
	ecGy  = hexBig("483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8")
	ecE   = new(big.Int).Rsh(new(big.Int).Add(ecP, big.NewInt(1)), 2) // (P+1)/4
	ecPT  = BigT(ecP)
	ecNT  = BigT(ecN)
	pm1   = new(big.Int).Sub(ecP, big.NewInt(1))
	ecUFs = map[string]bool{"mulx": true, "muly": true, "addx": true, "addy": true}
)

func hexBig(s string) *big.Int {
	n, ok := new(big.Int).SetString(s, 16)
	if !ok {
		panic(s)
	}
	return n
}

func init() {
	ufBounds["mulx"] = [2]*big.Int{big.NewInt(1), pm1} // x = 0 and y = 0 are not on the curve
	ufBounds["muly"] = [2]*big.Int{big.NewInt(1), pm1}
	ufBounds["addx"] = [2]*big.Int{big.NewInt(1), pm1}
	ufBounds["addy"] = [2]*big.Int{big.NewInt(1), pm1}
	ufFactHook = ecFacts
}

// curveRHS recognises x^3+7 (mod P) and returns x.
func curveRHS(t *Term) *Term {
	if t.op != "mod" || !t.args[1].isConst() || t.args[1].c.Cmp(ecP) != 0 {
		return nil
	}
	ms := asPoly(t.args[0])
	if len(ms) != 2 || len(ms[0].atoms) != 3 || len(ms[1].atoms) != 0 || ms[0].coef.Cmp(big.NewInt(1)) != 0 || ms[1].coef.Cmp(big.NewInt(7)) != 0 {
		return nil
	}
	a := ms[0].atoms
	if a[0] != a[1] || a[1] != a[2] {
		return nil
	}
	return a[0]
}

func isRoot(t *Term) *Term { // x of sqrt(x^3+7)
	if t.isUF("modpow") && t.args[1].isConst() && t.args[1].c.Cmp(ecE) == 0 && t.args[2] == ecPT {
		return curveRHS(t.args[0])
	}
	return nil
}

func ecRHS(c *Ctx, x *Term) *Term { return c.Mod(Add(Mul(x, Mul(x, x)), Int(7)), ecPT) }
func ecRoot(c *Ctx, x *Term) *Term {
	return c.App("modpow", SInt, ecRHS(c, x), BigT(ecE), ecPT)
}
func ecOn(c *Ctx, x, y *Term) *Term {
	return c.EqInt(c.Mod(Mul(y, y), ecPT), ecRHS(c, x))
}

// symN brings a scalar to a canonical representative modulo N, up to sign.
func symN(t *Term) (*Term, bool) {
	half := new(big.Int).Rsh(ecN, 1)
	for i := 0; i < 6; i++ {
		var parts []*Term
		ch := false
		for _, m := range asPoly(t) {
			k := new(big.Int).Mod(m.coef, ecN)
			if k.Cmp(half) > 0 {
				k.Sub(k, ecN)
			}
			if k.Cmp(m.coef) != 0 {
				ch = true
			}
			p := BigT(k)
			for _, a := range m.atoms {
				if a.op == "mod" && a.args[1] == ecNT {
					p = Mul(p, a.args[0])
					ch = true
				} else {
					p = Mul(p, a)
				}
			}
			parts = append(parts, p)
		}
		if !ch {
			break
		}
		t = Add(parts...)
	}
	ms := asPoly(t)
	if len(ms) > 0 && ms[0].coef.Sign() < 0 {
		return Neg(t), true
	}
	return t, false
}

// ecApp normalises the group functions: mulx/muly(k) are the coordinates of kG, addx/addy those of a sum.
func ecApp(c *Ctx, name string, s Sort, a []*Term) *Term {
	switch name {
	case "mulx", "muly":
		k, neg := symN(a[0])
		var r *Term
		switch {
		case k == one && name == "mulx":
			r = BigT(ecGx)
		case k == one:
			r = BigT(ecGy)
		default:
			r = c.atom(UF(name, SInt, k))
		}
		if neg && name == "muly" {
			return Sub(ecPT, r)
		}
		return r
	case "addx", "addy":
		k1, ok1 := dlog(c, a[0], a[1])
		k2, ok2 := dlog(c, a[2], a[3])
		if ok1 && ok2 {
			if name == "addx" {
				return c.App("mulx", SInt, Add(k1, k2))
			}
			return c.App("muly", SInt, Add(k1, k2))
		}
		x1, y1, x2, y2 := a[0], a[1], a[2], a[3]
		if x1.id > x2.id || x1 == x2 && y1.id > y2.id { // commutative
			x1, y1, x2, y2 = x2, y2, x1, y1
		}
		return c.atom(UF(name, SInt, x1, y1, x2, y2))
	case "modinv":
		if k := a[1]; k.isConst() && a[0].op == "poly" && len(a[0].poly) > 0 && a[0].poly[0].coef.Sign() < 0 {
			// 1/(-t) = -(1/t) modulo a prime
			r := c.App("modinv", SInt, Neg(a[0]), k)
			return Sub(k, r)
		}
	}
	return nil
}

// dlog recognises the coordinates of kG.
func dlog(c *Ctx, x, y *Term) (*Term, bool) {
	if x.isUF("mulx") {
		if y == UF("muly", SInt, x.args[0]) {
			return x.args[0], true
		}
		if y == Sub(ecPT, UF("muly", SInt, x.args[0])) {
			return Neg(x.args[0]), true
		}
	}
	if x.isConst() && x.c.Cmp(ecGx) == 0 && y.isConst() {
		if y.c.Cmp(ecGy) == 0 {
			return one, true
		}
		if new(big.Int).Add(y.c, ecGy).Cmp(ecP) == 0 {
			return Int(-1), true
		}
	}
	return nil, false
}

// ecFacts instantiates the assumed facts of the group for the terms of a query.
func ecFacts(q *query, t *Term, e string) {
	c := q.c
	switch t.s {
	case "mulx":
		y := UF("muly", SInt, t.args[0])
		k := c.Mod(t.args[0], ecNT)
		finite := Not(c.EqInt(k, zero))
		q.factT(Or(Not(finite), ecOn(c, t, y)))
		if t.args[0].isConst() && !k.isInt(0) && !k.isInt(1) && k != BigT(new(big.Int).Sub(ecN, big.NewInt(1))) {
			q.fact(fmt.Sprintf("(not (= %s %s))", e, ecGx))
		}
		// equal x coordinates: equal or opposite scalars
		for _, u := range q.all {
			if u != t && u.isUF("mulx") && u.id < t.id {
				d1 := c.Mod(Sub(u.args[0], t.args[0]), ecNT)
				d2 := c.Mod(Add(u.args[0], t.args[0]), ecNT)
				n1 := q.expr(eqInt0(d1), nil)
				n2 := q.expr(eqInt0(d2), nil)
				both := And(finite, Not(c.EqInt(c.Mod(u.args[0], ecNT), zero)))
				q.fact(fmt.Sprintf("(=> %s (= (= %s %s) (or %s %s)))", q.expr(both, nil), e, q.expr(u, nil), n1, n2))
				yu := UF("muly", SInt, u.args[0])
				q.fact(fmt.Sprintf("(=> %s (= %s %s))", n1, q.expr(y, nil), q.expr(yu, nil)))
				q.fact(fmt.Sprintf("(=> (and %s %s) (= (+ %s %s) %s))", q.expr(both, nil), n2, q.expr(y, nil), q.expr(yu, nil), ecP.String()))
			}
		}
	case "addx":
		x1, y1, x2, y2 := t.args[0], t.args[1], t.args[2], t.args[3]
		y := UF("addy", SInt, t.args...)
		pre := And(ecOn(c, x1, y1), ecOn(c, x2, y2))
		q.factT(Or(Not(pre), ecOn(c, t, y)))
	case "modpow":
		if x := isRoot(t); x != nil {
			rhs := t.args[0]
			// Euler: if x^3+7 is a square, t is one of its two roots
			for _, u := range q.all {
				if u.op != "mod" || u.args[1] != ecPT || u == rhs {
					continue
				}
				ms := asPoly(u.args[0])
				if len(ms) == 1 && len(ms[0].atoms) == 2 && ms[0].atoms[0] == ms[0].atoms[1] && ms[0].coef.Cmp(big.NewInt(1)) == 0 {
					y := ms[0].atoms[0]
					if y == t {
						continue
					}
					ye := q.expr(y, nil)
					t2 := c.Mod(Mul(t, t), ecPT)
					q.fact(fmt.Sprintf("(=> (and (= %s %s) (<= 0 %s) (< %s %s)) (and (or (= %s %s) (= %s (- %s %s))) (= %s %s)))",
						q.expr(u, nil), q.expr(rhs, nil), ye, ye, ecP, ye, e, ye, ecP, e, q.expr(t2, nil), q.expr(rhs, nil)))
				}
			}
		}
	}
}
