package main

import (
	"math/big"
)

// Contracts of the two functions of github.com/aureleoules/ecdsa that carry the group law. They are
// verified against the module's source by dep.go; everything else of that module is executed from source.

const ecPkg = "github.com/aureleoules/ecdsa"

// stdCurve: the receiver holds the secp256k1 parameters (and, if g, the generator).
func (m *MC) stdCurve(g bool) bool {
	p, ok := m.args[0].(VPtr)
	if !ok || p.obj == 0 {
		return false
	}
	s, ok := m.e.load(m.st, p, m.fn.Signature.Recv().Type().Underlying()).(*VStruct)
	if !ok || len(s.f) != 6 {
		return false
	}
	is := func(v Value, n *big.Int) bool {
		q, ok := v.(VPtr)
		if !ok || q.obj == 0 {
			return false
		}
		o := m.st.obj(q.obj)
		return o.kind == "big" && m.st.c.N(o.t) == BigT(n)
	}
	return is(s.f[0], big.NewInt(0)) && is(s.f[1], big.NewInt(7)) && is(s.f[2], ecP) && is(s.f[3], ecN)
}

// point returns the coordinates of a point argument; inf is set for the point at infinity.
func (m *MC) point(i int) (x, y *Term, inf, ok bool) {
	s, good := m.args[i].(*VStruct)
	if !good || len(s.f) != 2 {
		return nil, nil, false, false
	}
	px, ok1 := s.f[0].(VPtr)
	py, ok2 := s.f[1].(VPtr)
	if !ok1 || !ok2 {
		return nil, nil, false, false
	}
	if px.obj == 0 && py.obj == 0 {
		return nil, nil, true, true
	}
	if px.obj == 0 || py.obj == 0 {
		return nil, nil, false, false
	}
	c := m.st.c
	return c.N(m.st.obj(px.obj).t), c.N(m.st.obj(py.obj).t), false, true
}

func onCurveProved(c *Ctx, x, y *Term) bool {
	return c.Prove(And(Le(zero, x), Lt(x, ecPT))) && c.Prove(And(Le(zero, y), Lt(y, ecPT))) && c.Prove(ecOn(c, x, y))
}

func (m *MC) inlineBody() []Outcome {
	m.e.inlined[m.name] = true
	return m.e.exec(m.fn, m.args, nil, m.st)
}

func (m *MC) exits(msg string) []Outcome {
	m.st.io = append(m.st.io, "log")
	return []Outcome{{st: m.st, kind: "exit", msg: msg, pos: m.pos}}
}

func (m *MC) newPoint(x, y *Term) *VStruct {
	return &VStruct{[]Value{m.e.newBig(m.st, x), m.e.newBig(m.st, y)}}
}

func init() {
	models["(*"+ecPkg+".Curve).AddPoints"] = func(m *MC) []Outcome {
		x1, y1, i1, ok1 := m.point(1)
		x2, y2, i2, ok2 := m.point(2)
		if !m.stdCurve(false) || !ok1 || !ok2 || i1 || i2 || !onCurveProved(m.st.c, x1, y1) || !onCurveProved(m.st.c, x2, y2) {
			return m.inlineBody()
		}
		sum := func(m *MC) []Outcome {
			c := m.st.c
			a, b, d, e := c.N(x1), c.N(y1), c.N(x2), c.N(y2)
			x, y := c.App("addx", SInt, a, b, d, e), c.App("addy", SInt, a, b, d, e)
			c.Assume(ecOn(c, x, y))
			return m.ret(m.newPoint(x, y), True)
		}
		return m.cases(m.st.c.EqInt(x1, x2), func(m *MC) []Outcome {
			return m.cases(m.st.c.EqInt(m.st.c.N(y1), m.st.c.N(y2)), sum, func(m *MC) []Outcome { return m.exits("log.Fatal: sum of opposite points") })
		}, sum)
	}
	models["(*"+ecPkg+".Curve).ScalarMult"] = func(m *MC) []Outcome {
		x, y, inf, ok := m.point(2)
		n, okn := m.big(1)
		if !okn {
			return m.panics("nil *big.Int")
		}
		c := m.st.c
		if !m.stdCurve(true) || !ok || inf || x != BigT(ecGx) || y != BigT(ecGy) {
			unsup("ScalarMult of another point or on another curve")
		}
		if !c.Prove(And(Le(zero, n), Lt(n, BigT(new(big.Int).Lsh(big.NewInt(1), 256))))) {
			unsup("ScalarMult with a scalar outside 0..2^256-1")
		}
		pt := func(m *MC, p *VStruct) Value {
			return VPtr{obj: m.e.newObj(m.st, &Obj{kind: "cell", v: p})}
		}
		return m.cases(c.EqInt(n, zero), func(m *MC) []Outcome {
			return m.ret(pt(m, &VStruct{[]Value{nilPtr, nilPtr}}), False)
		}, func(m *MC) []Outcome {
			c := m.st.c
			return m.cases(c.EqInt(c.N(n), one), func(m *MC) []Outcome {
				return m.ret(pt(m, m.args[2].(*VStruct)), True) // the very coordinates of the point
			}, func(m *MC) []Outcome {
				c := m.st.c
				nm1 := BigT(new(big.Int).Sub(ecN, big.NewInt(1)))
				return m.cases(Or(c.EqInt(c.N(n), nm1), c.EqInt(c.N(n), ecNT)), func(m *MC) []Outcome {
					return m.exits("log.Fatal: the ladder meets opposite points")
				}, func(m *MC) []Outcome {
					c := m.st.c
					k := c.N(n)
					X, Y := c.App("mulx", SInt, k), c.App("muly", SInt, k)
					c.Assume(ecOn(c, X, Y))
					return m.ret(pt(m, m.newPoint(X, Y)), True)
				})
			})
		})
	}
}
