package main

import (
	"math/big"
)

// putBytes overwrites the first bytes of a slice (the caller has shown that they fit).
func (m *MC) putBytes(s VSlice, t *Term) {
	if s.obj == 0 {
		unsup("write into a nil slice")
	}
	o := *m.st.obj(s.obj)
	if o.kind != "bytes" || o.shared {
		unsup("write into %s that may be shared", o.kind)
	}
	c := m.st.c
	old, off := c.N(o.t), c.N(s.off)
	o.t = c.Cat(c.Slice(old, zero, off), t, c.Slice(old, Add(off, c.Len(t)), c.Len(old)))
	m.st.heap[s.obj] = &o
}

func init() {
	const B = "(*math/big.Int)."
	reg := func(n string, f model) { models[n] = f }
	for _, w := range []struct {
		name string
		n    int64
	}{{"16", 2}, {"32", 4}, {"64", 8}} {
		w := w
		reg("(encoding/binary.bigEndian).Uint"+w.name, func(m *MC) []Outcome {
			c := m.st.c
			b := m.bytes(1)
			return m.cases(c.Le(Int(w.n), c.Len(b)), func(m *MC) []Outcome {
				c := m.st.c
				return m.ret(c.Val(256, c.Slice(c.N(b), zero, Int(w.n))))
			}, func(m *MC) []Outcome { return m.panics("index out of range") })
		})
		reg("(encoding/binary.bigEndian).PutUint"+w.name, func(m *MC) []Outcome {
			s, ok := m.args[1].(VSlice)
			if !ok {
				unsup("PutUint")
			}
			x := m.t(2)
			return m.cases(m.st.c.Le(Int(w.n), m.st.c.N(s.ln)), func(m *MC) []Outcome {
				m.putBytes(s, m.st.c.Dig(256, m.st.c.N(x), Int(w.n)))
				return m.ret()
			}, func(m *MC) []Outcome { return m.panics("index out of range") })
		})
		reg("(encoding/binary.bigEndian).AppendUint"+w.name, func(m *MC) []Outcome {
			c := m.st.c
			return m.ret(m.appendBytes(1, c.Dig(256, m.t(2), Int(w.n))))
		})
	}
	reg("encoding/hex.Encode", func(m *MC) []Outcome {
		s, ok := m.args[0].(VSlice)
		if !ok {
			unsup("hex.Encode")
		}
		c := m.st.c
		b := m.bytes(1)
		n := scale(c.Len(b), big.NewInt(2))
		return m.cases(c.Le(n, c.N(s.ln)), func(m *MC) []Outcome {
			c := m.st.c
			b, n := c.N(b), c.N(n)
			m.putBytes(s, c.Dig(16, c.Val(256, b), n))
			return m.ret(n)
		}, func(m *MC) []Outcome { return m.panics("index out of range") })
	})
	reg("encoding/hex.Decode", func(m *MC) []Outcome {
		s, ok := m.args[0].(VSlice)
		if !ok {
			unsup("hex.Decode")
		}
		c := m.st.c
		b := m.bytes(1)
		n := c.Len(b)
		h := c.Div(n, Int(2))
		good := And(c.EqInt(n, Mul(Int(2), h)), c.IsDig(16, b))
		return m.cases(c.Le(h, c.N(s.ln)), func(m *MC) []Outcome {
			return m.cases(good, func(m *MC) []Outcome {
				c := m.st.c
				h := c.N(h)
				m.putBytes(s, c.Dig(256, c.Val(16, c.N(b)), h))
				return m.ret(h, nilV)
			}, func(m *MC) []Outcome {
				c := m.st.c
				d := SVar(freshName("partial"))
				c.Assume(c.EqInt(mk("len", SInt, nil, "", d), c.N(h)))
				m.putBytes(s, d)
				r := IVar(freshName("decoded"))
				c.Assume(Le(zero, r))
				c.Assume(Le(r, c.N(h)))
				return m.ret(r, errV)
			})
		}, func(m *MC) []Outcome { unsup("hex.Decode into a slice that may be too short"); return nil })
	})
	eq := func(m *MC) []Outcome { return m.ret(m.st.c.EqSeq(m.bytes(0), m.bytes(1))) }
	reg("crypto/hmac.Equal", eq)
	prefix := func(suffix bool) model {
		return func(m *MC) []Outcome {
			c := m.st.c
			s, p := m.bytes(0), m.bytes(1)
			return m.cases(c.Le(c.Len(p), c.Len(s)), func(m *MC) []Outcome {
				c := m.st.c
				s, p := c.N(s), c.N(p)
				if suffix {
					return m.ret(c.EqSeq(c.Slice(s, Sub(c.Len(s), c.Len(p)), c.Len(s)), p))
				}
				return m.ret(c.EqSeq(c.Slice(s, zero, c.Len(p)), p))
			}, func(m *MC) []Outcome { return m.ret(False) })
		}
	}
	reg("bytes.HasPrefix", prefix(false))
	reg("bytes.HasSuffix", prefix(true))
	reg(B+"SetBit", func(m *MC) []Outcome {
		if _, ok := m.big(0); !ok {
			return m.panics("nil *big.Int")
		}
		x, ok := m.big(1)
		if !ok {
			return m.panics("nil *big.Int")
		}
		c := m.st.c
		i := m.e.wantConst(m.st, m.t(2), "SetBit at a symbolic position").Int64()
		if i < 0 {
			return m.panics("negative bit index")
		}
		b := m.t(3)
		m.nonneg(x)
		w := bitTerm(c, x, i)
		// b is 0 or 1, anything else panics
		return m.cases(c.N(And(Le(zero, b), Le(b, one))), func(m *MC) []Outcome {
			c := m.st.c
			return m.ret(m.setBig(0, c.N(Add(x, Mul(BigT(pow(2, i)), Sub(b, w))))))
		}, func(m *MC) []Outcome { return m.panics("set bit is not 0 or 1") })
	})
}
