package main

import (
	"crypto/sha256"
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// MC is one call of a modelled (assumed) library function.
type MC struct {
	e    *Eng
	st   *State
	args []Value
	fn   *ssa.Function
	name string
	pos  string
}

func (m *MC) ret(v ...Value) []Outcome { return []Outcome{{st: m.st, kind: "ret", vals: v}} }
func (m *MC) panics(msg string) []Outcome {
	return []Outcome{{st: m.st, kind: "panic", msg: msg, pos: m.pos}}
}
func (m *MC) t(i int) *Term {
	t, ok := m.args[i].(*Term)
	if !ok {
		unsup("argument %d of %s is a %T", i, m.name, m.args[i])
	}
	return m.st.c.N(t)
}
func (m *MC) bytes(i int) *Term { return m.e.bytesOf(m.st, m.args[i]) }

var errV = VIface{kind: "err"}
var nilV = VIface{}

// cases forks on a condition.
func (m *MC) cases(cond *Term, yes, no func(m *MC) []Outcome) []Outcome {
	cond = m.st.c.N(cond)
	switch m.e.decide(m.st, cond) {
	case 1:
		return yes(m)
	case -1:
		return no(m)
	}
	m.e.pathCount++
	b := *m
	b.st = m.st.clone()
	b.st.c.Assume(Not(cond))
	m.st.c.Assume(cond)
	o := yes(m)
	return append(o, no(&b)...)
}

// big returns the value of a *big.Int argument; ok is false for nil.
func (m *MC) big(i int) (*Term, bool) {
	p, ok := m.args[i].(VPtr)
	if !ok {
		unsup("argument %d of %s", i, m.name)
	}
	if p.obj == 0 {
		return nil, false
	}
	o := m.st.obj(p.obj)
	if p.path != "" || o.kind != "big" {
		unsup("big.Int inside another object")
	}
	return m.st.c.N(o.t), true
}
func (m *MC) setBig(i int, t *Term) Value {
	p := m.args[i].(VPtr)
	if p.obj == 0 {
		unsup("nil receiver")
	}
	o := *m.st.obj(p.obj)
	o.t = m.st.c.N(t)
	m.st.heap[p.obj] = &o
	return p
}

type model func(m *MC) []Outcome

var models = map[string]model{}

// bigs evaluates the big.Int arguments, panicking on nil.
func bigs(n int, f func(m *MC, a []*Term) []Outcome) model {
	return func(m *MC) []Outcome {
		var a []*Term
		for i := 0; i < n; i++ {
			t, ok := m.big(i)
			if !ok {
				return m.panics("nil *big.Int")
			}
			a = append(a, t)
		}
		return f(m, a)
	}
}

func bigArith(f func(c *Ctx, x, y *Term) *Term) model {
	return bigs(3, func(m *MC, a []*Term) []Outcome { return m.ret(m.setBig(0, f(m.st.c, a[1], a[2]))) })
}

// divModel: op on x, y with y != 0; euclid selects Euclidean (else truncated, for non-negative x only).
func divModel(quo, euclid bool) model {
	return bigs(3, func(m *MC, a []*Term) []Outcome {
		return m.cases(m.st.c.EqInt(a[2], zero), func(m *MC) []Outcome { return m.panics("division by zero") }, func(m *MC) []Outcome {
			c := m.st.c
			x, y := c.N(a[1]), c.N(a[2])
			if !c.Prove(Lt(zero, y)) {
				unsup("division by a possibly negative number")
			}
			if !euclid && !c.Prove(Le(zero, x)) {
				unsup("truncated division of a possibly negative number")
			}
			if quo {
				return m.ret(m.setBig(0, c.Div(x, y)))
			}
			return m.ret(m.setBig(0, c.Mod(x, y)))
		})
	})
}

func cmpTerm(c *Ctx, a, b *Term) *Term {
	return c.Ite(c.N(c.Lt(a, b)), Int(-1), c.Ite(c.N(c.EqInt(a, b)), zero, one))
}

func init() {
	B := "(*math/big.Int)."
	reg := func(n string, f model) { models[n] = f }

	// ---- math/big ----
	reg("math/big.NewInt", func(m *MC) []Outcome { return m.ret(m.e.newBig(m.st, m.t(0))) })
	reg(B+"Set", bigs(2, func(m *MC, a []*Term) []Outcome { return m.ret(m.setBig(0, a[1])) }))
	reg(B+"SetInt64", bigs(1, func(m *MC, a []*Term) []Outcome { return m.ret(m.setBig(0, m.t(1))) }))
	reg(B+"SetUint64", bigs(1, func(m *MC, a []*Term) []Outcome { return m.ret(m.setBig(0, m.t(1))) }))
	reg(B+"SetBytes", bigs(1, func(m *MC, a []*Term) []Outcome { return m.ret(m.setBig(0, m.st.c.Val(256, m.bytes(1)))) }))
	reg(B+"Add", bigArith(func(c *Ctx, x, y *Term) *Term { return Add(x, y) }))
	reg(B+"Sub", bigArith(func(c *Ctx, x, y *Term) *Term { return Sub(x, y) }))
	reg(B+"Mul", bigArith(func(c *Ctx, x, y *Term) *Term { return Mul(x, y) }))
	reg(B+"Neg", bigs(2, func(m *MC, a []*Term) []Outcome { return m.ret(m.setBig(0, Neg(a[1]))) }))
	reg(B+"Abs", bigs(2, func(m *MC, a []*Term) []Outcome {
		c := m.st.c
		return m.ret(m.setBig(0, c.Ite(c.N(Le(zero, a[1])), a[1], Neg(a[1]))))
	}))
	reg(B+"Mod", divModel(false, true))
	reg(B+"Div", divModel(true, true))
	reg(B+"Quo", divModel(true, false))
	reg(B+"Rem", divModel(false, false))
	dm := func(euclid bool) model {
		return bigs(4, func(m *MC, a []*Term) []Outcome {
			return m.cases(m.st.c.EqInt(a[2], zero), func(m *MC) []Outcome { return m.panics("division by zero") }, func(m *MC) []Outcome {
				c := m.st.c
				x, y := c.N(a[1]), c.N(a[2])
				if !c.Prove(Lt(zero, y)) || (!euclid && !c.Prove(Le(zero, x))) {
					unsup("division with possibly negative operands")
				}
				q, r := c.Div(x, y), c.Mod(x, y)
				m.setBig(3, r)
				return m.ret(m.setBig(0, q), m.args[3])
			})
		})
	}
	reg(B+"DivMod", dm(true))
	reg(B+"QuoRem", dm(false))
	reg(B+"Cmp", bigs(2, func(m *MC, a []*Term) []Outcome { return m.ret(cmpTerm(m.st.c, a[0], a[1])) }))
	reg(B+"CmpAbs", bigs(2, func(m *MC, a []*Term) []Outcome {
		if !m.st.c.Prove(And(Le(zero, a[0]), Le(zero, a[1]))) {
			unsup("CmpAbs of possibly negative numbers")
		}
		return m.ret(cmpTerm(m.st.c, a[0], a[1]))
	}))
	reg(B+"Sign", bigs(1, func(m *MC, a []*Term) []Outcome { return m.ret(cmpTerm(m.st.c, a[0], zero)) }))
	reg(B+"Bit", bigs(1, func(m *MC, a []*Term) []Outcome {
		c := m.st.c
		i := m.t(1)
		if m.e.bitHook != nil {
			if b := m.e.bitHook(m.st, a[0], i); b != nil {
				return m.ret(b)
			}
		}
		k := m.e.wantConst(m.st, i, "Bit at a symbolic position").Int64()
		if k < 0 {
			return m.panics("negative bit index")
		}
		if !c.Prove(Le(zero, a[0])) {
			unsup("Bit of a possibly negative number")
		}
		return m.ret(bitTerm(c, a[0], k))
	}))
	reg(B+"BitLen", bigs(1, func(m *MC, a []*Term) []Outcome {
		c := m.st.c
		if a[0].isConst() {
			return m.ret(Int(int64(a[0].c.BitLen())))
		}
		if !c.Prove(Le(zero, a[0])) {
			unsup("BitLen of a possibly negative number")
		}
		if c.Prove(Lt(zero, a[0])) {
			return m.ret(c.Len(c.Min(2, a[0])))
		}
		return m.cases(c.N(c.EqInt(a[0], zero)), func(m *MC) []Outcome { return m.ret(zero) },
			func(m *MC) []Outcome { return m.ret(m.st.c.Len(m.st.c.Min(2, m.st.c.N(a[0])))) })
	}))
	reg(B+"Bytes", bigs(1, func(m *MC, a []*Term) []Outcome {
		m.nonneg(a[0])
		return m.ret(m.e.newBytes(m.st, m.st.c.Min(256, a[0])))
	}))
	reg(B+"FillBytes", bigs(1, func(m *MC, a []*Term) []Outcome {
		c := m.st.c
		m.nonneg(a[0])
		s, ok := m.args[1].(VSlice)
		if !ok {
			unsup("FillBytes")
		}
		n := c.constOf(s.ln)
		if n == nil || n.Int64() > 4096 {
			unsup("FillBytes of symbolic length")
		}
		return m.cases(c.Lt(a[0], BigT(pow(256, n.Int64()))), func(m *MC) []Outcome {
			o := *m.st.obj(s.obj)
			if o.shared {
				unsup("FillBytes into shared memory")
			}
			c := m.st.c
			t, off := c.N(o.t), c.N(s.off)
			o.t = c.Cat(c.Slice(t, zero, off), c.Dig(256, c.N(a[0]), BigT(n)), c.Slice(t, Add(off, BigT(n)), c.Len(t)))
			m.st.heap[s.obj] = &o
			return m.ret(s)
		}, func(m *MC) []Outcome { return m.panics("FillBytes: buffer too small") })
	}))
	reg(B+"Int64", bigs(1, func(m *MC, a []*Term) []Outcome { return m.ret(m.e.wrap(m.st, a[0], types.Typ[types.Int64])) }))
	reg(B+"Uint64", bigs(1, func(m *MC, a []*Term) []Outcome { return m.ret(m.e.wrap(m.st, a[0], types.Typ[types.Uint64])) }))
	reg(B+"IsInt64", bigs(1, func(m *MC, a []*Term) []Outcome {
		lo, hi, _, _ := intRange(types.Typ[types.Int64])
		return m.ret(m.st.c.N(And(Le(BigT(lo), a[0]), Le(a[0], BigT(hi)))))
	}))
	reg(B+"IsUint64", bigs(1, func(m *MC, a []*Term) []Outcome {
		lo, hi, _, _ := intRange(types.Typ[types.Uint64])
		return m.ret(m.st.c.N(And(Le(BigT(lo), a[0]), Le(a[0], BigT(hi)))))
	}))
	reg(B+"Lsh", bigs(2, func(m *MC, a []*Term) []Outcome {
		k := m.e.wantConst(m.st, m.t(2), "shift by a symbolic amount").Int64()
		return m.ret(m.setBig(0, scale(a[1], pow(2, k))))
	}))
	reg(B+"Rsh", bigs(2, func(m *MC, a []*Term) []Outcome {
		k := m.e.wantConst(m.st, m.t(2), "shift by a symbolic amount").Int64()
		return m.ret(m.setBig(0, m.st.c.Div(a[1], BigT(pow(2, k)))))
	}))
	reg(B+"And", bigs(3, func(m *MC, a []*Term) []Outcome {
		x, y := a[1], a[2]
		if x.isConst() {
			x, y = y, x
		}
		m.nonneg(x)
		if y.isConst() && y.c.Sign() >= 0 {
			if k, ok := log2(new(big.Int).Add(y.c, big.NewInt(1))); ok {
				return m.ret(m.setBig(0, m.st.c.Mod(x, BigT(pow(2, k)))))
			}
		}
		return m.bigBits(token.AND, x, y)
	}))
	reg(B+"Xor", bigs(3, func(m *MC, a []*Term) []Outcome { return m.bigBits(token.XOR, a[1], a[2]) }))
	reg(B+"AndNot", bigs(3, func(m *MC, a []*Term) []Outcome { return m.bigBits(token.AND_NOT, a[1], a[2]) }))
	reg(B+"Or", bigs(3, func(m *MC, a []*Term) []Outcome {
		if r := m.e.disjointOr(m.st.c, a[1], a[2]); r != nil {
			return m.ret(m.setBig(0, r))
		}
		return m.bigBits(token.OR, a[1], a[2])
	}))
	reg(B+"Exp", func(m *MC) []Outcome {
		x, ok1 := m.big(1)
		y, ok2 := m.big(2)
		if !ok1 || !ok2 {
			return m.panics("nil *big.Int")
		}
		md, hasM := m.big(3)
		if hasM && md == zero {
			hasM = false
		}
		c := m.st.c
		y = BigT(m.e.wantConst(m.st, y, "Exp with a symbolic exponent"))
		if y.c.Sign() < 0 {
			unsup("Exp with a symbolic or negative exponent")
		}
		if !hasM {
			if x.isConst() {
				if y.c.BitLen() > 16 {
					unsup("Exp too large")
				}
				return m.ret(m.setBig(0, BigT(new(big.Int).Exp(x.c, y.c, nil))))
			}
			if y.c.Cmp(big.NewInt(6)) > 0 {
				unsup("Exp of a symbolic number")
			}
			r := one
			for i := int64(0); i < y.c.Int64(); i++ {
				r = Mul(r, x)
			}
			return m.ret(m.setBig(0, r))
		}
		if !md.isConst() || md.c.Sign() <= 0 {
			unsup("Exp with a symbolic modulus")
		}
		if y.c.Cmp(big.NewInt(6)) <= 0 {
			r := one
			for i := int64(0); i < y.c.Int64(); i++ {
				r = Mul(r, x)
			}
			return m.ret(m.setBig(0, c.Mod(r, md)))
		}
		return m.ret(m.setBig(0, c.App("modpow", SInt, c.Mod(x, md), y, md)))
	})
	reg(B+"ModInverse", bigs(3, func(m *MC, a []*Term) []Outcome {
		c := m.st.c
		n := a[2]
		if !n.isConst() || !n.c.ProbablyPrime(20) {
			unsup("ModInverse modulo a number that is not a known prime")
		}
		x := c.Mod(a[1], n)
		return m.cases(c.EqInt(x, zero), func(m *MC) []Outcome { return m.ret(nilPtr) },
			func(m *MC) []Outcome { return m.ret(m.setBig(0, m.st.c.App("modinv", SInt, m.st.c.N(x), n))) })
	}))
	reg(B+"ModSqrt", bigs(3, func(m *MC, a []*Term) []Outcome { unsup("ModSqrt"); return nil }))
	reg(B+"SetString", func(m *MC) []Outcome {
		if _, ok := m.big(0); !ok {
			return m.panics("nil *big.Int")
		}
		b, ok := m.t(2).int64()
		if !ok || (b != 2 && b != 10 && b != 16) {
			unsup("SetString base")
		}
		c := m.st.c
		s := m.t(1)
		n := c.Len(s)
		plain := And(Lt(zero, n), c.IsDig(b, s))
		return m.cases(plain, func(m *MC) []Outcome {
			return m.ret(m.setBig(0, m.st.c.Val(b, m.st.c.N(s))), True)
		}, func(m *MC) []Outcome {
			c := m.st.c
			s := c.N(s)
			return m.cases(c.Le(c.Len(s), one), func(m *MC) []Outcome { return m.ret(nilPtr, False) }, func(m *MC) []Outcome {
				c := m.st.c
				s := c.N(s)
				first := c.At(s, zero)
				rest := c.Slice(s, one, c.Len(s))
				signed := And(Or(c.EqInt(first, Int('+')), c.EqInt(first, Int('-'))), c.IsDig(b, rest))
				return m.cases(signed, func(m *MC) []Outcome {
					c := m.st.c
					v := c.Val(b, c.N(rest))
					return m.ret(m.setBig(0, c.Ite(c.N(c.EqInt(c.N(first), Int('-'))), Neg(v), v)), True)
				}, func(m *MC) []Outcome { return m.ret(nilPtr, False) })
			})
		})
	})
	reg(B+"Text", bigs(1, func(m *MC, a []*Term) []Outcome {
		b, ok := m.t(1).int64()
		if !ok || (b != 2 && b != 10 && b != 16) {
			unsup("Text base")
		}
		return m.numText(a[0], b, func(m *MC, t *Term) []Outcome { return m.ret(t) })
	}))
	reg(B+"Append", bigs(1, func(m *MC, a []*Term) []Outcome {
		b, ok := m.t(2).int64()
		if !ok || (b != 2 && b != 10 && b != 16) {
			unsup("Append base")
		}
		return m.numText(a[0], b, func(m *MC, t *Term) []Outcome {
			return m.ret(m.appendBytes(1, t))
		})
	}))
	reg(B+"String", bigs(1, func(m *MC, a []*Term) []Outcome {
		return m.numText(a[0], 10, func(m *MC, t *Term) []Outcome { return m.ret(t) })
	}))

	// ---- encoding/hex ----
	reg("encoding/hex.EncodeToString", func(m *MC) []Outcome {
		c := m.st.c
		b := m.bytes(0)
		return m.ret(c.Dig(16, c.Val(256, b), scale(c.Len(b), big.NewInt(2))))
	})
	reg("encoding/hex.DecodeString", func(m *MC) []Outcome {
		c := m.st.c
		s := m.t(0)
		n := c.Len(s)
		h := c.Div(n, Int(2))
		good := And(c.EqInt(n, Mul(Int(2), h)), c.IsDig(16, s))
		return m.cases(good, func(m *MC) []Outcome {
			c := m.st.c
			s := c.N(s)
			n := c.Len(s)
			h := c.N(c.Div(n, Int(2)))
			return m.ret(m.e.newBytes(m.st, c.Dig(256, c.Val(16, s), h)), nilV)
		}, func(m *MC) []Outcome {
			return m.ret(m.e.newBytes(m.st, SVar(freshName("partial"))), errV)
		})
	})
	reg("encoding/hex.DecodedLen", func(m *MC) []Outcome { return m.ret(m.st.c.Div(m.t(0), Int(2))) })
	reg("encoding/hex.EncodedLen", func(m *MC) []Outcome { return m.ret(scale(m.t(0), big.NewInt(2))) })

	// ---- hashes ----
	newHash := func(h string) model {
		return func(m *MC) []Outcome {
			id := m.e.newObj(m.st, &Obj{kind: "hash", label: h, t: Empty})
			return m.ret(VIface{kind: "hash", v: VPtr{obj: id}})
		}
	}
	reg("crypto/sha256.New", newHash("sha256"))
	reg("crypto/sha512.New", newHash("sha512"))
	reg("golang.org/x/crypto/ripemd160.New", newHash("ripemd160"))
	reg("crypto/sha256.New224", newHash("sha224"))
	reg("crypto/sha512.New384", newHash("sha384"))
	reg("crypto/sha1.New", newHash("sha1"))
	reg("crypto/md5.New", newHash("md5"))
	sum := func(h string) model {
		return func(m *MC) []Outcome { return m.ret(m.st.c.App(h, SSeq, m.bytes(0))) }
	}
	reg("crypto/sha256.Sum256", sum("sha256"))
	reg("crypto/sha512.Sum512", sum("sha512"))
	reg("crypto/sha1.Sum", sum("sha1"))
	pb := func(m *MC, pw, salt, iter, n *Term, f Value) *Term {
		c := m.st.c
		h, ok := f.(*VFunc)
		if !ok || h == nil || h.fn == nil {
			unsup("pbkdf2 with an unknown hash")
		}
		return c.App("pbkdf2", SSeq, pw, salt, iter, n, Lit(h.fn.String()))
	}
	reg("golang.org/x/crypto/pbkdf2.Key", func(m *MC) []Outcome {
		return m.ret(m.e.newBytes(m.st, pb(m, m.bytes(0), m.bytes(1), m.t(2), m.t(3), m.args[4])))
	})
	reg("crypto/pbkdf2.Key", func(m *MC) []Outcome {
		return m.ret(m.e.newBytes(m.st, pb(m, m.t(1), m.bytes(2), m.t(3), m.t(4), m.args[0])), nilV)
	})

	// ---- base58 ----
	reg("github.com/mr-tron/base58.Encode", func(m *MC) []Outcome { return m.ret(m.st.c.App("b58enc", SSeq, m.bytes(0))) })
	reg("github.com/mr-tron/base58.FastBase58Encoding", models["github.com/mr-tron/base58.Encode"])
	reg("github.com/mr-tron/base58.Decode", func(m *MC) []Outcome {
		s := m.t(0)
		return m.cases(m.st.c.App("isb58", SBool, s), func(m *MC) []Outcome {
			return m.ret(m.e.newBytes(m.st, m.st.c.App("b58dec", SSeq, m.st.c.N(s))), nilV)
		}, func(m *MC) []Outcome { return m.ret(VSlice{off: zero, ln: zero, cp: zero}, errV) })
	})
	reg("github.com/mr-tron/base58.FastBase58Decoding", models["github.com/mr-tron/base58.Decode"])
	alph := func(m *MC, i int) string {
		p, ok := m.args[i].(VPtr)
		if !ok || p.obj != -1 {
			unsup("base58 alphabet")
		}
		if p.path == "github.com/mr-tron/base58.BTCAlphabet" {
			return ""
		}
		return "~" + p.path
	}
	reg("github.com/mr-tron/base58.EncodeAlphabet", func(m *MC) []Outcome {
		return m.ret(m.st.c.App("b58enc"+alph(m, 1), SSeq, m.bytes(0)))
	})
	reg("github.com/mr-tron/base58.DecodeAlphabet", func(m *MC) []Outcome {
		a := alph(m, 1)
		s := m.t(0)
		return m.cases(m.st.c.App("isb58"+a, SBool, s), func(m *MC) []Outcome {
			return m.ret(m.e.newBytes(m.st, m.st.c.App("b58dec"+a, SSeq, m.st.c.N(s))), nilV)
		}, func(m *MC) []Outcome { return m.ret(VSlice{off: zero, ln: zero, cp: zero}, errV) })
	})

	// ---- crypto/rand ----
	reg("crypto/rand.Int", func(m *MC) []Outcome {
		if r, ok := m.args[0].(VIface); !ok || r.kind != "reader" {
			unsup("rand.Int from another reader")
		}
		b, ok := m.big(1)
		if !ok {
			return m.panics("nil *big.Int")
		}
		return m.cases(Le(b, zero), func(m *MC) []Outcome { return m.panics("rand.Int: max <= 0") }, func(m *MC) []Outcome {
			f := BVar(freshName("randfail"))
			return m.cases(f, func(m *MC) []Outcome {
				m.st.rfail = Or(m.st.rfail, f)
				return m.ret(nilPtr, errV)
			}, func(m *MC) []Outcome {
				d := IVar(freshName("draw"))
				m.st.c.Assume(Le(zero, d))
				m.st.c.Assume(Lt(d, b))
				m.st.draws = append(m.st.draws, Draw{v: d, bound: b})
				return m.ret(m.e.newBig(m.st, d), nilV)
			})
		})
	})
	reg("crypto/rand.Read", func(m *MC) []Outcome {
		s, ok := m.args[0].(VSlice)
		if !ok {
			unsup("rand.Read")
		}
		return m.readRandom(s)
	})
	reg("io.ReadFull", func(m *MC) []Outcome {
		if r, ok := m.args[0].(VIface); !ok || r.kind != "reader" {
			unsup("ReadFull from another reader")
		}
		return m.readRandom(m.args[1].(VSlice))
	})

	// ---- errors, fmt, log ----
	reg("errors.New", func(m *MC) []Outcome { return m.ret(errV) })
	reg("fmt.Errorf", func(m *MC) []Outcome { return m.ret(errV) })
	reg("errors.Is", func(m *MC) []Outcome {
		a := m.args[0].(VIface)
		if a.kind == "" {
			return m.ret(boolT(m.args[1].(VIface).kind == ""))
		}
		return m.ret(BVar(freshName("errorsIs")))
	})
	for _, n := range []string{"fmt.Print", "fmt.Println", "fmt.Printf", "log.Print", "log.Println", "log.Printf", "fmt.Fprintf", "fmt.Fprintln", "fmt.Fprint"} {
		n := n
		reg(n, func(m *MC) []Outcome {
			if strings.HasPrefix(n, "fmt.F") {
				if f, ok := m.args[0].(VIface); ok && f.kind == "val" {
					if p, ok := f.v.(VPtr); ok && p.obj > 0 && m.st.obj(p.obj).kind == "builder" {
						fm := ""
						va := 1
						if n == "fmt.Fprintf" {
							fm = litArg(m, 1)
							va = 2
							return m.sprintf(fm, m.varargs(va), func(m *MC, t *Term) []Outcome {
								o := *m.st.obj(p.obj)
								o.t = m.st.c.Cat(m.st.c.N(o.t), t)
								m.st.heap[p.obj] = &o
								return m.ret(m.st.c.Len(t), nilV)
							})
						}
						unsup("%s", n)
					}
				}
			}
			m.st.io = append(m.st.io, n+" at "+m.pos)
			if strings.HasPrefix(n, "log") {
				return m.ret()
			}
			return m.ret(IVar(freshName("n")), nilV)
		})
	}
	for _, n := range []string{"log.Fatal", "log.Fatalf", "log.Fatalln", "os.Exit"} {
		n := n
		reg(n, func(m *MC) []Outcome {
			return []Outcome{{st: m.st, kind: "exit", msg: n + " ends the process", pos: m.pos}}
		})
	}
	for _, n := range []string{"log.Panic", "log.Panicf", "log.Panicln"} {
		reg(n, func(m *MC) []Outcome { return m.panics("log.Panic") })
	}
	reg("fmt.Sprintf", func(m *MC) []Outcome {
		return m.sprintf(litArg(m, 0), m.varargs(1), func(m *MC, t *Term) []Outcome { return m.ret(t) })
	})
	reg("fmt.Sprint", func(m *MC) []Outcome {
		va := m.varargs(0)
		f := ""
		for range va {
			f += "%v"
		}
		for _, v := range va {
			if x, ok := v.(VIface); !ok || x.typ == nil || !isStr(x.typ) {
				if len(va) > 1 {
					unsup("Sprint")
				}
			}
		}
		return m.sprintf(f, va, func(m *MC, t *Term) []Outcome { return m.ret(t) })
	})

	// ---- reflect ----
	reg("reflect.DeepEqual", func(m *MC) []Outcome {
		a, ok1 := m.args[0].(VIface)
		b, ok2 := m.args[1].(VIface)
		if !ok1 || !ok2 {
			unsup("DeepEqual")
		}
		if a.kind == "" || b.kind == "" {
			return m.ret(boolT(a.kind == b.kind))
		}
		if a.kind != "val" || b.kind != "val" {
			unsup("DeepEqual")
		}
		if !types.Identical(a.typ, b.typ) {
			return m.ret(False)
		}
		return m.ret(m.e.deepEq(m.st, a.v, b.v, a.typ))
	})

	// ---- strings, bytes ----
	reg("strings.ToLower", func(m *MC) []Outcome { return m.ret(m.st.c.App("tolower", SSeq, m.t(0))) })
	reg("strings.ToUpper", func(m *MC) []Outcome { return m.ret(m.st.c.App("toupper", SSeq, m.t(0))) })
	reg("strings.EqualFold", func(m *MC) []Outcome {
		c := m.st.c
		a, b := m.t(0), m.t(1)
		if !c.isDigits(16, a) && !c.isDigits(16, b) {
			unsup("EqualFold of arbitrary strings")
		}
		// hexadecimal digits fold only with their other ASCII case
		return m.ret(c.EqSeq(c.App("tolower", SSeq, a), c.App("tolower", SSeq, b)))
	})
	reg("strings.Repeat", func(m *MC) []Outcome {
		c := m.st.c
		s, n := m.t(0), m.t(1)
		if s.op != "lit" {
			unsup("Repeat of a symbolic string")
		}
		return m.cases(Le(zero, n), func(m *MC) []Outcome {
			n := m.st.c.N(n)
			if len(s.s) == 0 {
				return m.ret(Empty)
			}
			if len(s.s) == 1 {
				return m.ret(m.st.c.Rep(Int(int64(s.s[0])), n))
			}
			k, ok := n.int64()
			if !ok {
				unsup("Repeat of a longer string")
			}
			return m.ret(Lit(strings.Repeat(s.s, int(k))))
		}, func(m *MC) []Outcome { _ = c; return m.panics("strings: negative Repeat count") })
	})
	reg("bytes.Repeat", func(m *MC) []Outcome {
		s, n := m.bytes(0), m.t(1)
		if s.op != "lit" || len(s.s) != 1 {
			unsup("bytes.Repeat")
		}
		return m.cases(Le(zero, n), func(m *MC) []Outcome {
			return m.ret(m.e.newBytes(m.st, m.st.c.Rep(Int(int64(s.s[0])), m.st.c.N(n))))
		}, func(m *MC) []Outcome { return m.panics("bytes: negative Repeat count") })
	})
	reg("strings.Split", func(m *MC) []Outcome {
		c := m.st.c
		s, sep := m.t(0), m.t(1)
		if sep.op != "lit" || len(sep.s) == 0 {
			unsup("Split by a symbolic or empty separator")
		}
		return m.ret(m.newList(c.App("split", SList, s, sep)))
	})
	reg("strings.SplitN", func(m *MC) []Outcome {
		sep := m.t(1)
		if sep.op != "lit" || len(sep.s) == 0 || !m.st.c.Prove(Lt(m.t(2), zero)) {
			unsup("SplitN")
		}
		return m.ret(m.newList(m.st.c.App("split", SList, m.t(0), sep)))
	})
	reg("strings.Fields", func(m *MC) []Outcome {
		return m.ret(m.newList(m.st.c.App("fields", SList, m.t(0))))
	})
	reg("strings.Join", func(m *MC) []Outcome {
		j := m.st.c.App("join", SSeq, m.e.listOf(m.st, m.args[0]), m.t(1))
		if joinedList(j) && (len(j.args[0].args) <= 4 || j.args[1] == Empty) {
			return m.ret(m.st.c.expandJoin(j))
		}
		return m.ret(j)
	})
	for _, p := range []string{"strings.", "bytes."} {
		text := func(m *MC, i int) *Term {
			if strings.HasPrefix(m.name, "bytes.") {
				return m.bytes(i)
			}
			return m.t(i)
		}
		char := func(m *MC) *Term { return m.st.c.Chr(m.t(1)) }
		reg(p+"Contains", func(m *MC) []Outcome { return m.find(text(m, 0), text(m, 1), false, true) })
		reg(p+"Index", func(m *MC) []Outcome { return m.find(text(m, 0), text(m, 1), false, false) })
		reg(p+"LastIndex", func(m *MC) []Outcome { return m.find(text(m, 0), text(m, 1), true, false) })
		reg(p+"IndexByte", func(m *MC) []Outcome { return m.find(text(m, 0), char(m), false, false) })
		reg(p+"LastIndexByte", func(m *MC) []Outcome { return m.find(text(m, 0), char(m), true, false) })
		one := func(test bool) model {
			return func(m *MC) []Outcome {
				s, r := text(m, 0), m.t(1)
				if s.op == "lit" && isASCII(s.s) {
					// a rune outside ASCII is in no ASCII string
					return m.cases(m.st.c.N(And(Le(zero, r), Lt(r, Int(128)))), func(m *MC) []Outcome {
						return m.find(s, m.st.c.Chr(m.st.c.N(r)), false, test)
					}, func(m *MC) []Outcome {
						if test {
							return m.ret(False)
						}
						return m.ret(Int(-1))
					})
				}
				unsup("%s", m.name)
				return nil
			}
		}
		reg(p+"IndexRune", one(false))
		reg(p+"ContainsRune", one(true))
		reg(p+"ContainsAny", func(m *MC) []Outcome {
			c := m.st.c
			s, t := text(m, 0), m.t(1)
			if t.op == "lit" && !isASCII(t.s) {
				unsup("%s", m.name)
			}
			n := m.e.wantConst(m.st, c.Len(s), "search in a string of symbolic length").Int64()
			k := m.e.wantConst(m.st, c.Len(t), "search for a string of symbolic length").Int64()
			if n*k > 80 || t.op != "lit" {
				unsup("%s", m.name)
			}
			var at []*Term
			for i := int64(0); i < n; i++ {
				for j := int64(0); j < k; j++ {
					at = append(at, c.EqSeq(c.Slice(s, Int(i), Int(i+1)), c.Slice(t, Int(j), Int(j+1))))
				}
			}
			return m.ret(c.N(Or(at...)))
		})
	}
	reg("strings.HasPrefix", func(m *MC) []Outcome {
		c := m.st.c
		s, p := m.t(0), m.t(1)
		return m.cases(c.Le(c.Len(p), c.Len(s)), func(m *MC) []Outcome {
			c := m.st.c
			s, p := c.N(s), c.N(p)
			return m.ret(c.EqSeq(c.Slice(s, zero, c.Len(p)), p))
		}, func(m *MC) []Outcome { return m.ret(False) })
	})
	reg("strings.HasSuffix", func(m *MC) []Outcome {
		c := m.st.c
		s, p := m.t(0), m.t(1)
		return m.cases(c.Le(c.Len(p), c.Len(s)), func(m *MC) []Outcome {
			c := m.st.c
			s, p := c.N(s), c.N(p)
			return m.ret(c.EqSeq(c.Slice(s, Sub(c.Len(s), c.Len(p)), c.Len(s)), p))
		}, func(m *MC) []Outcome { return m.ret(False) })
	})
	cut := func(suffix bool) model {
		return func(m *MC) []Outcome {
			c := m.st.c
			s, p := m.t(0), m.t(1)
			fit := c.Le(c.Len(p), c.Len(s))
			return m.cases(fit, func(m *MC) []Outcome {
				c := m.st.c
				s, p := c.N(s), c.N(p)
				a, b := c.Slice(s, zero, c.Len(p)), c.Slice(s, c.Len(p), c.Len(s))
				if suffix {
					d := Sub(c.Len(s), c.Len(p))
					a, b = c.Slice(s, d, c.Len(s)), c.Slice(s, zero, d)
				}
				return m.cases(c.EqSeq(a, p), func(m *MC) []Outcome { return m.ret(m.st.c.N(b)) }, func(m *MC) []Outcome { return m.ret(m.st.c.N(s)) })
			}, func(m *MC) []Outcome { return m.ret(m.st.c.N(s)) })
		}
	}
	reg("strings.TrimPrefix", cut(false))
	reg("strings.TrimSuffix", cut(true))
	reg("strings.Compare", func(m *MC) []Outcome { unsup("strings.Compare"); return nil })
	reg("strings.Count", func(m *MC) []Outcome {
		s, sep := m.t(0), m.t(1)
		if sep.op == "lit" && len(sep.s) == 1 {
			return m.ret(Sub(m.st.c.LLen(m.st.c.App("split", SList, s, sep)), one))
		}
		unsup("strings.Count")
		return nil
	})
	reg("bytes.Equal", func(m *MC) []Outcome { return m.ret(m.st.c.EqSeq(m.bytes(0), m.bytes(1))) })
	reg("crypto/subtle.ConstantTimeCompare", func(m *MC) []Outcome {
		return m.ret(m.st.c.Ite(m.st.c.N(m.st.c.EqSeq(m.bytes(0), m.bytes(1))), one, zero))
	})
	reg("bytes.Clone", func(m *MC) []Outcome { return m.ret(m.e.newBytes(m.st, m.bytes(0))) })
	reg("strings.Clone", func(m *MC) []Outcome { return m.ret(m.t(0)) })
	ixModel := func(m *MC) []Outcome {
		return m.ret(m.st.c.App("indexof", SInt, m.e.listOf(m.st, m.args[0]), m.t(1)))
	}
	reg("slices.Index", ixModel)
	reg("slices.Contains", func(m *MC) []Outcome {
		return m.ret(m.st.c.N(Le(zero, m.st.c.App("indexof", SInt, m.e.listOf(m.st, m.args[0]), m.t(1)))))
	})
	reg("slices.Equal", func(m *MC) []Outcome { unsup("slices.Equal"); return nil })
	W := func(n string) []string { return []string{"(*strings.Builder)." + n, "(*bytes.Buffer)." + n} }
	app := func(f func(m *MC) *Term, ret func(m *MC, t *Term) []Outcome) model {
		return func(m *MC) []Outcome {
			p := m.args[0].(VPtr)
			if p.obj == 0 || p.path != "" {
				unsup("builder")
			}
			t := f(m)
			o := *m.st.obj(p.obj)
			o.t = m.st.c.Cat(m.st.c.N(o.t), t)
			m.st.heap[p.obj] = &o
			return ret(m, t)
		}
	}
	for i, n := range W("WriteString") {
		reg(n, app(func(m *MC) *Term { return m.t(1) }, func(m *MC, t *Term) []Outcome { return m.ret(m.st.c.Len(t), nilV) }))
		reg(W("Write")[i], app(func(m *MC) *Term { return m.bytes(1) }, func(m *MC, t *Term) []Outcome { return m.ret(m.st.c.Len(t), nilV) }))
		reg(W("WriteByte")[i], app(func(m *MC) *Term { return m.st.c.Chr(m.t(1)) }, func(m *MC, t *Term) []Outcome { return m.ret(nilV) }))
		reg(W("WriteRune")[i], app(func(m *MC) *Term {
			if !m.st.c.Prove(And(Le(zero, m.t(1)), Le(m.t(1), Int(127)))) {
				unsup("WriteRune")
			}
			return m.st.c.Chr(m.t(1))
		}, func(m *MC, t *Term) []Outcome { return m.ret(one, nilV) }))
		get := func(m *MC) *Term {
			p := m.args[0].(VPtr)
			if p.obj == 0 || p.path != "" {
				unsup("builder")
			}
			return m.st.c.N(m.st.obj(p.obj).t)
		}
		reg(W("String")[i], func(m *MC) []Outcome { return m.ret(get(m)) })
		reg(W("Len")[i], func(m *MC) []Outcome { return m.ret(m.st.c.Len(get(m))) })
		reg(W("Bytes")[i], func(m *MC) []Outcome { return m.ret(m.e.newBytes(m.st, get(m))) })
		reg(W("Grow")[i], func(m *MC) []Outcome { return m.ret() })
		reg(W("Reset")[i], func(m *MC) []Outcome {
			p := m.args[0].(VPtr)
			o := *m.st.obj(p.obj)
			o.t = Empty
			m.st.heap[p.obj] = &o
			return m.ret()
		})
	}
	reg("io.WriteString", func(m *MC) []Outcome {
		w, ok := m.args[0].(VIface)
		if !ok {
			unsup("io.WriteString")
		}
		return m.e.writeTo(m, w, m.t(1))
	})

	// ---- strconv ----
	reg("strconv.Itoa", func(m *MC) []Outcome {
		return m.numText(m.t(0), 10, func(m *MC, t *Term) []Outcome { return m.ret(t) })
	})
	fi := func(m *MC) []Outcome {
		b, ok := m.t(1).int64()
		if !ok || (b != 2 && b != 10 && b != 16) {
			unsup("FormatInt base")
		}
		return m.numText(m.t(0), b, func(m *MC, t *Term) []Outcome { return m.ret(t) })
	}
	reg("strconv.FormatInt", fi)
	reg("strconv.FormatUint", fi)
	parse := func(signed bool) model {
		return func(m *MC) []Outcome {
			c := m.st.c
			s := m.t(0)
			b, ok := m.t(1).int64()
			bits, ok2 := m.t(2).int64()
			if !ok || !ok2 || (b != 2 && b != 10 && b != 16) {
				unsup("ParseInt base")
			}
			if bits == 0 {
				bits = 64
			}
			if signed {
				bits--
			}
			good := And(Lt(zero, c.Len(s)), c.IsDig(b, s))
			return m.cases(good, func(m *MC) []Outcome {
				c := m.st.c
				v := c.Val(b, c.N(s))
				return m.cases(c.Lt(v, BigT(pow(2, bits))), func(m *MC) []Outcome { return m.ret(m.st.c.N(v), nilV) },
					func(m *MC) []Outcome { return m.ret(BigT(new(big.Int).Sub(pow(2, bits), big.NewInt(1))), errV) })
			}, func(m *MC) []Outcome {
				if signed {
					unsup("ParseInt of a possibly signed string")
				}
				return m.ret(zero, errV)
			})
		}
	}
	reg("strconv.ParseInt", parse(true))
	reg("strconv.ParseUint", parse(false))
	reg("math/bits.Len", func(m *MC) []Outcome { unsup("bits.Len"); return nil })
}

func litArg(m *MC, i int) string {
	t := m.t(i)
	if t.op != "lit" {
		unsup("format is not a constant")
	}
	return t.s
}

// bigBits: bitwise operators on numbers that are not negative.
func (m *MC) bigBits(op token.Token, x, y *Term) []Outcome {
	m.nonneg(x)
	m.nonneg(y)
	if x.isConst() && y.isConst() {
		z := new(big.Int)
		switch op {
		case token.AND:
			z.And(x.c, y.c)
		case token.OR:
			z.Or(x.c, y.c)
		case token.XOR:
			z.Xor(x.c, y.c)
		case token.AND_NOT:
			z.AndNot(x.c, y.c)
		}
		return m.ret(m.setBig(0, BigT(z)))
	}
	if op == token.XOR {
		if r := m.e.disjointOr(m.st.c, x, y); r != nil {
			return m.ret(m.setBig(0, r))
		}
	}
	var r *Term
	if !x.isConst() && !y.isConst() && op != token.AND {
		// in terms of the common bits
		if r = m.e.bitwise(m.st, token.AND, x, y); r != nil {
			switch op {
			case token.OR:
				r = Sub(Add(x, y), r)
			case token.XOR:
				r = Sub(Add(x, y), Add(r, r))
			case token.AND_NOT:
				r = Sub(x, r)
			}
			m.st.c.Assume(Le(zero, r))
		}
	} else {
		r = m.e.bitwise(m.st, op, x, y)
	}
	if r == nil {
		unsup("%s", op)
	}
	return m.ret(m.setBig(0, r))
}

// find: the first (last) place of t in s. Lengths must be constants on the path; the place is a case of its own.
func (m *MC) find(s, t *Term, last, test bool) []Outcome {
	c := m.st.c
	n := m.e.wantConst(m.st, c.Len(s), "search in a string of symbolic length").Int64()
	k := m.e.wantConst(m.st, c.Len(t), "search for a string of symbolic length").Int64()
	var at []*Term
	for i := int64(0); i+k <= n; i++ {
		at = append(at, c.EqSeq(c.Slice(s, Int(i), Int(i+k)), t))
	}
	if test {
		if len(at) > 80 {
			unsup("search in a long string")
		}
		return m.ret(c.N(Or(at...)))
	}
	if len(at) > 64 {
		unsup("search in a long string")
	}
	r := Int(-1)
	for j := range at {
		i := len(at) - 1 - j
		if last {
			i = j
		}
		r = c.Ite(c.N(at[i]), Int(int64(i)), r)
	}
	return m.ret(r)
}

func (m *MC) nonneg(t *Term) {
	lo, _ := m.st.c.bounds(t)
	if lo != nil && lo.Sign() >= 0 {
		return
	}
	if !m.st.c.Prove(Le(zero, t)) {
		unsup("%s of a possibly negative number", m.name)
	}
}

func (m *MC) newList(t *Term) Value {
	if t.op == "mklist" {
		o := &Obj{kind: "arr", elem: types.Typ[types.String]}
		for _, a := range t.args {
			o.arr = append(o.arr, a)
		}
		return VSlice{m.e.newObj(m.st, o), zero, Int(int64(len(t.args))), nil}
	}
	return VSlice{m.e.newObj(m.st, &Obj{kind: "list", t: t}), zero, m.st.c.LLen(t), nil}
}

// bitTerm: bit k of n >= 0, as 0 or 1.
func bitTerm(c *Ctx, n *Term, k int64) *Term {
	n = c.N(n)
	if n.isConst() {
		return Int(int64(n.c.Bit(int(k))))
	}
	_, hi := c.bounds(n)
	if hi != nil {
		w := int64(hi.BitLen())
		if n.op == "val" {
			if L, ok := c.Len(n.args[0]).int64(); ok && bitsOf(n.c.Int64()) > 0 {
				w = L * bitsOf(n.c.Int64())
			}
		}
		if k >= w {
			return zero
		}
		if d := c.asBits(n, w); d != nil {
			return Sub(c.At(d, Int(w-1-k)), Int(48))
		}
	}
	return c.Mod(c.Div(n, BigT(pow(2, k))), Int(2))
}

func (m *MC) varargs(i int) []Value {
	s, ok := m.args[i].(VSlice)
	if !ok {
		unsup("variadic arguments")
	}
	if s.obj == 0 {
		return nil
	}
	a, _ := m.st.c.N(s.off).int64()
	l, ok := m.st.c.N(s.ln).int64()
	if !ok {
		unsup("variadic arguments")
	}
	return m.st.obj(s.obj).arr[a : a+l]
}

// numText continues with the shortest text of n in the base.
func (m *MC) numText(n *Term, b int64, k func(m *MC, t *Term) []Outcome) []Outcome {
	if n.isConst() {
		return k(m, Lit(n.c.Text(int(b))))
	}
	return m.cases(Le(zero, n), func(m *MC) []Outcome { return k(m, m.st.c.Min(b, m.st.c.N(n))) },
		func(m *MC) []Outcome { return k(m, m.st.c.Cat(Lit("-"), m.st.c.Min(b, Neg(m.st.c.N(n))))) })
}

func (m *MC) sprintf(f string, args []Value, k func(m *MC, t *Term) []Outcome) []Outcome {
	return m.sprintfFrom(Empty, f, args, k)
}

func (m *MC) sprintfFrom(acc *Term, f string, args []Value, k func(m *MC, t *Term) []Outcome) []Outcome {
	i := strings.IndexByte(f, '%')
	if i < 0 {
		if len(args) > 0 {
			unsup("extra format arguments")
		}
		return k(m, m.st.c.Cat(acc, Lit(f)))
	}
	acc = m.st.c.Cat(acc, Lit(f[:i]))
	f = f[i+1:]
	if f == "" {
		unsup("format")
	}
	if f[0] == '%' {
		return m.sprintfFrom(m.st.c.Cat(acc, Lit("%")), f[1:], args, k)
	}
	zeroPad := false
	j := 0
	if f[j] == '0' {
		zeroPad = true
		j++
	}
	st := j
	for j < len(f) && f[j] >= '0' && f[j] <= '9' {
		j++
	}
	width := 0
	if j > st {
		width, _ = strconv.Atoi(f[st:j])
	}
	if j < len(f) && f[j] == '*' {
		if len(args) == 0 {
			unsup("format")
		}
		wv, ok := args[0].(VIface)
		if !ok {
			unsup("format")
		}
		wt, ok := wv.v.(*Term)
		if !ok {
			unsup("format width")
		}
		w := m.st.c.constOf(wt)
		if w == nil || w.Sign() < 0 {
			unsup("format width")
		}
		width = int(w.Int64())
		args = args[1:]
		j++
	}
	if j >= len(f) || len(args) == 0 {
		unsup("format %q", f)
	}
	if width > 0 && !zeroPad {
		unsup("format with space padding")
	}
	verb := f[j]
	rest := f[j+1:]
	arg, ok := args[0].(VIface)
	if !ok || arg.kind == "" {
		unsup("format argument")
	}
	args = args[1:]
	cont := func(m *MC, t *Term) []Outcome { return m.sprintfFrom(m.st.c.Cat(m.st.c.N(acc), t), rest, args, k) }
	if arg.kind == "err" {
		return cont(m, SVar(freshName("errtext")))
	}
	num := func(n *Term) []Outcome {
		var b int64
		switch verb {
		case 'x':
			b = 16
		case 'b':
			b = 2
		case 'd', 'v', 's':
			b = 10
		default:
			unsup("format verb %c", verb)
		}
		if width == 0 {
			return m.numText(n, b, cont)
		}
		m.nonneg(n)
		return m.cases(Lt(n, BigT(pow(b, int64(width)))), func(m *MC) []Outcome {
			return cont(m, m.st.c.Dig(b, m.st.c.N(n), Int(int64(width))))
		}, func(m *MC) []Outcome { return m.numText(m.st.c.N(n), b, cont) })
	}
	switch v := arg.v.(type) {
	case *Term:
		switch v.sort {
		case SInt:
			if bt, ok := arg.typ.Underlying().(*types.Basic); !ok || bt.Info()&types.IsInteger == 0 || verb == 's' {
				unsup("format of %s", arg.typ)
			}
			if verb == 'c' {
				v = m.st.c.N(v)
				if !m.st.c.Prove(And(Le(zero, v), Le(v, Int(127)))) {
					unsup("%%c of a rune that may not be ASCII")
				}
				return cont(m, m.st.c.Chr(v))
			}
			return num(m.st.c.N(v))
		case SSeq:
			t := m.st.c.N(v)
			if width != 0 {
				// padding counts characters, the model bytes
				if verb != 's' && verb != 'v' || !isStr(arg.typ) || !asciiText(t) {
					unsup("padded text")
				}
				w := Int(int64(width))
				return m.cases(m.st.c.N(Lt(m.st.c.Len(t), w)), func(m *MC) []Outcome {
					c := m.st.c
					t := c.N(t)
					return cont(m, c.Cat(c.Rep(Int('0'), Sub(w, c.Len(t))), t))
				}, func(m *MC) []Outcome { return cont(m, m.st.c.N(t)) })
			}
			switch verb {
			case 's', 'v':
				if !isStr(arg.typ) {
					unsup("format of %s", arg.typ)
				}
				return cont(m, t)
			case 'x':
				return cont(m, m.st.c.Dig(16, m.st.c.Val(256, t), scale(m.st.c.Len(t), big.NewInt(2))))
			}
		}
	case VPtr:
		pt, ok := arg.typ.Underlying().(*types.Pointer)
		if !ok || !isBigInt(pt.Elem()) {
			unsup("format of %s", arg.typ)
		}
		if v.obj == 0 {
			return cont(m, Lit("<nil>"))
		}
		return num(m.st.c.N(m.st.obj(v.obj).t))
	case VSlice:
		if sl, ok := arg.typ.Underlying().(*types.Slice); ok && isByte(sl.Elem()) && width == 0 {
			t := m.e.bytesOf(m.st, v)
			switch verb {
			case 'x':
				return cont(m, m.st.c.Dig(16, m.st.c.Val(256, t), scale(m.st.c.Len(t), big.NewInt(2))))
			case 's':
				return cont(m, t)
			}
		}
	}
	unsup("format %%%c of %s", verb, arg.typ)
	return nil
}

// asciiText: one byte per character.
func asciiText(t *Term) bool {
	switch t.op {
	case "lit":
		return isASCII(t.s)
	case "dig", "min":
		return t.c.Int64() <= 36
	case "cat":
		for _, a := range t.args {
			if !asciiText(a) {
				return false
			}
		}
		return true
	}
	return false
}

func (m *MC) readRandom(s VSlice) []Outcome {
	f := BVar(freshName("randfail"))
	return m.cases(f, func(m *MC) []Outcome {
		m.st.rfail = Or(m.st.rfail, f)
		if s.obj != 0 { // contents unspecified
			o := *m.st.obj(s.obj)
			o.t = SVar(freshName("garbage"))
			m.st.c.Assume(m.st.c.EqInt(mk("len", SInt, nil, "", o.t), m.st.c.Len(m.st.obj(s.obj).t)))
			m.st.heap[s.obj] = &o
		}
		return m.ret(IVar(freshName("n")), errV)
	}, func(m *MC) []Outcome {
		if s.obj == 0 {
			return m.ret(zero, nilV)
		}
		c := m.st.c
		d := SVar(freshName("rbytes"))
		n := c.N(s.ln)
		c.Assume(c.EqInt(mk("len", SInt, nil, "", d), n))
		o := *m.st.obj(s.obj)
		if o.kind != "bytes" || o.shared {
			unsup("random bytes into %s", o.kind)
		}
		t, off := c.N(o.t), c.N(s.off)
		o.t = c.Cat(c.Slice(t, zero, off), d, c.Slice(t, Add(off, n), c.Len(t)))
		m.st.heap[s.obj] = &o
		m.st.draws = append(m.st.draws, Draw{v: d, bytes: true})
		return m.ret(n, nilV)
	})
}

func (e *Eng) writeTo(m *MC, w VIface, t *Term) []Outcome {
	if w.kind == "hash" {
		p := w.v.(VPtr)
		o := *m.st.obj(p.obj)
		o.t = m.st.c.Cat(m.st.c.N(o.t), t)
		m.st.heap[p.obj] = &o
		return m.ret(m.st.c.Len(t), nilV)
	}
	if w.kind == "val" {
		if p, ok := w.v.(VPtr); ok && p.obj > 0 && m.st.obj(p.obj).kind == "builder" {
			o := *m.st.obj(p.obj)
			o.t = m.st.c.Cat(m.st.c.N(o.t), t)
			m.st.heap[p.obj] = &o
			return m.ret(m.st.c.Len(t), nilV)
		}
	}
	unsup("write to an unknown writer")
	return nil
}

func (e *Eng) invoke(st *State, recv VIface, method string, args []Value, x *ssa.Call) []Outcome {
	m := &MC{e: e, st: st, args: args, name: "method " + method}
	if x != nil {
		m.pos = e.pos(x.Pos())
	}
	switch recv.kind {
	case "":
		return m.panics("method call on nil interface")
	case "err":
		if method == "Error" {
			return m.ret(SVar(freshName("errtext")))
		}
	case "reader":
		if method == "Read" {
			unsup("direct Read")
		}
	case "hash":
		p := recv.v.(VPtr)
		o := *st.obj(p.obj)
		switch method {
		case "Write":
			return e.writeTo(m, recv, e.bytesOf(st, args[0]))
		case "Sum":
			h := st.c.App(o.label, SSeq, st.c.N(o.t))
			s := args[0].(VSlice)
			if s.obj == 0 {
				return m.ret(e.newBytes(st, h))
			}
			return m.ret(e.appendTo(st, s, types.Typ[types.Byte], h, nil))
		case "Reset":
			o.t = Empty
			st.heap[p.obj] = &o
			return m.ret()
		case "Size":
			if n, ok := ufLen[o.label]; ok {
				return m.ret(Int(n))
			}
		}
	case "val":
		// method of a concrete type of an inlined package
		ms := e.prog.MethodSets.MethodSet(recv.typ)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == method {
				fn := e.prog.MethodValue(ms.At(i))
				return e.callFn(st, fn, append([]Value{recv.v}, args...), nil, x)
			}
		}
	}
	unsup("method %s of %s interface", method, recv.kind)
	return nil
}

// deepEq is reflect.DeepEqual on two values of one type.
func (e *Eng) deepEq(st *State, a, b Value, t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		x, y := a.(VPtr), b.(VPtr)
		if x == y {
			return True
		}
		if x.obj == 0 || y.obj == 0 {
			return False
		}
		if isBigInt(u.Elem()) {
			unsup("DeepEqual of big.Int")
		}
		return e.deepEq(st, e.load(st, x, u.Elem()), e.load(st, y, u.Elem()), u.Elem())
	case *types.Struct:
		x, y := a.(*VStruct), b.(*VStruct)
		var o []*Term
		for i := 0; i < u.NumFields(); i++ {
			o = append(o, e.deepEq(st, x.f[i], y.f[i], u.Field(i).Type()))
		}
		return And(o...)
	case *types.Basic:
		return st.c.Eq(st.c.N(a.(*Term)), st.c.N(b.(*Term)))
	case *types.Slice:
		x, y := a.(VSlice), b.(VSlice)
		if isByte(u.Elem()) {
			if (x.obj == 0) != (y.obj == 0) {
				return False
			}
			return st.c.EqSeq(e.bytesOf(st, x), e.bytesOf(st, y))
		}
	}
	unsup("DeepEqual of %s", t)
	return nil
}

// ---- normalising applications of uninterpreted functions ----

func (c *Ctx) App(name string, s Sort, a ...*Term) *Term {
	for i := range a {
		a[i] = c.N(a[i])
	}
	switch name {
	case "sha256", "ripemd160", "b58enc", "sha512", "sha1", "md5":
		if name == "b58enc" && a[0].isUF("b58dec") && c.known(UF("isb58", SBool, a[0].args[0])) {
			return a[0].args[0]
		}
		if k := c.canonBits(a[0]); k != a[0] {
			a[0] = k
		}
		if name == "sha256" && a[0].op == "lit" {
			h := sha256.Sum256([]byte(a[0].s))
			return Lit(string(h[:]))
		}
	case "isdig":
		return c.IsDig(a[0].c.Int64(), a[1])
	case "b58dec":
		if a[0].isUF("b58enc") {
			return a[0].args[0]
		}
	case "isb58":
		if a[0].isUF("b58enc") {
			return c.N(Lt(zero, c.Len(a[0].args[0])))
		}
		if a[0] == Empty {
			return False
		}
	case "tolower":
		if a[0].op == "lit" {
			return Lit(strings.ToLower(a[0].s))
		}
		var out []*Term
		for _, x := range segs(a[0]) {
			if c.lowerDigits(16, x) {
				out = append(out, x)
			} else if c.isDigits(16, x) {
				out = append(out, c.canonDigits(16, x))
			} else if x.op == "lit" && isASCII(x.s) {
				out = append(out, Lit(strings.ToLower(x.s)))
			} else {
				return c.atom(UF(name, s, a...))
			}
		}
		return c.Cat(out...)
	case "toupper":
		if a[0].op == "lit" {
			return Lit(strings.ToUpper(a[0].s))
		}
	case "lastindexof":
		if c.known(UF("distinctlist", SBool, a[0])) {
			return c.App("indexof", SInt, a[0], a[1])
		}
	case "indexof":
		if a[0].op == "mklist" && a[1].op == "lit" {
			all := true
			for i, x := range a[0].args {
				if x == a[1] {
					return Int(int64(i))
				}
				if x.op != "lit" {
					all = false
					break
				}
			}
			if all {
				return Int(-1)
			}
		}
		if a[1].op == "elem" && a[1].args[0] == a[0] && c.known(UF("distinctlist", SBool, a[0])) {
			i := a[1].args[1]
			n := c.LLen(a[0])
			if c.N(Le(zero, i)) == True && c.N(Lt(i, n)) == True {
				return i
			}
		}
	case "split":
		if a[0].op == "lit" && a[1].op == "lit" && a[1].s != "" {
			var l []*Term
			for _, x := range strings.Split(a[0].s, a[1].s) {
				l = append(l, Lit(x))
			}
			return mk("mklist", SList, nil, "", l...)
		}
		if a[0].isUF("join") && a[0].args[1] == a[1] && a[0].args[0].op == "mklist" && len(a[0].args[0].args) > 0 {
			ok := true
			for _, w := range a[0].args[0].args {
				switch {
				case w.op == "lit" && a[1].op == "lit" && !strings.Contains(w.s, a[1].s):
				case w.op == "elem" && a[1] == Lit(" ") && c.known(UF("nospace", SBool, w.args[0])) &&
					c.N(Le(zero, w.args[1])) == True && c.N(Lt(w.args[1], c.LLen(w.args[0]))) == True:
				default:
					ok = false
				}
			}
			if ok {
				return a[0].args[0]
			}
		}
	case "fields":
		if a[0].op == "lit" {
			var l []*Term
			for _, x := range strings.Fields(a[0].s) {
				l = append(l, Lit(x))
			}
			return mk("mklist", SList, nil, "", l...)
		}
	case "join":
		if a[0].op == "mklist" && a[1].op == "lit" {
			all := true
			var ws []string
			for _, x := range a[0].args {
				if x.op != "lit" {
					all = false
					break
				}
				ws = append(ws, x.s)
			}
			if all {
				return Lit(strings.Join(ws, a[1].s))
			}
		}
	case "modpow":
		if a[0].isConst() && a[1].isConst() && a[2].isConst() {
			return BigT(new(big.Int).Exp(a[0].c, a[1].c, a[2].c))
		}
	case "modinv":
		if a[0].isConst() && a[1].isConst() {
			if v := new(big.Int).ModInverse(a[0].c, a[1].c); v != nil {
				return BigT(v)
			}
		}
	}
	if r := ecApp(c, name, s, a); r != nil {
		return r
	}
	return c.atom(UF(name, s, a...))
}

func isASCII(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] > 127 {
			return false
		}
	}
	return true
}

func (c *Ctx) known(t *Term) bool { return c.sub[t] == True }

var _ = fmt.Sprint

// appendBytes is append(arg i, bytes...), with append's sharing of the spare capacity.
func (m *MC) appendBytes(i int, t *Term) Value {
	s, ok := m.args[i].(VSlice)
	if !ok {
		unsup("append to an unknown slice")
	}
	if s.obj == 0 {
		return m.e.newBytes(m.st, t)
	}
	return m.e.appendTo(m.st, s, types.Typ[types.Byte], t, nil)
}
