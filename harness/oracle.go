// Independent reference implementations: secp256k1, Base58Check, SEC1, BIP39. Standard library only.
package main

import (
	"bytes"
	"crypto/hmac"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/binary"
	"math/big"
	"math/bits"
	"strings"
)

func hexBig(s string) *big.Int {
	n, ok := new(big.Int).SetString(s, 16)
	if !ok {
		panic(s)
	}
	return n
}

var (
	oP  = hexBig("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f")
	oN  = hexBig("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141")
	oGx = hexBig("79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798")
	oGy = hexBig("483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8")
	b0  = big.NewInt(0)
	b1  = big.NewInt(1)
	b2  = big.NewInt(2)
	b3  = big.NewInt(3)
	b7  = big.NewInt(7)
)

type pt struct{ x, y *big.Int } // x == nil: infinity

func mod(a *big.Int) *big.Int { return new(big.Int).Mod(a, oP) }

func oOn(x, y *big.Int) bool {
	if x.Sign() < 0 || y.Sign() < 0 || x.Cmp(oP) >= 0 || y.Cmp(oP) >= 0 {
		return false
	}
	return mod(new(big.Int).Mul(y, y)).Cmp(oRHS(x)) == 0
}

func oRHS(x *big.Int) *big.Int {
	t := new(big.Int).Mul(x, x)
	t.Mod(t, oP).Mul(t, x).Add(t, b7)
	return t.Mod(t, oP)
}

// oSqrtY returns the even y for x, or nil.
func oSqrtY(x *big.Int) *big.Int {
	r := oRHS(x)
	y := new(big.Int).ModSqrt(r, oP)
	if y == nil {
		return nil
	}
	if y.Bit(0) == 1 {
		y.Sub(oP, y)
	}
	return y
}

// oCbrtX returns an x with x^3 = y^2-7, or nil.
func oCbrtX(y *big.Int) *big.Int {
	t := mod(new(big.Int).Sub(new(big.Int).Mul(y, y), b7))
	e := new(big.Int).Div(new(big.Int).Add(oP, b2), big.NewInt(9)) // P = 7 mod 9
	x := new(big.Int).Exp(t, e, oP)
	if !oOn(x, y) {
		return nil
	}
	return x
}

func oAdd(p, q pt) pt {
	if p.x == nil {
		return q
	}
	if q.x == nil {
		return p
	}
	var l *big.Int
	if p.x.Cmp(q.x) == 0 {
		if p.y.Cmp(q.y) != 0 || p.y.Sign() == 0 {
			return pt{}
		}
		l = new(big.Int).Mul(b3, mod(new(big.Int).Mul(p.x, p.x)))
		l.Mul(l, new(big.Int).ModInverse(new(big.Int).Mul(b2, p.y), oP))
	} else {
		l = new(big.Int).Sub(q.y, p.y)
		l.Mul(l, new(big.Int).ModInverse(mod(new(big.Int).Sub(q.x, p.x)), oP))
	}
	l.Mod(l, oP)
	x := new(big.Int).Mul(l, l)
	x.Sub(x, p.x).Sub(x, q.x).Mod(x, oP)
	y := new(big.Int).Sub(p.x, x)
	y.Mul(y, l).Sub(y, p.y).Mod(y, oP)
	return pt{x, y}
}

var gTable []pt // 2^i G

func oMulG(k *big.Int) pt {
	if gTable == nil {
		g := pt{oGx, oGy}
		for i := 0; i < 256; i++ {
			gTable = append(gTable, g)
			g = oAdd(g, g)
		}
	}
	r := pt{}
	for i := 0; i < k.BitLen(); i++ {
		if k.Bit(i) == 1 {
			r = oAdd(r, gTable[i])
		}
	}
	return r
}

const b58a = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"

func oB58(b []byte) string {
	n := new(big.Int).SetBytes(b)
	m := new(big.Int)
	var out []byte
	for n.Sign() > 0 {
		n.DivMod(n, big.NewInt(58), m)
		out = append(out, b58a[m.Int64()])
	}
	for _, c := range b {
		if c != 0 {
			break
		}
		out = append(out, '1')
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return string(out)
}

func oB58d(s string) ([]byte, bool) {
	n := new(big.Int)
	z := 0
	lead := true
	for i := 0; i < len(s); i++ {
		k := strings.IndexByte(b58a, s[i])
		if k < 0 {
			return nil, false
		}
		if lead && k == 0 {
			z++
			continue
		}
		lead = false
		n.Mul(n, big.NewInt(58)).Add(n, big.NewInt(int64(k)))
	}
	return append(make([]byte, z), n.Bytes()...), true
}

func dsha(b []byte) []byte {
	h := sha256.Sum256(b)
	h = sha256.Sum256(h[:])
	return h[:]
}

func oCheck(b []byte) string { return oB58(append(append([]byte{}, b...), dsha(b)[:4]...)) }

func oCheckDec(s string) ([]byte, bool) {
	b, ok := oB58d(s)
	if !ok || len(b) < 4 {
		return nil, false
	}
	p := b[:len(b)-4]
	return p, bytes.Equal(dsha(p)[:4], b[len(b)-4:])
}

func hexv(c byte) int {
	switch {
	case '0' <= c && c <= '9':
		return int(c - '0')
	case 'a' <= c && c <= 'f':
		return int(c-'a') + 10
	case 'A' <= c && c <= 'F':
		return int(c-'A') + 10
	}
	return -1
}

func isHex(s string) bool {
	for i := 0; i < len(s); i++ {
		if hexv(s[i]) < 0 {
			return false
		}
	}
	return true
}

func hexNum(s string) *big.Int {
	n := new(big.Int)
	for i := 0; i < len(s); i++ {
		n.Lsh(n, 4)
		n.Or(n, big.NewInt(int64(hexv(s[i]))))
	}
	return n
}

func hex64(n *big.Int) string {
	s := n.Text(16)
	for len(s) < 64 {
		s = "0" + s
	}
	return s
}

func be(n *big.Int, w int) []byte {
	b := n.Bytes()
	for len(b) < w {
		b = append([]byte{0}, b...)
	}
	return b
}

func inRange(k *big.Int) bool { return k != nil && k.Sign() > 0 && k.Cmp(oN) < 0 }

func prefixByte(s string) byte { return byte(hexv(s[0])<<4 | hexv(s[1])) }

func oWIF(prefix string, k *big.Int) string {
	return oCheck(append([]byte{prefixByte(prefix)}, be(k, 32)...))
}

func oFormat(x, y *big.Int, comp bool) string {
	if !comp {
		return "04" + hex64(x) + hex64(y)
	}
	if y.Bit(0) == 0 {
		return "02" + hex64(x)
	}
	return "03" + hex64(x)
}

func oSEC(x, y *big.Int, comp bool) []byte {
	if !comp {
		return append(append([]byte{4}, be(x, 32)...), be(y, 32)...)
	}
	return append([]byte{byte(2 + y.Bit(0))}, be(x, 32)...)
}

// oParse returns the point of a SEC1 encoding in hex, or nil.
func oParse(h string) (x, y *big.Int) {
	if !isHex(h) {
		return nil, nil
	}
	switch {
	case len(h) == 130 && h[:2] == "04":
		x, y = hexNum(h[2:66]), hexNum(h[66:])
		if oOn(x, y) {
			return x, y
		}
	case len(h) == 66 && (h[:2] == "02" || h[:2] == "03"):
		x = hexNum(h[2:])
		if x.Cmp(oP) >= 0 {
			return nil, nil
		}
		y = oSqrtY(x)
		if y == nil {
			return nil, nil
		}
		if h[1] == '3' {
			y = new(big.Int).Sub(oP, y)
		}
		return x, y
	}
	return nil, nil
}

func oAddress(prefix string, x, y *big.Int, comp bool) string {
	h := sha256.Sum256(oSEC(x, y, comp))
	return oCheck(append([]byte{prefixByte(prefix)}, ripemd160(h[:])...))
}

// ---- BIP39 ----

func bitsOfBytes(b []byte) []byte {
	var r []byte
	for _, c := range b {
		for i := 7; i >= 0; i-- {
			r = append(r, c>>uint(i)&1)
		}
	}
	return r
}

func oMnemonic(ent []byte, wl []string) string {
	h := sha256.Sum256(ent)
	bs := append(bitsOfBytes(ent), bitsOfBytes(h[:])[:len(ent)/4]...)
	var ws []string
	for i := 0; i < len(bs); i += 11 {
		n := 0
		for _, b := range bs[i : i+11] {
			n = n<<1 | int(b)
		}
		ws = append(ws, wl[n])
	}
	return strings.Join(ws, " ")
}

var wlIndex = map[*string]map[string]int{}

// oDecode returns the entropy of a valid phrase.
func oDecode(m string, wl []string) ([]byte, bool) {
	ws := strings.Split(m, " ")
	n := len(ws)
	if len(wl) != 2048 || n != 12 && n != 15 && n != 18 && n != 21 && n != 24 {
		return nil, false
	}
	idx := map[string]int{}
	for i := len(wl) - 1; i >= 0; i-- {
		idx[wl[i]] = i
	}
	var bs []byte
	for _, w := range ws {
		k, ok := idx[w]
		if !ok {
			return nil, false
		}
		for i := 10; i >= 0; i-- {
			bs = append(bs, byte(k>>uint(i)&1))
		}
	}
	cs := n / 3
	ent := make([]byte, n/3*4)
	for i := range ent {
		for _, b := range bs[8*i : 8*i+8] {
			ent[i] = ent[i]<<1 | b
		}
	}
	h := sha256.Sum256(ent)
	return ent, bytes.Equal(bitsOfBytes(h[:])[:cs], bs[len(bs)-cs:])
}

func oSeed(m, pass string) []byte {
	mac := hmac.New(sha512.New, []byte(m))
	mac.Write([]byte("mnemonic" + pass))
	mac.Write([]byte{0, 0, 0, 1})
	u := mac.Sum(nil)
	out := append([]byte{}, u...)
	for i := 1; i < 2048; i++ {
		mac.Reset()
		mac.Write(u)
		u = mac.Sum(u[:0])
		for j := range out {
			out[j] ^= u[j]
		}
	}
	return out
}

// ---- RIPEMD-160 ----

var rmdR = [2][80]int{{
	0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15,
	7, 4, 13, 1, 10, 6, 15, 3, 12, 0, 9, 5, 2, 14, 11, 8,
	3, 10, 14, 4, 9, 15, 8, 1, 2, 7, 0, 6, 13, 11, 5, 12,
	1, 9, 11, 10, 0, 8, 12, 4, 13, 3, 7, 15, 14, 5, 6, 2,
	4, 0, 5, 9, 7, 12, 2, 10, 14, 1, 3, 8, 11, 6, 15, 13}, {
	5, 14, 7, 0, 9, 2, 11, 4, 13, 6, 15, 8, 1, 10, 3, 12,
	6, 11, 3, 7, 0, 13, 5, 10, 14, 15, 8, 12, 4, 9, 1, 2,
	15, 5, 1, 3, 7, 14, 6, 9, 11, 8, 12, 2, 10, 0, 4, 13,
	8, 6, 4, 1, 3, 11, 15, 0, 5, 12, 2, 13, 9, 7, 10, 14,
	12, 15, 10, 4, 1, 5, 8, 7, 6, 2, 13, 14, 0, 3, 9, 11}}
var rmdS = [2][80]int{{
	11, 14, 15, 12, 5, 8, 7, 9, 11, 13, 14, 15, 6, 7, 9, 8,
	7, 6, 8, 13, 11, 9, 7, 15, 7, 12, 15, 9, 11, 7, 13, 12,
	11, 13, 6, 7, 14, 9, 13, 15, 14, 8, 13, 6, 5, 12, 7, 5,
	11, 12, 14, 15, 14, 15, 9, 8, 9, 14, 5, 6, 8, 6, 5, 12,
	9, 15, 5, 11, 6, 8, 13, 12, 5, 12, 13, 14, 11, 8, 5, 6}, {
	8, 9, 9, 11, 13, 15, 15, 5, 7, 7, 8, 11, 14, 14, 12, 6,
	9, 13, 15, 7, 12, 8, 9, 11, 7, 7, 12, 7, 6, 15, 13, 11,
	9, 7, 15, 11, 8, 6, 6, 14, 12, 13, 5, 14, 13, 13, 7, 5,
	15, 5, 8, 11, 14, 14, 6, 14, 6, 9, 12, 9, 12, 5, 15, 8,
	8, 5, 12, 9, 12, 5, 14, 6, 8, 13, 6, 5, 15, 13, 11, 11}}
var rmdK = [2][5]uint32{{0, 0x5a827999, 0x6ed9eba1, 0x8f1bbcdc, 0xa953fd4e}, {0x50a28be6, 0x5c4dd124, 0x6d703ef3, 0x7a6d76e9, 0}}

func rmdF(j int, x, y, z uint32) uint32 {
	switch j / 16 {
	case 0:
		return x ^ y ^ z
	case 1:
		return x&y | ^x&z
	case 2:
		return (x | ^y) ^ z
	case 3:
		return x&z | y&^z
	}
	return x ^ (y | ^z)
}

func ripemd160(msg []byte) []byte {
	h := [5]uint32{0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0}
	b := append(append([]byte{}, msg...), 0x80)
	for len(b)%64 != 56 {
		b = append(b, 0)
	}
	var l [8]byte
	binary.LittleEndian.PutUint64(l[:], uint64(len(msg))*8)
	b = append(b, l[:]...)
	for ; len(b) > 0; b = b[64:] {
		var x [16]uint32
		for i := range x {
			x[i] = binary.LittleEndian.Uint32(b[4*i:])
		}
		var r [2][5]uint32
		for s := 0; s < 2; s++ {
			v := h
			for j := 0; j < 80; j++ {
				fj := j
				if s == 1 {
					fj = 79 - j
				}
				t := bits.RotateLeft32(v[0]+rmdF(fj, v[1], v[2], v[3])+x[rmdR[s][j]]+rmdK[s][j/16], rmdS[s][j]) + v[4]
				v[0], v[4], v[3], v[2], v[1] = v[4], v[3], bits.RotateLeft32(v[2], 10), v[1], t
			}
			r[s] = v
		}
		t := h[1] + r[0][2] + r[1][3]
		h[1] = h[2] + r[0][3] + r[1][4]
		h[2] = h[3] + r[0][4] + r[1][0]
		h[3] = h[4] + r[0][0] + r[1][1]
		h[4] = h[0] + r[0][1] + r[1][2]
		h[0] = t
	}
	out := make([]byte, 20)
	for i, v := range h {
		binary.LittleEndian.PutUint32(out[4*i:], v)
	}
	return out
}
