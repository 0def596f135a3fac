// Inputs: boundary values, structured mutations, constants of the code, solver models, histories.
package main

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	mrand "math/rand"
	"os"
	"strconv"
	"strings"
)

type Dict struct {
	Ints    []string            `json:"ints"` // decimal
	Strings []string            `json:"strings"`
	Models  []map[string]string `json:"models"` // parameter path -> value (strings quoted, numbers decimal)
	Funcs   []string            `json:"funcs"`  // of the models
}

type gen struct {
	r     *mrand.Rand
	nums  []*big.Int
	strs  []string
	dict  Dict
	keys  []*big.Int // recently used
	hexes []string
	wifs  []string
	pts   []pt
	phr   []string
	nets  []*Net
	shaE  map[int][][]byte // entropies whose hash begins with zeros
}

func pow2(k uint) *big.Int { return new(big.Int).Lsh(b1, k) }

func newGen(seed int64, dictFile string) *gen {
	g := &gen{r: mrand.New(mrand.NewSource(seed)), shaE: map[int][][]byte{}}
	add := func(n *big.Int) {
		for d := int64(-2); d <= 2; d++ {
			g.nums = append(g.nums, new(big.Int).Add(n, big.NewInt(d)))
		}
	}
	add(b0)
	add(oN)
	add(oP)
	add(new(big.Int).Rsh(oN, 1))
	add(pow2(256))
	add(new(big.Int).Lsh(oN, 1))
	for _, k := range []uint{7, 8, 16, 31, 32, 63, 64, 96, 127, 128, 160, 192, 224, 240, 244, 248, 250, 251, 252, 253, 254, 255} {
		add(pow2(k))
	}
	if b, err := os.ReadFile(dictFile); err == nil {
		json.Unmarshal(b, &g.dict)
	}
	for _, s := range g.dict.Ints {
		if n, ok := new(big.Int).SetString(s, 10); ok {
			add(n)
			add(new(big.Int).Sub(oN, n))
		}
	}
	for _, s := range g.dict.Strings {
		g.strs = append(g.strs, s)
		if isHex(s) && len(s) > 0 && len(s) <= 64 {
			add(hexNum(s))
			for len(s) < 64 {
				s += "0"
			}
			g.nums = append(g.nums, hexNum(s))
		}
	}
	for _, m := range g.dict.Models {
		for _, v := range m {
			if strings.HasPrefix(v, "\"") {
				if u, err := strconv.Unquote(v); err == nil {
					g.strs = append(g.strs, u)
				}
			} else if n, ok := new(big.Int).SetString(v, 10); ok {
				add(n)
			}
		}
	}
	g.nets = []*Net{{Lib: "main"}, {Lib: "test"}, {Priv: "80", Pub: "00"}, {Priv: "EF", Pub: "6F"}, {Priv: "ef", Pub: "6f"}, {Priv: "00", Pub: "05"},
		{Priv: "ff", Pub: "FF"}, {Priv: "b0", Pub: "30"}, {Priv: "80", Pub: "6F"}, {Priv: "EF", Pub: "00"}, {Priv: "0A", Pub: "1e"}, {Priv: "Ef", Pub: "6f"}, {Priv: "01", Pub: "0b"}}
	for _, n := range []int{16, 20, 24, 28, 32} {
		// entropies whose SHA-256 begins with a zero byte (or two)
		for c, i := 0, 0; c < 12 && i < 400000; i++ {
			e := make([]byte, n)
			g.r.Read(e)
			if i%3 == 0 {
				e[0] = 0
			}
			h := sha256.Sum256(e)
			if h[0] == 0 && (c < 8 || h[1] < 8) {
				g.shaE[n] = append(g.shaE[n], e)
				c++
			}
		}
	}
	return g
}

func (g *gen) n(k int) int    { return g.r.Intn(k) }
func (g *gen) p(pct int) bool { return g.r.Intn(100) < pct }

var strayPrefixes = []string{"", "0", "8", "zz", "0g", "800", "8000", "0x", " 8", "é"}

func (g *gen) net() *Net {
	if g.p(45) {
		return g.nets[g.n(2)]
	}
	if g.p(20) {
		return &Net{Priv: fmt.Sprintf([]string{"%02x", "%02X"}[g.n(2)], g.n(256)), Pub: fmt.Sprintf([]string{"%02x", "%02X"}[g.n(2)], g.n(256))}
	}
	c := *g.nets[g.n(len(g.nets))]
	return &c
}

func (g *gen) bytes(n int) []byte {
	b := make([]byte, n)
	g.r.Read(b)
	return b
}

// num: any number around the interesting places.
func (g *gen) num() *big.Int {
	switch g.n(10) {
	case 0, 1, 2:
		return g.nums[g.n(len(g.nums))]
	case 3:
		if len(g.keys) > 0 {
			return g.keys[g.n(len(g.keys))]
		}
	case 4: // leading zeros
		return new(big.Int).SetBytes(g.bytes(1 + g.n(32)))
	case 5:
		return new(big.Int).Rsh(new(big.Int).SetBytes(g.bytes(32)), uint(g.n(20)))
	case 6: // trailing zeros, zero runs inside
		b := g.bytes(32)
		i := g.n(32)
		for j := i; j < 32 && j < i+1+g.n(32); j++ {
			b[j] = 0
		}
		return new(big.Int).SetBytes(b)
	case 7:
		return big.NewInt(int64(1 + g.n(300)))
	}
	return new(big.Int).SetBytes(g.bytes(32))
}

func (g *gen) key() *big.Int {
	for {
		if k := g.num(); inRange(k) {
			if len(g.keys) < 40 {
				g.keys = append(g.keys, k)
			} else {
				g.keys[g.n(40)] = k
			}
			return k
		}
	}
}

func (g *gen) casing(s string) string {
	switch g.n(4) {
	case 0:
		return strings.ToUpper(s)
	case 1:
		b := []byte(s)
		for i := range b {
			if g.p(50) {
				b[i] = strings.ToUpper(string(b[i : i+1]))[0]
			}
		}
		return string(b)
	}
	return s
}

var junk = []string{"", " ", "\n", "\x00", "0x", "+", "-", "_", "g", "G", "é", "0", "00", "1", "\xff", "\t", "z", "O", "I", "l", "０"}

func (g *gen) mutate(s string) string {
	j := junk[g.n(len(junk))]
	i := 0
	if len(s) > 0 {
		i = g.n(len(s) + 1)
	}
	switch g.n(9) {
	case 0:
		return s[:i] + j + s[i:]
	case 1:
		if i < len(s) {
			return s[:i] + s[i+1:]
		}
		return s + j
	case 2:
		if i < len(s) && len(j) == 1 {
			return s[:i] + j + s[i+1:]
		}
		return j + s
	case 3:
		return s[:i]
	case 4:
		return s[i:]
	case 5:
		return s + s
	case 6: // same length, junk at either end
		if len(s) > len(j) {
			if g.p(50) {
				return j + s[len(j):]
			}
			return s[:len(s)-len(j)] + j
		}
		return j
	case 7:
		if i < len(s) {
			return s[:i] + string([]byte{s[i] ^ byte(1<<uint(g.n(8)))}) + s[i+1:]
		}
		return s
	}
	return strings.Repeat(j, g.n(70))
}

func (g *gen) hexStr() string {
	if len(g.strs) > 0 && g.p(10) {
		return g.strs[g.n(len(g.strs))]
	}
	if len(g.hexes) > 0 && g.p(15) {
		return g.hexes[g.n(len(g.hexes))]
	}
	k := g.num()
	s := hex64(new(big.Int).Abs(k))
	if g.p(50) {
		s = hex64(g.key())
	}
	if g.p(5) {
		s = strings.TrimLeft(s, "0")
	}
	s = g.casing(s)
	if g.p(30) {
		s = g.mutate(s)
	}
	if len(g.hexes) < 30 {
		g.hexes = append(g.hexes, s)
	} else {
		g.hexes[g.n(30)] = s
	}
	return s
}

func (g *gen) wif(n *Net) string {
	if len(g.strs) > 0 && g.p(6) {
		return g.strs[g.n(len(g.strs))]
	}
	if len(g.wifs) > 0 && g.p(15) {
		return g.wifs[g.n(len(g.wifs))]
	}
	pre := n.priv()
	if g.p(12) {
		pre = g.net().priv()
	}
	k := g.key()
	if g.p(15) {
		k = new(big.Int).Abs(g.num())
	}
	kb := be(k, 32)
	if g.p(10) {
		kb = g.bytes(g.n(60))
	} else if len(kb) > 32 && g.p(50) {
		kb = kb[:32]
	}
	pl := append([]byte{prefixByte(pre)}, kb...)
	switch g.n(8) {
	case 0, 1:
		pl = append(pl, 1)
	case 2:
		pl = append(pl, byte(g.n(4)))
	case 3:
		if g.p(30) {
			pl = append(pl, g.bytes(g.n(4))...)
		}
	}
	if g.p(5) {
		pl = pl[1:]
	}
	if g.p(4) {
		pl = append(make([]byte, g.n(4)), pl...)
	}
	if g.p(3) {
		pl = g.bytes(g.n(6))
	}
	sum := append([]byte{}, dsha(pl)[:4]...)
	switch g.n(10) {
	case 0: // one bit of the checksum
		sum[g.n(4)] ^= byte(1 << uint(g.n(8)))
	case 1:
		sum[g.n(4)] = byte(g.n(256))
	case 2:
		if g.p(30) {
			h := sha256.Sum256(pl) // single hash
			copy(sum, h[:4])
		} else if g.p(50) {
			copy(sum, dsha(pl)[28:])
		} else {
			sum = sum[:g.n(4)]
		}
	}
	s := oB58(append(pl, sum...))
	if g.p(12) {
		s = g.mutate(s)
	}
	if g.p(3) {
		s = "1" + s
	}
	if len(g.wifs) < 30 {
		g.wifs = append(g.wifs, s)
	} else {
		g.wifs[g.n(30)] = s
	}
	return s
}

func (g *gen) point() pt {
	if len(g.pts) > 0 && g.p(30) {
		q := g.pts[g.n(len(g.pts))]
		if g.p(30) {
			return pt{q.x, new(big.Int).Sub(oP, q.y)}
		}
		return q
	}
	var q pt
	for q.x == nil {
		switch g.n(6) {
		case 0:
			q = oMulG(g.key())
		case 1, 2: // chosen x
			x := new(big.Int).Abs(g.num())
			for i := 0; i < 40; i++ {
				if x.Cmp(oP) < 0 {
					if y := oSqrtY(x); y != nil {
						if g.p(50) {
							y = new(big.Int).Sub(oP, y)
						}
						q = pt{x, y}
						break
					}
				}
				x = new(big.Int).Add(x, b1)
			}
		case 3, 4: // chosen y
			y := new(big.Int).Abs(g.num())
			for i := 0; i < 60; i++ {
				if y.Cmp(oP) < 0 && y.Sign() > 0 {
					if x := oCbrtX(y); x != nil {
						q = pt{x, y}
						break
					}
				}
				y = new(big.Int).Add(y, b1)
			}
		case 5:
			q = oMulG(big.NewInt(int64(1 + g.n(40))))
		}
	}
	if len(g.pts) < 40 {
		g.pts = append(g.pts, q)
	} else {
		g.pts[g.n(40)] = q
	}
	return q
}

func (g *gen) pubHex() string {
	if len(g.strs) > 0 && g.p(8) {
		return g.strs[g.n(len(g.strs))]
	}
	q := g.point()
	s := oFormat(q.x, q.y, g.p(50))
	switch g.n(14) {
	case 0: // another prefix
		s = []string{"00", "01", "02", "03", "04", "05", "06", "07", "12", "40", "20", "0x", "ff", "82"}[g.n(14)] + s[2:]
	case 1: // x with no point, or any number
		s = fmt.Sprintf("0%d%s", 2+g.n(2), hex64(new(big.Int).Abs(g.num())))
	case 2: // off the curve
		d := big.NewInt(int64(1 + g.n(3)))
		if g.p(50) {
			s = "04" + hex64(q.x) + hex64(new(big.Int).Add(q.y, d))
		} else {
			s = "04" + hex64(new(big.Int).Add(q.x, d)) + hex64(q.y)
		}
	case 3: // coordinates not reduced
		x := big.NewInt(int64(1 + g.n(20)))
		for oSqrtY(x) == nil {
			x.Add(x, b1)
		}
		xp := new(big.Int).Add(x, oP)
		y := oSqrtY(x)
		switch g.n(3) {
		case 0:
			s = fmt.Sprintf("0%d%s", 2+g.n(2), hex64(xp))
		case 1:
			s = "04" + hex64(xp) + hex64(y)
		case 2:
			yy := big.NewInt(int64(1 + g.n(20)))
			for oCbrtX(yy) == nil {
				yy.Add(yy, b1)
			}
			s = "04" + hex64(oCbrtX(yy)) + hex64(new(big.Int).Add(yy, oP))
		}
	case 4: // format and length exchanged
		if len(s) == 130 {
			s = s[:66]
		} else {
			s = s + hex64(q.y)
		}
	case 5: // special coordinates
		v := func() string { return hex64([]*big.Int{b0, b1, b2, b7, oP, new(big.Int).Sub(oP, b1), oN}[g.n(7)]) }
		s = "04" + v() + v()
		if g.p(30) {
			s = "04" + hex64(q.x) + hex64(b0)
		}
	}
	s = g.casing(s)
	if g.p(15) {
		s = g.mutate(s)
	}
	return s
}

func (g *gen) wl() string {
	switch g.n(10) {
	case 0, 1, 2, 3:
		return "english"
	case 4, 5, 6, 7:
		return builtin[g.n(len(builtin))].name
	case 8:
		return "perm:" + strconv.Itoa(g.n(12))
	}
	return "shared:" + strconv.Itoa(g.n(12))
}

func (g *gen) badwl() string {
	return "len:" + strconv.Itoa([]int{0, 1, 2, 2046, 2047, 2049, 4096, 1024}[g.n(8)])
}

func (g *gen) entropy(n int) []byte {
	e := g.bytes(n)
	switch g.n(9) {
	case 0:
		for i := 0; i <= g.n(n); i++ {
			e[i] = 0
		}
	case 1:
		for i := range e {
			e[i] = 0
		}
		if g.p(50) {
			e[n-1] = byte(g.n(4))
		}
	case 2:
		for i := range e {
			e[i] = 0xff
		}
	case 3:
		e[0] = byte(1 << uint(g.n(8)) >> 1)
	case 4, 5:
		if p := g.shaE[n]; len(p) > 0 {
			return append([]byte{}, p[g.n(len(p))]...)
		}
	case 6:
		v := []byte{0x7f, 0x80, 0x55, 0xaa, 1}[g.n(5)]
		for i := range e {
			e[i] = v
		}
	case 7:
		for i := n - 1 - g.n(n); i < n; i++ {
			e[i] = 0
		}
	}
	return e
}

func (g *gen) pass() string {
	ps := []string{"", "TREZOR", " ", "é", "\x00", "mnemonic", strings.Repeat("x", 200), strings.Repeat("long pass", 140), strings.Repeat("y", 5000), "p ass", "㍍ガバヴァぱばぐゞちぢ十人十色"}
	if len(g.strs) > 0 && g.p(15) {
		return g.strs[g.n(len(g.strs))]
	}
	if g.p(30) {
		return string(g.bytes(g.n(20)))
	}
	if g.p(5) {
		return string(g.bytes(g.n(3000)))
	}
	return ps[g.n(len(ps))]
}

func (g *gen) phrase(name string) string {
	wl := wordlist(name)
	if len(wl) != 2048 {
		wl = wordlist("english")
	}
	if len(g.phr) > 0 && g.p(20) {
		return g.phr[g.n(len(g.phr))]
	}
	e := g.entropy([]int{16, 20, 24, 28, 32}[g.n(5)])
	m := oMnemonic(e, wl)
	ws := strings.Split(m, " ")
	n := len(ws)
	switch g.n(20) {
	case 0: // another last word: another checksum, or other entropy
		ws[n-1] = wl[g.n(2048)]
		m = strings.Join(ws, " ")
	case 1: // same entropy bits, another checksum
		cs := uint(n / 3)
		for i, w := range wl {
			if w == ws[n-1] {
				j := i ^ (1 << uint(g.n(int(cs))))
				ws[n-1] = wl[j]
				break
			}
		}
		m = strings.Join(ws, " ")
	case 2:
		i, j := g.n(n), g.n(n)
		ws[i], ws[j] = ws[j], ws[i]
		m = strings.Join(ws, " ")
	case 3: // unknown word
		ws[g.n(n)] = []string{"", "notaword", strings.ToUpper(ws[0]), ws[0][:len(ws[0])-1], ws[0] + "s", "abando", "zoo0"}[g.n(7)]
		m = strings.Join(ws, " ")
	case 4: // word count
		k := g.n(30)
		for len(ws) < k {
			ws = append(ws, wl[g.n(2048)])
		}
		m = strings.Join(ws[:k], " ")
	case 5:
		m = []string{" " + m, m + " ", strings.Replace(m, " ", "  ", 1), strings.ReplaceAll(m, " ", "\u3000"), strings.ReplaceAll(m, " ", "\t"), strings.Replace(m, " ", "\n", 1), m + "\n", ""}[g.n(8)]
	case 6:
		m = strings.ToUpper(m)
	case 7:
		m = g.mutate(m)
	case 8: // random words of the list: checksum right once in 2^cs
		for i := range ws {
			ws[i] = wl[g.n(2048)]
		}
		m = strings.Join(ws, " ")
	case 9:
		w := wl[[]int{0, 1, 2047, 1024}[g.n(4)]]
		for i := range ws {
			ws[i] = w
		}
		m = strings.Join(ws, " ")
	}
	if len(g.phr) < 20 {
		g.phr = append(g.phr, m)
	} else {
		g.phr[g.n(20)] = m
	}
	return m
}

func (g *gen) keyStream() string {
	k := g.num()
	if k.Sign() < 0 || k.BitLen() > 256 {
		k = g.key()
	}
	s := hex64(k)
	if g.p(30) {
		k2 := g.key()
		s += hex64(k2)
	}
	return s
}

func hexn(n *big.Int) string {
	if n == nil {
		return "nil"
	}
	return n.Text(16)
}

func (g *gen) op(name string) *Op {
	o := &Op{Op: name, RSeed: g.r.Int63n(1 << 40), Reuse: g.p(35), Keep: g.p(20)}
	switch name {
	case "PrivateFromHex":
		o.S, o.N1 = Str(g.hexStr()), g.net()
	case "CheckWIF":
		o.S = Str(g.wif(g.net()))
		if g.p(5) {
			o.S = Str(strings.Repeat("1", g.n(12)))
		}
	case "PrivateFromWIF":
		o.N1 = g.net()
		o.S = Str(g.wif(o.N1))
	case "WIFRoundTrip":
		o.S, o.N1, o.N2 = Str(g.casing(hex64(g.key()))), g.net(), g.net()
	case "GenRoundTrip":
		o.N1, o.N2, o.Rand = g.net(), g.net(), g.keyStream()
	case "GeneratePrivateKey":
		o.N1 = g.net()
		if g.p(70) {
			o.Rand = g.keyStream()
		}
		if g.p(8) {
			o.RFail = 1 + g.n(32)
		}
	case "AddPrivateKeys", "MultiplyPrivateKeys", "Homomorphism":
		o.N1, o.N2 = g.net(), g.net()
		if g.p(75) {
			c := *o.N1
			o.N2 = &c
			if o.N1.Lib != "" && g.p(30) {
				o.N2 = &Net{Priv: o.N1.priv(), Pub: o.N1.pub()}
			}
		}
		a, b := g.key(), g.key()
		switch g.n(8) {
		case 0:
			b = new(big.Int).Sub(oN, a)
		case 1: // sum or product with leading zeros
			s := new(big.Int).SetBytes(g.bytes(1 + g.n(31)))
			if name == "MultiplyPrivateKeys" {
				b = new(big.Int).Mul(s, new(big.Int).ModInverse(a, oN))
			} else {
				b = new(big.Int).Sub(s, a)
			}
			b.Mod(b, oN)
		case 2:
			b = a
		case 3: // chosen result
			s := g.num()
			if name == "MultiplyPrivateKeys" {
				b = new(big.Int).Mul(s, new(big.Int).ModInverse(a, oN))
			} else {
				b = new(big.Int).Sub(s, a)
			}
			b.Mod(b, oN)
		}
		if !inRange(b) {
			b = g.key()
		}
		if g.p(30) {
			a, b = b, a
		}
		o.A, o.B = hexn(a), hexn(b)
		if g.p(30) {
			o.Alias = []string{"same", "net", "num"}[g.n(3)]
		}
		o.Upper = g.p(20)
		o.Comp = g.p(50)
	case "GetPublicKey":
		o.N1 = g.net()
		k := g.key()
		if g.p(25) {
			k = g.num()
		}
		o.A = hexn(k)
		if g.p(3) {
			o.A = "nil"
		}
		o.Upper = g.p(20)
		if g.p(15) {
			o.Alias = "num"
		}
	case "Stray":
		q := g.point()
		o.A, o.B, o.Comp = hexn(q.x), hexn(q.y), g.p(50)
		o.N1 = &Net{Priv: strayPrefixes[g.n(len(strayPrefixes))], Pub: strayPrefixes[g.n(len(strayPrefixes))]}
		o.S = Str(g.hexStr())
	case "Format", "Address", "FormatParse":
		q := g.point()
		o.A, o.B, o.N1, o.N2, o.Comp = hexn(q.x), hexn(q.y), g.net(), g.net(), g.p(50)
	case "PublicFromHex", "ParseFormat":
		o.S, o.N1 = Str(g.pubHex()), g.net()
	case "AddPublicKeys":
		o.N1, o.N2 = g.net(), g.net()
		if g.p(75) {
			c := *o.N1
			o.N2 = &c
			if o.N1.Lib != "" && g.p(30) {
				o.N2 = &Net{Priv: o.N1.priv(), Pub: o.N1.pub()}
			}
		}
		a, b := g.point(), g.point()
		switch g.n(8) {
		case 0:
			b = a
		case 1:
			b = pt{a.x, new(big.Int).Sub(oP, a.y)}
		case 2: // sum with leading zeros
			s := g.point()
			if t := oAdd(s, pt{a.x, new(big.Int).Sub(oP, a.y)}); t.x != nil {
				b = t
			}
		case 3: // same y, another x
			x := new(big.Int).Mul(a.x, new(big.Int).Exp(b3, new(big.Int).Div(new(big.Int).Sub(oP, b1), b3), oP))
			if mod(x).Cmp(a.x) != 0 {
				b = pt{mod(x), a.y}
			}
		}
		o.A, o.B, o.C, o.D, o.Comp = hexn(a.x), hexn(a.y), hexn(b.x), hexn(b.y), g.p(50)
		if g.p(25) {
			o.Alias = []string{"same", "net", "num"}[g.n(3)]
		}
	case "NewMnemonic", "MnemonicAccepted":
		o.Words = []int{12, 15, 18, 21, 24}[g.n(5)]
		o.WL = g.wl()
		if g.p(85) {
			e := g.entropy(o.Words / 3 * 4)
			if g.p(60) {
				// more than the entropy is chosen, in case something is drawn before or after
				e = append(e, g.entropy(o.Words/3*4)...)
			}
			o.Rand = hex.EncodeToString(e)
		}
		o.T = Str(g.pass())
		if name == "NewMnemonic" {
			o.T = ""
			if g.p(10) {
				o.Words = []int{0, -1, 1, 3, 6, 9, 11, 13, 14, 16, 17, 20, 22, 23, 25, 27, 30, 33, 36, 48, 96, -12, 1 << 40}[g.n(23)]
				if g.p(30) {
					o.Words = g.n(300) - 100
				}
			}
			if g.p(6) {
				o.WL = g.badwl()
			}
			if g.p(6) {
				o.RFail = 1 + g.n(16)
			}
		}
	case "NewSeed":
		o.WL = g.wl()
		o.S, o.T = Str(g.phrase(o.WL)), Str(g.pass())
		if g.p(4) {
			o.WL = g.badwl()
		}
	case "Wordlist":
		o.WL = builtin[g.n(len(builtin))].name
	}
	return o
}

// vary changes one component of a call.
func (g *gen) vary(o *Op) {
	switch g.n(9) {
	case 0:
		if o.N1 != nil {
			o.N1 = g.net()
		}
	case 1:
		o.Comp = !o.Comp
	case 2:
		o.T = Str(g.pass())
	case 3:
		o.Upper = !o.Upper
	case 4:
		if s := string(o.S); isHex(s) {
			if strings.ToLower(s) != s {
				o.S = Str(strings.ToLower(s))
			} else {
				o.S = Str(strings.ToUpper(s))
			}
		}
	case 5:
		o.RSeed, o.Rand = g.r.Int63n(1<<40), ""
	case 6:
		o.N1, o.N2, o.Reuse = o.N2, o.N1, true
		if o.N1 == nil || o.N2 == nil {
			o.N1, o.N2 = o.N2, o.N1
		}
	case 7:
		if o.Op == "AddPrivateKeys" || o.Op == "MultiplyPrivateKeys" || o.Op == "Homomorphism" {
			o.A, o.B = o.B, o.A
		} else if (o.Op == "Format" || o.Op == "Address" || o.Op == "FormatParse") && o.B != "" {
			o.B = hexn(new(big.Int).Sub(oP, num(o.B)))
		} else if o.Op == "AddPublicKeys" {
			o.A, o.B, o.C, o.D = o.C, o.D, o.A, o.B
		} else if o.Op == "GetPublicKey" && inRange(num(o.A)) {
			o.A = hexn(new(big.Int).Sub(oN, num(o.A)))
		} else if (o.Op == "PublicFromHex" || o.Op == "ParseFormat") && len(o.S) == 66 {
			o.S = Str(map[bool]string{true: "03", false: "02"}[o.S[1] == '2']) + o.S[2:]
		}
	case 8:
		if o.WL != "" && o.Op != "Wordlist" {
			o.WL = g.wl()
		}
	}
}

// fromModel makes operations from the verifier's models: each parameter given as it is.
func (g *gen) fromModel(f string, m map[string]string) []*Op {
	str := func(k string) (Str, bool) {
		v, ok := m[k]
		if !ok {
			return "", false
		}
		u, err := strconv.Unquote(v)
		return Str(u), err == nil
	}
	hexv := func(k string) string {
		n, ok := new(big.Int).SetString(m[k], 10)
		if !ok {
			return ""
		}
		return n.Text(16)
	}
	net := func(k string) *Net {
		a, _ := str(k + ".PrivKeyPrefix")
		b, _ := str(k + ".PubKeyHashPrefix")
		n := &Net{Priv: string(a), Pub: string(b)}
		if len(a) != 2 || !isHex(string(a)) {
			n.Priv = "80"
		}
		if len(b) != 2 || !isHex(string(b)) {
			n.Pub = "00"
		}
		return n
	}
	var out []*Op
	switch f {
	case "PrivateFromHex", "PublicFromHex":
		if s, ok := str("hexa"); ok {
			out = append(out, &Op{Op: f, S: s, N1: net("network")})
			if f == "PublicFromHex" {
				out = append(out, &Op{Op: "ParseFormat", S: s, N1: net("network")})
			}
		}
	case "CheckWIF":
		if s, ok := str("wif"); ok {
			out = append(out, &Op{Op: f, S: s})
		}
	case "PrivateFromWIF":
		if s, ok := str("wif"); ok {
			out = append(out, &Op{Op: f, S: s, N1: net("network")})
		}
	case "AddPrivateKeys", "MultiplyPrivateKeys":
		a, b := num(hexv("p1.Key")), num(hexv("p2.Key"))
		if inRange(a) && inRange(b) {
			n1, n2 := net("p1.Network"), net("p2.Network")
			for _, n := range []*Net{n1, n2} {
				out = append(out, &Op{Op: f, A: hexn(a), B: hexn(b), N1: n1, N2: n}, &Op{Op: "Homomorphism", A: hexn(a), B: hexn(b), N1: n1, N2: n1})
			}
		}
	case "PrivateKey.GetPublicKey":
		if a := hexv("p.Key"); a != "" {
			out = append(out, &Op{Op: "GetPublicKey", A: a, N1: net("p.Network")})
		}
	case "NewSeedFromMnemonic":
		s, _ := str("mnemonic")
		t, _ := str("passphrase")
		out = append(out, &Op{Op: "NewSeed", S: s, T: t, WL: "english"})
	case "NewMnemonic":
		if n, err := strconv.Atoi(m["words"]); err == nil {
			out = append(out, &Op{Op: "NewMnemonic", Words: n, WL: "english"})
		}
	}
	return out
}
