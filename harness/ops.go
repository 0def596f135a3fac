// One operation of the library, executed on the real code and compared with the reference.
package main

import (
	"bytes"
	"crypto/rand"
	"crypto/sha256"
	"encoding/hex"
	"errors"
	"fmt"
	"math/big"
	mrand "math/rand"
	"runtime/debug"
	"strconv"
	"strings"

	"github.com/aureleoules/btc"
)

// Str is a byte string, written quoted in JSON.
type Str string

func (s Str) MarshalJSON() ([]byte, error) {
	return []byte(strconv.Quote(strconv.QuoteToASCII(string(s)))), nil
}
func (s *Str) UnmarshalJSON(b []byte) error {
	t, err := strconv.Unquote(string(b))
	if err != nil {
		return err
	}
	t, err = strconv.Unquote(t)
	*s = Str(t)
	return err
}

type Net struct {
	Lib  string `json:"lib,omitempty"` // "main" or "test": the library's own object
	Priv string `json:"priv,omitempty"`
	Pub  string `json:"pub,omitempty"`
}

// Op is one call. Numbers are hexadecimal, "nil" is a nil number.
type Op struct {
	Op    string `json:"op"`
	S     Str    `json:"s,omitempty"`
	T     Str    `json:"t,omitempty"`
	N1    *Net   `json:"n1,omitempty"`
	N2    *Net   `json:"n2,omitempty"`
	A     string `json:"a,omitempty"`
	B     string `json:"b,omitempty"`
	C     string `json:"c,omitempty"`
	D     string `json:"d,omitempty"`
	Alias string `json:"alias,omitempty"` // same, net, num
	Upper bool   `json:"upper,omitempty"` // Hex fields of key arguments in capitals
	Comp  bool   `json:"comp,omitempty"`
	Words int    `json:"words,omitempty"`
	WL    string `json:"wl,omitempty"`
	Rand  string `json:"rand,omitempty"` // first bytes of the random stream, hex
	RSeed int64  `json:"rseed,omitempty"`
	RFail int    `json:"rfail,omitempty"` // the random source fails after RFail-1 bytes
	Keep  bool   `json:"keep,omitempty"`  // the caller keeps the result
	Reuse bool   `json:"reuse,omitempty"` // the caller's objects are those of earlier calls, with new contents
}

type Fail struct {
	Prop string `json:"prop"`
	Msg  string `json:"msg"`
}

var primary = map[string][]string{
	"PrivateFromHex": {"C01", "C02"}, "CheckWIF": {"C03"}, "PrivateFromWIF": {"C04"}, "WIFRoundTrip": {"C05"}, "GenRoundTrip": {"C05"},
	"GeneratePrivateKey": {"C06"}, "AddPrivateKeys": {"C07"}, "MultiplyPrivateKeys": {"C08"}, "GetPublicKey": {"C09"}, "Format": {"C10"},
	"PublicFromHex": {"C11"}, "FormatParse": {"C12"}, "ParseFormat": {"C12"}, "Address": {"C13"}, "AddPublicKeys": {"C14"}, "Homomorphism": {"C15"},
	"NewMnemonic": {"C16"}, "NewSeed": {"C17", "C18"}, "MnemonicAccepted": {"C19"}, "Wordlist": {"C20"}, "Params": {"C22"}, "Stray": {"C21"},
}

type stream struct {
	pre  []byte
	seed int64
	ctr  uint64
	blk  []byte
	used []byte
	fail int // -1: never
}

func (s *stream) Read(p []byte) (int, error) {
	for i := range p {
		if s.fail >= 0 && len(s.used) >= s.fail {
			return i, errors.New("random source fails")
		}
		var b byte
		if len(s.pre) > 0 {
			b, s.pre = s.pre[0], s.pre[1:]
		} else {
			if len(s.blk) == 0 {
				h := sha256.Sum256([]byte(fmt.Sprintf("%d/%d", s.seed, s.ctr)))
				s.ctr++
				s.blk = h[:]
			}
			b, s.blk = s.blk[0], s.blk[1:]
		}
		s.used = append(s.used, b)
		p[i] = b
	}
	return len(p), nil
}

func num(s string) *big.Int {
	if s == "nil" || s == "" {
		return nil
	}
	n, _ := new(big.Int).SetString(s, 16)
	return n
}

// ---- library state ----

var builtin = []struct {
	name string
	wl   *btc.Wordlist
	sha  string
}{
	{"english", &btc.EnglishWordlist, "2f5eed53a4727b4bf8880d8f3f199efc90e58503646d9ff8eff3a2ed3b24dbda"},
	{"japanese", &btc.JapaneseWordlist, "2eed0aef492291e061633d7ad8117f1a2b03eb80a29d0e4e3117ac2528d05ffd"},
	{"spanish", &btc.SpanishWordlist, "46846a5a0139d1e3cb77293e521c2865f7bcdb82c44e8d0a06a2cd0ecba48c0b"},
	{"simplified", &btc.ChineseSimplifiedWordlist, "5c5942792bd8340cb8b27cd592f1015edf56a8c5b26276ee18a482428e7c5726"},
	{"traditional", &btc.ChineseTraditionalWordlist, "417b26b3d8500a4ae3d59717d7011952db6fc2fb84b807f3f94ac734e89c1b5f"},
	{"french", &btc.FrenchWordlist, "ebc3959ab7801a1df6bac4fa7d970652f1df76b683cd2f4003c941c63d517e59"},
	{"italian", &btc.ItalianWordlist, "d392c49fdb700a24cd1fceb237c1f65dcc128f6b34a8aacb58b59384b5c648c2"},
	{"korean", &btc.KoreanWordlist, "9e95f86c167de88f450f0aaf89e87f6624a57f973c67b516e338e8e8b8897f60"},
	{"czech", &btc.CzechWordlist, "7e80e161c3e93d9554c2efb78d4e3cebf8fc727e9c52e03b83b94406bdcc95fc"},
}

func listSha(wl []string) string {
	h := sha256.Sum256([]byte(strings.Join(wl, "\n") + "\n"))
	return hex.EncodeToString(h[:])
}

var sharedList = make([]string, 2048)

// wordlist: a built-in list, or perm:SEED, shared:SEED (the same slice with new contents), len:N (the first N words; more: invented).
func wordlist(name string) btc.Wordlist {
	for _, b := range builtin {
		if b.name == name {
			return *b.wl
		}
	}
	k, arg, _ := strings.Cut(name, ":")
	n, _ := strconv.Atoi(arg)
	switch k {
	case "perm", "shared":
		r := mrand.New(mrand.NewSource(int64(n)))
		out := make([]string, 2048)
		if k == "shared" {
			out = sharedList
		}
		for i, j := range r.Perm(2048) {
			out[i] = fmt.Sprintf("w%dx%d", j, n%3)
		}
		if n%5 == 1 {
			out[r.Intn(2048)] = "Ünïcödé\u3000wörd"
		}
		return out
	case "len":
		var out btc.Wordlist
		for i := 0; i < n; i++ {
			if i < 2048 {
				out = append(out, btc.EnglishWordlist[i])
			} else {
				out = append(out, fmt.Sprintf("extra%d", i))
			}
		}
		return out
	}
	return nil
}

type libState struct {
	nets  [2]btc.Network
	ptrs  [2]*btc.Network
	lists [9]uint64
	curve []*big.Int
}

func quickHash(wl []string) uint64 {
	h := uint64(14695981039346656037)
	for _, w := range wl {
		for i := 0; i < len(w); i++ {
			h = (h ^ uint64(w[i])) * 1099511628211
		}
		h = (h ^ 300) * 1099511628211
	}
	return h
}

var curveHook func() []*big.Int // set by access.go where it compiles

func snapshot(lists bool) *libState {
	s := &libState{}
	s.ptrs = [2]*btc.Network{btc.MainNetwork, btc.TestNetwork}
	for i, p := range s.ptrs {
		if p != nil {
			s.nets[i] = *p
		}
	}
	if lists {
		for i, b := range builtin {
			s.lists[i] = quickHash(*b.wl)
		}
	}
	if curveHook != nil {
		for _, n := range curveHook() {
			if n == nil {
				s.curve = append(s.curve, nil)
			} else {
				s.curve = append(s.curve, new(big.Int).Set(n))
			}
		}
	}
	return s
}

func (a *libState) diff(b *libState) string {
	for i, n := range []string{"MainNetwork", "TestNetwork"} {
		if a.ptrs[i] != b.ptrs[i] || a.nets[i] != b.nets[i] {
			return fmt.Sprintf("%s is %v, was %v", n, b.nets[i], a.nets[i])
		}
	}
	for i := range a.lists {
		if a.lists[i] != b.lists[i] {
			return "the " + builtin[i].name + " word list has changed"
		}
	}
	for i := range a.curve {
		if (a.curve[i] == nil) != (b.curve[i] == nil) || a.curve[i] != nil && a.curve[i].Cmp(b.curve[i]) != 0 {
			return fmt.Sprintf("curve parameter %s is %v, was %v", []string{"A", "B", "P", "N", "H", "Gx", "Gy"}[i], b.curve[i], a.curve[i])
		}
	}
	return ""
}

// ---- execution ----

type run struct {
	fails  []Fail
	op     *Op
	st     *stream
	before *libState
	curP   string // property charged with a panic
	shared []*big.Int
	names  []string
	vals   []*big.Int
	nets   []*btc.Network
	netv   []btc.Network
	keys   []*btc.PrivateKey
	keyv   []btc.PrivateKey
	pubs   []*btc.PublicKey
	pubv   []btc.PublicKey
	done   []func() // the caller overwrites what it got and gave
	held   []held
}

// a result that the caller still has
type held struct {
	prop string
	same func() string
}

var heldResults []held

func (r *run) hold(prop string, same func() string) {
	if r.op.Keep {
		r.held = append(r.held, held{prop, same})
	}
}

// objects of the caller that live on from call to call
var poolNum = map[string]*big.Int{}
var poolNet [4]btc.Network
var poolKey [4]btc.PrivateKey
var poolPub [4]btc.PublicKey

func scribble(n *big.Int) {
	if n == nil {
		return
	}
	b := n.Bits()
	for i := range b[:cap(b)] {
		b[:cap(b)][i] ^= 0x5a5a5a5a
	}
	n.SetInt64(0x5c71bb1e)
}

func (r *run) fail(p, f string, a ...interface{}) {
	m := fmt.Sprintf(f, a...)
	if len(m) > 700 {
		m = m[:700] + "..."
	}
	r.fails = append(r.fails, Fail{p, m})
}

func (r *run) net(n *Net) *btc.Network {
	var p *btc.Network
	switch n.Lib {
	case "main":
		p = btc.MainNetwork
	case "test":
		p = btc.TestNetwork
	default:
		p = &btc.Network{}
		if r.op.Reuse && len(r.nets) < len(poolNet) {
			p = &poolNet[len(r.nets)]
		}
		*p = btc.Network{PrivKeyPrefix: n.Priv, PubKeyHashPrefix: n.Pub}
		r.done = append(r.done, func() { *p = btc.Network{PrivKeyPrefix: "37", PubKeyHashPrefix: "38"} })
	}
	r.nets = append(r.nets, p)
	r.netv = append(r.netv, *p)
	return p
}

// prefixes of a network as the property means them, whatever the library's object holds.
func (n *Net) priv() string {
	switch n.Lib {
	case "main":
		return "80"
	case "test":
		return "EF"
	}
	return n.Priv
}
func (n *Net) pub() string {
	switch n.Lib {
	case "main":
		return "00"
	case "test":
		return "6F"
	}
	return n.Pub
}
func sameNet(a, b *Net) bool { return a.priv() == b.priv() && a.pub() == b.pub() }

func (r *run) arg(name string, n *big.Int) *big.Int {
	if n == nil {
		return nil
	}
	if r.op.Reuse {
		if poolNum[name] == nil {
			poolNum[name] = new(big.Int)
		}
		n = poolNum[name].Set(n)
	}
	r.done = append(r.done, func() { scribble(n) })
	r.names = append(r.names, name)
	r.shared = append(r.shared, n)
	r.vals = append(r.vals, new(big.Int).Set(n))
	return n
}

func (r *run) key(p *btc.PrivateKey) *btc.PrivateKey {
	if i := len(r.keys); r.op.Reuse && i < len(poolKey) {
		poolKey[i] = *p
		p = &poolKey[i]
	}
	r.done = append(r.done, func() { *p = btc.PrivateKey{} })
	r.keys = append(r.keys, p)
	r.keyv = append(r.keyv, *p)
	return p
}
func (r *run) pub(p *btc.PublicKey) *btc.PublicKey {
	if i := len(r.pubs); r.op.Reuse && i < len(poolPub) {
		poolPub[i] = *p
		p = &poolPub[i]
	}
	r.done = append(r.done, func() { *p = btc.PublicKey{} })
	r.pubs = append(r.pubs, p)
	r.pubv = append(r.pubv, *p)
	return p
}

// unchanged: the arguments are as before the call.
func (r *run) unchanged() string {
	for i, n := range r.shared {
		if n.Cmp(r.vals[i]) != 0 {
			return fmt.Sprintf("argument %s is %x, was %x", r.names[i], n, r.vals[i])
		}
	}
	for i, n := range r.nets {
		if *n != r.netv[i] {
			return fmt.Sprintf("network argument is %v, was %v", *n, r.netv[i])
		}
	}
	for i, p := range r.keys {
		if *p != r.keyv[i] {
			return fmt.Sprintf("private key argument is %v, was %v", *p, r.keyv[i])
		}
	}
	for i, p := range r.pubs {
		if *p != r.pubv[i] {
			return fmt.Sprintf("public key argument is %v, was %v", *p, r.pubv[i])
		}
	}
	return ""
}

// fresh: writing to a returned number changes neither the arguments nor the library.
func (r *run) fresh(what string, n *big.Int) {
	if n == nil {
		return
	}
	b := n.Bits()
	for i := range b {
		b[i] ^= 5
	}
	m := r.unchanged()
	if m == "" {
		m = r.before.diff(snapshot(false).withLists(r.before))
	}
	for i := range b {
		b[i] ^= 5
	}
	if m == "" {
		for i, a := range r.shared {
			if a == n {
				m = "it is the argument " + r.names[i]
			}
		}
	}
	if m != "" {
		r.fail("C21", "%s of the result shares memory: %s", what, m)
	}
}

func (s *libState) withLists(o *libState) *libState { s.lists = o.lists; return s }

func (r *run) checkPriv(prop string, p *btc.PrivateKey, err error, k *big.Int, hexa, wif string, net *btc.Network) {
	if err != nil || p == nil {
		r.fail(prop, "no key: error %v", err)
		return
	}
	if p.Key == nil || p.Key.Cmp(k) != 0 {
		r.fail(prop, "key number is %x, expected %x", p.Key, k)
	}
	if p.Hex != hexa {
		r.fail(prop, "hex is %q, expected %q", p.Hex, hexa)
	}
	if p.WIF != wif {
		r.fail(prop, "WIF is %q, expected %q", p.WIF, wif)
	}
	if p.Network != net && (p.Network == nil || net == nil || *p.Network != *net) {
		r.fail(prop, "network is %v, expected %v", p.Network, net)
	}
	r.fresh("Key", p.Key)
	if r.op.Keep {
		was, n := *p, new(big.Int).Set(p.Key)
		r.hold(prop, func() string {
			if *p != was || p.Key.Cmp(n) != 0 {
				return fmt.Sprintf("a private key returned earlier had number %x and is now %x %v, was %v", n, p.Key, *p, was)
			}
			return ""
		})
		return
	}
	r.done = append(r.done, func() { scribble(p.Key); *p = btc.PrivateKey{} })
}

func (r *run) checkErr(prop string, isNil bool, err error) {
	if err == nil {
		r.fail(prop, "accepted, expected an error")
	}
	if !isNil {
		r.fail(prop, "a result is returned, expected none")
	}
}

func (r *run) checkPub(prop string, p *btc.PublicKey, x, y *big.Int, net *btc.Network) {
	if p == nil {
		r.fail(prop, "no key is returned")
		return
	}
	if p.X == nil || p.Y == nil || p.X.Cmp(x) != 0 || p.Y.Cmp(y) != 0 {
		r.fail(prop, "point is (%x, %x), expected (%x, %x)", p.X, p.Y, x, y)
	}
	if p.Network != net && (p.Network == nil || net == nil || *p.Network != *net) {
		r.fail(prop, "network is %v, expected %v", p.Network, net)
	}
	r.fresh("X", p.X)
	r.fresh("Y", p.Y)
	if r.op.Keep && p.X != nil && p.Y != nil {
		was, a, b := *p, new(big.Int).Set(p.X), new(big.Int).Set(p.Y)
		r.hold(prop, func() string {
			if *p != was || p.X.Cmp(a) != 0 || p.Y.Cmp(b) != 0 {
				return fmt.Sprintf("a public key returned earlier was (%x, %x) and is now (%x, %x)", a, b, p.X, p.Y)
			}
			return ""
		})
		return
	}
	r.done = append(r.done, func() { scribble(p.X); scribble(p.Y); *p = btc.PublicKey{} })
}

func upper(s string, u bool) string {
	if u {
		return strings.ToUpper(s)
	}
	return s
}

func (r *run) privArg(name string, k *big.Int, n *Net, net *btc.Network) *btc.PrivateKey {
	return r.key(&btc.PrivateKey{Key: r.arg(name+".Key", k), Hex: upper(hex64(k), r.op.Upper), WIF: oWIF(n.priv(), k), Network: net})
}

// windowed: every key and mnemonic of random streams was a window of the stream (established by calibrate).
var keyWindow, entWindow bool

func isWindow(used []byte, k *big.Int) bool {
	n1 := new(big.Int).Sub(oN, b1)
	for i := 0; i+32 <= len(used); i++ {
		w := new(big.Int).SetBytes(used[i : i+32])
		if w.Cmp(k) == 0 || new(big.Int).Mod(w, oN).Cmp(k) == 0 || new(big.Int).Add(w, b1).Cmp(k) == 0 ||
			new(big.Int).Add(new(big.Int).Mod(w, n1), b1).Cmp(k) == 0 {
			return true
		}
	}
	return false
}

func execOp(op *Op, lists bool) (fails []Fail) {
	r := &run{op: op, before: snapshot(lists)}
	r.st = &stream{seed: op.RSeed, fail: op.RFail - 1}
	r.st.pre, _ = hex.DecodeString(op.Rand)
	old := rand.Reader
	rand.Reader = r.st
	r.curP = primary[op.Op][0]
	defer func() {
		rand.Reader = old
		if x := recover(); x != nil {
			if op.RFail == 0 || op.Op != "GeneratePrivateKey" {
				r.fail(r.curP, "panic: %v\n%s", x, panicSite())
			}
		}
		if m := r.unchanged(); m != "" {
			r.fail("C21", "%s", m)
		}
		if m := r.before.diff(snapshot(lists)); m != "" {
			r.fail("C21", "library state: %s", m)
		}
		for _, h := range heldResults {
			if m := h.same(); m != "" {
				r.fail(h.prop, "%s", m)
				if h.prop != "C21" {
					r.fail("C21", "%s", m)
				}
			}
		}
		fails = r.fails
		if len(fails) == 0 {
			if heldResults = append(heldResults, r.held...); len(heldResults) > 12 {
				heldResults = append([]held{}, heldResults[len(heldResults)-12:]...)
			}
			for _, f := range r.done {
				f()
			}
			if m := r.before.diff(snapshot(lists)); m != "" {
				fails = append(fails, Fail{"C21", "after the caller overwrites its own keys: library state: " + m})
			}
		}
	}()
	r.exec()
	return
}

func panicSite() string {
	var out []string
	for _, l := range strings.Split(string(debug.Stack()), "\n") {
		if strings.Contains(l, "/repo/") || strings.Contains(l, "ecdsa") {
			out = append(out, strings.TrimSpace(l))
		}
	}
	if len(out) > 4 {
		out = out[:4]
	}
	return strings.Join(out, " ")
}

func (r *run) exec() {
	op := r.op
	switch op.Op {
	case "PrivateFromHex":
		net := r.net(op.N1)
		h := string(op.S)
		if len(h) == 64 && isHex(h) && inRange(hexNum(h)) {
			r.curP = "C01"
			p, err := btc.PrivateFromHex(h, net)
			r.checkPriv("C01", p, err, hexNum(h), h, oWIF(op.N1.priv(), hexNum(h)), net)
		} else {
			r.curP = "C02"
			p, err := btc.PrivateFromHex(h, net)
			r.checkErr("C02", p == nil, err)
		}
	case "CheckWIF":
		_, want := oCheckDec(string(op.S))
		if got := btc.CheckWIF(string(op.S)); got != want {
			r.fail("C03", "returned %v, expected %v", got, want)
		}
	case "PrivateFromWIF":
		net := r.net(op.N1)
		w := string(op.S)
		b, ok := oCheckDec(w)
		ok = ok && (len(b) == 33 || len(b) == 34 && b[33] == 1) && b[0] == prefixByte(op.N1.priv()) && inRange(new(big.Int).SetBytes(b[1:33]))
		p, err := btc.PrivateFromWIF(w, net)
		if ok {
			k := new(big.Int).SetBytes(b[1:33])
			r.checkPriv("C04", p, err, k, hex64(k), w, net)
		} else {
			r.checkErr("C04", p == nil, err)
		}
	case "WIFRoundTrip":
		r.roundTrip(func(net *btc.Network) (*btc.PrivateKey, error) { return btc.PrivateFromHex(string(op.S), net) })
	case "GenRoundTrip":
		r.roundTrip(func(net *btc.Network) (*btc.PrivateKey, error) { return btc.GeneratePrivateKey(net), nil })
	case "GeneratePrivateKey":
		net := r.net(op.N1)
		p := btc.GeneratePrivateKey(net)
		if op.RFail > 0 && len(r.st.used) < 32 {
			if p != nil {
				r.fail("C06", "the random source failed after %d bytes but a key is returned: %x", len(r.st.used), p.Key)
			}
			return
		}
		if p == nil || p.Key == nil {
			r.fail("C06", "no key is returned")
			return
		}
		if !inRange(p.Key) {
			r.fail("C06", "the key %x is out of range", p.Key)
			return
		}
		r.checkPriv("C06", p, nil, p.Key, hex64(p.Key), oWIF(op.N1.priv(), p.Key), net)
		if len(r.st.used) < 32 {
			r.fail("C06", "only %d bytes were drawn from the random source for the key %x", len(r.st.used), p.Key)
		} else if keyWindow && !isWindow(r.st.used, p.Key) {
			r.fail("C06", "the key %x is not the number drawn (stream %x)", p.Key, r.st.used)
		}
	case "AddPrivateKeys", "MultiplyPrivateKeys":
		a, b := num(op.A), num(op.B)
		n1 := r.net(op.N1)
		n2 := n1
		on2 := op.N1
		if op.Alias != "net" && op.Alias != "same" {
			n2, on2 = r.net(op.N2), op.N2
		}
		p1 := r.privArg("p1", a, op.N1, n1)
		p2 := p1
		switch op.Alias {
		case "same":
			b = a
		case "num":
			b = a
			p2 = r.key(&btc.PrivateKey{Key: p1.Key, Hex: p1.Hex, WIF: oWIF(on2.priv(), b), Network: n2})
		default:
			p2 = r.privArg("p2", b, on2, n2)
		}
		prop, k := "C07", new(big.Int)
		f := btc.AddPrivateKeys
		if op.Op == "AddPrivateKeys" {
			k.Add(a, b).Mod(k, oN)
		} else {
			prop, f = "C08", btc.MultiplyPrivateKeys
			k.Mul(a, b).Mod(k, oN)
		}
		r.curP = prop
		p, err := f(p1, p2)
		if !sameNet(op.N1, on2) || a.Cmp(b) == 0 || k.Sign() == 0 {
			r.checkErr(prop, p == nil, err)
		} else {
			r.checkPriv(prop, p, err, k, hex64(k), oWIF(op.N1.priv(), k), n1)
		}
	case "GetPublicKey":
		net := r.net(op.N1)
		k := num(op.A)
		p := &btc.PrivateKey{Key: r.arg("p.Key", k), Network: net}
		if inRange(k) {
			p.Hex, p.WIF = upper(hex64(k), op.Upper), oWIF(op.N1.priv(), k)
		}
		if op.Alias == "num" { // the number alone
			p.Hex, p.WIF = "", ""
		}
		p = r.key(p)
		q, ok := p.GetPublicKey()
		if inRange(k) {
			if !ok {
				r.fail("C09", "reports failure")
				return
			}
			w := oMulG(k)
			r.checkPub("C09", q, w.x, w.y, net)
		} else if ok || q != nil {
			r.fail("C09", "returned (%v, %v) for a number out of range", q, ok)
		}
	case "Format":
		p := r.pub(&btc.PublicKey{X: r.arg("X", num(op.A)), Y: r.arg("Y", num(op.B)), Network: r.net(op.N1)})
		if got, want := p.Format(op.Comp), oFormat(num(op.A), num(op.B), op.Comp); got != want {
			r.fail("C10", "returned %q, expected %q", got, want)
		}
	case "PublicFromHex":
		net := r.net(op.N1)
		p, err := btc.PublicFromHex(string(op.S), net)
		x, y := oParse(string(op.S))
		if x == nil {
			r.checkErr("C11", p == nil, err)
		} else if err != nil {
			r.fail("C11", "rejected: %v", err)
		} else {
			r.checkPub("C11", p, x, y, net)
		}
	case "FormatParse":
		net := r.net(op.N1)
		p := r.pub(&btc.PublicKey{X: r.arg("X", num(op.A)), Y: r.arg("Y", num(op.B)), Network: net})
		n2 := r.net(op.N2)
		s := p.Format(op.Comp)
		q, err := btc.PublicFromHex(s, n2)
		if err != nil {
			r.fail("C12", "the format %q is rejected: %v", s, err)
			return
		}
		r.checkPub("C12", q, num(op.A), num(op.B), n2)
	case "ParseFormat":
		net := r.net(op.N1)
		p, err := btc.PublicFromHex(string(op.S), net)
		if err != nil || p == nil {
			return
		}
		if got, want := p.Format(len(op.S) == 66), strings.ToLower(string(op.S)); got != want {
			r.fail("C12", "formats as %q, expected %q", got, want)
		}
	case "Stray": // calls outside the contracts: only what they leave behind matters
		net := r.net(op.N1)
		stray := func(f func()) {
			defer func() { recover() }()
			f()
		}
		stray(func() { btc.PrivateFromHex(string(op.S), net) })
		stray(func() { btc.PrivateFromWIF(string(op.S), net) })
		p := r.pub(&btc.PublicKey{X: r.arg("X", num(op.A)), Y: r.arg("Y", num(op.B)), Network: net})
		stray(func() { p.Address(op.Comp) })
	case "Address":
		p := r.pub(&btc.PublicKey{X: r.arg("X", num(op.A)), Y: r.arg("Y", num(op.B)), Network: r.net(op.N1)})
		got, err := p.Address(op.Comp)
		if want := oAddress(op.N1.pub(), num(op.A), num(op.B), op.Comp); err != nil || got != want {
			r.fail("C13", "returned %q, %v, expected %q", got, err, want)
		}
	case "AddPublicKeys":
		n1 := r.net(op.N1)
		n2, on2 := n1, op.N1
		if op.Alias != "net" && op.Alias != "same" {
			n2, on2 = r.net(op.N2), op.N2
		}
		a := pt{num(op.A), num(op.B)}
		b := pt{num(op.C), num(op.D)}
		p1 := r.pub(&btc.PublicKey{X: r.arg("p1.X", num(op.A)), Y: r.arg("p1.Y", num(op.B)), Network: n1})
		p2 := p1
		switch op.Alias {
		case "same":
			b = a
		case "num":
			b = a
			p2 = r.pub(&btc.PublicKey{X: p1.X, Y: p1.Y, Network: n2})
		default:
			p2 = r.pub(&btc.PublicKey{X: r.arg("p2.X", num(op.C)), Y: r.arg("p2.Y", num(op.D)), Network: n2})
		}
		p, err := btc.AddPublicKeys(p1, p2, op.Comp)
		s := oAdd(a, b)
		if !sameNet(op.N1, on2) || s.x == nil {
			r.checkErr("C14", p == nil, err)
		} else if err != nil {
			r.fail("C14", "rejected: %v", err)
		} else {
			r.checkPub("C14", p, s.x, s.y, n1)
		}
	case "Homomorphism":
		n1 := r.net(op.N1)
		a, b := num(op.A), num(op.B)
		if a.Cmp(b) == 0 || new(big.Int).Add(a, b).Cmp(oN) == 0 {
			return
		}
		p1, p2 := r.privArg("p1", a, op.N1, n1), r.privArg("p2", b, op.N1, n1)
		p, err := btc.AddPrivateKeys(p1, p2)
		if err != nil {
			r.fail("C15", "adding the private keys: %v", err)
			return
		}
		q, ok := p.GetPublicKey()
		q1, ok1 := p1.GetPublicKey()
		q2, ok2 := p2.GetPublicKey()
		if !ok || !ok1 || !ok2 {
			r.fail("C15", "a public key is missing: %v %v %v", ok, ok1, ok2)
			return
		}
		s, err := btc.AddPublicKeys(q1, q2, op.Comp)
		if err != nil {
			r.fail("C15", "adding the public keys: %v", err)
			return
		}
		if s.X.Cmp(q.X) != 0 || s.Y.Cmp(q.Y) != 0 || *s.Network != *q.Network {
			r.fail("C15", "sum of public keys (%x, %x), public key of the sum (%x, %x)", s.X, s.Y, q.X, q.Y)
		}
	case "NewMnemonic":
		r.newMnemonic()
	case "NewSeed":
		wl := wordlist(op.WL)
		cp := append([]string{}, wl...)
		seed, err := btc.NewSeedFromMnemonic(string(op.S), string(op.T), wl)
		if _, ok := oDecode(string(op.S), cp); !ok {
			if err == nil {
				r.fail("C17", "accepted, expected an error")
			}
			if len(seed) != 0 {
				r.fail("C17", "a seed is returned, expected none")
			}
		} else if err != nil {
			r.fail("C17", "rejected: %v", err)
		} else {
			if want := oSeed(string(op.S), string(op.T)); !bytes.Equal(seed, want) {
				r.fail("C18", "seed is %x, expected %x", seed, want)
			}
			if was := append([]byte{}, seed...); op.Keep {
				r.hold("C18", func() string {
					if !bytes.Equal(seed, was) {
						return fmt.Sprintf("a seed returned earlier was %x and is now %x", was, seed)
					}
					return ""
				})
			} else {
				r.done = append(r.done, func() {
					for i := range seed {
						seed[i] ^= 0xa5
					}
				})
			}
		}
		r.sameList(wl, cp)
	case "MnemonicAccepted":
		wl := wordlist(op.WL)
		m, err := btc.NewMnemonic(op.Words, wl)
		if err != nil {
			return
		}
		seed, err := btc.NewSeedFromMnemonic(m, string(op.T), wl)
		if err != nil || len(seed) != 64 {
			r.fail("C19", "the generated phrase %q is rejected: %v", m, err)
		}
	case "Wordlist":
		for _, b := range builtin {
			if b.name != op.WL {
				continue
			}
			if h := listSha(*b.wl); h != b.sha {
				r.fail("C20", "the %s list (%d words) has SHA-256 %s, the official list %s", b.name, len(*b.wl), h, b.sha)
			}
			seen := map[string]int{}
			for i, w := range *b.wl {
				if j, ok := seen[w]; ok || w == "" || strings.Contains(w, " ") {
					r.fail("C20", "the %s list has word %q at %d (and %d)", b.name, w, i, j)
					break
				}
				seen[w] = i
			}
		}
	case "Params":
		if btc.MainNetwork == nil || strings.ToUpper(btc.MainNetwork.PrivKeyPrefix) != "80" || strings.ToUpper(btc.MainNetwork.PubKeyHashPrefix) != "00" {
			r.fail("C22", "the main network is %v", btc.MainNetwork)
		}
		if btc.TestNetwork == nil || strings.ToUpper(btc.TestNetwork.PrivKeyPrefix) != "EF" || strings.ToUpper(btc.TestNetwork.PubKeyHashPrefix) != "6F" {
			r.fail("C22", "the test network is %v", btc.TestNetwork)
		}
		// the curve, as the library shows it
		if k, _ := (&btc.PrivateKey{Key: big.NewInt(1), Network: btc.MainNetwork}).GetPublicKey(); k == nil || k.X.Cmp(oGx) != 0 || k.Y.Cmp(oGy) != 0 {
			r.fail("C22", "the generator is not that of secp256k1")
		}
		if k, ok := (&btc.PrivateKey{Key: new(big.Int).Set(oN), Network: btc.MainNetwork}).GetPublicKey(); ok || k != nil {
			r.fail("C22", "the order of secp256k1 is taken for a private key")
		}
		nm := new(big.Int).Sub(oN, b1)
		if k, _ := (&btc.PrivateKey{Key: nm, Network: btc.MainNetwork}).GetPublicKey(); k == nil || k.X.Cmp(oGx) != 0 || k.Y.Cmp(new(big.Int).Sub(oP, oGy)) != 0 {
			r.fail("C22", "the public key of the order minus one is not the opposite of the generator")
		}
		if curveHook != nil {
			want := []*big.Int{b0, b7, oP, oN, b1, oGx, oGy}
			for i, n := range curveHook() {
				if n == nil || n.Cmp(want[i]) != 0 {
					r.fail("C22", "curve parameter %s is %x, expected %x", []string{"A", "B", "P", "N", "H", "Gx", "Gy"}[i], n, want[i])
				}
			}
		}
	}
}

func (r *run) sameList(wl btc.Wordlist, cp []string) {
	for i := range cp {
		if wl[i] != cp[i] {
			r.fail("C21", "word %d of the list argument is %q, was %q", i, wl[i], cp[i])
			return
		}
	}
}

func (r *run) roundTrip(mk func(net *btc.Network) (*btc.PrivateKey, error)) {
	op := r.op
	net, other := r.net(op.N1), r.net(op.N2)
	p, err := mk(net)
	if err != nil || p == nil {
		r.fail("C05", "no key: %v", err)
		return
	}
	k := new(big.Int).Set(p.Key)
	if !btc.CheckWIF(p.WIF) {
		r.fail("C05", "the WIF %q of %x does not pass the check", p.WIF, k)
	}
	q, err := btc.PrivateFromWIF(p.WIF, net)
	if err != nil || q == nil {
		r.fail("C05", "the WIF %q of %x is not imported: %v", p.WIF, k, err)
	} else if q.Key.Cmp(k) != 0 || q.WIF != p.WIF || strings.ToLower(q.Hex) != strings.ToLower(p.Hex) || q.Network == nil || *q.Network != *net {
		r.fail("C05", "the WIF %q of %x %q is imported as %x %q %q", p.WIF, k, p.Hex, q.Key, q.Hex, q.WIF)
	}
	if strings.ToLower(op.N1.priv()) != strings.ToLower(op.N2.priv()) {
		q, err := btc.PrivateFromWIF(p.WIF, other)
		if err == nil || q != nil {
			r.fail("C05", "the WIF %q of network %v is imported for network %v", p.WIF, *net, *other)
		}
	}
}

func (r *run) newMnemonic() {
	op := r.op
	wl := wordlist(op.WL)
	cp := append([]string{}, wl...)
	defer r.sameList(wl, cp)
	m, err := btc.NewMnemonic(op.Words, wl)
	okw := op.Words == 12 || op.Words == 15 || op.Words == 18 || op.Words == 21 || op.Words == 24
	if !okw || len(wl) != 2048 || op.RFail > 0 && len(r.st.used) < op.Words/3*4 {
		if err == nil || m != "" {
			r.fail("C16", "returned %q, %v, expected an error and an empty phrase", m, err)
		}
		return
	}
	if err != nil {
		r.fail("C16", "error %v", err)
		return
	}
	if n := len(strings.Split(m, " ")); n != op.Words {
		r.fail("C16", "%d words: %q", n, m)
		return
	}
	ent, ok := oDecode(m, cp)
	if !ok {
		r.fail("C16", "%q is not a valid BIP39 phrase (stream %x)", m, r.st.used)
		return
	}
	if len(r.st.used) < len(ent) {
		r.fail("C16", "only %d bytes were drawn from the random source for %d bits", len(r.st.used), 8*len(ent))
		return
	}
	if entWindow && !bytes.Contains(r.st.used, ent) {
		r.fail("C16", "the entropy %x of %q is not the one drawn (stream %x)", ent, m, r.st.used)
	}
}
