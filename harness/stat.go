package main

import (
	"crypto/rand"
	"encoding/json"
	"fmt"
	"math/big"

	"bytes"
	"github.com/aureleoules/btc"
)

func withStream(seed int64, f func()) *stream {
	s := &stream{seed: seed, fail: -1}
	old := rand.Reader
	rand.Reader = s
	defer func() { rand.Reader = old; recover() }()
	f()
	return s
}

func drawnKey(op *Op) *big.Int {
	var k *big.Int
	s := withStream(op.RSeed, func() {
		if p := btc.GeneratePrivateKey(btc.MainNetwork); p != nil {
			k = p.Key
		}
	})
	if k == nil || !isWindow(s.used, k) {
		return nil
	}
	return k
}

func drawnEnt(words int, seed int64) int {
	var e []byte
	s := withStream(seed, func() {
		m, err := btc.NewMnemonic(words, btc.EnglishWordlist)
		if err == nil {
			e, _ = oDecode(m, btc.EnglishWordlist)
		}
	})
	if e == nil {
		return -1
	}
	for i := 0; i+len(e) <= len(s.used); i++ {
		if bytes.Equal(s.used[i:i+len(e)], e) {
			return i
		}
	}
	return -1
}

// statistics: results of 64 random streams must be distinct, with no bit constant and no two bits tied to each other
// (for a uniform draw the chance of either is below 2^-45).
func statistics(enc *json.Encoder, op *Op) {
	enc.Encode(msg{Op: op})
	var fails []Fail
	check := func(prop, what string, n int, get func(seed int64) []byte) {
		var rows [][]byte
		for i := 0; i < 64; i++ {
			seed := op.RSeed*1000 + int64(i)
			b := get(seed)
			if b == nil {
				return
			}
			if c := get(seed); c != nil && !bytes.Equal(b, c) {
				fails = append(fails, Fail{prop, fmt.Sprintf("%s: two calls with the same random stream differ: %x and %x", what, b, c)})
				return
			}
			rows = append(rows, bitsOfBytes(b))
		}
		cols := make([]uint64, n)
		for i, r := range rows {
			for j, b := range r {
				cols[j] |= uint64(b) << uint(i)
			}
		}
		seen := map[uint64]int{}
		for j, c := range cols {
			if c == 0 || c == ^uint64(0) {
				fails = append(fails, Fail{prop, fmt.Sprintf("%s: bit %d (from the top) is the same for 64 random streams", what, j)})
				return
			}
			for _, x := range []uint64{c, ^c} {
				if k, ok := seen[x]; ok {
					fails = append(fails, Fail{prop, fmt.Sprintf("%s: bits %d and %d (from the top) are tied for 64 random streams", what, k, j)})
					return
				}
			}
			seen[c] = j
		}
	}
	if op.S == "C06" {
		check("C06", "generated key", 256, func(seed int64) []byte {
			var k []byte
			withStream(seed, func() {
				if p := btc.GeneratePrivateKey(btc.MainNetwork); p != nil && p.Key != nil && p.Key.Sign() >= 0 && p.Key.BitLen() <= 256 {
					k = be(p.Key, 32)
				}
			})
			return k
		})
	} else {
		for _, w := range []int{12, 15, 18, 21, 24} {
			check("C16", fmt.Sprintf("entropy of %d words", w), w/3*32, func(seed int64) []byte {
				var e []byte
				withStream(seed, func() {
					if m, err := btc.NewMnemonic(w, btc.EnglishWordlist); err == nil {
						e, _ = oDecode(m, btc.EnglishWordlist)
						if len(e) != w/3*4 {
							e = nil
						}
					}
				})
				return e
			})
		}
	}
	if len(fails) > 0 {
		enc.Encode(msg{Fails: fails})
	}
	out.Flush()
}
