// Lemma programs: client code of package btc whose contracts (in btc.spec) state the properties that relate several
// operations. The verifier loads this file into the package under verification and checks it against the contracts of
// the functions it calls, not their bodies. It is not part of /repo.

package btc

import (
	"strings"
)

func lemmaSameKey(a, b *PrivateKey) bool {
	return a.Key.Cmp(b.Key) == 0 && a.WIF == b.WIF
}

// C05: hex -> key -> WIF -> key, and another network's prefix.
func lemmaWIFRoundTrip(hexa string, network *Network) bool {
	p, err := PrivateFromHex(hexa, network)
	if err != nil {
		return false
	}
	if !CheckWIF(p.WIF) {
		return false
	}
	q, err := PrivateFromWIF(p.WIF, network)
	if err != nil {
		return false
	}
	return lemmaSameKey(p, q) && strings.ToLower(p.Hex) == q.Hex && q.Network == network
}

func lemmaWIFOtherNetwork(hexa string, network *Network, other *Network) bool {
	p, err := PrivateFromHex(hexa, network)
	if err != nil {
		return false
	}
	q, err := PrivateFromWIF(p.WIF, other)
	return err != nil && q == nil
}

// C05: the same for generated keys.
func lemmaGeneratedWIF(network *Network, other *Network) bool {
	p := GeneratePrivateKey(network)
	if p == nil || !CheckWIF(p.WIF) {
		return false
	}
	q, err := PrivateFromWIF(p.WIF, network)
	if err != nil || !lemmaSameKey(p, q) || p.Hex != q.Hex || q.Network != network {
		return false
	}
	r, err := PrivateFromHex(p.Hex, network)
	if err != nil || !lemmaSameKey(p, r) {
		return false
	}
	s, err := PrivateFromWIF(p.WIF, other)
	return err != nil && s == nil
}

// C12: point -> text -> point.
func lemmaPublicFormatParse(p *PublicKey, compressed bool, network *Network) bool {
	q, err := PublicFromHex(p.Format(compressed), network)
	if err != nil {
		return false
	}
	return q.X.Cmp(p.X) == 0 && q.Y.Cmp(p.Y) == 0 && q.Network == network
}

// C12: text -> point -> text.
func lemmaPublicParseFormat(hexa string, network *Network) bool {
	p, err := PublicFromHex(hexa, network)
	if err != nil {
		return true
	}
	return p.Format(len(hexa) == 66) == strings.ToLower(hexa)
}

// C09, C12: derived public keys are points the other operations accept.
func lemmaDerivedKey(p *PrivateKey, network *Network) bool {
	q, ok := p.GetPublicKey()
	if !ok {
		return false
	}
	r, err := PublicFromHex(q.Format(true), network)
	if err != nil || r.X.Cmp(q.X) != 0 || r.Y.Cmp(q.Y) != 0 {
		return false
	}
	s, err := PublicFromHex(q.Format(false), network)
	return err == nil && s.X.Cmp(q.X) == 0 && s.Y.Cmp(q.Y) == 0
}

// C15: the public key of the sum is the sum of the public keys.
func lemmaHomomorphism(p1, p2 *PrivateKey, compressed bool) bool {
	p, err := AddPrivateKeys(p1, p2)
	if err != nil {
		return false
	}
	q, ok := p.GetPublicKey()
	q1, ok1 := p1.GetPublicKey()
	q2, ok2 := p2.GetPublicKey()
	if !ok || !ok1 || !ok2 {
		return false
	}
	s, err := AddPublicKeys(q1, q2, compressed)
	if err != nil {
		return false
	}
	return s.X.Cmp(q.X) == 0 && s.Y.Cmp(q.Y) == 0 && s.Network == q.Network
}

// C19: a generated mnemonic is accepted.
func lemmaMnemonicAccepted(words int, passphrase string, wordlist Wordlist) bool {
	m, err := NewMnemonic(words, wordlist)
	if err != nil {
		return true
	}
	seed, err := NewSeedFromMnemonic(m, passphrase, wordlist)
	return err == nil && len(seed) == 64
}
