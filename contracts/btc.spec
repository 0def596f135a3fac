// Contracts of github.com/aureleoules/btc, checked against /repo's current source by /verif/engine.
//
// Cases are tried in order; the first whose condition holds applies. [..] names the properties a case carries.
// Sequences are byte sequences; dig(b, n, w) is n written with w base-b digits (most significant first; base 256:
// bytes; base 2 and 16: the characters '0'.. and lowercase 'a'..'f'), val(b, s) the number s denotes.

define inrange(k) = 0 < k && k < N
define isbyte(s) = len(s) == 2 && isdig(16, s)
define prefixbyte(s) = dig(256, val(16, s), 1)
define checksum(b) = slice(sha256(sha256(b)), 0, 4)
define b58check(b) = b58enc(cat(b, checksum(b)))
define wif(net, k) = b58check(cat(prefixbyte(net.PrivKeyPrefix), dig(256, k, 32)))
define hex64(n) = dig(16, n, 64)

func CheckWIF(wif)
  case base58check [C03]
    when isb58(wif) && len(b58dec(wif)) >= 4 && \
         slice(b58dec(wif), len(b58dec(wif)) - 4, len(b58dec(wif))) == checksum(slice(b58dec(wif), 0, len(b58dec(wif)) - 4))
    returns true
  case other [C03]
    otherwise
    returns false

define wifbody(w) = b58dec(w)
define wifok(w, net) = isb58(w) && (len(b58dec(w)) == 37 || len(b58dec(w)) == 38 && at(b58dec(w), 33) == 1) && \
   slice(b58dec(w), len(b58dec(w)) - 4, len(b58dec(w))) == checksum(slice(b58dec(w), 0, len(b58dec(w)) - 4)) && \
   slice(b58dec(w), 0, 1) == prefixbyte(net.PrivKeyPrefix) && inrange(val(256, slice(b58dec(w), 1, 33)))

func PrivateFromWIF(wif, network)
  variants distinct, lib(network+MainNetwork), lib(network+TestNetwork)
  requires isbyte(network.PrivKeyPrefix)
  case wif-of-network [C04]
    when wifok(wif, network)
    let k = val(256, slice(b58dec(wif), 1, 33))
    returns &PrivateKey{Key: k, Hex: hex64(k), WIF: wif, Network: network}, nil
  case other [C04]
    otherwise
    returns nil, err

func PrivateFromHex(hexa, network)
  variants distinct, lib(network+MainNetwork), lib(network+TestNetwork)
  requires isbyte(network.PrivKeyPrefix)
  case private-key [C01]
    when len(hexa) == 64 && isdig(16, hexa) && inrange(val(16, hexa))
    returns &PrivateKey{Key: val(16, hexa), Hex: hexa, WIF: wif(network, val(16, hexa)), Network: network}, nil
  case other [C02]
    otherwise
    returns nil, err

func GeneratePrivateKey(network)
  variants distinct, lib(network+MainNetwork), lib(network+TestNetwork)
  requires isbyte(network.PrivKeyPrefix)
  case random-source-fails [C06]
    when randfail
    nokey
  case drawn [C06]
    otherwise
    choose k = drawnkey() such that inrange(k)
    returns &PrivateKey{Key: k, Hex: hex64(k), WIF: wif(network, k), Network: network}

define validkey(p) = inrange(p.Key) && len(p.Hex) == 64 && isdig(16, p.Hex) && val(16, p.Hex) == p.Key && isbyte(p.Network.PrivKeyPrefix)

func AddPrivateKeys(p1, p2)
  variants distinct, same(p1+p2), share(p1.Network+p2.Network), share(p1.Key+p2.Key), lib(p1.Network+MainNetwork)&lib(p2.Network+MainNetwork), lib(p1.Network+TestNetwork)&lib(p2.Network+TestNetwork), lib(p1.Network+MainNetwork)&lib(p2.Network+TestNetwork), lib(p1.Network+TestNetwork), lib(p2.Network+MainNetwork)
  requires validkey(p1)
  requires validkey(p2)
  case error [C07]
    when !samenet(p1.Network, p2.Network) || p1.Key == p2.Key || p1.Key + p2.Key == N
    returns nil, err
  case sum [C07]
    otherwise
    let k = (p1.Key + p2.Key) % N
    returns &PrivateKey{Key: k, Hex: hex64(k), WIF: wif(p1.Network, k), Network: p1.Network}, nil

func MultiplyPrivateKeys(p1, p2)
  variants distinct, same(p1+p2), share(p1.Network+p2.Network), share(p1.Key+p2.Key), lib(p1.Network+MainNetwork)&lib(p2.Network+MainNetwork), lib(p1.Network+TestNetwork)&lib(p2.Network+TestNetwork), lib(p1.Network+MainNetwork)&lib(p2.Network+TestNetwork), lib(p1.Network+TestNetwork), lib(p2.Network+MainNetwork)
  requires validkey(p1)
  requires validkey(p2)
  case error [C08]
    when !samenet(p1.Network, p2.Network) || p1.Key == p2.Key
    returns nil, err
  case product [C08]
    otherwise
    let k = (p1.Key * p2.Key) % N
    returns &PrivateKey{Key: k, Hex: hex64(k), WIF: wif(p1.Network, k), Network: p1.Network}, nil

func PrivateKey.GetPublicKey(p)
  variants distinct, nil(p.Key), lib(p.Network+MainNetwork), lib(p.Network+TestNetwork)
  case in-range [C09]
    when p.Key != nil && inrange(p.Key)
    returns &PublicKey{X: mulx(p.Key), Y: muly(p.Key), Network: p.Network}, true
  case out-of-range [C09]
    otherwise
    returns nil, false

func PublicKey.Format(p, compressed)
  variants distinct, lib(p.Network+MainNetwork), lib(p.Network+TestNetwork)
  requires oncurve(p.X, p.Y)
  case uncompressed [C10]
    when !compressed
    returns cat("04", hex64(p.X), hex64(p.Y))
  case even [C10]
    when p.Y % 2 == 0
    returns cat("02", hex64(p.X))
  case odd [C10]
    otherwise
    returns cat("03", hex64(p.X))

define issec(h) = isdig(16, h)
define isUncompressed(h) = len(h) == 130 && isdig(16, h) && slice(h, 0, 2) == "04" && oncurve(val(16, slice(h, 2, 66)), val(16, slice(h, 66, 130)))
define isCompressed(h) = len(h) == 66 && isdig(16, h) && (slice(h, 0, 2) == "02" || slice(h, 0, 2) == "03") && \
   val(16, slice(h, 2, 66)) < P && oncurve(val(16, slice(h, 2, 66)), root(val(16, slice(h, 2, 66))))

func PublicFromHex(hexa, network)
  variants distinct, lib(network+MainNetwork), lib(network+TestNetwork)
  case uncompressed [C11]
    when isUncompressed(hexa)
    returns &PublicKey{X: val(16, slice(hexa, 2, 66)), Y: val(16, slice(hexa, 66, 130)), Network: network}, nil
  case compressed [C11]
    when isCompressed(hexa)
    let x = val(16, slice(hexa, 2, 66))
    let y = root(x)
    let odd = ite(slice(hexa, 0, 2) == "03", 1, 0)
    returns &PublicKey{X: x, Y: ite(y % 2 == odd, y, P - y), Network: network}, nil
  case other [C11]
    otherwise
    returns nil, err

define hash160(b) = ripemd160(sha256(b))
define secbytes(p, compressed) = ite(compressed, cat(ite(p.Y % 2 == 0, dig(256, 2, 1), dig(256, 3, 1)), dig(256, p.X, 32)), cat(dig(256, 4, 1), dig(256, p.X, 32), dig(256, p.Y, 32)))

func PublicKey.Address(p, compressed)
  variants distinct, lib(p.Network+MainNetwork), lib(p.Network+TestNetwork)
  requires oncurve(p.X, p.Y)
  requires isbyte(p.Network.PubKeyHashPrefix)
  case uncompressed [C13]
    when !compressed
    returns b58check(cat(prefixbyte(p.Network.PubKeyHashPrefix), hash160(cat(dig(256, 4, 1), dig(256, p.X, 32), dig(256, p.Y, 32))))), nil
  case even [C13]
    when p.Y % 2 == 0
    returns b58check(cat(prefixbyte(p.Network.PubKeyHashPrefix), hash160(cat(dig(256, 2, 1), dig(256, p.X, 32))))), nil
  case odd [C13]
    otherwise
    returns b58check(cat(prefixbyte(p.Network.PubKeyHashPrefix), hash160(cat(dig(256, 3, 1), dig(256, p.X, 32))))), nil

func AddPublicKeys(p1, p2, compressed)
  variants distinct, same(p1+p2), share(p1.Network+p2.Network), share(p1.X+p2.X), share(p1.Y+p2.Y), lib(p1.Network+MainNetwork)&lib(p2.Network+MainNetwork), lib(p1.Network+TestNetwork)&lib(p2.Network+TestNetwork), lib(p1.Network+MainNetwork)&lib(p2.Network+TestNetwork), lib(p1.Network+TestNetwork), lib(p2.Network+MainNetwork)
  requires oncurve(p1.X, p1.Y)
  requires oncurve(p2.X, p2.Y)
  case error [C14]
    when !samenet(p1.Network, p2.Network) || p1.X == p2.X && p1.Y != p2.Y
    returns nil, err
  case sum [C14]
    otherwise
    returns &PublicKey{X: addx(p1.X, p1.Y, p2.X, p2.Y), Y: addy(p1.X, p1.Y, p2.X, p2.Y), Network: p1.Network}, nil

define entbits(n) = n / 3 * 32
define bip39bits(n, e) = cat(dig(2, e, entbits(n)), slice(dig(2, val(256, sha256(dig(256, e, entbits(n) / 8))), 256), 0, n / 3))

func NewMnemonic(words, wordlist)
  split nonempty(wordlist)
  case bad-list [C16]
    when len(wordlist) != 2048
    returns "", err
  for n in 12, 15, 18, 21, 24 {
  case random-source-fails-$n [C16]
    when words == $n && randfail
    returns "", err
  case empty-word-$n [C16]
    when words == $n && !nonempty(wordlist)
    anything
  case words-$n [C16]
    when words == $n
    choose e = drawnbits(entbits($n))
    let bits = bip39bits($n, e)
    returns joinfor(i, $n, elem(wordlist, val(2, slice(bits, 11 * i, 11 * i + 11)))), nil
  }
  case other-length [C16]
    otherwise
    returns "", err

define phrasebits(m, wl, n) = catfor(i, n, dig(2, indexof(wl, elem(split(m, " "), i)), 11))

func NewSeedFromMnemonic(mnemonic, passphrase, wordlist)
  split len(split(mnemonic, " ")) == 12; len(split(mnemonic, " ")) == 15; len(split(mnemonic, " ")) == 18; len(split(mnemonic, " ")) == 21; len(split(mnemonic, " ")) == 24
  requires distinct(wordlist)
  case bad-list [C17]
    when len(wordlist) != 2048
    returns nil, err
  for n in 12, 15, 18, 21, 24 {
  case unknown-word-$n [C17]
    when len(split(mnemonic, " ")) == $n && !allfor(i, $n, indexof(wordlist, elem(split(mnemonic, " "), i)) >= 0)
    returns nil, err
  case valid-$n [C17; r0:C18]
    when len(split(mnemonic, " ")) == $n && \
      slice(phrasebits(mnemonic, wordlist, $n), entbits($n), 11 * $n) == \
      slice(dig(2, val(256, sha256(dig(256, val(2, slice(phrasebits(mnemonic, wordlist, $n), 0, entbits($n))), entbits($n) / 8))), 256), 0, $n / 3)
    returns pbkdf2_sha512(mnemonic, cat("mnemonic", passphrase), 2048, 64), nil
  }
  case other [C17]
    otherwise
    returns nil, err

// ---- lemmas over the contracts above (programs in lemmas.go) ----

define iskeyhex(h) = len(h) == 64 && isdig(16, h) && inrange(val(16, h))

lemma lemmaWIFRoundTrip(hexa, network)
  requires isbyte(network.PrivKeyPrefix)
  requires iskeyhex(hexa)
  case round-trip [C05]
    otherwise
    returns true

lemma lemmaWIFOtherNetwork(hexa, network, other)
  requires isbyte(network.PrivKeyPrefix)
  requires isbyte(other.PrivKeyPrefix)
  requires iskeyhex(hexa)
  requires val(16, network.PrivKeyPrefix) != val(16, other.PrivKeyPrefix)
  case rejected [C05]
    otherwise
    returns true

lemma lemmaGeneratedWIF(network, other)
  requires isbyte(network.PrivKeyPrefix)
  requires isbyte(other.PrivKeyPrefix)
  requires val(16, network.PrivKeyPrefix) != val(16, other.PrivKeyPrefix)
  case random-source-fails [C05]
    when randfail
    anything
  case round-trip [C05]
    otherwise
    returns true

lemma lemmaPublicFormatParse(p, compressed, network)
  requires oncurve(p.X, p.Y)
  case round-trip [C12]
    otherwise
    returns true

lemma lemmaPublicParseFormat(hexa, network)
  case round-trip [C12]
    otherwise
    returns true

lemma lemmaDerivedKey(p, network)
  requires inrange(p.Key)
  case round-trip [C12, C09]
    otherwise
    returns true

lemma lemmaHomomorphism(p1, p2, compressed)
  variants distinct, share(p1.Network+p2.Network)
  requires validkey(p1)
  requires validkey(p2)
  requires samenet(p1.Network, p2.Network)
  requires p1.Key != p2.Key
  requires p1.Key + p2.Key != N
  case agree [C15]
    otherwise
    returns true

lemma lemmaMnemonicAccepted(words, passphrase, wordlist)
  requires distinct(wordlist)
  requires nospace(wordlist)
  requires nonempty(wordlist)
  case random-source-fails [C19]
    when randfail
    anything
  case accepted [C19]
    otherwise
    returns true
