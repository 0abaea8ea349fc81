//go:build go1.21

package cryptox

import (
	"bytes"
	stded "crypto/ed25519"
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"math/big"
	"math/bits"
	"testing"

	vmcrypto "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/crypto"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/crypto/factory"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/zzverif/pup"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/zzverif/vh"
	vmcommon "github.com/ElrondNetwork/elrond-vm-common"
	"github.com/btcsuite/btcd/btcec"
	"github.com/herumi/bls-go-binary/bls"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { vh.Main(m) }

const rule = "a digest is computed, or a signature scheme is asked about a signature made for the case (valid, or with its message, key or " +
	"signature altered) and the answer is forced by the standard"

// ---- independent digests

// keccak256 is Keccak with the original padding, written from its definition.
func keccak256(data []byte) []byte {
	rc := [24]uint64{1, 0x8082, 0x800000000000808A, 0x8000000080008000, 0x808B, 0x80000001, 0x8000000080008081, 0x8000000000008009,
		0x8A, 0x88, 0x80008009, 0x8000000A, 0x8000808B, 0x800000000000008B, 0x8000000000008089, 0x8000000000008003,
		0x8000000000008002, 0x8000000000000080, 0x800A, 0x800000008000000A, 0x8000000080008081, 0x8000000000008080, 0x80000001, 0x8000000080008008}
	var a [5][5]uint64
	f := func() {
		for round := 0; round < 24; round++ {
			var c [5]uint64
			for x := 0; x < 5; x++ {
				c[x] = a[x][0] ^ a[x][1] ^ a[x][2] ^ a[x][3] ^ a[x][4]
			}
			for x := 0; x < 5; x++ {
				d := c[(x+4)%5] ^ bits.RotateLeft64(c[(x+1)%5], 1)
				for y := 0; y < 5; y++ {
					a[x][y] ^= d
				}
			}
			var b [5][5]uint64
			x, y := 1, 0
			b[0][0] = a[0][0]
			for t := 0; t < 24; t++ {
				b[y][(2*x+3*y)%5] = bits.RotateLeft64(a[x][y], (t+1)*(t+2)/2%64)
				x, y = y, (2*x+3*y)%5
			}
			for x := 0; x < 5; x++ {
				for y := 0; y < 5; y++ {
					a[x][y] = b[x][y] ^ (^b[(x+1)%5][y] & b[(x+2)%5][y])
				}
			}
			a[0][0] ^= rc[round]
		}
	}
	const rate = 136
	p := append(append([]byte(nil), data...), 1)
	for len(p)%rate != 0 {
		p = append(p, 0)
	}
	p[len(p)-1] |= 0x80
	for ; len(p) > 0; p = p[rate:] {
		for i := 0; i < rate/8; i++ {
			a[i%5][i/5] ^= binary.LittleEndian.Uint64(p[8*i:])
		}
		f()
	}
	var out []byte
	for i := 0; i < 4; i++ {
		out = binary.LittleEndian.AppendUint64(out, a[i%5][i/5])
	}
	return out
}

// rmd160 is RIPEMD-160, written from its definition.
func rmd160(data []byte) []byte {
	r1 := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 7, 4, 13, 1, 10, 6, 15, 3, 12, 0, 9, 5, 2, 14, 11, 8,
		3, 10, 14, 4, 9, 15, 8, 1, 2, 7, 0, 6, 13, 11, 5, 12, 1, 9, 11, 10, 0, 8, 12, 4, 13, 3, 7, 15, 14, 5, 6, 2,
		4, 0, 5, 9, 7, 12, 2, 10, 14, 1, 3, 8, 11, 6, 15, 13}
	r2 := []int{5, 14, 7, 0, 9, 2, 11, 4, 13, 6, 15, 8, 1, 10, 3, 12, 6, 11, 3, 7, 0, 13, 5, 10, 14, 15, 8, 12, 4, 9, 1, 2,
		15, 5, 1, 3, 7, 14, 6, 9, 11, 8, 12, 2, 10, 0, 4, 13, 8, 6, 4, 1, 3, 11, 15, 0, 5, 12, 2, 13, 9, 7, 10, 14,
		12, 15, 10, 4, 1, 5, 8, 7, 6, 2, 13, 14, 0, 3, 9, 11}
	s1 := []int{11, 14, 15, 12, 5, 8, 7, 9, 11, 13, 14, 15, 6, 7, 9, 8, 7, 6, 8, 13, 11, 9, 7, 15, 7, 12, 15, 9, 11, 7, 13, 12,
		11, 13, 6, 7, 14, 9, 13, 15, 14, 8, 13, 6, 5, 12, 7, 5, 11, 12, 14, 15, 14, 15, 9, 8, 9, 14, 5, 6, 8, 6, 5, 12,
		9, 15, 5, 11, 6, 8, 13, 12, 5, 12, 13, 14, 11, 8, 5, 6}
	s2 := []int{8, 9, 9, 11, 13, 15, 15, 5, 7, 7, 8, 11, 14, 14, 12, 6, 9, 13, 15, 7, 12, 8, 9, 11, 7, 7, 12, 7, 6, 15, 13, 11,
		9, 7, 15, 11, 8, 6, 6, 14, 12, 13, 5, 14, 13, 13, 7, 5, 15, 5, 8, 11, 14, 14, 6, 14, 6, 9, 12, 9, 12, 5, 15, 8,
		8, 5, 12, 9, 12, 5, 14, 6, 8, 13, 6, 5, 15, 13, 11, 11}
	k1 := []uint32{0, 0x5a827999, 0x6ed9eba1, 0x8f1bbcdc, 0xa953fd4e}
	k2 := []uint32{0x50a28be6, 0x5c4dd124, 0x6d703ef3, 0x7a6d76e9, 0}
	f := func(j int, x, y, z uint32) uint32 {
		switch j / 16 {
		case 0:
			return x ^ y ^ z
		case 1:
			return x&y | ^x&z
		case 2:
			return (x | ^y) ^ z
		case 3:
			return x&z | y&^z
		}
		return x ^ (y | ^z)
	}
	h := [5]uint32{0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0}
	p := append(append([]byte(nil), data...), 0x80)
	for len(p)%64 != 56 {
		p = append(p, 0)
	}
	p = binary.LittleEndian.AppendUint64(p, uint64(len(data))*8)
	for ; len(p) > 0; p = p[64:] {
		var x [16]uint32
		for i := range x {
			x[i] = binary.LittleEndian.Uint32(p[4*i:])
		}
		a, b := h, h
		for j := 0; j < 80; j++ {
			t := bits.RotateLeft32(a[0]+f(j, a[1], a[2], a[3])+x[r1[j]]+k1[j/16], s1[j]) + a[4]
			a = [5]uint32{a[4], t, a[1], bits.RotateLeft32(a[2], 10), a[3]}
			t = bits.RotateLeft32(b[0]+f(79-j, b[1], b[2], b[3])+x[r2[j]]+k2[j/16], s2[j]) + b[4]
			b = [5]uint32{b[4], t, b[1], bits.RotateLeft32(b[2], 10), b[3]}
		}
		h = [5]uint32{h[1] + a[2] + b[3], h[2] + a[3] + b[4], h[3] + a[4] + b[0], h[4] + a[0] + b[1], h[0] + a[1] + b[2]}
	}
	var out []byte
	for _, v := range h {
		out = binary.LittleEndian.AppendUint32(out, v)
	}
	return out
}

func sha(d []byte) []byte { h := sha256.Sum256(d); return h[:] }

// ---- what the standards say about a signature

type verdict int

const (
	reject verdict = iota
	accept
	either
)

var curve = btcec.S256()

// parsePoint reads a public key as SEC 1 defines it.
func parsePoint(k []byte) (x, y *big.Int) {
	p := curve.P
	solve := func(x *big.Int) *big.Int {
		r := new(big.Int).Exp(x, big.NewInt(3), p)
		r.Add(r, big.NewInt(7)).Mod(r, p)
		return new(big.Int).ModSqrt(r, p)
	}
	switch {
	case len(k) == 33 && (k[0] == 2 || k[0] == 3):
		x = new(big.Int).SetBytes(k[1:])
		if x.Cmp(p) >= 0 {
			return nil, nil
		}
		y = solve(x)
		if y == nil {
			return nil, nil
		}
		if y.Bit(0) != uint(k[0]&1) {
			y.Sub(p, y)
		}
		return x, y
	case len(k) == 65 && (k[0] == 4 || k[0] == 6 || k[0] == 7):
		x, y = new(big.Int).SetBytes(k[1:33]), new(big.Int).SetBytes(k[33:])
		if x.Cmp(p) >= 0 || y.Cmp(p) >= 0 || !curve.IsOnCurve(x, y) {
			return nil, nil
		}
		if k[0] != 4 && y.Bit(0) != uint(k[0]&1) {
			return nil, nil
		}
		return x, y
	}
	return nil, nil
}

// parseDER reads r and s; strict tells whether the encoding is the canonical one.
func parseDER(b []byte) (r, s *big.Int, strict bool) {
	if len(b) < 8 || b[0] != 0x30 || int(b[1]) > len(b)-2 {
		return nil, nil, false
	}
	strict = int(b[1]) == len(b)-2
	b = b[2 : 2+int(b[1])]
	num := func() *big.Int {
		if len(b) < 2 || b[0] != 2 || b[1] == 0 || int(b[1]) > len(b)-2 || b[1] >= 128 {
			return nil
		}
		v := b[2 : 2+int(b[1])]
		b = b[2+int(b[1]):]
		if v[0]&0x80 != 0 || (len(v) > 1 && v[0] == 0 && v[1]&0x80 == 0) {
			strict = false
		}
		return new(big.Int).SetBytes(v)
	}
	if r = num(); r == nil {
		return nil, nil, false
	}
	if s = num(); s == nil {
		return nil, nil, false
	}
	return r, s, strict && len(b) == 0
}

func secp(key, msg, sig []byte) verdict {
	x, y := parsePoint(key)
	if x == nil {
		return reject
	}
	r, s, strict := parseDER(sig)
	if r == nil || r.Sign() <= 0 || s.Sign() <= 0 || r.Cmp(curve.N) >= 0 || s.Cmp(curve.N) >= 0 {
		return reject
	}
	h := sha256.Sum256(msg)
	h = sha256.Sum256(h[:])
	w := new(big.Int).ModInverse(s, curve.N)
	u1 := new(big.Int).Mul(new(big.Int).SetBytes(h[:]), w)
	u1.Mod(u1, curve.N)
	u2 := w.Mul(r, w)
	u2.Mod(u2, curve.N)
	x1, y1 := curve.ScalarBaseMult(u1.Bytes())
	x2, y2 := curve.ScalarMult(x, y, u2.Bytes())
	x3, y3 := curve.Add(x1, y1, x2, y2)
	if x3.Sign() == 0 && y3.Sign() == 0 || new(big.Int).Mod(x3, curve.N).Cmp(r) != 0 {
		return reject
	}
	if strict {
		return accept
	}
	return either
}

// ---- cases

type sigCase struct {
	scheme        string // Ed25519, Secp256k1, BLS
	key, msg, sig []byte
	want          verdict
	how           string
}

func (c sigCase) String() string {
	return fmt.Sprintf("%s %s key=%x msg=%x sig=%x want=%v", c.scheme, c.how, c.key, c.msg, c.sig, []string{"reject", "accept", "either"}[c.want])
}

func der(r, s *big.Int) []byte {
	enc := func(v *big.Int) []byte {
		b := v.Bytes()
		if len(b) == 0 || b[0]&0x80 != 0 {
			b = append([]byte{0}, b...)
		}
		return append([]byte{2, byte(len(b))}, b...)
	}
	body := append(enc(r), enc(s)...)
	return append([]byte{0x30, byte(len(body))}, body...)
}

func genMsg(t *rapid.T) []byte {
	n := rapid.OneOf(rapid.IntRange(0, 80), rapid.SampledFrom([]int{0, 1, 31, 32, 33, 55, 56, 63, 64, 65, 111, 112, 127, 128, 135, 136, 137, 271, 272, 1000})).Draw(t, "length")
	seed := rapid.SliceOfN(rapid.Byte(), 1, 16).Draw(t, "message")
	out := make([]byte, n)
	for i := range out {
		out[i] = seed[i%len(seed)] ^ byte(i/len(seed))
	}
	return out
}

func mutate(t *rapid.T, b []byte, sameLength bool) []byte {
	c := append([]byte(nil), b...)
	kinds := []string{"bit", "bit", "byte"}
	if !sameLength {
		kinds = append(kinds, "longer", "shorter")
	}
	switch k := rapid.SampledFrom(kinds).Draw(t, "mutation"); {
	case k == "longer" || len(c) == 0 && !sameLength:
		return append(c, rapid.Byte().Draw(t, "more"))
	case k == "shorter":
		return c[:len(c)-1]
	case len(c) == 0:
		return c
	case k == "bit":
		c[rapid.IntRange(0, len(c)-1).Draw(t, "at")] ^= 1 << rapid.IntRange(0, 7).Draw(t, "bit")
	default:
		c[rapid.IntRange(0, len(c)-1).Draw(t, "at")] += byte(rapid.IntRange(1, 255).Draw(t, "delta"))
	}
	return c
}

func blsSecret(seed []byte) *bls.SecretKey {
	var sk bls.SecretKey
	h := sha256.Sum256(seed)
	h[31] &= 0x1f
	h[0] |= 1
	if err := sk.SetLittleEndian(h[:]); err != nil {
		panic("INFRA: " + err.Error())
	}
	return &sk
}

// genSig draws a signature and what must be said of it; fixed means key and
// signature keep the lengths of the scheme.
func genSig(t *rapid.T, fixed bool) sigCase {
	c := sigCase{scheme: rapid.SampledFrom([]string{"Ed25519", "Secp256k1", "BLS"}).Draw(t, "scheme"), msg: genMsg(t)}
	seed := sha(rapid.SliceOfN(rapid.Byte(), 1, 4).Draw(t, "secret"))
	var other []byte // another key
	switch c.scheme {
	case "Ed25519":
		k := stded.NewKeyFromSeed(seed)
		c.key, c.sig = append([]byte(nil), k[32:]...), stded.Sign(k, c.msg)
		other = stded.NewKeyFromSeed(sha(seed))[32:]
	case "Secp256k1":
		k, pub := btcec.PrivKeyFromBytes(curve, seed)
		_, pub2 := btcec.PrivKeyFromBytes(curve, sha(seed))
		form := rapid.SampledFrom([]string{"compressed", "uncompressed", "hybrid"}).Draw(t, "form")
		enc := func(p *btcec.PublicKey) []byte {
			switch form {
			case "compressed":
				return p.SerializeCompressed()
			case "uncompressed":
				return p.SerializeUncompressed()
			}
			return p.SerializeHybrid()
		}
		c.key, other = enc(pub), enc(pub2)
		h := sha256.Sum256(c.msg)
		h = sha256.Sum256(h[:])
		s, err := k.Sign(h[:])
		if err != nil {
			panic("INFRA: " + err.Error())
		}
		sv := s.S
		if rapid.Bool().Draw(t, "high s") {
			sv = new(big.Int).Sub(curve.N, sv)
		}
		c.sig = der(s.R, sv)
	case "BLS":
		if len(c.msg) == 0 {
			c.msg = []byte{0} // the scheme here does not sign the empty message
		}
		sk := blsSecret(seed)
		c.key, c.sig = sk.GetPublicKey().Serialize(), sk.Sign(string(c.msg)).Serialize()
		other = blsSecret(sha(seed)).GetPublicKey().Serialize()
	}
	key, msg, sig := c.key, c.msg, c.sig
	c.how = rapid.SampledFrom([]string{"valid", "valid", "message", "key", "key", "other key", "signature", "signature", "parts", "zero key",
		"zero signature", "zeros", "random key", "random signature"}).Draw(t, "case")
	rnd := func(n int) []byte { return rapid.SliceOfN(rapid.Byte(), n, n).Draw(t, "random") }
	switch c.how {
	case "message":
		c.msg = mutate(t, msg, false)
	case "key":
		c.key = mutate(t, key, fixed)
	case "other key":
		c.key = other
	case "signature":
		c.sig = mutate(t, sig, fixed)
	case "parts": // numbers at the edges
		edge := func() *big.Int {
			return new(big.Int).Add(rapid.SampledFrom([]*big.Int{big.NewInt(0), big.NewInt(1), curve.N, curve.P, new(big.Int).Lsh(big.NewInt(1), 256)}).Draw(t, "edge"),
				big.NewInt(int64(rapid.IntRange(0, 2).Draw(t, "plus"))))
		}
		switch c.scheme {
		case "Secp256k1":
			r, s, _ := parseDER(sig)
			if rapid.Bool().Draw(t, "r") {
				r = edge()
			} else if rapid.Bool().Draw(t, "s+n") {
				s = new(big.Int).Add(s, curve.N)
			} else {
				s = edge()
			}
			c.sig = der(r, s)
		case "Ed25519": // the same s plus the order of the group
			l, _ := new(big.Int).SetString("7237005577332262213973186563042994240857116359379907606001950938285454250989", 10)
			s := append([]byte(nil), sig[32:]...)
			for i, j := 0, 31; i < j; i, j = i+1, j-1 {
				s[i], s[j] = s[j], s[i]
			}
			v := new(big.Int).SetBytes(s)
			v.Add(v, l)
			if v.BitLen() <= 256 {
				v.FillBytes(s)
				for i, j := 0, 31; i < j; i, j = i+1, j-1 {
					s[i], s[j] = s[j], s[i]
				}
				c.sig = append(append([]byte(nil), sig[:32]...), s...)
			}
		default: // the opposite point
			var g bls.G1
			if g.Deserialize(sig) == nil {
				bls.G1Neg(&g, &g)
				c.sig = g.Serialize()
			}
		}
	case "zero key":
		c.key = make([]byte, len(key))
	case "zero signature":
		c.sig = make([]byte, len(sig))
		if c.scheme == "Secp256k1" {
			c.sig[1] = byte(len(sig) - 2)
		}
	case "zeros":
		c.key, c.sig = make([]byte, len(key)), make([]byte, len(sig))
		if c.scheme == "Secp256k1" {
			c.sig[1] = byte(len(sig) - 2)
		}
		if c.scheme == "BLS" && rapid.Bool().Draw(t, "flag") {
			c.key[0], c.sig[0] = 0xc0, 0xc0
		}
	case "random key":
		c.key = rnd(len(key))
	case "random signature":
		c.sig = rnd(len(sig))
		if c.scheme == "Secp256k1" && fixed {
			c.sig[1] = byte(len(sig) - 2)
		}
	}
	same := bytes.Equal(c.key, key) && bytes.Equal(c.msg, msg) && bytes.Equal(c.sig, sig)
	switch {
	case same:
		c.want = accept
	case c.scheme == "Secp256k1":
		c.want = secp(c.key, c.msg, c.sig)
	case c.scheme == "Ed25519" && bytes.Equal(c.msg, msg) && len(c.key) == 32 && len(c.sig) == 64 && c.key[31]&0x7f == 0 && bytes.Equal(c.key[:31], make([]byte, 31)):
		c.want = either // points of small order: the standards differ
	default:
		c.want = reject
	}
	return c
}

func verify(v vmcrypto.VMCrypto, c sigCase) error {
	switch c.scheme {
	case "Ed25519":
		return v.VerifyEd25519(c.key, c.msg, c.sig)
	case "Secp256k1":
		return v.VerifySecp256k1(c.key, c.msg, c.sig)
	}
	return v.VerifyBLS(c.key, c.msg, c.sig)
}

// TestCryptoLib asks the machine's cryptography directly, with keys and signatures of any length.
func TestCryptoLib(t *testing.T) {
	vh.Rule("C14", rule)
	v := factory.NewVMCrypto()
	vh.Check(t, func(rt *rapid.T) {
		if rapid.IntRange(0, 3).Draw(rt, "what") == 3 {
			m := genMsg(rt)
			vh.Case(true, "digests", fmt.Sprintf("%x", m), nil)
			for _, h := range []struct {
				name string
				f    func([]byte) ([]byte, error)
				g    func([]byte) []byte
			}{{"sha256", v.Sha256, sha}, {"keccak256", v.Keccak256, keccak256}, {"ripemd160", v.Ripemd160, rmd160}} {
				in := append([]byte(nil), m...)
				got, err := h.f(in)
				if err != nil || !bytes.Equal(got, h.g(m)) || !bytes.Equal(in, m) {
					rt.Fatalf("%s of %x is %x (%v), expected %x", h.name, m, got, err, h.g(m))
				}
			}
			return
		}
		c := genSig(rt, false)
		vh.Case(c.want != either, "library: "+c.scheme+" "+c.how, c.String(), c.String)
		err := verify(v, c)
		if c.want == accept && err != nil {
			rt.Fatalf("refused (%v): %v", err, c)
		}
		if c.want == reject && err == nil {
			rt.Fatalf("accepted: %v", c)
		}
	})
}

// TestCryptoVM asks through a contract, several times in one execution.
func TestCryptoVM(t *testing.T) {
	vh.Rule("C14", rule)
	sched := pup.Schedule(1)
	vh.Check(t, func(rt *rapid.T) {
		w := pup.NewWorld()
		a := pup.Address(true, 0, 0)
		w.Put(&pup.Acc{Address: a, Code: pup.Puppet()})
		var s pup.Script
		var want [][]byte
		var doc []string
		forced := false
		fails := false
		off := uint32(0x20000)
		put := func(b []byte) pup.Val {
			at := off
			if len(b) > 0 {
				s.Data(at, b)
			}
			off += uint32(len(b))
			if rapid.Bool().Draw(rt, "gap") {
				off += 3
			}
			return pup.I(int64(at))
		}
		for i := rapid.IntRange(1, 4).Draw(rt, "operations"); i > 0; i-- {
			if rapid.IntRange(0, 2).Draw(rt, "what") == 2 {
				m := genMsg(rt)
				name := rapid.SampledFrom([]string{"sha256", "keccak256", "ripemd160"}).Draw(rt, "digest")
				at := put(m)
				res := at // over the input
				if rapid.Bool().Draw(rt, "apart") {
					res = put(make([]byte, 32))
				}
				pad := bytes.Repeat([]byte{0xEE}, 8)
				d := map[string]func([]byte) []byte{"sha256": sha, "keccak256": keccak256, "ripemd160": rmd160}[name](m)
				guard := uint32(res.V) + uint32(len(d))
				if res != at || len(m) <= len(d) {
					s.Data(guard, pad)
					d = append(d, pad...)
					if off < guard+8 {
						off = guard + 8
					}
				}
				s.Call(0, name, at, pup.I(int64(len(m))), res)
				s.Trace(0)
				s.TraceM(uint32(res.V), uint32(len(d)))
				s.Flush()
				want = append(want, append(make([]byte, 8), d...))
				doc = append(doc, fmt.Sprintf("%s(%x)", name, m))
				forced = true
				continue
			}
			c := genSig(rt, true)
			if c.scheme == "Secp256k1" && rapid.IntRange(0, 9).Draw(rt, "bad length") == 9 {
				c.key = append(c.key, 0)[:rapid.SampledFrom([]int{0, 1, 32, 34}).Draw(rt, "key length")]
				c.want = reject
				fails = true
			}
			if c.scheme == "Secp256k1" && len(c.sig) >= 2 && int(c.sig[1])+2 != len(c.sig) {
				// the machine goes by the length in the encoding; what follows is zero here
				n := int(c.sig[1]) + 2
				sig := append(append([]byte(nil), c.sig...), make([]byte, 300)...)[:n]
				if c.want = secp(c.key, c.msg, sig); len(c.key) != 33 && len(c.key) != 65 {
					c.want = reject
				}
			}
			k, m, g := put(c.key), put(c.msg), put(append(append([]byte(nil), c.sig...), make([]byte, 300)...))
			n := pup.I(int64(len(c.msg)))
			if c.scheme == "Secp256k1" {
				s.Call(0, "verifySecp256k1", k, pup.I(int64(len(c.key))), m, n, g)
			} else {
				s.Call(0, "verify"+c.scheme, k, m, n, g)
			}
			s.Trace(0)
			s.Flush()
			doc = append(doc, c.String())
			vh.Class("machine: " + c.scheme + " " + c.how)
			switch c.want {
			case accept:
				want = append(want, make([]byte, 8))
			case reject:
				want = append(want, bytes.Repeat([]byte{0xff}, 8))
			default:
				want = append(want, nil)
			}
			forced = forced || c.want != either
			if fails {
				break
			}
		}
		tx := &pup.Tx{Call: &vmcommon.ContractCallInput{RecipientAddr: a, Function: "run", VMInput: vmcommon.VMInput{
			CallerAddr: pup.Address(false, 0, 0), CallValue: big.NewInt(0), GasProvided: 1 << 40, Arguments: [][]byte{s.B}}}}
		vh.Case(forced, "machine", tx.String(), func() string { return fmt.Sprint(doc) })
		out, err := tx.Run(pup.Host(w, pup.Options{Schedule: sched}))
		if err != nil {
			rt.Fatalf("%v\n%s", err, doc)
		}
		if fails {
			if out.ReturnCode == vmcommon.Ok {
				rt.Fatalf("a key of a wrong length is let through\n%s", doc)
			}
			return
		}
		if out.ReturnCode != vmcommon.Ok || len(out.ReturnData) != len(want) {
			rt.Fatalf("%v %q, %d answers\n%s", out.ReturnCode, out.ReturnMessage, len(out.ReturnData), doc)
		}
		for i, w := range want {
			g := out.ReturnData[i]
			if len(w) == 8 && len(g) >= 8 {
				// 32-bit results, sign or zero extended
				if int32(binary.LittleEndian.Uint32(g)) != int32(binary.LittleEndian.Uint32(w)) {
					rt.Fatalf("answer %x, expected %x: %s", g, w, doc[i])
				}
			} else if len(w) > 8 && !bytes.Equal(w[8:], g[len(g)-len(w)+8:]) {
				rt.Fatalf("digest %x, expected %x: %s", g, w[8:], doc[i])
			}
		}
	})
}
