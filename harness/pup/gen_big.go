//go:build go1.21

package pup

import (
	"math/big"

	"pgregory.net/rapid"
)

var bigOps3 = []string{"bigIntAdd", "bigIntSub", "bigIntMul", "bigIntTDiv", "bigIntTMod", "bigIntEDiv", "bigIntEMod",
	"bigIntAnd", "bigIntOr", "bigIntXor"}
var bigOps2 = []string{"bigIntAbs", "bigIntNeg", "bigIntNot"}

// BigBytes draws the bytes of an integer, edges included.
func (g *Gen) BigBytes() []byte {
	switch g.n(0, 6, "bigkind") {
	case 0:
		return g.Bytes(0, 3, "b")
	case 1:
		return g.Bytes(7, 9, "b")
	case 2:
		return g.Bytes(31, 34, "b")
	case 3:
		v := new(big.Int).Lsh(big.NewInt(1), uint(g.n(0, 600, "bit")))
		v.Add(v, big.NewInt(int64(g.n(-2, 2, "d"))))
		if v.Sign() < 0 {
			v.Neg(v)
		}
		return v.Bytes()
	case 4:
		return append([]byte{0}, g.Bytes(0, 5, "b")...)
	case 5:
		n := g.n(1, 40, "n")
		b := make([]byte, n)
		for k := range b {
			b[k] = 0xff
		}
		return b
	}
	return g.Bytes(0, 70, "b")
}

func (g *Gen) handle() int64 {
	if g.chance(4, "odd handle") {
		return int64(pick(g, []int{-1, 77, 1 << 30, -1 << 31}, "handle"))
	}
	return int64(g.n(0, 4, "h"))
}

func bigSet(s *SB, g *Gen) {
	h := i(g.handle())
	switch g.n(0, 5, "set") {
	case 0:
		s.Call(0, "bigIntSetInt64", h, U(g.small()))
	case 1:
		s.Call(0, "bigIntNew", U(g.small()))
		s.trace(0)
	case 2:
		s.Call(0, pick(g, []string{"bigIntGetUnsignedArgument", "bigIntGetSignedArgument"}, "fn"), i(int64(g.n(1, 3, "id"))), h)
	default:
		b := g.BigBytes()
		s.Call(0, pick(g, []string{"bigIntSetUnsignedBytes", "bigIntSetSignedBytes"}, "fn"), h, i(s.Put(b)), i(int64(len(b))))
	}
}

func bigStep(s *SB, g *Gen) {
	d, a, b := g.handle(), g.handle(), g.handle()
	switch g.n(0, 9, "bigop") {
	case 0, 1, 2, 3:
		s.Call(0, pick(g, bigOps3, "op"), i(d), i(a), i(b))
	case 4:
		s.Call(0, pick(g, bigOps2, "op"), i(d), i(a))
	case 5:
		n := int64(g.n(-1, 80, "bits"))
		if g.chance(10, "far") {
			n = rapid.Int64Range(-1<<31, 5000).Draw(g.T, "bits")
		}
		s.Call(0, pick(g, []string{"bigIntShl", "bigIntShr"}, "op"), i(d), i(a), i(n))
	case 6:
		s.Call(0, "bigIntCmp", i(a), i(b))
		s.trace(0)
		s.Call(0, "bigIntSign", i(d))
		s.trace(0)
		return
	case 7:
		s.Call(0, "bigIntIsInt64", i(a))
		s.trace(0)
		s.Call(0, "bigIntGetInt64", i(a))
		s.trace(0)
		return
	case 8:
		s.Call(0, "bigIntUnsignedByteLength", i(a))
		s.trace(0)
		s.Call(0, "bigIntSignedByteLength", i(a))
		s.trace(0)
		at := s.out(120)
		s.Call(0, pick(g, []string{"bigIntGetUnsignedBytes", "bigIntGetSignedBytes"}, "fn"), i(a), i(at))
		s.trace(0)
		s.traceM(at, 120)
		return
	case 9:
		s.Call(0, pick(g, []string{"bigIntFinishUnsigned", "bigIntFinishSigned"}, "fn"), i(a))
		return
	}
	// read the result back, signed, and the operands too: they must not have changed
	for _, h := range []int64{d, a, b} {
		s.Call(0, "bigIntFinishSigned", i(h))
	}
}
