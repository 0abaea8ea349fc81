//go:build go1.21

package mathx

import (
	"fmt"
	"math"
	"math/big"
	"testing"

	vmath "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/math"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/zzverif/vh"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { vh.Main(m) }

var (
	bMaxU64 = new(big.Int).SetUint64(math.MaxUint64)
	bMaxI64 = big.NewInt(math.MaxInt64)
	bMinI64 = big.NewInt(math.MinInt64)
)

// edgeU64 draws values close to the representable limits and to each other's
// complements as often as arbitrary ones.
func edgeU64() *rapid.Generator[uint64] {
	return rapid.Custom(func(t *rapid.T) uint64 {
		switch rapid.IntRange(0, 5).Draw(t, "kind") {
		case 0:
			return rapid.Uint64().Draw(t, "v")
		case 1:
			return math.MaxUint64 - rapid.Uint64Range(0, 16).Draw(t, "d")
		case 2:
			return rapid.Uint64Range(0, 16).Draw(t, "small")
		case 3:
			b := uint(rapid.IntRange(0, 63).Draw(t, "bit"))
			return (uint64(1) << b) + rapid.Uint64Range(0, 4).Draw(t, "d") - 2
		case 4:
			return math.MaxUint64 / (1 + rapid.Uint64Range(0, 1<<33).Draw(t, "q"))
		default:
			return uint64(math.MaxInt64) + rapid.Uint64Range(0, 8).Draw(t, "d") - 4
		}
	})
}

func pairU64(t *rapid.T) (uint64, uint64) {
	a := edgeU64().Draw(t, "a")
	if rapid.Bool().Draw(t, "related") {
		d := rapid.Uint64Range(0, 4).Draw(t, "delta") - 2
		switch rapid.IntRange(0, 2).Draw(t, "rel") {
		case 0:
			return a, math.MaxUint64 - a + d
		case 1:
			return a, a + d
		default:
			if a == 0 {
				return a, d
			}
			return a, math.MaxUint64/a + d
		}
	}
	return a, edgeU64().Draw(t, "b")
}

func TestMath(t *testing.T) {
	vh.Rule("C23", "operand pairs drawn around the representable limits; non-trivial when at least one operation on the pair leaves the representable range or both operands are non-zero")
	t.Run("unsigned", func(t *testing.T) {
		vh.Check(t, func(t *rapid.T) {
			a, b := pairU64(t)
			A, B := new(big.Int).SetUint64(a), new(big.Int).SetUint64(b)
			sum := new(big.Int).Add(A, B)
			prod := new(big.Int).Mul(A, B)
			diff := new(big.Int).Sub(A, B)
			over := sum.Cmp(bMaxU64) > 0 || prod.Cmp(bMaxU64) > 0 || diff.Sign() < 0
			vh.Case(over || (a != 0 && b != 0), fmt.Sprintf("unsigned add_over=%v mul_over=%v sub_under=%v", sum.Cmp(bMaxU64) > 0, prod.Cmp(bMaxU64) > 0, diff.Sign() < 0),
				fmt.Sprint(a, b), func() string { return fmt.Sprintf("a=%d b=%d", a, b) })

			if got, err := vmath.AddUint64WithErr(a, b); sum.Cmp(bMaxU64) > 0 {
				if err != vmath.ErrAdditionOverflow {
					t.Fatalf("AddUint64WithErr(%d,%d): overflow not reported (%d, %v)", a, b, got, err)
				}
			} else if err != nil || got != sum.Uint64() {
				t.Fatalf("AddUint64WithErr(%d,%d) = %d, %v; want %s", a, b, got, err, sum)
			}
			if got := vmath.AddUint64(a, b); got != satU(sum) {
				t.Fatalf("AddUint64(%d,%d) = %d; want %d", a, b, got, satU(sum))
			}
			if got := vmath.SubUint64(a, b); got != satU(diff) {
				t.Fatalf("SubUint64(%d,%d) = %d; want %d", a, b, got, satU(diff))
			}
			if got, err := vmath.MulUint64WithErr(a, b); prod.Cmp(bMaxU64) > 0 {
				if err != vmath.ErrMultiplicationOverflow {
					t.Fatalf("MulUint64WithErr(%d,%d): overflow not reported (%d, %v)", a, b, got, err)
				}
			} else if err != nil || got != prod.Uint64() {
				t.Fatalf("MulUint64WithErr(%d,%d) = %d, %v; want %s", a, b, got, err, prod)
			}
			if got := vmath.MulUint64(a, b); got != satU(prod) {
				t.Fatalf("MulUint64(%d,%d) = %d; want %d", a, b, got, satU(prod))
			}
		})
	})
	t.Run("signed", func(t *testing.T) {
		vh.Check(t, func(t *rapid.T) {
			ua, ub := pairU64(t)
			a, b := int64(ua), int64(ub)
			A, B := big.NewInt(a), big.NewInt(b)
			sum, diff := new(big.Int).Add(A, B), new(big.Int).Sub(A, B)
			sOver := !sum.IsInt64()
			dOver := !diff.IsInt64()
			vh.Case(sOver || dOver || (a != 0 && b != 0), fmt.Sprintf("signed64 add_over=%v sub_over=%v", sOver, dOver), fmt.Sprint(a, b), func() string { return fmt.Sprintf("a=%d b=%d", a, b) })
			want := int64(math.MaxInt64)
			if !sOver {
				want = sum.Int64()
			}
			if got := vmath.AddInt64(a, b); got != want {
				t.Fatalf("AddInt64(%d,%d) = %d; want %d", a, b, got, want)
			}
			want = math.MinInt64
			if !dOver {
				want = diff.Int64()
			}
			if got := vmath.SubInt(int(a), int(b)); int64(got) != want {
				t.Fatalf("SubInt(%d,%d) = %d; want %d", a, b, got, want)
			}
			a32, b32 := int32(ua), int32(ub)
			if rapid.Bool().Draw(t, "high") {
				a32, b32 = int32(ua>>32), int32(ub>>32)
			}
			s := int64(a32) + int64(b32)
			over := s > math.MaxInt32 || s < math.MinInt32
			vh.Case(over || (a32 != 0 && b32 != 0), fmt.Sprintf("signed32 add_over=%v", over), fmt.Sprint(a32, b32), func() string { return fmt.Sprintf("a=%d b=%d", a32, b32) })
			got, err := vmath.AddInt32WithError(a32, b32)
			if over {
				if err != vmath.ErrAdditionOverflow {
					t.Fatalf("AddInt32WithError(%d,%d): overflow not reported (%d, %v)", a32, b32, got, err)
				}
				s = math.MaxInt32
			} else if err != nil || int64(got) != s {
				t.Fatalf("AddInt32WithError(%d,%d) = %d, %v; want %d", a32, b32, got, err, s)
			}
			if got := vmath.AddInt32(a32, b32); int64(got) != s {
				t.Fatalf("AddInt32(%d,%d) = %d; want %d", a32, b32, got, s)
			}
		})
	})
}

func satU(v *big.Int) uint64 {
	if v.Sign() < 0 {
		return 0
	}
	if v.Cmp(bMaxU64) > 0 {
		return math.MaxUint64
	}
	return v.Uint64()
}

var _ = bMaxI64
var _ = bMinI64
