//go:build go1.21

package mandosx

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math/big"
	"strconv"
	"strings"
	"testing"

	er "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mandos-go/expression/reconstructor"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/zzverif/vh"
	"pgregory.net/rapid"
)

func genShown(t *rapid.T) []byte {
	switch rapid.IntRange(0, 7).Draw(t, "value") {
	case 0:
		return rapid.SliceOfN(rapid.Byte(), 0, 50).Draw(t, "bytes")
	case 1:
		return []byte(rapid.StringMatching(`[ -~]{0,40}`).Draw(t, "ascii"))
	case 2: // looks like an expression
		return []byte(genExpr(t, 1).text)
	case 3: // around the length up to which numbers are shown
		return rapid.SliceOfN(rapid.Byte(), 13, 17).Draw(t, "bytes")
	case 4: // around the length up to which code is shown
		return rapid.SliceOfN(rapid.Byte(), 8, 12).Draw(t, "bytes")
	default: // addresses
		v := make([]byte, 0, 40)
		if rapid.Bool().Draw(t, "contract") {
			v = append(v, make([]byte, rapid.SampledFrom([]int{8, 8, 8, 7, 9, 10}).Draw(t, "zeros"))...)
		}
		if rapid.Bool().Draw(t, "named") {
			v = append(v, rapid.StringMatching(`[a-z_#|]{0,32}`).Draw(t, "name")...)
		} else {
			v = append(v, rapid.SliceOfN(rapid.Byte(), 0, 32).Draw(t, "name")...)
		}
		for len(v) < 32 {
			v = append(v, '_')
		}
		v = v[:32]
		if rapid.Bool().Draw(t, "shard") {
			v[31] = rapid.Byte().Draw(t, "shardId")
		}
		switch rapid.IntRange(0, 9).Draw(t, "cut") {
		case 9:
			v = v[:31]
		case 8:
			v = append(v, '_')
		}
		return v
	}
}

// quoted checks the comment after the hexadecimal form.
func checkComment(t *rapid.T, v []byte, comment string) {
	inner, ok := strings.CutPrefix(comment, "(")
	inner, ok2 := strings.CutSuffix(inner, ")")
	if !ok || !ok2 {
		t.Fatalf("%x is shown with comment %q", v, comment)
	}
	if s, ok := strings.CutPrefix(inner, "str:"); ok {
		if s == string(v) {
			return
		}
		if u, err := strconv.Unquote(s); err == nil && u == string(v) {
			return
		}
		t.Fatalf("%x is shown as the string %q", v, s)
	}
	if n, ok := new(big.Int).SetString(inner, 10); !ok || n.Cmp(new(big.Int).SetBytes(v)) != 0 {
		t.Fatalf("%x is shown as the number %s", v, inner)
	}
}

func TestDisplay(t *testing.T) {
	vh.Rule("C18", "byte strings (random, printable, expression-like, address-like, around the length limits) shown under every hint and read back; non-trivial when the value is not empty")
	hints := map[er.ExprReconstructorHint]string{er.NoHint: "none", er.NumberHint: "number", er.AddressHint: "address", er.StrHint: "string", er.CodeHint: "code", 77: "unknown"}
	rec := &er.ExprReconstructor{}
	vh.Check(t, func(t *rapid.T) {
		v := genShown(t)
		orig := append([]byte(nil), v...)
		h := rapid.SampledFrom([]er.ExprReconstructorHint{er.NoHint, er.NumberHint, er.AddressHint, er.AddressHint, er.StrHint, er.CodeHint, 77}).Draw(t, "hint")
		show := func() (s string) {
			defer func() {
				if r := recover(); r != nil {
					t.Fatalf("showing %x as %s panicked: %v", v, hints[h], r)
				}
			}()
			return rec.Reconstruct(v, h)
		}
		s := show()
		class := hints[h]
		if h == er.AddressHint {
			class += fmt.Sprintf(" 32=%v", len(v) == 32)
			if i := strings.IndexAny(s, ":x"); i >= 0 && len(v) == 32 {
				class += " " + s[:i+1] + fmt.Sprint(strings.Contains(s, "#"))
			}
		}
		vh.Case(len(v) > 0, class, string(v), func() string { return fmt.Sprintf("%x shown as %q", v, s) })
		if !bytes.Equal(v, orig) {
			t.Fatalf("showing %x as %s changed it to %x", orig, hints[h], v)
		}
		if again := show(); again != s {
			t.Fatalf("%x is shown as %q, then as %q", v, s, again)
		}
		back := func(text string) []byte {
			b, err := interpret(t, text)
			if err != nil {
				t.Fatalf("%x is shown as %q, which cannot be read back: %v", v, text, err)
			}
			return b
		}
		same := func(text string, want []byte) {
			if b := back(text); !bytes.Equal(b, want) {
				t.Fatalf("%x shown as %s is %q, which reads back as %x", v, hints[h], text, b)
			}
		}
		switch {
		case h == er.NumberHint:
			same(s, bytes.TrimLeft(v, "\x00"))
			if n, ok := new(big.Int).SetString(s, 10); !ok || n.Cmp(new(big.Int).SetBytes(v)) != 0 {
				t.Fatalf("%x is shown as the number %q", v, s)
			}
		case h == er.StrHint:
			same(s, v)
		case h == er.AddressHint && len(v) == 32:
			same(s, v)
		case h == er.CodeHint && len(v) <= 10:
			same(s, v)
		case h == er.CodeHint:
			// abbreviated
			if s != "0x"+hex.EncodeToString(v[:10])+"..." {
				t.Fatalf("code %x is shown as %q", v, s)
			}
			if b, err := newInterpreter().InterpretString(s); err == nil {
				t.Fatalf("code %x is abbreviated to %q, which reads as %x", v, s, b)
			}
		case len(v) == 0:
			same(s, v)
		default:
			form, comment, found := strings.Cut(s, " ")
			if !found {
				same(s, v)
				return
			}
			same(form, v)
			checkComment(t, v, comment)
		}
	})
	t.Run("numbers", func(t *testing.T) {
		vh.Check(t, func(t *rapid.T) {
			n := rapid.Uint64().Draw(t, "n")
			b := genMagnitude(t)
			want := b.Bytes()
			if rapid.Bool().Draw(t, "negative") {
				b = new(big.Int).Neg(b)
				want = refSigned(b, 0)
			}
			vh.Case(n > 0 && b.Sign() != 0, "numbers", fmt.Sprint(n, b), func() string { return fmt.Sprint(n, " ", b) })
			if v, err := interpret(t, rec.ReconstructFromUint64(n)); err != nil || new(big.Int).SetBytes(v).Cmp(new(big.Int).SetUint64(n)) != 0 {
				t.Fatalf("%d is shown as %q, read back as %x %v", n, rec.ReconstructFromUint64(n), v, err)
			}
			if v, err := interpret(t, rec.ReconstructFromBigInt(b)); err != nil || !bytes.Equal(v, want) {
				t.Fatalf("%d is shown as %q, read back as %x %v", b, rec.ReconstructFromBigInt(b), v, err)
			}
		})
	})
}
