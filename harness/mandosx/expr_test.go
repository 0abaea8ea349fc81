//go:build go1.21

// Package mandosx checks the scenario language: value expressions, their
// display, ordered JSON, and the reading and writing of scenarios.
package mandosx

import (
	"bytes"
	"encoding/hex"
	"errors"
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"
	"time"

	ei "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mandos-go/expression/interpreter"
	fr "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mandos-go/fileresolver"
	oj "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mandos-go/orderedjson"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/zzverif/vh"
	"golang.org/x/crypto/sha3"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { vh.Main(m) }

// ---- files, kept in memory

var stubFiles = map[string][]byte{
	"a.wasm":     {0, 'a', 's', 'm', 1, 0, 0, 0},
	"b|c":        []byte("piped"),
	"dir/e.bin":  bytes.Repeat([]byte{0xfe}, 40),
	"empty":      {},
	"str:x":      []byte("odd name"),
	"keccak256:": {7},
	"big.wasm":   bytes.Repeat([]byte("contract"), 100),
	"huge.wasm":  bytes.Repeat([]byte{1, 2, 3, 4, 5}, 13200),
}

func stubNames() []string {
	var n []string
	for k := range stubFiles {
		n = append(n, k)
	}
	sort.Strings(n)
	return n
}

type stubResolver struct{}

func (stubResolver) Clone() fr.FileResolver              { return stubResolver{} }
func (stubResolver) SetContext(string)                   {}
func (stubResolver) ResolveAbsolutePath(v string) string { return "/stub/" + v }
func (stubResolver) ResolveFileValue(v string) ([]byte, error) {
	if b, ok := stubFiles[v]; ok {
		return append([]byte(nil), b...), nil
	}
	return nil, errors.New("no such file")
}

func newInterpreter() *ei.ExprInterpreter { return &ei.ExprInterpreter{FileResolver: stubResolver{}} }

// ---- the definition of the values

func refKeccak(b []byte) []byte {
	h := sha3.NewLegacyKeccak256()
	h.Write(b)
	return h.Sum(nil)
}

// refSigned is the shortest two's complement form (width 0) or the one of the
// given width; nil when it does not fit.
func refSigned(n *big.Int, width int) []byte {
	if n.Sign() == 0 && width == 0 {
		return []byte{}
	}
	fits := func(w int) bool {
		half := new(big.Int).Lsh(big.NewInt(1), uint(8*w-1))
		return n.Cmp(half) < 0 && n.Cmp(new(big.Int).Neg(half)) >= 0
	}
	if width == 0 {
		for width = 1; !fits(width); width++ {
		}
	} else if !fits(width) {
		return nil
	}
	mod := new(big.Int).Lsh(big.NewInt(1), uint(8*width))
	v := new(big.Int).Mod(n, mod)
	out := make([]byte, width)
	return v.FillBytes(out)
}

func refUnsigned(n *big.Int, width int) []byte {
	if width == 0 {
		return n.Bytes()
	}
	if n.BitLen() > 8*width {
		return nil
	}
	return n.FillBytes(make([]byte, width))
}

func refLen(b []byte) []byte {
	n := len(b)
	return append([]byte{byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)}, b...)
}

// ---- expressions with their values

type expr struct {
	text string
	val  []byte
	bad  bool // must be refused
	kind string
}

func genMagnitude(t *rapid.T) *big.Int {
	switch rapid.IntRange(0, 4).Draw(t, "magnitude") {
	case 0:
		return big.NewInt(rapid.Int64Range(0, 20).Draw(t, "n"))
	case 1: // around a power of two
		n := new(big.Int).Lsh(big.NewInt(1), uint(rapid.IntRange(0, 80).Draw(t, "bit")))
		n.Add(n, big.NewInt(rapid.Int64Range(-2, 2).Draw(t, "d")))
		if n.Sign() < 0 {
			n.SetInt64(0)
		}
		return n
	case 2: // around a byte width
		n := new(big.Int).Lsh(big.NewInt(1), uint(8*rapid.IntRange(1, 9).Draw(t, "bytes")-rapid.IntRange(0, 1).Draw(t, "top")))
		return n.Add(n, big.NewInt(rapid.Int64Range(-2, 2).Draw(t, "d")))
	default:
		n := new(big.Int).SetBytes(rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, "bytes"))
		if x := genExtra(t); x > 0 && x < 2000 {
			n.Lsh(n, uint(8*x))
		}
		return n
	}
}

// genExtra is how many bytes to add to a value: mostly none, now and then as
// many as bring its length around the limits of one and of two bytes.
func genExtra(t *rapid.T) int {
	if rapid.IntRange(0, 19).Draw(t, "long") != 19 {
		return 0
	}
	return []int{232, 250, 255, 256, 257, 600, 65530, 65536}[rapid.IntRange(0, 7).Draw(t, "extra")]
}

func separate(t *rapid.T, digits string) string {
	if !rapid.Bool().Draw(t, "separators") {
		return digits
	}
	var sb strings.Builder
	for i, c := range digits {
		// a leading separator is fine, too
		if i > 0 || rapid.IntRange(0, 9).Draw(t, "lead") == 9 {
			switch rapid.IntRange(0, 5).Draw(t, "sep") {
			case 4:
				sb.WriteByte('_')
			case 5:
				sb.WriteByte(',')
			}
		}
		sb.WriteRune(c)
	}
	if rapid.IntRange(0, 9).Draw(t, "trail") == 9 {
		sb.WriteByte('_')
	}
	return sb.String()
}

// genDigits writes a natural number in one of the bases. The bytes are those
// of an unsigned number without a given width (hexadecimal keeps its zeros).
func genDigits(t *rapid.T) (string, *big.Int, []byte) {
	n := genMagnitude(t)
	zeros := strings.Repeat("0", rapid.IntRange(0, 3).Draw(t, "zeros")*rapid.IntRange(0, 1).Draw(t, "padded"))
	switch rapid.IntRange(0, 2).Draw(t, "base") {
	case 0:
		return separate(t, zeros+n.String()), n, n.Bytes()
	case 1:
		h := zeros + n.Text(16)
		if rapid.Bool().Draw(t, "empty0") && n.Sign() == 0 {
			h = ""
		}
		if rapid.Bool().Draw(t, "upper") {
			h = strings.ToUpper(h)
		}
		p := "0x"
		if rapid.IntRange(0, 4).Draw(t, "X") == 4 {
			p = "0X"
		}
		b := make([]byte, (len(h)+1)/2)
		return p + h, n, n.FillBytes(b)
	default:
		p := "0b"
		if rapid.IntRange(0, 4).Draw(t, "B") == 4 {
			p = "0B"
		}
		return p + separate(t, zeros+n.Text(2)), n, n.Bytes()
	}
}

func genPlainText(t *rapid.T, label string, max int) string {
	if rapid.Bool().Draw(t, label+"_kind") {
		return rapid.StringMatching(`[a-zA-Z0-9 _:,.'+\-]{0,`+fmt.Sprint(max)+`}`).Draw(t, label)
	}
	b := rapid.SliceOfN(rapid.Byte(), 0, max).Draw(t, label)
	b = bytes.ReplaceAll(b, []byte{'|'}, []byte{'/'})
	return string(b)
}

// genPart draws an expression without a concatenation in it.
func genPart(t *rapid.T, depth int) expr {
	k := rapid.IntRange(0, 13).Draw(t, "part")
	switch k {
	case 0:
		return expr{text: "", val: []byte{}, kind: "empty"}
	case 1:
		if rapid.Bool().Draw(t, "bool") {
			return expr{text: "true", val: []byte{1}, kind: "bool"}
		}
		return expr{text: "false", val: []byte{}, kind: "bool"}
	case 2, 3:
		d, _, b := genDigits(t)
		return expr{text: d, val: b, kind: "number"}
	case 4:
		d, n, _ := genDigits(t)
		if rapid.Bool().Draw(t, "neg") {
			n = new(big.Int).Neg(n)
			return expr{text: "-" + d, val: refSigned(n, 0), kind: "signed"}
		}
		return expr{text: "+" + d, val: refSigned(n, 0), kind: "signed"}
	case 5:
		d, n, b := genDigits(t)
		w := []int{1, 2, 4, 8}[rapid.IntRange(0, 3).Draw(t, "width")]
		v := refUnsigned(n, w)
		bad := v == nil || len(b) > w // hexadecimal digits count as written
		return expr{text: fmt.Sprintf("u%d:%s", 8*w, d), val: v, bad: bad, kind: "fixed"}
	case 6, 7:
		d, n, b := genDigits(t)
		w := []int{1, 2, 4, 8}[rapid.IntRange(0, 3).Draw(t, "width")]
		switch rapid.IntRange(0, 2).Draw(t, "sign") {
		case 0:
			v := refUnsigned(n, w)
			return expr{text: fmt.Sprintf("i%d:%s", 8*w, d), val: v, bad: v == nil || len(b) > w, kind: "fixed"}
		case 1:
			v := refSigned(n, w)
			return expr{text: fmt.Sprintf("i%d:+%s", 8*w, d), val: v, bad: v == nil, kind: "fixed-signed"}
		default:
			v := refSigned(new(big.Int).Neg(n), w)
			return expr{text: fmt.Sprintf("i%d:-%s", 8*w, d), val: v, bad: v == nil, kind: "fixed-signed"}
		}
	case 8:
		d, _, b := genDigits(t)
		return expr{text: "biguint:" + d, val: refLen(b), kind: "biguint"}
	case 9:
		s := genPlainText(t, "str", 24) + strings.Repeat("x", genExtra(t))
		p := rapid.SampledFrom([]string{"str:", "``", "''"}).Draw(t, "strprefix")
		return expr{text: p + s, val: []byte(s), kind: "string"}
	case 10, 11:
		s := strings.ReplaceAll(genPlainText(t, "addr", 40), "#", "+")
		prefix, lead := "address:", 0
		if k == 11 {
			prefix, lead = "sc:", 8
		}
		v := make([]byte, lead, 64)
		v = append(v, s...)
		for len(v) < 32 {
			v = append(v, '_')
		}
		v = v[:32]
		if rapid.Bool().Draw(t, "shard") {
			b := rapid.Byte().Draw(t, "shardId")
			f := "%02x"
			if rapid.Bool().Draw(t, "shardCase") {
				f = "%02X"
			}
			s += "#" + fmt.Sprintf(f, b)
			v[31] = b
		}
		return expr{text: prefix + s, val: v, kind: "address"}
	case 12:
		if depth <= 0 {
			return expr{text: "0x", val: []byte{}, kind: "number"}
		}
		in := genPart(t, depth-1)
		return expr{text: "nested:" + in.text, val: refLen(in.val), bad: in.bad, kind: "nested"}
	default:
		if depth <= 0 {
			return expr{text: "0b0", val: []byte{}, kind: "number"}
		}
		if rapid.Bool().Draw(t, "filePart") {
			return expr{text: "file:a.wasm", val: stubFiles["a.wasm"], kind: "file"}
		}
		in := genPart(t, depth-1)
		return expr{text: "keccak256:" + in.text, val: refKeccak(in.val), bad: in.bad, kind: "keccak"}
	}
}

var badParts = []string{
	"x", "tru", "True", "0xg", "0x1_0", "0x,", "0b2", "0b", "0b1x", "-", "+", "_", ",", " 5", "5 ", "1.5", "1e3",
	"u8:", "u8:-1", "u8:256", "u16:65536", "u32:0x0100000000", "u64:18446744073709551616", "u8:str:a",
	"i8:", "i16:", "i32:-", "i64:+", "i8:-129", "i8:+128", "i8:256", "i16:-32769", "i16:+0x8000", "i32:0x0100000000",
	"i64:-9223372036854775809", "i64:+9223372036854775808", "i8:+-", "biguint:", "biguint:-1", "biguint:x", "biguint:str:a",
	"address:a#", "address:a#1", "address:a#001", "address:a#zz", "address:a#0x", "address:#aa#bb", "sc:##", "sc:a#g0",
	"nested:-", "nested:x", "keccak256:x", "keccak256:-", "nested:keccak256:0b", "file:nowhere", "nested:file:nowhere",
	"u128:1", "i7:1", "U8:1", "STR:a", "Address:a", "`a", "'a", "\"a", "(1)", "0b-1", "0xx", "--",
}

func genExpr(t *rapid.T, depth int) expr {
	switch rapid.IntRange(0, 9).Draw(t, "form") {
	case 0, 1, 2, 3:
		return genPart(t, depth)
	case 4, 5, 6: // concatenation
		n := rapid.IntRange(2, 5).Draw(t, "parts")
		var texts []string
		r := expr{val: []byte{}, kind: "concat"}
		for i := 0; i < n; i++ {
			p := genPart(t, depth-1)
			if i == 0 && (strings.HasPrefix(p.text, "file:") || strings.HasPrefix(p.text, "keccak256:")) {
				p = expr{text: "", val: []byte{}} // these would take the whole expression
			}
			texts = append(texts, p.text)
			r.val = append(r.val, p.val...)
			r.bad = r.bad || p.bad
		}
		r.text = strings.Join(texts, "|")
		return r
	case 7:
		in := genExpr(t, depth-1)
		return expr{text: "keccak256:" + in.text, val: refKeccak(in.val), bad: in.bad, kind: "keccak"}
	case 8:
		name := rapid.SampledFrom(stubNames()).Draw(t, "file")
		return expr{text: "file:" + name, val: stubFiles[name], kind: "file"}
	default:
		b := rapid.SampledFrom(badParts).Draw(t, "bad")
		if rapid.Bool().Draw(t, "alone") {
			return expr{text: b, bad: true, kind: "malformed"}
		}
		var pre expr
		for {
			pre = genPart(t, depth-1)
			if !strings.HasPrefix(pre.text, "file:") && !strings.HasPrefix(pre.text, "keccak256:") {
				break
			}
		}
		return expr{text: pre.text + "|" + b, bad: true, kind: "malformed"}
	}
}

// ---- a second reading of the definition, for arbitrary text

// refEval gives (value, refused, unsettled). Unsettled marks text on which the
// documentation says nothing (a repeated sign).
func refEval(s string) ([]byte, bool, bool) {
	cut := func(p string) (string, bool) {
		if strings.HasPrefix(s, p) {
			return s[len(p):], true
		}
		return "", false
	}
	if s == "" {
		return nil, false, false
	}
	if r, ok := cut("file:"); ok {
		b, found := stubFiles[r]
		return b, !found, false
	}
	if r, ok := cut("keccak256:"); ok {
		v, bad, u := refEval(r)
		return refKeccak(v), bad, u
	}
	if strings.Contains(s, "|") {
		var all []byte
		var bad, un bool
		for _, p := range strings.Split(s, "|") {
			v, b, u := refEval(p)
			all, bad, un = append(all, v...), bad || b, un || u
		}
		return all, bad, un
	}
	switch s {
	case "true":
		return []byte{1}, false, false
	case "false":
		return nil, false, false
	}
	for _, p := range []string{"str:", "``", "''"} {
		if r, ok := cut(p); ok {
			return []byte(r), false, false
		}
	}
	for p, lead := range map[string]int{"address:": 0, "sc:": 8} {
		if r, ok := cut(p); ok {
			name, shard := r, ""
			i := strings.IndexByte(r, '#')
			if i >= 0 {
				name, shard = r[:i], r[i+1:]
			}
			v := append(make([]byte, lead), name...)
			v = append(v, strings.Repeat("_", 32)...)[:32]
			if i >= 0 {
				b, err := hex.DecodeString(shard)
				if err != nil || len(b) != 1 {
					return nil, true, false
				}
				v[31] = b[0]
			}
			return v, false, false
		}
	}
	for _, w := range []int{1, 2, 4, 8} {
		if r, ok := cut(fmt.Sprintf("u%d:", 8*w)); ok {
			_, b, bad, un := refNatural(r)
			if bad || len(b) > w {
				return nil, true, un
			}
			return append(make([]byte, w-len(b)), b...), false, un
		}
		if r, ok := cut(fmt.Sprintf("i%d:", 8*w)); ok {
			return refMaybeSigned(r, w)
		}
	}
	if r, ok := cut("biguint:"); ok {
		_, b, bad, un := refNatural(r)
		return refLen(b), bad, un
	}
	if r, ok := cut("nested:"); ok {
		v, bad, un := refEval(r)
		return refLen(v), bad, un
	}
	return refMaybeSigned(s, 0)
}

func refMaybeSigned(s string, width int) ([]byte, bool, bool) {
	if s != "" && (s[0] == '-' || s[0] == '+') {
		n, _, bad, un := refNatural(s[1:])
		if bad {
			return nil, true, un
		}
		if s[0] == '-' {
			n = new(big.Int).Neg(n)
		}
		v := refSigned(n, width)
		return v, v == nil, un
	}
	_, b, bad, un := refNatural(s)
	if bad || (width > 0 && len(b) > width) {
		return nil, true, un
	}
	if width > 0 {
		b = append(make([]byte, width-len(b)), b...)
	}
	return b, false, un
}

func refNatural(s string) (n *big.Int, b []byte, bad, unsettled bool) {
	const hexDigits = "0123456789abcdef"
	lower := strings.ToLower(s)
	n = new(big.Int)
	if strings.HasPrefix(lower, "0x") {
		for _, c := range []byte(lower[2:]) {
			d := strings.IndexByte(hexDigits, c)
			if d < 0 {
				return nil, nil, true, false
			}
			n.Mul(n, big.NewInt(16)).Add(n, big.NewInt(int64(d)))
		}
		return n, n.FillBytes(make([]byte, (len(lower)-1)/2)), false, false
	}
	base, digits := int64(10), s
	if strings.HasPrefix(lower, "0b") {
		base, digits = 2, s[2:]
	}
	bare := strings.NewReplacer("_", "", ",", "").Replace(digits)
	if strings.HasPrefix(bare, "+") || strings.HasPrefix(bare, "-") {
		unsettled = true
	}
	count := 0
	for _, c := range []byte(digits) {
		if c == '_' || c == ',' {
			continue
		}
		d := int64(c) - '0'
		if d < 0 || d >= base {
			return nil, nil, true, unsettled
		}
		count++
		n.Mul(n, big.NewInt(base)).Add(n, big.NewInt(d))
	}
	return n, n.Bytes(), count == 0, unsettled
}

// ---- checks

func interpret(t *rapid.T, text string) (v []byte, err error) {
	defer func() {
		if r := recover(); r != nil {
			t.Fatalf("interpreting %q panicked: %v", text, r)
		}
	}()
	if !vh.Within(20*time.Second, func() {
		defer func() {
			if r := recover(); r != nil {
				err = fmt.Errorf("PANIC %v", r)
			}
		}()
		v, err = newInterpreter().InterpretString(text)
	}) {
		t.Fatalf("interpreting %q does not end", text)
	}
	if err != nil && strings.HasPrefix(err.Error(), "PANIC") {
		t.Fatalf("interpreting %q: %v", text, err)
	}
	return v, err
}

func checkExpr(t *rapid.T, e expr) {
	v, err := interpret(t, e.text)
	if e.bad {
		if err == nil {
			t.Fatalf("%q is malformed but was read as %x", e.text, v)
		}
		return
	}
	if err != nil {
		t.Fatalf("%q denotes %x but was refused: %v", e.text, e.val, err)
	}
	if !bytes.Equal(v, e.val) {
		t.Fatalf("%q denotes %x but was read as %x", e.text, e.val, v)
	}
}

func TestValueExpressions(t *testing.T) {
	vh.Rule("C17", "expressions generated from the grammar together with the bytes they denote, trees of them, and arbitrary or mutated text read by a second evaluator; non-trivial when the value is not empty or the text must be refused")
	t.Run("grammar", func(t *testing.T) {
		vh.Check(t, func(t *rapid.T) {
			e := genExpr(t, 3)
			vh.Case(e.bad || len(e.val) > 0, "grammar "+e.kind+map[bool]string{true: " refused"}[e.bad], e.text,
				func() string { return fmt.Sprintf("%q = %x", e.text, e.val) })
			checkExpr(t, e)
			v, bad, un := refEval(e.text)
			if !un && (bad != e.bad || (!bad && !bytes.Equal(v, e.val))) {
				t.Fatalf("INFRA: the two definitions disagree on %q: %x %v, %x %v", e.text, e.val, e.bad, v, bad)
			}
		})
	})
	t.Run("tree", func(t *testing.T) {
		vh.Check(t, func(t *rapid.T) {
			tree, val, bad := genValueTree(t, 3)
			var got []byte
			var err error
			func() {
				defer func() {
					if r := recover(); r != nil {
						t.Fatalf("interpreting %s panicked: %v", oj.JSONString(tree), r)
					}
				}()
				got, err = newInterpreter().InterpretSubTree(tree)
			}()
			vh.Case(bad || len(val) > 0, fmt.Sprintf("tree %T refused=%v", tree, bad), oj.JSONString(tree),
				func() string { return fmt.Sprintf("%s = %x", oj.JSONString(tree), val) })
			if bad != (err != nil) || (!bad && !bytes.Equal(got, val)) {
				t.Fatalf("%s denotes %x (refused %v) but was read as %x, %v", oj.JSONString(tree), val, bad, got, err)
			}
		})
	})
	t.Run("text", func(t *testing.T) {
		tokens := []string{"str:", "``", "''", "address:", "sc:", "file:", "keccak256:", "u8:", "u16:", "u32:", "u64:", "i8:", "i16:",
			"i32:", "i64:", "biguint:", "nested:", "|", "|", "true", "false", "0x", "0b", "0X", "0B", "-", "+", "_", ",", "#", "a.wasm",
			"0", "1", "255", "128", "256", "ff", "80", "7f", "65536", "10", "4294967296", " ", "\x00", "é", "x"}
		vh.Check(t, func(t *rapid.T) {
			var text string
			switch rapid.IntRange(0, 3).Draw(t, "source") {
			case 0:
				text = string(rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, "bytes"))
			case 1, 2:
				for i, n := 0, rapid.IntRange(1, 7).Draw(t, "n"); i < n; i++ {
					text += rapid.SampledFrom(tokens).Draw(t, "token")
				}
			default:
				b := []byte(genExpr(t, 2).text)
				if len(b) > 0 {
					i := rapid.IntRange(0, len(b)-1).Draw(t, "at")
					switch rapid.IntRange(0, 2).Draw(t, "mutation") {
					case 0:
						b = append(b[:i], b[i+1:]...)
					case 1:
						b[i] = rapid.Byte().Draw(t, "byte")
					default:
						ins := rapid.SampledFrom(tokens).Draw(t, "ins")
						b = []byte(string(b[:i]) + ins + string(b[i:]))
					}
				}
				text = string(b)
			}
			want, bad, unsettled := refEval(text)
			got, err := interpret(t, text)
			class := "text read"
			if bad {
				class = "text refused"
			}
			if unsettled {
				class = "text unsettled"
			}
			vh.Case(bad || len(want) > 0, class, text, func() string { return fmt.Sprintf("%q = %x refused=%v", text, want, bad) })
			if unsettled {
				return
			}
			if bad != (err != nil) || (!bad && !bytes.Equal(got, want)) {
				t.Fatalf("%q denotes %x (refused %v) but was read as %x, %v", text, want, bad, got, err)
			}
		})
	})
	t.Run("files", func(t *testing.T) {
		dir := t.TempDir()
		for _, d := range []string{"scen", "scen/sub", "other"} {
			if err := os.MkdirAll(filepath.Join(dir, d), 0o755); err != nil {
				t.Fatal("INFRA: ", err)
			}
		}
		places := []string{"scen/x.wasm", "scen/sub/x.wasm", "other/x.wasm", "scen/y"}
		for _, p := range places {
			if err := os.WriteFile(filepath.Join(dir, p), []byte("content of "+p), 0o644); err != nil {
				t.Fatal("INFRA: ", err)
			}
		}
		vh.Check(t, func(t *rapid.T) {
			// paths are relative to the directory of the scenario file, except replaced ones
			context := rapid.SampledFrom([]string{"scen", "scen/sub", "other"}).Draw(t, "context")
			target := rapid.SampledFrom(append([]string{"other/none"}, places...)).Draw(t, "target")
			rel, err := filepath.Rel(context, target)
			if err != nil {
				t.Fatal("INFRA: ", err)
			}
			r := fr.NewDefaultFileResolver()
			want := target
			if rapid.Bool().Draw(t, "replace") {
				from := rapid.SampledFrom([]string{rel, "x.wasm", "../x.wasm"}).Draw(t, "replaced")
				to := rapid.SampledFrom(places).Draw(t, "replacement")
				r.ReplacePath(from, filepath.Join(dir, to))
				if from == rel {
					want = to
				}
			}
			var res fr.FileResolver = r
			if rapid.Bool().Draw(t, "clone") {
				r.SetContext(filepath.Join(dir, "nowhere/at.scen.json"))
				res = r.Clone()
			}
			res.SetContext(filepath.Join(dir, context, "test.scen.json"))
			i := &ei.ExprInterpreter{FileResolver: res}
			v, err := i.InterpretString("file:" + rel)
			vh.Case(want != target || rel != filepath.Base(rel), "file", fmt.Sprint(context, rel, want), func() string { return context + " + " + rel + " -> " + want })
			if want == "other/none" {
				if err == nil {
					t.Fatalf("a missing file was read as %q", v)
				}
				return
			}
			if err != nil || string(v) != "content of "+want {
				t.Fatalf("file:%s in %s should be %s: %q %v", rel, context, want, v, err)
			}
		})
	})
}

func genValueTree(t *rapid.T, depth int) (oj.OJsonObject, []byte, bool) {
	k := rapid.IntRange(0, 9).Draw(t, "node")
	if depth <= 0 {
		k = 0
	}
	switch {
	case k < 4:
		e := genExpr(t, 1)
		return &oj.OJsonString{Value: e.text}, e.val, e.bad
	case k < 6:
		n := rapid.IntRange(0, 4).Draw(t, "items")
		l := oj.OJsonList{}
		var all []byte
		bad := false
		for i := 0; i < n; i++ {
			o, v, b := genValueTree(t, depth-1)
			l, all, bad = append(l, o), append(all, v...), bad || b
		}
		return &l, all, bad
	case k < 9:
		n := rapid.IntRange(0, 4).Draw(t, "fields")
		m := oj.NewMap()
		vals := map[string][]byte{}
		var keys []string
		bad := false
		for i := 0; i < n; i++ {
			key := rapid.StringMatching(`[0-9a-cA-C_]{0,3}`).Draw(t, "key")
			o, v, b := genValueTree(t, depth-1)
			if _, dup := vals[key]; dup {
				continue
			}
			m.Put(key, o)
			vals[key], keys, bad = v, append(keys, key), bad || b
		}
		sort.Strings(keys)
		var all []byte
		for _, key := range keys {
			all = append(all, vals[key]...)
		}
		return m, all, bad
	default:
		b := oj.OJsonBool(rapid.Bool().Draw(t, "b"))
		return &b, nil, true
	}
}
