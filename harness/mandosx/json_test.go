//go:build go1.21

package mandosx

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"
	"testing"
	"time"

	mjparse "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mandos-go/json/parse"
	oj "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mandos-go/orderedjson"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/zzverif/vh"
	"pgregory.net/rapid"
)

// ---- the format: objects, lists, strings and booleans

type jfield struct {
	key string
	val interface{}
}
type jobj []jfield
type jlist []interface{}

// refParse reads the format by recursive descent. String contents are kept as
// they are written; the first of two equal keys counts.
func refParse(in []byte) (interface{}, error) {
	p := &refParser{in: in}
	p.space()
	v, err := p.value()
	if err != nil {
		return nil, err
	}
	p.space()
	if p.i != len(p.in) {
		return nil, errors.New("more text")
	}
	return v, nil
}

type refParser struct {
	in []byte
	i  int
}

func (p *refParser) space() {
	for p.i < len(p.in) && strings.IndexByte(" \t\r\n", p.in[p.i]) >= 0 {
		p.i++
	}
}

func (p *refParser) next(c byte) bool {
	if p.i < len(p.in) && p.in[p.i] == c {
		p.i++
		return true
	}
	return false
}

func (p *refParser) str() (string, error) {
	if !p.next('"') {
		return "", errors.New("no string")
	}
	start := p.i
	for p.i < len(p.in) {
		switch p.in[p.i] {
		case '\\':
			p.i++
		case '"':
			s := string(p.in[start:p.i])
			p.i++
			return s, nil
		}
		p.i++
	}
	return "", errors.New("string without an end")
}

func (p *refParser) value() (interface{}, error) {
	if p.i >= len(p.in) {
		return nil, errors.New("no value")
	}
	switch p.in[p.i] {
	case '"':
		return p.str()
	case '[':
		p.i++
		l := jlist{}
		p.space()
		if p.next(']') {
			return l, nil
		}
		for {
			p.space()
			v, err := p.value()
			if err != nil {
				return nil, err
			}
			l = append(l, v)
			p.space()
			if p.next(']') {
				return l, nil
			}
			if !p.next(',') {
				return nil, errors.New("no comma")
			}
		}
	case '{':
		p.i++
		m := jobj{}
		p.space()
		if p.next('}') {
			return m, nil
		}
		for {
			p.space()
			k, err := p.str()
			if err != nil {
				return nil, err
			}
			p.space()
			if !p.next(':') {
				return nil, errors.New("no colon")
			}
			p.space()
			v, err := p.value()
			if err != nil {
				return nil, err
			}
			dup := false
			for _, f := range m {
				dup = dup || f.key == k
			}
			if !dup {
				m = append(m, jfield{k, v})
			}
			p.space()
			if p.next('}') {
				return m, nil
			}
			if !p.next(',') {
				return nil, errors.New("no comma")
			}
		}
	}
	for _, w := range []string{"true", "false"} {
		if bytes.HasPrefix(p.in[p.i:], []byte(w)) {
			p.i += len(w)
			return w == "true", nil
		}
	}
	return nil, errors.New("not a value")
}

func fromOJ(o oj.OJsonObject) interface{} {
	switch x := o.(type) {
	case *oj.OJsonString:
		return x.Value
	case *oj.OJsonBool:
		return bool(*x)
	case *oj.OJsonList:
		l := jlist{}
		for _, i := range x.AsList() {
			l = append(l, fromOJ(i))
		}
		return l
	case *oj.OJsonMap:
		m := jobj{}
		for _, kv := range x.OrderedKV {
			m = append(m, jfield{kv.Key, fromOJ(kv.Value)})
		}
		return m
	}
	return fmt.Sprintf("?%T", o)
}

func toOJ(v interface{}) oj.OJsonObject {
	switch x := v.(type) {
	case string:
		return &oj.OJsonString{Value: x}
	case bool:
		b := oj.OJsonBool(x)
		return &b
	case jlist:
		l := oj.OJsonList{}
		for _, i := range x {
			l = append(l, toOJ(i))
		}
		return &l
	case jobj:
		m := oj.NewMap()
		for _, f := range x {
			m.Put(f.key, toOJ(f.val))
		}
		return m
	}
	panic(fmt.Sprintf("INFRA: %T", v))
}

func show(v interface{}) string { return fmt.Sprintf("%#v", v) }

// text writes a tree with arbitrary white space.
func text(t *rapid.T, v interface{}) string {
	spaces := []string{"", "", "", " ", "\n", "\t", "\r\n", "  \n "}
	seed := rapid.Uint64().Draw(t, "layout")
	var sb strings.Builder
	sp := func() {
		seed = seed*6364136223846793005 + 1442695040888963407
		sb.WriteString(spaces[seed>>61])
	}
	var w func(v interface{})
	w = func(v interface{}) {
		switch x := v.(type) {
		case string:
			sb.WriteString("\"" + x + "\"")
		case bool:
			fmt.Fprint(&sb, x)
		case jlist:
			sb.WriteByte('[')
			sp()
			for i, e := range x {
				if i > 0 {
					sb.WriteByte(',')
					sp()
				}
				w(e)
				sp()
			}
			sb.WriteByte(']')
		case jobj:
			sb.WriteByte('{')
			sp()
			for i, f := range x {
				if i > 0 {
					sb.WriteByte(',')
					sp()
				}
				sb.WriteString("\"" + f.key + "\"")
				sp()
				sb.WriteByte(':')
				sp()
				w(f.val)
				sp()
			}
			sb.WriteByte('}')
		default:
			panic(fmt.Sprintf("INFRA: %T", v))
		}
	}
	sp()
	w(v)
	sp()
	return sb.String()
}

func genRaw(t *rapid.T, label string) string {
	var sb strings.Builder
	for i, n := 0, rapid.IntRange(0, 6).Draw(t, label+"_len"); i < n; i++ {
		switch rapid.IntRange(0, 9).Draw(t, label+"_piece") {
		case 0:
			sb.WriteString(rapid.SampledFrom([]string{`\"`, `\\`, `\n`, `\u00e9`, `\/`, `\\\"`, `\\\\`}).Draw(t, label+"_esc"))
		case 1:
			sb.WriteString(rapid.SampledFrom([]string{"{", "}", "[", "]", ",", ":", " ", "//", "true", "'", "\n", "é"}).Draw(t, label+"_struct"))
		case 2:
			b := rapid.Byte().Draw(t, label+"_byte")
			if b != '"' && b != '\\' {
				sb.WriteByte(b)
			}
		default:
			sb.WriteString(rapid.StringMatching(`[a-z0-9]{1,3}`).Draw(t, label+"_word"))
		}
	}
	return sb.String()
}

func genJSON(t *rapid.T, depth int) interface{} {
	k := rapid.IntRange(0, 9).Draw(t, "json")
	if depth <= 0 && k >= 4 {
		k = 0
	}
	switch {
	case k < 3:
		return genRaw(t, "s")
	case k == 3:
		return rapid.Bool().Draw(t, "b")
	case k < 7:
		l := jlist{}
		for i, n := 0, rapid.IntRange(0, 4).Draw(t, "items"); i < n; i++ {
			l = append(l, genJSON(t, depth-1))
		}
		return l
	default:
		m := jobj{}
		used := map[string]bool{}
		for i, n := 0, rapid.IntRange(0, 4).Draw(t, "fields"); i < n; i++ {
			key := genRaw(t, "k")
			if used[key] {
				continue
			}
			used[key] = true
			m = append(m, jfield{key, genJSON(t, depth-1)})
		}
		return m
	}
}

func parseOJ(t *rapid.T, in string) (o oj.OJsonObject, err error) {
	var panicked interface{}
	if !vh.Within(30*time.Second, func() {
		defer func() { panicked = recover() }()
		o, err = oj.ParseOrderedJSON([]byte(in))
	}) {
		t.Fatalf("parsing %q does not end", in)
	}
	if panicked != nil {
		t.Fatalf("parsing %q panicked: %v", in, panicked)
	}
	if (o == nil) == (err == nil) {
		t.Fatalf("parsing %q gives neither a result nor an error, or both: %v %v", in, o, err)
	}
	return o, err
}

func mutate(t *rapid.T, s string, tokens []string) string {
	b := s
	for i, n := 0, rapid.IntRange(1, 3).Draw(t, "mutations"); i < n; i++ {
		at := 0
		if len(b) > 0 {
			at = rapid.IntRange(0, len(b)).Draw(t, "at")
		}
		switch rapid.IntRange(0, 4).Draw(t, "mutation") {
		case 0: // drop
			if at < len(b) {
				b = b[:at] + b[at+1:]
			}
		case 1:
			b = b[:at] + rapid.SampledFrom(tokens).Draw(t, "token") + b[at:]
		case 2: // replace
			if at < len(b) {
				b = b[:at] + rapid.SampledFrom(tokens).Draw(t, "token") + b[at+1:]
			}
		case 3: // cut
			b = b[:at]
		default: // repeat a stretch
			end := at + rapid.IntRange(0, 8).Draw(t, "stretch")
			if end > len(b) {
				end = len(b)
			}
			b = b[:end] + b[at:]
		}
	}
	return b
}

var jsonTokens = []string{"{", "}", "[", "]", ",", ":", "\"", "\"a\"", "\"b\"", "true", "false", "null", "0", "\\", "\\\"", " ", "\n", "t", "\"\"", "\x00", "\xff"}

// plain tells whether the standard decoder sees only objects, lists, strings
// and booleans.
func plainStandard(s string) bool {
	if !json.Valid([]byte(s)) {
		return false
	}
	d := json.NewDecoder(strings.NewReader(s))
	for {
		tok, err := d.Token()
		if err == io.EOF {
			return true
		}
		if err != nil {
			return false
		}
		switch tok.(type) {
		case json.Delim, string, bool:
		default:
			return false
		}
	}
}

func TestJSON(t *testing.T) {
	vh.Rule("C20", "trees printed with arbitrary layout, mutated and arbitrary text given to the ordered-JSON parser and to a recursive-descent reference, and to the scenario and test parsers; non-trivial when the text has at least two bytes")
	t.Run("trees", func(t *testing.T) {
		vh.Check(t, func(t *rapid.T) {
			tree := genJSON(t, 4)
			in := text(t, tree)
			vh.Case(len(in) > 1, fmt.Sprintf("tree %T", tree), in, func() string { return fmt.Sprintf("%q", in) })
			o, err := parseOJ(t, in)
			if err != nil {
				t.Fatalf("%q was refused: %v", in, err)
			}
			if got, want := show(fromOJ(o)), show(tree); got != want {
				t.Fatalf("%q was read as\n%s\ninstead of\n%s", in, got, want)
			}
			printed := oj.JSONString(o)
			o2, err := parseOJ(t, printed)
			if err != nil {
				t.Fatalf("%q is printed as %q, which is refused: %v", in, printed, err)
			}
			if got, want := show(fromOJ(o2)), show(tree); got != want {
				t.Fatalf("%q is printed as %q, which is read as\n%s", in, printed, got)
			}
			if again := oj.JSONString(o2); again != printed {
				t.Fatalf("%q is printed as %q, then as %q", in, printed, again)
			}
			if built := oj.JSONString(toOJ(tree)); built != printed {
				t.Fatalf("the tree of %q is printed as %q when parsed, as %q when built", in, printed, built)
			}
		})
	})
	t.Run("texts", func(t *testing.T) {
		vh.Check(t, func(t *rapid.T) {
			var in string
			switch rapid.IntRange(0, 3).Draw(t, "source") {
			case 0:
				in = string(rapid.SliceOfN(rapid.Byte(), 0, 30).Draw(t, "bytes"))
			case 1:
				for i, n := 0, rapid.IntRange(0, 12).Draw(t, "n"); i < n; i++ {
					in += rapid.SampledFrom(jsonTokens).Draw(t, "token")
				}
			default:
				in = mutate(t, text(t, genJSON(t, 3)), jsonTokens)
			}
			want, refErr := refParse([]byte(in))
			o, err := parseOJ(t, in)
			vh.Case(len(in) > 1, fmt.Sprintf("text accepted=%v", refErr == nil), in, func() string { return fmt.Sprintf("%q", in) })
			if (err == nil) != (refErr == nil) {
				t.Fatalf("%q: parser says %v, the format says %v", in, err, refErr)
			}
			if err == nil && show(fromOJ(o)) != show(want) {
				t.Fatalf("%q was read as\n%s\ninstead of\n%s", in, show(fromOJ(o)), show(want))
			}
			if err != nil && plainStandard(in) {
				t.Fatalf("%q is JSON of objects, lists, strings and booleans but was refused: %v", in, err)
			}
		})
	})
	t.Run("scenarios", func(t *testing.T) {
		seeds := seedScenarios()
		p := mjparse.NewParser(stubResolver{})
		words := append([]string{`"step"`, `"scCall"`, `"tx"`, `"expect"`, `"accounts"`, `"esdt"`, `"storage"`, `"*"`, `"+"`, `"steps"`, `"nonce"`, `"instances"`,
			`"logs"`, `"blockHeader"`, `"postState"`, `"0x"`, `"str:"`, `"address:a"`, `{}`, `[]`, `[{}]`, `""`, `{"":""}`, `"i8:"`, `"|"`, `"biguint:"`}, jsonTokens...)
		vh.Check(t, func(t *rapid.T) {
			var in string
			class := ""
			switch rapid.IntRange(0, 5).Draw(t, "source") {
			case 0:
				class = "mutated scenario text"
				g := &scenGen{t: t, poison: -1}
				j, _ := g.scenario(2)
				in = mutate(t, text(t, j), words)
			case 1:
				class = "mutated test text"
				g := &scenGen{t: t, poison: -1}
				j, _ := g.tests()
				in = mutate(t, text(t, j), words)
			case 2:
				class = "scenario with replaced parts"
				g := &scenGen{t: t, poison: -1}
				j, _ := g.scenario(2)
				in = text(t, scramble(t, j))
			case 3:
				class = "test with replaced parts"
				g := &scenGen{t: t, poison: -1}
				j, _ := g.tests()
				in = text(t, scramble(t, j))
			case 4:
				class = "mutated example"
				in = mutate(t, rapid.SampledFrom(seeds).Draw(t, "seed"), words)
			default:
				class = "words"
				for i, n := 0, rapid.IntRange(0, 14).Draw(t, "n"); i < n; i++ {
					in += rapid.SampledFrom(words).Draw(t, "token")
				}
			}
			check := func(what string, f func() (bool, error)) {
				var panicked interface{}
				var err error
				var got bool
				if !vh.Within(60*time.Second, func() {
					defer func() { panicked = recover() }()
					got, err = f()
				}) {
					t.Fatalf("parsing as %s does not end: %q", what, in)
				}
				if panicked != nil {
					t.Fatalf("parsing as %s panicked: %v\n%s", what, panicked, in)
				}
				if got == (err != nil) {
					t.Fatalf("parsing as %s gives neither a result nor an error, or both (%v)\n%s", what, err, in)
				}
				if err == nil {
					class += ", a " + what
				}
			}
			check("scenario", func() (bool, error) { s, err := p.ParseScenarioFile([]byte(in)); return s != nil, err })
			check("step", func() (bool, error) {
				s, err := p.ParseScenarioStep(in)
				if err == nil {
					_ = s.StepTypeName()
				}
				return s != nil, err
			})
			check("test", func() (bool, error) {
				_, err := p.ParseTestFile([]byte(in))
				return err == nil, err
			})
			// every step of a scenario is also a step of its own
			if v, err := refParse([]byte(in)); err == nil {
				if m, ok := v.(jobj); ok {
					for _, f := range m {
						l, ok := f.val.(jlist)
						if f.key != "steps" || !ok {
							continue
						}
						_, whole := p.ParseScenarioFile([]byte(in))
						var first error
						for _, s := range l {
							func() {
								defer func() {
									if r := recover(); r != nil {
										t.Fatalf("parsing a step panicked: %v\n%s", r, in)
									}
								}()
								if _, err := p.ParseScenarioStep(oj.JSONString(toOJ(s))); err != nil && first == nil {
									first = err
								}
							}()
						}
						if first != nil && whole == nil {
							t.Fatalf("a step is refused alone (%v) but accepted in its scenario\n%s", first, in)
						}
					}
				}
			}
			vh.Case(len(in) > 1, class, in, func() string { return fmt.Sprintf("%q", in) })
		})
	})
}

// seedScenarios are the example files of the repository (none is fine).
func seedScenarios() []string {
	root := os.Getenv("VH_REPO")
	if root == "" {
		root = "/repo"
	}
	s := []string{`{"steps":[{"step":"scCall","tx":{"from":"address:a","to":"sc:b","function":"f","arguments":["1"]},"expect":{"out":["*"],"status":"4"}}]}`}
	for _, pat := range []string{"mandos-go/json/integrationTests/*.json", "test/*/mandos/*.json"} {
		m, _ := filepath.Glob(filepath.Join(root, pat))
		for i, f := range m {
			if b, err := os.ReadFile(f); err == nil && len(b) < 20000 && i < 20 {
				s = append(s, string(b))
			}
		}
	}
	return s
}

// scramble replaces some parts of a tree by others.
func scramble(t *rapid.T, v interface{}) interface{} {
	var nodes int
	var count func(v interface{})
	count = func(v interface{}) {
		nodes++
		switch x := v.(type) {
		case jlist:
			for _, e := range x {
				count(e)
			}
		case jobj:
			for _, f := range x {
				count(f.val)
			}
		}
	}
	count(v)
	at := rapid.IntRange(0, nodes-1).Draw(t, "node")
	var by interface{}
	switch rapid.IntRange(0, 4).Draw(t, "by") {
	case 0:
		by = genJSON(t, 2)
	case 1:
		by = rapid.SampledFrom([]interface{}{jobj{}, jlist{}, "", "*", true, jlist{jobj{}}, jobj{{"", ""}}, jobj{{"+", ""}}}).Draw(t, "simple")
	case 2:
		by = rapid.SampledFrom(badParts).Draw(t, "bad")
	case 3:
		by = nil // dropped
	default:
		by = genExpr(t, 1).text
	}
	i := -1
	var rec func(v interface{}) interface{}
	rec = func(v interface{}) interface{} {
		i++
		if i == at {
			if by == nil {
				return nil
			}
			if s, ok := by.(string); ok && strings.ContainsAny(s, "\"\\") {
				return ""
			}
			return by
		}
		switch x := v.(type) {
		case jlist:
			l := jlist{}
			for _, e := range x {
				if n := rec(e); n != nil {
					l = append(l, n)
				}
			}
			return l
		case jobj:
			m := jobj{}
			for _, f := range x {
				if n := rec(f.val); n != nil {
					m = append(m, jfield{f.key, n})
				}
			}
			return m
		}
		return v
	}
	r := rec(v)
	if r == nil {
		return jobj{}
	}
	return r
}
