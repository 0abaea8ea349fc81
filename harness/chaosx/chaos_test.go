//go:build go1.21

package chaosx

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/big"
	"os"
	"strings"
	"syscall"
	"testing"
	"time"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwen"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/zzverif/pup"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/zzverif/vh"
	vmcommon "github.com/ElrondNetwork/elrond-vm-common"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) {
	// what a contract makes the machine allocate has to stay within reason
	if os.Getenv("VH_NOLIMIT") == "" { // set by hand, to run with a sanitizer
		limit := syscall.Rlimit{Cur: 12 << 30, Max: 12 << 30}
		_ = syscall.Setrlimit(syscall.RLIMIT_AS, &limit)
	}
	vh.Main(m)
}

const rule = "a transaction that reaches contract code and performs at least one host call with a hostile operand, or runs generated code, or meets a failing blockchain, followed by an ordinary transaction on the same machine"

const memEnd = 16 << 16 // of the puppet's memory

var weights = pup.Weights{"store": 3, "load": 2, "loadfrom": 1, "smallstore": 1, "bigstore": 1, "bigload": 1, "lock": 1, "finish": 2,
	"args": 1, "ctx": 1, "bal": 1, "log": 1, "retdata": 1, "err": 1, "grow": 1, "transfer": 2, "tve": 2, "dest": 3, "caller": 1,
	"same": 2, "delegate": 1, "readonly": 2, "create": 1, "createFrom": 1, "upgrade": 1, "async": 2, "hash": 1, "big": 2, "bigset": 1}

// machine is what runs transactions here.
type machine struct {
	h    arwen.VMHost
	hook *pup.Flaky
}

func newMachine(w *pup.World) *machine {
	hook := &pup.Flaky{World: w.Clone()}
	return &machine{pup.Host(hook, pup.Options{KeepOpcodes: true}), hook}
}

// try runs a hostile transaction: it has to end with a return code.
func (m *machine) try(rt *rapid.T, what string, tx *pup.Tx) *vmcommon.VMOutput {
	var out *vmcommon.VMOutput
	var err error
	m.hook.Now, m.hook.Happened = 0, 0
	if !vh.Within(100*time.Second, func() { out, err = tx.Run(m.h) }) {
		rt.Fatalf("the execution does not end: %s", what)
	}
	panics := false
	for _, k := range m.hook.Faults {
		panics = panics || k == 2
	}
	if err != nil && !(panics && m.hook.Happened > 0) {
		rt.Fatalf("the machine fails instead of giving a return code: %v\n%s", err, what)
	}
	if err == nil && out == nil {
		rt.Fatalf("no output and no error\n%s", what)
	}
	m.hook.Faults = nil
	return out
}

// probe checks that the machine executes the next transaction normally.
func (m *machine) probe(rt *rapid.T, w *pup.World, tx *pup.Tx, what string) {
	run := func(m *machine) (s string) {
		compiled := m.hook.World.Compiled
		*m.hook.World = *w.Clone()
		m.hook.World.Compiled = compiled
		if !vh.Within(100*time.Second, func() { s = pup.Outcome(tx.Run(m.h)) }) {
			rt.Fatalf("the next transaction does not end: %s\nafter %s", tx, what)
		}
		return s
	}
	got, want := run(m), run(newMachine(w))
	if got != want {
		rt.Fatalf("the next transaction differs from what a new machine does\nnew:  %s\nused: %s\n%s\nafter %s", want, got, tx, what)
	}
}

func reason(out *vmcommon.VMOutput) string {
	if out == nil {
		return "error"
	}
	s := out.ReturnMessage
	if i := strings.IndexAny(s, "(0123456789"); i > 0 {
		s = s[:i]
	}
	if len(s) > 40 {
		s = s[:40]
	}
	return fmt.Sprintf("%s %s", out.ReturnCode, s)
}

// operand draws a value for one operand of a host function.
func operand(s *pup.SB, g *pup.Gen, fn, name, kind string, hostile *int) pup.Val {
	low := strings.ToLower(name)
	has := func(subs ...string) bool {
		for _, x := range subs {
			if strings.Contains(low, x) {
				return true
			}
		}
		return false
	}
	bad := g.Chance(22, "hostile")
	if bad {
		*hostile++
	}
	if kind == "i64" {
		if bad || !has("gas") {
			return pup.I(pup.Pick(g, []int64{0, 1, -1, 2, 3, 1 << 31, -1 << 31, 1<<31 - 1, 1 << 32, 1 << 62, 1<<63 - 1, -1 << 63, 1000, 1001, 1 << 40}, "i64"))
		}
		return pup.I(int64(1) << uint(g.Number(10, 24, "gas")))
	}
	if bad && g.Chance(20, "any kind") {
		return pup.I(int64(int32(rapid.Int32Range(-1<<31, 1<<20).Draw(g.T, "i32"))))
	}
	switch {
	case has("numarguments", "numtopics"):
		if bad {
			return pup.I(pup.Pick(g, []int64{-1, -1 << 31, 0x40000000, 0x40000001, 0x7fffffff, 0x3fffffff, 0x20000000, 0x20000001, 0x08000000, 0x08000001,
				0x10000, 0x8001, -0x40000000, -0x3fffffff, 5, 100}, "number"))
		}
		return pup.I(int64(g.Number(0, 3, "number")))
	case has("length", "len") && !has("offset"):
		if bad {
			return pup.I(pup.Pick(g, []int64{-1, -1 << 31, 0, 1, 31, 32, 33, 255, 256, memEnd, memEnd - 0x20000, memEnd - 0x20000 + 1, memEnd + 1, 1 << 18, -32}, "length"))
		}
		return pup.I(int64(g.Number(0, 40, "length")))
	case has("bits"):
		if bad {
			return pup.I(pup.Pick(g, []int64{-1, -1 << 31, 1 << 20, 1 << 23, 63, 64, 65, 1<<31 - 1}, "bits"))
		}
		return pup.I(int64(g.Number(0, 300, "bits")))
	case has("offset", "ptr", "pointer"):
		if bad {
			return pup.I(pup.Pick(g, []int64{-1, -1 << 31, 1<<31 - 1, 1<<31 - 32, memEnd, memEnd - 1, memEnd - 4, memEnd - 31, memEnd - 32, memEnd - 33, memEnd + 1,
				memEnd + 65535, memEnd + 65536, 0, 1, 0x58000, memEnd - 0x20000}, "pointer"))
		}
		switch {
		case has("dest", "dst", "address"):
			who := pup.Pick(g, [][]byte{pup.Pick(g, g.Contracts, "c"), pup.Pick(g, g.Contracts, "c"), pup.Pick(g, g.Users, "u"), pup.Pick(g, g.Foreign, "f")}, "who")
			return pup.I(s.Put(who))
		case has("value"):
			v := make([]byte, 32)
			big.NewInt(int64(g.Number(0, 20, "value"))).FillBytes(v)
			return pup.I(s.Put(v))
		case has("function"):
			return pup.I(s.Put([]byte(pup.Pick(g, []string{"run", "alt", "nop", "init", "ESDTTransfer", "nothing"}, "function") + strings.Repeat("@00", 13))))
		case has("lengths"):
			return pup.I(s.Put(lengths(g)))
		case has("code") && !has("meta"):
			return pup.I(s.Put([]byte("\x00asm\x01\x00\x00\x00")))
		case has("key"):
			return pup.I(s.Put(append([]byte(pup.Pick(g, []string{"cb", "k1", "ELROND", "ARWEN@", "stored"}, "key")), make([]byte, 40)...)))
		}
		return pup.I(s.Put(g.Bytes(0, 48, "data")))
	}
	if bad {
		return pup.I(pup.Pick(g, []int64{-1, -1 << 31, 1<<31 - 1, 100, 1000, 1 << 20, 77}, "value"))
	}
	return pup.I(int64(g.Number(0, 5, "small")))
}

// lengths draws an array of lengths, some of them wrong.
func lengths(g *pup.Gen) []byte {
	var b []byte
	for i := 0; i < 6; i++ {
		n := int32(g.Number(0, 12, "length"))
		if g.Chance(8, "wrong length") {
			n = pup.Pick(g, []int32{-1, -1 << 31, memEnd, memEnd + 1, 1 << 18, -5}, "wrong")
		}
		b = binary.LittleEndian.AppendUint32(b, uint32(n))
	}
	return b
}

// hostileScript draws a script of host calls with arbitrary operands among ordinary steps.
func hostileScript(g *pup.Gen, self []byte, hostile *int) []byte {
	s := &pup.SB{G: g, Self: self}
	s.Room(0)
	n := g.Number(1, 8, "calls")
	for i := 0; i < n; i++ {
		if g.Chance(20, "ordinary") && g.Budget > 0 {
			g.Budget--
			s.Step(pup.Pick(g, []string{"bigset", "store", "finish", "dest", "async", "create", "grow"}, "step"))
			continue
		}
		f := g.Number(0, len(pup.Fns)-1, "function")
		fn := pup.Fns[f]
		if fn.Name == "signalError" && g.Chance(80, "another") {
			continue
		}
		var args []pup.Val
		for k, kind := range fn.Args {
			if g.Chance(4, "register") {
				args = append(args, pup.R(g.Number(0, 3, "register")))
			} else {
				args = append(args, operand(s, g, fn.Name, fn.ArgNames[k], kind, hostile))
			}
		}
		vh.Class("host function: " + fn.Name)
		s.CallN(g.Number(0, 3, "result"), f, args...)
		if g.Chance(10, "tell") {
			s.Flush()
		}
	}
	return s.B
}

// TestHostileCalls: host functions called with arbitrary operands.
func TestHostileCalls(t *testing.T) {
	vh.Rule("C09", rule)
	vh.Check(t, func(rt *rapid.T) {
		g := pup.NewGen(rt, weights)
		g.Finish()
		m := newMachine(g.W)
		number := g.Number(1, 3, "transactions")
		var what string
		hostile, reached := 0, false
		for i := 0; i < number; i++ {
			g.Budget += 12
			tx := g.Tx()
			in := tx.In()
			sc := hostileScript(g, tx.Call.RecipientAddr, &hostile)
			tx.Call.Function = pup.Pick(g, []string{"run", "alt"}, "function")
			in.Arguments = append([][]byte{sc}, in.Arguments...)
			in.GasProvided = uint64(1) << uint(g.Number(18, 24, "gas"))
			switch g.Number(0, 9, "kind") {
			case 0:
				in.CallType = vmcommon.DirectCall
				tx = &pup.Tx{Create: &vmcommon.ContractCreateInput{VMInput: *in, ContractCode: pup.Puppet(), ContractCodeMetadata: []byte{5, 2}}}
			case 1: // through another contract's call
				inner := &pup.SB{G: g, Self: tx.Call.RecipientAddr}
				inner.Room(0)
				nn, l, d := inner.PutArgs([][]byte{sc})
				call := pup.Pick(g, []string{"executeOnDestContext", "executeOnSameContext", "executeOnDestContextByCaller"}, "call")
				inner.Call(0, call, pup.I(1<<23), pup.I(inner.Put(pup.Pick(g, g.Contracts, "dest"))), pup.I(inner.Put(make([]byte, 32))), pup.I(inner.Put([]byte("run"))),
					pup.I(3), pup.I(nn), pup.I(l), pup.I(d))
				inner.Flush()
				in.Arguments[0] = inner.B
			}
			what += "\n" + tx.String()
			out := m.try(rt, g.W.Describe()+what, tx)
			vh.Class("outcome: " + reason(out))
			reached = reached || out != nil && (out.ReturnCode == vmcommon.Ok || out.ReturnCode == vmcommon.ExecutionFailed || out.ReturnCode == vmcommon.UserError || out.ReturnCode == vmcommon.OutOfGas)
			if out != nil && out.ReturnCode == vmcommon.Ok && g.Chance(50, "apply") {
				m.hook.World.Apply(out, in.CallerAddr, in.CallValue)
			}
		}
		g.Budget += 12
		m.probe(rt, g.W, g.Tx(), what)
		vh.Case(reached && hostile > 0, "hostile calls", what+g.W.Describe(), func() string { return what })
	})
}

// TestHostileCode: arbitrary bytes as code, deployed, upgraded to, called and created by contracts.
func TestHostileCode(t *testing.T) {
	vh.Rule("C09", rule)
	vh.Check(t, func(rt *rapid.T) {
		g := pup.NewGen(rt, weights)
		g.Finish()
		code := hostileCode(g)
		tx := g.Tx()
		in := tx.In()
		in.GasProvided = uint64(1) << uint(g.Number(17, 23, "gas"))
		how := g.Number(0, 4, "how")
		switch how {
		case 0:
			in.CallType = vmcommon.DirectCall
			tx = &pup.Tx{Create: &vmcommon.ContractCreateInput{VMInput: *in, ContractCode: code, ContractCodeMetadata: g.Bytes(0, 3, "meta")}}
		case 1:
			g.W.Accs[string(tx.Call.RecipientAddr)].Code = code
			tx.Call.Function = pup.Pick(g, []string{"run", "run", "run", "run", "run", "alt", "nop", "", "memory", "run\x00"}, "function")
		case 2:
			in.CallType = vmcommon.DirectCall
			in.Arguments = append([][]byte{code, g.Bytes(0, 3, "meta")}, in.Arguments...)
			tx.Call.Function = "upgradeContract"
		case 3:
			s := &pup.SB{G: g, Self: tx.Call.RecipientAddr}
			s.Room(0)
			if len(code) > 0x20000 {
				code = code[:0x20000]
			}
			n, l, d := s.PutArgs([][]byte{g.Bytes(0, 5, "init")})
			at := s.Put(code)
			if g.Chance(50, "upgrade") {
				s.Call(0, "upgradeContract", pup.I(s.Put(tx.Call.RecipientAddr)), pup.I(1<<20), pup.I(s.Put(make([]byte, 32))), pup.I(at), pup.I(s.Put([]byte{1, 0})), pup.I(int64(len(code))),
					pup.I(n), pup.I(l), pup.I(d))
			} else {
				s.Call(0, "createContract", pup.I(1<<20), pup.I(s.Put(make([]byte, 32))), pup.I(at), pup.I(s.Put([]byte{1, 0})), pup.I(int64(len(code))), pup.I(s.Room(32)),
					pup.I(n), pup.I(l), pup.I(d))
			}
			s.Flush()
			tx.Call.Function = "run"
			in.Arguments = [][]byte{s.B}
		default: // called by another contract
			dest := pup.Pick(g, g.Contracts, "dest")
			g.W.Accs[string(dest)].Code = code
			s := &pup.SB{G: g, Self: tx.Call.RecipientAddr}
			s.Room(0)
			n, l, d := s.PutArgs([][]byte{{}})
			s.Call(0, pup.Pick(g, []string{"executeOnDestContext", "executeOnSameContext"}, "call"), pup.I(1<<20), pup.I(s.Put(dest)), pup.I(s.Put(make([]byte, 32))),
				pup.I(s.Put([]byte("run"))), pup.I(3), pup.I(n), pup.I(l), pup.I(d))
			s.Flush()
			tx.Call.Function = "run"
			in.Arguments = [][]byte{s.B}
		}
		m := newMachine(g.W)
		what := fmt.Sprintf("%s\ncode %x", tx, code)
		out := m.try(rt, what, tx)
		vh.Class(fmt.Sprintf("code %d: %s", how, reason(out)))
		w := g.W.Clone()
		for _, a := range w.Accs {
			if string(a.Code) == string(code) {
				a.Code = pup.Puppet()
			}
		}
		g.Budget += 12
		m.probe(rt, w, g.Tx(), what)
		vh.Case(out != nil && out.ReturnCode != vmcommon.ContractInvalid, "hostile code", what, func() string { return tx.String() })
	})
}

// hostileCode draws bytes: from nothing like a module to nearly the puppet.
func hostileCode(g *pup.Gen) []byte {
	c := pup.Puppet()
	switch g.Number(0, 9, "code") {
	case 0:
		return g.Bytes(0, 60, "bytes")
	case 1:
		return append([]byte("\x00asm\x01\x00\x00\x00"), g.Bytes(0, 60, "bytes")...)
	case 2:
		return c[:g.Number(0, len(c), "cut")]
	case 3:
		return append(c, g.Bytes(1, 30, "more")...)
	case 4, 5, 6, 7:
		return module(g)
	}
	for k := g.Number(1, 2, "changes"); k > 0 && len(c) > 0; k-- {
		at := g.Number(0, len(c)-1, "at")
		if g.Chance(70, "in the code") {
			at = len(c) - 1 - g.Number(0, 6900, "from the end")
			if at < 0 {
				at = 0
			}
		}
		switch g.Number(0, 3, "change") {
		case 0:
			c[at] ^= 1 << uint(g.Number(0, 7, "bit"))
		case 1:
			c[at] = byte(g.Number(0, 255, "byte"))
		case 2:
			n := g.Number(1, 6, "remove")
			if at+n > len(c) {
				n = len(c) - at
			}
			c = append(c[:at:at], c[at+n:]...)
		default:
			c = append(c[:at:at], append(g.Bytes(1, 6, "insert"), c[at:]...)...)
		}
	}
	return c
}

// module draws a small module whose function has drawn instructions, ending as often as not in a valid one.
func module(g *pup.Gen) []byte {
	section := func(id byte, body []byte) []byte {
		return append(append([]byte{id}, pup.ULEB(uint64(len(body)))...), body...)
	}
	c := []byte("\x00asm\x01\x00\x00\x00")
	c = append(c, section(1, []byte{2, 0x60, 0, 0, 0x60, 2, 0x7f, 0x7f, 0})...)
	imp := append([]byte{1, 3}, "env"...)
	imp = append(append(append(imp, 6), "finish"...), 0, 1)
	c = append(c, section(2, imp)...)
	c = append(c, section(3, []byte{1, 0})...)
	c = append(c, section(4, []byte{1, 0x70, 0, byte(g.Number(0, 3, "table"))})...)
	c = append(c, section(5, pup.Pick(g, [][]byte{{1, 0, 1}, {1, 0, 2}, {1, 0, 2}, {1, 0, 0}, {1, 1, 1, 2}, {1, 1, 2, 2}, {1, 1, 0, 1}, {1, 0, 0x80, 0x80, 4}}, "memory"))...)
	ex := append(append([]byte{2, 6}, "memory"...), 2, 0)
	ex = append(append(append(ex, 3), "run"...), 0, 1)
	c = append(c, section(7, ex)...)
	var body []byte
	for k := g.Number(0, 12, "instructions"); k > 0; k-- {
		body = append(body, instruction(g)...)
	}
	body = append(append([]byte{1, 3, 0x7f}, body...), 0x0b)
	c = append(c, section(10, append([]byte{1}, append(pup.ULEB(uint64(len(body))), body...)...))...)
	if g.Chance(30, "data") {
		c = append(c, section(11, append([]byte{1, 0, 0x41}, append(pup.Pick(g, [][]byte{{0}, {0xf0, 0xff, 3}, {0x80, 0x80, 4}, {0x7f}}, "where"), 0x0b, 4, 1, 2, 3, 4)...))...)
	}
	return c
}

func instruction(g *pup.Gen) []byte {
	con := func() []byte {
		return append([]byte{0x41}, pup.Pick(g, [][]byte{{0}, {1}, {0x7f}, {0x20}, {0x80, 0x80, 4}, {0xff, 0xff, 3}, {0xff, 0xff, 0xff, 0xff, 7}, {0x80, 0x80, 0x80, 0x80, 0x78}}, "constant")...)
	}
	two := append(con(), con()...)
	switch g.Number(0, 16, "instruction") {
	case 0:
		return append(two, 0x10, 0) // finish
	case 1:
		return append(con(), 0x40, 0, 0x1a) // grow
	case 2:
		return append(two, byte(pup.Pick(g, []int{0x6a, 0x6b, 0x6c, 0x6d, 0x6e, 0x6f, 0x70, 0x74, 0x78}, "arithmetic")), 0x1a)
	case 3:
		return append(con(), 0x28, 2, byte(g.Number(0, 127, "offset")), 0x1a)
	case 4:
		return append(two, 0x36, 2, byte(g.Number(0, 127, "offset")))
	case 5:
		return []byte{0x03, 0x40, 0x0c, 0, 0x0b} // for ever
	case 6:
		return []byte{0x10, 1} // itself
	case 7:
		if g.Chance(70, "right type") {
			return append(con(), 0x11, 0, 0)
		}
		return append(two, append(con(), 0x11, 1, 0)...)
	case 8:
		return []byte{0}
	case 9:
		return append(con(), 0x0e, 1, 0, 0)
	case 10:
		return append(con(), 0x04, 0x40, 0x05, 0x0b)
	case 11:
		return []byte{0x20, byte(g.Number(0, 2, "local")), 0x1a}
	case 12:
		return []byte{0x3f, 0, 0x1a}
	case 13:
		if g.Chance(20, "any opcode") {
			return []byte{byte(g.Number(0, 255, "opcode"))}
		}
		return append(con(), byte(pup.Pick(g, []int{0x45, 0x67, 0x68, 0x69}, "unary")), 0x1a)
	case 14:
		return append(con(), 0x21, byte(g.Number(0, 2, "local")))
	case 15:
		return []byte{0x02, 0x40, 0x0c, byte(g.Number(0, 1, "depth")), 0x0b}
	}
	return []byte{0x0f}
}

// TestHostileInputs: odd inputs, and a blockchain that fails.
func TestHostileInputs(t *testing.T) {
	vh.Rule("C09", rule)
	vh.Check(t, func(rt *rapid.T) {
		g := pup.NewGen(rt, weights)
		g.Finish()
		m := newMachine(g.W)
		var what string
		happened := 0
		for k := g.Number(1, 3, "transactions"); k > 0; k-- {
			g.Budget += 12
			tx := g.AnyTx()
			in := tx.In()
			in.GasProvided = uint64(1) << uint(g.Number(10, 24, "gas"))
			if g.Chance(60, "odd input") {
				odd(g, tx)
			}
			faults := map[int]int{}
			if g.Chance(60, "faults") {
				for n := g.Number(1, 3, "number of faults"); n > 0; n-- {
					faults[g.Number(0, 20, "query")] = g.Number(1, 2, "fault")
				}
			}
			m.hook.Faults = faults
			what += fmt.Sprintf("\n%s faults %v", tx, faults)
			out := m.try(rt, g.W.Describe()+what, tx)
			happened += m.hook.Happened
			vh.Class(fmt.Sprintf("input, %d faults: %s", m.hook.Happened, reason(out)))
		}
		g.Budget += 12
		m.probe(rt, g.W, g.Tx(), what)
		vh.Case(true, fmt.Sprintf("hostile inputs, %d faults", happened), what+g.W.Describe(), func() string { return what })
	})
}

func odd(g *pup.Gen, tx *pup.Tx) {
	in := tx.In()
	name := func() string { return string(g.Bytes(0, 40, "name")) }
	for k := g.Number(1, 3, "oddities"); k > 0; k-- {
		switch g.Number(0, 10, "oddity") {
		case 0:
			in.CallerAddr = g.Bytes(0, 40, "caller")
		case 1:
			if tx.Call != nil {
				tx.Call.RecipientAddr = g.Bytes(0, 40, "recipient")
			}
		case 2:
			if tx.Call != nil {
				tx.Call.Function = pup.Pick(g, []string{name(), "", "upgradeContract", "init", "callBack", "_main", "deleteContract", "memory", strings.Repeat("x", 5000)}, "function")
			}
		case 3:
			in.Arguments = nil
		case 4:
			for i := g.Number(1, 20, "arguments"); i > 0; i-- {
				in.Arguments = append(in.Arguments, g.Bytes(0, 50, "argument"))
			}
		case 5:
			in.GasProvided = pup.Pick(g, []uint64{0, 1, 1<<64 - 1, 1 << 63, 1 << 62}, "gas")
		case 6:
			in.GasLocked = pup.Pick(g, []uint64{1, 1<<64 - 1, 1 << 63}, "locked")
		case 7:
			in.CallType = vmcommon.CallType(g.Number(0, 9, "type"))
		case 8:
			in.CallValue = new(big.Int).SetBytes(g.Bytes(0, 60, "value"))
		case 9:
			in.GasPrice = 1<<64 - 1
		case 10:
			in.OriginalTxHash, in.CurrentTxHash, in.PrevTxHash = g.Bytes(0, 40, "hash"), nil, g.Bytes(0, 3, "hash")
		}
	}
	if in.GasProvided > 1<<40 {
		// nothing that could be a script, because that could rightly run for years
		for i, a := range in.Arguments {
			if len(a) > 0 && !bytes.HasPrefix(a, []byte("\x00asm")) {
				in.Arguments[i] = append([]byte{0}, a[1:]...)
			}
		}
	}
}
