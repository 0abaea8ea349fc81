//go:build go1.21

package vmdiff

import (
	"bytes"
	"fmt"
	"math"
	"math/big"
	"reflect"
	"strings"
	"testing"

	arwenhost "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwen/host"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/config"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/zzverif/pup"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/zzverif/vh"
	vmcommon "github.com/ElrondNetwork/elrond-vm-common"
	"pgregory.net/rapid"
)

const opcodes = "WASMOpcodeCost"

var (
	instructions = strings.Fields(opcodeNames)
	entries      = func() [][2]string { // all entries of a schedule
		var out [][2]string
		for _, section := range pup.SortedKeys(scheduleNames) {
			for _, name := range strings.Fields(scheduleNames[section]) {
				out = append(out, [2]string{section, name})
			}
		}
		for _, name := range append(instructions[:len(instructions):len(instructions)], "LocalsUnmetered") {
			out = append(out, [2]string{opcodes, name})
		}
		return out
	}()
)

// prices draws a schedule in which nearly all prices differ.
func prices(g *pup.Gen, what string) config.GasScheduleMap {
	s := config.MakeGasMapForTests()
	x := rapid.Uint64().Draw(g.T, what)
	top := []uint64{1 << 12, 1 << 20, math.MaxUint32}[g.Number(0, 2, "greatest price")]
	for _, e := range entries {
		x += 0x9e3779b97f4a7c15
		z := (x ^ x>>30) * 0xbf58476d1ce4e5b9
		z = (z ^ z>>27) * 0x94d049bb133111eb
		z ^= z >> 31
		switch {
		case e[1] == "LocalsUnmetered":
			s[e[0]][e[1]] = 1 + z%20
		case e[0] == opcodes:
			s[e[0]][e[1]] = 1 + z%top
		default:
			s[e[0]][e[1]] = 1 + z%5000
		}
	}
	return s
}

// spoilt damages a copy of a schedule.
func spoilt(g *pup.Gen, s config.GasScheduleMap) (config.GasScheduleMap, string) {
	c := config.GasScheduleMap{}
	for section, m := range s {
		c[section] = map[string]uint64{}
		for k, v := range m {
			c[section][k] = v
		}
	}
	e := pup.Pick(g, entries, "entry")
	switch g.Number(0, 4, "damage") {
	case 0:
		delete(c[e[0]], e[1])
		return c, "no " + e[1]
	case 1:
		c[e[0]][e[1]] = 0
		return c, e[1] + " is 0"
	case 2:
		delete(c, e[0])
		return c, "no " + e[0]
	case 3:
		c[e[0]] = map[string]uint64{}
		return c, e[0] + " is empty"
	}
	e = [2]string{opcodes, pup.Pick(g, instructions, "instruction")}
	v := uint64(math.MaxUint32) + 1 + uint64(g.Number(0, 1000, "excess"))<<uint(g.Number(0, 20, "shift"))
	c[e[0]][e[1]] = v
	return c, fmt.Sprintf("%s is %d", e[1], v)
}

func TestC15Schedule(t *testing.T) {
	vh.Rule("C15", "a schedule with distinct prices is decoded, and a damaged one presented")
	vh.Check(t, func(rt *rapid.T) {
		g := &pup.Gen{T: rt}
		s := prices(g, "prices")
		bad, how := spoilt(g, s)
		vh.Case(true, "schedule", fmt.Sprint(how, s["ElrondAPICost"]["GetOwnerAddress"]), func() string { return "schedule with " + how })
		if c, err := config.CreateGasConfig(bad); err == nil {
			rt.Fatalf("a schedule with %s is accepted: %s", how, field(c, how))
		}
		c, err := config.CreateGasConfig(s)
		if err != nil {
			rt.Fatalf("a proper schedule is refused: %v", err)
		}
		v := reflect.ValueOf(*c)
		for _, e := range entries {
			f := v.FieldByName(e[0]).FieldByName(e[1])
			if !f.IsValid() {
				continue // named otherwise; its price shows in the charges
			}
			if f.Uint() != s[e[0]][e[1]] {
				rt.Fatalf("%s.%s is %d, the schedule says %d", e[0], e[1], f.Uint(), s[e[0]][e[1]])
			}
		}
		table := c.WASMOpcodeCost.ToOpcodeCostsArray()
		for i, name := range instructions {
			if uint64(table[i]) != s[opcodes][name] {
				rt.Fatalf("the engine is told %s (entry %d) costs %d, the schedule says %d", name, i, table[i], s[opcodes][name])
			}
		}
		if g.Number(0, 4, "machine") == 0 {
			if _, err = arwenhost.NewArwenVM(pup.NewWorld(), pup.Params(pup.Options{Schedule: bad})); err == nil {
				rt.Fatalf("a machine is built on a schedule with %s", how)
			}
		}
	})
}

func field(c *config.GasCost, how string) string {
	name := how[strings.LastIndex(how, " ")+1:]
	if i := strings.Index(how, " is "); i >= 0 {
		name = how[:i]
	}
	if f := reflect.ValueOf(c.WASMOpcodeCost).FieldByName(name); f.IsValid() {
		return fmt.Sprint(f.Uint())
	}
	return "whatever"
}

// body is straight-line code being written, with what its instructions are called.
type body struct {
	g     *pup.Gen
	code  []byte
	names []string
	stack []byte // types
	size  int    // locals
}

var (
	unary32  = strings.Fields("67:I32Clz 68:I32Ctz 69:I32Popcnt 45:I32Eqz c0:I32Extend8S c1:I32Extend16S")
	unary64  = strings.Fields("79:I64Clz 7a:I64Ctz 7b:I64Popcnt c2:I64Extend8S c3:I64Extend16S c4:I64Extend32S")
	binary32 = strings.Fields("46:I32Eq 47:I32Ne 48:I32LtS 49:I32LtU 4a:I32GtS 4b:I32GtU 4c:I32LeS 4d:I32LeU 4e:I32GeS 4f:I32GeU 6a:I32Add 6b:I32Sub 6c:I32Mul 71:I32And 72:I32Or 73:I32Xor 74:I32Shl 75:I32ShrS 76:I32ShrU 77:I32Rotl 78:I32Rotr")
	divide32 = strings.Fields("6d:I32DivS 6e:I32DivU 6f:I32RemS 70:I32RemU")
	compare  = strings.Fields("51:I64Eq 52:I64Ne 53:I64LtS 54:I64LtU 55:I64GtS 56:I64GtU 57:I64LeS 58:I64LeU 59:I64GeS 5a:I64GeU")
	binary64 = strings.Fields("7c:I64Add 7d:I64Sub 7e:I64Mul 83:I64And 84:I64Or 85:I64Xor 86:I64Shl 87:I64ShrS 88:I64ShrU 89:I64Rotl 8a:I64Rotr")
	divide64 = strings.Fields("7f:I64DivS 80:I64DivU 81:I64RemS 82:I64RemU")
	loads    = strings.Fields("28:I32Load 29:I64Load 2c:I32Load8S 2d:I32Load8U 2e:I32Load16S 2f:I32Load16U 30:I64Load8S 31:I64Load8U 32:I64Load16S 33:I64Load16U 34:I64Load32S 35:I64Load32U")
	stores   = strings.Fields("36:I32Store 37:I64Store 3a:I32Store8 3b:I32Store16 3c:I64Store8 3d:I64Store16 3e:I64Store32")
)

func (b *body) put(name string, code ...byte) {
	b.code = append(b.code, code...)
	b.names = append(b.names, name)
}

func (b *body) one(from []string, immediate ...byte) string {
	var op byte
	var name string
	x := pup.Pick(b.g, from, "instruction")
	fmt.Sscanf(strings.Replace(x, ":", " ", 1), "%x %s", &op, &name)
	b.put(name, append([]byte{op}, immediate...)...)
	return name
}

func (b *body) push(is64 bool) {
	k := int32(rapid.Int32().Draw(b.g.T, "constant"))
	if is64 {
		b.put("I64Const", pup.I64(int64(k)<<7)...)
		b.stack = append(b.stack, 64)
	} else {
		b.put("I32Const", pup.I32(k)...)
		b.stack = append(b.stack, 32)
	}
}

// want makes the top of the stack of these types (the last on top).
func (b *body) want(types ...byte) {
	n := len(b.stack) - len(types)
	if n < 0 || !bytes.Equal(b.stack[n:], types) {
		for _, t := range types {
			b.push(t == 64)
		}
	}
	b.stack = b.stack[:len(b.stack)-len(types)]
}

func (b *body) have(t byte) { b.stack = append(b.stack, t) }

func (b *body) step() {
	g := b.g
	switch g.Number(0, 21, "kind") {
	case 0:
		b.put("Nop", 0x01)
	case 1, 2:
		b.push(g.Chance(50, "long"))
	case 3:
		b.want(32)
		b.one(unary32)
		b.have(32)
	case 4:
		b.want(64)
		b.one(unary64)
		b.have(64)
	case 5, 6:
		b.want(32, 32)
		b.one(binary32)
		b.have(32)
	case 7, 8:
		b.want(64, 64)
		b.one(binary64)
		b.have(64)
	case 9:
		b.want(64, 64)
		b.one(compare)
		b.have(32)
	case 10:
		b.want(32)
		b.put("I32Const", pup.I32(int32(1+g.Number(0, 100, "divisor")))...)
		b.one(divide32)
		b.have(32)
	case 11:
		b.want(64)
		b.put("I64Const", pup.I64(int64(1+g.Number(0, 100, "divisor")))...)
		b.one(divide64)
		b.have(64)
	case 12:
		b.want(64)
		b.put("I64Eqz", 0x50)
		b.have(32)
	case 13:
		b.want(64)
		b.put("I32WrapI64", 0xa7)
		b.have(32)
	case 14:
		b.want(32)
		if g.Chance(50, "signed") {
			b.put("I64ExtendI32S", 0xac)
		} else {
			b.put("I64ExtendI32U", 0xad)
		}
		b.have(64)
	case 15:
		b.put("I32Const", pup.I32(int32(g.Number(0, 1000, "address")))...)
		name := b.one(loads, 0, 8)
		b.have(kind(name))
	case 16:
		b.put("I32Const", pup.I32(int32(g.Number(0, 1000, "address")))...)
		if at, is := len(b.names), g.Chance(50, "long"); true {
			b.push(is)
			b.stack = b.stack[:len(b.stack)-1]
			_ = at
			var those []string
			for _, x := range stores {
				if strings.Contains(x, "I64") == is {
					those = append(those, x)
				}
			}
			b.one(those, 0, 16)
		}
	case 17:
		if g.Chance(50, "grow") {
			b.put("I32Const", pup.I32(0)...)
			b.put("MemoryGrow", 0x40, 0)
		} else {
			b.put("MemorySize", 0x3f, 0)
		}
		b.have(32)
	case 18:
		if b.size > 0 {
			i := byte(g.Number(0, b.size-1, "local"))
			switch g.Number(0, 2, "access") {
			case 0:
				b.put("LocalGet", 0x20, i)
				b.have(64)
			case 1:
				b.want(64)
				b.put("LocalSet", 0x21, i)
			case 2:
				b.want(64)
				b.put("LocalTee", 0x22, i)
				b.have(64)
			}
		}
	case 19:
		if g.Chance(50, "set") {
			b.want(32)
			b.put("GlobalSet", 0x24, 0)
		} else {
			b.put("GlobalGet", 0x23, 0)
			b.have(32)
		}
	case 20:
		if len(b.stack) == 0 || g.Chance(30, "select") {
			b.push(true)
			b.push(true)
			b.put("I32Const", pup.I32(int32(g.Number(0, 1, "condition")))...)
			b.put("Select", 0x1b)
			b.stack = b.stack[:len(b.stack)-1]
		} else {
			b.put("Drop", 0x1a)
			b.stack = b.stack[:len(b.stack)-1]
		}
	case 21:
		// the other function does nothing
		b.put("Call", 0x10, 1)
		b.names = append(b.names, "End")
	}
}

func kind(name string) byte {
	if strings.HasPrefix(name, "I64") {
		return 64
	}
	return 32
}

func TestC15Instructions(t *testing.T) {
	vh.Rule("C15", "at least 8 instructions are executed")
	vh.Check(t, func(rt *rapid.T) {
		g := &pup.Gen{T: rt}
		locals := g.Number(0, 30, "locals")
		b := &body{g: g, size: locals}
		for i := g.Number(0, 40, "steps"); i > 0; i-- {
			b.step()
		}
		for range b.stack {
			b.put("Drop", 0x1a)
		}
		m := &pup.Module{Memory: []byte{0, 1}, Globals: 1, Funcs: []pup.ModFunc{{Locals: locals, Body: b.code}, {}},
			Exports: []pup.ModExport{{Name: "memory", Kind: 2}, {Name: "f", Index: 0}, {Name: "e", Index: 1}}}
		// globals of these modules are constant unless they say otherwise
		m.Raw = map[byte][]byte{6: {1, 0x7f, 1, 0x41, 5, 0x0b}}
		s := prices(g, "prices")
		costs := uint64(0)
		for _, name := range b.names {
			costs += s[opcodes][name]
		}
		if free := s[opcodes]["LocalsUnmetered"]; uint64(locals) > free {
			costs += (uint64(locals) - free) * s[opcodes]["LocalAllocate"]
			vh.Class("with locals charged")
		}
		changes := ""
		first := s
		if g.Chance(50, "changed") {
			changes = "another schedule replaced"
			first = prices(g, "first prices")
		}
		vh.Case(len(b.names) >= 8, "instructions", fmt.Sprint(b.names, s[opcodes]["Nop"]), func() string {
			return fmt.Sprintf("%d locals, %v", locals, b.names)
		})
		w := pup.NewWorld()
		a := w.Put(&pup.Acc{Address: pup.Address(true, 1, 0), Code: m.Encode(), Meta: []byte{1, 0}, Owner: pup.Address(false, 1, 0)})
		user := w.Put(&pup.Acc{Address: pup.Address(false, 1, 0), Balance: big.NewInt(1)})
		host := pup.Host(w, pup.Options{Schedule: first, KeepOpcodes: true})
		call := func(what string, gas uint64) *vmcommon.VMOutput {
			in := &vmcommon.ContractCallInput{Function: what, RecipientAddr: a.Address}
			in.CallerAddr, in.CallValue, in.GasProvided = user.Address, big.NewInt(0), gas
			out, err := host.RunSmartContractCall(in)
			if err != nil {
				rt.Fatalf("%v", err)
			}
			return out
		}
		const plenty = 1 << 39
		if changes != "" {
			if g.Chance(50, "used before") {
				call("f", plenty)
			}
			host.GasScheduleChange(s)
		}
		if g.Chance(30, "spoilt") {
			bad, how := spoilt(g, prices(g, "prices refused"))
			changes += " then one refused with " + how
			host.GasScheduleChange(bad)
		}
		empty, full := call("e", plenty), call("f", plenty)
		if empty.ReturnCode != 0 || full.ReturnCode != 0 {
			rt.Fatalf("%v %q, %v %q (%s)", empty.ReturnCode, empty.ReturnMessage, full.ReturnCode, full.ReturnMessage, changes)
		}
		if got := empty.GasRemaining - full.GasRemaining; got != costs {
			rt.Fatalf("%v with %d locals used %d of gas, by the schedule %d (%s)", b.names, locals, got, costs, changes)
		}
		used := plenty - full.GasRemaining
		if out := call("f", used); out.ReturnCode != 0 || out.GasRemaining != 0 {
			rt.Fatalf("with just enough gas: %v %q, %d left", out.ReturnCode, out.ReturnMessage, out.GasRemaining)
		}
		if out := call("f", used-1); out.ReturnCode != vmcommon.OutOfGas {
			rt.Fatalf("with 1 of gas too little: %v %q", out.ReturnCode, out.ReturnMessage)
		}
	})
}
