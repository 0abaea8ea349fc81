//go:build go1.21

package deployx

import (
	"fmt"
	"strings"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/zzverif/pup"
)

// contract is a generated module and what is known about it.
type contract struct {
	code    []byte
	valid   bool
	fault   string
	init    string // name of the function that initialises, "" if none
	mark    int    // told by it
	refuses bool   // it signals an error
	funcs   map[string]int
	memory  string // name of the memory's export
	inner   []string
}

func (c *contract) String() string {
	var names []string
	for _, n := range pup.SortedKeys(c.funcs) {
		if len(n) > 40 {
			n = fmt.Sprintf("%s…(%d)", n[:10], len(n))
		}
		names = append(names, n)
	}
	return fmt.Sprintf("module of %d bytes, fault %q, init %q refusing %v, functions %q, memory %q", len(c.code), c.fault, c.init, c.refuses, names, c.memory)
}

// functions of the token interface, which come with an epoch
var tokenImports = []string{"transferESDTExecute", "transferESDTNFTExecute", "transferValueExecute", "getESDTBalance", "getESDTTokenData", "getESDTTokenType", "getESDTTokenNonce",
	"getCurrentESDTNFTNonce", "getESDTNFTNameLength", "getESDTNFTAttributeLength", "getESDTNFTURILength", "bigIntGetESDTExternalBalance"}

var faults = []string{"no memory", "memory kept", "parameter", "result", "empty name", "long name", "unicode name", "api name", "upgrade name", "builtin name",
	"unknown import", "wrong module", "wrong signature", "foreign memory", "foreign global", "truncated", "magic", "type error", "bad call", "bad local",
	"bad opcode", "two memories", "name twice", "data outside", "missing function", "empty", "random", "text", "junk section"}

const (
	inactiveBuiltin = "NotYetThere"
	activeBuiltin   = "ESDTTransfer"
	otherBuiltin    = "SaveKeyValue"
)

func isTokenImport(name string) bool {
	for _, x := range tokenImports {
		if x == name {
			return true
		}
	}
	return false
}

// initBody stores and reports everything an initialiser is given.
func initBody(f map[string]int, mark int, refuses bool) []byte {
	c := pup.Cat
	i, call, i64 := pup.I32, func(n string) []byte { return pup.CallF(f[n]) }, pup.I64
	const wrap, extend, drop = 0xa7, 0xad, 0x1a
	op := func(b ...byte) []byte { return b }
	body := c(
		// n: how many times it ran; the names of the keys are in the data: n m c v k
		i(0), i(1), i(0), i(1), call("int64storageLoad"), i64(1), op(0x7c), call("int64storageStore"), op(drop),
		i(1), i(1), i64(int64(mark)), call("int64storageStore"), op(drop),
		i(1000), call("getCaller"),
		i(2), i(1), i(1000), i(32), call("storageStore"), op(drop),
		i(3), i(1), i(1100), i(1100), call("getCallValue"), call("storageStore"), op(drop),
		i(4), i(1), call("getNumArguments"), op(extend), call("int64storageStore"), op(drop),
		i64(int64(mark)), call("int64finish"),
		op(0x02, 0x40, 0x03, 0x40),                                          // block, loop
		op(0x20, 0), call("getNumArguments"), op(extend, 0x59), op(0x0d, 1), // leave if i >= n
		i(2001), op(0x20, 0, wrap), i('0'), op(0x6a), op(0x3a, 0, 0), // the key of argument i
		i(2000), i(2), i(3000), op(0x20, 0, wrap), i(3000), call("getArgument"), call("storageStore"), op(drop),
		i(3000), op(0x20, 0, wrap), i(3000), call("getArgument"), call("finish"),
		op(0x20, 0), i64(1), op(0x7c, 0x21, 0), op(0x0c, 0),
		op(0x0b, 0x0b),
	)
	if refuses {
		body = c(body, i(0), i(5), call("signalError"))
	}
	return body
}

// storedKey is where the initialiser puts argument i.
func storedKey(i int) string { return "\x00" + string(rune('0'+i)) }

var base = []string{"int64storageLoad", "int64storageStore", "storageStore", "getCaller", "getCallValue", "getNumArguments", "getArgument",
	"int64finish", "finish", "signalError"}

// draw generates a module. Its data start at 0, its scratch memory ends below 8000.
func draw(g *pup.Gen, faulty, tokens bool) *contract {
	k := &contract{valid: true, funcs: map[string]int{}, memory: "memory"}
	if faulty {
		k.fault = pup.Pick(g, faults, "fault")
		k.valid = false
	}
	is := func(f string) bool { return k.fault == f }
	switch k.fault {
	case "empty":
		return k
	case "random":
		k.code = g.Bytes(1, 60, "code")
		return k
	case "text":
		k.code = []byte("(module (memory (export \"memory\") 1) (func (export \"doit\")))")
		return k
	}
	m := &pup.Module{Raw: map[byte][]byte{}}
	f := map[string]int{}
	names := append([]string{}, base...)
	for i := g.Number(0, 4, "more imports"); i > 0; i-- {
		n := pup.Pick(g, pup.Fns, "import").Name
		if isTokenImport(n) && !tokens && !is("token import") {
			continue
		}
		names = append(names, n)
	}
	if !tokens && k.fault == "" && g.Chance(20, "imports tokens too early") {
		k.fault, k.valid = "token import", false
		names = append(names, pup.Pick(g, tokenImports, "token import"))
	}
	for i := len(names) - 1; i > 0; i-- {
		j := g.Number(0, i, "order")
		names[i], names[j] = names[j], names[i]
	}
	at := g.Number(0, len(names), "bad import at")
	spoil := func() {
		switch k.fault {
		case "unknown import":
			n := pup.Pick(g, []string{"noSuchFunction", "Finish", "finish ", "", "v1_3_finish", "memcpy"}, "unknown")
			m.Imports = append(m.Imports, pup.ModImport{Module: "env", Name: n, Params: []byte{0x7f}})
		case "wrong module":
			m.Import("getGasLeft")
			m.Imports[len(m.Imports)-1].Module = pup.Pick(g, []string{"", "en", "ENV", "envv", "wasi_unstable", "ethereum"}, "module")
		case "wrong signature":
			m.Import(pup.Pick(g, []string{"getGasLeft", "asyncCall", "bigIntAdd", "writeLog", "sha256", "getBlockHash", "checkNoPayment"}, "which"))
			x := &m.Imports[len(m.Imports)-1]
			switch g.Number(0, 2, "how") {
			case 0:
				x.Params = append(x.Params, 0x7f)
			case 1:
				if len(x.Ret) > 0 {
					x.Ret = nil
				} else {
					x.Ret = []byte{0x7f}
				}
			case 2:
				if len(x.Params) > 0 {
					x.Params[len(x.Params)-1] ^= 0x7e ^ 0x7f
				} else {
					x.Params = []byte{0x7e}
				}
			}
		}
	}
	for i, n := range names {
		if i == at {
			spoil()
		}
		if _, ok := f[n]; !ok {
			f[n] = m.Import(n)
		}
	}
	if at == len(names) {
		spoil()
	}
	functions := len(m.Imports)
	if is("foreign memory") {
		m.Imports = append(m.Imports, pup.ModImport{Module: "env", Name: "memory", Kind: 2, Desc: []byte{0, 1}})
	}
	if is("foreign global") {
		m.Imports = append(m.Imports, pup.ModImport{Module: "env", Name: "g", Kind: 3, Desc: []byte{0x7f, 0}})
	}

	add := func(fn pup.ModFunc, export string) int {
		i := functions + len(m.Funcs)
		m.Funcs = append(m.Funcs, fn)
		if export != "" {
			m.Exports = append(m.Exports, pup.ModExport{Name: export, Index: i})
		}
		return i
	}
	number := 0
	plain := func(export string) {
		number++
		body := pup.Cat(pup.I64(int64(number)), pup.CallF(f["int64finish"]))
		add(pup.ModFunc{Body: body}, export)
		k.funcs[export] = number
	}
	k.refuses = g.Chance(15, "refuses")
	inits := pup.Pick(g, []string{"init", "init", "init", "solidity.ctor", "both", "none"}, "init")
	if inits == "init" || inits == "both" {
		add(pup.ModFunc{Locals: 1, Body: initBody(f, 11, k.refuses)}, "init")
		k.init, k.mark = "init", 11
	}
	if inits == "solidity.ctor" || inits == "both" {
		add(pup.ModFunc{Locals: 1, Body: initBody(f, 22, k.refuses)}, "solidity.ctor")
		// never called by anything, only kept from being called
	}
	if k.init == "" {
		k.refuses = false
	}
	good := []string{"doit", "a", "get value", "Init", "initialize", "call_back", "callback", "main", "_start", "memory0", "x.y-z", "\x7f", "\x00\x01", "upgrade",
		"UpgradeContract", "upgradeContract ", "Finish", inactiveBuiltin, "esdttransfer", "ESDTTransfer1", strings.Repeat("n", 255), strings.Repeat("z", 254)}
	for i := g.Number(0, 5, "functions"); i > 0; i-- {
		n := pup.Pick(g, good, "name")
		if g.Chance(20, "any name") {
			n = fmt.Sprintf("f%x", g.Bytes(0, 8, "name"))
		}
		if _, ok := k.funcs[n]; !ok {
			plain(n)
		}
	}
	if g.Chance(40, "callBack") {
		plain("callBack")
	}
	// not exported, and so of any signature
	for i := g.Number(0, 2, "inner functions"); i > 0; i-- {
		params := g.Number(0, 2, "parameters")
		add(pup.ModFunc{Params: []byte{0x7f, 0x7e}[:params], Ret: []byte{0x7f}, Body: pup.I32(7)}, "")
		k.inner = append(k.inner, fmt.Sprint(params))
	}
	if g.Chance(30, "global") {
		m.Globals = g.Number(1, 3, "globals")
		if g.Chance(50, "exported") {
			m.Exports = append(m.Exports, pup.ModExport{Name: "__heap_base", Kind: 3, Index: 0})
		}
	}
	if g.Chance(30, "table") {
		m.Table = []byte{0x70, 0, 4}
		if g.Chance(50, "exported") {
			m.Exports = append(m.Exports, pup.ModExport{Name: "__indirect_function_table", Kind: 1, Index: 0})
		}
	}
	m.Data = append([]byte("nmcvk"), g.Bytes(0, 20, "data")...)
	if !is("no memory") && !is("foreign memory") {
		m.Memory = []byte{0, byte(g.Number(1, 3, "pages"))}
		if g.Chance(30, "maximum") {
			m.Memory = append([]byte{1}, m.Memory[1], m.Memory[1]+byte(g.Number(0, 3, "growth")))
		}
	} else if is("no memory") {
		m.Data = nil
	}
	k.memory = pup.Pick(g, []string{"memory", "memory", "memory", "mem", "m", "Memory"}, "name of the memory")
	if !is("no memory") && !is("memory kept") {
		m.Exports = append(m.Exports, pup.ModExport{Name: k.memory, Kind: 2})
	}

	switch k.fault {
	case "parameter":
		add(pup.ModFunc{Params: []byte{pup.Pick(g, []byte{0x7f, 0x7e}, "type")}}, pup.Pick(g, []string{"odd", "callBack0"}, "name"))
	case "result":
		add(pup.ModFunc{Ret: []byte{0x7f}, Body: pup.I32(1)}, pup.Pick(g, []string{"odd", "callBack0"}, "name"))
	case "empty name":
		m.Exports = append(m.Exports, pup.ModExport{Index: add(pup.ModFunc{}, "")})
	case "long name":
		add(pup.ModFunc{}, strings.Repeat("m", pup.Pick(g, []int{256, 257, 300, 512, 511, 1000}, "length")))
	case "unicode name":
		add(pup.ModFunc{}, pup.Pick(g, []string{"é", "doité", "\u0080", "日本", "x\U0001F600", "\u212a"}, "name"))
	case "api name":
		n := pup.Pick(g, pup.Fns, "which").Name
		add(pup.ModFunc{}, n)
	case "upgrade name":
		add(pup.ModFunc{}, "upgradeContract")
	case "builtin name":
		add(pup.ModFunc{}, pup.Pick(g, []string{activeBuiltin, otherBuiltin}, "which"))
	case "type error":
		add(pup.ModFunc{Body: pup.Pick(g, [][]byte{pup.I32(1), {0x7c}, pup.Cat(pup.I32(1), pup.I64(1), []byte{0x6a, 0x1a}), {0x1a},
			pup.Cat(pup.I64(1), []byte{0x04, 0x40, 0x0b}), {0x0c, 5}}, "how")}, "odd")
	case "bad call":
		add(pup.ModFunc{Body: pup.CallF(functions + len(m.Funcs) + 1 + g.Number(0, 3, "beyond"))}, "odd")
	case "bad local":
		add(pup.ModFunc{Body: pup.Cat([]byte{0x20, byte(g.Number(1, 9, "local"))}, []byte{0x1a}), Locals: 1}, "odd")
	case "bad opcode":
		add(pup.ModFunc{Body: []byte{pup.Pick(g, []byte{0x06, 0x13, 0x1d, 0x27, 0xff, 0xd0, 0xf0}, "opcode")}}, "odd")
	case "missing function":
		m.Exports = append(m.Exports, pup.ModExport{Name: "odd", Index: functions + len(m.Funcs) + g.Number(0, 2, "beyond")})
	case "name twice":
		add(pup.ModFunc{}, "odd")
		add(pup.ModFunc{}, "odd")
	case "two memories":
		m.Raw[5] = pup.Cat([]byte{2}, m.Memory, m.Memory)
	case "data outside":
		m.Raw[11] = pup.Cat([]byte{1, 0}, pup.I32(int32(m.Memory[1])<<16-int32(g.Number(0, 3, "before the end"))), []byte{0x0b, 4, 1, 2, 3, 4})
	}
	// the order of exports is free
	for i := len(m.Exports) - 1; i > 0; i-- {
		j := g.Number(0, i, "order")
		m.Exports[i], m.Exports[j] = m.Exports[j], m.Exports[i]
	}
	k.code = m.Encode()
	switch k.fault {
	case "truncated":
		k.code = k.code[:len(k.code)-g.Number(1, 5, "bytes")]
	case "magic":
		k.code[g.Number(0, 7, "byte")] ^= byte(g.Number(1, 255, "bits"))
	case "junk section":
		// valid code, and something after it
		k.code = append(k.code, byte(g.Number(13, 120, "section")), 0)
	}
	return k
}
