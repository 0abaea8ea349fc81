//go:build go1.21

package pup

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"strings"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/config"
	vmcommon "github.com/ElrondNetwork/elrond-vm-common"
	"pgregory.net/rapid"
)

// Schedule is a gas schedule in which every name costs something of its own.
func Schedule(seed uint64) config.GasScheduleMap {
	r := rand.New(rand.NewSource(int64(seed)))
	s := config.MakeGasMapForTests()
	for _, section := range SortedKeys(s) {
		if section == "WASMOpcodeCost" {
			continue
		}
		for _, name := range SortedKeys(s[section]) {
			if strings.HasSuffix(name, "PerByte") {
				s[section][name] = uint64(1 + r.Intn(20))
			} else {
				s[section][name] = uint64(100 + r.Intn(5000))
			}
		}
	}
	return s
}

// Weights says how often each kind of step is generated.
type Weights map[string]int

// Mix adds weights up.
func Mix(ws ...Weights) Weights {
	out := Weights{}
	for _, w := range ws {
		for k, v := range w {
			out[k] += v
		}
	}
	return out
}

// Gen generates worlds and scripts.
type Gen struct {
	T           *rapid.T
	W           *World
	Contracts   [][]byte
	Users       [][]byte
	Foreign     [][]byte
	Keys        [][]byte
	Weights     Weights
	MaxDepth    int
	Budget      int
	MaxOps      int
	MinOps      int // least number of steps of a top-level script
	kinds       []string
	Pads        []int
	NoTraces    bool
	AllowOver   bool // let values exceed the balances often
	RichAmounts bool // rarely move nothing
	Unsafe      bool // bad pointers and lengths too
	Args        int  // the most extra arguments of a call
	ArgLen      int  // and their greatest length
}

func (g *Gen) n(lo, hi int, what string) int { return rapid.IntRange(lo, hi).Draw(g.T, what) }

// Number draws a number evenly from a range.
func (g *Gen) Number(lo, hi int, what string) int { return lo + g.even(hi-lo+1, what) }

// Chance is true that often.
func (g *Gen) Chance(percent int, what string) bool { return g.chance(percent, what) }

// even draws evenly, unlike n, which prefers small numbers and the edges.
func (g *Gen) even(n int, what string) int {
	z := rapid.Uint64().Draw(g.T, what)
	z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
	z = (z ^ z>>27) * 0x94d049bb133111eb
	z ^= z >> 31
	return int(z % uint64(n))
}

func (g *Gen) chance(percent int, what string) bool { return g.even(100, what) >= 100-percent }

func pick[V any](g *Gen, from []V, what string) V { return from[g.even(len(from), what)] }

// Pick draws one of several.
func Pick[V any](g *Gen, from []V, what string) V { return pick(g, from, what) }

// Bytes draws a byte string.
func (g *Gen) Bytes(lo, hi int, what string) []byte {
	return rapid.SliceOfN(rapid.Byte(), lo, hi).Draw(g.T, what)
}

// Address of the i-th account of a kind.
func Address(contract bool, i int, shard int) []byte {
	a := make([]byte, 32)
	if contract {
		copy(a[8:], VMType)
		a[10] = 0xc0
	} else {
		a[0] = 0xaa
		a[10] = 0x0a
	}
	for j := 11; j < 31; j++ {
		a[j] = byte(17*i + j)
	}
	a[31] = byte(i & 0x7f)
	if shard == 1 {
		a[31] |= 0x80
	}
	return a
}

// NewGen draws a world of contracts and users.
func NewGen(t *rapid.T, w Weights) *Gen {
	g := &Gen{T: t, Weights: w, MaxDepth: 4, Budget: 24, MaxOps: 7, Args: 2, ArgLen: 9}
	g.world()
	return g
}

func (g *Gen) world() {
	g.W = NewWorld()
	g.Keys = [][]byte{[]byte("k"), []byte("key"), []byte("a-key-which-is-longer-than-thirty-two-bytes!"), {}}
	nc := g.n(2, 4, "contracts")
	for i := 0; i < 3; i++ {
		u := Address(false, i, 0)
		g.Users = append(g.Users, u)
		g.W.Put(&Acc{Address: u, Nonce: uint64(g.n(0, 5, "nonce")), Balance: big.NewInt(int64(g.n(0, 100000, "funds"))),
			UserName: []byte{}})
	}
	g.W.Accs[string(g.Users[0])].Balance.Add(g.W.Accs[string(g.Users[0])].Balance, big.NewInt(1000000))
	g.Foreign = [][]byte{Address(false, 9, 1), Address(true, 9, 1)}
	for i := 0; i < nc; i++ {
		a := Address(true, i, 0)
		g.Contracts = append(g.Contracts, a)
		pad := pick(g, []int{0, 0, 10, 700, 5000}, "pad")
		code := PuppetPadded(pad)
		if g.chance(15, "no callback") {
			code = without(code, "callBack")
		}
		meta := &vmcommon.CodeMetadata{Payable: g.chance(70, "payable"), Upgradeable: g.chance(60, "upgradeable"),
			Readable: g.chance(60, "readable")}
		acc := g.W.Put(&Acc{Address: a, Nonce: uint64(g.n(0, 3, "nonce")), Balance: g.funds(), Code: code,
			Meta: meta.ToBytes()})
		acc.Owner = pick(g, append(append([][]byte{}, g.Users[0]), g.Contracts...), "owner")
		for _, k := range g.Keys[:2] {
			if g.chance(40, "stored") {
				acc.Storage[string(k)] = g.Bytes(1, 12, "v")
			}
		}
	}
	if g.Weights["tokxfer"] > 0 {
		g.tokens()
	}
	g.W.Put(&Acc{Address: Address(true, 7, 0), Balance: big.NewInt(0)}) // an account like a contract's, without code
}

func (g *Gen) funds() *big.Int {
	switch g.even(4, "rich") {
	case 0:
		return big.NewInt(int64(g.n(0, 3, "funds")))
	case 1:
		return new(big.Int).Lsh(big.NewInt(int64(g.n(1, 1000, "funds"))), uint(g.n(0, 200, "shift")))
	}
	return big.NewInt(int64(g.n(0, 1000, "funds")))
}

// Finish draws the stored scripts (callbacks); call it after setting the weights.
func (g *Gen) Finish() {
	for _, a := range g.Contracts {
		acc := g.W.Accs[string(a)]
		for _, k := range []string{"cb", "stored"} {
			if g.chance(60, k) {
				g.Budget += 4
				acc.Storage[k] = g.Script(a, g.MaxDepth-1)
			}
		}
	}
}

func without(code []byte, export string) []byte {
	i := indexOf(code, []byte(export))
	c := append([]byte(nil), code...)
	c[i] = 'z'
	return c
}

// ---- scripts

// SB builds a script.
type SB struct {
	Script
	G     *Gen
	Self  []byte
	Depth int
	mem   uint32
	label []string
}

// NewSB starts a script.
func NewSB(g *Gen, self []byte) *SB { return &SB{G: g, Self: self, mem: 0x20000} }

// Script draws a script.
func (g *Gen) Script(self []byte, depth int) []byte {
	s := &SB{G: g, Self: self, Depth: depth, mem: 0x20000}
	max := g.MaxOps
	if depth > 0 && max > 5 {
		max = 5
	}
	min := g.MinOps
	if depth > 0 {
		min /= 2
	}
	n := g.n(min, max, "steps")
	if depth == 0 && n == 0 {
		n = 1
	}
	for i := 0; i < n && g.Budget > 0; i++ {
		g.Budget--
		s.Step(g.kind(depth))
	}
	if !g.NoTraces {
		s.Flush()
	}
	return s.B
}

var callKinds = map[string]bool{"dest": true, "caller": true, "same": true, "delegate": true, "readonly": true,
	"tve": true, "create": true, "createFrom": true, "upgrade": true, "async": true,
	"tokxfer": true, "tokdest": true, "tokasync": true}

func (g *Gen) kind(depth int) string {
	if g.kinds == nil {
		for _, k := range SortedKeys(g.Weights) {
			for i := 0; i < g.Weights[k]; i++ {
				g.kinds = append(g.kinds, k)
			}
		}
	}
	k := pick(g, g.kinds, "step")
	if depth >= g.MaxDepth {
		for i := 0; callKinds[k] && i < 50; i++ {
			k = g.kinds[(g.even(len(g.kinds), "step2")+i)%len(g.kinds)]
		}
		if callKinds[k] {
			return "gas"
		}
	}
	return k
}

// Put places bytes in memory and says where.
func (s *SB) Put(b []byte) int64 {
	if s.mem+uint32(len(b)) > 0x58000 {
		s.mem = 0x20000
	}
	at := s.mem
	if len(b) > 0 {
		s.Data(at, b)
	}
	s.mem += uint32(len(b)+7) &^ 7
	return int64(at)
}

// Room reserves memory.
func (s *SB) Room(n int) int64 {
	if s.mem+uint32(n) > 0x58000 {
		s.mem = 0x20000
	}
	at := s.mem
	s.mem += uint32(n+7) &^ 7
	return int64(at)
}

// PutArgs places call arguments: number, offset of the lengths, offset of the data.
func (s *SB) PutArgs(args [][]byte) (int64, int64, int64) {
	var lens, data []byte
	for _, a := range args {
		lens = binary.LittleEndian.AppendUint32(lens, uint32(len(a)))
		data = append(data, a...)
	}
	return int64(len(args)), s.Put(lens), s.Put(data)
}

func (s *SB) account() []byte {
	g := s.G
	switch g.even(10, "who") {
	case 0, 1, 2, 3, 4:
		return pick(g, g.Contracts, "contract")
	case 5, 6, 7:
		return pick(g, g.Users, "user")
	case 8:
		return pick(g, g.Foreign, "foreign")
	}
	if g.chance(50, "codeless") {
		return Address(true, 7, 0)
	}
	return Address(g.chance(50, "sc"), 30, 0) // nobody
}

func (s *SB) contract() []byte {
	g := s.G
	if g.chance(4, "other") {
		return s.account()
	}
	return pick(g, g.Contracts, "contract")
}

func (s *SB) key() []byte {
	g := s.G
	switch {
	case g.Weights["reserved"] > 0 && g.chance(g.Weights["reserved"], "reserved"):
		return append([]byte(pick(g, []string{"ELROND", "ARWEN@"}, "prefix")), g.Bytes(0, 4, "k")...)
	case g.chance(5, "odd key"):
		return append([]byte(pick(g, []string{"ELRON", "ARWEN", "elrond", ""}, "prefix")), g.Bytes(0, 40, "k")...)
	}
	return pick(g, g.Keys, "key")
}

func (s *SB) value() []byte {
	g := s.G
	switch g.even(6, "val") {
	case 0:
		return []byte{}
	case 1:
		return g.Bytes(20, 60, "v")
	case 2:
		return []byte("same")
	}
	return g.Bytes(1, 10, "v")
}

// Amount of native value.
func (s *SB) amount() []byte {
	g := s.G
	b := make([]byte, 32)
	lo := -5
	if g.RichAmounts {
		lo = 2
	}
	switch lo + g.even(8-lo, "amount") {
	case -5, -4, -3, -2, -1, 0, 1, 2:
	case 3, 4:
		big.NewInt(int64(g.n(1, 10, "amt"))).FillBytes(b)
	case 5:
		big.NewInt(int64(g.n(1, 1200, "amt"))).FillBytes(b)
	case 6: // about as much as somebody has
		v := new(big.Int).Set(g.W.Accs[string(pick(g, g.Contracts, "of"))].Balance)
		v.Add(v, big.NewInt(int64(g.n(-1, 1, "d"))))
		if v.Sign() > 0 && v.BitLen() < 256 {
			v.FillBytes(b)
		}
	default:
		if g.AllowOver {
			copy(b, g.Bytes(32, 32, "amt"))
		}
	}
	return b
}

func (s *SB) gas() Val {
	g := s.G
	switch g.even(20, "gaskind") {
	case 0:
		return I(int64(g.n(0, 1000, "gas")))
	case 1:
		return I(int64(g.n(1000, 200000, "gas")))
	case 2:
		return I(int64(g.n(100000, 1000000, "gas")))
	}
	return I(int64(1) << uint(g.n(22, 40, "gasbits")))
}

// callee draws a function with its arguments.
func (s *SB) callee(dest []byte) (string, [][]byte) {
	g := s.G
	if g.chance(3, "odd function") {
		return pick(g, []string{"init", "callBack", "nosuch", "solidity.ctor", "", "upgradeContract"}, "fn"), [][]byte{g.Bytes(0, 3, "x")}
	}
	if g.chance(8, "stored") {
		return "stored", g.extraArgs()
	}
	return pick(g, []string{"run", "run", "alt"}, "fn"), append([][]byte{g.Script(dest, s.Depth+1)}, g.extraArgs()...)
}

func (g *Gen) extraArgs() [][]byte {
	var out [][]byte
	for i := g.n(0, g.Args, "args"); i > 0; i-- {
		out = append(out, g.Bytes(0, g.ArgLen, "arg"))
	}
	return out
}

func (s *SB) trace(r int) {
	if !s.G.NoTraces {
		s.Trace(r)
	}
}

func (s *SB) traceM(at int64, n int) {
	if !s.G.NoTraces {
		s.TraceM(uint32(at), uint32(n))
	}
}

// mem writes a marker where a result will go, so that what is not written shows.
func (s *SB) out(n int) int64 {
	b := make([]byte, n)
	for i := range b {
		b[i] = 0xEE
	}
	return s.Put(b)
}

// Step appends one step of a kind.
func (s *SB) Step(kind string) {
	h, ok := stepKinds[kind]
	if !ok {
		h, ok = moreSteps[kind]
	}
	if !ok {
		panic("INFRA: no step kind " + kind)
	}
	h(s, s.G)
}

var stepKinds map[string]func(s *SB, g *Gen)

var moreSteps = map[string]func(s *SB, g *Gen){}

func i(v int64) Val { return I(v) }

func init() {
	stepKinds = map[string]func(s *SB, g *Gen){
		"reserved": func(s *SB, g *Gen) {
			k := append([]byte(pick(g, []string{"ELROND", "ARWEN@"}, "prefix")), g.Bytes(0, 4, "k")...)
			v := s.value()
			if g.chance(20, "write") {
				s.Call(0, "storageStore", i(s.Put(k)), i(int64(len(k))), i(s.Put(v)), i(int64(len(v))))
			} else {
				s.Call(0, "storageLoadLength", i(s.Put(k)), i(int64(len(k))))
			}
			s.trace(0)
		},
		"store": func(s *SB, g *Gen) {
			k, v := s.key(), s.value()
			s.Call(0, "storageStore", i(s.Put(k)), i(int64(len(k))), i(s.Put(v)), i(int64(len(v))))
			s.trace(0)
		},
		"load": func(s *SB, g *Gen) {
			k := s.key()
			at := s.out(64)
			s.Call(0, "storageLoad", i(s.Put(k)), i(int64(len(k))), i(at))
			s.trace(0)
			s.traceM(at, 64)
		},
		"loadlen": func(s *SB, g *Gen) {
			k := s.key()
			s.Call(0, "storageLoadLength", i(s.Put(k)), i(int64(len(k))))
			s.trace(0)
		},
		"loadfrom": func(s *SB, g *Gen) {
			k := s.key()
			at := s.out(64)
			s.Call(0, "storageLoadFromAddress", i(s.Put(s.account())), i(s.Put(k)), i(int64(len(k))), i(at))
			s.trace(0)
			s.traceM(at, 64)
		},
		"smallstore": func(s *SB, g *Gen) {
			k := s.key()
			s.Call(0, pick(g, []string{"smallIntStorageStoreUnsigned", "smallIntStorageStoreSigned", "int64storageStore"}, "fn"),
				i(s.Put(k)), i(int64(len(k))), U(g.small()))
			s.trace(0)
		},
		"smallload": func(s *SB, g *Gen) {
			k := s.key()
			s.Call(0, pick(g, []string{"smallIntStorageLoadUnsigned", "smallIntStorageLoadSigned", "int64storageLoad"}, "fn"),
				i(s.Put(k)), i(int64(len(k))))
			s.trace(0)
		},
		"bigstore": func(s *SB, g *Gen) {
			k := s.key()
			s.Call(0, "bigIntStorageStoreUnsigned", i(s.Put(k)), i(int64(len(k))), i(int64(g.n(0, 3, "h"))))
			s.trace(0)
		},
		"bigload": func(s *SB, g *Gen) {
			k := s.key()
			h := int64(g.n(0, 3, "h"))
			s.Call(0, "bigIntStorageLoadUnsigned", i(s.Put(k)), i(int64(len(k))), i(h))
			s.trace(0)
			s.Call(0, "bigIntFinishSigned", i(h))
		},
		"lock": func(s *SB, g *Gen) {
			k := s.key()
			at, n := i(s.Put(k)), i(int64(len(k)))
			switch g.even(5, "lock") {
			case 0, 1:
				ts := int64(s.G.W.Cur.Time) + int64(g.n(-2, 2, "ts"))
				if g.chance(20, "odd") {
					ts = rapid.Int64().Draw(g.T, "ts")
				}
				s.Call(0, "setStorageLock", at, n, i(ts))
			case 2:
				s.Call(0, "getStorageLock", at, n)
			case 3:
				s.Call(0, "isStorageLocked", at, n)
			case 4:
				s.Call(0, "clearStorageLock", at, n)
			}
			s.trace(0)
		},
		"finish": func(s *SB, g *Gen) {
			b := g.Bytes(0, 12, "ret")
			s.Call(0, "finish", i(s.Put(b)), i(int64(len(b))))
		},
		"smallfinish": func(s *SB, g *Gen) {
			s.Call(0, pick(g, []string{"smallIntFinishUnsigned", "smallIntFinishSigned", "int64finish"}, "fn"), U(g.small()))
		},
		"smallarg": func(s *SB, g *Gen) {
			s.Call(0, pick(g, []string{"smallIntGetUnsignedArgument", "smallIntGetSignedArgument", "int64getArgument"}, "fn"),
				i(int64(g.n(-1, 3, "id"))))
			s.trace(0)
		},
		"args": func(s *SB, g *Gen) {
			s.Call(0, "getNumArguments")
			s.trace(0)
			for k := g.n(0, 2, "n"); k >= 0; k-- {
				id := i(int64(g.n(-1, 5, "id")))
				if id.V == 0 {
					id.V = 1 // argument 0 is the script itself
				}
				at := s.out(64)
				s.Call(1, "getArgumentLength", id)
				s.trace(1)
				s.Call(1, "getArgument", id, i(at))
				s.trace(1)
				s.traceM(at, 64)
			}
		},
		"ctx": func(s *SB, g *Gen) {
			at := s.out(160)
			s.Call(0, "getSCAddress", i(at))
			s.Call(0, "getCaller", i(at+32))
			s.Call(0, "getCallValue", i(at+64))
			s.trace(0)
			s.Call(0, "getFunction", i(at+96))
			s.trace(0)
			if g.chance(50, "owner") {
				s.Call(0, "getOwnerAddress", i(at+128))
			}
			s.traceM(at, 160)
		},
		"txhash": func(s *SB, g *Gen) {
			at := s.out(32)
			s.Call(0, "getOriginalTxHash", i(at))
			s.traceM(at, 32)
		},
		"nopay": func(s *SB, g *Gen) { s.Call(0, "checkNoPayment") },
		"bigvalue": func(s *SB, g *Gen) {
			h := int64(g.n(0, 3, "h"))
			s.Call(0, "bigIntGetCallValue", i(h))
			s.Call(0, "bigIntFinishUnsigned", i(h))
		},
		"bal": func(s *SB, g *Gen) {
			at := s.out(32)
			who := s.account()
			if g.chance(30, "own") {
				who = s.Self
			}
			if g.chance(70, "plain") {
				s.Call(0, "getExternalBalance", i(s.Put(who)), i(at))
				s.traceM(at, 32)
			} else {
				s.Call(0, "bigIntGetExternalBalance", i(s.Put(who)), i(9))
				s.Call(0, "bigIntFinishUnsigned", i(9))
			}
		},
		"chain": func(s *SB, g *Gen) {
			for _, n := range []string{"getBlockTimestamp", "getBlockNonce", "getBlockRound", "getBlockEpoch",
				"getPrevBlockTimestamp", "getPrevBlockNonce", "getPrevBlockRound", "getPrevBlockEpoch"} {
				s.Call(0, n)
				s.trace(0)
			}
			at := s.out(48)
			s.Call(0, pick(g, []string{"getBlockRandomSeed", "getPrevBlockRandomSeed", "getStateRootHash"}, "fn"), i(at))
			s.traceM(at, 48)
		},
		"chain1": func(s *SB, g *Gen) {
			s.Call(0, pick(g, []string{"getBlockTimestamp", "getBlockNonce", "getBlockRound", "getBlockEpoch",
				"getPrevBlockTimestamp", "getPrevBlockNonce", "getPrevBlockRound", "getPrevBlockEpoch"}, "fn"))
			s.trace(0)
			at := s.out(48)
			s.Call(0, pick(g, []string{"getBlockRandomSeed", "getPrevBlockRandomSeed", "getStateRootHash"}, "fn"), i(at))
			s.traceM(at, 48)
		},
		"blockhash": func(s *SB, g *Gen) {
			at := s.out(32)
			n := int64(g.n(-2, 1005, "n"))
			if g.chance(20, "odd") {
				n = rapid.Int64().Draw(g.T, "n")
			}
			s.Call(0, "getBlockHash", i(n), i(at))
			s.trace(0)
			s.traceM(at, 32)
		},
		"shard": func(s *SB, g *Gen) {
			at := i(s.Put(s.account()))
			s.Call(0, "getShardOfAddress", at)
			s.trace(0)
			s.Call(0, "isSmartContract", at)
			s.trace(0)
		},
		"gas": func(s *SB, g *Gen) {
			s.Call(0, "getGasLeft")
			s.trace(0)
		},
		"log": func(s *SB, g *Gen) {
			d := g.Bytes(0, 8, "data")
			if g.chance(40, "old") {
				n := g.n(0, 3, "topics")
				s.Call(0, "writeLog", i(s.Put(d)), i(int64(len(d))), i(s.Put(g.Bytes(32*n, 32*n, "t"))), i(int64(n)))
				return
			}
			var topics [][]byte
			for k := g.n(0, 3, "topics"); k > 0; k-- {
				topics = append(topics, g.Bytes(0, 5, "t"))
			}
			n, l, a := s.PutArgs(topics)
			s.Call(0, "writeEventLog", i(n), i(l), i(a), i(s.Put(d)), i(int64(len(d))))
		},
		"retdata": func(s *SB, g *Gen) {
			s.Call(0, "getNumReturnData")
			s.trace(0)
			id := i(int64(g.n(0, 3, "id")))
			s.Call(0, "getReturnDataSize", id)
			s.trace(0)
			at := s.out(64)
			if g.chance(50, "read") {
				s.SkipNE(0, 0, func(b *Script) {}) // no effect; keeps the step shape
			}
			s.Call(0, "getReturnData", id, i(at))
			s.trace(0)
			s.traceM(at, 32)
		},
		"err": func(s *SB, g *Gen) {
			m := g.Bytes(0, 8, "msg")
			s.Call(0, "signalError", i(s.Put(m)), i(int64(len(m))))
		},
		"trap": func(s *SB, g *Gen) { s.Trap() },
		"grow": func(s *SB, g *Gen) { s.Grow(0, uint32(g.n(0, 3, "pages"))); s.trace(0) },
		"burn": func(s *SB, g *Gen) { // a lot of gas
			for k := g.n(1, 5, "k"); k > 0; k-- {
				s.Call(0, "finish", i(0x20000), i(int64(g.n(0, 30000, "n"))))
			}
		},
		"transfer": func(s *SB, g *Gen) {
			d := []byte{}
			if g.chance(40, "data") {
				d = g.Bytes(1, 10, "data")
			}
			s.Call(0, "transferValue", i(s.Put(s.account())), i(s.Put(s.amount())), i(s.Put(d)), i(int64(len(d))))
			s.trace(0)
		},
		"tve": func(s *SB, g *Gen) {
			dest := s.account()
			fn, args := "", [][]byte(nil)
			gas := i(0)
			if IsSC(dest) {
				fn, args = s.callee(dest)
				if ShardOf(dest) == 0 {
					gas = s.gas()
				}
			}
			if gas.V == 0 && !gas.Reg && g.chance(15, "forward gas") {
				gas = i(int64(g.n(1, 1<<20, "forwarded")))
			}
			n, l, a := s.PutArgs(args)
			s.Call(0, "transferValueExecute", i(s.Put(dest)), i(s.Put(s.amount())), gas, i(s.Put([]byte(fn))),
				i(int64(len(fn))), i(n), i(l), i(a))
			s.trace(0)
		},
		"dest":     callStep("executeOnDestContext", true),
		"caller":   callStep("executeOnDestContextByCaller", true),
		"same":     callStep("executeOnSameContext", true),
		"delegate": callStep("delegateExecution", false),
		"readonly": callStep("executeReadOnly", false),
		"create": func(s *SB, g *Gen) {
			code := Puppet()
			if g.chance(15, "bad code") {
				code = g.Bytes(0, 40, "code")
			}
			args := g.initArgs(s)
			n, l, a := s.PutArgs(args)
			at := s.out(32)
			s.Call(0, "createContract", s.gas(), i(s.Put(s.amount())), i(s.Put(code)), i(s.Put(g.meta())), i(int64(len(code))),
				i(at), i(n), i(l), i(a))
			s.trace(0)
			s.traceM(at, 32)
			s.maybeUse(at)
		},
		"createFrom": func(s *SB, g *Gen) {
			args := g.initArgs(s)
			n, l, a := s.PutArgs(args)
			at := s.out(32)
			s.Call(0, "deployFromSourceContract", s.gas(), i(s.Put(s.amount())), i(s.Put(s.contract())), i(s.Put(g.meta())),
				i(at), i(n), i(l), i(a))
			s.trace(0)
			s.traceM(at, 32)
			s.maybeUse(at)
		},
		"upgrade": func(s *SB, g *Gen) {
			n, l, a := s.PutArgs(g.initArgs(s))
			gas := s.gas()
			dest := i(s.Put(s.contract()))
			v := i(s.Put(s.amount()))
			if g.chance(50, "source") {
				s.Call(0, "upgradeFromSourceContract", dest, gas, v, i(s.Put(s.contract())), i(s.Put(g.meta())), i(n), i(l), i(a))
			} else {
				code := PuppetPadded(g.n(0, 50, "pad"))
				if g.chance(15, "bad code") {
					code = g.Bytes(0, 40, "code")
				}
				s.Call(0, "upgradeContract", dest, gas, v, i(s.Put(code)), i(s.Put(g.meta())), i(int64(len(code))), i(n), i(l), i(a))
			}
		},
		"async": func(s *SB, g *Gen) {
			dest := s.contract()
			if g.chance(15, "away") {
				dest = pick(g, g.Foreign, "foreign")
			}
			fn, args := s.callee(dest)
			d := hexArgs([]byte(fn), args)
			if g.chance(4, "bad data") {
				d = g.Bytes(0, 6, "data")
			}
			s.Call(0, "asyncCall", i(s.Put(dest)), i(s.Put(s.amount())), i(s.Put(d)), i(int64(len(d))))
		},
		"hash": func(s *SB, g *Gen) {
			d := g.Bytes(0, 20, "data")
			at := s.out(32)
			s.Call(0, pick(g, []string{"sha256", "keccak256", "ripemd160"}, "fn"), i(s.Put(d)), i(int64(len(d))), i(at))
			s.trace(0)
			s.traceM(at, 32)
		},
		"big":    bigStep,
		"bigset": bigSet,
	}
}

// maybeUse calls a contract just created.
func (s *SB) maybeUse(at int64) {
	g := s.G
	if s.Depth >= g.MaxDepth || !g.chance(40, "use") {
		return
	}
	fn := "run"
	args := [][]byte{g.Script(make([]byte, 32), s.Depth+1)}
	n, l, a := s.PutArgs(args)
	v, f, gas := s.Put(s.amount()), s.Put([]byte(fn)), s.gas()
	s.SkipNE(0, 0, func(b *Script) {
		b.Call(2, "executeOnDestContext", gas, i(at), i(v), i(f), i(int64(len(fn))), i(n), i(l), i(a))
	})
	s.trace(2)
}

func (g *Gen) initArgs(s *SB) [][]byte {
	switch g.even(3, "init") {
	case 0:
		return nil
	}
	return append([][]byte{g.Script(make([]byte, 32), s.Depth+1)}, g.extraArgs()...)
}

func (g *Gen) meta() []byte {
	m := &vmcommon.CodeMetadata{Payable: g.chance(50, "payable"), Upgradeable: g.chance(50, "upgradeable"), Readable: g.chance(50, "readable")}
	b := m.ToBytes()
	if g.chance(10, "odd meta") {
		b = g.Bytes(2, 2, "meta")
	}
	return b
}

func callStep(fn string, value bool) func(s *SB, g *Gen) {
	return func(s *SB, g *Gen) {
		dest := s.contract()
		name, args := s.callee(dest)
		n, l, a := s.PutArgs(args)
		gas := s.gas()
		d := i(s.Put(dest))
		f := i(s.Put([]byte(name)))
		if value {
			s.Call(0, fn, gas, d, i(s.Put(s.amount())), f, i(int64(len(name))), i(n), i(l), i(a))
		} else {
			s.Call(0, fn, gas, d, f, i(int64(len(name))), i(n), i(l), i(a))
		}
		s.trace(0)
	}
}

// small draws a 64-bit integer, with a liking for edges.
func (g *Gen) small() uint64 {
	switch g.even(5, "small") {
	case 0:
		return uint64(int64(g.n(-300, 300, "v")))
	case 1:
		b := uint(g.n(0, 63, "bit"))
		return (uint64(1) << b) + uint64(int64(g.n(-2, 2, "d")))
	case 2:
		return math.MaxUint64 - (uint64(1) << uint(g.n(0, 63, "bit"))) + uint64(int64(g.n(-2, 2, "d")))
	}
	return rapid.Uint64().Draw(g.T, "v")
}

// ---- rendering

// Disasm renders a script.
func Disasm(b []byte) string {
	var out []string
	p := 0
	bad := func() string { return strings.Join(append(out, "?"+hex.EncodeToString(b[p:])), "; ") }
	for p < len(b) {
		op := b[p]
		p++
		need := func(n int) bool { return p+n <= len(b) }
		u32 := func() uint32 { v := binary.LittleEndian.Uint32(b[p:]); p += 4; return v }
		u64 := func() uint64 { v := binary.LittleEndian.Uint64(b[p:]); p += 8; return v }
		switch op {
		case 0:
			out = append(out, "end")
		case 1:
			if !need(8) {
				return bad()
			}
			d, n := u32(), int(u32())
			if !need(n) {
				return bad()
			}
			x := b[p : p+n]
			p += n
			shown := fmt.Sprintf("%x", x)
			if n > 4 && bytes.Count(x, x[:1]) == n {
				shown = fmt.Sprintf("%x*%d", x[0], n)
			} else if inner := Disasm(x); n > 10 && x[0] != 0 && !strings.Contains(inner, "?") {
				shown = "{" + inner + "}"
			} else if n > 200 {
				shown = fmt.Sprintf("%x…(%d)", x[:40], n)
			}
			out = append(out, fmt.Sprintf("[%x]=%s", d, shown))
		case 2:
			if !need(2) || int(b[p]) >= len(Fns) {
				return bad()
			}
			fn := Fns[b[p]]
			dst := b[p+1]
			p += 2
			if !need(9 * len(fn.Args)) {
				return bad()
			}
			var as []string
			for range fn.Args {
				k := b[p]
				p++
				v := u64()
				if k != 0 {
					as = append(as, fmt.Sprintf("r%d", v))
				} else if v > 0x1000 && v < 1<<40 {
					as = append(as, fmt.Sprintf("%#x", v))
				} else {
					as = append(as, fmt.Sprintf("%d", int64(v)))
				}
			}
			out = append(out, fmt.Sprintf("r%d=%s(%s)", dst, fn.Name, strings.Join(as, ",")))
		case 3:
			if !need(1) {
				return bad()
			}
			out = append(out, fmt.Sprintf("trace r%d", b[p]))
			p++
		case 4:
			if !need(8) {
				return bad()
			}
			out = append(out, fmt.Sprintf("trace [%x]+%d", u32(), u32()))
		case 5:
			out = append(out, "flush")
		case 6:
			if !need(13) {
				return bad()
			}
			r := b[p]
			p++
			out = append(out, fmt.Sprintf("if r%d!=%d skip %d", r, u64(), u32()))
		case 7:
			if !need(8) {
				return bad()
			}
			out = append(out, fmt.Sprintf("spin %d", u64()))
		case 8:
			out = append(out, "trap")
		case 9:
			if !need(5) {
				return bad()
			}
			r := b[p]
			p++
			out = append(out, fmt.Sprintf("r%d=grow %d", r, u32()))
		case 10, 11:
			if !need(5) {
				return bad()
			}
			r := b[p]
			p++
			if op == 10 {
				out = append(out, fmt.Sprintf("r%d=[%x]", r, u32()))
			} else {
				out = append(out, fmt.Sprintf("[%x]=r%d", u32(), r))
			}
		case 12:
			if !need(9) {
				return bad()
			}
			r := b[p]
			p++
			out = append(out, fmt.Sprintf("r%d+=%d", r, u64()))
		case 13:
			if !need(5) {
				return bad()
			}
			a := u32()
			out = append(out, fmt.Sprintf("trace [%x]+r%d", a, b[p]))
			p++
		default:
			p--
			return bad()
		}
	}
	return strings.Join(out, "; ")
}

// Tx draws a transaction. Gas is plentiful.
func (g *Gen) Tx() *Tx {
	in := vmcommon.VMInput{CallerAddr: g.Users[g.n(0, 1, "caller")], CallValue: big.NewInt(0), GasProvided: 1 << 36, GasPrice: 1,
		OriginalTxHash: []byte("original-transaction-hash-01234.")[:32], CurrentTxHash: []byte("the-current-transaction-hash-012")[:32],
		PrevTxHash: []byte("previous-transaction-hash-01234.")[:32]}
	if g.chance(40, "value") {
		v := int64(g.n(0, 1000, "callvalue"))
		if b := g.W.Accs[string(in.CallerAddr)].Balance; b.IsInt64() && b.Int64() < v {
			v = b.Int64()
		}
		in.CallValue = big.NewInt(v)
	}
	dest := g.Contracts[g.n(0, len(g.Contracts)-1, "recipient")]
	fn := pick(g, []string{"run", "run", "run", "run", "alt", "stored"}, "function")
	if g.chance(8, "async transaction") {
		in.CallType = vmcommon.AsynchronousCall
		in.CallerAddr = g.Foreign[1]
	}
	if fn != "stored" {
		in.Arguments = append(in.Arguments, g.Script(dest, 0))
	}
	in.Arguments = append(in.Arguments, g.extraArgs()...)
	if g.W.Tok != nil && g.chance(40, "with token") {
		t := pick(g, tokenKinds, "token")
		x := &vmcommon.ESDTTransfer{ESDTTokenName: []byte(t.name), ESDTTokenNonce: t.nonce, ESDTValue: big.NewInt(int64(g.n(0, 50, "quantity")))}
		if t.nonce > 0 {
			x.ESDTTokenType = uint32(vmcommon.NonFungible)
		}
		in.ESDTTransfers = []*vmcommon.ESDTTransfer{x}
	}
	return &Tx{Call: &vmcommon.ContractCallInput{VMInput: in, RecipientAddr: dest, Function: fn}}
}

// AnyTx draws a transaction of any kind.
func (g *Gen) AnyTx() *Tx {
	k := g.even(100, "kind of transaction")
	if k < 70 {
		return g.Tx()
	}
	tx := g.Tx()
	in := tx.Call.VMInput
	in.CallType = vmcommon.DirectCall
	in.CallerAddr = g.Users[g.n(0, 1, "caller")]
	if b := g.W.Accs[string(in.CallerAddr)].Balance; b.Cmp(in.CallValue) < 0 {
		in.CallValue = new(big.Int).Set(b)
	}
	switch {
	case k < 82:
		in.Arguments = g.directInit(nil)
		c := &vmcommon.ContractCreateInput{VMInput: in, ContractCode: PuppetPadded(g.n(0, 60, "pad")), ContractCodeMetadata: g.meta()}
		switch {
		case g.chance(10, "no init"):
			c.ContractCode = without(c.ContractCode, "init")
		case g.chance(8, "bad code"):
			c.ContractCode = g.Bytes(0, 40, "code")
		}
		return &Tx{Create: c}
	case k < 88:
		dest := pick(g, g.Contracts, "dest")
		code := PuppetPadded(g.n(0, 60, "pad"))
		if g.chance(8, "bad code") {
			code = g.Bytes(0, 40, "code")
		}
		in.Arguments = append([][]byte{code, g.meta()}, g.directInit(dest)...)
		if g.chance(5, "few arguments") {
			in.Arguments = in.Arguments[:g.n(0, 1, "arguments")]
		}
		return &Tx{Call: &vmcommon.ContractCallInput{VMInput: in, RecipientAddr: dest, Function: "upgradeContract"}}
	case k < 95:
		dest := pick(g, g.Contracts, "dest")
		in.CallType = vmcommon.AsynchronousCallBack
		in.CallerAddr = pick(g, g.Foreign, "answering")
		in.GasLocked = uint64(g.n(0, 1<<20, "locked"))
		in.Arguments = append([][]byte{{}}, g.extraArgs()...)
		return &Tx{Call: &vmcommon.ContractCallInput{VMInput: in, RecipientAddr: dest, Function: "callBack"}}
	}
	tx.Call.VMInput = in
	switch g.even(4, "odd") {
	case 0:
		tx.Call.Function = pick(g, []string{"init", "callBack", "solidity.ctor", "", "nosuch", "memory"}, "function")
	case 1:
		tx.Call.RecipientAddr = Address(true, 7, 0) // an account without code
	case 2:
		tx.Call.RecipientAddr = Address(true, 77, 0) // no account
	case 3:
		tx.Call.Function = "nop"
	}
	return tx
}

func (g *Gen) directInit(self []byte) [][]byte {
	if g.chance(20, "no arguments") {
		return nil
	}
	if self == nil {
		self = make([]byte, 32)
	}
	return append([][]byte{g.Script(self, 0)}, g.extraArgs()...)
}

// CutGas lowers the gas of a transaction to somewhere near what it needs, or
// below, given what it left over when it had plenty.
func (g *Gen) CutGas(tx *Tx, r Result) {
	in := tx.In()
	used := uint64(1) << 17
	if r.Err == nil && r.Remaining < in.GasProvided {
		used = in.GasProvided - r.Remaining
	}
	switch g.even(4, "cut") {
	case 0:
		in.GasProvided = used + uint64(g.n(-2, 2, "around"))
	case 1:
		in.GasProvided = used*uint64(g.n(50, 150, "percent"))/100 + 1
	case 2:
		in.GasProvided = used * uint64(g.n(0, 1000, "permille")) / 1000
	case 3:
		in.GasProvided = uint64(g.n(0, 1<<21, "gas"))
	}
	if in.GasProvided > 1<<40 {
		in.GasProvided = 1 << 36
	}
}
