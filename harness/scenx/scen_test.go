//go:build go1.21

// Package scenx checks that scenarios pass exactly when their expectations match what happened.
package scenx

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwenmandos"
	fr "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mandos-go/fileresolver"
	mj "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mandos-go/json/model"
	mjparse "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mandos-go/json/parse"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/zzverif/pup"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/zzverif/vh"
	vmcommon "github.com/ElrondNetwork/elrond-vm-common"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { vh.Main(m) }

// ---------------------------------------------------------------- JSON text

type node struct {
	kind string // "s", "o", "l"
	s    string
	keys []string
	kids []*node
}

func str(s string) *node { return &node{kind: "s", s: s} }
func obj() *node         { return &node{kind: "o"} }
func list(kids ...*node) *node {
	return &node{kind: "l", kids: kids}
}

func (n *node) put(k string, v *node) *node {
	n.keys = append(n.keys, k)
	n.kids = append(n.kids, v)
	return v
}

func (n *node) drop(k string) bool {
	for i, x := range n.keys {
		if x == k {
			n.keys = append(append([]string{}, n.keys[:i]...), n.keys[i+1:]...)
			n.kids = append(append([]*node{}, n.kids[:i]...), n.kids[i+1:]...)
			return true
		}
	}
	return false
}

func (n *node) get(k string) *node {
	for i, x := range n.keys {
		if x == k {
			return n.kids[i]
		}
	}
	return nil
}

func (n *node) clone() *node {
	c := &node{kind: n.kind, s: n.s, keys: append([]string{}, n.keys...)}
	for _, k := range n.kids {
		c.kids = append(c.kids, k.clone())
	}
	return c
}

func (n *node) set(o *node) { *n = *o }

func quote(b *strings.Builder, s string) {
	b.WriteByte('"')
	b.WriteString(s)
	b.WriteByte('"')
}

func (n *node) text(b *strings.Builder, ind string) {
	switch n.kind {
	case "s":
		quote(b, n.s)
	case "l":
		b.WriteString("[")
		for i, k := range n.kids {
			if i > 0 {
				b.WriteString(", ")
			}
			k.text(b, ind)
		}
		b.WriteString("]")
	default:
		b.WriteString("{")
		for i, k := range n.kids {
			if i > 0 {
				b.WriteString(",")
			}
			b.WriteString("\n" + ind + " ")
			quote(b, n.keys[i])
			b.WriteString(": ")
			k.text(b, ind+" ")
		}
		b.WriteString("}")
	}
}

func (n *node) String() string {
	var b strings.Builder
	n.text(&b, "")
	return b.String()
}

func hx(b []byte) string {
	if len(b) == 0 {
		return ""
	}
	return "0x" + hex.EncodeToString(b)
}

func plain(b []byte) bool {
	for _, c := range b {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '-' || c == ' ' || c == '(' || c == ')') {
			return false
		}
	}
	return true
}

// ---------------------------------------------------------------- the model of the world

type inst struct {
	nonce, royalties uint64
	bal              *big.Int
	creator, hash    []byte
	uri, attrs       []byte
}

type token struct {
	insts     map[uint64]*inst
	lastNonce uint64
	roles     []string
	frozen    bool
}

type acct struct {
	addr    []byte
	nonce   uint64
	bal     *big.Int
	user    []byte
	storage map[string][]byte
	code    string // file name
	owner   []byte
	async   string
	toks    map[string]*token
}

type block struct {
	time, nonce, round, epoch uint64
	seed                      []byte
}

type world struct {
	accts     map[string]*acct
	cur, prev *block
	hashes    [][]byte
}

func (a *acct) clone() *acct {
	c := *a
	c.bal = new(big.Int).Set(a.bal)
	c.storage = map[string][]byte{}
	for k, v := range a.storage {
		c.storage[k] = v
	}
	c.toks = map[string]*token{}
	for n, t := range a.toks {
		nt := *t
		nt.insts = map[uint64]*inst{}
		for k, i := range t.insts {
			ni := *i
			ni.bal = new(big.Int).Set(i.bal)
			nt.insts[k] = &ni
		}
		c.toks[n] = &nt
	}
	return &c
}

func (w *world) clone() *world {
	c := *w
	c.accts = map[string]*acct{}
	for k, a := range w.accts {
		c.accts[k] = a.clone()
	}
	return &c
}

func (w *world) at(addr []byte) *acct {
	a := w.accts[string(addr)]
	if a == nil {
		a = newAcct(addr)
		w.accts[string(addr)] = a
	}
	return a
}

func newAcct(addr []byte) *acct {
	return &acct{addr: addr, bal: new(big.Int), storage: map[string][]byte{}, toks: map[string]*token{}}
}

func (w *world) order() []*acct {
	var ks []string
	for k := range w.accts {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var as []*acct
	for _, k := range ks {
		as = append(as, w.accts[k])
	}
	return as
}

// ---------------------------------------------------------------- generator

type change struct {
	what string
	do   func() // alters the document so that it must fail
}

type gen struct {
	t       *rapid.T
	w       *world
	steps   []*node
	txs     []*node // the "expect" objects, per step (nil when none)
	learn   map[int]*vmcommon.VMOutput
	users   [][]byte
	scs     [][]byte
	nobody  [][]byte
	mocks   map[string][]byte
	gas     uint64
	nosteps int
	kinds   map[string]int
}

func (g *gen) n(lo, hi int, what string) int { return rapid.IntRange(lo, hi).Draw(g.t, what) }
func (g *gen) even(n int, what string) int {
	return int(rapid.Uint64().Draw(g.t, what) % uint64(n))
}
func (g *gen) chance(p int, what string) bool { return g.even(100, what) < p }
func (g *gen) bytes(lo, hi int, what string) []byte {
	return rapid.SliceOfN(rapid.Byte(), lo, hi).Draw(g.t, what)
}
func (g *gen) pick(from [][]byte, what string) []byte { return from[g.even(len(from), what)] }

func userAddr(i int) []byte {
	b := bytes.Repeat([]byte{byte('a' + i)}, 32)
	b[1] = byte(i)
	return b
}

func scAddr(i int) []byte {
	b := make([]byte, 32)
	for j := 10; j < 32; j++ {
		b[j] = byte(0xA0 + i)
	}
	b[31] = byte(i)
	return b
}

// raw is how bytes are written in the document.
func (g *gen) raw(b []byte) *node {
	if len(b) > 0 && plain(b) && g.chance(40, "as text") {
		return str("str:" + string(b))
	}
	return str(hx(b))
}

func (g *gen) num(v *big.Int) *node {
	if v.Sign() >= 0 && g.chance(25, "hex number") {
		if v.Sign() == 0 {
			return str("0x00")
		}
		return str(hx(v.Bytes()))
	}
	return str(v.String())
}

func (g *gen) unum(v uint64) *node { return g.num(new(big.Int).SetUint64(v)) }

var tokenNames = []string{"TOK-1", "NFT-a"}

func (g *gen) amount() *big.Int {
	switch g.even(4, "amount") {
	case 0:
		return big.NewInt(int64(g.n(0, 5, "small")))
	case 1:
		return new(big.Int).SetBytes(g.bytes(1, 3, "mid"))
	case 2:
		return new(big.Int).SetBytes(g.bytes(8, 10, "large"))
	}
	return big.NewInt(int64(g.n(1000, 2000000, "usual")))
}

func (g *gen) genTokens(a *acct) *node {
	o := obj()
	for _, name := range tokenNames {
		if g.chance(50, "token") {
			continue
		}
		t := &token{insts: map[uint64]*inst{}}
		a.toks[name] = t
		nft := name == "NFT-a"
		if !nft && g.chance(40, "compact") {
			v := g.amount()
			t.insts[0] = &inst{bal: v}
			o.put("str:"+name, g.num(v))
			continue
		}
		e := obj()
		one := func(n uint64) *node {
			i := &inst{nonce: n, bal: g.amount()}
			x := obj()
			if n > 0 || g.chance(50, "say nonce") {
				x.put("nonce", g.unum(n))
			}
			if !g.chance(10, "no balance") {
				x.put("balance", g.num(i.bal))
			} else {
				i.bal = new(big.Int)
			}
			if n > 0 {
				if g.chance(60, "creator") {
					i.creator = g.pick(g.users, "creator")
					x.put("creator", g.raw(i.creator))
				}
				if g.chance(60, "royalties") {
					i.royalties = uint64(g.n(0, 10000, "royalties"))
					x.put("royalties", g.unum(i.royalties))
				}
				if g.chance(60, "hash") {
					i.hash = g.bytes(0, 8, "hash")
					x.put("hash", g.raw(i.hash))
				}
				if g.chance(60, "uri") {
					i.uri = g.bytes(0, 8, "uri")
					x.put("uri", g.raw(i.uri))
				}
				if g.chance(60, "attrs") {
					i.attrs = g.bytes(0, 8, "attrs")
					x.put("attributes", g.raw(i.attrs))
				}
			}
			t.insts[n] = i
			return x
		}
		if nft {
			var is []*node
			n := uint64(0)
			for k := g.n(0, 3, "instances"); k > 0; k-- {
				n += uint64(g.n(1, 300, "step"))
				is = append(is, one(n))
			}
			e.put("instances", list(is...))
		} else {
			x := one(0)
			for i, k := range x.keys {
				e.put(k, x.kids[i])
			}
		}
		if g.chance(50, "lastNonce") {
			t.lastNonce = rapid.Uint64().Draw(g.t, "lastNonce")
			e.put("lastNonce", g.unum(t.lastNonce))
		}
		if g.chance(40, "roles") {
			var rs []*node
			for _, r := range []string{"ESDTRoleLocalMint", "ESDTRoleLocalBurn", "ESDTRoleNFTCreate"} {
				if g.chance(50, "role") {
					t.roles = append(t.roles, r)
					rs = append(rs, str(r))
				}
			}
			e.put("roles", list(rs...))
		}
		if g.chance(20, "frozen") {
			t.frozen = g.chance(60, "frozen on")
			if t.frozen {
				e.put("frozen", str("true"))
			} else {
				e.put("frozen", str("false"))
			}
		}
		o.put("str:"+name, e)
	}
	return o
}

func (g *gen) genAccount(addr []byte, sc bool) *node {
	a := newAcct(addr)
	o := obj()
	if g.chance(70, "nonce") {
		a.nonce = uint64(g.n(0, 300, "nonce"))
		if g.chance(10, "big nonce") {
			a.nonce = rapid.Uint64Max(1<<63).Draw(g.t, "nonce")
		}
		o.put("nonce", g.unum(a.nonce))
	}
	if !sc || g.chance(80, "balance") {
		a.bal = g.amount()
		if !sc && g.chance(80, "rich") {
			a.bal.Add(a.bal, new(big.Int).Lsh(big.NewInt(1), 70))
		}
		o.put("balance", g.num(a.bal))
	}
	if g.chance(30, "username") {
		a.user = g.bytes(0, 6, "username")
		o.put("username", g.raw(a.user))
	}
	if g.chance(60, "storage") {
		st := o.put("storage", obj())
		for k := g.n(0, 3, "entries"); k > 0; k-- {
			key, val := g.key(), g.bytes(0, 6, "value")
			if st.get(hx(key)) != nil {
				continue
			}
			a.storage[string(key)] = val
			st.put(hx(key), g.raw(val))
		}
	}
	if g.chance(60, "tokens") {
		o.put("esdt", g.genTokens(a))
	}
	if sc {
		a.code = "puppet.wasm"
		o.put("code", str("file:"+a.code))
		if g.chance(60, "owner") {
			a.owner = g.pick(g.users, "owner")
			o.put("owner", g.raw(a.owner))
		}
	}
	if g.chance(15, "async") {
		a.async = string(rapid.SliceOfN(rapid.SampledFrom([]byte("abc@01")), 1, 6).Draw(g.t, "async"))
		o.put("asyncCallData", str(a.async))
	}
	g.w.accts[string(addr)] = a
	return o
}

func (g *gen) key() []byte {
	return []byte(rapid.SampledFrom([]string{"k1", "k2", "k3", "\x00\x01", "a"}).Draw(g.t, "key"))
}

func (g *gen) genBlock() (*block, *node) {
	b, o := &block{seed: make([]byte, 48)}, obj()
	f := func(name string, p *uint64, max uint64) {
		if g.chance(70, name) {
			*p = rapid.Uint64Max(max).Draw(g.t, name)
			o.put(name, g.unum(*p))
		}
	}
	f("blockTimestamp", &b.time, 1<<62)
	f("blockNonce", &b.nonce, 100)
	f("blockRound", &b.round, 1<<62)
	f("blockEpoch", &b.epoch, 1<<31-1)
	if g.chance(50, "seed") {
		b.seed = g.bytes(48, 48, "seed")
		o.put("blockRandomSeed", g.raw(b.seed))
	}
	return b, o
}

func (g *gen) add(kind string, o *node) *node {
	s := obj()
	s.put("step", str(kind))
	for i, k := range o.keys {
		s.put(k, o.kids[i])
	}
	g.steps = append(g.steps, s)
	g.kinds[kind]++
	return s
}

func (g *gen) setState(first bool) {
	o := obj()
	accts := obj()
	if first {
		for i := 0; i < 2; i++ {
			g.users = append(g.users, userAddr(i))
		}
		for i := 0; i < g.n(1, 2, "contracts"); i++ {
			g.scs = append(g.scs, scAddr(i))
		}
		g.nobody = [][]byte{userAddr(9), scAddr(9)}
		for _, u := range g.users {
			accts.put(hx(u), g.genAccount(u, false))
		}
		for _, s := range g.scs {
			accts.put(hx(s), g.genAccount(s, true))
		}
	} else if g.chance(70, "replace") {
		if g.chance(50, "user") {
			u := g.pick(append(append([][]byte{}, g.users...), userAddr(5)), "who")
			accts.put(hx(u), g.genAccount(u, false))
		} else {
			s := g.pick(g.scs, "who")
			accts.put(hx(s), g.genAccount(s, true))
		}
	}
	if len(accts.keys) > 0 || g.chance(50, "empty accounts") {
		o.put("accounts", accts)
	}
	g.w.cur, g.w.prev, g.w.hashes = nil, nil, nil
	if g.chance(60, "prev") {
		b, n := g.genBlock()
		g.w.prev = b
		o.put("previousBlockInfo", n)
	}
	if g.chance(75, "cur") {
		b, n := g.genBlock()
		g.w.cur = b
		o.put("currentBlockInfo", n)
	}
	if g.chance(50, "hashes") {
		l := list()
		for k := g.n(0, 3, "hashes"); k > 0; k-- {
			h := g.bytes(32, 32, "hash")
			g.w.hashes = append(g.w.hashes, h)
			l.kids = append(l.kids, g.raw(h))
		}
		o.put("blockHashes", l)
	}
	if g.chance(50, "mocks") {
		l := list()
		for k := g.n(1, 3, "mocks"); k > 0; k-- {
			u := g.pick(g.users, "creator")
			nonce := g.w.at(u).nonce + uint64(g.n(0, 3, "ahead"))
			id := fmt.Sprintf("%x:%d", u, nonce)
			if g.mocks[id] != nil {
				continue
			}
			to := scAddr(20 + len(g.mocks))
			g.mocks[id] = to
			e := obj()
			e.put("creatorAddress", g.raw(u))
			e.put("creatorNonce", g.unum(nonce))
			e.put("newAddress", g.raw(to))
			l.kids = append(l.kids, e)
		}
		o.put("newAddresses", l)
	}
	g.add("setState", o)
}

// ---------------------------------------------------------------- scripts

type script struct {
	pup.Script
	at uint32
}

func (s *script) place(b []byte) pup.Val {
	at := s.at
	if len(b) > 0 {
		s.Data(at, b)
	}
	s.at += uint32(len(b)+7) &^ 7
	return pup.U(uint64(at))
}

func le(v uint64) []byte { return binary.LittleEndian.AppendUint64(nil, v) }

func word(v *big.Int) []byte {
	b := make([]byte, 32)
	v.FillBytes(b)
	return b
}

// result is what the model says a transaction does.
type result struct {
	status  int
	message string
	out     [][]byte
	logs    []mlog
}

type mlog struct {
	addr, ident, data []byte
	topics            [][]byte
}

// body writes a script for the contract at self and says what it does to w.
func (g *gen) body(w *world, self, caller []byte, value *big.Int, fn, txid string, query bool, esdt *xfer) (sc []byte, r result) {
	s := &script{at: 0x20000}
	var traced []byte
	first := map[string]bool{}
	ops := g.n(1, 5, "ops")
	for k := 0; k < ops; k++ {
		kind := []string{"witness", "witness", "store", "store", "log", "finish", "transfer", "erase", "smallfinish", "release"}[g.even(10, "op")]
		if query && (kind == "store" || kind == "erase" || kind == "transfer" || kind == "release") {
			kind = "witness"
		}
		a := w.at(self)
		switch kind {
		case "store", "erase", "release":
			key, val := g.key(), g.bytes(1, 6, "value")
			if kind != "store" {
				val = nil
			}
			s.Call(0, "storageStore", s.place(key), pup.I(int64(len(key))), s.place(val), pup.I(int64(len(val))))
			a.storage[string(key)] = val
		case "log":
			var tops [][]byte
			var lens, all []byte
			for j := g.n(0, 3, "topics"); j > 0; j-- {
				b := g.bytes(0, 5, "topic")
				tops = append(tops, b)
				lens = binary.LittleEndian.AppendUint32(lens, uint32(len(b)))
				all = append(all, b...)
			}
			d := g.bytes(0, 5, "data")
			s.Call(0, "writeEventLog", pup.I(int64(len(tops))), s.place(lens), s.place(all), s.place(d), pup.I(int64(len(d))))
			l := mlog{addr: self, data: d}
			if len(tops) > 0 {
				l.ident, l.topics = tops[0], tops[1:]
			}
			r.logs = append(r.logs, l)
		case "finish":
			b := g.bytes(0, 6, "ret")
			s.Call(0, "finish", s.place(b), pup.I(int64(len(b))))
			r.out = append(r.out, b)
		case "smallfinish":
			v := uint64(g.n(0, 70000, "v"))
			s.Call(0, "smallIntFinishUnsigned", pup.U(v))
			r.out = append(r.out, new(big.Int).SetUint64(v).Bytes())
		case "transfer":
			if a.bal.Sign() == 0 {
				continue
			}
			to := g.pick(append(append([][]byte{}, g.users...), g.nobody[0]), "to")
			v := new(big.Int).SetUint64(uint64(g.n(0, 50, "v")))
			if v.Cmp(a.bal) > 0 {
				v.Set(a.bal)
			}
			d := rapid.SliceOfN(rapid.SampledFrom([]byte("xyz")), 0, 4).Draw(g.t, "data")
			s.Call(0, "transferValue", s.place(to), s.place(word(v)), s.place(d), pup.I(int64(len(d))))
			a.bal.Sub(a.bal, v)
			b := w.at(to)
			b.bal.Add(b.bal, v)
			if !first[string(to)] {
				first[string(to)] = true
				if len(d) > 0 {
					b.async = string(d)
				}
			}
		case "witness":
			room := s.at
			s.at += 64
			p := pup.U(uint64(room))
			mem := func(b []byte, n int) {
				traced = append(traced, append(append([]byte{}, b...), make([]byte, n-len(b))...)...)
				s.TraceM(room, uint32(n))
			}
			reg := func(v uint64) {
				traced = append(traced, le(v)...)
				s.Trace(0)
			}
			cur, prev := w.cur, w.prev
			if cur == nil {
				cur = &block{}
			}
			if prev == nil {
				prev = &block{}
			}
			switch g.even(17, "witness") {
			case 0:
				s.Call(0, "getCaller", p)
				mem(caller, 32)
			case 1:
				s.Call(0, "getCallValue", p)
				mem(word(value), 32)
			case 2:
				s.Call(0, "getFunction", p)
				mem([]byte(fn), 32)
			case 3:
				s.Call(0, "getSCAddress", p)
				mem(self, 32)
			case 4:
				s.Call(0, "getBlockTimestamp")
				reg(cur.time)
			case 5:
				s.Call(0, "getBlockNonce")
				reg(cur.nonce)
			case 6:
				s.Call(0, "getBlockRound")
				reg(cur.round)
			case 7:
				s.Call(0, "getBlockEpoch")
				reg(cur.epoch)
			case 8:
				s.Call(0, "getBlockRandomSeed", p)
				mem(cur.seed, 48)
			case 9:
				s.Call(0, []string{"getPrevBlockTimestamp", "getPrevBlockNonce", "getPrevBlockRound", "getPrevBlockEpoch"}[k%4])
				reg([]uint64{prev.time, prev.nonce, prev.round, prev.epoch}[k%4])
			case 10:
				s.Call(0, "getPrevBlockRandomSeed", p)
				mem(prev.seed, 48)
			case 11:
				s.Call(0, "getOriginalTxHash", p)
				h := txid
				for len(h) < 32 {
					h += "."
				}
				mem([]byte(h)[:32], 32)
			case 12:
				who := g.pick(append([][]byte{self, g.nobody[0]}, g.scs...), "whose")
				// asking for the balance of an unknown account creates it
				bal := w.at(who).bal
				s.Data(room, who)
				s.Call(0, "getExternalBalance", p, pup.U(uint64(room+32)))
				traced = append(traced, append(bal.Bytes(), make([]byte, 32-len(bal.Bytes()))...)...)
				s.TraceM(room+32, 32)
			case 13:
				who := g.pick(g.scs, "whose")
				key := g.key()
				v := w.at(who).storage[string(key)]
				s.Data(room, who)
				s.Call(0, "storageLoadFromAddress", p, s.place(key), pup.I(int64(len(key))), pup.U(uint64(room+32)))
				reg(uint64(len(v)))
				traced = append(traced, append(append([]byte{}, v...), make([]byte, 8-len(v))...)...)
				s.TraceM(room+32, 8)
			case 14:
				if w.cur == nil || len(w.hashes) == 0 {
					continue
				}
				back := uint64(g.even(len(w.hashes), "back"))
				if back > cur.nonce {
					continue
				}
				s.Call(0, "getBlockHash", pup.U(cur.nonce-back), p)
				mem(w.hashes[back], 32)
			case 15:
				name := tokenNames[g.even(2, "token")]
				who := g.pick(append([][]byte{self}, g.scs...), "whose")
				var nonce uint64
				bal := new(big.Int)
				if t := w.at(who).toks[name]; t != nil {
					for _, n := range sortedNonces(t) {
						nonce = n
						bal = t.insts[n].bal
					}
				}
				if fn == "" && bytes.Equal(who, self) {
					continue // the network does not know it yet
				}
				s.Data(room, who)
				s.Call(0, "getESDTBalance", p, s.place([]byte(name)), pup.I(int64(len(name))), pup.U(nonce), pup.U(uint64(room+32)))
				reg(uint64(len(bal.Bytes())))
				b := bal.Bytes()
				traced = append(traced, append(append([]byte{}, b...), make([]byte, 32-len(b))...)...)
				s.TraceM(room+32, 32)
			case 16:
				if esdt == nil {
					continue
				}
				s.Call(0, "getESDTValue", p)
				reg(32)
				s.TraceM(room, 32)
				traced = append(traced, word(esdt.value)...)
				s.Call(0, "getESDTTokenNonce")
				reg(esdt.nonce)
			}
		}
	}
	switch end := g.even(12, "ending"); {
	case end == 0:
		msg := rapid.SliceOfN(rapid.SampledFrom([]byte("abc de")), 1, 8).Draw(g.t, "message")
		if !plain(msg) || len(strings.TrimSpace(string(msg))) == 0 {
			msg = []byte("oops")
		}
		s.Call(0, "signalError", s.place(msg), pup.I(int64(len(msg))))
		r = result{status: int(vmcommon.UserError), message: string(msg)}
	case end == 1:
		s.Trap()
		r = result{status: int(vmcommon.ExecutionFailed), message: "execution failed"}
	case end == 2:
		s.Spin(0)
		r = result{status: int(vmcommon.OutOfGas), message: "not enough gas"}
	default:
		s.Flush()
		r.out = append(r.out, traced)
	}
	return s.B, r
}

func sortedNonces(t *token) []uint64 {
	var ns []uint64
	for n := range t.insts {
		ns = append(ns, n)
	}
	sort.Slice(ns, func(i, j int) bool { return ns[i] < ns[j] })
	return ns
}

type xfer struct {
	name  string
	nonce uint64
	value *big.Int
}

// moveToken applies a token transfer to the model.
func moveToken(w *world, from, to []byte, x *xfer) {
	f := w.at(from).toks[x.name]
	i := f.insts[x.nonce]
	i.bal.Sub(i.bal, x.value)
	a := w.at(to)
	t := a.toks[x.name]
	if t == nil {
		t = &token{insts: map[uint64]*inst{}}
		a.toks[x.name] = t
	}
	j := t.insts[x.nonce]
	if j == nil {
		c := *i
		c.bal = new(big.Int)
		j = &c
		t.insts[x.nonce] = j
	} else if j.bal.Sign() == 0 || x.nonce > 0 {
		c := *i
		c.bal = j.bal
		*j = c
	}
	j.bal.Add(j.bal, x.value)
}

func (g *gen) pickToken(from, to []byte) *xfer {
	a := g.w.at(from)
	for _, name := range tokenNames {
		t := a.toks[name]
		if t == nil || t.frozen || g.chance(30, "other token") {
			continue
		}
		if o := g.w.at(to).toks[name]; o != nil && o.frozen {
			continue
		}
		for _, n := range sortedNonces(t) {
			i := t.insts[n]
			if i.bal.Sign() == 0 || n > 0 && len(to) > 0 && g.chance(30, "other nonce") {
				continue
			}
			if o := g.w.at(to).toks[name]; n > 0 && o != nil && o.insts[n] != nil && !bytes.Equal(o.insts[n].hash, i.hash) {
				continue // a different token of the same name and nonce is refused
			}
			v := new(big.Int).SetUint64(uint64(g.n(1, 10, "tokens")))
			if v.Cmp(i.bal) > 0 || g.chance(20, "all") {
				v.Set(i.bal)
			}
			return &xfer{name, n, v}
		}
	}
	return nil
}

func (g *gen) tx() {
	id := fmt.Sprintf("tx-%d", len(g.steps))
	kind := []string{"scCall", "scCall", "scCall", "scCall", "scCall", "scDeploy", "scQuery", "transfer", "validatorReward"}[g.even(9, "kind")]
	o := obj()
	o.put("txId", str(id))
	tx := o.put("tx", obj())
	from := g.pick(g.users, "from")
	value := new(big.Int)
	gas, price := g.gas, uint64(0)
	if g.chance(30, "price") {
		price = uint64(g.n(1, 1000, "price"))
	}
	pay := func() { // what happens whatever the outcome
		a := g.w.at(from)
		a.nonce++
		a.bal.Sub(a.bal, new(big.Int).SetUint64(gas*price))
	}
	if kind != "scQuery" && kind != "validatorReward" {
		tx.put("from", g.raw(from))
		if new(big.Int).SetUint64(gas*price).Cmp(g.w.at(from).bal) > 0 {
			price = 0
		}
	}
	if kind != "scQuery" && g.chance(50, "value") {
		value = g.amount()
		if g.chance(70, "affordable") && kind != "validatorReward" {
			have := new(big.Int).Sub(g.w.at(from).bal, new(big.Int).SetUint64(gas*price))
			if value.Cmp(have) > 0 {
				value = have
			}
		}
	}
	w := g.w.clone()
	commit := func(r *result) {
		if r.status != 0 {
			r.out, r.logs = nil, nil
			return
		}
		g.w = w
	}
	var r result
	expect := true
	switch kind {
	case "transfer", "validatorReward":
		to := g.pick(append(append([][]byte{}, g.users...), g.scs...), "to")
		if kind == "transfer" && g.chance(30, "new account") {
			to = g.nobody[g.even(2, "nobody")]
		}
		tx.put("to", g.raw(to))
		tx.put("value", g.num(value))
		expect = false
		if kind == "validatorReward" {
			a := g.w.at(to)
			a.bal.Add(a.bal, value)
			total := new(big.Int).SetBytes(a.storage[arwenmandos.ElrondRewardKey])
			a.storage[arwenmandos.ElrondRewardKey] = total.Add(total, value).Bytes()
			break
		}
		if g.chance(60, "gas") {
			tx.put("gasPrice", g.unum(price))
			tx.put("gasLimit", g.unum(gas))
		} else {
			gas = 0
		}
		var esdt *xfer
		if g.w.accts[string(to)] != nil && gas > 0 && g.chance(40, "tokens") && !bytes.Equal(from, to) {
			esdt = g.pickToken(from, to)
		}
		pay()
		if g.w.at(from).bal.Cmp(value) < 0 {
			break
		}
		if esdt != nil {
			g.putESDT(tx, esdt)
			moveToken(g.w, from, to, esdt)
		}
		a := g.w.at(from)
		a.bal.Sub(a.bal, value)
		b := g.w.at(to)
		b.bal.Add(b.bal, value)
	case "scCall", "scQuery":
		to := g.pick(g.scs, "to")
		fn := []string{"run", "alt"}[g.even(2, "fn")]
		if g.chance(6, "unknown function") {
			fn = "nothing"
		}
		tx.put("to", g.raw(to))
		tx.put("function", str(fn))
		var esdt *xfer
		caller := to
		if kind == "scCall" {
			tx.put("value", g.num(value))
			tx.put("gasPrice", g.unum(price))
			tx.put("gasLimit", g.unum(gas))
			caller = from
			if g.chance(35, "tokens") {
				esdt = g.pickToken(from, to)
			}
			pay()
			w = g.w.clone()
			if esdt != nil {
				g.putESDT(tx, esdt)
				moveToken(w, from, to, esdt)
			}
			b := w.at(to)
			b.bal.Add(b.bal, value)
		}
		var sc []byte
		sc, r = g.body(w, to, caller, value, fn, id, kind == "scQuery", esdt)
		args := list(g.raw(sc))
		tx.put("arguments", args)
		if fn == "nothing" {
			r = result{status: int(vmcommon.FunctionNotFound), message: "invalid function (not found)"}
		}
		if kind == "scQuery" && r.status == int(vmcommon.OutOfGas) {
			return // a query never runs out of gas
		}
		if kind == "scCall" {
			if g.w.at(from).bal.Cmp(value) < 0 { // whatever the contract sends back
				r = result{status: int(vmcommon.OutOfFunds)}
			}
			a := w.at(from)
			a.bal.Sub(a.bal, value)
		}
		commit(&r)
	case "scDeploy":
		tx.put("value", g.num(value))
		tx.put("gasPrice", g.unum(price))
		tx.put("gasLimit", g.unum(gas))
		tx.put("contractCode", str("file:puppet.wasm"))
		nonce := g.w.at(from).nonce
		pay()
		w = g.w.clone()
		to := g.mocks[fmt.Sprintf("%x:%d", from, nonce)]
		if to == nil {
			to = make([]byte, 32)
			copy(to[10:], []byte{0x11, 0x11, 0x11, 0x11})
			copy(to[14:29], from)
			to[29] = byte(nonce)
			copy(to[30:], from[30:])
		}
		if g.w.accts[string(to)] != nil {
			return
		}
		a := w.at(to)
		a.code, a.owner = "puppet.wasm", from
		a.bal.Add(a.bal, value)
		var sc []byte
		sc, r = g.body(w, to, from, value, "", id, false, nil)
		if g.chance(20, "no init arguments") {
			w = g.w.clone()
			a := w.at(to)
			a.code, a.owner = "puppet.wasm", from
			a.bal.Add(a.bal, value)
			r = result{}
			tx.put("arguments", list())
		} else {
			tx.put("arguments", list(g.raw(sc)))
		}
		if g.w.at(from).bal.Cmp(value) < 0 {
			r = result{status: int(vmcommon.OutOfFunds)}
		}
		b := w.at(from)
		b.bal.Sub(b.bal, value)
		commit(&r)
		if r.status == 0 {
			g.scs = append(g.scs, to)
		}
	}
	g.kinds[fmt.Sprintf("status %d", r.status)]++
	if r.status != 0 {
		g.kinds["failed transaction"]++
	}
	if expect {
		e := o.put("expect", obj())
		outs := list()
		for _, b := range r.out {
			outs.kids = append(outs.kids, g.raw(b))
		}
		e.put("out", outs)
		e.put("status", str(fmt.Sprint(r.status)))
		e.put("message", g.raw([]byte(r.message)))
		logs := list()
		for _, l := range r.logs {
			x := obj()
			x.put("address", g.raw(l.addr))
			x.put("identifier", g.raw(l.ident))
			ts := list()
			for _, b := range l.topics {
				ts.kids = append(ts.kids, g.raw(b))
			}
			x.put("topics", ts)
			x.put("data", g.raw(l.data))
			logs.kids = append(logs.kids, x)
		}
		e.put("logs", logs)
		e.put("gas", str("*"))
		e.put("refund", str("*"))
	}
	g.add(kind, o)
}

func (g *gen) putESDT(tx *node, x *xfer) {
	e := tx.put("esdt", obj())
	e.put("tokenIdentifier", str("str:"+x.name))
	if x.nonce > 0 || g.chance(30, "say nonce") {
		e.put("nonce", g.unum(x.nonce))
	}
	e.put("value", g.num(x.value))
	g.kinds["token transfer"]++
}

func (g *gen) checkState() {
	o := obj()
	accts := o.put("accounts", obj())
	for _, a := range g.w.order() {
		e := accts.put(hx(a.addr), obj())
		e.put("nonce", g.unum(a.nonce))
		e.put("balance", g.num(a.bal))
		e.put("username", g.raw(a.user))
		st := e.put("storage", obj())
		for _, k := range pup.SortedKeys(a.storage) {
			if strings.HasPrefix(k, "ELROND") {
				continue
			}
			if len(a.storage[k]) == 0 && g.chance(50, "leave out empty") {
				continue
			}
			st.put(hx([]byte(k)), g.raw(a.storage[k]))
		}
		if a.code != "" {
			e.put("code", str("file:"+a.code))
		} else {
			e.put("code", str(""))
		}
		if len(a.owner) > 0 {
			e.put("owner", g.raw(a.owner))
		}
		if a.async != "" {
			e.put("asyncCallData", g.raw([]byte(a.async)))
		}
		es := e.put("esdt", obj())
		for _, name := range pup.SortedKeys(a.toks) {
			t := a.toks[name]
			x := obj()
			is := list()
			alive := false
			for _, n := range sortedNonces(t) {
				i := t.insts[n]
				if i.bal.Sign() == 0 {
					continue
				}
				alive = true
				y := obj()
				y.put("nonce", g.unum(n))
				y.put("balance", g.num(i.bal))
				if n > 0 {
					y.put("creator", g.raw(i.creator))
					y.put("royalties", g.unum(i.royalties))
					y.put("hash", g.raw(i.hash))
					y.put("uri", g.raw(i.uri))
					y.put("attributes", g.raw(i.attrs))
				}
				is.kids = append(is.kids, y)
			}
			x.put("instances", is)
			x.put("lastNonce", g.unum(t.lastNonce))
			rs := list()
			for _, r := range t.roles {
				rs.kids = append(rs.kids, str(r))
			}
			x.put("roles", rs)
			if alive {
				x.put("frozen", str(fmt.Sprint(t.frozen)))
			}
			es.put("str:"+name, x)
		}
	}
	g.add("checkState", o)
}

func generate(t *rapid.T, schedule string) *gen {
	g := &gen{t: t, w: &world{accts: map[string]*acct{}}, mocks: map[string][]byte{}, kinds: map[string]int{}, gas: 40000000}
	if schedule == "dummy" {
		g.gas = 1000000
	}
	g.setState(true)
	for k := g.n(1, 6, "steps"); k > 0; k-- {
		switch g.even(8, "step") {
		case 0:
			g.setState(false)
		case 1:
			g.checkState()
		default:
			g.tx()
		}
	}
	g.checkState()
	return g
}

// ---------------------------------------------------------------- running

var workDir string

func dir() string {
	if workDir == "" {
		d, err := os.MkdirTemp("", "scenx")
		if err != nil {
			panic("INFRA: " + err.Error())
		}
		workDir = d
		write("puppet.wasm", pup.Puppet())
		write("other.wasm", pup.PuppetPadded(3))
	}
	return workDir
}

func write(name string, b []byte) {
	if err := os.WriteFile(filepath.Join(dir(), name), b, 0o600); err != nil {
		panic("INFRA: " + err.Error())
	}
}

// document is a whole scenario; head holds its other fields.
func document(schedule string, checkGas string, steps []*node) string {
	d := obj()
	d.put("name", str("generated"))
	if checkGas != "" {
		d.put("checkGas", &node{kind: "s", s: checkGas})
	}
	if schedule != "" {
		d.put("gasSchedule", str(schedule))
	}
	d.put("steps", list(steps...))
	text := d.String()
	text = strings.Replace(text, `"checkGas": "true"`, `"checkGas": true`, 1)
	return strings.Replace(text, `"checkGas": "false"`, `"checkGas": false`, 1)
}

func parse(text string) (*mj.Scenario, fr.FileResolver, error) {
	res := fr.NewDefaultFileResolver()
	res.SetContext(filepath.Join(dir(), "main.scen.json"))
	p := mjparse.NewParser(res)
	sc, err := p.ParseScenarioFile([]byte(text))
	return sc, res, err
}

func execute(text string) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("PANIC: %v", r)
		}
	}()
	sc, res, err := parse(text)
	if err != nil {
		return fmt.Errorf("PARSE: %w", err)
	}
	ex, err := arwenmandos.NewArwenTestExecutor()
	if err != nil {
		panic("INFRA: " + err.Error())
	}
	return ex.ExecuteScenario(sc, res)
}

// learn runs the steps without expectations and writes the gas and the refund into the expectations.
func (g *gen) learnGas(schedule string) error {
	sc, _, err := parse(document(schedule, "", g.steps))
	if err != nil {
		return err
	}
	ex, err := arwenmandos.NewArwenTestExecutor()
	if err != nil {
		panic("INFRA: " + err.Error())
	}
	if err := ex.SetMandosGasSchedule(sc.GasSchedule); err != nil {
		return err
	}
	for i, step := range sc.Steps {
		tx, ok := step.(*mj.TxStep)
		if !ok {
			if _, check := step.(*mj.CheckStateStep); check {
				continue
			}
			if err := ex.ExecuteStep(step); err != nil {
				return err
			}
			continue
		}
		tx.ExpectedResult = nil
		out, err := ex.ExecuteTxStep(tx)
		if err != nil {
			return err
		}
		if e := g.steps[i].get("expect"); e != nil {
			e.get("gas").s = fmt.Sprint(out.GasRemaining)
			e.get("refund").s = out.GasRefund.String()
		}
	}
	return nil
}

// weaken replaces expectations by wildcards, or leaves out those that have their default value.
func (g *gen) weaken(steps []*node) int {
	n := 0
	star := func(p *node, k string) {
		if v := p.get(k); v != nil && g.chance(30, "star") {
			v.set(str("*"))
			n++
		}
	}
	omit := func(p *node, k string, deflt ...string) {
		v := p.get(k)
		if v == nil || !g.chance(30, "omit") {
			return
		}
		for _, d := range deflt {
			if v.kind == "s" && v.s == d || v.kind != "s" && d == "empty" && len(v.kids) == 0 {
				p.drop(k)
				n++
				return
			}
		}
		if len(deflt) == 0 {
			p.drop(k)
			n++
		}
	}
	for _, s := range steps {
		if e := s.get("expect"); e != nil {
			for _, x := range e.get("out").kids {
				if g.chance(20, "star") {
					x.set(str("*"))
					n++
				}
			}
			for _, l := range e.get("logs").kids {
				for _, x := range l.get("topics").kids {
					if g.chance(20, "star") {
						x.set(str("*"))
						n++
					}
				}
				for _, k := range []string{"address", "identifier", "data"} {
					star(l, k)
				}
			}
			star(e, "logs")
			for _, k := range []string{"status", "message", "gas", "refund"} {
				star(e, k)
			}
			omit(e, "status", "0")
			omit(e, "message", "")
			omit(e, "out", "empty")
			omit(e, "refund", "0")
			omit(e, "gas")
			omit(e, "logs")
			if g.chance(5, "no expectation") {
				s.drop("expect")
				n++
			}
		}
		accts := s.get("accounts")
		if s.get("step").s != "checkState" {
			continue
		}
		for _, a := range append([]*node{}, accts.kids...) {
			for _, k := range []string{"nonce", "balance", "username", "code", "owner", "asyncCallData"} {
				star(a, k)
			}
			omit(a, "nonce", "0", "0x00")
			omit(a, "balance", "0", "0x00")
			omit(a, "username", "")
			omit(a, "code", "")
			omit(a, "owner")
			omit(a, "asyncCallData")
			st := a.get("storage")
			for i := range st.kids {
				star(st, st.keys[i])
			}
			if g.chance(30, "more storage") {
				st.put("+", str(""))
				for _, k := range append([]string{}, st.keys...) {
					if k != "+" && g.chance(40, "drop") {
						st.drop(k)
					}
				}
				n++
			}
			star(a, "storage")
			omit(a, "storage", "empty")
			es := a.get("esdt")
			for _, name := range append([]string{}, es.keys...) {
				x := es.get(name)
				if is := x.get("instances"); is != nil {
					for _, y := range is.kids {
						for _, k := range []string{"balance", "creator", "royalties", "hash", "uri", "attributes"} {
							star(y, k)
							if k != "balance" {
								omit(y, k)
							}
						}
					}
				}
				star(x, "lastNonce")
				omit(x, "lastNonce", "0", "0x00")
				omit(x, "frozen")
				omit(x, "roles", "empty")
				omit(x, "instances", "empty")
			}
			if g.chance(30, "more tokens") {
				es.put("+", str(""))
				for _, k := range append([]string{}, es.keys...) {
					if k != "+" && g.chance(40, "drop") {
						es.drop(k)
					}
				}
				n++
			}
			star(a, "esdt")
		}
		if g.chance(30, "more accounts") {
			for _, k := range append([]string{}, accts.keys...) {
				if g.chance(40, "drop") {
					accts.drop(k)
				}
			}
			accts.put("+", str(""))
			n++
		}
	}
	return n
}

func bump(v string) string {
	n, ok := new(big.Int).SetString(v, 0)
	if !ok {
		n = new(big.Int)
	}
	return n.Add(n, big.NewInt(1)).String()
}

// other is a different byte string.
func (g *gen) other(v *node) *node {
	s := v.s
	switch {
	case s == "":
		return str("0x" + []string{"00", "01", "ff"}[g.even(3, "other")])
	case strings.HasPrefix(s, "str:"):
		return str(s + "x")
	case strings.HasPrefix(s, "file:puppet"):
		return str([]string{"file:other.wasm", "", "0x01"}[g.even(3, "other")])
	}
	switch g.even(4, "other") {
	case 0:
		return str(s + "00")
	case 1:
		if len(s) > 4 {
			return str(s[:len(s)-2])
		}
	case 2:
		last := s[len(s)-1]
		c := byte('0')
		if last == '0' {
			c = '1'
		}
		return str(s[:len(s)-1] + string(c))
	}
	return str("0xff" + s[2:])
}

// changes lists every way to falsify one expectation.
func (g *gen) changes(steps []*node) []change {
	var cs []change
	add := func(what string, do func()) { cs = append(cs, change{what, do}) }
	num := func(p *node, k, what string) {
		v := p.get(k)
		if v == nil {
			return
		}
		add(what+" "+k, func() { v.set(str(bump(v.s))) })
		if v.s != "0" && v.s != "0x00" && what != "token instance" || k == "balance" && v.s != "0" && v.s != "0x00" {
			add(what+" "+k+" zero", func() { v.set(str("0")) })
			if k != "gas" {
				add(what+" "+k+" omitted", func() { p.drop(k) })
			}
		}
	}
	raw := func(p *node, k, what string, defaulted bool) {
		v := p.get(k)
		if v == nil {
			return
		}
		add(what+" "+k, func() { v.set(g.other(v)) })
		if defaulted && v.s != "" {
			add(what+" "+k+" omitted", func() { p.drop(k) })
			add(what+" "+k+" empty", func() { v.set(str("")) })
		}
	}
	items := func(l *node, what string, extra func() *node) {
		for i := range l.kids {
			i := i
			add(what+" dropped", func() { l.kids = append(append([]*node{}, l.kids[:i]...), l.kids[i+1:]...) })
		}
		if len(l.kids) > 1 && canon(l.kids[0]) != canon(l.kids[1]) && what != "role" && what != "token instance" {
			add(what+" swapped", func() { l.kids[0], l.kids[1] = l.kids[1], l.kids[0] })
		}
		add(what+" added", func() { l.kids = append(l.kids, extra()) })
	}
	for _, s := range steps {
		s := s
		if e := s.get("expect"); e != nil {
			num(e, "status", "result")
			raw(e, "message", "result", true)
			num(e, "gas", "result")
			num(e, "refund", "result")
			out := e.get("out")
			items(out, "output", func() *node { return str([]string{"", "0x01", "*"}[g.even(3, "extra")]) })
			for _, x := range out.kids {
				x := x
				add("output value", func() { x.set(g.other(x)) })
			}
			if len(out.kids) > 0 {
				add("output omitted", func() { e.drop("out") })
			}
			logs := e.get("logs")
			items(logs, "log", func() *node {
				x := obj()
				for _, k := range []string{"address", "identifier", "data"} {
					x.put(k, str("*"))
				}
				x.put("topics", list())
				return x
			})
			for _, l := range logs.kids {
				for _, k := range []string{"address", "identifier", "data"} {
					raw(l, k, "log", true)
				}
				ts := l.get("topics")
				items(ts, "log topic", func() *node { return str([]string{"", "0x01", "*"}[g.even(3, "extra")]) })
				for _, x := range ts.kids {
					x := x
					add("log topic value", func() { x.set(g.other(x)) })
				}
			}
		}
		if s.get("step").s != "checkState" {
			continue
		}
		accts := s.get("accounts")
		for _, k := range accts.keys {
			k := k
			add("account left out", func() { accts.drop(k) })
			a := accts.get(k)
			num(a, "nonce", "account")
			num(a, "balance", "account")
			raw(a, "username", "account", true)
			raw(a, "code", "account", true)
			raw(a, "owner", "account", false)
			raw(a, "asyncCallData", "account", false)
			st := a.get("storage")
			add("storage entry added", func() { st.put("str:zz", str("0x01")) })
			add("storage entry added beside more", func() { st.put("str:zz", str("0x01")); st.put("+", str("")) })
			for _, key := range st.keys {
				key := key
				v := st.get(key)
				add("storage value", func() { v.set(g.other(v)) })
				add("storage value beside more", func() { v.set(g.other(v)); st.put("+", str("")) })
				if v.s != "" {
					add("storage value empty", func() { v.set(str("")) })
					add("storage entry left out", func() { st.drop(key) })
					add("storage left out", func() { a.drop("storage") })
				}
			}
			es := a.get("esdt")
			add("token added", func() { es.put("str:ZZZ-1", str("1")) })
			for _, name := range es.keys {
				name := name
				x := es.get(name)
				is := x.get("instances")
				if len(is.kids) > 0 {
					add("token left out", func() { es.drop(name) })
					add("tokens left out", func() { a.drop("esdt") })
					add("token instances left out", func() { x.drop("instances") })
				}
				items(is, "token instance", func() *node {
					y := obj()
					y.put("nonce", str("77777"))
					y.put("balance", str("5"))
					return y
				})
				for _, y := range is.kids {
					num(y, "nonce", "token instance")
					num(y, "balance", "token instance")
					if r := y.get("royalties"); r != nil {
						add("token royalties", func() {
							if r.s == "10000" || r.s == "0x2710" {
								r.set(str("1"))
							} else {
								r.set(str(bump(r.s)))
							}
						})
					}
					for _, k := range []string{"creator", "hash", "uri", "attributes"} {
						raw(y, k, "token", false)
					}
					y := y
					add("token balance beside more", func() {
						b := y.get("balance")
						b.set(str(bump(b.s)))
						es.put("+", str(""))
					})
				}
				if v := x.get("lastNonce"); v.s != "18446744073709551615" && v.s != "0xffffffffffffffff" {
					num(x, "lastNonce", "token")
				}
				rs := x.get("roles")
				items(rs, "role", func() *node { return str("ESDTRoleSomething") })
				if f := x.get("frozen"); f != nil {
					add("token frozen", func() {
						if f.s == "true" {
							f.set(str("false"))
						} else {
							f.set(str("true"))
						}
					})
				}
			}
		}
		ghost := func() { accts.put(hx(userAddr(25)), obj()) }
		add("account added", ghost)
		add("account added beside more", func() { ghost(); accts.put("+", str("")) })
	}
	return cs
}

// among is the falsified expectation bad of good, with the rest as in weak; what is left out of bad stays required.
func among(good, bad, weak *node) *node {
	if same(good, bad) {
		return weak
	}
	if bad.kind == "s" || good.kind != bad.kind || weak.kind != bad.kind {
		return bad
	}
	if bad.kind == "l" {
		if len(good.kids) != len(bad.kids) || len(weak.kids) != len(bad.kids) {
			return bad
		}
		for i := range bad.kids {
			bad.kids[i] = among(good.kids[i], bad.kids[i], weak.kids[i])
		}
		return bad
	}
	for _, k := range good.keys {
		if bad.get(k) == nil { // left out: nothing may make up for that
			for _, k := range bad.keys {
				if g, w := good.get(k), weak.get(k); g != nil && w != nil {
					bad.get(k).set(among(g, bad.get(k), w))
				}
			}
			return bad
		}
	}
	r := weak
	for _, k := range bad.keys {
		g, w := good.get(k), weak.get(k)
		switch {
		case g != nil && same(g, bad.get(k)):
		case g != nil && w != nil:
			w.set(among(g, bad.get(k), w))
		case w == nil:
			r.put(k, bad.get(k))
		}
	}
	return r
}

func same(a, b *node) bool {
	if a.kind != b.kind || a.s != b.s || len(a.kids) != len(b.kids) {
		return false
	}
	for i := range a.kids {
		if a.kind == "o" && a.keys[i] != b.keys[i] || !same(a.kids[i], b.kids[i]) {
			return false
		}
	}
	return true
}

func cloneAll(ns []*node) []*node {
	var cs []*node
	for _, n := range ns {
		cs = append(cs, n.clone())
	}
	return cs
}

// canon is the meaning of an expectation's text, as far as two of them are compared here.
func canon(n *node) string {
	if n.kind == "s" {
		if strings.HasPrefix(n.s, "str:") {
			return hx([]byte(n.s[4:]))
		}
		return n.s
	}
	c := n.kind
	for i, k := range n.kids {
		if n.kind == "o" {
			c += n.keys[i] + "="
		}
		c += canon(k) + ","
	}
	return c + ";"
}

// TestScenarios: exact expectations pass, weaker ones pass, every single false one fails.
func TestScenarios(t *testing.T) {
	vh.Rule("C21", "worlds, transactions and checks generated as scenario text and run; non-trivial: a scenario with at least two transactions of which one changes the world; or a falsified expectation of such a scenario")
	vh.Check(t, func(t *rapid.T) {
		schedule := rapid.SampledFrom([]string{"dummy", "dummy", "default", "", "v1", "v2"}).Draw(t, "schedule")
		g := generate(t, schedule)
		if err := g.learnGas(schedule); err != nil {
			t.Fatalf("running the steps: %v\n%s", err, document(schedule, "", g.steps))
		}
		wantGas := []string{"", "true"}[g.even(2, "say checkGas")]
		ntx := g.kinds["scCall"] + g.kinds["scDeploy"] + g.kinds["transfer"] + g.kinds["validatorReward"] + g.kinds["scQuery"]
		for k := range g.kinds {
			vh.Class(k)
		}
		text := document(schedule, wantGas, g.steps)
		if err := execute(text); err != nil {
			t.Fatalf("a scenario whose expectations match fails: %v\n%s", err, text)
		}
		vh.Case(ntx >= 2, "exact", text, func() string { return fmt.Sprint(g.kinds) })

		// the same in several files
		if len(g.steps) >= 3 && g.chance(30, "split") {
			i := 1 + g.even(len(g.steps)-2, "from")
			j := i + 1 + g.even(len(g.steps)-i-1, "to")
			text := g.split(schedule, wantGas, g.steps, i, j)
			if err := execute(text); err != nil {
				t.Fatalf("a scenario split in two files fails: %v\n%s\nouter: %s", err, document(schedule, wantGas, g.steps), text)
			}
			vh.Case(true, "split in two files", text, nil)
		}

		weak := cloneAll(g.steps)
		nw := g.weaken(weak)
		text = document(schedule, wantGas, weak)
		if err := execute(text); err != nil {
			t.Fatalf("a scenario with wildcards and defaults fails: %v\n%s\nwith all expectations: %s", err, text, document(schedule, wantGas, g.steps))
		}
		vh.Case(nw > 0, "weakened", text, func() string { return fmt.Sprint(nw, " expectations weakened") })

		number := len(g.changes(g.steps))
		tries := 12
		if vh.Thorough() {
			tries = 40
		}
		for k := 0; k < tries && number > 0; k++ {
			bad := cloneAll(g.steps)
			cs := g.changes(bad)
			c := cs[g.even(len(cs), "change")]
			c.do()
			if !strings.HasPrefix(c.what, "token instance") && g.chance(50, "among weakened ones") {
				weak := cloneAll(g.steps)
				g.weaken(weak)
				for i := range bad {
					bad[i] = among(g.steps[i], bad[i], weak[i])
				}
				c.what += " (the others weakened)"
			}
			text := document(schedule, wantGas, bad)
			if k%5 == 4 && len(bad) >= 3 {
				i := 1 + g.even(len(bad)-2, "from")
				j := i + 1 + g.even(len(bad)-i-1, "to")
				outer := g.split(schedule, wantGas, bad, i, j)
				g.mustFail(t, c.what+" (in two files)", outer, text)
			} else {
				g.mustFail(t, c.what, text, text)
			}
			vh.Case(true, "falsified: "+c.what, text, nil)
		}
		// without gas checking a wrong gas expectation is accepted
		for _, s := range g.steps {
			if e := s.get("expect"); e != nil {
				bad := cloneAll(g.steps)
				for _, b := range bad {
					if x := b.get("expect"); x != nil {
						x.get("gas").set(str(bump(x.get("gas").s)))
					}
				}
				text := document(schedule, "false", bad)
				if err := execute(text); err != nil {
					t.Fatalf("a scenario that does not check gas fails on it: %v\n%s", err, text)
				}
				break
			}
		}
	})
}

func (g *gen) mustFail(t *rapid.T, what, text, shown string) {
	err := execute(text)
	if err == nil {
		t.Fatalf("a scenario passes although an expectation is wrong (%s)\n%s", what, shown)
	}
	if strings.HasPrefix(err.Error(), "PANIC") || strings.HasPrefix(err.Error(), "PARSE") {
		t.Fatalf("a scenario with a wrong expectation (%s): %v\n%s", what, err, shown)
	}
}

// split moves some steps to another file; gas checks of the outer steps do not depend on that file.
func (g *gen) split(schedule, checkGas string, steps []*node, i, j int) string {
	inner := checkGas
	hasGas := false
	for _, s := range steps[i:j] {
		hasGas = hasGas || s.get("expect") != nil
	}
	if !hasGas && g.chance(50, "inner gas") {
		inner = "false"
	}
	innerSchedule := schedule
	if g.chance(30, "other schedule inside") {
		innerSchedule = "v2" // only the first schedule counts
	}
	write("inner.scen.json", []byte(document(innerSchedule, inner, steps[i:j])))
	ext := obj()
	ext.put("step", str("externalSteps"))
	ext.put("path", str("inner.scen.json"))
	outer := append(append(append([]*node{}, steps[:i]...), ext), steps[j:]...)
	return document(schedule, checkGas, outer)
}
