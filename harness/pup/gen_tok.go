//go:build go1.21

package pup

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math/big"
	"strings"

	vmcommon "github.com/ElrondNetwork/elrond-vm-common"
	"github.com/ElrondNetwork/elrond-vm-common/data/esdt"
	"github.com/ElrondNetwork/elrond-vm-common/parsers"
)

type tokenKind struct {
	name  string
	nonce uint64
}

var tokenKinds = []tokenKind{{"FUN-aa11", 0}, {"TOK-bb22", 0}, {"SFT-cc33", 1}, {"SFT-cc33", 2}, {"NFT-dd44", 300}}

// tokens hands out tokens.
func (g *Gen) tokens() {
	g.W.EnableTokens()
	for _, t := range tokenKinds {
		var meta *esdt.MetaData
		if t.nonce > 0 {
			meta = &esdt.MetaData{Nonce: t.nonce, Name: g.Bytes(0, 8, "name"), Creator: pick(g, g.Users, "creator"),
				Royalties: uint32(g.n(0, 9999, "royalties")), Hash: g.Bytes(0, 6, "hash"), Attributes: g.Bytes(0, 8, "attributes")}
			for i := g.n(0, 2, "uris"); i > 0; i-- {
				meta.URIs = append(meta.URIs, g.Bytes(0, 6, "uri"))
			}
		}
		for _, a := range append(append([][]byte{}, g.Contracts...), g.Users[:2]...) {
			if !g.chance(75, "holds") {
				continue
			}
			e := &esdt.ESDigitalToken{Type: uint32(vmcommon.Fungible), Value: big.NewInt(int64(g.n(1, 60, "quantity")))}
			if t.nonce > 0 {
				e.Type = uint32(vmcommon.NonFungible)
				m := *meta
				if g.chance(4, "other hash") {
					m.Hash = append([]byte{7}, m.Hash...)
				}
				e.TokenMetaData = &m
			}
			if g.chance(5, "frozen") {
				e.Properties = []byte{1, 0}
			} else if g.chance(10, "properties") {
				e.Properties = []byte{0, byte(g.n(0, 3, "p"))}
			}
			g.W.PutToken(a, []byte(t.name), t.nonce, e)
		}
		for _, a := range g.Contracts {
			if t.nonce > 0 && g.chance(30, "latest") {
				g.W.Accs[string(a)].Storage["ELRONDnonce"+t.name] = g.Bytes(1, 4, "latest nonce")
			}
		}
	}
}

func (g *Gen) tokenOf(self []byte) (tokenKind, []byte) {
	var held []tokenKind
	for _, t := range tokenKinds {
		if e, _ := g.W.token(nil, self, StorageKeyOf([]byte(t.name), t.nonce)); e.Value.Sign() > 0 && !frozen(e, false) {
			held = append(held, t)
		}
	}
	if len(held) == 0 || g.chance(8, "any token") {
		held = tokenKinds
	}
	t := pick(g, held, "token")
	if g.chance(3, "odd token") {
		t = tokenKind{pick(g, []string{"", "FUN", "SFT-cc33\x01", "FUN-aa11\x00"}, "token"), uint64(g.n(0, 2, "nonce"))}
	}
	e, _ := g.W.token(nil, self, StorageKeyOf([]byte(t.name), t.nonce))
	v := big.NewInt(int64(g.n(1, 4, "quantity")))
	switch g.even(16, "amount") {
	case 0, 1, 2:
		v.Add(e.Value, big.NewInt(int64(g.n(-2, 0, "around"))))
		if v.Sign() < 0 {
			v.SetInt64(0)
		}
	case 3:
		v.Add(e.Value, big.NewInt(1))
	case 4:
		v.SetInt64(int64(g.n(0, 100, "quantity")))
	case 5:
		if g.chance(20, "huge") {
			v.SetBytes(g.Bytes(9, 32, "quantity"))
		}
	}
	return t, v.Bytes()
}

// tokenDest is who receives a token: mostly somebody who can.
func (s *SB) tokenDest() []byte {
	d := s.account()
	for k := 0; k < 3; k++ {
		if a := s.G.W.Accs[string(d)]; !bytes.Equal(d, s.Self) && (a == nil || len(a.Code) > 0 || !IsSC(d)) {
			break
		}
		d = s.account()
	}
	return d
}

// withCall decides whether a transfer calls the receiver.
func (s *SB) withCall(dest []byte) bool {
	if !IsSC(dest) {
		return false
	}
	if ok, _ := s.G.W.IsPayable(dest); !ok {
		return s.G.chance(90, "with call")
	}
	return s.G.chance(60, "with call")
}

func nonceBytes(n uint64) []byte { return new(big.Int).SetUint64(n).Bytes() }

// protocolCall draws a call of a function of the protocol.
func (s *SB) protocolCall(dest []byte) (on []byte, fn string, args [][]byte) {
	g := s.G
	t, v := g.tokenOf(s.Self)
	on, fn = dest, FnTransfer
	args = [][]byte{[]byte(t.name), v}
	if t.nonce > 0 {
		on, fn = s.Self, FnNFTTransfer
		args = [][]byte{[]byte(t.name), nonceBytes(t.nonce), v, dest}
		if g.chance(3, "straight") {
			on = dest
		}
	}
	if g.chance(3, "few arguments") {
		args = args[:g.n(0, len(args)-1, "arguments")]
		return
	}
	if s.withCall(dest) {
		f, as := s.callee(dest)
		args = append(append(args, []byte(f)), as...)
	}
	return
}

func init() {
	for k, f := range map[string]func(s *SB, g *Gen){
		"tokxfer": func(s *SB, g *Gen) {
			dest := s.tokenDest()
			t, v := g.tokenOf(s.Self)
			fn, as := "", [][]byte(nil)
			gas := i(0)
			if s.withCall(dest) || g.chance(4, "anyway") {
				fn, as = s.callee(dest)
				gas = s.gas()
			} else if g.chance(5, "lone arguments") {
				as = g.extraArgs()
			}
			n, l, a := s.PutArgs(as)
			d, id, q, f := i(s.Put(dest)), i(s.Put([]byte(t.name))), i(s.Put(new(big.Int).SetBytes(v).FillBytes(make([]byte, 32)))), i(s.Put([]byte(fn)))
			if t.nonce == 0 && g.chance(60, "fungible only") {
				s.Call(0, "transferESDTExecute", d, id, i(int64(len(t.name))), q, gas, f, i(int64(len(fn))), i(n), i(l), i(a))
			} else {
				s.Call(0, "transferESDTNFTExecute", d, id, i(int64(len(t.name))), q, U(t.nonce), gas, f, i(int64(len(fn))), i(n), i(l), i(a))
			}
			s.trace(0)
		},
		"tokdest": func(s *SB, g *Gen) {
			on, fn, args := s.protocolCall(s.tokenDest())
			n, l, a := s.PutArgs(args)
			v := make([]byte, 32)
			if g.chance(4, "value") {
				v[31] = 1
			}
			how := "executeOnDestContext"
			if g.chance(6, "elsewhere") {
				how = pick(g, []string{"executeOnDestContextByCaller", "executeOnSameContext", "delegateExecution", "executeReadOnly"}, "how")
			}
			if how == "delegateExecution" || how == "executeReadOnly" {
				s.Call(0, how, s.gas(), i(s.Put(on)), i(s.Put([]byte(fn))), i(int64(len(fn))), i(n), i(l), i(a))
			} else {
				s.Call(0, how, s.gas(), i(s.Put(on)), i(s.Put(v)), i(s.Put([]byte(fn))), i(int64(len(fn))), i(n), i(l), i(a))
			}
			s.trace(0)
		},
		"tokasync": func(s *SB, g *Gen) {
			dest := s.tokenDest()
			if g.chance(15, "away") {
				dest = pick(g, g.Foreign, "foreign")
			}
			on, fn, args := s.protocolCall(dest)
			d := hexArgs([]byte(fn), args)
			v := make([]byte, 32)
			if g.chance(4, "value") {
				v[31] = 1
			}
			s.Call(0, "asyncCall", i(s.Put(on)), i(s.Put(v)), i(s.Put(d)), i(int64(len(d))))
		},
		"toktve": func(s *SB, g *Gen) {
			on, fn, args := s.protocolCall(s.tokenDest())
			n, l, a := s.PutArgs(args)
			if g.chance(50, "data") {
				d := hexArgs([]byte(fn), args)
				s.Call(0, "transferValue", i(s.Put(on)), i(s.Put(s.amount())), i(s.Put(d)), i(int64(len(d))))
			} else {
				s.Call(0, "transferValueExecute", i(s.Put(on)), i(s.Put(s.amount())), s.gas(), i(s.Put([]byte(fn))), i(int64(len(fn))), i(n), i(l), i(a))
			}
			s.trace(0)
		},
		"tokold": func(s *SB, g *Gen) {
			t, v := g.tokenOf(s.Self)
			s.Call(0, "transferESDT", i(s.Put(s.account())), i(s.Put([]byte(t.name))), i(int64(len(t.name))), i(s.Put(v)), s.gas(),
				i(s.Put(nil)), i(int64(g.n(0, 20, "length"))))
			s.trace(0)
		},
		"tokreturn": func(s *SB, g *Gen) {
			_, fn, args := s.protocolCall(pick(g, g.Contracts, "to"))
			if g.chance(80, "plain") {
				if p := map[string]int{FnTransfer: 2, FnNFTTransfer: 4}[fn]; len(args) > p {
					args = args[:p]
				}
			}
			d := hexArgs([]byte(fn), args)
			s.Call(0, "finish", i(s.Put(d)), i(int64(len(d))))
		},
		"tokquery": func(s *SB, g *Gen) {
			t := pick(g, tokenKinds, "token")
			if g.chance(10, "other nonce") {
				t.nonce = uint64(g.n(0, 3, "nonce"))
			}
			who := s.account()
			if g.chance(40, "own") {
				who = s.Self
			}
			w, id, n, nonce := i(s.Put(who)), i(s.Put([]byte(t.name))), i(int64(len(t.name))), U(t.nonce)
			switch g.even(6, "query") {
			case 0, 1:
				at := s.out(32)
				s.Call(0, "getESDTBalance", w, id, n, nonce, i(at))
				s.trace(0)
				s.traceM(at, 32)
			case 2:
				s.Call(0, "bigIntGetESDTExternalBalance", w, id, n, nonce, i(9))
				s.Call(0, "bigIntFinishUnsigned", i(9))
			case 3:
				s.Call(0, pick(g, []string{"getESDTNFTNameLength", "getESDTNFTAttributeLength", "getESDTNFTURILength"}, "length"), w, id, n, nonce)
				s.trace(0)
			case 4:
				at := s.out(192)
				s.Call(0, "getESDTTokenData", w, id, n, nonce, i(9), i(at), i(at+16), i(at+32), i(at+64), i(at+96), i(8), i(at+160))
				s.trace(0)
				s.traceM(at, 192)
				s.Call(0, "bigIntFinishUnsigned", i(9))
				s.Call(0, "bigIntFinishUnsigned", i(8))
			case 5:
				s.Call(0, "getCurrentESDTNFTNonce", w, id, n)
				s.trace(0)
			}
		},
		"tokvalue": func(s *SB, g *Gen) {
			at := s.out(128)
			s.Call(0, "getESDTValue", i(at))
			s.trace(0)
			s.Call(0, "getESDTTokenName", i(at+32))
			s.trace(0)
			s.Call(0, "getESDTTokenNonce")
			s.trace(0)
			s.Call(0, "getESDTTokenType")
			s.trace(0)
			if g.chance(50, "both") {
				s.Call(0, "getCallValueTokenName", i(at+64), i(at+96))
				s.trace(0)
			} else {
				s.Call(0, "bigIntGetESDTCallValue", i(9))
				s.Call(0, "bigIntFinishUnsigned", i(9))
			}
			s.traceM(at, 128)
		},
		"tokraw": func(s *SB, g *Gen) {
			t := pick(g, tokenKinds, "token")
			k := StorageKeyOf([]byte(t.name), t.nonce)
			at := s.out(96)
			switch g.even(3, "how") {
			case 0:
				s.Call(0, "storageLoad", i(s.Put(k)), i(int64(len(k))), i(at))
			case 1:
				s.Call(0, "storageLoadLength", i(s.Put(k)), i(int64(len(k))))
			case 2:
				s.Call(0, "storageLoadFromAddress", i(s.Put(s.account())), i(s.Put(k)), i(int64(len(k))), i(at))
			}
			s.trace(0)
			s.traceM(at, 96)
		},
	} {
		moreSteps[k] = f
	}
}

// ---- what can be said about tokens without the model

// Held is the quantity of every token on this shard.
func (w *World) Held() map[string]*big.Int {
	sum := map[string]*big.Int{}
	add := func(addr, key []byte) {
		if !bytes.HasPrefix(key, []byte("ELRONDesdt")) {
			return
		}
		t, _ := w.token(w.Tok, addr, key)
		if sum[string(key)] == nil {
			sum[string(key)] = new(big.Int)
		}
		sum[string(key)].Add(sum[string(key)], t.Value)
	}
	seen := map[string]bool{}
	for k := range w.Tok {
		seen[k] = true
		add([]byte(k[:32]), []byte(k[33:]))
	}
	for a, acc := range w.Accs {
		for k := range acc.Storage {
			if !seen[a+"|"+k] {
				add([]byte(a), []byte(k))
			}
		}
	}
	return sum
}

// TokenBalance checks that tokens are moved, not made or lost: what this
// shard no longer has is in the transfers to other shards.
func (w *World) TokenBalance(before map[string]*big.Int, out *vmcommon.VMOutput) error {
	after := w.Held()
	for _, oa := range out.OutputAccounts {
		if ShardOf(oa.Address) == 0 {
			continue
		}
		for _, x := range oa.OutputTransfers {
			fn, args, err := parsers.NewCallArgsParser().ParseData(string(x.Data))
			if err != nil || !strings.HasPrefix(fn, "ESDT") || !bytes.Equal(x.SenderAddress[:1], []byte{0}) {
				continue
			}
			var key, v []byte
			switch {
			case fn == FnTransfer && len(args) >= 2:
				key, v = StorageKeyOf(args[0], 0), args[1]
			case fn == FnNFTTransfer && len(args) >= 4:
				key, v = StorageKeyOf(args[0], new(big.Int).SetBytes(args[1]).Uint64()), args[2]
			default:
				continue
			}
			if after[string(key)] == nil {
				after[string(key)] = new(big.Int)
			}
			after[string(key)].Add(after[string(key)], new(big.Int).SetBytes(v))
		}
	}
	for k := range after {
		if before[k] == nil && after[k].Sign() != 0 {
			return fmt.Errorf("%v of token %q from nowhere", after[k], k)
		}
	}
	for _, k := range SortedKeys(before) {
		a := after[k]
		if a == nil {
			a = new(big.Int)
		}
		if a.Cmp(before[k]) != 0 {
			return fmt.Errorf("token %q: there were %v, now %v", k, before[k], a)
		}
	}
	return nil
}

func (m *Model) compareTokens() error {
	keys := map[string]bool{}
	for k := range m.St.Tok {
		keys[k] = true
	}
	for k := range m.W.Tok {
		keys[k] = true
	}
	for _, k := range SortedKeys(keys) {
		addr, key := []byte(k[:32]), []byte(k[33:])
		got, want := m.W.entry(m.W.Tok, addr, key), m.W.entry(m.St.Tok, addr, key)
		if !bytes.Equal(got, want) {
			g, _ := m.W.token(m.W.Tok, addr, key)
			e, _ := m.W.token(m.St.Tok, addr, key)
			return fmt.Errorf("%x has %v of token %q, expected %v (%s, expected %s)", addr, g.Value, key, e.Value,
				hex.EncodeToString(got), hex.EncodeToString(want))
		}
	}
	return nil
}
