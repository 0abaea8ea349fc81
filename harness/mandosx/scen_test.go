//go:build go1.21

package mandosx

import (
	"encoding/hex"
	"fmt"
	"math/big"
	"reflect"
	"strings"
	"testing"

	mj "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mandos-go/json/model"
	mjparse "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mandos-go/json/parse"
	mjwrite "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mandos-go/json/write"
	oj "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mandos-go/orderedjson"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/zzverif/vh"
	"pgregory.net/rapid"
)

// scenGen draws scenario files together with what they mean. With poison >= 0
// the value with that number is replaced by a malformed expression.
type scenGen struct {
	t      *rapid.T
	poison int
	leaves int
	where  string
}

func (g *scenGen) n(max int, label string) int { return rapid.IntRange(0, max).Draw(g.t, label) }
func (g *scenGen) has(label string) bool       { return rapid.Bool().Draw(g.t, label) }

// poisoned tells whether the value being drawn is to be malformed.
func (g *scenGen) poisoned(where string) bool {
	g.leaves++
	if g.leaves-1 == g.poison {
		g.where = where
		return true
	}
	return false
}

func unsafeText(s string) bool { return strings.ContainsAny(s, "\"\\") }

func hexText(b []byte) string { return "0x" + hex.EncodeToString(b) }

var safeBad = []string{"x", "0xg", "-", "u8:256", "i8:-129", "address:a#1", "1|x", "nested:x", "u8:", "file:nowhere", "keccak256:-", "biguint:-1"}

// value draws an expression whose bytes pass the filter.
func (g *scenGen) value(where string, ok func([]byte) bool) (string, []byte) {
	if g.poisoned(where) {
		return rapid.SampledFrom(safeBad).Draw(g.t, "malformed"), nil
	}
	for i := 0; i < 3; i++ {
		e := genExpr(g.t, 1)
		if !e.bad && !unsafeText(e.text) && (ok == nil || ok(e.val)) {
			return e.text, e.val
		}
	}
	var b []byte
	if ok != nil && !ok(b) {
		b = []byte{byte(g.n(200, "small"))}
	}
	if ok != nil && !ok(b) {
		b = make([]byte, 32)
		b[8+g.n(20, "at")] = byte(1 + g.n(30, "b"))
		b[0] = byte(g.n(1, "first"))
	}
	return hexText(b), b
}

func (g *scenGen) tree(where string) (interface{}, []byte) {
	if g.has("treeAsString") || g.poison == g.leaves {
		return g.value(where, nil)
	}
	o, v, bad := genValueTree(g.t, 2)
	j := fromOJ(o)
	if bad || unsafeText(fmt.Sprint(j)) {
		g.leaves++
		return hexText(v), v
	}
	g.leaves++
	return j, v
}

func (g *scenGen) str(label string) string { return genRaw(g.t, label) }

func is32(b []byte) bool  { return len(b) == 32 }
func isU64(b []byte) bool { return new(big.Int).SetBytes(b).IsUint64() }

func (g *scenGen) addr(where string) (string, mj.JSONBytesFromString) {
	s, b := g.value(where, is32)
	return s, mj.JSONBytesFromString{Value: b}
}

func (g *scenGen) bytes(where string) (string, mj.JSONBytesFromString) {
	s, b := g.value(where, nil)
	return s, mj.JSONBytesFromString{Value: b}
}

func (g *scenGen) u64(where string) (string, mj.JSONUint64) {
	s, b := g.value(where, isU64)
	return s, mj.JSONUint64{Value: new(big.Int).SetBytes(b).Uint64()}
}

func (g *scenGen) big(where string) (string, mj.JSONBigInt) {
	s, b := g.value(where, nil)
	return s, mj.JSONBigInt{Value: new(big.Int).SetBytes(b)}
}

func (g *scenGen) btree(where string) (interface{}, mj.JSONBytesFromTree) {
	j, b := g.tree(where)
	return j, mj.JSONBytesFromTree{Value: b}
}

func (g *scenGen) star() bool { return g.n(5, "star") == 5 }

func (g *scenGen) cbytes(where string) (interface{}, mj.JSONCheckBytes) {
	if g.star() {
		return "*", mj.JSONCheckBytesStar()
	}
	j, b := g.tree(where)
	return j, mj.JSONCheckBytes{Value: b}
}

func (g *scenGen) cu64(where string) (interface{}, mj.JSONCheckUint64) {
	if g.star() {
		return "*", mj.JSONCheckUint64{IsStar: true}
	}
	s, v := g.u64(where)
	return s, mj.JSONCheckUint64{Value: v.Value}
}

func (g *scenGen) cbig(where string) (interface{}, mj.JSONCheckBigInt) {
	if g.star() {
		return "*", mj.JSONCheckBigInt{IsStar: true}
	}
	s, v := g.big(where)
	return s, mj.JSONCheckBigInt{Value: v.Value}
}

func signedOf(b []byte) *big.Int {
	n := new(big.Int).SetBytes(b)
	if len(b) > 0 && b[0] >= 0x80 {
		n.Sub(n, new(big.Int).Lsh(big.NewInt(1), uint(8*len(b))))
	}
	return n
}

// obj shuffles the fields.
func (g *scenGen) obj(m jobj) jobj {
	if len(m) < 2 {
		return m
	}
	return rapid.Permutation(m).Draw(g.t, "order")
}

func (g *scenGen) strings(label string) (jlist, []string) {
	l, s := jlist{}, []string(nil)
	for i, n := 0, g.n(2, label); i < n; i++ {
		x := g.str(label)
		l, s = append(l, x), append(s, x)
	}
	return l, s
}

// keys draws different keys.
func (g *scenGen) keys(where string, max int, ok func([]byte) bool) ([]string, [][]byte) {
	var s []string
	var v [][]byte
	seen := map[string]bool{"+": true}
	for i, n := 0, g.n(max, where); i < n; i++ {
		k, b := g.value(where, ok)
		if seen[k] {
			continue
		}
		seen[k] = true
		s, v = append(s, k), append(v, b)
	}
	return s, v
}

func (g *scenGen) instance(where string) (jobj, *mj.ESDTInstance) {
	m, r := jobj{}, &mj.ESDTInstance{}
	add := func(k string, v interface{}) { m = append(m, jfield{k, v}) }
	if g.has("nonce") {
		s, v := g.u64(where + ".nonce")
		add("nonce", s)
		r.Nonce = v
	}
	if g.has("balance") {
		s, v := g.big(where + ".balance")
		add("balance", s)
		r.Balance = v
	}
	if g.has("creator") {
		s, v := g.addr(where + ".creator")
		add("creator", s)
		r.Creator = v
	}
	if g.has("royalties") {
		s, v := g.royalties(where + ".royalties")
		add("royalties", s)
		r.Royalties = mj.JSONUint64{Value: v}
	}
	if g.has("hash") {
		s, v := g.bytes(where + ".hash")
		add("hash", s)
		r.Hash = v
	}
	if g.has("uri") {
		s, v := g.btree(where + ".uri")
		add("uri", s)
		r.Uri = v
	}
	if g.has("attributes") {
		s, v := g.bytes(where + ".attributes")
		add("attributes", s)
		r.Attributes = v
	}
	return m, r
}

func (g *scenGen) royalties(where string) (string, uint64) {
	if g.poisoned(where) {
		return rapid.SampledFrom([]string{"10001", "u64:10001", "0xffff", "x"}).Draw(g.t, "malformed"), 0
	}
	n := rapid.SampledFrom([]uint64{0, 1, 100, 9999, 10000}).Draw(g.t, "royalties")
	return rapid.SampledFrom([]string{fmt.Sprint(n), fmt.Sprintf("u16:%d", n), fmt.Sprintf("0x%x", n)}).Draw(g.t, "form"), n
}

func (g *scenGen) esdtItem(where string) (interface{}, []*mj.ESDTInstance, mj.JSONUint64, []string, mj.JSONUint64) {
	var last, frozen mj.JSONUint64
	var roles []string
	if g.n(3, "compact") == 0 {
		s, v := g.big(where)
		return s, []*mj.ESDTInstance{{Balance: v}}, last, nil, frozen
	}
	m := jobj{}
	var inst []*mj.ESDTInstance
	if g.has("inline") {
		f, r := g.instance(where)
		if len(f) > 0 {
			m = append(m, f...)
			inst = append(inst, r)
		}
	}
	if g.has("instances") {
		l := jlist{}
		for i, n := 0, g.n(3, "instances"); i < n; i++ {
			f, r := g.instance(where + ".instances")
			l, inst = append(l, g.obj(f)), append(inst, r)
		}
		m = append(m, jfield{"instances", l})
	}
	if g.has("lastNonce") {
		s, v := g.u64(where + ".lastNonce")
		m, last = append(m, jfield{"lastNonce", s}), v
	}
	if g.has("roles") {
		l, s := g.strings("roles")
		m, roles = append(m, jfield{"roles", l}), s
	}
	if g.has("frozen") {
		s, v := g.u64(where + ".frozen")
		m, frozen = append(m, jfield{"frozen", s}), v
	}
	return g.obj(m), inst, last, roles, frozen
}

func (g *scenGen) account(where string) (jobj, *mj.Account) {
	m := jobj{}
	a := &mj.Account{}
	add := func(k string, v interface{}) { m = append(m, jfield{k, v}) }
	if g.has("comment") {
		a.Comment = g.str("comment")
		add("comment", a.Comment)
	}
	if g.has("shard") {
		s, v := g.u64(where + ".shard")
		add("shard", s)
		a.Shard = v
	}
	if g.has("nonce") {
		s, v := g.u64(where + ".nonce")
		add("nonce", s)
		a.Nonce = v
	}
	if g.has("balance") {
		s, v := g.big(where + ".balance")
		add("balance", s)
		a.Balance = v
	}
	if g.has("esdt") {
		e := jobj{}
		ks, vs := g.keys(where+".esdt", 3, nil)
		for i, k := range ks {
			j, inst, last, roles, frozen := g.esdtItem(where + ".esdt.token")
			e = append(e, jfield{k, j})
			a.ESDTData = append(a.ESDTData, &mj.ESDTData{TokenIdentifier: mj.JSONBytesFromString{Value: vs[i]}, Instances: inst, LastNonce: last, Roles: roles, Frozen: frozen})
		}
		add("esdt", e)
	}
	if g.has("username") {
		s, v := g.bytes(where + ".username")
		add("username", s)
		a.Username = v
	}
	if g.has("storage") {
		e := jobj{}
		ks, vs := g.keys(where+".storage", 4, nil)
		for i, k := range ks {
			j, v := g.btree(where + ".storage.value")
			e = append(e, jfield{k, j})
			a.Storage = append(a.Storage, &mj.StorageKeyValuePair{Key: mj.JSONBytesFromString{Value: vs[i]}, Value: v})
		}
		add("storage", e)
	}
	if g.has("code") {
		s, v := g.bytes(where + ".code")
		add("code", s)
		a.Code = v
	}
	if g.has("owner") {
		s, v := g.bytes(where + ".owner")
		add("owner", s)
		a.Owner = v
	}
	if g.has("asyncCallData") {
		a.AsyncCallData = g.str("asyncCallData")
		add("asyncCallData", a.AsyncCallData)
	}
	return g.obj(m), a
}

func (g *scenGen) accounts(where string, max int) (jobj, []*mj.Account) {
	m := jobj{}
	var r []*mj.Account
	ks, vs := g.keys(where, max, is32)
	for i, k := range ks {
		j, a := g.account(where)
		a.Address = mj.JSONBytesFromString{Value: vs[i]}
		m, r = append(m, jfield{k, j}), append(r, a)
	}
	return m, r
}

func (g *scenGen) checkInstance(where string) (jobj, *mj.CheckESDTInstance) {
	m, r := jobj{}, mj.NewCheckESDTInstance()
	add := func(k string, v interface{}) { m = append(m, jfield{k, v}) }
	if g.has("nonce") {
		s, v := g.cu64(where + ".nonce")
		add("nonce", s)
		r.Nonce = v
	}
	if g.has("balance") {
		s, v := g.cbig(where + ".balance")
		add("balance", s)
		r.Balance = v
	}
	if g.has("royalties") {
		if g.star() {
			add("royalties", "*")
			r.Royalties = mj.JSONCheckUint64{IsStar: true}
		} else {
			s, v := g.royalties(where + ".royalties")
			add("royalties", s)
			r.Royalties = mj.JSONCheckUint64{Value: v}
		}
	}
	for k, p := range map[string]*mj.JSONCheckBytes{"creator": &r.Creator} {
		if g.has(k) {
			s, v := g.cbytes(where + "." + k)
			add(k, s)
			*p = v
		}
	}
	for _, x := range []struct {
		k string
		p *mj.JSONCheckBytes
	}{{"hash", &r.Hash}, {"uri", &r.Uri}, {"attributes", &r.Attributes}} {
		if g.has(x.k) {
			s, v := g.cbytes(where + "." + x.k)
			add(x.k, s)
			*x.p = v
		}
	}
	return m, r
}

func (g *scenGen) checkESDT(where string) (interface{}, *mj.CheckESDTData) {
	r := &mj.CheckESDTData{}
	if g.n(3, "compact") == 0 {
		s, v := g.cbig(where)
		r.Instances = []*mj.CheckESDTInstance{{Balance: v}}
		return s, r
	}
	m := jobj{}
	if g.has("inline") {
		f, i := g.checkInstance(where)
		if len(f) > 0 {
			m = append(m, f...)
			r.Instances = append(r.Instances, i)
		}
	}
	if g.has("instances") {
		l := jlist{}
		for i, n := 0, g.n(3, "instances"); i < n; i++ {
			f, x := g.checkInstance(where + ".instances")
			l, r.Instances = append(l, g.obj(f)), append(r.Instances, x)
		}
		m = append(m, jfield{"instances", l})
	}
	if g.has("lastNonce") {
		s, v := g.cu64(where + ".lastNonce")
		m, r.LastNonce = append(m, jfield{"lastNonce", s}), v
	}
	if g.has("roles") {
		l, s := g.strings("roles")
		m, r.Roles = append(m, jfield{"roles", l}), s
	}
	if g.has("frozen") {
		s, v := g.cu64(where + ".frozen")
		m, r.Frozen = append(m, jfield{"frozen", s}), v
	}
	return g.obj(m), r
}

func (g *scenGen) checkAccount(where string) (jobj, *mj.CheckAccount) {
	m := jobj{}
	a := &mj.CheckAccount{
		Nonce: mj.JSONCheckUint64Unspecified(), Balance: mj.JSONCheckBigIntUnspecified(), Username: mj.JSONCheckBytesUnspecified(),
		Code: mj.JSONCheckBytesUnspecified(), Owner: mj.JSONCheckBytesUnspecified(), AsyncCallData: mj.JSONCheckBytesUnspecified(),
	}
	add := func(k string, v interface{}) { m = append(m, jfield{k, v}) }
	if g.has("comment") {
		a.Comment = g.str("comment")
		add("comment", a.Comment)
	}
	if g.has("nonce") {
		s, v := g.cu64(where + ".nonce")
		add("nonce", s)
		a.Nonce = v
	}
	if g.has("balance") {
		s, v := g.cbig(where + ".balance")
		add("balance", s)
		a.Balance = v
	}
	switch g.n(3, "esdt") {
	case 0:
	case 1:
		add("esdt", "*")
		a.IgnoreESDT = true
	default:
		e := jobj{}
		ks, vs := g.keys(where+".esdt", 3, nil)
		for i, k := range ks {
			j, r := g.checkESDT(where + ".esdt.token")
			r.TokenIdentifier.Value = vs[i]
			e = append(e, jfield{k, j})
			a.CheckESDTData = append(a.CheckESDTData, r)
		}
		if g.has("more") {
			e = append(e, jfield{"+", ""})
			a.MoreESDTTokensAllowed = true
		}
		add("esdt", e)
	}
	switch g.n(3, "storage") {
	case 0:
	case 1:
		add("storage", "*")
		a.IgnoreStorage = true
	default:
		e := jobj{}
		ks, vs := g.keys(where+".storage", 4, nil)
		for i, k := range ks {
			j, v := g.cbytes(where + ".storage.value")
			e = append(e, jfield{k, j})
			a.CheckStorage = append(a.CheckStorage, &mj.CheckStorageKeyValuePair{Key: mj.JSONBytesFromString{Value: vs[i]}, CheckValue: v})
		}
		if g.has("more") {
			e = append(e, jfield{"+", ""})
			a.MoreStorageAllowed = true
		}
		add("storage", e)
	}
	for _, x := range []struct {
		k string
		p *mj.JSONCheckBytes
	}{{"username", &a.Username}, {"code", &a.Code}, {"owner", &a.Owner}, {"asyncCallData", &a.AsyncCallData}} {
		if g.has(x.k) {
			s, v := g.cbytes(where + "." + x.k)
			add(x.k, s)
			*x.p = v
		}
	}
	return g.obj(m), a
}

func (g *scenGen) checkAccounts(where string, max int) (jobj, *mj.CheckAccounts) {
	m, r := jobj{}, &mj.CheckAccounts{}
	ks, vs := g.keys(where, max, is32)
	for i, k := range ks {
		j, a := g.checkAccount(where)
		a.Address = mj.JSONBytesFromString{Value: vs[i]}
		m, r.Accounts = append(m, jfield{k, j}), append(r.Accounts, a)
	}
	if g.has("more") {
		m = append(m, jfield{"+", ""})
		r.MoreAccountsAllowed = true
	}
	return m, r
}

func (g *scenGen) tx(where string, typ mj.TransactionType, test bool) (jobj, *mj.Transaction) {
	m, r := jobj{}, &mj.Transaction{Type: typ}
	add := func(k string, v interface{}) { m = append(m, jfield{k, v}) }
	if g.has("nonce") {
		s, v := g.u64(where + ".nonce")
		add("nonce", s)
		r.Nonce = v
	}
	if typ.HasSender() && g.has("from") {
		s, v := g.addr(where + ".from")
		add("from", s)
		r.From = v
	}
	if typ == mj.ScDeploy {
		if test || g.has("to") {
			add("to", "")
		}
	} else if g.has("to") {
		s, v := g.addr(where + ".to")
		add("to", s)
		r.To = v
	}
	if typ.HasFunction() && g.has("function") {
		r.Function = g.str("function")
		add("function", r.Function)
	}
	if typ.HasValue() && g.has("value") {
		s, v := g.big(where + ".value")
		add("value", s)
		r.Value = v
	}
	if typ.HasESDT() && g.has("esdt") {
		e := jobj{}
		r.ESDTValue = &mj.ESDTTxData{}
		if g.has("tokenIdentifier") {
			s, v := g.bytes(where + ".esdt.tokenIdentifier")
			e, r.ESDTValue.TokenIdentifier = append(e, jfield{"tokenIdentifier", s}), v
		}
		if g.has("nonce") {
			s, v := g.u64(where + ".esdt.nonce")
			e, r.ESDTValue.Nonce = append(e, jfield{"nonce", s}), v
		}
		if g.has("value") {
			s, v := g.big(where + ".esdt.value")
			e, r.ESDTValue.Value = append(e, jfield{"value", s}), v
		}
		add("esdt", g.obj(e))
	}
	if typ != mj.Transfer && g.has("arguments") {
		l := jlist{}
		for i, n := 0, g.n(4, "arguments"); i < n; i++ {
			j, v := g.btree(where + ".arguments")
			l, r.Arguments = append(l, j), append(r.Arguments, v)
		}
		add("arguments", l)
	}
	if typ == mj.ScDeploy && g.has("contractCode") {
		s, v := g.bytes(where + ".contractCode")
		add("contractCode", s)
		r.Code = v
	}
	if typ.HasGas() {
		if g.has("gasPrice") {
			s, v := g.u64(where + ".gasPrice")
			add("gasPrice", s)
			r.GasPrice = v
		}
		if g.has("gasLimit") {
			s, v := g.u64(where + ".gasLimit")
			add("gasLimit", s)
			r.GasLimit = v
		}
	}
	return g.obj(m), r
}

func (g *scenGen) result(where string) (jobj, *mj.TransactionResult) {
	m := jobj{}
	r := &mj.TransactionResult{
		Status: mj.JSONCheckBigIntUnspecified(), Message: mj.JSONCheckBytesUnspecified(), Gas: mj.JSONCheckUint64Unspecified(),
		Refund: mj.JSONCheckBigIntUnspecified(), LogsStar: true, LogsUnspecified: true,
	}
	add := func(k string, v interface{}) { m = append(m, jfield{k, v}) }
	if g.has("out") {
		l := jlist{}
		for i, n := 0, g.n(3, "out"); i < n; i++ {
			j, v := g.cbytes(where + ".out")
			l, r.Out = append(l, j), append(r.Out, v)
		}
		add("out", l)
	}
	if g.has("status") {
		if g.star() {
			add("status", "*")
			r.Status = mj.JSONCheckBigInt{IsStar: true}
		} else {
			s, b := g.value(where+".status", nil)
			add("status", s)
			r.Status = mj.JSONCheckBigInt{Value: signedOf(b)}
		}
	}
	if g.has("message") {
		j, v := g.cbytes(where + ".message")
		add("message", j)
		r.Message = v
	}
	switch g.n(4, "logs") {
	case 0:
	case 1:
		add("logs", "*")
		r.LogsUnspecified = false
	case 2:
		r.LogHash = g.str("logHash")
		if r.LogHash == "*" {
			r.LogHash = "h"
		}
		add("logs", r.LogHash)
		r.LogsStar, r.LogsUnspecified = false, false
	default:
		r.LogsStar, r.LogsUnspecified = false, false
		l := jlist{}
		for i, n := 0, g.n(3, "logs"); i < n; i++ {
			f, e := jobj{}, &mj.LogEntry{}
			for _, x := range []struct {
				k string
				p *mj.JSONCheckBytes
			}{{"address", &e.Address}, {"identifier", &e.Identifier}, {"data", &e.Data}} {
				if g.has(x.k) {
					s, v := g.cbytes(where + ".logs." + x.k)
					f = append(f, jfield{x.k, s})
					*x.p = v
				}
			}
			if g.has("topics") {
				tl := jlist{}
				for i, n := 0, g.n(3, "topics"); i < n; i++ {
					j, v := g.cbytes(where + ".logs.topics")
					tl, e.Topics = append(tl, j), append(e.Topics, v)
				}
				f = append(f, jfield{"topics", tl})
			}
			l, r.Logs = append(l, g.obj(f)), append(r.Logs, e)
		}
		add("logs", l)
	}
	if g.has("gas") {
		s, v := g.cu64(where + ".gas")
		add("gas", s)
		r.Gas = v
	}
	if g.has("refund") {
		s, v := g.cbig(where + ".refund")
		add("refund", s)
		r.Refund = v
	}
	return g.obj(m), r
}

func (g *scenGen) blockInfo(where string) (jobj, *mj.BlockInfo) {
	m, r := jobj{}, &mj.BlockInfo{}
	for _, x := range []struct {
		k string
		p *mj.JSONUint64
	}{{"blockTimestamp", &r.BlockTimestamp}, {"blockNonce", &r.BlockNonce}, {"blockRound", &r.BlockRound}, {"blockEpoch", &r.BlockEpoch}} {
		if g.has(x.k) {
			s, v := g.u64(where + "." + x.k)
			m = append(m, jfield{x.k, s})
			*x.p = v
		}
	}
	if g.has("blockRandomSeed") {
		b := rapid.SliceOfN(rapid.Byte(), 48, 48).Draw(g.t, "seed")
		var j interface{} = hexText(b)
		if g.has("seedParts") {
			j = jlist{hexText(b[:20]), jobj{{"a", hexText(b[20:])}}}
		}
		if g.poisoned(where + ".blockRandomSeed") {
			j = rapid.SampledFrom([]interface{}{hexText(b[:47]), hexText(append(b, 1)), "", "x"}).Draw(g.t, "badSeed")
		}
		m = append(m, jfield{"blockRandomSeed", j})
		r.BlockRandomSeed = &mj.JSONBytesFromTree{Value: b}
	}
	return g.obj(m), r
}

func (g *scenGen) hashes(where string) (jlist, []mj.JSONBytesFromString) {
	l := jlist{}
	var r []mj.JSONBytesFromString
	for i, n := 0, g.n(3, "hashes"); i < n; i++ {
		s, v := g.bytes(where)
		l, r = append(l, s), append(r, v)
	}
	return l, r
}

func (g *scenGen) step() (jobj, mj.Step) {
	m := jobj{}
	add := func(k string, v interface{}) { m = append(m, jfield{k, v}) }
	comment := ""
	if g.has("comment") {
		comment = g.str("comment")
		add("comment", comment)
	}
	switch k := g.n(9, "step"); k {
	case 0:
		add("step", "externalSteps")
		r := &mj.ExternalStepsStep{Comment: comment}
		if g.has("path") {
			r.Path = g.str("path")
			add("path", r.Path)
		}
		return g.obj(m), r
	case 1:
		add("step", "dumpState")
		return g.obj(m), &mj.DumpStateStep{Comment: comment}
	case 2, 3:
		add("step", "setState")
		r := &mj.SetStateStep{Comment: comment}
		if g.has("accounts") {
			j, v := g.accounts("setState.accounts", 3)
			add("accounts", j)
			r.Accounts = v
		}
		if g.has("newAddresses") {
			l := jlist{}
			for i, n := 0, g.n(3, "newAddresses"); i < n; i++ {
				f, e := jobj{}, &mj.NewAddressMock{}
				if g.has("creatorAddress") {
					s, v := g.addr("newAddresses.creatorAddress")
					f, e.CreatorAddress = append(f, jfield{"creatorAddress", s}), v
				}
				if g.has("creatorNonce") {
					s, v := g.u64("newAddresses.creatorNonce")
					f, e.CreatorNonce = append(f, jfield{"creatorNonce", s}), v
				}
				if g.has("newAddress") {
					s, v := g.addr("newAddresses.newAddress")
					f, e.NewAddress = append(f, jfield{"newAddress", s}), v
				}
				l, r.NewAddressMocks = append(l, g.obj(f)), append(r.NewAddressMocks, e)
			}
			add("newAddresses", l)
		}
		if g.has("previousBlockInfo") {
			j, v := g.blockInfo("previousBlockInfo")
			add("previousBlockInfo", j)
			r.PreviousBlockInfo = v
		}
		if g.has("currentBlockInfo") {
			j, v := g.blockInfo("currentBlockInfo")
			add("currentBlockInfo", j)
			r.CurrentBlockInfo = v
		}
		if g.has("blockHashes") {
			j, v := g.hashes("blockHashes")
			add("blockHashes", j)
			r.BlockHashes = v
		}
		return g.obj(m), r
	case 4, 5:
		add("step", "checkState")
		r := &mj.CheckStateStep{Comment: comment}
		j, v := g.checkAccounts("checkState.accounts", 3)
		add("accounts", j)
		r.CheckAccounts = v
		return g.obj(m), r
	default:
		typ := []mj.TransactionType{mj.ScCall, mj.ScDeploy, mj.ScQuery, mj.Transfer, mj.ValidatorReward}[g.n(4, "type")]
		name := map[mj.TransactionType]string{mj.ScCall: "scCall", mj.ScDeploy: "scDeploy", mj.ScQuery: "scQuery", mj.Transfer: "transfer", mj.ValidatorReward: "validatorReward"}[typ]
		add("step", name)
		r := &mj.TxStep{Comment: comment}
		if g.has("txId") {
			r.TxIdent = g.str("txId")
			add("txId", r.TxIdent)
		}
		j, v := g.tx(name, typ, false)
		add("tx", j)
		r.Tx = v
		if typ.IsSmartContractTx() && g.has("expect") {
			j, v := g.result(name + ".expect")
			add("expect", j)
			r.ExpectedResult = v
		}
		return g.obj(m), r
	}
}

func (g *scenGen) scenario(maxSteps int) (jobj, *mj.Scenario) {
	m, r := jobj{}, &mj.Scenario{CheckGas: true}
	add := func(k string, v interface{}) { m = append(m, jfield{k, v}) }
	if g.has("name") {
		r.Name = g.str("name")
		add("name", r.Name)
	}
	if g.has("comment") {
		r.Comment = g.str("comment")
		add("comment", r.Comment)
	}
	if g.has("checkGas") {
		r.CheckGas = g.has("gas")
		add("checkGas", r.CheckGas)
	}
	if g.has("gasSchedule") {
		i := g.n(4, "schedule")
		r.GasSchedule = []mj.GasSchedule{mj.GasScheduleDefault, mj.GasScheduleDummy, mj.GasScheduleV1, mj.GasScheduleV2, mj.GasScheduleV3}[i]
		add("gasSchedule", []string{"default", "dummy", "v1", "v2", "v3"}[i])
	}
	l := jlist{}
	for i, n := 0, g.n(maxSteps, "steps"); i < n; i++ {
		j, s := g.step()
		l, r.Steps = append(l, j), append(r.Steps, s)
	}
	add("steps", l)
	return g.obj(m), r
}

func (g *scenGen) tests() (jobj, []*mj.Test) {
	top := jobj{}
	var all []*mj.Test
	names := map[string]bool{}
	for i, n := 0, 1+g.n(1, "tests"); i < n; i++ {
		r := &mj.Test{CheckGas: true, TestName: g.str("testName")}
		if names[r.TestName] {
			continue
		}
		names[r.TestName] = true
		m := jobj{}
		add := func(k string, v interface{}) { m = append(m, jfield{k, v}) }
		if g.has("checkGas") {
			r.CheckGas = g.has("gas")
			add("checkGas", r.CheckGas)
		}
		if g.has("pre") {
			j, v := g.accounts("pre", 2)
			add("pre", j)
			r.Pre = v
		}
		if g.has("blocks") {
			l := jlist{}
			for i, n := 0, g.n(2, "blocks"); i < n; i++ {
				b := &mj.Block{}
				f := jobj{}
				rl, tl := jlist{}, jlist{}
				for i, n := 0, g.n(2, "transactions"); i < n; i++ {
					typ := mj.ScCall
					if g.has("deploy") {
						typ = mj.ScDeploy
					}
					j, v := g.tx("transactions", typ, true)
					tl, b.Transactions = append(tl, j), append(b.Transactions, v)
					j2, v2 := g.result("results")
					rl, b.Results = append(rl, j2), append(b.Results, v2)
				}
				f = append(f, jfield{"transactions", tl}, jfield{"results", rl})
				if g.has("blockHeader") {
					h := jobj{}
					b.BlockHeader = &mj.BlockHeader{}
					for _, x := range []struct {
						k string
						p *mj.JSONBigInt
					}{{"gasLimit", &b.BlockHeader.GasLimit}, {"number", &b.BlockHeader.Number}, {"difficulty", &b.BlockHeader.Difficulty}, {"coinbase", &b.BlockHeader.Beneficiary}} {
						if g.has(x.k) {
							s, v := g.big("blockHeader." + x.k)
							h = append(h, jfield{x.k, s})
							*x.p = v
						}
					}
					if g.has("timestamp") {
						s, v := g.u64("blockHeader.timestamp")
						h, b.BlockHeader.Timestamp = append(h, jfield{"timestamp", s}), v
					}
					f = append(f, jfield{"blockHeader", g.obj(h)})
				}
				l, r.Blocks = append(l, g.obj(f)), append(r.Blocks, b)
			}
			add("blocks", l)
		}
		if g.has("network") {
			r.Network = g.str("network")
			add("network", r.Network)
		}
		if g.has("blockHashes") {
			j, v := g.hashes("blockHashes")
			add("blockHashes", j)
			r.BlockHashes = v
		}
		j, v := g.checkAccounts("postState", 2)
		add("postState", j)
		r.PostState = v
		top, all = append(top, jfield{r.TestName, g.obj(m)}), append(all, r)
	}
	return top, all
}

// ---- comparing meanings

// canon renders what a model means: values, without the text they came from.
func canon(v interface{}) []string {
	var out []string
	var walk func(path string, v reflect.Value)
	walk = func(path string, v reflect.Value) {
		put := func(f string, a ...interface{}) { out = append(out, path+" = "+fmt.Sprintf(f, a...)) }
		num := func(n *big.Int) string {
			if n == nil {
				return "0"
			}
			return n.String()
		}
		check := func(star, unspecified bool, val string) {
			switch {
			case star:
				put("*")
			case unspecified:
				put("unspecified")
			default:
				put("%s", val)
			}
		}
		if v.Kind() == reflect.Interface || v.Kind() == reflect.Ptr {
			if v.IsNil() {
				put("none")
				return
			}
		}
		switch x := v.Interface().(type) {
		case mj.JSONBytesFromString:
			put("%x", x.Value)
			return
		case mj.JSONBytesFromTree:
			put("%x", x.Value)
			return
		case mj.JSONBigInt:
			put("%s", num(x.Value))
			return
		case mj.JSONUint64:
			put("%d", x.Value)
			return
		case mj.JSONCheckBytes:
			check(x.IsStar, x.Unspecified, fmt.Sprintf("%x", x.Value))
			return
		case mj.JSONCheckBigInt:
			check(x.IsStar, x.Unspecified, num(x.Value))
			return
		case mj.JSONCheckUint64:
			check(x.IsStar, x.Unspecified, fmt.Sprint(x.Value))
			return
		}
		switch v.Kind() {
		case reflect.Interface, reflect.Ptr:
			walk(path+"("+strings.TrimPrefix(v.Elem().Type().String(), "mandosjsonmodel.")+")", v.Elem())
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				walk(path+"."+v.Type().Field(i).Name, v.Field(i))
			}
		case reflect.Slice:
			for i := 0; i < v.Len(); i++ {
				walk(fmt.Sprintf("%s[%d]", path, i), v.Index(i))
			}
		default:
			put("%#v", v.Interface())
		}
	}
	walk("", reflect.ValueOf(v))
	return out
}

func firstDifference(a, b []string) string {
	for i := 0; i < len(a) || i < len(b); i++ {
		x, y := "(nothing)", "(nothing)"
		if i < len(a) {
			x = a[i]
		}
		if i < len(b) {
			y = b[i]
		}
		if x != y {
			return fmt.Sprintf("%s  instead of  %s", y, x)
		}
	}
	return ""
}

func recovering(t *rapid.T, what string, in string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			if _, stop := r.(interface{ StopTest() }); stop {
				panic(r)
			}
			t.Fatalf("%s panicked: %v\n%s", what, r, in)
		}
	}()
	f()
}

func TestScenarioFiles(t *testing.T) {
	vh.Rule("C19", "scenario and test files generated with their meaning, read, written, read again and written again; non-trivial when the file has at least one step, account or block")
	p := mjparse.NewParser(stubResolver{})
	t.Run("scenarios", func(t *testing.T) {
		vh.Check(t, func(t *rapid.T) {
			g := &scenGen{t: t, poison: -1}
			j, want := g.scenario(3)
			in := text(t, j)
			kinds := ""
			if len(want.Steps) > 0 {
				kinds = want.Steps[0].StepTypeName()
			}
			vh.Case(len(want.Steps) > 0, fmt.Sprintf("scenario starting with %s", kinds), in, func() string { return in })
			var s, s2 *mj.Scenario
			var err error
			var w string
			recovering(t, "reading", in, func() { s, err = p.ParseScenarioFile([]byte(in)) })
			if err != nil {
				t.Fatalf("refused: %v\n%s", err, in)
			}
			if d := firstDifference(canon(want), canon(s)); d != "" {
				t.Fatalf("read as %s\n%s", d, in)
			}
			recovering(t, "writing", in, func() { w = mjwrite.ScenarioToJSONString(s) })
			if again := mjwrite.ScenarioToJSONString(s); again != w {
				t.Fatalf("written twice differently:\n%s\n%s", w, again)
			}
			recovering(t, "reading what was written", w, func() { s2, err = p.ParseScenarioFile([]byte(w)) })
			if err != nil {
				t.Fatalf("the written form is refused: %v\n%s\nwritten as\n%s", err, in, w)
			}
			if d := firstDifference(canon(s), canon(s2)); d != "" {
				t.Fatalf("after writing and reading: %s\n%s\nwritten as\n%s", d, in, w)
			}
			if w2 := mjwrite.ScenarioToJSONString(s2); w2 != w {
				t.Fatalf("written as\n%s\nthen as\n%s", w, w2)
			}
			for i, step := range want.Steps {
				st, ok := step.(*mj.SetStateStep)
				if !ok || len(st.Accounts) == 0 {
					continue
				}
				// the state dump writes accounts with the same function
				accs := s.Steps[i].(*mj.SetStateStep).Accounts
				o := oj.JSONString(mjwrite.AccountsToOJ(accs))
				one, err := p.ParseScenarioStep(`{"step":"setState","accounts":` + o + `}`)
				if err != nil {
					t.Fatalf("written accounts are refused: %v\n%s", err, o)
				}
				if d := firstDifference(canon(accs), canon(one.(*mj.SetStateStep).Accounts)); d != "" {
					t.Fatalf("accounts written as\n%s\n%s", o, d)
				}
			}
		})
	})
	t.Run("tests", func(t *testing.T) {
		vh.Check(t, func(t *rapid.T) {
			g := &scenGen{t: t, poison: -1}
			j, want := g.tests()
			in := text(t, j)
			vh.Case(len(want) > 0, fmt.Sprintf("test file with %d tests", len(want)), in, func() string { return in })
			var s, s2 []*mj.Test
			var err error
			var w string
			recovering(t, "reading", in, func() { s, err = p.ParseTestFile([]byte(in)) })
			if err != nil {
				t.Fatalf("refused: %v\n%s", err, in)
			}
			if d := firstDifference(canon(want), canon(s)); d != "" {
				t.Fatalf("read as %s\n%s", d, in)
			}
			recovering(t, "writing", in, func() { w = mjwrite.TestToJSONString(s) })
			recovering(t, "reading what was written", w, func() { s2, err = p.ParseTestFile([]byte(w)) })
			if err != nil {
				t.Fatalf("the written form is refused: %v\n%s\nwritten as\n%s", err, in, w)
			}
			if d := firstDifference(canon(s), canon(s2)); d != "" {
				t.Fatalf("after writing and reading: %s\n%s\nwritten as\n%s", d, in, w)
			}
			if w2 := mjwrite.TestToJSONString(s2); w2 != w {
				t.Fatalf("written as\n%s\nthen as\n%s", w, w2)
			}
			if len(s) == 1 && len(s[0].Blocks) == 1 {
				// the conversion to a scenario keeps the accounts, transactions and expectations in order
				var c *mj.Scenario
				recovering(t, "converting", in, func() { c, err = mj.ConvertTestToScenario(s) })
				if err != nil {
					t.Fatalf("cannot be converted: %v\n%s", err, in)
				}
				exp := []mj.Step{&mj.SetStateStep{Accounts: want[0].Pre, BlockHashes: want[0].BlockHashes}}
				for i, tx := range want[0].Blocks[0].Transactions {
					exp = append(exp, &mj.TxStep{TxIdent: fmt.Sprint(i + 1), Tx: tx, ExpectedResult: want[0].Blocks[0].Results[i]})
				}
				exp = append(exp, &mj.CheckStateStep{CheckAccounts: want[0].PostState})
				if d := firstDifference(canon(&mj.Scenario{CheckGas: want[0].CheckGas, Steps: exp}), canon(c)); d != "" {
					t.Fatalf("converted to a scenario: %s\n%s", d, in)
				}
			}
		})
	})
	t.Run("malformed values", func(t *testing.T) {
		vh.Check(t, func(t *rapid.T) {
			g := &scenGen{t: t, poison: rapid.IntRange(0, 25).Draw(t, "poison")}
			isTest := rapid.Bool().Draw(t, "test")
			var j jobj
			if isTest {
				j, _ = g.tests()
			} else {
				j, _ = g.scenario(2)
			}
			in := text(t, j)
			if g.where == "" {
				return
			}
			vh.Case(true, "malformed "+g.where, in, func() string { return in })
			var err error
			recovering(t, "reading", in, func() {
				if isTest {
					_, err = p.ParseTestFile([]byte(in))
				} else {
					_, err = p.ParseScenarioFile([]byte(in))
				}
			})
			if err == nil {
				t.Fatalf("a malformed %s was accepted\n%s", g.where, in)
			}
		})
	})
}
