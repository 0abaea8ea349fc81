//go:build go1.21

package worldx

import (
	"bytes"
	"crypto/sha256"
	"errors"
	"fmt"
	"math/big"
	"reflect"
	"sort"
	"strings"
	"testing"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/config"
	worldmock "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mock/world"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/zzverif/vh"
	vmcommon "github.com/ElrondNetwork/elrond-vm-common"
	"github.com/ElrondNetwork/elrond-vm-common/data/esdt"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { vh.Main(m) }

// acct is what an account should be.
type acct struct {
	addr     []byte
	nonce    uint64
	balance  *big.Int
	storage  map[string][]byte
	code     []byte
	hash     []byte // nil: never set
	meta     []byte
	owner    []byte
	async    string
	user     []byte
	reward   *big.Int
	shard    uint32
	contract bool
}

func (a *acct) clone() *acct {
	b := *a
	b.balance = new(big.Int).Set(a.balance)
	b.reward = new(big.Int).Set(a.reward)
	b.storage = cloneStorage(a.storage)
	return &b
}

func cloneStorage(s map[string][]byte) map[string][]byte {
	c := map[string][]byte{}
	for k, v := range s {
		c[k] = append([]byte{}, v...)
	}
	return c
}

type model struct {
	accts     map[string]*acct
	snaps     []map[string]*acct
	compiled  map[string][]byte
	mocks     []*worldmock.NewAddressMock
	last      []byte
	prev, cur *worldmock.BlockInfo
	hashes    [][]byte
	root      []byte
}

func (m *model) snapshot() {
	c := map[string]*acct{}
	for k, a := range m.accts {
		c[k] = a.clone()
	}
	m.snaps = append(m.snaps, c)
}

// revert gives every account the storage it had then, removes accounts that did not exist and brings back those deleted since.
func (m *model) revert(to int) bool {
	if to < 0 || to >= len(m.snaps) {
		return false
	}
	s := m.snaps[to]
	for k, a := range m.accts {
		old, ok := s[k]
		if !ok {
			delete(m.accts, k)
			continue
		}
		a.storage = cloneStorage(old.storage)
	}
	for k, old := range s {
		if m.accts[k] == nil {
			m.accts[k] = old.clone()
		}
	}
	m.snaps = m.snaps[:to+1]
	return true
}

func showAcct(nonce uint64, balance, reward *big.Int, storage map[string][]byte, code, hash, meta, owner []byte,
	async string, user []byte, shard uint32, contract bool) string {
	keys := make([]string, 0, len(storage))
	for k, v := range storage {
		if len(v) > 0 { // an empty value is no value
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	var s strings.Builder
	fmt.Fprintf(&s, "nonce=%d balance=%v reward=%v code=%x hash=%x meta=%x owner=%x async=%q user=%x shard=%d contract=%v",
		nonce, balance, reward, code, hash, meta, owner, async, user, shard, contract)
	for _, k := range keys {
		fmt.Fprintf(&s, " [%q]=%x", k, storage[k])
	}
	return s.String()
}

func (m *model) dump() map[string]string {
	r := map[string]string{}
	for k, a := range m.accts {
		r[k] = showAcct(a.nonce, a.balance, a.reward, a.storage, a.code, a.hash, a.meta, a.owner, a.async, a.user, a.shard, a.contract)
	}
	return r
}

func dumpWorld(am worldmock.AccountMap) map[string]string {
	r := map[string]string{}
	for k, a := range am {
		if a == nil {
			r[k] = "nil"
			continue
		}
		s := showAcct(a.Nonce, a.Balance, a.DeveloperReward, a.Storage, a.Code, a.CodeHash, a.CodeMetadata, a.OwnerAddress,
			a.AsyncCallData, a.Username, a.ShardID, a.IsSmartContract)
		if string(a.Address) != k {
			s += fmt.Sprintf(" WRONG ADDRESS %x", a.Address)
		}
		if !a.Exists {
			s += " NOT EXISTING"
		}
		r[k] = s
	}
	return r
}

func diff(got, want map[string]string) string {
	for k, w := range want {
		g, ok := got[k]
		if !ok {
			return fmt.Sprintf("account %x is missing; it should be\n  %s", k, w)
		}
		if g != w {
			return fmt.Sprintf("account %x is\n  %s\nand should be\n  %s", k, g, w)
		}
	}
	for k, g := range got {
		if _, ok := want[k]; !ok {
			return fmt.Sprintf("account %x should not exist; it is\n  %s", k, g)
		}
	}
	return ""
}

// the addresses of a run: users, contracts, and some that are alike in all but one byte
var addrs = func() [][]byte {
	var r [][]byte
	for i := 0; i < 4; i++ {
		u := bytes.Repeat([]byte{'u'}, 32)
		u[31-i] = byte('0' + i)
		r = append(r, u)
		c := append(make([]byte, 8), bytes.Repeat([]byte{'c'}, 24)...)
		c[31] = byte('0' + i)
		r = append(r, c)
	}
	return r
}()

var tokens = []string{"TOK-123456", "TOK-123457", "NFT-abcdef", "A-000000"}

var keys = []string{"k", "kk", "key", "", "ELRON", "ELRONDother", "\x00", strings.Repeat("long", 20)}

type run struct {
	t   *rapid.T
	w   *worldmock.MockWorld
	m   *model
	log []string
	// how often each kind of step changed something
	reverts, failures, updates, distances int
}

func (r *run) say(format string, a ...interface{}) { r.log = append(r.log, fmt.Sprintf(format, a...)) }

func (r *run) fail(format string, a ...interface{}) {
	r.t.Helper()
	r.t.Fatalf("after\n  %s\n%s", strings.Join(r.log, "\n  "), fmt.Sprintf(format, a...))
}

func (r *run) addr(label string) []byte {
	if len(r.m.last) == 32 && rapid.IntRange(0, 9).Draw(r.t, label+"New") == 0 {
		return append([]byte{}, r.m.last...)
	}
	return append([]byte{}, rapid.SampledFrom(addrs).Draw(r.t, label)...)
}

// existing draws an account that exists, or nil.
func (r *run) existing(label string) *acct {
	var ks []string
	for k := range r.m.accts {
		ks = append(ks, k)
	}
	if len(ks) == 0 {
		return nil
	}
	sort.Strings(ks)
	return r.m.accts[rapid.SampledFrom(ks).Draw(r.t, label)]
}

func (r *run) bytes(label string) []byte {
	return rapid.SliceOfN(rapid.Byte(), 0, 12).Draw(r.t, label)
}

func (r *run) amount(label string) *big.Int {
	switch rapid.IntRange(0, 3).Draw(r.t, label+"Kind") {
	case 0:
		return big.NewInt(0)
	case 1:
		return big.NewInt(rapid.Int64Range(1, 1000).Draw(r.t, label))
	case 2:
		return new(big.Int).SetUint64(rapid.Uint64().Draw(r.t, label))
	}
	return new(big.Int).SetBytes(rapid.SliceOfN(rapid.Byte(), 9, 20).Draw(r.t, label))
}

func (r *run) key(label string) string { return rapid.SampledFrom(keys).Draw(r.t, label) }

func (r *run) uint64(label string) uint64 {
	if rapid.Bool().Draw(r.t, label+"Small") {
		return rapid.Uint64Range(0, 300).Draw(r.t, label)
	}
	return rapid.Uint64().Draw(r.t, label)
}

func newAcct(addr []byte) *acct {
	return &acct{addr: addr, balance: big.NewInt(0), reward: big.NewInt(0), storage: map[string][]byte{}}
}

func sum(code []byte) []byte { h := sha256.Sum256(code); return h[:] }

var allFlags = (&vmcommon.CodeMetadata{Payable: true, Upgradeable: true, Readable: true}).ToBytes()

// output draws what a transaction may have done to an account.
func (r *run) output(addr []byte) *vmcommon.OutputAccount {
	t := r.t
	o := &vmcommon.OutputAccount{Address: addr, Balance: r.amount("outBalance"), StorageUpdates: map[string]*vmcommon.StorageUpdate{}}
	o.Nonce = rapid.Uint64Range(0, 6).Draw(t, "outNonce")
	switch rapid.IntRange(0, 3).Draw(t, "outDelta") {
	case 0: // no delta: the balance itself
	case 1:
		o.BalanceDelta = big.NewInt(0)
	case 2:
		o.BalanceDelta = r.amount("outDeltaValue")
	case 3:
		o.BalanceDelta = new(big.Int).Neg(r.amount("outDeltaValue"))
	}
	if rapid.IntRange(0, 3).Draw(t, "outCode") == 0 {
		o.Code = append([]byte("code"), r.bytes("code")...)
		o.CodeMetadata = r.bytes("codeMeta")
	}
	if rapid.Bool().Draw(t, "outDeployer") {
		o.CodeDeployerAddress = r.addr("deployer")
	}
	for i := rapid.IntRange(0, 3).Draw(t, "outTransfers"); i > 0; i-- {
		o.OutputTransfers = append(o.OutputTransfers, vmcommon.OutputTransfer{Value: r.amount("tv"), Data: r.bytes("td"),
			GasLimit: 1, SenderAddress: r.addr("ts")})
	}
	for i := rapid.IntRange(0, 3).Draw(t, "outStorage"); i > 0; i-- {
		k := r.key("outKey")
		o.StorageUpdates[k] = &vmcommon.StorageUpdate{Offset: []byte(k), Data: r.bytes("outValue")}
	}
	return o
}

func (r *run) apply(o *vmcommon.OutputAccount) {
	a := r.m.accts[string(o.Address)]
	if a == nil {
		a = newAcct(o.Address)
		a.owner = o.CodeDeployerAddress
		r.m.accts[string(o.Address)] = a
	}
	if o.BalanceDelta != nil {
		a.balance = new(big.Int).Add(a.balance, o.BalanceDelta)
	} else {
		a.balance = new(big.Int).Set(o.Balance)
	}
	if o.Nonce > a.nonce {
		a.nonce = o.Nonce
	}
	if len(o.Code) > 0 {
		a.code, a.hash, a.contract = o.Code, sum(o.Code), true
		a.meta = allFlags
	}
	if len(o.OutputTransfers) > 0 && len(o.OutputTransfers[0].Data) > 0 {
		a.async = string(o.OutputTransfers[0].Data)
	}
	for _, u := range o.StorageUpdates {
		a.storage[string(u.Offset)] = append([]byte{}, u.Data...)
	}
}

func showOut(o *vmcommon.OutputAccount) string {
	s := fmt.Sprintf("%x: nonce %d balance %v delta %v code %x deployer %x transfers %d", o.Address, o.Nonce, o.Balance, o.BalanceDelta,
		o.Code, o.CodeDeployerAddress, len(o.OutputTransfers))
	if len(o.OutputTransfers) > 0 {
		s += fmt.Sprintf(" (data %x)", o.OutputTransfers[0].Data)
	}
	ks := []string{}
	for k := range o.StorageUpdates {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		s += fmt.Sprintf(" [%q]=%x", k, o.StorageUpdates[k].Data)
	}
	return s
}

func copyOut(o *vmcommon.OutputAccount) *vmcommon.OutputAccount {
	c := *o
	c.Balance = new(big.Int).Set(o.Balance)
	if o.BalanceDelta != nil {
		c.BalanceDelta = new(big.Int).Set(o.BalanceDelta)
	}
	c.StorageUpdates = map[string]*vmcommon.StorageUpdate{}
	for k, u := range o.StorageUpdates {
		v := *u
		v.Data = append([]byte{}, u.Data...)
		c.StorageUpdates[k] = &v
	}
	return &c
}

func (r *run) token(label string) string { return rapid.SampledFrom(tokens).Draw(r.t, label) }

func (r *run) nonce(label string) uint64 {
	return rapid.SampledFrom([]uint64{0, 0, 1, 2, 255, 256, 65537, 1 << 40, 1<<64 - 1}).Draw(r.t, label)
}

func tokenKey(token string, nonce uint64) string {
	return "ELRONDesdt" + token + string(new(big.Int).SetUint64(nonce).Bytes())
}

func marshal(t *esdt.ESDigitalToken) []byte { b, _ := t.Marshal(); return b }

// instance decodes what the model's storage holds for a token.
func (a *acct) instance(token string, nonce uint64) *esdt.ESDigitalToken {
	k := tokenKey(token, nonce)
	d := &esdt.ESDigitalToken{Value: big.NewInt(0), TokenMetaData: &esdt.MetaData{Name: []byte(k[len("ELRONDesdt"):])}}
	if len(a.storage[k]) > 0 {
		d = &esdt.ESDigitalToken{}
		if d.Unmarshal(a.storage[k]) != nil {
			return nil
		}
	}
	return d
}

func (r *run) hookErr(err error, want bool, what string) {
	r.t.Helper()
	if (err != nil) != want {
		r.fail("%s: error %v (expected one: %v)", what, err, want)
	}
}

// step makes one change.
func (r *run) step() {
	t, w, m := r.t, r.w, r.m
	switch op := rapid.SampledFrom(ops).Draw(t, "op"); op {
	case "update", "updateOne":
		n := 1
		if op == "update" {
			n = rapid.IntRange(0, 4).Draw(t, "accounts")
		}
		outs := map[string]*vmcommon.OutputAccount{}
		var before []*vmcommon.OutputAccount
		for i := 0; i < n; i++ {
			o := r.output(r.addr("outAddr"))
			outs[string(o.Address)] = o
		}
		var dels [][]byte
		if op == "update" && rapid.IntRange(0, 4).Draw(t, "deletes") == 0 {
			for i := rapid.IntRange(1, 2).Draw(t, "deleted"); i > 0; i-- {
				dels = append(dels, r.addr("delete"))
			}
		}
		var ks []string
		for k := range outs {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		s := ""
		for _, k := range ks {
			s += "\n    " + showOut(outs[k])
			before = append(before, copyOut(outs[k]))
		}
		for _, d := range dels {
			s += fmt.Sprintf("\n    delete %x", d)
		}
		r.say("%s%s", op, s)
		if op == "update" {
			if err := w.UpdateAccounts(outs, dels); err != nil {
				r.fail("UpdateAccounts: %v", err)
			}
		} else {
			w.UpdateAccountFromOutputAccount(outs[ks[0]])
		}
		for i, k := range ks {
			if !reflect.DeepEqual(outs[k], before[i]) {
				r.fail("the output was modified by applying it: %s, was %s", showOut(outs[k]), showOut(before[i]))
			}
			r.apply(before[i])
			r.updates++
		}
		for _, d := range dels {
			delete(m.accts, string(d))
		}
	case "balance":
		a, v := r.addr("a"), r.amount("v")
		r.say("UpdateBalance %x %v", a, v)
		err := w.UpdateBalance(a, v)
		r.hookErr(err, m.accts[string(a)] == nil, "UpdateBalance")
		if x := m.accts[string(a)]; x != nil {
			x.balance = new(big.Int).Set(v)
		}
	case "delta":
		a, v := r.addr("a"), r.amount("v")
		if rapid.Bool().Draw(t, "negative") {
			v = v.Neg(v)
		}
		r.say("UpdateBalanceWithDelta %x %v", a, v)
		kept := new(big.Int).Set(v)
		r.hookErr(w.UpdateBalanceWithDelta(a, v), m.accts[string(a)] == nil, "UpdateBalanceWithDelta")
		if v.Cmp(kept) != 0 {
			r.fail("the delta was modified to %v", v)
		}
		if x := m.accts[string(a)]; x != nil {
			x.balance = new(big.Int).Add(x.balance, kept)
		}
	case "before":
		a, l, p := r.addr("a"), r.uint64("limit"), r.uint64("price")
		pay := new(big.Int).Mul(new(big.Int).SetUint64(l), new(big.Int).SetUint64(p))
		x := m.accts[string(a)]
		short := x == nil || x.balance.Cmp(pay) < 0
		r.say("UpdateWorldStateBefore %x %d*%d", a, l, p)
		r.hookErr(w.UpdateWorldStateBefore(a, l, p), short, "UpdateWorldStateBefore")
		if !short {
			x.nonce++
			x.balance = new(big.Int).Sub(x.balance, pay)
		} else if x != nil {
			// whether a transaction that cannot be paid has a nonce of its own is left open
			if got := w.AcctMap[string(a)].Nonce; got == x.nonce+1 {
				x.nonce = got
			}
			r.failures++
		}
	case "backup":
		r.say("CreateStateBackup")
		w.CreateStateBackup()
		m.snapshot()
	case "revert":
		to := rapid.IntRange(-1, len(m.snaps)).Draw(t, "to")
		if rapid.Bool().Draw(t, "latest") {
			to = len(m.snaps) - 1
		}
		d := len(m.snaps) - to
		r.say("RevertToSnapshot %d", to)
		err := w.RevertToSnapshot(to)
		ok := m.revert(to)
		r.hookErr(err, !ok, "RevertToSnapshot")
		if ok {
			r.reverts++
			if d > 1 {
				r.distances++
			}
		}
	case "rollback":
		r.say("RollbackChanges")
		err := w.RollbackChanges()
		ok := m.revert(0)
		r.hookErr(err, !ok, "RollbackChanges")
		if ok {
			m.snaps = nil
			r.reverts++
		}
	case "commit":
		r.say("CommitChanges")
		if err := w.CommitChanges(); err != nil {
			r.fail("CommitChanges: %v", err)
		}
		m.snaps = nil
	case "save":
		a := r.existing("a")
		if a == nil {
			return
		}
		k, v := r.key("k"), r.bytes("v")
		if rapid.IntRange(0, 2).Draw(t, "tokenKey") == 0 {
			tok, n := r.token("token"), r.nonce("nonce")
			k = tokenKey(tok, n)
			v = marshal(r.tokenData(tok, n))
		}
		r.say("SaveKeyValue %x %q %x", a.addr, k, v)
		h, err := w.GetUserAccount(a.addr)
		if err != nil {
			r.fail("GetUserAccount %x: %v", a.addr, err)
		}
		if err = h.AccountDataHandler().SaveKeyValue([]byte(k), append([]byte{}, v...)); err != nil {
			r.fail("SaveKeyValue: %v", err)
		}
		a.storage[k] = v
		m.snapshot() // each write can be undone
	case "put":
		a := newAcct(r.addr("a"))
		a.nonce, a.balance, a.shard = r.uint64("nonce"), r.amount("balance"), uint32(rapid.IntRange(0, 3).Draw(t, "shard"))
		a.user, a.owner, a.reward = r.bytes("user"), r.addr("owner"), r.amount("reward")
		a.storage[r.key("k")] = r.bytes("v")
		md := vmcommon.CodeMetadata{Payable: rapid.Bool().Draw(t, "payable"), Upgradeable: rapid.Bool().Draw(t, "upgradeable"),
			Readable: rapid.Bool().Draw(t, "readable")}
		if rapid.Bool().Draw(t, "isContract") {
			a.code = append([]byte("code"), r.bytes("code")...)
		}
		x := &worldmock.Account{Exists: true, Address: append([]byte{}, a.addr...), Nonce: a.nonce, Balance: new(big.Int).Set(a.balance), BalanceDelta: big.NewInt(0),
			Storage: cloneStorage(a.storage), Username: a.user, OwnerAddress: a.owner, DeveloperReward: new(big.Int).Set(a.reward),
			ShardID: a.shard, MockWorld: w}
		if a.code != nil {
			x.SetCodeAndMetadata(append([]byte{}, a.code...), &md)
			a.hash, a.meta, a.contract = sum(a.code), md.ToBytes(), true
		}
		r.say("PutAccount %x %s", a.addr, showAcct(a.nonce, a.balance, a.reward, a.storage, a.code, a.hash, a.meta, a.owner, a.async, a.user, a.shard, a.contract))
		w.AcctMap.PutAccount(x)
		m.accts[string(a.addr)] = a
	case "create":
		a := newAcct(r.addr("a"))
		r.say("CreateAccount %x", a.addr)
		given := append([]byte{}, a.addr...)
		w.AcctMap.CreateAccount(given, w)
		given[31]++ // the account has an address of its own
		m.accts[string(a.addr)] = a
	case "delete":
		a := r.addr("a")
		r.say("DeleteAccount %x", a)
		w.AcctMap.DeleteAccount(a)
		delete(m.accts, string(a))
	case "remove":
		a := r.addr("a")
		r.say("RemoveAccount %x", a)
		r.hookErr(w.AccountsAdapter.RemoveAccount(a), m.accts[string(a)] == nil, "RemoveAccount")
		delete(m.accts, string(a))
	case "add", "sub":
		a := r.existing("a")
		if a == nil {
			return
		}
		v := r.amount("v")
		if rapid.Bool().Draw(t, "all") {
			v = new(big.Int).Set(a.balance)
		}
		x := w.AcctMap[string(a.addr)]
		r.say("%s balance of %x: %v", op, a.addr, v)
		var err error
		n := new(big.Int)
		if op == "add" {
			err = x.AddToBalance(v)
			n.Add(a.balance, v)
		} else {
			err = x.SubFromBalance(v)
			n.Sub(a.balance, v)
		}
		r.hookErr(err, n.Sign() < 0, op)
		if n.Sign() >= 0 {
			a.balance = n
		} else {
			r.failures++
		}
	case "reward":
		a := r.existing("a")
		if a == nil {
			return
		}
		x := w.AcctMap[string(a.addr)]
		v, sender := r.amount("v"), r.addr("sender")
		if rapid.Bool().Draw(t, "byOwner") && a.owner != nil {
			sender = append([]byte{}, a.owner...)
		}
		r.say("reward %x: +%v, claimed by %x", a.addr, v, sender)
		x.AddToDeveloperReward(v)
		a.reward = new(big.Int).Add(a.reward, v)
		got, err := x.ClaimDeveloperRewards(sender)
		r.hookErr(err, !bytes.Equal(sender, a.owner), "ClaimDeveloperRewards")
		if err == nil {
			if got.Cmp(a.reward) != 0 {
				r.fail("claimed %v, had %v", got, a.reward)
			}
			a.reward = big.NewInt(0)
		} else {
			r.failures++
		}
	case "owner":
		a := r.existing("a")
		if a == nil {
			return
		}
		x := w.AcctMap[string(a.addr)]
		sender, next := r.addr("sender"), r.addr("next")
		if rapid.Bool().Draw(t, "byOwner") && a.owner != nil {
			sender = append([]byte{}, a.owner...)
		}
		if rapid.IntRange(0, 4).Draw(t, "short") == 0 {
			next = next[:31]
		}
		bad := !bytes.Equal(sender, a.owner) || len(next) != 32
		r.say("ChangeOwnerAddress of %x by %x to %x", a.addr, sender, next)
		r.hookErr(x.ChangeOwnerAddress(sender, next), bad, "ChangeOwnerAddress")
		if !bad {
			a.owner = next
		}
	case "user":
		a := r.existing("a")
		if a == nil {
			return
		}
		u := r.bytes("user")
		r.say("SetUserName %x %x", a.addr, u)
		given := append([]byte{}, u...)
		w.AcctMap[string(a.addr)].SetUserName(given)
		for i := range given {
			given[i]++
		}
		a.user = u
	case "nonce":
		a := r.existing("a")
		if a == nil {
			return
		}
		n := rapid.Uint64Range(0, 5).Draw(t, "n")
		r.say("IncreaseNonce %x %d", a.addr, n)
		w.AcctMap[string(a.addr)].IncreaseNonce(n)
		a.nonce += n
	case "newAddress":
		c, n := r.addr("creator"), rapid.Uint64Range(0, 4).Draw(t, "n")
		if rapid.Bool().Draw(t, "mocked") {
			x := &worldmock.NewAddressMock{CreatorAddress: r.addr("mockCreator"), CreatorNonce: rapid.Uint64Range(0, 4).Draw(t, "mockNonce"), NewAddress: r.addr("mockNew")}
			w.NewAddressMocks = append(w.NewAddressMocks, x)
			m.mocks = append(m.mocks, &worldmock.NewAddressMock{CreatorAddress: append([]byte{}, x.CreatorAddress...), CreatorNonce: x.CreatorNonce,
				NewAddress: append([]byte{}, x.NewAddress...)})
			r.say("mock: %x at %d makes %x", x.CreatorAddress, x.CreatorNonce, x.NewAddress)
		}
		r.say("NewAddress %x %d", c, n)
		got, err := w.NewAddress(c, n, []byte{5, 0})
		if err != nil {
			r.fail("NewAddress: %v", err)
		}
		var want []byte
		for _, x := range m.mocks {
			if want == nil && bytes.Equal(x.CreatorAddress, c) && x.CreatorNonce == n {
				want = x.NewAddress
			}
		}
		if want == nil {
			// no particular address is promised, but a contract's, the same each time and another for another nonce
			again, _ := w.NewAddress(c, n, []byte{5, 0})
			other := worldmock.GenerateMockAddress(c, n+1)
			if len(got) != 32 || !vmcommon.IsSmartContractAddress(got) || !bytes.Equal(got, again) || bytes.Equal(got, other) {
				r.fail("new address %x, then %x; with the next nonce %x", got, again, other)
			}
			want = append([]byte{}, got...)
		}
		if !bytes.Equal(got, want) || !bytes.Equal(w.LastCreatedContractAddress, want) {
			r.fail("new address %x (last %x), expected %x", got, w.LastCreatedContractAddress, want)
		}
		m.last = want
	case "compiled":
		h, c := r.key("hash"), r.bytes("compiled")
		if rapid.IntRange(0, 5).Draw(t, "clear") == 0 {
			r.say("ClearCompiledCodes")
			w.ClearCompiledCodes()
			m.compiled = map[string][]byte{}
			return
		}
		r.say("SaveCompiledCode %q %x", h, c)
		w.SaveCompiledCode([]byte(h), c)
		m.compiled[h] = append([]byte{}, c...)
	case "token":
		r.tokenStep()
	case "transfer":
		r.transferStep()
	case "block":
		b := func(l string) *worldmock.BlockInfo {
			if rapid.IntRange(0, 5).Draw(t, l+"None") == 0 {
				return nil
			}
			x := &worldmock.BlockInfo{BlockTimestamp: r.uint64(l + "time"), BlockNonce: rapid.Uint64Range(0, 12).Draw(t, l+"nonce"), BlockRound: r.uint64(l + "round"),
				BlockEpoch: uint32(r.uint64(l + "epoch"))}
			if rapid.Bool().Draw(t, l+"seeded") {
				var s [48]byte
				copy(s[:], rapid.SliceOfN(rapid.Byte(), 48, 48).Draw(t, l+"seed"))
				x.RandomSeed = &s
			}
			return x
		}
		m.prev, m.cur = b("prev"), b("cur")
		m.hashes = nil
		for i := rapid.IntRange(0, 4).Draw(t, "hashes"); i > 0; i-- {
			m.hashes = append(m.hashes, r.bytes("hash"))
		}
		m.root = r.bytes("root")
		r.say("blocks %+v %+v hashes %x root %x", m.prev, m.cur, m.hashes, m.root)
		w.PreviousBlockInfo, w.CurrentBlockInfo, w.Blockhashes, w.StateRootHash = m.prev, m.cur, m.hashes, m.root
	case "clone":
		r.say("AcctMap.Clone, modified")
		c := w.AcctMap.Clone()
		if d := diff(stripHash(dumpWorld(c)), stripHash(dumpWorld(w.AcctMap))); d != "" {
			r.fail("the clone differs: %s", d)
		}
		for k, a := range c {
			a.Nonce++
			a.Balance.Add(a.Balance, big.NewInt(7))
			a.BalanceDelta.Add(a.BalanceDelta, big.NewInt(7))
			a.DeveloperReward.Add(a.DeveloperReward, big.NewInt(7))
			for s, v := range a.Storage {
				if len(v) > 0 {
					v[0]++
				}
				_ = s
			}
			a.Storage["clone"] = []byte{1}
			for _, b := range [][]byte{a.Code, a.OwnerAddress, a.Username, a.CodeMetadata, a.CodeHash} {
				if len(b) > 0 {
					b[0]++
				}
			}
			delete(c, k)
		}
	case "clear":
		r.say("Clear")
		w.Clear()
		if w.BuiltinFuncs != nil {
			if err := w.InitBuiltinFunctions(config.MakeGasMapForTests()); err != nil {
				r.fail("InitBuiltinFunctions: %v", err)
			}
		}
		m.accts, m.snaps, m.compiled = map[string]*acct{}, nil, map[string][]byte{}
		m.mocks, m.prev, m.cur, m.hashes = nil, nil, nil, nil
	}
}

func stripHash(m map[string]string) map[string]string { return m }

func (r *run) tokenData(tok string, n uint64) *esdt.ESDigitalToken {
	t := r.t
	d := &esdt.ESDigitalToken{Type: uint32(rapid.IntRange(0, 2).Draw(t, "type")), Value: r.amount("tokens")}
	if n > 0 {
		d.TokenMetaData = &esdt.MetaData{Nonce: n, Name: r.bytes("name"), Creator: r.addr("creator"), Royalties: uint32(rapid.IntRange(0, 10000).Draw(t, "royalties")),
			Hash: r.bytes("hash"), Attributes: r.bytes("attributes")}
		for i := rapid.IntRange(0, 2).Draw(t, "uris"); i > 0; i-- {
			d.TokenMetaData.URIs = append(d.TokenMetaData.URIs, append([]byte{1}, r.bytes("uri")...))
		}
	}
	if rapid.IntRange(0, 4).Draw(t, "props") == 0 {
		d.Properties = []byte{byte(rapid.IntRange(0, 1).Draw(t, "frozen")), 0}
	}
	return d
}

func (r *run) tokenStep() {
	t, w := r.t, r.w
	a := r.existing("a")
	if a == nil {
		// unknown accounts are refused
		x := r.addr("unknown")
		if w.BuiltinFuncs == nil {
			return
		}
		k := []byte(tokenKey(r.token("token"), 0))
		_, e1 := w.BuiltinFuncs.GetTokenBalance(x, k)
		_, e2 := w.BuiltinFuncs.GetTokenData(x, k)
		e3 := w.BuiltinFuncs.SetTokenBalance(x, k, big.NewInt(1))
		e4 := w.BuiltinFuncs.SetTokenData(x, k, &esdt.ESDigitalToken{Value: big.NewInt(1)})
		for _, e := range []error{e1, e2, e3, e4} {
			r.hookErr(e, true, "tokens of an unknown account")
		}
		return
	}
	x := w.AcctMap[string(a.addr)]
	tok, n := r.token("token"), r.nonce("nonce")
	k := tokenKey(tok, n)
	if got := worldmock.MakeTokenKey([]byte(tok), n); string(got) != k {
		r.fail("key of %s %d is %x", tok, n, got)
	}
	switch rapid.IntRange(0, 5).Draw(t, "tokenOp") {
	case 0, 1:
		d := r.tokenData(tok, n)
		r.say("SetTokenData %x %s %d %v", a.addr, tok, n, d)
		var err error
		if w.BuiltinFuncs != nil && rapid.Bool().Draw(t, "wrapper") {
			err = w.BuiltinFuncs.SetTokenData(a.addr, []byte(k), d)
		} else {
			err = x.SetTokenData([]byte(k), d)
		}
		if err != nil {
			r.fail("SetTokenData: %v", err)
		}
		a.storage[k] = marshal(d)
	case 2:
		v := r.amount("v")
		if rapid.IntRange(0, 4).Draw(t, "negative") == 0 {
			v = v.Neg(v)
		}
		if n > 0 && len(a.storage[k]) == 0 {
			return // there is nothing to set the balance of
		}
		r.say("SetTokenBalance %x %s %d %v", a.addr, tok, n, v)
		d := a.instance(tok, n)
		if d == nil {
			return
		}
		kept := new(big.Int).Set(v)
		var err error
		switch {
		case w.BuiltinFuncs != nil && rapid.Bool().Draw(t, "wrapper"):
			err = w.BuiltinFuncs.SetTokenBalance(a.addr, []byte(k), v)
		case v.IsUint64() && rapid.Bool().Draw(t, "small"):
			err = x.SetTokenBalanceUint64([]byte(k), v.Uint64())
		default:
			err = x.SetTokenBalance([]byte(k), v)
		}
		r.hookErr(err, kept.Sign() < 0, "SetTokenBalance")
		if kept.Sign() >= 0 {
			d.Value = kept
			a.storage[k] = marshal(d)
		} else {
			r.failures++
		}
	case 3:
		var roles [][]byte
		var names []string
		for i := rapid.IntRange(0, 3).Draw(t, "roles"); i > 0; i-- {
			s := rapid.SampledFrom([]string{"ESDTRoleLocalMint", "ESDTRoleLocalBurn", "ESDTRoleNFTCreate", "x"}).Draw(t, "role")
			roles, names = append(roles, []byte(s)), append(names, s)
		}
		r.say("SetTokenRoles %x %s %q", a.addr, tok, names)
		var err error
		if rapid.Bool().Draw(t, "strings") {
			err = x.SetTokenRolesAsStrings([]byte(tok), names)
		} else {
			err = x.SetTokenRoles([]byte(tok), roles)
		}
		if err != nil {
			r.fail("SetTokenRoles: %v", err)
		}
		b, _ := (&esdt.ESDTRoles{Roles: roles}).Marshal()
		a.storage["ELRONDroleesdt"+tok] = b
	case 4:
		last := map[string]uint64{}
		for i := rapid.IntRange(1, 3).Draw(t, "lasts"); i > 0; i-- {
			last[r.token("lastToken")] = r.uint64("last")
		}
		r.say("SetLastNonces %x %v", a.addr, last)
		if err := x.SetLastNonces(last); err != nil {
			r.fail("SetLastNonces: %v", err)
		}
		for k, v := range last {
			a.storage["ELRONDnonce"+k] = new(big.Int).SetUint64(v).Bytes()
		}
	case 5:
		d := a.instance(tok, 0)
		if d == nil {
			return
		}
		g, err := x.GetTokenBalanceByName(tok)
		if err != nil || g.Cmp(d.Value) != 0 {
			r.fail("GetTokenBalanceByName %x %s: %v %v, expected %v", a.addr, tok, g, err, d.Value)
		}
	}
}

// transferStep moves tokens with the protocol's own built-in functions.
func (r *run) transferStep() {
	t, w, m := r.t, r.w, r.m
	if w.BuiltinFuncs == nil {
		return
	}
	from, to := r.existing("from"), r.existing("to")
	if from == nil || to == nil || from == to || from.shard != 0 || to.shard != 0 || to.contract {
		return
	}
	tok := r.token("token")
	d := from.instance(tok, 0)
	if d == nil || d.Type != uint32(vmcommon.Fungible) || d.Properties != nil {
		return
	}
	e := to.instance(tok, 0)
	if e == nil || e.Type != uint32(vmcommon.Fungible) || e.Properties != nil {
		return
	}
	v := r.amount("v")
	switch rapid.IntRange(0, 2).Draw(t, "share") {
	case 0:
		v = new(big.Int).Set(d.Value)
	case 1:
		v = new(big.Int).Add(d.Value, big.NewInt(1))
	}
	r.say("PerformDirectESDTTransfer %x -> %x %s %v", from.addr, to.addr, tok, v)
	_, err := w.BuiltinFuncs.PerformDirectESDTTransfer(from.addr, to.addr, []byte(tok), 0, v, vmcommon.DirectCall, 1000000, 0)
	bad := v.Sign() <= 0 || v.Cmp(d.Value) > 0
	r.hookErr(err, bad, "PerformDirectESDTTransfer")
	if bad {
		r.failures++
		// the function may have made changes that its caller is to undo; none of them may touch what is there
		if len(w.AccountsAdapter.(*worldmock.MockAccountsAdapter).Snapshots) != len(m.snaps) {
			r.fail("a refused transfer wrote something")
		}
		return
	}
	// each write can be undone on its own
	each := len(w.AccountsAdapter.(*worldmock.MockAccountsAdapter).Snapshots) == len(m.snaps)+2
	k := tokenKey(tok, 0)
	for _, c := range []struct {
		a *acct
		d *esdt.ESDigitalToken
		v *big.Int
	}{{from, d, new(big.Int).Sub(d.Value, v)}, {to, e, new(big.Int).Add(e.Value, v)}} {
		g, err := w.AcctMap[string(c.a.addr)].GetTokenBalance([]byte(k))
		if err != nil || g.Cmp(c.v) != 0 {
			r.fail("balance of %x after the transfer: %v %v, expected %v", c.a.addr, g, err, c.v)
		}
		c.a.storage[k] = append([]byte{}, w.AcctMap[string(c.a.addr)].Storage[k]...)
		if i := c.a.instance(tok, 0); i == nil || i.Value.Cmp(c.v) != 0 {
			r.fail("the storage of %x holds %v", c.a.addr, i)
		}
		if each {
			m.snapshot()
		}
	}
	if !each {
		r.say("CommitChanges")
		_ = w.CommitChanges()
		m.snaps = nil
	}
}

var ops = func() []string {
	var r []string
	for k, n := range map[string]int{"update": 5, "updateOne": 3, "balance": 1, "delta": 2, "before": 2, "backup": 5, "revert": 6, "rollback": 1, "commit": 1,
		"save": 4, "put": 4, "create": 2, "delete": 1, "remove": 1, "add": 1, "sub": 1, "reward": 1, "owner": 1, "user": 1, "nonce": 1, "newAddress": 2,
		"compiled": 1, "token": 5, "transfer": 3, "block": 1, "clone": 1} {
		for ; n > 0; n-- {
			r = append(r, k)
		}
	}
	sort.Strings(r)
	return r
}()

// look asks everything there is to ask about one address, and about the chain.
func (r *run) look() {
	t, w, m := r.t, r.w, r.m
	x := r.addr("look")
	a := m.accts[string(x)]
	shot := w.GetSnapshot()
	m.snapshot()
	if shot != len(m.snaps)-1 {
		r.fail("GetSnapshot is %d with %d snapshots", shot, len(m.snaps))
	}
	h, err := w.GetUserAccount(x)
	r.hookErr(err, a == nil, fmt.Sprintf("GetUserAccount %x", x))
	h2, err := w.AccountsAdapter.GetExistingAccount(x)
	r.hookErr(err, a == nil, "GetExistingAccount")
	all, err := w.GetAllState(x)
	r.hookErr(err, a == nil, "GetAllState")
	ks := append([]string{}, keys...)
	if a != nil {
		for k := range a.storage {
			ks = append(ks, k)
		}
		sort.Strings(ks)
	}
	k := rapid.SampledFrom(ks).Draw(t, "lookKey")
	v, err := w.GetStorageData(x, []byte(k))
	if err != nil {
		r.fail("GetStorageData: %v", err)
	}
	pay, err := w.IsPayable(x)
	if err != nil {
		r.fail("IsPayable: %v", err)
	}
	if a == nil {
		if len(v) != 0 || w.IsSmartContract(x) != vmcommon.IsSmartContractAddress(x) || !pay || w.GetShardOfAddress(x) != 0 {
			r.fail("unknown %x: storage %x contract %v payable %v shard %d", x, v, w.IsSmartContract(x), pay, w.GetShardOfAddress(x))
		}
		if h != nil && !reflect.ValueOf(h).IsNil() {
			r.fail("an account %v for the unknown %x", h, x)
		}
	} else {
		for _, h := range []vmcommon.UserAccountHandler{h, h2.(vmcommon.UserAccountHandler)} {
			if !bytes.Equal(h.AddressBytes(), x) || h.GetBalance().Cmp(a.balance) != 0 || h.GetNonce() != a.nonce || !bytes.Equal(h.GetCodeHash(), a.hash) ||
				!bytes.Equal(h.GetOwnerAddress(), a.owner) || !bytes.Equal(h.GetUserName(), a.user) || !bytes.Equal(h.GetCodeMetadata(), a.meta) ||
				!bytes.Equal(w.GetCode(h), a.code) {
				r.fail("account %x seen as address %x balance %v nonce %d hash %x owner %x user %x meta %x code %x; expected %s", x, h.AddressBytes(),
					h.GetBalance(), h.GetNonce(), h.GetCodeHash(), h.GetOwnerAddress(), h.GetUserName(), h.GetCodeMetadata(), w.GetCode(h),
					m.dump()[string(x)])
			}
		}
		val, err := h.AccountDataHandler().RetrieveValue([]byte(k))
		if err != nil || !bytes.Equal(v, a.storage[k]) || !bytes.Equal(val, a.storage[k]) || !bytes.Equal(all[k], a.storage[k]) {
			r.fail("storage of %x at %q: %x, %x %v, %x; expected %x", x, k, v, val, err, all[k], a.storage[k])
		}
		if w.IsSmartContract(x) != a.contract || w.GetShardOfAddress(x) != a.shard || w.ComputeId(x) != a.shard {
			r.fail("%x: contract %v shard %d", x, w.IsSmartContract(x), w.GetShardOfAddress(x))
		}
		wantPay := !a.contract || (len(a.meta) == 2 && a.meta[1]&vmcommon.MetadataPayable != 0)
		if pay != wantPay {
			r.fail("%x: payable %v", x, pay)
		}
		if a.hash != nil && !bytes.Equal(sum(w.AccountsAdapter.GetCode(a.hash)), a.hash) {
			r.fail("code of hash %x: %x", a.hash, w.AccountsAdapter.GetCode(a.hash))
		}
		r.lookTokens(a)
	}
	y := r.addr("look2")
	sh := func(x []byte) uint32 {
		if a := m.accts[string(x)]; a != nil {
			return a.shard
		}
		return 0
	}
	most := uint32(0)
	for _, a := range m.accts {
		if a.shard > most {
			most = a.shard
		}
	}
	if w.SameShard(x, y) != (sh(x) == sh(y)) || w.NumberOfShards() != most+1 {
		r.fail("shards of %x and %x the same: %v; %d shards", x, y, w.SameShard(x, y), w.NumberOfShards())
	}
	for h, c := range m.compiled {
		ok, got := w.GetCompiledCode([]byte(h))
		if !ok || !bytes.Equal(got, c) {
			r.fail("compiled code of %q: %v %x, expected %x", h, ok, got, c)
		}
	}
	if ok, _ := w.GetCompiledCode([]byte("none")); ok {
		r.fail("compiled code that was never saved")
	}
	r.lookBlocks()
}

func (r *run) lookTokens(a *acct) {
	x := r.w.AcctMap[string(a.addr)]
	full, err := x.GetFullMockESDTData()
	if err != nil {
		r.fail("GetFullMockESDTData %x: %v", a.addr, err)
	}
	want := map[string]string{}
	count := 0
	add := func(tok, s string) { want[tok] += s + ";" }
	for _, tok := range tokens {
		for _, n := range []uint64{0, 1, 2, 255, 256, 65537, 1 << 40, 1<<64 - 1} {
			k := tokenKey(tok, n)
			d := a.instance(tok, n)
			if d == nil {
				return
			}
			if _, ok := a.storage[k]; ok {
				count++
			}
			g, err := x.GetTokenData([]byte(k))
			bal, err2 := x.GetTokenBalance([]byte(k))
			if err != nil || err2 != nil || fmt.Sprint(g) != fmt.Sprint(d) || bal.Cmp(d.Value) != 0 {
				r.fail("token %s %d of %x: %v %v, balance %v %v; expected %v", tok, n, a.addr, g, err, bal, err2, d)
			}
			if r.w.BuiltinFuncs != nil {
				e, err := r.w.GetESDTToken(a.addr, []byte(tok), n)
				if err != nil || fmt.Sprint(e) != fmt.Sprint(d) {
					r.fail("GetESDTToken %s %d of %x: %v %v; expected %v", tok, n, a.addr, e, err, d)
				}
			}
			if d.Value.Sign() > 0 {
				if n == 0 {
					d.TokenMetaData = &esdt.MetaData{Name: []byte(tok)}
				}
				add(tok, fmt.Sprint(d))
			}
		}
		last, hasLast := a.storage["ELRONDnonce"+tok]
		roles, hasRoles := a.storage["ELRONDroleesdt"+tok]
		rs := &esdt.ESDTRoles{}
		_ = rs.Unmarshal(roles)
		got, err := x.GetTokenRoles([]byte(tok))
		if err != nil || fmt.Sprintf("%q", got) != fmt.Sprintf("%q", rs.Roles) {
			r.fail("roles of %s: %q %v, expected %q", tok, got, err, rs.Roles)
		}
		if _, some := want[tok]; some || hasLast || hasRoles {
			add(tok, fmt.Sprintf("last %d roles %q", new(big.Int).SetBytes(last).Uint64(), rs.Roles))
		}
	}
	if n := len(x.GetTokenKeys()); n != count {
		r.fail("%d token keys, expected %d", n, count)
	}
	have := map[string]string{}
	for tok, d := range full {
		if string(d.TokenIdentifier) != tok {
			r.fail("token %q named %q", tok, d.TokenIdentifier)
		}
		sort.Slice(d.Instances, func(i, j int) bool { return d.Instances[i].TokenMetaData.Nonce < d.Instances[j].TokenMetaData.Nonce })
		s := ""
		for _, i := range d.Instances {
			s += fmt.Sprint(i) + ";"
		}
		have[tok] = s + fmt.Sprintf("last %d roles %q;", d.LastNonce, d.Roles)
	}
	if !reflect.DeepEqual(have, want) {
		r.fail("all tokens of %x:\n  %v\nexpected\n  %v", a.addr, have, want)
	}
}

func (r *run) lookBlocks() {
	w, m := r.w, r.m
	show := func(n, rd, ts uint64, ep uint32, seed []byte) string {
		return fmt.Sprintf("nonce %d round %d time %d epoch %d seed %x", n, rd, ts, ep, seed)
	}
	want := func(b *worldmock.BlockInfo) string {
		if b == nil {
			return show(0, 0, 0, 0, nil)
		}
		var s []byte
		if b.RandomSeed != nil {
			s = b.RandomSeed[:]
		}
		return show(b.BlockNonce, b.BlockRound, b.BlockTimestamp, b.BlockEpoch, s)
	}
	if g := show(w.LastNonce(), w.LastRound(), w.LastTimeStamp(), w.LastEpoch(), w.LastRandomSeed()); g != want(m.prev) {
		r.fail("last block: %s, expected %s", g, want(m.prev))
	}
	if g := show(w.CurrentNonce(), w.CurrentRound(), w.CurrentTimeStamp(), w.CurrentEpoch(), w.CurrentRandomSeed()); g != want(m.cur) {
		r.fail("current block: %s, expected %s", g, want(m.cur))
	}
	if !bytes.Equal(w.GetStateRootHash(), m.root) {
		r.fail("root hash %x, expected %x", w.GetStateRootHash(), m.root)
	}
	cur := uint64(0)
	if m.cur != nil {
		cur = m.cur.BlockNonce
	}
	n := rapid.Uint64Range(0, 14).Draw(r.t, "blockhash")
	g, err := w.GetBlockhash(n)
	bad := n > cur || cur-n >= uint64(len(m.hashes))
	r.hookErr(err, bad, fmt.Sprintf("GetBlockhash %d", n))
	if !bad && !bytes.Equal(g, m.hashes[cur-n]) {
		r.fail("hash of block %d: %x", n, g)
	}
}

func (r *run) check(what string) {
	if d := diff(dumpWorld(r.w.AcctMap), r.m.dump()); d != "" {
		r.fail("%s: %s", what, d)
	}
	ad := r.w.AccountsAdapter.(*worldmock.MockAccountsAdapter)
	if int(ad.GetNumCheckpoints()) != len(r.m.snaps) {
		r.fail("%s: %d snapshots, expected %d", what, ad.GetNumCheckpoints(), len(r.m.snaps))
	}
}

func TestWorld(t *testing.T) {
	vh.Rule("C22", "a history with at least one applied output or write and at least one successful revert to an earlier snapshot")
	vh.Check(t, func(t *rapid.T) {
		w := worldmock.NewMockWorld()
		r := &run{t: t, w: w, m: &model{accts: map[string]*acct{}, compiled: map[string][]byte{}, cur: &worldmock.BlockInfo{}}}
		if rapid.IntRange(0, 2).Draw(t, "builtin") > 0 {
			if err := w.InitBuiltinFunctions(config.MakeGasMapForTests()); err != nil {
				t.Fatalf("InitBuiltinFunctions: %v", err)
			}
		}
		n := rapid.SampledFrom([]int{3, 8, 16, 30, 60}).Draw(t, "steps")
		for i := rapid.IntRange(0, 4).Draw(t, "start"); i > 0; i-- {
			a := r.addr("startAddr")
			o := r.output(a)
			r.say("updateOne\n    %s", showOut(o))
			w.UpdateAccountFromOutputAccount(o)
			r.apply(o)
		}
		for i := 0; i < n; i++ {
			if rapid.IntRange(0, 60).Draw(t, "clear") == 60 {
				r.say("Clear")
				w.Clear()
				r.m.accts, r.m.snaps, r.m.compiled = map[string]*acct{}, nil, map[string][]byte{}
				r.m.mocks, r.m.prev, r.m.cur, r.m.hashes = nil, nil, nil, nil
				w.BuiltinFuncs = nil
			} else {
				r.step()
			}
			r.check("then")
			if rapid.IntRange(0, 2).Draw(t, "ask") == 0 {
				r.look()
				r.check("after lookups")
			}
		}
		r.broken()
		cl := "no revert"
		if r.reverts > 0 {
			cl = "reverts"
		}
		if r.distances > 0 {
			cl = "reverts over several snapshots"
		}
		vh.Case(r.reverts > 0 && r.updates > 0, cl, strings.Join(r.log, "\n"), func() string { return strings.Join(r.log, "; ") })
	})
}

// broken checks that a world that reports errors does so.
func (r *run) broken() {
	w := r.w
	w.Err = errors.New("broken")
	x := addrs[0]
	_, e1 := w.NewAddress(x, 0, nil)
	_, e2 := w.GetStorageData(x, []byte("k"))
	_, e3 := w.GetBlockhash(0)
	_, e4 := w.GetUserAccount(x)
	_, e5 := w.ProcessBuiltInFunction(&vmcommon.ContractCallInput{})
	_, e6 := w.GetESDTToken(x, []byte("T"), 0)
	for i, e := range []error{e1, e2, e3, e4, e5, e6} {
		if e != w.Err {
			r.fail("query %d of a broken world: %v", i, e)
		}
	}
	w.Err = nil
	r.check("after the failing queries")
}
