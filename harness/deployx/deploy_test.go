//go:build go1.21

package deployx

import (
	"bytes"
	"errors"
	"fmt"
	"math/big"
	"strings"
	"testing"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwen"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/zzverif/pup"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/zzverif/vh"
	vmcommon "github.com/ElrondNetwork/elrond-vm-common"
	"github.com/ElrondNetwork/elrond-vm-common/builtInFunctions"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { vh.Main(m) }

type builtin struct{ active bool }

func (b *builtin) ProcessBuiltinFunction(_, _ vmcommon.UserAccountHandler, _ *vmcommon.ContractCallInput) (*vmcommon.VMOutput, error) {
	return nil, errors.New("not here")
}
func (b *builtin) SetNewGasConfig(*vmcommon.GasCost) {}
func (b *builtin) IsActive() bool                    { return b.active }
func (b *builtin) IsInterfaceNil() bool              { return b == nil }

var (
	puppet  = pup.Address(true, 1, 0)
	target  = pup.Address(true, 2, 0)
	source  = pup.Address(true, 3, 0)
	bare    = pup.Address(true, 4, 0) // without code
	missing = pup.Address(true, 5, 0)
	alice   = pup.Address(false, 1, 0)
	bob     = pup.Address(false, 2, 0)
)

const upgradeable, payable = 1, 2 // bits of the two bytes of metadata

type setting struct {
	g      *pup.Gen
	w      *pup.World
	h      arwen.VMHost
	tokens bool // the token functions are there
	trace  []string
}

func newSetting(rt *rapid.T) *setting {
	s := &setting{g: pup.NewGen(rt, pup.Weights{"args": 1}), w: pup.NewWorld()}
	g := s.g
	s.tokens = g.Chance(60, "token functions enabled")
	epoch := uint32(g.Number(1, 12, "epoch of the token functions"))
	s.w.Cur.Epoch, s.w.Last.Epoch = epoch, epoch
	if !s.tokens {
		s.w.Cur.Epoch--
		s.w.Last.Epoch--
	} else if g.Chance(50, "longer ago") {
		s.w.Cur.Epoch++
	}
	bc := builtInFunctions.NewBuiltInFunctionContainer()
	for n, active := range map[string]bool{activeBuiltin: true, otherBuiltin: true, inactiveBuiltin: false} {
		_ = bc.Add(n, &builtin{active})
	}
	s.w.BuiltinNames = map[string]bool{activeBuiltin: true, otherBuiltin: true}
	o := pup.Options{Builtins: bc}
	o.Epochs[4] = epoch
	if g.Chance(30, "no compiled code kept") {
		s.w.NoCache = true
	}
	s.w.Put(&pup.Acc{Address: alice, Nonce: uint64(g.Number(0, 9, "nonce")), Balance: big.NewInt(1 << 40)})
	s.w.Put(&pup.Acc{Address: bob, Nonce: uint64(g.Number(0, 9, "nonce")), Balance: big.NewInt(1 << 40)})
	s.w.Put(&pup.Acc{Address: puppet, Nonce: uint64(g.Number(0, 9, "nonce")), Balance: big.NewInt(1 << 40), Code: pup.Puppet(),
		Meta: s.meta("of the puppet"), Owner: alice})
	s.w.Put(&pup.Acc{Address: bare, Balance: big.NewInt(5)})
	s.h = pup.Host(s.w, o)
	return s
}

func (s *setting) meta(what string) []byte {
	if s.g.Chance(20, "odd metadata") {
		return s.g.Bytes(2, 2, what)
	}
	return []byte{byte(s.g.Number(0, 7, what)), byte(s.g.Number(0, 1, what) << 1)}
}

func (s *setting) say(format string, a ...interface{}) {
	s.trace = append(s.trace, fmt.Sprintf(format, a...))
}
func (s *setting) story() string { return strings.Join(s.trace, "\n") }

// args draws arguments of an initialiser.
func (s *setting) args() [][]byte {
	var out [][]byte
	for i := s.g.Number(0, 4, "arguments"); i > 0; i-- {
		out = append(out, s.g.Bytes(0, 12, "argument"))
	}
	return out
}

func input(from []byte, value int64, args [][]byte) vmcommon.VMInput {
	return vmcommon.VMInput{CallerAddr: from, CallValue: big.NewInt(value), GasProvided: 1 << 36, GasPrice: 1, Arguments: args,
		OriginalTxHash: bytes.Repeat([]byte{1}, 32), CurrentTxHash: bytes.Repeat([]byte{2}, 32), PrevTxHash: bytes.Repeat([]byte{3}, 32)}
}

// expected is what a deployment or an upgrade has to result in.
type expected struct {
	addr, code, meta, deployer []byte // the code that is put in place; none if addr is nil
	k                          *contract
	before                     map[string][]byte
	args                       [][]byte
	caller                     []byte
	value                      int64
}

func num(n int64) []byte { return big.NewInt(n).Bytes() }

// storage the initialiser leaves behind, as updates.
func (e *expected) storage() map[string][]byte {
	out := map[string][]byte{}
	if e.k.init == "" {
		return out
	}
	out["n"] = num(new(big.Int).SetBytes(e.before["n"]).Int64() + 1)
	out["m"] = num(int64(e.k.mark))
	out["c"] = e.caller
	out["v"] = nil
	if e.value > 0 {
		out["v"] = big.NewInt(e.value).FillBytes(make([]byte, 32))
	}
	out["k"] = num(int64(len(e.args)))
	for i, a := range e.args {
		out[storedKey(i)] = a
	}
	return out
}

// returned by the initialiser.
func (e *expected) returned() [][]byte {
	if e.k.init == "" {
		return nil
	}
	return append([][]byte{num(int64(e.k.mark))}, e.args...)
}

// check compares an output of a transaction that may deploy one thing.
func (e *expected) check(out *vmcommon.VMOutput) error {
	for key, a := range out.OutputAccounts {
		if e.addr == nil || !bytes.Equal(a.Address, e.addr) {
			if len(a.Code) > 0 || len(a.CodeMetadata) > 0 || len(a.CodeDeployerAddress) > 0 {
				return fmt.Errorf("the output puts code at %x", key)
			}
			if bytes.Equal(a.Address, target) && len(a.StorageUpdates) > 0 {
				return fmt.Errorf("the initialiser left traces: %v", a.StorageUpdates)
			}
			if a.Nonce > 0 && len(a.StorageUpdates) > 0 && !bytes.Equal(a.Address, puppet) {
				return fmt.Errorf("storage of %x", key)
			}
		}
	}
	if e.addr == nil {
		return nil
	}
	a := out.OutputAccounts[string(e.addr)]
	if a == nil {
		return fmt.Errorf("nothing at %x", e.addr)
	}
	if !bytes.Equal(a.Code, e.code) {
		return fmt.Errorf("code %x is put in place instead of %x", a.Code, e.code)
	}
	if !bytes.Equal(a.CodeMetadata, e.meta) {
		return fmt.Errorf("metadata %x instead of %x", a.CodeMetadata, e.meta)
	}
	if !bytes.Equal(a.CodeDeployerAddress, e.deployer) {
		return fmt.Errorf("deployer %x instead of %x", a.CodeDeployerAddress, e.deployer)
	}
	if a.BalanceDelta == nil && e.value != 0 || a.BalanceDelta != nil && a.BalanceDelta.Cmp(big.NewInt(e.value)) != 0 {
		return fmt.Errorf("value %v instead of %d", a.BalanceDelta, e.value)
	}
	want := e.storage()
	for k, v := range want {
		u := a.StorageUpdates[k]
		if u == nil && bytes.Equal(e.before[k], v) {
			continue
		}
		if u == nil || !bytes.Equal(u.Data, v) {
			return fmt.Errorf("initialiser's storage %q: %v instead of %x", k, u, v)
		}
	}
	for k, u := range a.StorageUpdates {
		if _, ok := want[k]; !ok && !bytes.Equal(u.Data, e.before[k]) {
			return fmt.Errorf("unexpected storage %q = %x", k, u.Data)
		}
	}
	return nil
}

func sameData(got, want [][]byte) bool {
	if len(got) != len(want) {
		return false
	}
	for i := range got {
		if !bytes.Equal(got[i], want[i]) {
			return false
		}
	}
	return true
}

// run executes a transaction on the machine.
func (s *setting) run(rt *rapid.T, tx *pup.Tx) *vmcommon.VMOutput {
	out, err := tx.Run(s.h)
	if err != nil || out == nil {
		rt.Fatalf("the machine fails: %v\n%s", err, s.story())
	}
	return out
}

func (s *setting) call(rt *rapid.T, from, to []byte, fn string, args ...[]byte) *vmcommon.VMOutput {
	return s.run(rt, &pup.Tx{Call: &vmcommon.ContractCallInput{VMInput: input(from, 0, args), RecipientAddr: to, Function: fn}})
}

// functionsOf checks that the contract at an address behaves as the module says.
func (s *setting) functionsOf(rt *rapid.T, addr []byte, k *contract) {
	for _, n := range pup.SortedKeys(k.funcs) {
		if n == "callBack" {
			continue
		}
		out := s.call(rt, bob, addr, n)
		if out.ReturnCode != vmcommon.Ok || !sameData(out.ReturnData, [][]byte{num(int64(k.funcs[n]))}) {
			rt.Fatalf("function %q gives %v %q %x instead of %d\n%s", n, out.ReturnCode, out.ReturnMessage, out.ReturnData, k.funcs[n], s.story())
		}
	}
	s.closed(rt, addr)
	for _, n := range []string{"nosuch", k.memory, "getNumArguments"} {
		if _, ok := k.funcs[n]; ok {
			continue
		}
		if out := s.call(rt, bob, addr, n); out.ReturnCode != vmcommon.FunctionNotFound {
			rt.Fatalf("function %q, which is not exported, gives %v %q\n%s", n, out.ReturnCode, out.ReturnMessage, s.story())
		}
	}
}

// closed checks that nobody calls initialisers and callbacks.
func (s *setting) closed(rt *rapid.T, addr []byte) {
	for _, n := range []string{"init", "solidity.ctor", "callBack"} {
		for _, caller := range [][]byte{alice, bob, puppet} {
			out := s.call(rt, caller, addr, n, s.args()...)
			if out.ReturnCode == vmcommon.Ok {
				rt.Fatalf("%s can be called by transaction\n%s", n, s.story())
			}
			if err := pup.FailedClean(out); err != nil {
				rt.Fatalf("%s, called by transaction: %v\n%s", n, err, s.story())
			}
		}
	}
	if a := s.w.Accs[string(puppet)]; len(a.Code) > 0 {
		for _, n := range []string{"init", "solidity.ctor"} {
			b := pup.NewSB(s.g, puppet)
			cnt, l, d := b.PutArgs(s.args())
			fn := b.Put([]byte(n))
			how := pup.Pick(s.g, []string{"executeOnDestContext", "executeOnSameContext", "executeOnDestContextByCaller", "executeReadOnly"}, "call of "+n)
			args := []pup.Val{pup.I(1 << 30), pup.I(b.Put(addr))}
			if how != "executeReadOnly" {
				args = append(args, pup.I(b.Put(make([]byte, 32))))
			}
			b.Call(0, how, append(args, pup.I(fn), pup.I(int64(len(n))), pup.I(cnt), pup.I(l), pup.I(d))...)
			if out := s.call(rt, alice, puppet, "run", b.B); out.ReturnCode == vmcommon.Ok {
				rt.Fatalf("%s can be called by a contract, with %s\n%s", n, how, s.story())
			}
		}
	}
}

const rule = "a deployment or upgrade that reaches the decision about generated code: accepted and executed, or refused for exactly one drawn fault, missing permission or failing initialiser"

// TestDeployments deploys and upgrades generated modules in all ways there are.
func TestDeployments(t *testing.T) {
	vh.Rule("C10", rule)
	vh.Check(t, func(rt *rapid.T) {
		s := newSetting(rt)
		g := s.g
		k := draw(g, g.Chance(45, "faulty"), s.tokens)
		s.say("token functions %v, %s", s.tokens, k)
		for round := 0; round < 2; round++ {
			s.deployment(rt, k, round)
			if round == 0 && !g.Chance(35, "once more") {
				break
			}
		}
	})
}

var ways = []string{"create", "create", "direct upgrade", "createContract", "createContract", "deployFromSource", "upgradeContract", "upgradeContract", "upgradeFromSource",
	"async upgrade", "nested upgrade"}

func (s *setting) deployment(rt *rapid.T, k *contract, round int) {
	g := s.g
	way := pup.Pick(g, ways, "way")
	args, meta := s.args(), s.meta("metadata")
	value := int64(0)
	if g.Chance(30, "value") {
		value = int64(g.Number(1, 1000, "amount"))
	}
	from := pup.Pick(g, [][]byte{alice, bob}, "from")

	// what is to be upgraded
	old := draw(g, false, s.tokens)
	for !old.valid {
		old = draw(g, false, true)
	}
	if g.Chance(10, "the same code") && k.valid {
		old = k
	}
	owner := pup.Pick(g, [][]byte{puppet, puppet, puppet, alice, bob}, "owner of the target")
	if round == 0 {
		s.w.Put(&pup.Acc{Address: target, Balance: big.NewInt(9), Code: old.code, Meta: s.meta("of the target"), Owner: owner,
			Storage: map[string][]byte{"n": num(int64(g.Number(1, 200, "initialised so often"))), "0": []byte("there")}})
		if s.w.Accs[string(target)].Meta[0]&upgradeable == 0 && g.Chance(50, "upgradeable") {
			s.w.Accs[string(target)].Meta[0] |= upgradeable
		}
	} else {
		owner = s.w.Accs[string(target)].Owner
		old = nil
	}
	t := s.w.Accs[string(target)]
	mayUpgrade := bytes.Equal(owner, puppet) && t.Meta[0]&upgradeable != 0

	// its source
	from2 := source
	delete(s.w.Accs, string(source))
	s.w.Put(&pup.Acc{Address: source, Balance: big.NewInt(1), Code: k.code, Meta: []byte{7, 7}, Owner: bob})
	sourced := strings.Contains(way, "FromSource")
	accepted := k.valid
	reason := k.fault
	if sourced && g.Chance(10, "no source") {
		from2, accepted, reason = pup.Pick(g, [][]byte{bare, missing, alice}, "source"), false, "no source"
	}
	if sourced && len(k.code) == 0 && accepted {
		accepted, reason = false, "empty source"
	}
	if (way == "createContract" || way == "deployFromSource") && k.init == "" && accepted {
		accepted, reason = false, "no initialiser" // which contracts have to have when created by contracts
	}
	dest := target
	if strings.Contains(way, "pgrade") && way != "direct upgrade" {
		if g.Chance(8, "another target") {
			dest = pup.Pick(g, [][]byte{bare, missing}, "target")
			mayUpgrade = false
		}
		if !mayUpgrade {
			if accepted {
				reason = "not permitted"
			}
			accepted = false
		}
	}
	// before there are tokens, value sent within the machine is refused by contracts that are not payable
	if !s.tokens && way == "nested upgrade" && value > 0 && t.Meta[1]&payable == 0 && accepted {
		accepted, reason = false, "cannot be paid"
	}
	if accepted && k.refuses {
		accepted, reason = false, "initialiser refuses"
	}
	s.say("%d: %s by %x; %d arguments %x, metadata %x, value %d, owner %x, metadata of the target %x, accepted %v (%s)",
		round, way, from[:1], len(args), args, meta, value, owner[:1], t.Meta, accepted, reason)

	e := &expected{k: k, args: args, value: value, meta: meta, code: k.code}
	tx := &pup.Tx{}
	b := pup.NewSB(g, puppet)
	plan := func() {
		tx.Call = &vmcommon.ContractCallInput{VMInput: input(from, 0, [][]byte{b.B}), RecipientAddr: puppet, Function: "run"}
	}
	v := new(big.Int).SetInt64(value).FillBytes(make([]byte, 32))
	i := pup.I
	called := ""
	kept := func() { // by a puppet that goes on
		b.Trace(0)
		b.Flush()
		var callable []string
		for _, n := range pup.SortedKeys(k.funcs) {
			if n != "callBack" {
				callable = append(callable, n)
			}
		}
		if accepted && len(callable) > 0 && g.Chance(60, "calls it at once") {
			// the code is not on the blockchain yet
			called = pup.Pick(g, callable, "calls")
			s.say("and calls %.20q", called)
			fn := pup.I(b.Put([]byte(called)))
			b.Call(0, "executeOnDestContext", pup.I(1<<30), pup.I(b.Put(e.addr)), pup.I(b.Put(make([]byte, 32))), fn, pup.I(int64(len(called))), pup.I(0), pup.I(0), pup.I(0))
		}
	}
	returned := func() [][]byte { // with the result of the deployment
		want := append(e.returned(), make([]byte, 8))
		if called != "" {
			want = append(want, num(int64(k.funcs[called])))
		}
		return want
	}
	var at int64
	switch way {
	case "create":
		nonce := s.w.Accs[string(from)].Nonce
		if nonce > 0 {
			nonce-- // it has been increased for this transaction
		}
		tx.Create = &vmcommon.ContractCreateInput{VMInput: input(from, value, args), ContractCode: k.code, ContractCodeMetadata: meta}
		e.addr, e.caller, e.deployer = pup.NewAddress(from, nonce, pup.VMType), from, from
	case "direct upgrade":
		all := append([][]byte{k.code, meta}, args...)
		tx.Call = &vmcommon.ContractCallInput{VMInput: input(from, value, all), RecipientAddr: target, Function: "upgradeContract"}
		e.addr, e.caller, e.deployer = target, from, from
	case "createContract", "deployFromSource":
		e.addr, e.caller, e.deployer = pup.NewAddress(puppet, s.w.Accs[string(puppet)].Nonce, pup.VMType), puppet, puppet
		n, l, d := b.PutArgs(args)
		at = b.Room(32)
		if way == "createContract" {
			b.Call(0, "createContract", i(1<<34), i(b.Put(v)), i(b.Put(k.code)), i(b.Put(meta)), i(int64(len(k.code))), i(at), i(n), i(l), i(d))
		} else {
			b.Call(0, "deployFromSourceContract", i(1<<34), i(b.Put(v)), i(b.Put(from2)), i(b.Put(meta)), i(at), i(n), i(l), i(d))
		}
		kept()
		plan()
	case "upgradeContract", "upgradeFromSource", "async upgrade":
		e.addr, e.caller, e.deployer = dest, puppet, puppet
		n, l, d := b.PutArgs(args)
		switch way {
		case "upgradeContract":
			b.Call(0, "upgradeContract", i(b.Put(dest)), i(1<<34), i(b.Put(v)), i(b.Put(k.code)), i(b.Put(meta)), i(int64(len(k.code))), i(n), i(l), i(d))
		case "upgradeFromSource":
			b.Call(0, "upgradeFromSourceContract", i(b.Put(dest)), i(1<<34), i(b.Put(v)), i(b.Put(from2)), i(b.Put(meta)), i(n), i(l), i(d))
		default:
			data := fmt.Sprintf("upgradeContract@%x@%x", k.code, meta)
			for _, a := range args {
				data += fmt.Sprintf("@%x", a)
			}
			b.Call(0, "asyncCall", i(b.Put(dest)), i(b.Put(v)), i(b.Put([]byte(data))), i(int64(len(data))))
		}
		plan()
	case "nested upgrade":
		e.addr, e.caller, e.deployer = dest, puppet, puppet
		all := append([][]byte{k.code, meta}, args...)
		if accepted && g.Chance(10, "too few arguments") {
			all = all[:g.Number(0, 1, "arguments")]
			accepted, reason = false, "too few arguments"
			s.say("only %d arguments", len(all))
		}
		n, l, d := b.PutArgs(all)
		fn := "upgradeContract"
		b.Call(0, "executeOnDestContext", i(1<<34), i(b.Put(dest)), i(b.Put(v)), i(b.Put([]byte(fn))), i(int64(len(fn))), i(n), i(l), i(d))
		kept()
		plan()
	}
	if a := s.w.Accs[string(e.addr)]; a != nil {
		e.before = map[string][]byte{}
		for key, val := range a.Storage {
			e.before[key] = val
		}
	}
	addr := e.addr
	if !accepted {
		e.addr = nil
	}

	print := s.w.Fingerprint()
	out := s.run(rt, tx)
	if s.w.Fingerprint() != print {
		rt.Fatalf("the machine writes to the blockchain by itself\n%s", s.story())
	}
	fail := func(format string, a ...interface{}) {
		rt.Fatalf("%s\noutput: %s\n%s\n%x", fmt.Sprintf(format, a...), pup.Outcome(out, nil), s.story(), k.code)
	}
	class := "refused: " + reason
	if accepted {
		class = "accepted"
	}
	vh.Class(way + ", " + class)
	vh.Case(true, class, s.story(), s.story)
	if err := e.check(out); err != nil {
		fail("%v", err)
	}
	failed := func(code vmcommon.ReturnCode) {
		if out.ReturnCode == vmcommon.Ok || code != vmcommon.Ok && out.ReturnCode != code {
			fail("return code %v instead of %v", out.ReturnCode, code)
		}
		if err := pup.FailedClean(out); err != nil {
			fail("%v", err)
		}
	}
	switch way {
	case "create", "direct upgrade":
		switch {
		case accepted:
			if out.ReturnCode != vmcommon.Ok || !sameData(out.ReturnData, e.returned()) {
				fail("not deployed as it should be, returns %x instead of %x", out.ReturnData, e.returned())
			}
		case k.valid && k.refuses:
			failed(vmcommon.UserError)
		default:
			failed(vmcommon.ContractInvalid)
		}
	case "createContract", "deployFromSource":
		if accepted {
			if out.ReturnCode != vmcommon.Ok || !sameData(out.ReturnData, returned()) {
				fail("not deployed as it should be, returns %x instead of %x", out.ReturnData, returned())
			}
			if a := out.OutputAccounts[string(puppet)]; a == nil || a.Nonce != s.w.Accs[string(puppet)].Nonce+1 {
				fail("the creator's nonce has to count the deployment")
			}
		} else if a := out.OutputAccounts[string(puppet)]; a != nil && a.Nonce > s.w.Accs[string(puppet)].Nonce {
			fail("the creator's nonce counts a deployment that failed")
		} else if out.OutputAccounts[string(addr)] != nil {
			fail("the failed deployment leaves an account")
		}
	case "nested upgrade":
		if accepted && (out.ReturnCode != vmcommon.Ok || !sameData(out.ReturnData, returned())) {
			fail("not upgraded as it should be, returns %x instead of %x", out.ReturnData, returned())
		}
		if !accepted {
			failed(vmcommon.Ok)
		}
	default:
		if accepted && out.ReturnCode != vmcommon.Ok {
			fail("not upgraded")
		}
	}

	// afterwards
	s.w.Apply(out, from, big.NewInt(0))
	if accepted {
		// as the node does
		a := s.w.Accs[string(addr)]
		a.Code, a.Meta = k.code, meta
		s.functionsOf(rt, addr, k)
		vh.Class("contracts used afterwards")
	} else if old != nil && old.valid {
		s.functionsOf(rt, target, old)
		vh.Class("contracts used after a refusal")
	}
}
