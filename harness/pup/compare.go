//go:build go1.21

package pup

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math/big"
	"strings"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwen"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/config"
	vmcommon "github.com/ElrondNetwork/elrond-vm-common"
)

// Aspects of an output that can be compared.
const (
	ACode = 1 << iota
	AGas
	AStorage
	ABalance
	ATransfers
	ALogs
	AReturn
	ADeploy
	ARefund
	ATokens
	AAll = 1<<iota - 1
)

// Invariants that every output must satisfy whatever the model says.
func Invariants(in *vmcommon.VMInput, out *vmcommon.VMOutput, w *World) error {
	if out == nil {
		return fmt.Errorf("no output")
	}
	if out.ReturnCode != vmcommon.Ok {
		return FailedClean(out)
	}
	if err := GasBalance(in, out); err != nil {
		return err
	}
	return ValueBalance(in, out, w)
}

// FailedClean checks that a failed output has no effects.
func FailedClean(out *vmcommon.VMOutput) error {
	if out.GasRemaining != 0 {
		return fmt.Errorf("failed, but %d gas remaining", out.GasRemaining)
	}
	if len(out.ReturnData) != 0 {
		return fmt.Errorf("failed, but return data %x", out.ReturnData)
	}
	if len(out.OutputAccounts) != 0 || len(out.DeletedAccounts) != 0 || len(out.TouchedAccounts) != 0 {
		return fmt.Errorf("failed, but %d accounts in the output", len(out.OutputAccounts))
	}
	if len(out.Logs) != 0 {
		return fmt.Errorf("failed, but %d logs", len(out.Logs))
	}
	if out.GasRefund != nil && out.GasRefund.Sign() != 0 {
		return fmt.Errorf("failed, but refund %v", out.GasRefund)
	}
	return nil
}

// GasBalance checks that no gas was made or lost.
func GasBalance(in *vmcommon.VMInput, out *vmcommon.VMOutput) error {
	sum := new(big.Int).SetUint64(out.GasRemaining)
	provided := new(big.Int).SetUint64(in.GasProvided)
	provided.Add(provided, new(big.Int).SetUint64(in.GasLocked))
	if sum.Cmp(provided) > 0 {
		return fmt.Errorf("%v gas remaining of %v", sum, provided)
	}
	for _, k := range sortedKeys(out.OutputAccounts) {
		oa := out.OutputAccounts[k]
		sum.Add(sum, new(big.Int).SetUint64(oa.GasUsed))
		for _, t := range oa.OutputTransfers {
			sum.Add(sum, new(big.Int).SetUint64(t.GasLimit))
			sum.Add(sum, new(big.Int).SetUint64(t.GasLocked))
		}
	}
	if sum.Cmp(provided) != 0 {
		return fmt.Errorf("gas provided %v, accounted for %v", provided, sum)
	}
	return nil
}

// ValueBalance checks that no value was made or lost, or overdrawn.
func ValueBalance(in *vmcommon.VMInput, out *vmcommon.VMOutput, w *World) error {
	sum := new(big.Int)
	for _, k := range sortedKeys(out.OutputAccounts) {
		oa := out.OutputAccounts[k]
		if oa.BalanceDelta == nil {
			continue
		}
		sum.Add(sum, oa.BalanceDelta)
		if a := w.Accs[k]; ShardOf([]byte(k)) == 0 {
			b := new(big.Int).Set(oa.BalanceDelta)
			if a != nil {
				b.Add(b, a.Balance)
			}
			// the network has taken the call value from the sender beforehand
			if b.Sign() < 0 {
				return fmt.Errorf("account %x is left with %v", k, b)
			}
		}
	}
	want := new(big.Int)
	if in.CallValue != nil {
		want.Set(in.CallValue)
	}
	if sum.Cmp(want) != 0 {
		return fmt.Errorf("balance changes add up to %v, value attached %v", sum, want)
	}
	return nil
}

// Compare an output with what the model says.
func (m *Model) Compare(r Result, out *vmcommon.VMOutput, aspects int) error {
	if out == nil {
		return fmt.Errorf("no output")
	}
	if out.ReturnCode != r.Code {
		return fmt.Errorf("return code %v (%q), expected %v (%q)", out.ReturnCode, out.ReturnMessage, r.Code, r.Msg)
	}
	if aspects&ACode != 0 && out.ReturnMessage != r.Msg {
		return fmt.Errorf("message %q, expected %q (code %v)", out.ReturnMessage, r.Msg, r.Code)
	}
	if r.Err != nil {
		return FailedClean(out)
	}
	s := m.St
	if aspects&AReturn != 0 {
		if err := sameBytes(out.ReturnData, s.Ret); err != nil {
			return fmt.Errorf("return data: %w", err)
		}
	}
	if aspects&ALogs != 0 {
		if len(out.Logs) != len(s.Logs) {
			return fmt.Errorf("%d logs, expected %d", len(out.Logs), len(s.Logs))
		}
		for i, l := range out.Logs {
			e := s.Logs[i]
			if !bytes.Equal(l.Address, e.Addr) || !bytes.Equal(l.Identifier, e.Ident) || !bytes.Equal(l.Data, e.Data) {
				return fmt.Errorf("log %d is (%x,%x,%x), expected (%x,%x,%x)", i, l.Address, l.Identifier, l.Data, e.Addr, e.Ident, e.Data)
			}
			if err := sameBytes(l.Topics, e.Topics); err != nil {
				return fmt.Errorf("log %d topics: %w", i, err)
			}
		}
	}
	if aspects&AStorage != 0 {
		if err := m.compareStorage(out); err != nil {
			return err
		}
	}
	if aspects&ABalance != 0 {
		seen := map[string]bool{}
		for _, k := range sortedKeys(out.OutputAccounts) {
			seen[k] = true
			d := out.OutputAccounts[k].BalanceDelta
			if d == nil {
				d = new(big.Int)
			}
			e := s.Delta[k]
			if e == nil {
				e = new(big.Int)
			}
			if d.Cmp(e) != 0 {
				return fmt.Errorf("balance of %x changes by %v, expected %v", k, d, e)
			}
		}
		for _, k := range sortedKeys(s.Delta) {
			if !seen[k] && s.Delta[k].Sign() != 0 {
				return fmt.Errorf("balance of %x does not change, expected %v", k, s.Delta[k])
			}
		}
	}
	if aspects&ATokens != 0 {
		if err := m.compareTokens(); err != nil {
			return err
		}
	}
	if aspects&ATransfers != 0 {
		if err := m.compareTransfers(out); err != nil {
			return err
		}
	}
	if aspects&AGas != 0 {
		if out.GasRemaining != r.Remaining {
			return fmt.Errorf("gas remaining %d, expected %d (%+d)", out.GasRemaining, r.Remaining, int64(out.GasRemaining-r.Remaining))
		}
		keys := map[string]bool{}
		for k := range out.OutputAccounts {
			keys[k] = true
		}
		for k := range s.GasUsed {
			keys[k] = true
		}
		for _, k := range sortedKeys(keys) {
			var g uint64
			if oa := out.OutputAccounts[k]; oa != nil {
				g = oa.GasUsed
			}
			if g != s.GasUsed[k] {
				return fmt.Errorf("gas used by %x: %d, expected %d", k, g, s.GasUsed[k])
			}
		}
	}
	if aspects&ARefund != 0 {
		got := new(big.Int)
		if out.GasRefund != nil {
			got.Set(out.GasRefund)
		}
		if got.Cmp(new(big.Int).SetUint64(s.Refund)) != 0 {
			return fmt.Errorf("refund %v, expected %v", got, s.Refund)
		}
	}
	if aspects&ADeploy != 0 {
		for _, k := range sortedKeys(out.OutputAccounts) {
			oa := out.OutputAccounts[k]
			e, ok := s.Code[k]
			if !ok {
				if len(oa.Code) > 0 {
					return fmt.Errorf("code of %x is set, unexpectedly", k)
				}
			} else if !bytes.Equal(oa.Code, e.Code) || !bytes.Equal(oa.CodeMetadata, e.Meta) || !bytes.Equal(oa.CodeDeployerAddress, e.Deployer) {
				return fmt.Errorf("deployment of %x is (%d bytes,%x,%x), expected (%d bytes,%x,%x)", k, len(oa.Code), oa.CodeMetadata,
					oa.CodeDeployerAddress, len(e.Code), e.Meta, e.Deployer)
			}
			if n := m.nonce([]byte(k)); oa.Nonce != n && (oa.Nonce != 0 || s.Nonce[k] != 0) {
				return fmt.Errorf("nonce of %x is %d, expected %d", k, oa.Nonce, n)
			}
		}
		for _, k := range sortedKeys(s.Code) {
			if oa := out.OutputAccounts[k]; oa == nil || len(oa.Code) == 0 && len(s.Code[k].Code) > 0 {
				return fmt.Errorf("code of %x is not set", k)
			}
		}
		for _, k := range sortedKeys(s.Nonce) {
			if out.OutputAccounts[k] == nil {
				return fmt.Errorf("nonce of %x is not set", k)
			}
		}
	}
	return nil
}

func (m *Model) compareStorage(out *vmcommon.VMOutput) error {
	for _, k := range sortedKeys(out.OutputAccounts) {
		ups := out.OutputAccounts[k].StorageUpdates
		for _, sk := range sortedKeys(ups) {
			u := ups[sk]
			if !bytes.Equal(u.Offset, []byte(sk)) {
				return fmt.Errorf("storage update of %x under key %x says its key is %x", k, sk, u.Offset)
			}
			if e := m.stored([]byte(k), []byte(sk)); !bytes.Equal(u.Data, e) {
				return fmt.Errorf("storage of %x at %x becomes %x, expected %x", k, sk, u.Data, e)
			}
		}
	}
	for _, k := range sortedKeys(m.St.Stor) {
		for _, sk := range sortedKeys(m.St.Stor[k]) {
			oa := out.OutputAccounts[k]
			if oa == nil || oa.StorageUpdates[sk] == nil {
				return fmt.Errorf("storage of %x at %x is not updated, expected %x", k, sk, m.St.Stor[k][sk])
			}
		}
	}
	return nil
}

func (m *Model) compareTransfers(out *vmcommon.VMOutput) error {
	want := map[string][]MTransfer{}
	for _, t := range m.St.Xfers {
		want[string(t.To)] = append(want[string(t.To)], t)
	}
	for _, k := range sortedKeys(out.OutputAccounts) {
		ts := out.OutputAccounts[k].OutputTransfers
		if len(ts) != len(want[k]) {
			return fmt.Errorf("%d transfers to %x, expected %d", len(ts), k, len(want[k]))
		}
		for i, t := range ts {
			e := want[k][i]
			if t.Value.Cmp(e.Value) != 0 || t.GasLimit != e.Gas || t.GasLocked != e.Lock || !bytes.Equal(t.Data, e.Data) ||
				t.CallType != e.Type || !bytes.Equal(t.SenderAddress, e.Sender) {
				return fmt.Errorf("transfer %d to %x is %v gas %d+%d data %q type %d from %x, expected %v gas %d+%d data %q type %d from %x", i, k,
					t.Value, t.GasLimit, t.GasLocked, t.Data, t.CallType, t.SenderAddress, e.Value, e.Gas, e.Lock, e.Data, e.Type, e.Sender)
			}
		}
		delete(want, k)
	}
	for _, k := range sortedKeys(want) {
		return fmt.Errorf("no transfers to %x, expected %d", k, len(want[k]))
	}
	return nil
}

func sameBytes(got, want [][]byte) error {
	if len(got) != len(want) {
		return fmt.Errorf("%d items %s, expected %d: %s", len(got), short(got), len(want), short(want))
	}
	for i := range got {
		if !bytes.Equal(got[i], want[i]) {
			return fmt.Errorf("item %d is %x, expected %x", i, got[i], want[i])
		}
	}
	return nil
}

func short(b [][]byte) string {
	s := fmt.Sprintf("%x", b)
	if len(s) > 300 {
		s = s[:300] + "…"
	}
	return s
}

// Tx is one transaction.
type Tx struct {
	Create *vmcommon.ContractCreateInput
	Call   *vmcommon.ContractCallInput
}

// In is the common part.
func (x *Tx) In() *vmcommon.VMInput {
	if x.Create != nil {
		return &x.Create.VMInput
	}
	return &x.Call.VMInput
}

// Run executes it for real.
func (x *Tx) Run(h arwen.VMHost) (*vmcommon.VMOutput, error) { return x.RunOn(h) }

// RunOn executes it on whatever executes transactions.
func (x *Tx) RunOn(h interface {
	RunSmartContractCall(*vmcommon.ContractCallInput) (*vmcommon.VMOutput, error)
	RunSmartContractCreate(*vmcommon.ContractCreateInput) (*vmcommon.VMOutput, error)
}) (*vmcommon.VMOutput, error) {
	if x.Create != nil {
		return h.RunSmartContractCreate(&vmcommon.ContractCreateInput{VMInput: copyInput(x.Create.VMInput),
			ContractCode: dup(x.Create.ContractCode), ContractCodeMetadata: dup(x.Create.ContractCodeMetadata)})
	}
	return h.RunSmartContractCall(&vmcommon.ContractCallInput{VMInput: copyInput(x.Call.VMInput), RecipientAddr: dup(x.Call.RecipientAddr),
		Function: x.Call.Function, AllowInitFunction: x.Call.AllowInitFunction})
}

func dup(b []byte) []byte { return append([]byte(nil), b...) }

func copyInput(in vmcommon.VMInput) vmcommon.VMInput {
	out := in
	out.CallerAddr = dup(in.CallerAddr)
	out.Arguments = nil
	for _, a := range in.Arguments {
		out.Arguments = append(out.Arguments, dup(a))
	}
	if in.CallValue != nil {
		out.CallValue = new(big.Int).Set(in.CallValue)
	}
	out.OriginalTxHash, out.CurrentTxHash, out.PrevTxHash = dup(in.OriginalTxHash), dup(in.CurrentTxHash), dup(in.PrevTxHash)
	return out
}

// Predict runs the model.
func (x *Tx) Predict(w *World, sched config.GasScheduleMap) (*Model, Result) {
	m := &Model{W: w, Sched: sched, V3: true}
	if x.Create != nil {
		_, r := m.Create(x.Create)
		return m, r
	}
	return m, m.Call(x.Call)
}

// String renders it.
func (x *Tx) String() string {
	in := x.In()
	var as []string
	for i, a := range in.Arguments {
		if i == 0 || len(a) > 30 {
			d := Disasm(a)
			if !strings.Contains(d, "?") {
				as = append(as, "{"+d+"}")
				continue
			}
		}
		as = append(as, hex.EncodeToString(a))
	}
	what := "create"
	if x.Call != nil {
		what = fmt.Sprintf("call %x.%s", x.Call.RecipientAddr, x.Call.Function)
	}
	return fmt.Sprintf("%s type=%d from %x value=%v gas=%d+%d args=[%s]", what, in.CallType, in.CallerAddr, in.CallValue,
		in.GasProvided, in.GasLocked, strings.Join(as, ", "))
}

// Describe renders the world.
func (w *World) Describe() string {
	var b strings.Builder
	for _, k := range sortedKeys(w.Accs) {
		a := w.Accs[k]
		fmt.Fprintf(&b, "%x nonce=%d balance=%v code=%d meta=%x owner=%x", k, a.Nonce, a.Balance, len(a.Code), a.Meta, a.Owner)
		for _, sk := range sortedKeys(a.Storage) {
			v := a.Storage[sk]
			if d := Disasm(v); (sk == "cb" || sk == "stored") && !strings.Contains(d, "?") {
				fmt.Fprintf(&b, "\n    %q={%s}", sk, d)
			} else {
				fmt.Fprintf(&b, "\n    %q=%x", sk, v)
			}
		}
		b.WriteString("\n")
	}
	return b.String()
}
