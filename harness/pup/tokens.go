//go:build go1.21

package pup

import (
	"bytes"
	"encoding/hex"
	"errors"
	"fmt"
	"math/big"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/config"
	vmcommon "github.com/ElrondNetwork/elrond-vm-common"
	builtInFunctions "github.com/ElrondNetwork/elrond-vm-common/builtInFunctions"
	"github.com/ElrondNetwork/elrond-vm-common/data/esdt"
)

// Names of the protocol's transfer functions.
const (
	FnTransfer    = vmcommon.BuiltInFunctionESDTTransfer
	FnNFTTransfer = vmcommon.BuiltInFunctionESDTNFTTransfer
)

// tokens in storage: what an account holds, by storage key. The pending
// changes of a transaction lie over the accounts' storage.
type pending map[string][]byte

func (p pending) clone() pending {
	n := make(pending, len(p))
	for k, v := range p {
		n[k] = v
	}
	return n
}

// StorageKeyOf a token's entry in the holder's storage.
func StorageKeyOf(token []byte, nonce uint64) []byte {
	k := append([]byte("ELRONDesdt"), token...)
	return append(k, new(big.Int).SetUint64(nonce).Bytes()...)
}

func (w *World) entry(p pending, addr, key []byte) []byte {
	if v, ok := p[string(addr)+"|"+string(key)]; ok {
		return v
	}
	if a := w.Accs[string(addr)]; a != nil {
		return a.Storage[string(key)]
	}
	return nil
}

// entryExists tells whether the pending changes have the key.
func (p pending) set(addr, key, val []byte) { p[string(addr)+"|"+string(key)] = val }

func emptyToken() *esdt.ESDigitalToken { return &esdt.ESDigitalToken{Value: big.NewInt(0)} }

func (w *World) token(p pending, addr, key []byte) (t *esdt.ESDigitalToken, isNew bool) {
	b := w.entry(p, addr, key)
	if len(b) == 0 {
		return emptyToken(), true
	}
	t = emptyToken()
	if err := t.Unmarshal(b); err != nil {
		panic("INFRA: token entry: " + err.Error())
	}
	if t.Value == nil {
		t.Value = big.NewInt(0)
	}
	return t, false
}

func marshalToken(t *esdt.ESDigitalToken) []byte {
	b, err := t.Marshal()
	if err != nil {
		panic("INFRA: " + err.Error())
	}
	return b
}

// PutToken gives an account a token.
func (w *World) PutToken(addr, token []byte, nonce uint64, t *esdt.ESDigitalToken) {
	a := w.Accs[string(addr)]
	a.Storage[string(StorageKeyOf(token, nonce))] = marshalToken(t)
}

// Errors of the protocol's functions.
var (
	errArgs       = builtInFunctions.ErrInvalidArguments
	errWithValue  = builtInFunctions.ErrBuiltInFunctionCalledWithValue
	errReceiver   = builtInFunctions.ErrInvalidRcvAddr
	errNegative   = builtInFunctions.ErrNegativeValue
	errGas        = builtInFunctions.ErrNotEnoughGas
	errFungible   = builtInFunctions.ErrOnlyFungibleTokensHaveBalanceTransfer
	errFunds      = builtInFunctions.ErrInsufficientFunds
	errFrozen     = builtInFunctions.ErrESDTIsFrozenForAccount
	errPayable    = builtInFunctions.ErrAccountNotPayable
	errNoMetadata = builtInFunctions.ErrNFTDoesNotHaveMetadata
	errNoNFT      = builtInFunctions.ErrNewNFTDataOnSenderAddress
	errQuantity   = builtInFunctions.ErrInvalidNFTQuantity
	errWrongNFT   = builtInFunctions.ErrWrongNFTOnDestination
)

func frozen(t *esdt.ESDigitalToken, afterError bool) bool {
	return !afterError && len(t.Properties) == 2 && t.Properties[0]&1 != 0
}

func (w *World) builtinCost(name string) uint64 {
	s := w.Sched
	if s == nil {
		s = config.MakeGasMapForTests()
	}
	return s["BuiltInCost"][name]
}

func mustBePayable(in *vmcommon.ContractCallInput, plain int) bool {
	return in.CallType != vmcommon.AsynchronousCallBack && in.CallType != vmcommon.ESDTTransferAndExecute && len(in.Arguments) <= plain
}

func transferTo(to []byte, from []byte, fn string, args [][]byte, gas, lock uint64, kind vmcommon.CallType) map[string]*vmcommon.OutputAccount {
	data := fn
	for _, a := range args {
		data += "@" + hex.EncodeToString(a)
	}
	return map[string]*vmcommon.OutputAccount{string(to): {Address: to, OutputTransfers: []vmcommon.OutputTransfer{{
		Value: big.NewInt(0), GasLimit: gas, GasLocked: lock, Data: []byte(data), CallType: kind, SenderAddress: from}}}}
}

// Protocol carries out one of the protocol's own functions, as the network
// does: a failure may leave part of the changes behind, for the caller to undo.
func (w *World) protocol(p pending, in *vmcommon.ContractCallInput) (*vmcommon.VMOutput, error) {
	if in.CallValue.Sign() != 0 {
		return nil, errWithValue
	}
	if len(in.Arguments) < 2 {
		return nil, errArgs
	}
	switch in.Function {
	case FnTransfer:
		return w.fungible(p, in)
	case FnNFTTransfer:
		return w.nft(p, in)
	}
	return nil, fmt.Errorf("no such function %s", in.Function)
}

func (w *World) credit(p pending, addr, key []byte, v *big.Int, afterError bool) error {
	t, _ := w.token(p, addr, key)
	if t.Type != uint32(vmcommon.Fungible) {
		return errFungible
	}
	if frozen(t, afterError) {
		return errFrozen
	}
	t.Value.Add(t.Value, v)
	if t.Value.Sign() < 0 {
		return errFunds
	}
	if t.Value.Sign() == 0 && len(bytes.Trim(t.Properties, "\x00")) == 0 {
		p.set(addr, key, nil)
		return nil
	}
	p.set(addr, key, marshalToken(t))
	return nil
}

func (w *World) fungible(p pending, in *vmcommon.ContractCallInput) (*vmcommon.VMOutput, error) {
	v := new(big.Int).SetBytes(in.Arguments[1])
	if v.Sign() <= 0 {
		return nil, errNegative
	}
	key := StorageKeyOf(in.Arguments[0], 0)
	cost := w.builtinCost("ESDTTransfer")
	out := &vmcommon.VMOutput{ReturnCode: vmcommon.Ok}
	here := ShardOf(in.RecipientAddr) == 0
	if ShardOf(in.CallerAddr) == 0 {
		if in.GasProvided < cost {
			return nil, errGas
		}
		out.GasRemaining = in.GasProvided - cost
		if err := w.credit(p, in.CallerAddr, key, new(big.Int).Neg(v), in.ReturnCallAfterError); err != nil {
			return nil, err
		}
	}
	log := &vmcommon.LogEntry{Identifier: []byte(FnTransfer), Address: in.CallerAddr, Topics: [][]byte{in.Arguments[0], v.Bytes()}}
	if !here {
		if IsSC(in.CallerAddr) {
			out.OutputAccounts = transferTo(in.RecipientAddr, in.CallerAddr, FnTransfer, in.Arguments, out.GasRemaining, in.GasLocked, in.CallType)
			out.GasRemaining = 0
		}
		out.Logs = []*vmcommon.LogEntry{log}
		return out, nil
	}
	if mustBePayable(in, 2) {
		if ok, _ := w.IsPayable(in.RecipientAddr); !ok {
			return nil, errPayable
		}
	}
	if err := w.credit(p, in.RecipientAddr, key, v, in.ReturnCallAfterError); err != nil {
		return nil, err
	}
	if IsSC(in.RecipientAddr) && len(in.Arguments) > 2 {
		out.OutputAccounts = transferTo(in.RecipientAddr, in.CallerAddr, string(in.Arguments[2]), in.Arguments[3:], in.GasProvided-cost, in.GasLocked, in.CallType)
		out.GasRemaining = 0
	} else if in.CallType == vmcommon.AsynchronousCallBack && ShardOf(in.CallerAddr) != 0 {
		out.GasRemaining = in.GasProvided
	}
	log.Topics = append(log.Topics, in.RecipientAddr)
	out.Logs = []*vmcommon.LogEntry{log}
	return out, nil
}

func (w *World) nft(p pending, in *vmcommon.ContractCallInput) (*vmcommon.VMOutput, error) {
	if len(in.Arguments) < 4 {
		return nil, errArgs
	}
	if !bytes.Equal(in.CallerAddr, in.RecipientAddr) {
		// the receiving end of a transfer from another shard
		return nil, errReceiver
	}
	to := in.Arguments[3]
	if len(to) != len(in.CallerAddr) {
		return nil, fmt.Errorf("%w, not a valid destination address", errArgs)
	}
	if bytes.Equal(to, in.CallerAddr) {
		return nil, fmt.Errorf("%w, can not transfer to self", errArgs)
	}
	cost := w.builtinCost("ESDTNFTTransfer")
	if in.GasProvided < cost {
		return nil, errGas
	}
	nonce := new(big.Int).SetBytes(in.Arguments[1]).Uint64()
	if nonce == 0 {
		return nil, errNoMetadata
	}
	key := StorageKeyOf(in.Arguments[0], nonce)
	t, isNew := w.token(p, in.CallerAddr, key)
	if isNew {
		return nil, errNoNFT
	}
	v := new(big.Int).SetBytes(in.Arguments[2])
	if t.Value.Cmp(v) < 0 {
		return nil, errQuantity
	}
	if frozen(t, in.ReturnCallAfterError) {
		return nil, errFrozen
	}
	t.Value.Sub(t.Value, v)
	if t.Value.Sign() == 0 {
		p.set(in.CallerAddr, key, nil)
	} else {
		p.set(in.CallerAddr, key, marshalToken(t))
	}
	t.Value.Set(v)
	here := ShardOf(to) == 0
	if here {
		if mustBePayable(in, 4) {
			if ok, _ := w.IsPayable(to); !ok {
				return nil, errPayable
			}
		}
		have, _ := w.token(p, to, key)
		if frozen(have, in.ReturnCallAfterError) || frozen(t, in.ReturnCallAfterError) {
			return nil, errFrozen
		}
		if have.TokenMetaData != nil && !bytes.Equal(have.TokenMetaData.Hash, t.TokenMetaData.Hash) {
			return nil, errWrongNFT
		}
		t.Value.Add(t.Value, have.Value)
		if t.Value.Sign() == 0 {
			p.set(to, key, nil)
		} else {
			p.set(to, key, marshalToken(t))
		}
	}
	out := &vmcommon.VMOutput{ReturnCode: vmcommon.Ok, GasRemaining: in.GasProvided - cost}
	data := marshalToken(t)
	perByte := uint64(len(data)) * w.baseCost("DataCopyPerByte")
	if perByte > out.GasRemaining {
		return nil, errGas
	}
	out.GasRemaining -= perByte
	then := IsSC(to) && len(in.Arguments) > 4
	if !here {
		args := append(append(append([][]byte{}, in.Arguments[:3]...), data), in.Arguments[4:]...)
		gas := uint64(0)
		if then {
			gas, out.GasRemaining = out.GasRemaining, 0
		}
		out.OutputAccounts = transferTo(to, in.CallerAddr, FnNFTTransfer, args, gas, in.GasLocked, in.CallType)
	} else if then {
		out.OutputAccounts = transferTo(to, in.CallerAddr, string(in.Arguments[4]), in.Arguments[5:], out.GasRemaining, in.GasLocked, in.CallType)
		out.GasRemaining = 0
	}
	out.Logs = []*vmcommon.LogEntry{{Identifier: []byte(FnNFTTransfer), Address: in.CallerAddr,
		Topics: [][]byte{in.Arguments[0], new(big.Int).SetUint64(t.TokenMetaData.Nonce).Bytes(), to}}}
	return out, nil
}

func (w *World) baseCost(name string) uint64 {
	s := w.Sched
	if s == nil {
		s = config.MakeGasMapForTests()
	}
	return s["BaseOperationCost"][name]
}

// EnableTokens makes the chain offer token transfers.
func (w *World) EnableTokens() {
	w.BuiltinNames = map[string]bool{FnTransfer: true, FnNFTTransfer: true}
	w.Tok = pending{}
	w.Builtin = func(in *vmcommon.ContractCallInput) (*vmcommon.VMOutput, error) { return w.protocol(w.Tok, in) }
}

// CommitTokens makes the pending token changes final (keep) or forgets them.
func (w *World) CommitTokens(keep bool) {
	if keep {
		for k, v := range w.Tok {
			addr, key := k[:32], k[33:]
			a := w.Accs[addr]
			if a == nil {
				a = w.Put(&Acc{Address: []byte(addr)})
			}
			if len(v) == 0 {
				delete(a.Storage, key)
			} else {
				a.Storage[key] = v
			}
		}
	}
	w.Tok = pending{}
	w.snaps = nil
}

// SetTokens replaces the pending token changes.
func (w *World) SetTokens(p map[string][]byte) { w.Tok = p }

type builtinFn struct{ name string }

func (b *builtinFn) ProcessBuiltinFunction(_, _ vmcommon.UserAccountHandler, _ *vmcommon.ContractCallInput) (*vmcommon.VMOutput, error) {
	return nil, errors.New("not called directly")
}
func (b *builtinFn) SetNewGasConfig(*vmcommon.GasCost) {}
func (b *builtinFn) IsActive() bool                    { return true }
func (b *builtinFn) IsInterfaceNil() bool              { return b == nil }

// TokenFunctions is the machine's list of the protocol's functions.
func TokenFunctions() vmcommon.BuiltInFunctionContainer {
	c := builtInFunctions.NewBuiltInFunctionContainer()
	for _, n := range []string{FnTransfer, FnNFTTransfer} {
		if err := c.Add(n, &builtinFn{n}); err != nil {
			panic("INFRA: " + err.Error())
		}
	}
	return c
}

// plainTransfer tells transfers of tokens which call nothing.
func plainTransfer(fn string, args [][]byte) ([][]byte, bool) {
	return args, fn == FnTransfer && len(args) == 2 || fn == FnNFTTransfer && len(args) == 4
}

// ---- the model's side
