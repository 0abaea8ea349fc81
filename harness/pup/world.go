//go:build go1.21

// Package pup drives the real virtual machine with a scripted contract (the
// puppet) over a small, fully transparent blockchain.
package pup

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"errors"
	"fmt"
	"math/big"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/config"
	vmcommon "github.com/ElrondNetwork/elrond-vm-common"
	"github.com/ElrondNetwork/elrond-vm-common/data/esdt"
)

// Acc is one account of the harness's blockchain.
type Acc struct {
	Address  []byte
	Nonce    uint64
	Balance  *big.Int
	Code     []byte
	Meta     []byte
	Owner    []byte
	UserName []byte
	Storage  map[string][]byte
}

// Block is what the chain says about one block.
type Block struct {
	Nonce, Round, Time uint64
	Epoch              uint32
	Seed               []byte
}

// World is the harness's blockchain hook.
type World struct {
	Accs         map[string]*Acc
	Last, Cur    Block
	StateRoot    []byte
	Compiled     map[string][]byte
	Builtin      func(*vmcommon.ContractCallInput) (*vmcommon.VMOutput, error)
	Tok          pending // token entries changed by the transaction under way; nil without token functions
	snaps        map[int]pending
	Sched        config.GasScheduleMap // prices of the protocol's functions
	SnapCount    int
	Reverts      []int
	NoCache      bool
	BuiltinNames map[string]bool
	Hashes       func(nonce uint64) ([]byte, error)
}

// NewWorld makes an empty chain.
func NewWorld() *World {
	return &World{
		Accs:      map[string]*Acc{},
		Compiled:  map[string][]byte{},
		StateRoot: bytes.Repeat([]byte{0x5a}, 32),
		Last:      Block{Nonce: 1000, Round: 1010, Time: 100000, Epoch: 7, Seed: bytes.Repeat([]byte{0x11}, 48)},
		Cur:       Block{Nonce: 1001, Round: 1012, Time: 100006, Epoch: 8, Seed: bytes.Repeat([]byte{0x22}, 48)},
	}
}

// ErrNoAccount is returned for accounts this shard does not hold.
var ErrNoAccount = errors.New("account not found")

// Put adds an account.
func (w *World) Put(a *Acc) *Acc {
	if a.Balance == nil {
		a.Balance = big.NewInt(0)
	}
	if a.Storage == nil {
		a.Storage = map[string][]byte{}
	}
	w.Accs[string(a.Address)] = a
	return a
}

// Clone copies everything that matters to an execution.
func (w *World) Clone() *World {
	n := *w
	n.Accs = map[string]*Acc{}
	for k, a := range w.Accs {
		b := *a
		b.Balance = new(big.Int).Set(a.Balance)
		b.Storage = map[string][]byte{}
		for sk, sv := range a.Storage {
			b.Storage[sk] = append([]byte(nil), sv...)
		}
		n.Accs[k] = &b
	}
	n.Compiled = map[string][]byte{}
	for k, v := range w.Compiled {
		n.Compiled[k] = v
	}
	n.Reverts = nil
	if w.Tok != nil {
		n.Tok = w.Tok.clone()
		n.Builtin = func(in *vmcommon.ContractCallInput) (*vmcommon.VMOutput, error) { return n.protocol(n.Tok, in) }
	}
	n.snaps = nil
	return &n
}

// Fingerprint digests the accounts (to tell that an execution left them alone).
func (w *World) Fingerprint() string {
	h := sha256.New()
	for _, k := range sortedKeys(w.Accs) {
		a := w.Accs[k]
		h.Write(a.Address)
		var n [8]byte
		binary.BigEndian.PutUint64(n[:], a.Nonce)
		h.Write(n[:])
		h.Write([]byte(a.Balance.String()))
		h.Write(a.Code)
		h.Write(a.Meta)
		h.Write(a.Owner)
		for _, sk := range sortedKeys(a.Storage) {
			h.Write([]byte(sk))
			h.Write([]byte{0})
			h.Write(a.Storage[sk])
			h.Write([]byte{1})
		}
	}
	return string(h.Sum(nil))
}

// Apply applies the output of a successful transaction, as a node would.
// callerValue is taken from the caller first.
func (w *World) Apply(out *vmcommon.VMOutput, caller []byte, value *big.Int) {
	if out.ReturnCode != vmcommon.Ok {
		return
	}
	if c := w.Accs[string(caller)]; c != nil && value != nil {
		c.Balance = new(big.Int).Sub(c.Balance, value)
	}
	for _, oa := range out.OutputAccounts {
		a := w.Accs[string(oa.Address)]
		if a == nil {
			if w.GetShardOfAddress(oa.Address) != 0 {
				continue
			}
			a = w.Put(&Acc{Address: append([]byte(nil), oa.Address...)})
		}
		if oa.BalanceDelta != nil {
			a.Balance = new(big.Int).Add(a.Balance, oa.BalanceDelta)
		}
		if oa.Nonce > a.Nonce {
			a.Nonce = oa.Nonce
		}
		if len(oa.Code) > 0 {
			a.Code = oa.Code
			a.Meta = oa.CodeMetadata
			if a.Owner == nil {
				a.Owner = oa.CodeDeployerAddress
			}
		}
		for _, su := range oa.StorageUpdates {
			if len(su.Data) == 0 {
				delete(a.Storage, string(su.Offset))
			} else {
				a.Storage[string(su.Offset)] = append([]byte(nil), su.Data...)
			}
		}
	}
}

// ---- BlockchainHook

func (w *World) NewAddress(creator []byte, nonce uint64, vmType []byte) ([]byte, error) {
	return NewAddress(creator, nonce, vmType), nil
}

// NewAddress derives contract addresses: eight zero bytes, the vm type, a hash, the creator's shard.
func NewAddress(creator []byte, nonce uint64, vmType []byte) []byte {
	var n [8]byte
	binary.LittleEndian.PutUint64(n[:], nonce)
	h := sha256.Sum256(append(append([]byte("new"), creator...), n[:]...))
	addr := make([]byte, 32)
	copy(addr[8:], vmType)
	copy(addr[10:30], h[:])
	copy(addr[30:], creator[30:])
	return addr
}

func (w *World) GetStorageData(addr, key []byte) ([]byte, error) {
	return append([]byte{}, w.entry(w.Tok, addr, key)...), nil
}

func (w *World) GetBlockhash(nonce uint64) ([]byte, error) {
	if w.Hashes != nil {
		return w.Hashes(nonce)
	}
	return BlockHash(nonce), nil
}

// BlockHash is the hash of the numbered block on this chain.
func BlockHash(nonce uint64) []byte {
	var n [8]byte
	binary.LittleEndian.PutUint64(n[:], nonce)
	h := sha256.Sum256(append([]byte("block"), n[:]...))
	return h[:]
}
func (w *World) LastNonce() uint64         { return w.Last.Nonce }
func (w *World) LastRound() uint64         { return w.Last.Round }
func (w *World) LastTimeStamp() uint64     { return w.Last.Time }
func (w *World) LastRandomSeed() []byte    { return append([]byte(nil), w.Last.Seed...) }
func (w *World) LastEpoch() uint32         { return w.Last.Epoch }
func (w *World) GetStateRootHash() []byte  { return append([]byte(nil), w.StateRoot...) }
func (w *World) CurrentNonce() uint64      { return w.Cur.Nonce }
func (w *World) CurrentRound() uint64      { return w.Cur.Round }
func (w *World) CurrentTimeStamp() uint64  { return w.Cur.Time }
func (w *World) CurrentRandomSeed() []byte { return append([]byte(nil), w.Cur.Seed...) }
func (w *World) CurrentEpoch() uint32      { return w.Cur.Epoch }
func (w *World) ProcessBuiltInFunction(in *vmcommon.ContractCallInput) (*vmcommon.VMOutput, error) {
	if w.Builtin == nil {
		return nil, errors.New("no builtin functions")
	}
	return w.Builtin(in)
}
func (w *World) GetBuiltinFunctionNames() vmcommon.FunctionNames { return vmcommon.FunctionNames{} }
func (w *World) GetAllState(addr []byte) (map[string][]byte, error) {
	a := w.Accs[string(addr)]
	if a == nil {
		return nil, ErrNoAccount
	}
	return a.Storage, nil
}
func (w *World) GetUserAccount(addr []byte) (vmcommon.UserAccountHandler, error) {
	a := w.Accs[string(addr)]
	if a == nil {
		return nil, ErrNoAccount
	}
	return &handle{a}, nil
}
func (w *World) GetCode(h vmcommon.UserAccountHandler) []byte {
	a := w.Accs[string(h.AddressBytes())]
	if a == nil {
		return nil
	}
	return append([]byte(nil), a.Code...)
}

// GetShardOfAddress is the last byte's top bit.
func (w *World) GetShardOfAddress(addr []byte) uint32 { return ShardOf(addr) }

// ShardOf is the shard of an address on this chain.
func ShardOf(addr []byte) uint32 {
	if len(addr) == 0 {
		return 0
	}
	return uint32(addr[len(addr)-1] >> 7)
}

// IsSC tells contract addresses apart.
func IsSC(addr []byte) bool { return len(addr) == 32 && bytes.Equal(addr[:8], make([]byte, 8)) }

func (w *World) IsSmartContract(addr []byte) bool { return IsSC(addr) }
func (w *World) IsPayable(addr []byte) (bool, error) {
	a := w.Accs[string(addr)]
	if a == nil || !IsSC(addr) {
		return true, nil
	}
	return vmcommon.CodeMetadataFromBytes(a.Meta).Payable, nil
}
func (w *World) SaveCompiledCode(hash, code []byte) {
	w.Compiled[string(hash)] = append([]byte(nil), code...)
}
func (w *World) GetCompiledCode(hash []byte) (bool, []byte) {
	if w.NoCache {
		return false, nil
	}
	c, ok := w.Compiled[string(hash)]
	return ok, c
}
func (w *World) ClearCompiledCodes() { w.Compiled = map[string][]byte{} }
func (w *World) GetESDTToken(addr, token []byte, nonce uint64) (*esdt.ESDigitalToken, error) {
	t, _ := w.token(w.Tok, addr, StorageKeyOf(token, nonce))
	return t, nil
}
func (w *World) GetSnapshot() int {
	w.SnapCount++
	if w.Tok != nil {
		if w.snaps == nil {
			w.snaps = map[int]pending{}
		}
		w.snaps[w.SnapCount] = w.Tok.clone()
	}
	return w.SnapCount
}
func (w *World) RevertToSnapshot(s int) error {
	w.Reverts = append(w.Reverts, s)
	if w.Tok != nil {
		old, ok := w.snaps[s]
		if !ok {
			return fmt.Errorf("no snapshot %d", s)
		}
		w.Tok = old.clone()
	}
	return nil
}
func (w *World) IsInterfaceNil() bool { return w == nil }

type handle struct{ a *Acc }

func (h *handle) GetCodeMetadata() []byte { return append([]byte(nil), h.a.Meta...) }
func (h *handle) GetCodeHash() []byte {
	if len(h.a.Code) == 0 {
		return nil
	}
	s := sha256.Sum256(h.a.Code)
	return s[:]
}
func (h *handle) GetRootHash() []byte                             { return nil }
func (h *handle) AccountDataHandler() vmcommon.AccountDataHandler { return nil }
func (h *handle) AddToBalance(*big.Int) error                     { return errors.New("read only") }
func (h *handle) GetBalance() *big.Int                            { return new(big.Int).Set(h.a.Balance) }
func (h *handle) ClaimDeveloperRewards([]byte) (*big.Int, error)  { return nil, errors.New("read only") }
func (h *handle) GetDeveloperReward() *big.Int                    { return big.NewInt(0) }
func (h *handle) ChangeOwnerAddress([]byte, []byte) error         { return errors.New("read only") }
func (h *handle) SetOwnerAddress([]byte)                          {}
func (h *handle) GetOwnerAddress() []byte                         { return append([]byte(nil), h.a.Owner...) }
func (h *handle) SetUserName([]byte)                              {}
func (h *handle) GetUserName() []byte                             { return h.a.UserName }
func (h *handle) AddressBytes() []byte                            { return h.a.Address }
func (h *handle) IncreaseNonce(n uint64)                          {}
func (h *handle) GetNonce() uint64                                { return h.a.Nonce }
func (h *handle) IsInterfaceNil() bool                            { return h == nil }
