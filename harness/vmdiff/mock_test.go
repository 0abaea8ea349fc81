//go:build go1.21

package vmdiff

import (
	"bytes"
	"math/big"
	"strings"
	"testing"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/config"
	worldmock "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mock/world"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/zzverif/pup"
	vmcommon "github.com/ElrondNetwork/elrond-vm-common"
	"github.com/ElrondNetwork/elrond-vm-common/data/esdt"
)

// mocked is a chain whose accounts and tokens are those of the repository's
// simulated world, with the protocol's own transfer functions.
type mocked struct {
	*pup.World
	mock *worldmock.MockWorld
}

func newMocked(w *pup.World, sched config.GasScheduleMap) *mocked {
	m := &mocked{w, worldmock.NewMockWorld()}
	for _, k := range pup.SortedKeys(w.Accs) {
		a := w.Accs[k]
		b := m.account([]byte(k))
		b.Nonce, b.OwnerAddress, b.Code, b.CodeMetadata = a.Nonce, a.Owner, a.Code, a.Meta
		b.Balance = new(big.Int).Set(a.Balance)
		for x, v := range a.Storage {
			b.Storage[x] = append([]byte(nil), v...)
		}
	}
	if err := m.mock.InitBuiltinFunctions(sched); err != nil {
		panic("INFRA: " + err.Error())
	}
	m.mock.CreateStateBackup()
	return m
}

func (m *mocked) account(addr []byte) *worldmock.Account {
	if a := m.mock.AcctMap.GetAccount(addr); a != nil {
		return a
	}
	a := m.mock.AcctMap.CreateAccount(append([]byte(nil), addr...), m.mock)
	a.ShardID = pup.ShardOf(addr)
	a.IsSmartContract = pup.IsSC(addr)
	a.CodeMetadata = (&vmcommon.CodeMetadata{Payable: true}).ToBytes() // unless something is known about it
	m.mock.AcctMap.PutAccount(a)
	return a
}

func (m *mocked) ProcessBuiltInFunction(in *vmcommon.ContractCallInput) (*vmcommon.VMOutput, error) {
	// the network knows every address
	m.account(in.CallerAddr)
	m.account(in.RecipientAddr)
	if len(in.Arguments) > 3 && len(in.Arguments[3]) == len(in.CallerAddr) {
		m.account(in.Arguments[3])
	}
	return m.mock.ProcessBuiltInFunction(in)
}

func (m *mocked) GetESDTToken(addr, token []byte, nonce uint64) (*esdt.ESDigitalToken, error) {
	t, err := m.mock.GetESDTToken(addr, token, nonce)
	if len(m.account(addr).Storage[string(pup.StorageKeyOf(token, nonce))]) == 0 {
		// by its own convention the simulated world reports the identifier as
		// the name of a token which is not there
		return &esdt.ESDigitalToken{Value: big.NewInt(0)}, nil
	}
	return t, err
}

func (m *mocked) GetStorageData(addr, key []byte) ([]byte, error) {
	return m.mock.GetStorageData(addr, key)
}
func (m *mocked) GetSnapshot() int             { return m.mock.GetSnapshot() }
func (m *mocked) RevertToSnapshot(s int) error { return m.mock.RevertToSnapshot(s) }
func (m *mocked) GetAllState(addr []byte) (map[string][]byte, error) {
	return m.mock.GetAllState(addr)
}
func (m *mocked) IsPayable(addr []byte) (bool, error) { return m.mock.IsPayable(addr) }
func (m *mocked) IsSmartContract(addr []byte) bool    { return m.mock.IsSmartContract(addr) }
func (m *mocked) GetShardOfAddress(addr []byte) uint32 {
	m.account(addr)
	return m.mock.GetShardOfAddress(addr)
}

// pending lists the tokens that the transaction changed.
func (m *mocked) changed() map[string][]byte {
	p := map[string][]byte{}
	for _, k := range pup.SortedKeys(m.mock.AcctMap) {
		had := map[string][]byte{}
		if a := m.World.Accs[k]; a != nil {
			had = a.Storage
		}
		has := m.mock.AcctMap[k].Storage
		for x, v := range has {
			if strings.HasPrefix(x, "ELROND") && !bytes.Equal(v, had[x]) {
				p[k+"|"+x] = v
			}
		}
		for x, v := range had {
			if strings.HasPrefix(x, "ELROND") && len(v) > 0 && len(has[x]) == 0 {
				p[k+"|"+x] = nil
			}
		}
	}
	return p
}

// TestC11Mock is TestC11 with the token state and functions of the simulated world.
func TestC11Mock(t *testing.T) {
	p := tokensProperty()
	p.mocked = true
	p.test(t)
}
