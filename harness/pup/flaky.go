//go:build go1.21

package pup

import (
	"errors"

	vmcommon "github.com/ElrondNetwork/elrond-vm-common"
	"github.com/ElrondNetwork/elrond-vm-common/data/esdt"
)

// Flaky is a blockchain of which some queries fail.
type Flaky struct {
	*World
	Now      int         // queries so far
	Faults   map[int]int // number of the query to what happens: 1 error, 2 panic
	Happened int
}

// ErrFlaky is the planned failure.
var ErrFlaky = errors.New("planned failure of the blockchain")

// IsInterfaceNil -
func (f *Flaky) IsInterfaceNil() bool { return f == nil }

func (f *Flaky) fails(canErr bool) bool {
	k := f.Faults[f.Now]
	f.Now++
	if k == 2 {
		f.Happened++
		panic("planned panic of the blockchain")
	}
	if k == 1 && canErr {
		f.Happened++
		return true
	}
	return false
}

// NewAddress -
func (f *Flaky) NewAddress(creator []byte, nonce uint64, vmType []byte) ([]byte, error) {
	if f.fails(true) {
		return nil, ErrFlaky
	}
	return f.World.NewAddress(creator, nonce, vmType)
}

// GetStorageData -
func (f *Flaky) GetStorageData(addr, key []byte) ([]byte, error) {
	if f.fails(true) {
		return nil, ErrFlaky
	}
	return f.World.GetStorageData(addr, key)
}

// GetBlockhash -
func (f *Flaky) GetBlockhash(nonce uint64) ([]byte, error) {
	if f.fails(true) {
		return nil, ErrFlaky
	}
	return f.World.GetBlockhash(nonce)
}

// LastNonce -
func (f *Flaky) LastNonce() uint64 { f.fails(false); return f.World.LastNonce() }

// LastTimeStamp -
func (f *Flaky) LastTimeStamp() uint64 { f.fails(false); return f.World.LastTimeStamp() }

// CurrentNonce -
func (f *Flaky) CurrentNonce() uint64 { f.fails(false); return f.World.CurrentNonce() }

// CurrentRandomSeed -
func (f *Flaky) CurrentRandomSeed() []byte { f.fails(false); return f.World.CurrentRandomSeed() }

// GetUserAccount -
func (f *Flaky) GetUserAccount(addr []byte) (vmcommon.UserAccountHandler, error) {
	if f.fails(true) {
		return nil, ErrFlaky
	}
	return f.World.GetUserAccount(addr)
}

// GetCode -
func (f *Flaky) GetCode(h vmcommon.UserAccountHandler) []byte {
	if f.fails(true) {
		return nil
	}
	return f.World.GetCode(h)
}

// IsPayable -
func (f *Flaky) IsPayable(addr []byte) (bool, error) {
	if f.fails(true) {
		return false, ErrFlaky
	}
	return f.World.IsPayable(addr)
}

// SaveCompiledCode -
func (f *Flaky) SaveCompiledCode(hash, code []byte) {
	if f.fails(true) {
		return
	}
	f.World.SaveCompiledCode(hash, code)
}

// GetCompiledCode -
func (f *Flaky) GetCompiledCode(hash []byte) (bool, []byte) {
	if f.fails(true) {
		return false, nil
	}
	return f.World.GetCompiledCode(hash)
}

// GetESDTToken -
func (f *Flaky) GetESDTToken(addr, token []byte, nonce uint64) (*esdt.ESDigitalToken, error) {
	if f.fails(true) {
		return nil, ErrFlaky
	}
	return f.World.GetESDTToken(addr, token, nonce)
}

// ProcessBuiltInFunction -
func (f *Flaky) ProcessBuiltInFunction(in *vmcommon.ContractCallInput) (*vmcommon.VMOutput, error) {
	if f.fails(true) {
		return nil, ErrFlaky
	}
	return f.World.ProcessBuiltInFunction(in)
}

// RevertToSnapshot -
func (f *Flaky) RevertToSnapshot(s int) error {
	if f.fails(true) {
		return ErrFlaky
	}
	return f.World.RevertToSnapshot(s)
}
