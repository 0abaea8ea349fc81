//go:build go1.21

package ipcx

import (
	"fmt"
	"reflect"
	"sync"

	vmcommon "github.com/ElrondNetwork/elrond-vm-common"
	"github.com/ElrondNetwork/elrond-vm-common/data/esdt"
)

// recorder is a blockchain that answers as planned and remembers what it was asked
type recorder struct {
	mu   sync.Mutex
	plan [][]reflect.Value
	seen []call
}

func (r *recorder) ask(method string, args ...interface{}) []reflect.Value {
	r.mu.Lock()
	defer r.mu.Unlock()
	var s []string
	for _, a := range args {
		s = append(s, shown(reflect.ValueOf(a)))
	}
	n := len(r.seen)
	r.seen = append(r.seen, call{method: method, args: fmt.Sprint(s)})
	if n >= len(r.plan) {
		panic("unexpected query: " + method)
	}
	return r.plan[n]
}

func failure(v reflect.Value) error {
	err, _ := v.Interface().(error)
	return err
}

// IsInterfaceNil -
func (r *recorder) IsInterfaceNil() bool { return r == nil }

func (r *recorder) NewAddress(a []byte, b uint64, c []byte) ([]byte, error) {
	v := r.ask("NewAddress", a, b, c)
	return v[0].Interface().([]byte), failure(v[1])
}

func (r *recorder) GetStorageData(a []byte, b []byte) ([]byte, error) {
	v := r.ask("GetStorageData", a, b)
	return v[0].Interface().([]byte), failure(v[1])
}

func (r *recorder) GetBlockhash(a uint64) ([]byte, error) {
	v := r.ask("GetBlockhash", a)
	return v[0].Interface().([]byte), failure(v[1])
}

func (r *recorder) LastNonce() uint64 {
	v := r.ask("LastNonce")
	return v[0].Interface().(uint64)
}

func (r *recorder) LastRound() uint64 {
	v := r.ask("LastRound")
	return v[0].Interface().(uint64)
}

func (r *recorder) LastTimeStamp() uint64 {
	v := r.ask("LastTimeStamp")
	return v[0].Interface().(uint64)
}

func (r *recorder) LastRandomSeed() []byte {
	v := r.ask("LastRandomSeed")
	return v[0].Interface().([]byte)
}

func (r *recorder) LastEpoch() uint32 {
	v := r.ask("LastEpoch")
	return v[0].Interface().(uint32)
}

func (r *recorder) GetStateRootHash() []byte {
	v := r.ask("GetStateRootHash")
	return v[0].Interface().([]byte)
}

func (r *recorder) CurrentNonce() uint64 {
	v := r.ask("CurrentNonce")
	return v[0].Interface().(uint64)
}

func (r *recorder) CurrentRound() uint64 {
	v := r.ask("CurrentRound")
	return v[0].Interface().(uint64)
}

func (r *recorder) CurrentTimeStamp() uint64 {
	v := r.ask("CurrentTimeStamp")
	return v[0].Interface().(uint64)
}

func (r *recorder) CurrentRandomSeed() []byte {
	v := r.ask("CurrentRandomSeed")
	return v[0].Interface().([]byte)
}

func (r *recorder) CurrentEpoch() uint32 {
	v := r.ask("CurrentEpoch")
	return v[0].Interface().(uint32)
}

func (r *recorder) ProcessBuiltInFunction(a *vmcommon.ContractCallInput) (*vmcommon.VMOutput, error) {
	v := r.ask("ProcessBuiltInFunction", a)
	return v[0].Interface().(*vmcommon.VMOutput), failure(v[1])
}

func (r *recorder) GetBuiltinFunctionNames() vmcommon.FunctionNames {
	v := r.ask("GetBuiltinFunctionNames")
	return v[0].Interface().(vmcommon.FunctionNames)
}

func (r *recorder) GetAllState(a []byte) (map[string][]byte, error) {
	v := r.ask("GetAllState", a)
	return v[0].Interface().(map[string][]byte), failure(v[1])
}

func (r *recorder) GetUserAccount(a []byte) (vmcommon.UserAccountHandler, error) {
	v := r.ask("GetUserAccount", a)
	h, _ := v[0].Interface().(vmcommon.UserAccountHandler)
	return h, failure(v[1])
}

func (r *recorder) GetCode(a vmcommon.UserAccountHandler) []byte {
	v := r.ask("GetCode", a)
	return v[0].Interface().([]byte)
}

func (r *recorder) GetShardOfAddress(a []byte) uint32 {
	v := r.ask("GetShardOfAddress", a)
	return v[0].Interface().(uint32)
}

func (r *recorder) IsSmartContract(a []byte) bool {
	v := r.ask("IsSmartContract", a)
	return v[0].Interface().(bool)
}

func (r *recorder) IsPayable(a []byte) (bool, error) {
	v := r.ask("IsPayable", a)
	return v[0].Interface().(bool), failure(v[1])
}

func (r *recorder) SaveCompiledCode(a []byte, b []byte) {
	r.ask("SaveCompiledCode", a, b)
}

func (r *recorder) GetCompiledCode(a []byte) (bool, []byte) {
	v := r.ask("GetCompiledCode", a)
	return v[0].Interface().(bool), v[1].Interface().([]byte)
}

func (r *recorder) ClearCompiledCodes() {
	r.ask("ClearCompiledCodes")
}

func (r *recorder) GetESDTToken(a []byte, b []byte, c uint64) (*esdt.ESDigitalToken, error) {
	v := r.ask("GetESDTToken", a, b, c)
	return v[0].Interface().(*esdt.ESDigitalToken), failure(v[1])
}

func (r *recorder) GetSnapshot() int {
	v := r.ask("GetSnapshot")
	return v[0].Interface().(int)
}

func (r *recorder) RevertToSnapshot(a int) error {
	v := r.ask("RevertToSnapshot", a)
	return failure(v[0])
}
