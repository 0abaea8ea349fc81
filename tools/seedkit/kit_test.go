//go:build go1.21

package demo

import (
	"bytes"
	"encoding/binary"
	"math/big"
	"testing"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwen"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/zzverif/pup"
	vmcommon "github.com/ElrondNetwork/elrond-vm-common"
)

// sc and user make addresses of contracts and of other accounts.
func sc(n byte) []byte {
	a := make([]byte, 32)
	a[8], a[9] = 5, 0
	for i := 10; i < 32; i++ {
		a[i] = n
	}
	a[31] = 0
	return a
}
func user(n byte) []byte {
	a := bytes.Repeat([]byte{n | 0x80}, 32)
	a[31] = 0
	return a
}

// prog assembles a script for the puppet contract.
type prog struct {
	pup.Script
	at uint32
}

func script(f func(p *prog)) []byte {
	p := &prog{at: 0x20000}
	f(p)
	p.End()
	return p.B
}

func (p *prog) put(b []byte) pup.Val {
	at := p.at
	if len(b) > 0 {
		p.Data(at, b)
	}
	p.at += uint32(len(b)+7) &^ 7
	return pup.I(int64(at))
}
func (p *prog) room(n int) uint32 {
	at := p.at
	p.at += uint32(n+7) &^ 7
	return at
}
func n(v int) pup.Val { return pup.I(int64(v)) }

// args places call arguments: number, offset of the lengths, offset of the data.
func (p *prog) args(as ...[]byte) []pup.Val {
	var lens, data []byte
	for _, a := range as {
		lens = binary.LittleEndian.AppendUint32(lens, uint32(len(a)))
		data = append(data, a...)
	}
	return []pup.Val{n(len(as)), p.put(lens), p.put(data)}
}
func val(v int64) []byte {
	b := make([]byte, 32)
	big.NewInt(v).FillBytes(b)
	return b
}

// destCall runs a function of another contract (kind is executeOnDestContext or executeOnSameContext).
func (p *prog) destCall(dst int, kind string, gas int64, to []byte, value int64, fn string, as ...[]byte) {
	v := []pup.Val{pup.I(gas), p.put(to), p.put(val(value)), p.put([]byte(fn)), n(len(fn))}
	p.Call(dst, kind, append(v, p.args(as...)...)...)
}
func (p *prog) store(k, v string) {
	p.Call(0, "storageStore", p.put([]byte(k)), n(len(k)), p.put([]byte(v)), n(len(v)))
}
func (p *prog) async(to []byte, value int64, data []byte) {
	p.Call(0, "asyncCall", p.put(to), p.put(val(value)), p.put(data), n(len(data)))
}
func (p *prog) transfer(to []byte, value int64, data string) {
	p.Call(0, "transferValue", p.put(to), p.put(val(value)), p.put([]byte(data)), n(len(data)))
}
func (p *prog) finish(b string) { p.Call(0, "finish", p.put([]byte(b)), n(len(b))) }

// chain is a world with some scripted contracts.
func chain(contracts ...byte) *pup.World {
	w := pup.NewWorld()
	for _, c := range contracts {
		w.Put(&pup.Acc{Address: sc(c), Code: pup.Puppet(), Meta: []byte{vmcommon.MetadataUpgradeable | vmcommon.MetadataReadable, vmcommon.MetadataPayable}, Owner: user(1), Balance: big.NewInt(1000000)})
	}
	w.Put(&pup.Acc{Address: user(1), Balance: big.NewInt(1000000)})
	w.Put(&pup.Acc{Address: user(2), Balance: big.NewInt(1000000)})
	return w
}
func input(gas uint64, value int64, to []byte, fn string, as ...[]byte) *vmcommon.ContractCallInput {
	return &vmcommon.ContractCallInput{RecipientAddr: to, Function: fn, VMInput: vmcommon.VMInput{
		CallerAddr: user(1), Arguments: as, CallValue: big.NewInt(value), GasPrice: 1, GasProvided: gas,
		OriginalTxHash: bytes.Repeat([]byte{1}, 32), CurrentTxHash: bytes.Repeat([]byte{2}, 32), PrevTxHash: bytes.Repeat([]byte{3}, 32)}}
}
func machine(w *pup.World) arwen.VMHost { return pup.Host(w, pup.Options{}) }
func run(t *testing.T, h arwen.VMHost, in *vmcommon.ContractCallInput) *vmcommon.VMOutput {
	t.Helper()
	out, err := h.RunSmartContractCall(in)
	if err != nil {
		t.Fatal(err)
	}
	return out
}
func ok(t *testing.T, h arwen.VMHost, in *vmcommon.ContractCallInput) *vmcommon.VMOutput {
	t.Helper()
	out := run(t, h, in)
	if out.ReturnCode != vmcommon.Ok {
		t.Fatalf("return code %s: %s", out.ReturnCode, out.ReturnMessage)
	}
	return out
}
func storage(out *vmcommon.VMOutput, addr []byte, key string) string {
	a := out.OutputAccounts[string(addr)]
	if a == nil || a.StorageUpdates[key] == nil {
		return ""
	}
	return string(a.StorageUpdates[key].Data)
}
