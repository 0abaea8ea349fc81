//go:build go1.21

package pup

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"sync"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwen"
	arwenhost "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwen/host"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/config"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/wasmer"
	vmcommon "github.com/ElrondNetwork/elrond-vm-common"
	"github.com/ElrondNetwork/elrond-vm-common/builtInFunctions"
)

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// SortedKeys lists the keys of a map in order.
func SortedKeys[V any](m map[string]V) []string { return sortedKeys(m) }

var (
	puppetOnce sync.Once
	puppetCode []byte
)

// Puppet is the scripted contract's code.
func Puppet() []byte {
	puppetOnce.Do(func() {
		b, err := os.ReadFile(filepath.Join(os.Getenv("VH_VERIF"), "puppet", "puppet.wasm"))
		if err != nil {
			panic("INFRA: " + err.Error())
		}
		puppetCode = b
	})
	return append([]byte(nil), puppetCode...)
}

// PuppetPadded is the same contract with pad more bytes of code (a custom section).
func PuppetPadded(pad int) []byte {
	c := Puppet()
	if pad <= 0 {
		return c
	}
	return append(c, CustomSection("pad", make([]byte, pad))...)
}

// PuppetWithout is the puppet with one of its exports renamed away.
func PuppetWithout(export string) []byte {
	c := Puppet()
	i := indexOf(c, []byte(export))
	if i < 0 {
		panic("INFRA: export not found: " + export)
	}
	c[i] = 'z'
	return c
}

func indexOf(c, name []byte) int {
	want := append([]byte{byte(len(name))}, name...)
	for i := 0; i+len(want) <= len(c); i++ {
		if string(c[i:i+len(want)]) == string(want) {
			// the export section precedes the code section; the first match after the imports is it
			return i + 1
		}
	}
	return -1
}

// CustomSection encodes a wasm custom section.
func CustomSection(name string, data []byte) []byte {
	body := append(ULEB(uint64(len(name))), name...)
	body = append(body, data...)
	out := append([]byte{0}, ULEB(uint64(len(body)))...)
	return append(out, body...)
}

// ULEB encodes an unsigned LEB128.
func ULEB(v uint64) []byte {
	var out []byte
	for {
		b := byte(v & 0x7f)
		v >>= 7
		if v != 0 {
			out = append(out, b|0x80)
		} else {
			return append(out, b)
		}
	}
}

// Options of a machine.
type Options struct {
	Schedule    config.GasScheduleMap
	Warm        bool
	KeepOpcodes bool // leave the opcode costs of the schedule in force
	Builtins    vmcommon.BuiltInFunctionContainer
	VMType      []byte
	Prefix      []byte
	// enable epochs: V2, AoT, DynGasLock, V3, ESDT
	Epochs [5]uint32
}

// VMType used by default.
var VMType = []byte{5, 0}

// ReservedPrefix is the protocol's protected storage prefix.
var ReservedPrefix = []byte("ELROND")

// Params are the parameters of a machine.
func Params(o Options) *arwen.VMHostParameters {
	if o.Schedule == nil {
		o.Schedule = config.MakeGasMapForTests()
	}
	if o.Builtins == nil {
		o.Builtins = builtInFunctions.NewBuiltInFunctionContainer()
	}
	if o.VMType == nil {
		o.VMType = VMType
	}
	if o.Prefix == nil {
		o.Prefix = ReservedPrefix
	}
	return &arwen.VMHostParameters{
		VMType:                        o.VMType,
		BlockGasLimit:                 1 << 40,
		GasSchedule:                   o.Schedule,
		BuiltInFuncContainer:          o.Builtins,
		ElrondProtectedKeyPrefix:      o.Prefix,
		UseWarmInstance:               o.Warm,
		ArwenV2EnableEpoch:            o.Epochs[0],
		AheadOfTimeEnableEpoch:        o.Epochs[1],
		DynGasLockEnableEpoch:         o.Epochs[2],
		ArwenV3EnableEpoch:            o.Epochs[3],
		ArwenESDTFunctionsEnableEpoch: o.Epochs[4],
	}
}

// Host creates a machine over a blockchain.
func Host(hook vmcommon.BlockchainHook, o Options) arwen.VMHost {
	h, err := arwenhost.NewArwenVM(hook, Params(o))
	if err != nil {
		panic(fmt.Sprintf("INFRA: cannot create machine: %v", err))
	}
	if !o.KeepOpcodes {
		FreeOpcodes()
	}
	return h
}

// FreeOpcodes makes instructions cost nothing, so that only host calls are charged.
func FreeOpcodes() {
	var zero [wasmer.OPCODE_COUNT]uint32
	wasmer.SetOpcodeCosts(&zero)
}
