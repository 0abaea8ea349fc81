//go:build go1.21

package vmdiff

import (
	"fmt"
	"strings"
	"testing"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/zzverif/pup"
	vmcommon "github.com/ElrondNetwork/elrond-vm-common"
	"pgregory.net/rapid"
)

var calls = pup.Weights{"dest": 6, "caller": 1, "same": 4, "delegate": 1, "readonly": 1, "tve": 4, "async": 3, "createFrom": 2,
	"create": 1, "upgrade": 1}

// someTokens: a few transfers of tokens among the rest.
var someTokens = pup.Weights{"tokxfer": 1, "tokdest": 1, "tokasync": 1, "tokvalue": 1, "tokquery": 1}

// some counts the events whose name starts with one of the given words.
func some(m *pup.Model, words ...string) int {
	n := 0
	for k, v := range m.Calls {
		for _, w := range words {
			if strings.HasPrefix(k, w) {
				n += v
				break
			}
		}
	}
	return n
}

func hostCalls(m *pup.Model, names ...string) int {
	n := 0
	for _, k := range names {
		n += m.HostCalls[k]
	}
	return n
}

var nested = []string{"dest", "caller", "same", "delegate", "readonly", "transferExecute", "async", "create", "upgrade"}

func TestC01(t *testing.T) {
	property{
		id: "C01",
		rule: "the transaction makes at least one nested call, asynchronous call, deployment or outgoing transfer with gas, " +
			"or it runs out of gas",
		weights: pup.Mix(calls, someTokens, pup.Weights{"store": 3, "load": 1, "gas": 3, "finish": 1, "err": 1, "transfer": 1, "trap": 1, "grow": 1, "lock": 1}),
		aspects: pup.AGas | pup.AReturn | pup.ATransfers | pup.ARefund,
		cut:     60,
		shape:   func(g *pup.Gen) { g.MinOps = 3 },
		nontrivial: func(m *pup.Model, r pup.Result) bool {
			return some(m, nested...) > 0 || r.Code == vmcommon.OutOfGas
		},
	}.test(t)
}

func TestC02(t *testing.T) {
	property{
		id: "C02",
		rule: "at least one call (nested or the transaction itself) fails after the transaction made at least one effect " +
			"(storage write, transfer, log, return data, deployment)",
		weights: pup.Mix(calls, someTokens, pup.Weights{"store": 4, "load": 3, "finish": 2, "err": 4, "transfer": 3, "trap": 2, "log": 3, "bal": 2,
			"retdata": 1, "loadfrom": 1}),
		aspects: pup.AAll &^ (pup.AGas | pup.ARefund),
		cut:     35,
		shape:   func(g *pup.Gen) { g.MinOps = 3 },
		nontrivial: func(m *pup.Model, r pup.Result) bool {
			return m.Failed > 0 && m.Writes+hostCalls(m, "finish", "writeLog", "writeEventLog", "transferValue", "transferValueExecute") > 0
		},
	}.test(t)
}

func TestC03(t *testing.T) {
	property{
		id:   "C03",
		rule: "the transaction moves value: a transfer or a nested or asynchronous call that succeeds, or one that is refused for lack of funds",
		weights: pup.Mix(calls, pup.Weights{"transfer": 8, "bal": 6, "tve": 3, "dest": 2, "async": 2, "err": 1, "store": 1,
			"bigvalue": 1, "nopay": 1}),
		aspects: pup.ABalance | pup.ATransfers | pup.AReturn,
		cut:     15,
		shape:   func(g *pup.Gen) { g.AllowOver = true; g.RichAmounts = true; g.MinOps = 3 },
		nontrivial: func(m *pup.Model, r pup.Result) bool {
			return some(m, "transfer", "dest", "caller", "async", "create", "upgrade") > 0 || r.Code == vmcommon.OutOfFunds
		},
	}.test(t)
}

func TestC04(t *testing.T) {
	property{
		id:   "C04",
		rule: "the transaction writes storage at least once and reads it at least once, or is refused a write",
		weights: pup.Weights{"store": 10, "load": 8, "loadlen": 3, "loadfrom": 4, "smallstore": 3, "smallload": 3, "bigstore": 2, "bigload": 2,
			"bigset": 1, "lock": 4, "reserved": 2, "dest": 3, "same": 3, "delegate": 1, "readonly": 1, "tve": 1, "async": 1, "err": 1, "upgrade": 1,
			"tokxfer": 1, "tokraw": 2},
		aspects: pup.AStorage | pup.AReturn | pup.ATokens,
		cut:     10,
		shape:   func(g *pup.Gen) { g.MinOps = 3 },
		nontrivial: func(m *pup.Model, r pup.Result) bool {
			return hostCalls(m, "storageStore", "smallIntStorageStoreUnsigned", "smallIntStorageStoreSigned", "int64storageStore",
				"bigIntStorageStoreUnsigned", "setStorageLock", "clearStorageLock") > 0 &&
				(hostCalls(m, "storageLoad", "storageLoadLength", "storageLoadFromAddress", "smallIntStorageLoadUnsigned",
					"smallIntStorageLoadSigned", "int64storageLoad", "bigIntStorageLoadUnsigned", "getStorageLock", "isStorageLocked") > 0 || r.Err != nil)
		},
	}.test(t)
}

func TestC05(t *testing.T) {
	property{
		id:   "C05",
		rule: "the transaction makes at least one nested synchronous call",
		weights: pup.Weights{"tokxfer": 2, "tokvalue": 3, "tokdest": 1, "dest": 8, "caller": 3, "same": 6, "delegate": 3, "readonly": 2, "tve": 3, "createFrom": 1, "ctx": 6, "args": 3,
			"store": 3, "load": 3, "finish": 2, "log": 2, "txhash": 2, "bigset": 2, "bigvalue": 1, "big": 1, "bal": 1, "err": 1, "retdata": 1,
			"async": 1, "upgrade": 1},
		aspects: pup.AAll &^ pup.AGas,
		cut:     10,
		shape:   func(g *pup.Gen) { g.MinOps = 3 },
		nontrivial: func(m *pup.Model, r pup.Result) bool {
			return some(m, "dest", "caller", "same", "delegate", "readonly", "transferExecute", "create") > 0
		},
	}.test(t)
}

func TestC06(t *testing.T) {
	property{
		id:   "C06",
		rule: "a read-only call is made and a write, log, transfer, deployment or upgrade is attempted and refused below it, or a write follows it",
		weights: pup.Weights{"readonly": 14, "same": 3, "dest": 4, "delegate": 2, "store": 9, "load": 2, "log": 3, "createFrom": 3, "create": 1,
			"upgrade": 2, "err": 1, "trap": 1, "smallstore": 1, "bigstore": 1, "lock": 2, "tve": 2, "async": 1, "transfer": 3,
			"tokxfer": 2, "tokdest": 1, "tokasync": 1, "ctx": 1},
		aspects: pup.AStorage | pup.ALogs | pup.ADeploy | pup.AReturn | pup.ABalance | pup.ATransfers | pup.ATokens,
		cut:     15,
		shape:   func(g *pup.Gen) { g.MinOps = 3 },
		nontrivial: func(m *pup.Model, r pup.Result) bool {
			for k := range m.Calls {
				if strings.HasSuffix(k, "refused: read-only") {
					return true
				}
			}
			return some(m, "readonly") > 0 && m.Writes > 0
		},
	}.test(t)
}

func TestC07(t *testing.T) {
	property{
		id:   "C07",
		rule: "the transaction makes an asynchronous call that is carried out or leaves the shard, or is itself one or the answer to one",
		weights: pup.Weights{"tokasync": 2, "tokxfer": 1, "tokreturn": 1, "async": 12, "store": 4, "load": 2, "finish": 3, "transfer": 3, "err": 1, "trap": 1, "dest": 2, "same": 2, "tve": 1,
			"ctx": 2, "args": 2, "bal": 1, "log": 1, "gas": 1, "createFrom": 1},
		aspects: pup.AAll,
		cut:     30,
		shape:   func(g *pup.Gen) { g.MinOps = 3 },
		nontrivial: func(m *pup.Model, r pup.Result) bool {
			return some(m, "async", "callback", "answer") > 0
		},
	}.test(t)
}

var tokens = pup.Weights{"tokxfer": 16, "tokdest": 7, "tokasync": 6, "tokquery": 6, "tokvalue": 4, "tokreturn": 1, "tokraw": 2,
	"toktve": 1, "tokold": 1}

func TestC11(t *testing.T) { tokensProperty().test(t) }

func tokensProperty() property {
	return property{
		id:   "C11",
		rule: "at least one token transfer is carried out or refused",
		weights: pup.Mix(tokens, pup.Weights{"dest": 2, "same": 2, "readonly": 1, "tve": 1, "async": 2, "store": 2, "load": 1, "finish": 1,
			"err": 1, "trap": 1, "log": 1, "gas": 1, "ctx": 1}),
		aspects: pup.AAll,
		cut:     25,
		shape:   func(g *pup.Gen) { g.MinOps = 3 },
		nontrivial: func(m *pup.Model, r pup.Result) bool {
			return some(m, "token") > 0
		},
	}
}

func TestC12(t *testing.T) {
	bigCalls := func(m *pup.Model) (n int) {
		for k, v := range m.HostCalls {
			if strings.HasPrefix(k, "bigInt") {
				n += v
			}
		}
		return n
	}
	property{
		id:      "C12",
		rule:    "at least two big-integer host functions are carried out",
		weights: pup.Weights{"big": 30, "bigset": 12, "bigload": 2, "bigstore": 2, "bigvalue": 1, "dest": 1, "same": 1, "args": 1},
		aspects: pup.AReturn | pup.AStorage,
		cut:     5,
		shape:   func(g *pup.Gen) { g.MaxOps = 14; g.MinOps = 5; g.Budget = 30 },
		nontrivial: func(m *pup.Model, r pup.Result) bool {
			return bigCalls(m) >= 2
		},
	}.test(t)
}

func TestC13(t *testing.T) {
	property{
		id:   "C13",
		rule: "at least two of: arguments read, integers read, data returned, data logged, nested return data inspected",
		weights: pup.Weights{"args": 6, "smallarg": 6, "finish": 5, "smallfinish": 6, "log": 5, "retdata": 5, "dest": 4, "same": 3, "delegate": 1,
			"readonly": 1, "tve": 2, "async": 2, "createFrom": 1, "err": 1, "smallstore": 2, "smallload": 2},
		aspects: pup.AReturn | pup.ALogs | pup.ATransfers | pup.AStorage,
		cut:     5,
		shape:   func(g *pup.Gen) { g.Args = 4; g.ArgLen = 12; g.MinOps = 3 },
		nontrivial: func(m *pup.Model, r pup.Result) bool {
			n := 0
			for k, v := range m.HostCalls {
				if strings.Contains(k, "rgument") || strings.Contains(k, "inish") || strings.Contains(k, "Log") || strings.Contains(k, "ReturnData") {
					n += v
				}
			}
			return n >= 2
		},
	}.test(t)
}

func TestC15(t *testing.T) {
	property{
		id:      "C15",
		rule:    "at least one host function is called and charged",
		weights: pup.Mix(everything, pup.Weights{"chain": 1, "nopay": 1, "big": 6}),
		aspects: pup.AGas | pup.ATransfers | pup.AReturn,
		cut:     30,
		shape:   func(g *pup.Gen) { g.MinOps = 3 },
		nontrivial: func(m *pup.Model, r pup.Result) bool {
			return len(m.HostCalls) > 0
		},
	}.test(t)
}

func TestC15Change(t *testing.T) {
	property{
		id:      "C15",
		rule:    "at least one host function is called and charged by a schedule which replaced another",
		weights: pup.Mix(everything, pup.Weights{"chain": 1, "nopay": 1, "big": 6}),
		aspects: pup.AGas | pup.ATransfers | pup.AReturn,
		changed: true,
		shape:   func(g *pup.Gen) { g.MinOps = 3 },
		nontrivial: func(m *pup.Model, r pup.Result) bool {
			return len(m.HostCalls) > 0
		},
	}.test(t)
}

func TestC16(t *testing.T) {
	property{
		id:   "C16",
		rule: "at least one query about the transaction or the chain is answered",
		weights: pup.Weights{"ctx": 8, "txhash": 4, "chain": 2, "chain1": 8, "blockhash": 5, "shard": 5, "bal": 8, "gas": 1, "bigvalue": 2,
			"loadfrom": 1, "dest": 4, "caller": 2, "same": 3, "delegate": 1, "tve": 2, "transfer": 3, "async": 2, "createFrom": 1, "nopay": 1},
		aspects: pup.AReturn,
		cut:     5,
		shape: func(g *pup.Gen) {
			block := func(what string) pup.Block {
				return pup.Block{
					Nonce: rapid.OneOf(rapid.Uint64Range(0, 1100), rapid.Uint64Range(0, 1<<62)).Draw(g.T, what+" nonce"),
					Round: rapid.Uint64().Draw(g.T, what+" round"),
					Time:  rapid.Uint64().Draw(g.T, what+" time"),
					Epoch: rapid.Uint32().Draw(g.T, what+" epoch"),
					Seed:  g.Bytes(48, 48, what+" seed"),
				}
			}
			g.W.Cur, g.W.Last = block("current"), block("previous")
		},
		nontrivial: func(m *pup.Model, r pup.Result) bool {
			return len(m.HostCalls) > 0
		},
	}.test(t)
}

var _ = fmt.Sprint
