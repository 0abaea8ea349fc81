//go:build go1.21

package vmdiff

import (
	"fmt"
	"math/big"
	"os"
	"testing"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/zzverif/pup"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/zzverif/vh"
	logger "github.com/ElrondNetwork/elrond-go-logger"
	vmcommon "github.com/ElrondNetwork/elrond-vm-common"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) {
	if l := os.Getenv("VH_LOG"); l != "" {
		_ = logger.SetLogLevel(l)
	}
	vh.Main(m)
}

// property is one way of comparing the machine with the model.
type property struct {
	id, rule   string
	weights    pup.Weights
	aspects    int
	cut        int // percent of the cases in which gas is scarce
	plain      bool
	mocked     bool // on the repository's simulated world
	changed    bool // on a machine whose schedule was another before
	nontrivial func(m *pup.Model, r pup.Result) bool
	shape      func(g *pup.Gen)
	extra      func(m *pup.Model, r pup.Result, tx *pup.Tx, out *vmcommon.VMOutput) error
}

func (p property) test(t *testing.T) {
	vh.Rule(p.id, p.rule)
	vh.Check(t, p.run)
}

func (p property) run(rt *rapid.T) {
	g := pup.NewGen(rt, p.weights)
	if p.shape != nil {
		p.shape(g)
	}
	g.Finish()
	var tx *pup.Tx
	if p.plain {
		tx = g.Tx()
	} else {
		tx = g.AnyTx()
	}
	sched := pup.Schedule(rapid.Uint64().Draw(rt, "schedule"))
	g.W.Sched = sched
	m, r := tx.Predict(g.W, sched)
	scarce := ""
	if p.cut > 0 && g.Chance(p.cut, "scarce gas") {
		scarce = " scarce"
		g.CutGas(tx, r)
		m, r = tx.Predict(g.W, sched)
	}
	if m.Unmodelled != "" {
		vh.Case(false, "unmodelled: "+m.Unmodelled, "", nil)
		return
	}
	vh.Case(p.nontrivial == nil || p.nontrivial(m, r), kindOf(tx)+scarce+": "+r.Code.String(), tx.String()+g.W.Describe(), tx.String)
	for k := range m.Calls {
		vh.Class("with " + k)
	}
	options := pup.Options{Schedule: sched}
	var held map[string]*big.Int
	if g.W.Tok != nil {
		options.Builtins = pup.TokenFunctions()
		held = g.W.Held()
	}
	var chain vmcommon.BlockchainHook = g.W
	var mock *mocked
	if p.mocked {
		mock = newMocked(g.W, options.Schedule)
		chain = mock
	}
	if p.changed {
		options.Schedule = pup.Schedule(rapid.Uint64().Draw(rt, "schedule before"))
	}
	host := pup.Host(chain, options)
	if p.changed {
		host.GasScheduleChange(sched)
		if g.Chance(30, "refused") {
			bad, _ := spoilt(g, prices(g, "refused prices"))
			host.GasScheduleChange(bad)
		}
		pup.FreeOpcodes()
	}
	out, err := tx.Run(host)
	if err != nil {
		rt.Fatalf("%v", err)
	}
	if mock != nil {
		g.W.SetTokens(mock.changed())
	}
	err = m.Compare(r, out, p.aspects)
	if err == nil {
		err = pup.Invariants(tx.In(), out, g.W)
	}
	if err == nil && held != nil && r.Err == nil {
		err = g.W.TokenBalance(held, out)
	}
	if err == nil && p.extra != nil {
		err = p.extra(m, r, tx, out)
	}
	if err != nil {
		rt.Fatalf("%v\n%s\n%s\nexpected calls %v, %d failing", err, g.W.Describe(), tx, m.Calls, m.Failed)
	}
}

func kindOf(tx *pup.Tx) string {
	if tx.Create != nil {
		return "deploy"
	}
	if tx.Call.Function == "upgradeContract" {
		return "upgrade"
	}
	return fmt.Sprintf("call type %d", tx.Call.CallType)
}

var everything = pup.Weights{"store": 4, "load": 2, "loadlen": 1, "loadfrom": 2, "smallstore": 1, "smallload": 1, "bigstore": 1, "bigload": 1,
	"lock": 1, "finish": 2, "smallfinish": 1, "smallarg": 1, "args": 1, "ctx": 2, "txhash": 1, "bigvalue": 1, "bal": 2, "chain1": 1,
	"blockhash": 1, "shard": 1, "gas": 2, "log": 2, "retdata": 1, "err": 1, "grow": 1, "transfer": 3, "tve": 4, "dest": 4, "caller": 1,
	"same": 3, "delegate": 1, "readonly": 2, "create": 1, "createFrom": 2, "upgrade": 1, "async": 3, "hash": 1, "big": 3, "bigset": 2}

func TestExplore(t *testing.T) {
	property{id: "", rule: "", weights: everything, aspects: pup.AAll, cut: 40}.test(t)
}
