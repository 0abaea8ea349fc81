//go:build go1.21

package statex

import (
	"fmt"
	"math/big"
	"strings"
	"testing"
	"time"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/zzverif/pup"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/zzverif/vh"
	vmcommon "github.com/ElrondNetwork/elrond-vm-common"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { vh.Main(m) }

var weights = pup.Weights{"store": 4, "load": 2, "loadlen": 1, "loadfrom": 2, "smallstore": 1, "smallload": 1, "bigstore": 1, "bigload": 1,
	"lock": 1, "finish": 3, "smallfinish": 1, "smallarg": 1, "args": 1, "ctx": 2, "txhash": 1, "bigvalue": 1, "bal": 2, "chain1": 1,
	"blockhash": 1, "shard": 1, "gas": 3, "log": 2, "retdata": 2, "err": 2, "grow": 1, "transfer": 3, "tve": 4, "dest": 4, "caller": 1,
	"same": 3, "delegate": 1, "readonly": 3, "create": 2, "createFrom": 2, "upgrade": 2, "async": 3, "hash": 1, "big": 3, "bigset": 2}

// TestResidue: what a transaction does depends neither on what the machine did before nor on what is cached
func TestResidue(t *testing.T) {
	vh.Rule("C08", "a transaction that executes contract code, probed after a history of at least two transactions on the same machine")
	vh.Check(t, residue)
}

func residue(rt *rapid.T) {
	g := pup.NewGen(rt, weights)
	g.Finish()
	n := g.Number(2, 5, "history")
	type past struct {
		tx     *pup.Tx
		apply  bool
		faults map[int]int
	}
	var history []past
	sched := pup.Schedule(rapid.Uint64().Draw(rt, "schedule"))
	draw := func() *pup.Tx {
		g.Budget += 12
		tx := g.AnyTx()
		if g.Chance(25, "little gas") {
			_, r := tx.Predict(g.W, sched)
			g.CutGas(tx, r)
		}
		return tx
	}
	for i := 0; i < n; i++ {
		p := past{tx: draw(), apply: g.Chance(60, "apply")}
		if g.Chance(30, "faults") {
			p.faults = map[int]int{}
			for k := g.Number(1, 2, "number of faults"); k > 0; k-- {
				p.faults[g.Number(0, 25, "query")] = g.Number(1, 2, "fault")
			}
		}
		history = append(history, p)
	}
	probe := draw()
	if g.Chance(30, "seen before") {
		history[g.Number(0, n-1, "which")].tx = probe
	}

	fresh := func(w *pup.World) string {
		h := pup.Host(w, pup.Options{Schedule: sched})
		return run(rt, h, probe)
	}
	w := g.W.Clone()
	want := fresh(w)
	if w.Fingerprint() != g.W.Fingerprint() {
		rt.Fatalf("the execution changed the blockchain by itself\n%s\n%s", g.W.Describe(), probe)
	}
	before := probe.String()

	// from what is compiled by then
	if again := fresh(w); again != want {
		rt.Fatalf("another machine, with compiled code cached: %s", differ(want, again, g, probe))
	}
	// on a machine that has a history
	hook := &pup.Flaky{World: g.W.Clone()}
	if g.Chance(30, "no cache") {
		hook.World.NoCache = true
	}
	h := pup.Host(hook, pup.Options{Schedule: sched})
	ran, panicked, story := 0, 0, ""
	for i, p := range history {
		hook.Now, hook.Faults, hook.Happened = 0, p.faults, 0
		var out *vmcommon.VMOutput
		var err error
		if !vh.Within(60*time.Second, func() { out, err = p.tx.Run(h) }) {
			rt.Fatalf("transaction %d of the history does not end\n%s\n%s", i, g.W.Describe(), p.tx)
		}
		if hook.Happened > 0 {
			panicked++
		}
		what := "error"
		if err == nil && out != nil {
			what = out.ReturnCode.String()
			if p.apply {
				in := p.tx.In()
				value := in.CallValue
				if value == nil {
					value = new(big.Int)
				}
				hook.World.Apply(out, in.CallerAddr, value)
			}
		}
		vh.Class("history: " + what)
		story += fmt.Sprintf("\n%d (%s, %d faults): %s", i, what, hook.Happened, p.tx)
		ran++
		hook.Faults = nil
	}
	restored := g.W.Clone()
	restored.Compiled, restored.NoCache = hook.World.Compiled, hook.World.NoCache
	*hook.World = *restored
	if got := run(rt, h, probe); got != want {
		rt.Fatalf("after a history: %s\nhistory:%s", differ(want, got, g, probe), story)
	}
	// and again
	compiled := hook.World.Compiled
	*hook.World = *g.W.Clone()
	hook.World.Compiled = compiled
	if got := run(rt, h, probe); got != want {
		rt.Fatalf("a second time: %s\nhistory:%s", differ(want, got, g, probe), story)
	}
	if after := probe.String(); after != before {
		rt.Fatalf("the execution changed its input\n%s\n%s", before, after)
	}
	vh.Case(ran >= 2 && strings.Contains(want, "account "), fmt.Sprintf("history of %d, %d with faults", n, panicked), before+g.W.Describe()+story, func() string {
		return before + "\nafter" + story
	})
	vh.Class("probe: " + strings.SplitN(strings.SplitN(want, "; ", 2)[len(strings.SplitN(want, "; ", 2))-1], " \"", 2)[0])
}

func run(rt *rapid.T, h interface {
	RunSmartContractCall(*vmcommon.ContractCallInput) (*vmcommon.VMOutput, error)
	RunSmartContractCreate(*vmcommon.ContractCreateInput) (*vmcommon.VMOutput, error)
}, tx *pup.Tx) (s string) {
	if !vh.Within(60*time.Second, func() { s = pup.Outcome(tx.RunOn(h)) }) {
		rt.Fatalf("the execution does not end: %s", tx)
	}
	return s
}

func differ(want, got string, g *pup.Gen, probe *pup.Tx) string {
	a, b := strings.Split(want, "\n"), strings.Split(got, "\n")
	at := 0
	for at < len(a) && at < len(b) && a[at] == b[at] {
		at++
	}
	line := func(l []string) string {
		if at < len(l) {
			return l[at]
		}
		return "(end)"
	}
	return fmt.Sprintf("the outcome differs\nfresh machine: %s\nthis machine:  %s\n%s\n%s", line(a), line(b), g.W.Describe(), probe)
}
