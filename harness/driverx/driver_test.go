//go:build go1.21

// Package driverx checks that a node outlives the deaths of the machine's process.
package driverx

import (
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/config"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/ipc/arwenpart"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/ipc/common"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/ipc/marshaling"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/ipc/nodepart"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/zzverif/pup"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/zzverif/vh"
	logger "github.com/ElrondNetwork/elrond-go-logger"
	"github.com/ElrondNetwork/elrond-go-logger/pipes"
	vmcommon "github.com/ElrondNetwork/elrond-vm-common"
	"pgregory.net/rapid"
)

const (
	pidVariable = "VH_DRIVER_PID" // file in which the machine's process leaves its number
	howVariable = "VH_DRIVER_HOW" // how that process behaves
	version     = "the version"
)

func TestMain(m *testing.M) {
	if f := os.Getenv(pidVariable); f != "" && os.Getenv("VH_DRIVER_PARENT") != strconv.Itoa(os.Getpid()) {
		os.Exit(machine(f))
	}
	_ = logger.SetLogLevel("*:NONE")
	if l := os.Getenv("VH_LOG"); l != "" {
		_ = logger.SetLogLevel(l)
	}
	os.Setenv("VH_DRIVER_PARENT", strconv.Itoa(os.Getpid()))
	vh.Main(m)
}

// machine is the process of the machine: what cmd/arwen does, but that the
// container of the protocol's functions, which does not pass through the pipe
// (see the known finding), is made here.
func machine(pidFile string) int {
	if err := os.WriteFile(pidFile, []byte(strconv.Itoa(os.Getpid())), 0644); err != nil {
		return 9
	}
	switch os.Getenv(howVariable) {
	case "ends":
		return 3
	case "sleeps":
		time.Sleep(time.Minute)
	}
	file := func(fd uintptr) *os.File { return os.NewFile(fd, fmt.Sprint("fd", fd)) }
	args, err := common.GetArwenArguments(file(3))
	if err != nil {
		return 4
	}
	args.BuiltInFuncContainer = pup.Params(pup.Options{}).BuiltInFuncContainer
	logs, err := pipes.NewChildPart(file(6), file(7), marshaling.CreateMarshalizer(args.LogsMarshalizer))
	if err != nil {
		return 5
	}
	if err = logs.StartLoop(); err != nil {
		return 6
	}
	defer logs.StopLoop()
	part, err := arwenpart.NewArwenPart(version, file(4), file(5), &args.VMHostParameters, marshaling.CreateMarshalizer(args.MessagesMarshalizer))
	if err != nil {
		return 7
	}
	_ = part.StartLoop()
	return 8
}

// chain passes the queries on and makes things happen at the planned one.
type chain struct {
	*pup.World
	at     int
	happen func()
}

func (c *chain) step() {
	if c.happen != nil {
		if c.at--; c.at < 0 {
			c.happen()
			c.happen = nil
		}
	}
}

func (c *chain) GetStorageData(a, k []byte) ([]byte, error) {
	c.step()
	return c.World.GetStorageData(a, k)
}
func (c *chain) GetUserAccount(a []byte) (vmcommon.UserAccountHandler, error) {
	c.step()
	return c.World.GetUserAccount(a)
}
func (c *chain) GetCode(h vmcommon.UserAccountHandler) []byte { c.step(); return c.World.GetCode(h) }
func (c *chain) GetShardOfAddress(a []byte) uint32            { c.step(); return c.World.GetShardOfAddress(a) }
func (c *chain) IsSmartContract(a []byte) bool                { c.step(); return c.World.IsSmartContract(a) }
func (c *chain) IsPayable(a []byte) (bool, error)             { c.step(); return c.World.IsPayable(a) }
func (c *chain) NewAddress(a []byte, n uint64, v []byte) ([]byte, error) {
	c.step()
	return c.World.NewAddress(a, n, v)
}
func (c *chain) GetBlockhash(n uint64) ([]byte, error) { c.step(); return c.World.GetBlockhash(n) }
func (c *chain) GetCompiledCode(h []byte) (bool, []byte) {
	c.step()
	return c.World.GetCompiledCode(h)
}
func (c *chain) CurrentNonce() uint64 { c.step(); return c.World.CurrentNonce() }
func (c *chain) CurrentEpoch() uint32 { c.step(); return c.World.CurrentEpoch() }
func (c *chain) GetSnapshot() int     { c.step(); return c.World.GetSnapshot() }

// show is all there is to an output.
func show(v *vmcommon.VMOutput) string {
	if v == nil {
		return "nil"
	}
	var b strings.Builder
	fmt.Fprintf(&b, "%v %q %x left %d refund %v deleted %x", v.ReturnCode, v.ReturnMessage, v.ReturnData, v.GasRemaining, v.GasRefund, v.DeletedAccounts)
	keys := make([]string, 0)
	for k := range v.OutputAccounts {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		a := v.OutputAccounts[k]
		fmt.Fprintf(&b, "\n  %x: nonce %d delta %v code %x %x by %x used %d", k, a.Nonce, a.BalanceDelta, a.Code, a.CodeMetadata, a.CodeDeployerAddress, a.GasUsed)
		var ks []string
		for s := range a.StorageUpdates {
			ks = append(ks, s)
		}
		sort.Strings(ks)
		for _, s := range ks {
			fmt.Fprintf(&b, "\n    %x=%x", s, a.StorageUpdates[s].Data)
		}
		for _, t := range a.OutputTransfers {
			fmt.Fprintf(&b, "\n    transfer %v gas %d %d %x %v from %x", t.Value, t.GasLimit, t.GasLocked, t.Data, t.CallType, t.SenderAddress)
		}
	}
	for _, l := range v.Logs {
		fmt.Fprintf(&b, "\n  log %x %x %x %x", l.Address, l.Identifier, l.Topics, l.Data)
	}
	return b.String()
}

var weights = pup.Weights{"store": 4, "load": 3, "loadfrom": 1, "smallstore": 1, "lock": 1, "finish": 2, "args": 1, "ctx": 2, "bal": 2,
	"chain1": 2, "blockhash": 1, "log": 2, "err": 1, "transfer": 2, "tve": 3, "dest": 4, "same": 2, "readonly": 1, "create": 1,
	"createFrom": 1, "async": 2}

// step of a history.
type step struct {
	kind  string
	txs   []*pup.Tx
	sched config.GasScheduleMap
	at    int // the query at which the fault happens
}

func (s step) String() string {
	out := s.kind
	if s.kind == "killed meanwhile" {
		out += fmt.Sprintf(" %d times 0.2 ms after the start of", s.at)
	}
	if s.kind == "killed" || s.kind == "stopped" {
		out += fmt.Sprintf(" at query %d of", s.at)
	}
	for _, tx := range s.txs {
		out += "\n    " + tx.String()
	}
	return out
}

var encodings = []marshaling.MarshalizerKind{marshaling.JSON, marshaling.Gob}

type history struct {
	g        *pup.Gen
	first    config.GasScheduleMap
	steps    []step
	encoding marshaling.MarshalizerKind
}

func draw(rt *rapid.T) *history {
	g := pup.NewGen(rt, weights)
	g.Finish()
	h := &history{g: g, first: pup.Schedule(rapid.Uint64().Draw(rt, "schedule")), encoding: encodings[g.Number(0, 1, "encoding")]}
	faults := 0
	transaction := func() *pup.Tx {
		for i := 0; i < 5; i++ {
			tx := g.AnyTx()
			if m, _ := tx.Predict(g.W.Clone(), pup.Schedule(0)); m.Unmodelled == "" && ascii(tx) {
				return tx
			}
		}
		return nil
	}
	for n := g.Number(2, 7, "steps"); n > 0; n-- {
		s := step{}
		switch k := g.Number(0, 29, "step"); {
		case k < 2:
			s.kind = "version"
		case k < 5:
			s.kind, s.sched = "schedule", pup.Schedule(rapid.Uint64().Draw(rt, "schedule"))
		case k < 7:
			s.kind, s.sched = "bad schedule", pup.Schedule(rapid.Uint64().Draw(rt, "schedule"))
			delete(s.sched[pup.Pick(g, []string{"ElrondAPICost", "BaseOperationCost", "BigIntAPICost"}, "section")], pup.Pick(g, []string{"GetCaller", "StorePerByte", "BigIntAdd"}, "entry"))
		case k < 8:
			s.kind = "wait"
		case k < 10:
			s.kind = "closed by the node"
		case k < 12:
			s.kind = "closed twice"
		case k < 14:
			s.kind = "dies in between"
			faults++
		case k < 15:
			s.kind = "no program"
		case k < 16:
			s.kind = "useless program"
		case k < 17:
			s.kind = "ends at once"
			faults++
		case k < 18:
			s.kind = "sleeps"
			faults++
		case k < 21:
			s.kind = "killed"
			faults++
		case k < 23:
			s.kind = "stopped"
			faults++
		case k < 24:
			s.kind = "killed meanwhile"
			faults++
		case k < 26:
			s.kind = "together"
			for i := g.Number(2, 4, "how many"); i > 0; i-- {
				if tx := transaction(); tx != nil {
					s.txs = append(s.txs, tx)
				}
			}
		default:
			s.kind = "transaction"
		}
		if s.kind == "killed" || s.kind == "killed meanwhile" || s.kind == "stopped" || s.kind == "transaction" {
			tx := transaction()
			if tx == nil {
				continue
			}
			s.txs, s.at = []*pup.Tx{tx}, g.Number(0, 12, "query")
		}
		if faults > 3 {
			break
		}
		h.steps = append(h.steps, s)
	}
	if tx := transaction(); tx != nil {
		h.steps = append(h.steps, step{kind: "transaction", txs: []*pup.Tx{tx}})
	}
	return h
}

// text is how a message arrives (see the known finding about text in JSON).
func (h *history) text(s string) string {
	if h.encoding == marshaling.JSON {
		b, _ := json.Marshal(s)
		_ = json.Unmarshal(b, &s)
	}
	return s
}

func ascii(tx *pup.Tx) bool { // (see the known finding about names in JSON)
	if tx.Call != nil {
		for _, c := range tx.Call.Function {
			if c > 126 {
				return false
			}
		}
	}
	return true
}

type outcome struct {
	complaint string
	late      bool // a request that nothing had happened to took too long
	faults    int
}

func TestDriver(t *testing.T) {
	vh.Rule("C27", "the machine's process dies, hangs or cannot be started at least once")
	vh.Check(t, func(rt *rapid.T) {
		h := draw(rt)
		var o outcome
		for _, limit := range []int{1500, 15000} {
			o = h.play(limit)
			if !o.late {
				break // else: with more time, for this may be but a slow computer
			}
		}
		story := ""
		for _, s := range h.steps {
			story += "\n  " + s.String()
		}
		story = fmt.Sprintf("messages in %v%s", h.encoding, story)
		if o.complaint != "" {
			rt.Fatalf("%s\n%s\n%s", o.complaint, story, h.g.W.Describe())
		}
		vh.Case(o.faults > 0, fmt.Sprintf("history with %d faults", o.faults), story, func() string { return story })
		for _, s := range h.steps {
			vh.Class(s.kind)
		}
	})
}

// canEnd tells the critical errors.
func critical(err error) bool { return err != nil && common.IsCriticalError(err) }

func (h *history) play(limit int) (o outcome) {
	exe, err := os.Executable()
	if err != nil {
		panic("INFRA: " + err.Error())
	}
	dir, err := os.MkdirTemp("", "driver")
	if err != nil {
		panic("INFRA: " + err.Error())
	}
	defer os.RemoveAll(dir)
	pidFile := filepath.Join(dir, "pid")
	program := func(path, how string) {
		os.Setenv(common.EnvVarArwenPath, path)
		os.Setenv(howVariable, how)
	}
	os.Setenv(pidVariable, pidFile)
	defer os.Unsetenv(pidVariable)
	program(exe, "")
	here := h.g.W.Clone()
	there := &chain{World: h.g.W.Clone()}
	sched := h.first
	host := pup.Host(here, pup.Options{Schedule: sched, KeepOpcodes: true})
	args := common.ArwenArguments{VMHostParameters: *pup.Params(pup.Options{Schedule: sched}), MessagesMarshalizer: h.encoding, LogsMarshalizer: marshaling.JSON}
	args.BuiltInFuncContainer = nil
	driver, err := nodepart.NewArwenDriver(there, args, nodepart.Config{MaxLoopTime: limit})
	if err != nil {
		panic("INFRA: the machine's process does not start: " + err.Error())
	}
	defer func() { _ = driver.Close() }()
	pid := func() int {
		b, err := os.ReadFile(pidFile)
		if err != nil {
			panic("INFRA: " + err.Error())
		}
		n, err := strconv.Atoi(string(b))
		if err != nil || n < 2 {
			panic("INFRA: no pid")
		}
		return n
	}
	signal := func(s syscall.Signal) {
		if err := syscall.Kill(pid(), s); err != nil {
			panic("INFRA: " + err.Error())
		}
	}
	run := func(tx *pup.Tx) (out *vmcommon.VMOutput, err error, took time.Duration) {
		start := time.Now()
		if tx.Create != nil {
			out, err = driver.RunSmartContractCreate(tx.Create)
		} else {
			out, err = driver.RunSmartContractCall(tx.Call)
		}
		return out, err, time.Since(start)
	}
	fail := func(i int, format string, a ...interface{}) outcome {
		o.complaint = fmt.Sprintf("step %d (%s): ", i, h.steps[i].kind) + fmt.Sprintf(format, a...)
		return o
	}
	const slack = 20 * time.Second // starting a process, on a busy computer
	atMost := time.Duration(limit)*time.Millisecond + slack
	// same: the output is that of the machine in this process
	same := func(i int, tx *pup.Tx, want *vmcommon.VMOutput, wantErr error, got *vmcommon.VMOutput, gotErr error) bool {
		if critical(gotErr) {
			o.late = true
			fail(i, "fails on its own: %v\nexpected: %s", gotErr, show(want))
			return false
		}
		if wantErr == nil && want != nil {
			want.ReturnMessage = h.text(want.ReturnMessage)
		}
		if fmt.Sprint(gotErr) != fmt.Sprint(wantErr) || wantErr == nil && show(got) != show(want) {
			fail(i, "the output is\n%s, %v\nbut in process\n%s, %v", show(got), gotErr, show(want), wantErr)
			return false
		}
		return true
	}
	uncertain := false // the process is known to be dead, but not to the node
	for i, s := range h.steps {
		if uncertain && s.kind != "transaction" && s.kind != "together" {
			// the first request after a death may be lost with it
			driver.GetVersion()
			uncertain = false
		}
		switch s.kind {
		case "version":
			if v := driver.GetVersion(); v != version {
				o.late = v == ""
				return fail(i, "version %q", v)
			}
		case "wait":
			if err := driver.DiagnoseWait(3); err != nil {
				o.late = true
				return fail(i, "%v", err)
			}
		case "schedule":
			sched = s.sched
			host.GasScheduleChange(sched)
			driver.GasScheduleChange(sched)
		case "bad schedule":
			host.GasScheduleChange(s.sched)
			driver.GasScheduleChange(s.sched)
		case "closed by the node", "closed twice":
			_ = driver.Close()
			if s.kind == "closed twice" {
				_ = driver.Close()
			}
			if !driver.IsClosed() {
				return fail(i, "it still runs")
			}
		case "dies in between":
			if driver.GetVersion() != version {
				o.late = true
				return fail(i, "no version")
			}
			signal(syscall.SIGKILL)
			o.faults++
			uncertain = true
		case "no program", "useless program", "ends at once", "sleeps":
			_ = driver.Close()
			o.faults++
			useless := filepath.Join(dir, "useless")
			_ = os.WriteFile(useless, []byte("nothing"), 0644)
			switch s.kind {
			case "no program":
				program(filepath.Join(dir, "none"), "")
			case "useless program":
				program(useless, "")
			case "ends at once":
				program(exe, "ends")
			default:
				program(exe, "sleeps")
			}
			tries := 1 + i%2
			for ; tries > 0; tries-- {
				in := &vmcommon.ContractCallInput{RecipientAddr: pup.Address(true, 0, 0), Function: "f"}
				in.CallerAddr, in.CallValue, in.GasProvided = pup.Address(false, 0, 0), new(big.Int), 1000
				out, err, took := run(&pup.Tx{Call: in})
				if !critical(err) || out != nil {
					return fail(i, "without a machine, the result is %s, %v", show(out), err)
				}
				if took > atMost {
					return fail(i, "that takes %s to be noticed, when the limit is %d ms", took, limit)
				}
			}
			program(exe, "")
			_ = driver.Close()
		case "killed", "stopped":
			tx := s.txs[0]
			want, wantErr := tx.Run(host)
			happened := false
			there.at = s.at
			there.happen = func() {
				happened = true
				o.faults++
				if s.kind == "killed" {
					signal(syscall.SIGKILL)
				} else {
					signal(syscall.SIGSTOP)
				}
			}
			got, err, took := run(tx)
			there.happen = nil
			if !happened {
				if !same(i, tx, want, wantErr, got, err) {
					return o
				}
				apply(tx, want, here, there.World)
				continue
			}
			if took > atMost {
				return fail(i, "takes %s, when the limit is %d ms", took, limit)
			}
			if err == nil || got != nil {
				// the answer was already on its way
				if want != nil {
					want.ReturnMessage = h.text(want.ReturnMessage)
				}
				if show(got) != show(want) || fmt.Sprint(err) != fmt.Sprint(wantErr) {
					return fail(i, "a result is made up: %s, %v", show(got), err)
				}
				if s.kind == "stopped" {
					signal(syscall.SIGCONT)
				}
				apply(tx, want, here, there.World)
				uncertain = s.kind == "killed"
				continue
			}
			if !critical(err) {
				return fail(i, "the error is not critical: %v", err)
			}
		case "killed meanwhile":
			if driver.GetVersion() != version {
				o.late = true
				return fail(i, "no version")
			}
			o.faults++
			tx := s.txs[0]
			want, wantErr := tx.Run(host)
			killed := make(chan bool)
			n := pid()
			go func() {
				time.Sleep(time.Duration(s.at) * 200 * time.Microsecond)
				_ = syscall.Kill(n, syscall.SIGKILL)
				close(killed)
			}()
			got, err, took := run(tx)
			<-killed
			if took > atMost {
				return fail(i, "takes %s, when the limit is %d ms", took, limit)
			}
			if critical(err) && got == nil {
				continue
			}
			uncertain = true
			if !same(i, tx, want, wantErr, got, err) {
				return o
			}
			apply(tx, want, here, there.World)
		case "transaction":
			tx := s.txs[0]
			want, wantErr := tx.Run(host)
			got, err, took := run(tx)
			if uncertain && critical(err) {
				if took > atMost {
					return fail(i, "takes %s, when the limit is %d ms", took, limit)
				}
				got, err, _ = run(tx)
			}
			uncertain = false
			if !same(i, tx, want, wantErr, got, err) {
				return o
			}
			apply(tx, want, here, there.World)
		case "together":
			if uncertain {
				driver.GetVersion()
				uncertain = false
			}
			type result struct {
				out  *vmcommon.VMOutput
				err  error
				want string
			}
			wants, gots := make([]result, len(s.txs)), make([]result, len(s.txs))
			for j, tx := range s.txs {
				wants[j].out, wants[j].err = tx.Run(host)
			}
			there.World.Compiled = map[string][]byte{}
			var wg sync.WaitGroup
			versions := make([]string, 2)
			for j, tx := range s.txs {
				wg.Add(1)
				go func(j int, tx *pup.Tx) {
					defer wg.Done()
					gots[j].out, gots[j].err, _ = run(tx)
				}(j, tx)
			}
			for j := range versions {
				wg.Add(1)
				go func(j int) {
					defer wg.Done()
					versions[j] = driver.GetVersion()
				}(j)
			}
			wg.Wait()
			for j, tx := range s.txs {
				if !same(i, tx, wants[j].out, wants[j].err, gots[j].out, gots[j].err) {
					return o
				}
			}
			for _, v := range versions {
				if v != version {
					o.late = v == ""
					return fail(i, "version %q", v)
				}
			}
		}
	}
	return o
}

func apply(tx *pup.Tx, out *vmcommon.VMOutput, worlds ...*pup.World) {
	if out == nil {
		return
	}
	for _, w := range worlds {
		w.Apply(out, tx.In().CallerAddr, tx.In().CallValue)
	}
}
