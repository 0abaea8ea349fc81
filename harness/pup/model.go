//go:build go1.21

package pup

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"errors"
	"fmt"
	"math"
	"math/big"
	"os"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwen"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/config"
	vmcommon "github.com/ElrondNetwork/elrond-vm-common"
	"github.com/ElrondNetwork/elrond-vm-common/parsers"
)

// Model is a reference implementation of the machine for scripted contracts:
// it interprets the same scripts, in Go, over a plain value-semantics state.
type Model struct {
	W     *World
	Sched config.GasScheduleMap
	MaxIn int // instances that may be stacked

	St     *MState
	frames []*frame
	// what happened, for coverage classes and non-triviality
	Calls      map[string]int // nested calls by kind, "-" appended when they failed
	HostCalls  map[string]int
	Failed     int // frames that failed
	MaxDepth   int
	Writes     int
	V3         bool
	deployed   string
	Unmodelled string
}

// MTransfer is an outgoing transfer.
type MTransfer struct {
	To, Sender []byte
	Value      *big.Int
	Gas, Lock  uint64
	Data       []byte
	Type       vmcommon.CallType
}

// MLog is a log entry.
type MLog struct {
	Addr, Ident, Data []byte
	Topics            [][]byte
}

// MCode is a pending deployment.
type MCode struct{ Code, Meta, Deployer []byte }

// MState is the pending state of a transaction.
type MState struct {
	Delta   map[string]*big.Int
	Stor    map[string]map[string][]byte
	Nonce   map[string]uint64
	Code    map[string]MCode
	Xfers   []MTransfer
	Logs    []MLog
	Ret     [][]byte
	Msg     string
	Refund  uint64
	GasUsed map[string]uint64
	Tok     pending
}

func newMState() *MState {
	return &MState{Delta: map[string]*big.Int{}, Stor: map[string]map[string][]byte{}, Nonce: map[string]uint64{},
		Code: map[string]MCode{}, GasUsed: map[string]uint64{}}
}

func (s *MState) clone() *MState {
	n := newMState()
	for k, v := range s.Delta {
		n.Delta[k] = v
	}
	for a, m := range s.Stor {
		c := make(map[string][]byte, len(m))
		for k, v := range m {
			c[k] = v
		}
		n.Stor[a] = c
	}
	for k, v := range s.Nonce {
		n.Nonce[k] = v
	}
	for k, v := range s.Code {
		n.Code[k] = v
	}
	for k, v := range s.GasUsed {
		n.GasUsed[k] = v
	}
	n.Xfers = append([]MTransfer(nil), s.Xfers...)
	n.Logs = append([]MLog(nil), s.Logs...)
	n.Ret = append([][]byte(nil), s.Ret...)
	n.Msg = s.Msg
	n.Refund = s.Refund
	if s.Tok != nil {
		n.Tok = s.Tok.clone()
	}
	return n
}

func (s *MState) add(addr []byte, v *big.Int) {
	d := s.Delta[string(addr)]
	if d == nil {
		d = new(big.Int)
	}
	s.Delta[string(addr)] = new(big.Int).Add(d, v)
}

type asyncInfo struct {
	dest, data, value []byte
	gas, lock         uint64
}

type asyncGen struct {
	dest, data, value []byte
	ok, bad           string
	gas               uint64 // as asked
	limit             uint64
	done              bool
}

type frame struct {
	self, store, caller []byte
	value               *big.Int
	args                [][]byte
	fn                  string
	kind                vmcommon.CallType
	readOnly            bool
	provided            uint64
	initial             uint64
	limit               uint64 // of the instance
	exec                uint64 // what the accounts say may be used
	used                uint64
	childGas            uint64 // spent by successful children
	xferGas             uint64 // attached to transfers
	codeSize            int
	code                []byte
	mem                 []byte
	reg                 [16]uint64
	tlen                uint32
	big                 *bigs
	async               *asyncInfo
	gen                 []*asyncGen
	genID               string
	origTx, curTx       []byte
	prevTx              []byte
	errored             bool // callback after error
	esdt                []*vmcommon.ESDTTransfer
	gasPrice            uint64
}

// ---- outcomes

type stop struct{ err error } // a frame ends in failure
type stopAsync struct{}       // a frame ends by starting an asynchronous call
type unmodelled struct{ what string }

func (m *Model) fail(err error) { panic(stop{err}) }

// fault is a host function refusing to go on.
func (m *Model) fault(err error) {
	m.St.Msg = err.Error()
	panic(stop{arwen.ErrExecutionFailed})
}

// Skip abandons the case: the model does not cover it.
func (m *Model) skip(what string) { panic(unmodelled{what}) }

// Result is what a (nested or outer) execution gives.
type Result struct {
	Err       error
	Code      vmcommon.ReturnCode
	Msg       string
	Remaining uint64
	Ret       [][]byte
	xfers     []MTransfer
}

func codeOf(err error) vmcommon.ReturnCode {
	switch {
	case err == nil:
		return vmcommon.Ok
	case errors.Is(err, arwen.ErrSignalError):
		return vmcommon.UserError
	case errors.Is(err, arwen.ErrFuncNotFound):
		return vmcommon.FunctionNotFound
	case errors.Is(err, arwen.ErrInvalidFunction):
		return vmcommon.UserError
	case errors.Is(err, arwen.ErrNotEnoughGas):
		return vmcommon.OutOfGas
	case errors.Is(err, arwen.ErrContractNotFound):
		return vmcommon.ContractNotFound
	case errors.Is(err, arwen.ErrContractInvalid):
		return vmcommon.ContractInvalid
	case errors.Is(err, arwen.ErrUpgradeFailed):
		return vmcommon.UpgradeFailed
	case errors.Is(err, arwen.ErrTransferInsufficientFunds):
		return vmcommon.OutOfFunds
	}
	return vmcommon.ExecutionFailed
}

func (m *Model) failure(err error) Result {
	msg := err.Error()
	if errors.Is(err, arwen.ErrSignalError) || m.St.Msg != "" {
		msg = m.St.Msg
	}
	m.Failed++
	return Result{Err: err, Code: codeOf(err), Msg: msg}
}

// attempt runs f and returns how it failed, if it did.
func (m *Model) attempt(f func()) (err error) {
	depth := len(m.frames)
	defer func() {
		if r := recover(); r != nil {
			s, ok := r.(stop)
			if !ok {
				panic(r)
			}
			m.frames = m.frames[:depth]
			err = s.err
		}
	}()
	f()
	return nil
}

// ---- gas

func satAdd(a, b uint64) uint64 {
	if a+b < a {
		return math.MaxUint64
	}
	return a + b
}

func satMul(a, b uint64) uint64 {
	if a == 0 || b == 0 {
		return 0
	}
	if a*b/b != a {
		return math.MaxUint64
	}
	return a * b
}

func (m *Model) cost(section, name string) uint64 {
	v, ok := m.Sched[section][name]
	if !ok {
		panic("INFRA: no cost " + section + "." + name)
	}
	return v
}
func (m *Model) api(name string) uint64  { return m.cost("ElrondAPICost", name) }
func (m *Model) base(name string) uint64 { return m.cost("BaseOperationCost", name) }

func (f *frame) use(g uint64) {
	f.used = satAdd(f.used, g)
	if f.used > math.MaxInt64 {
		f.used = math.MaxInt64
	}
}
func (f *frame) left() uint64 {
	if f.used > f.exec {
		return 0
	}
	return f.exec - f.used
}
func (f *frame) restore(g uint64) {
	if g <= f.used {
		f.used -= g
	}
}

// useBounded refuses to use up everything.
func (f *frame) useBounded(g uint64) bool {
	if f.left() <= g {
		return false
	}
	f.use(g)
	return true
}

func (m *Model) prepare(f *frame, base, perByte uint64, n int) {
	c := satAdd(base, satMul(perByte, uint64(n)))
	if c > f.provided {
		m.fail(arwen.ErrNotEnoughGas)
	}
	f.initial = c
	f.exec = f.provided - c
	f.limit = f.exec
}

// enough checks the gas once more at the end of a frame.
func (m *Model) enough(f *frame) {
	if f.used > f.exec {
		m.fail(arwen.ErrNotEnoughGas)
	}
}

// settle books the gas of a frame that succeeded.
func (m *Model) settle(f *frame) error {
	if f.used > f.exec {
		return arwen.ErrInputAndOutputGasDoesNotMatch
	}
	own := f.provided - f.left() - f.childGas - f.xferGas
	m.St.GasUsed[string(f.self)] += own
	return nil
}

// ---- world access

func (m *Model) balance(addr []byte) *big.Int {
	b := new(big.Int)
	if a := m.W.Accs[string(addr)]; a != nil {
		b.Set(a.Balance)
	}
	if d := m.St.Delta[string(addr)]; d != nil {
		b.Add(b, d)
	}
	return b
}

func (m *Model) codeAt(addr []byte) ([]byte, error) {
	if c, ok := m.St.Code[string(addr)]; ok {
		return c.Code, nil
	}
	a := m.W.Accs[string(addr)]
	if a == nil {
		return nil, ErrNoAccount
	}
	if len(a.Code) == 0 {
		return nil, arwen.ErrContractNotFound
	}
	return a.Code, nil
}

func (m *Model) stored(addr []byte, key []byte) []byte {
	if s, ok := m.St.Stor[string(addr)]; ok {
		if v, ok := s[string(key)]; ok {
			return v
		}
	}
	return m.W.entry(m.St.Tok, addr, key)
}

func (m *Model) nonce(addr []byte) uint64 {
	if n, ok := m.St.Nonce[string(addr)]; ok {
		return n
	}
	if a := m.W.Accs[string(addr)]; a != nil {
		return a.Nonce
	}
	return 0
}

// move moves value, or says why not.
func (m *Model) move(to, from []byte, v *big.Int, needPayable, readOnly bool, kind vmcommon.CallType) error {
	if v.Sign() < 0 {
		return arwen.ErrTransferNegativeValue
	}
	if m.balance(from).Cmp(v) < 0 {
		return arwen.ErrTransferInsufficientFunds
	}
	if readOnly && v.Sign() > 0 {
		m.Calls["value refused: read-only"]++
		return arwen.ErrInvalidCallOnReadOnlyMode
	}
	payable, _ := m.W.IsPayable(to)
	if needPayable && !payable && v.Sign() > 0 && kind != vmcommon.AsynchronousCall {
		return arwen.ErrAccountNotPayable
	}
	m.St.add(from, new(big.Int).Neg(v))
	m.St.add(to, v)
	return nil
}

// send is an outgoing transfer.
func (m *Model) send(f *frame, to, from []byte, gas, lock uint64, v *big.Int, data []byte, kind vmcommon.CallType) error {
	if f.readOnly {
		m.Calls["transfer refused: read-only"]++
		return arwen.ErrInvalidCallOnReadOnlyMode
	}
	err := m.move(to, from, v, gas > 0 && kind != vmcommon.AsynchronousCallBack, false, f.kind)
	if err != nil {
		return err
	}
	m.St.Xfers = append(m.St.Xfers, MTransfer{To: to, Sender: from, Value: new(big.Int).Set(v), Gas: gas, Lock: lock,
		Data: data, Type: kind})
	f.xferGas += gas + lock
	return nil
}

// ---- execution

func (m *Model) top() *frame { return m.frames[len(m.frames)-1] }

func newFrame(in *vmcommon.ContractCallInput) *frame {
	f := &frame{self: in.RecipientAddr, store: in.RecipientAddr, caller: in.CallerAddr, args: in.Arguments, fn: in.Function,
		kind: in.CallType, provided: in.GasProvided, big: newBigs(), origTx: in.OriginalTxHash, curTx: in.CurrentTxHash,
		prevTx: in.PrevTxHash, esdt: in.ESDTTransfers, gasPrice: in.GasPrice, errored: in.ReturnCallAfterError}
	f.value = new(big.Int)
	if in.CallValue != nil {
		f.value.Set(in.CallValue)
	}
	if in.CallType == vmcommon.AsynchronousCallBack {
		f.provided += in.GasLocked
	}
	f.exec = f.provided
	f.limit = f.exec
	return f
}

// Call models a transaction calling a contract.
func (m *Model) Call(in *vmcommon.ContractCallInput) (r Result) {
	return m.outer(func() *frame {
		f := newFrame(in)
		m.St.add(f.self, f.value)
		if in.Function == arwen.UpgradeFunctionName {
			if len(f.args) < 2 {
				m.fail(arwen.ErrInvalidUpgradeArguments)
			}
			code, meta := f.args[0], f.args[1]
			f.args = f.args[2:]
			m.deploy(f, code, meta, in.CallerAddr)
			return f
		}
		if f.provided < m.base("GetCode") {
			m.fail(arwen.ErrNotEnoughGas)
		}
		code, err := m.codeAt(f.self)
		if err != nil {
			m.fail(arwen.ErrContractNotFound)
		}
		f.code, f.codeSize = code, len(code)
		m.prepare(f, m.base("GetCode"), m.base("AoTPreparePerByte"), len(code))
		if f.fn == "init" || f.fn == "solidity.ctor" {
			m.fail(arwen.ErrInitFuncCalledInRun)
		}
		if f.fn == "callBack" && f.kind != vmcommon.AsynchronousCallBack {
			m.fail(arwen.ErrCallBackFuncCalledInRun)
		}
		if !exported(code, f.fn) {
			if f.kind == vmcommon.AsynchronousCallBack {
				return f
			}
			m.fail(missing(f.fn))
		}
		m.run(f)
		m.enough(f)
		switch f.kind {
		case vmcommon.AsynchronousCallBack:
		case vmcommon.AsynchronousCall:
			if !m.processGenerated(f) {
				data := "@" + hex.EncodeToString([]byte("ok"))
				for _, d := range m.St.Ret {
					data += "@" + hex.EncodeToString(d)
				}
				err := m.send(f, f.caller, f.self, f.left(), 0, f.value, []byte(data), vmcommon.AsynchronousCallBack)
				if err != nil {
					m.St.Msg = err.Error()
					m.fail(err)
				}
				f.use(f.left())
			}
		default:
			m.processGenerated(f)
		}
		return f
	})
}

// Create models a transaction deploying a contract.
func (m *Model) Create(in *vmcommon.ContractCreateInput) (addr []byte, r Result) {
	n := m.W.nonceOf(in.CallerAddr)
	if n > 0 && !IsSC(in.CallerAddr) {
		n--
	}
	addr = NewAddress(in.CallerAddr, n, VMType)
	r = m.outer(func() *frame {
		f := newFrame(&vmcommon.ContractCallInput{VMInput: in.VMInput, RecipientAddr: addr, Function: "init"})
		f.fn = ""
		m.St.add(addr, f.value)
		m.deploy(f, in.ContractCode, in.ContractCodeMetadata, in.CallerAddr)
		return f
	})
	return
}

func (w *World) nonceOf(a []byte) uint64 {
	if x := w.Accs[string(a)]; x != nil {
		return x.Nonce
	}
	return 0
}

// deploy prepares, verifies and initialises new code.
func (m *Model) deploy(f *frame, code, meta, by []byte) {
	m.prepare(f, m.api("CreateContract"), m.base("CompilePerByte"), len(code))
	if !Known(code) || len(m.frames) >= m.MaxIn {
		m.fail(arwen.ErrContractInvalid)
	}
	f.code, f.codeSize = code, len(code)
	if exported(code, "init") {
		m.runExport(f, "init")
		m.enough(f)
	}
	m.St.Code[string(f.self)] = MCode{code, meta, by}
}

func (m *Model) outer(body func() *frame) (r Result) {
	m.St = newMState()
	if m.W.Tok != nil {
		m.St.Tok = m.W.Tok.clone()
	}
	m.frames = nil
	if m.Calls == nil {
		m.Calls, m.HostCalls = map[string]int{}, map[string]int{}
	}
	if m.MaxIn == 0 {
		m.MaxIn = 10
	}
	defer func() {
		if x := recover(); x != nil {
			u, ok := x.(unmodelled)
			if !ok {
				panic(x)
			}
			m.Unmodelled = u.what
		}
	}()
	var f *frame
	err := m.attempt(func() { f = body() })
	if err == nil {
		err = m.settle(f)
	}
	if err != nil {
		return m.failure(err)
	}
	return Result{Code: vmcommon.Ok, Msg: m.St.Msg, Remaining: f.left(), Ret: m.St.Ret}
}

func missing(fn string) error {
	if fn == "callBack" {
		return arwen.ErrNilCallbackFunction
	}
	return arwen.ErrFuncNotFound
}

// run runs the frame's function and then the asynchronous call it may have started.
func (m *Model) run(f *frame) { m.runExport(f, f.fn) }

func (m *Model) runExport(f *frame, export string) {
	if f.mem == nil {
		f.mem = make([]byte, 16*65536)
	}
	m.frames = append(m.frames, f)
	if len(m.frames) > m.MaxDepth {
		m.MaxDepth = len(m.frames)
	}
	depth := len(m.frames)
	asynced := func() (yes bool) {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(stopAsync); !ok {
					panic(r)
				}
				yes = true
			}
		}()
		m.interpret(f, export)
		return false
	}()
	m.frames = m.frames[:depth]
	if asynced {
		if err := m.handleAsync(f); err != nil {
			m.fail(err)
		}
	}
	m.frames = m.frames[:depth-1]
}

// execute runs a nested call in an already prepared frame.
func (m *Model) execute(f *frame, parent *frame, in *vmcommon.ContractCallInput) {
	if (f.fn == "init" || f.fn == "solidity.ctor") && !in.AllowInitFunction {
		m.fail(arwen.ErrInitFuncCalledInRun)
	}
	parent.use(in.GasProvided)
	if f.fn == arwen.UpgradeFunctionName {
		a := m.W.Accs[string(f.self)]
		if a == nil {
			m.fail(ErrNoAccount)
		}
		if !vmcommon.CodeMetadataFromBytes(a.Meta).Upgradeable || !bytes.Equal(a.Owner, f.caller) {
			m.fail(arwen.ErrUpgradeNotAllowed)
		}
		if f.readOnly {
			m.Calls["upgrade refused: read-only"]++
			m.fail(arwen.ErrInvalidCallOnReadOnlyMode)
		}
		if len(f.args) < 2 {
			m.fail(arwen.ErrInvalidUpgradeArguments)
		}
		code, meta := f.args[0], f.args[1]
		f.args = f.args[2:]
		m.deploy(f, code, meta, f.caller)
		return
	}
	code, err := m.codeAt(f.self)
	if err != nil {
		m.fail(err)
	}
	f.code, f.codeSize = code, len(code)
	m.prepare(f, m.base("GetCode"), m.base("AoTPreparePerByte"), len(code))
	m.checkDepth()
	if !Known(code) {
		m.skip("unknown code")
	}
	if !exported(code, f.fn) {
		if f.fn == "callBack" {
			return
		}
		m.fail(arwen.ErrFuncNotFound)
	}
	m.run(f)
}

func (m *Model) checkDepth() {
	if len(m.frames) >= m.MaxIn {
		m.fail(arwen.ErrMaxInstancesReached)
	}
}

func (m *Model) child(parent *frame, in *vmcommon.ContractCallInput) *frame {
	f := newFrame(in)
	f.readOnly = parent.readOnly
	if len(parent.origTx) > 0 {
		f.origTx = parent.origTx
	}
	if len(parent.curTx) > 0 {
		f.curTx = parent.curTx
	}
	if len(parent.prevTx) > 0 {
		f.prevTx = parent.prevTx
	}
	return f
}

// forwarded gives up when gas has already left with a transfer: the accounts
// of the calls that follow are then wrong (a known finding).
func (m *Model) forwarded() {
	for _, x := range m.St.Xfers {
		if x.Gas+x.Lock > 0 {
			m.skip("call after forwarding gas")
		}
	}
}

// execDest is a nested call on the callee's own context, or a function of the
// protocol and the call that comes after it.
func (m *Model) execDest(parent *frame, in *vmcommon.ContractCallInput) Result {
	if m.W.IsBuiltin(in.Function) {
		return m.execProtocol(parent, in)
	}
	return m.execCode(parent, in)
}

func (m *Model) execCode(parent *frame, in *vmcommon.ContractCallInput) Result {
	m.forwarded()
	saved := m.St
	m.St = saved.clone()
	m.St.Ret, m.St.Logs, m.St.Msg, m.St.Refund = nil, nil, "", 0
	f := m.child(parent, in)
	err := m.attempt(func() {
		if in.CallType != vmcommon.AsynchronousCallBack || f.value.Sign() == 0 {
			if err := m.move(f.self, f.caller, f.value, false, f.readOnly, f.kind); err != nil {
				m.fail(err)
			}
		}
		m.execute(f, parent, in)
		m.processGenerated(f)
	})
	if err == nil {
		err = m.settle(f)
		if err != nil {
			r := m.failure(err)
			r.Err = arwen.ErrExecutionFailed
			m.St = saved
			return r
		}
	}
	if err != nil {
		r := m.failure(err)
		m.St = saved
		return r
	}
	r := Result{Code: vmcommon.Ok, Msg: m.St.Msg, Remaining: f.left(), Ret: m.St.Ret,
		xfers: m.St.Xfers[len(saved.Xfers):]}
	m.St.Ret = append(append([][]byte(nil), saved.Ret...), m.St.Ret...)
	m.St.Logs = append(append([]MLog(nil), saved.Logs...), m.St.Logs...)
	m.St.Refund += saved.Refund
	parent.restore(r.Remaining)
	parent.childGas += f.provided - r.Remaining
	return r
}

// execSame is a nested call on the caller's storage.
func (m *Model) execSame(parent *frame, in *vmcommon.ContractCallInput, readOnly bool) Result {
	m.forwarded()
	saved, savedBig := m.St, parent.big.clone()
	m.St = saved.clone()
	f := m.child(parent, in)
	f.store = parent.store
	f.big = parent.big
	f.readOnly = parent.readOnly || readOnly
	err := m.attempt(func() {
		if err := m.move(f.self, f.caller, f.value, false, f.readOnly, f.kind); err != nil {
			m.fail(err)
		}
		m.execute(f, parent, in)
		if len(f.gen) > 0 {
			m.skip("generated async call on same context")
		}
	})
	if err != nil {
		r := m.failure(err)
		m.St, parent.big = saved, savedBig
		return r
	}
	if m.settle(f) != nil {
		m.skip("gas mismatch on the same context")
	}
	rem := f.left()
	parent.restore(rem)
	parent.childGas += f.provided - rem
	return Result{Code: vmcommon.Ok, Remaining: rem}
}

func (m *Model) handleAsync(f *frame) error {
	a := f.async
	fn, args, err := parsers.NewCallArgsParser().ParseData(string(a.data))
	if err != nil {
		return err
	}
	value := new(big.Int).SetBytes(a.value)
	call := func() Result {
		d := m.execDest(f, &vmcommon.ContractCallInput{
			VMInput: vmcommon.VMInput{CallerAddr: f.self, Arguments: args, CallValue: value, CallType: vmcommon.AsynchronousCall,
				GasPrice: f.gasPrice, GasProvided: f.left(), GasLocked: a.lock, CurrentTxHash: f.curTx, OriginalTxHash: f.origTx},
			RecipientAddr: a.dest, Function: fn})
		m.count("async", d)
		return d
	}
	if m.W.IsBuiltin(fn) {
		to := a.dest
		if fn == FnNFTTransfer && bytes.Equal(f.self, to) && len(args) > 3 {
			to = args[3]
		}
		if ShardOf(to) != ShardOf(f.self) {
			m.Calls["async-token-out"]++
			return call().Err
		}
		if _, ok := plainTransfer(fn, args); ok && f.kind == vmcommon.AsynchronousCall && bytes.Equal(f.caller, a.dest) {
			m.Calls["async-token-return"]++
			m.St.Ret = append([][]byte{a.data}, m.St.Ret...)
			f.restore(a.lock)
			return nil
		}
		m.callback(f, a.dest, a.lock, "callBack", call(), true)
		return nil
	}
	if _, err := m.codeAt(a.dest); err != nil {
		if err := m.send(f, a.dest, f.self, a.gas, a.lock, value, a.data, vmcommon.AsynchronousCall); err != nil {
			m.St.Msg = err.Error()
			return err
		}
		m.Calls["async-out"]++
		// the locked gas is already out of what is left
		f.use(f.left())
		return nil
	}
	m.callback(f, a.dest, a.lock, "callBack", call(), true)
	return nil
}

func (m *Model) count(kind string, r Result) {
	if r.Err != nil {
		kind += "-"
	}
	m.Calls[kind]++
}

// callback answers an asynchronous call.
func (m *Model) callback(f *frame, dest []byte, lock uint64, name string, d Result, unlock bool) {
	args := [][]byte{big.NewInt(int64(d.Code)).Bytes()}
	value := new(big.Int)
	fn, cbArgs := name, [][]byte(nil)
	if d.Err == nil {
		if len(d.Ret) > 0 {
			if t, as, err := parsers.NewCallArgsParser().ParseData(string(d.Ret[0])); err == nil {
				if as, ok := plainTransfer(t, as); ok {
					fn = t
					cbArgs = append(append(append([][]byte{}, as...), []byte(name), args[0]), d.Ret[1:]...)
					m.Calls["callback-with-token"]++
				}
			}
		}
		args = append(args, d.Ret...)
		if len(d.Ret) == 0 {
			for _, x := range d.xfers {
				if bytes.Equal(x.To, f.self) {
					value = new(big.Int)
					if len(x.Data) == 0 {
						value.Set(x.Value)
					}
				}
			}
		}
	} else {
		args = append(args, []byte(d.Msg))
	}
	n := len(name) + len(args)
	for _, a := range args {
		n += len(a)
	}
	step := satAdd(m.api("AsyncCallStep"), satMul(m.base("DataCopyPerByte"), uint64(n)))
	gas := d.Remaining + lock
	var cb Result
	if gas <= step {
		cb = Result{Err: arwen.ErrNotEnoughGas, Code: vmcommon.OutOfGas, Msg: arwen.ErrNotEnoughGas.Error()}
		if !unlock {
			m.fail(arwen.ErrNotEnoughGas)
		}
		if m.St.Msg != "" {
			cb.Msg = m.St.Msg
		}
		m.Calls["callback-nogas"]++
	} else {
		if unlock {
			f.restore(lock)
		}
		if cbArgs != nil {
			args = cbArgs
		}
		cb = m.execDest(f, &vmcommon.ContractCallInput{
			VMInput: vmcommon.VMInput{CallerAddr: dest, Arguments: args, CallValue: value, CallType: vmcommon.AsynchronousCallBack,
				GasPrice: f.gasPrice, GasProvided: gas - step, CurrentTxHash: f.curTx, OriginalTxHash: f.origTx,
				ReturnCallAfterError: d.Err != nil},
			RecipientAddr: f.self, Function: fn})
		m.count("callback", cb)
	}
	if cb.Err != nil {
		m.St.Msg = cb.Msg
		m.St.Ret = append(m.St.Ret, []byte(cb.Code.String()), f.curTx)
	}
}

// processGenerated handles calls made with createAsyncCall; it tells whether some are pending.
func (m *Model) processGenerated(f *frame) bool {
	if len(f.gen) == 0 {
		return false
	}
	m.skip("generated async calls")
	return false
}

// ---- the puppet

// exported tells whether a known code exports a function.
func exported(code []byte, fn string) bool {
	for _, e := range Exports {
		if e == fn {
			return bytes.Contains(code, exportEntry(fn))
		}
	}
	return false
}

func exportEntry(fn string) []byte { return append([]byte{byte(len(fn))}, append([]byte(fn), 0)...) }

// Exports of the puppet.
var Exports = []string{"init", "run", "alt", "callBack", "cbok", "cberr", "stored", "nop"}

// Known tells puppets apart from other code.
func Known(code []byte) bool {
	return len(code) > 4 && bytes.HasPrefix(code, []byte("\x00asm")) && bytes.Contains(code, exportEntry("nop"))
}

const (
	scriptAt = 0x60000
	traceAt  = 0xA0000
)

func (m *Model) interpret(f *frame, export string) {
	fromArg := func() {
		n := int32(m.host(f, "getArgument", []uint64{0, scriptAt}))
		if n > 0 {
			m.script(f, scriptAt, uint32(n))
		}
	}
	fromKey := func(k string) {
		// the key sits in the contract's constant data, out of the way
		copy(f.mem[16:], k)
		n := int32(m.host(f, "storageLoad", []uint64{16, uint64(len(k)), scriptAt}))
		if n > 0 {
			m.script(f, scriptAt, uint32(n))
		}
	}
	f.tlen = 0
	switch export {
	case "init":
		if int32(m.host(f, "getNumArguments", nil)) > 0 {
			fromArg()
		}
	case "run", "alt":
		fromArg()
	case "callBack":
		fromKey("cb")
	case "cbok", "cberr", "stored":
		fromKey(export)
	case "nop":
	default:
		panic("INFRA: no such export " + export)
	}
}

func (m *Model) trap() { m.fail(arwen.ErrExecutionFailed) }

func (f *frame) in(a, n uint64) bool { return a+n <= uint64(len(f.mem)) }

func (m *Model) script(f *frame, at, n uint32) {
	p, end := uint64(at), uint64(at)+uint64(n)
	get := func(k uint64) []byte {
		if !f.in(p, k) {
			m.trap()
		}
		b := f.mem[p : p+k]
		p += k
		return b
	}
	u32 := func() uint32 { return binary.LittleEndian.Uint32(get(4)) }
	u64 := func() uint64 { return binary.LittleEndian.Uint64(get(8)) }
	trace := func(a, n uint32) {
		if !f.in(uint64(a), uint64(n)) || !f.in(traceAt+uint64(f.tlen), uint64(n)) {
			m.trap()
		}
		for i := uint32(0); i < n; i++ {
			f.mem[traceAt+f.tlen+i] = f.mem[a+i]
		}
		f.tlen += n
	}
	for p < end {
		switch get(1)[0] {
		case 0:
			return
		case 1:
			d, n := u32(), u32()
			src := get(uint64(n))
			if !f.in(uint64(d), uint64(n)) {
				m.trap()
			}
			copy(f.mem[d:], append([]byte(nil), src...))
		case 2:
			fn := int(get(1)[0])
			dst := get(1)[0] & 15
			if fn >= len(Fns) {
				m.trap()
			}
			a := make([]uint64, len(Fns[fn].Args))
			for i := range a {
				isReg := get(1)[0]
				v := u64()
				if isReg != 0 {
					v = f.reg[v&15]
				}
				a[i] = v
			}
			f.reg[dst] = m.host(f, Fns[fn].Name, a)
		case 3:
			r := get(1)[0] & 15
			if !f.in(traceAt+uint64(f.tlen), 8) {
				m.trap()
			}
			binary.LittleEndian.PutUint64(f.mem[traceAt+f.tlen:], f.reg[r])
			f.tlen += 8
		case 4:
			a, n := u32(), u32()
			trace(a, n)
		case 5:
			m.host(f, "finish", []uint64{traceAt, uint64(f.tlen)})
			f.tlen = 0
		case 6:
			r := get(1)[0] & 15
			v := u64()
			n := u32()
			if f.reg[r] != v {
				p += uint64(n)
			}
		case 7:
			if u64() == 0 {
				m.skip("endless loop")
			}
		case 8:
			m.trap()
		case 9:
			r := get(1)[0] & 15
			n := u32()
			f.reg[r] = uint64(int64(f.grow(n)))
		case 10:
			r := get(1)[0] & 15
			a := u32()
			if !f.in(uint64(a), 8) {
				m.trap()
			}
			f.reg[r] = binary.LittleEndian.Uint64(f.mem[a:])
		case 11:
			r := get(1)[0] & 15
			a := u32()
			if !f.in(uint64(a), 8) {
				m.trap()
			}
			binary.LittleEndian.PutUint64(f.mem[a:], f.reg[r])
		case 12:
			r := get(1)[0] & 15
			f.reg[r] += u64()
		case 13:
			a := u32()
			r := get(1)[0] & 15
			trace(a, uint32(f.reg[r]))
		default:
			m.trap()
		}
	}
}

func (f *frame) grow(pages uint32) int32 {
	old := len(f.mem) / 65536
	if uint64(old)+uint64(pages) > 65536 {
		return -1
	}
	if pages > 512 {
		panic(unmodelled{"big memory"})
	}
	f.mem = append(f.mem, make([]byte, int(pages)*65536)...)
	return int32(old)
}

// host performs a host call and ends the frame when it exceeds its gas.
func (m *Model) host(f *frame, name string, a []uint64) uint64 {
	m.HostCalls[name]++
	h, ok := hostFns[name]
	if !ok {
		m.skip("host function " + name)
	}
	r := h(m, f, args(a))
	if debugGas {
		fmt.Printf("G %d %s used=%d limit=%d exec=%d\n", len(m.frames), name, f.used, f.limit, f.exec)
	}
	if f.used > f.limit {
		m.fail(arwen.ErrNotEnoughGas)
	}
	return r
}

type args []uint64

func (a args) i32(i int) int32 { return int32(uint32(a[i])) }
func (a args) i64(i int) int64 { return int64(a[i]) }

type hostFn func(m *Model, f *frame, a args) uint64

var hostFns = map[string]hostFn{}

func ret32(v int32) uint64 { return uint64(int64(v)) }

// load reads the contract's memory; reading past the end gives zeros.
func (m *Model) load(f *frame, off, n int32) []byte {
	if n == 0 {
		return []byte{}
	}
	if off < 0 || uint64(off) > uint64(len(f.mem)) {
		m.fault(fmt.Errorf("mem load: %w", arwen.ErrBadBounds))
	}
	if n < 0 {
		m.fault(fmt.Errorf("mem load: %w", arwen.ErrNegativeLength))
	}
	b := make([]byte, n)
	copy(b, f.mem[off:])
	return b
}

// put writes the contract's memory.
func (m *Model) put(f *frame, off int32, b []byte) {
	if len(b) == 0 {
		return
	}
	if off < 0 {
		m.fault(arwen.ErrBadLowerBounds)
	}
	if !f.in(uint64(off), uint64(len(b))) {
		f.grow(1)
		if !f.in(uint64(off), uint64(len(b))) {
			m.fault(arwen.ErrBadUpperBounds)
		}
	}
	copy(f.mem[off:], b)
}

var debugGas = os.Getenv("VH_GAS") != ""
