//go:build go1.21

package pup

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"math/big"
	"strings"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwen"
	vmcommon "github.com/ElrondNetwork/elrond-vm-common"
	"golang.org/x/crypto/ripemd160"
	"golang.org/x/crypto/sha3"
)

// ---- big numbers

type bigs struct{ v map[int32]*big.Int }

func newBigs() *bigs { return &bigs{map[int32]*big.Int{}} }
func (b *bigs) clone() *bigs {
	n := newBigs()
	for k, v := range b.v {
		n.v[k] = new(big.Int).Set(v)
	}
	return n
}
func (b *bigs) get(h int32) *big.Int {
	if v, ok := b.v[h]; ok {
		return v
	}
	b.v[h] = new(big.Int)
	return b.v[h]
}
func (b *bigs) put(v int64) int32 {
	h := int32(len(b.v))
	for b.v[h] != nil {
		h++
	}
	b.v[h] = big.NewInt(v)
	return h
}

// TwosBytes is the shortest two's complement form.
func TwosBytes(v *big.Int) []byte {
	switch v.Sign() {
	case 0:
		return []byte{}
	case 1:
		b := v.Bytes()
		if b[0]&0x80 != 0 {
			b = append([]byte{0}, b...)
		}
		return b
	}
	n := 1
	for {
		// the least n such that v >= -2^(8n-1)
		if new(big.Int).Neg(new(big.Int).Lsh(big.NewInt(1), uint(8*n-1))).Cmp(v) <= 0 {
			break
		}
		n++
	}
	b := new(big.Int).Add(new(big.Int).Lsh(big.NewInt(1), uint(8*n)), v).Bytes()
	for len(b) < n {
		b = append([]byte{0}, b...)
	}
	return b
}

// TwosInt reads two's complement.
func TwosInt(b []byte) *big.Int {
	v := new(big.Int).SetBytes(b)
	if len(b) > 0 && b[0]&0x80 != 0 {
		v.Sub(v, new(big.Int).Lsh(big.NewInt(1), uint(8*len(b))))
	}
	return v
}

func (m *Model) bigAPI(f *frame, name string) { f.use(m.cost("BigIntAPICost", name)) }

func (m *Model) bigExtra(f *frame, vs ...*big.Int) {
	for _, v := range vs {
		if n := v.BitLen() / 8; n > 32 {
			f.use(satMul(uint64(n), m.base("DataCopyPerByte")))
		}
	}
}

func (m *Model) perByte(f *frame, what string, n int64) { f.use(satMul(m.base(what), uint64(n))) }

// ---- storage

// Storage statuses, as contracts see them.
var statusOf = map[string]int32{"unchanged": 0, "modified": 1, "added": 2, "deleted": 3}

func (m *Model) setStorage(f *frame, key, val []byte, protectedToo bool) int32 {
	if f.readOnly {
		m.Calls["write refused: read-only"]++
		return statusOf["unchanged"]
	}
	if bytes.HasPrefix(key, ReservedPrefix) {
		m.fault(arwen.ErrStoreElrondReservedKey)
	}
	if bytes.HasPrefix(key, []byte("ARWEN@")) && !protectedToo {
		m.fault(arwen.ErrCannotWriteProtectedKey)
	}
	if n := len(key) - 32; n > 0 {
		m.perByte(f, "DataCopyPerByte", int64(n))
	}
	old := m.stored(f.store, key)
	if bytes.Equal(old, val) {
		m.perByte(f, "DataCopyPerByte", int64(len(val)))
		return statusOf["unchanged"]
	}
	s := m.St.Stor[string(f.store)]
	if s == nil {
		s = map[string][]byte{}
		m.St.Stor[string(f.store)] = s
	}
	s[string(key)] = append([]byte(nil), val...)
	m.Writes++
	switch {
	case len(old) == 0:
		m.perByte(f, "StorePerByte", int64(len(val)))
		return statusOf["added"]
	case len(val) == 0:
		m.St.Refund += satMul(m.base("ReleasePerByte"), uint64(len(old)))
		return statusOf["deleted"]
	}
	if d := len(val) - len(old); d > 0 {
		m.perByte(f, "PersistPerByte", int64(len(old)))
		m.perByte(f, "StorePerByte", int64(d))
	} else if d < 0 {
		m.perByte(f, "PersistPerByte", int64(len(val)))
		m.St.Refund += satMul(m.base("ReleasePerByte"), uint64(-d))
	}
	return statusOf["modified"]
}

func (m *Model) getStorage(f *frame, addr, key []byte) []byte {
	if n := len(key) - 32; n > 0 {
		m.perByte(f, "DataCopyPerByte", int64(n))
	}
	if !bytes.Equal(addr, f.store) {
		a := m.W.Accs[string(addr)]
		if a == nil || !vmcommon.CodeMetadataFromBytes(a.Meta).Readable {
			return nil
		}
	}
	v := m.stored(addr, key)
	m.perByte(f, "DataCopyPerByte", int64(len(v)))
	return v
}

func lockKey(key []byte) []byte { return append(append([]byte(nil), key...), "ARWEN@TIMELOCK"...) }

// ---- arguments of calls

func (m *Model) argsFromMemory(f *frame, n, lenOff, dataOff int32) (out [][]byte, total int32) {
	if n < 0 {
		m.skip("negative number of arguments")
	}
	if n > 1<<20 {
		m.skip("too many arguments")
	}
	raw := m.load(f, lenOff, n*4)
	for i := int32(0); i < n; i++ {
		l := int32(binary.LittleEndian.Uint32(raw[4*i:]))
		out = append(out, m.load(f, dataOff, l))
		dataOff += l
		total += l
	}
	return
}

type indirect struct {
	dest, fn []byte
	value    *big.Int
	args     [][]byte
}

func (m *Model) indirect(f *frame, dest, value int32, hasValue bool, fn, fnLen, n, lenOff, dataOff int32) (r indirect) {
	r.dest = m.load(f, dest, 32)
	if hasValue {
		r.value = new(big.Int).SetBytes(m.load(f, value, 32))
	} else {
		r.value = new(big.Int).Set(f.value)
	}
	r.fn = m.load(f, fn, fnLen)
	var total int32
	r.args, total = m.argsFromMemory(f, n, lenOff, dataOff)
	m.perByte(f, "DataCopyPerByte", int64(total))
	return
}

func (f *frame) bound(gas int64) uint64 {
	if l := f.left(); l < uint64(gas) {
		return l
	}
	return uint64(gas)
}

func (m *Model) nested(f *frame, kind, cost string, from []byte, gas int64, i indirect) uint64 {
	f.use(m.api(cost))
	if ShardOf(i.dest) != ShardOf(f.self) {
		m.fault(arwen.ErrSyncExecutionNotInSameShard)
	}
	in := &vmcommon.ContractCallInput{
		VMInput:       vmcommon.VMInput{CallerAddr: from, Arguments: i.args, CallValue: i.value, GasProvided: f.bound(gas)},
		RecipientAddr: i.dest, Function: string(i.fn)}
	if m.W.IsBuiltin(in.Function) && kind != "dest" {
		m.Calls["token-"+kind+"-refused"]++
		return 1
	}
	var r Result
	switch kind {
	case "dest", "caller":
		r = m.execDest(f, in)
	case "same", "delegate":
		r = m.execSame(f, in, false)
	case "readonly":
		in.CallValue = new(big.Int)
		r = m.execSame(f, in, true)
	}
	m.count(kind, r)
	if r.Err != nil {
		m.fault(r.Err)
	}
	return 0
}

func hexArgs(fn []byte, args [][]byte) []byte {
	s := string(fn)
	for _, a := range args {
		s += "@" + hex.EncodeToString(a)
	}
	return []byte(s)
}

func (m *Model) createContract(f *frame, gas int64, value *big.Int, code, meta []byte, args [][]byte) (addr []byte, ok bool) {
	provided := f.bound(gas)
	saved := m.St
	m.St = saved.clone()
	fail := func(why string) ([]byte, bool) {
		m.St = saved
		m.Calls["create-"+why]++
		return nil, false
	}
	// known finding: the price of compiling the new code takes the place of
	// the price of preparing the creator, instead of being added
	c := satMul(m.base("CompilePerByte"), uint64(len(code)))
	if c > f.provided {
		return fail("gas")
	}
	f.initial, f.exec = c, f.provided-c
	if f.readOnly {
		m.Calls["deployment refused: read-only"]++
		return fail("readonly")
	}
	if m.W.Accs[string(f.self)] == nil && m.St.Nonce[string(f.self)] == 0 {
		// the network does not know the nonce of a creator that is itself new
		return fail("new creator")
	}
	addr = NewAddress(f.self, m.nonce(f.self), VMType)
	if _, ok := m.St.Code[string(addr)]; ok {
		m.skip("deployment over a pending deployment")
	}
	if !m.V3 {
		m.skip("old address derivation")
	}
	if m.W.Accs[string(addr)] != nil {
		return fail("exists")
	}
	m.St.Code[string(addr)] = MCode{code, meta, f.self}
	m.deployed = string(addr)
	r := m.execDest(f, &vmcommon.ContractCallInput{
		VMInput:       vmcommon.VMInput{CallerAddr: f.self, Arguments: args, CallValue: value, GasProvided: provided},
		RecipientAddr: addr, Function: "init", AllowInitFunction: true})
	if r.Err != nil {
		return fail("init")
	}
	m.St.Nonce[string(f.self)] = m.nonce(f.self) + 1
	m.Calls["create"]++
	return addr, true
}

// startAsync is what asyncCall and upgrade do in the end.
func (m *Model) startAsync(f *frame, dest, data, value []byte) error {
	step := m.api("AsyncCallStep")
	if !f.useBounded(step) {
		return arwen.ErrNotEnoughGas
	}
	lock := uint64(0)
	if exported(f.code, "callBack") {
		lock = satAdd(satAdd(satMul(uint64(f.codeSize), m.base("AoTPreparePerByte")), step), m.api("AsyncCallbackGasLock"))
		if !f.useBounded(lock) {
			return arwen.ErrNotEnoughGas
		}
	}
	f.async = &asyncInfo{dest: dest, data: data, value: value, gas: f.left(), lock: lock}
	panic(stopAsync{})
}

// IsBuiltin tells protocol functions apart.
func (w *World) IsBuiltin(fn string) bool { return w.BuiltinNames[fn] }

func (m *Model) arg(f *frame, id int32) []byte {
	if id < 0 || int(id) >= len(f.args) {
		m.fault(arwen.ErrArgIndexOutOfRange)
	}
	return f.args[id]
}

func dataFn(data []byte) string { return strings.SplitN(string(data), "@", 2)[0] }

func pad32(b []byte) []byte {
	for len(b) < 32 {
		b = append([]byte{0}, b...)
	}
	return b
}

func init() {
	E := func(name, cost string, h hostFn) {
		hostFns[name] = func(m *Model, f *frame, a args) uint64 {
			if cost != "" {
				f.use(m.api(cost))
			}
			return h(m, f, a)
		}
	}
	num := func(name, cost string, v func(m *Model, f *frame) uint64) {
		E(name, cost, func(m *Model, f *frame, a args) uint64 { return v(m, f) })
	}
	blob := func(name, cost string, v func(m *Model, f *frame) []byte) {
		E(name, cost, func(m *Model, f *frame, a args) uint64 { m.put(f, a.i32(0), v(m, f)); return 0 })
	}
	num("getGasLeft", "GetGasLeft", func(m *Model, f *frame) uint64 { return f.left() })
	blob("getSCAddress", "GetSCAddress", func(m *Model, f *frame) []byte { return f.self })
	blob("getCaller", "GetCaller", func(m *Model, f *frame) []byte { return f.caller })
	blob("getOwnerAddress", "GetOwnerAddress", func(m *Model, f *frame) []byte {
		a := m.W.Accs[string(f.self)]
		if a == nil {
			m.fault(ErrNoAccount)
		}
		return a.Owner
	})
	E("getShardOfAddress", "GetShardOfAddress", func(m *Model, f *frame, a args) uint64 {
		return uint64(ShardOf(m.load(f, a.i32(0), 32)))
	})
	E("isSmartContract", "IsSmartContract", func(m *Model, f *frame, a args) uint64 {
		if IsSC(m.load(f, a.i32(0), 32)) {
			return 1
		}
		return 0
	})
	E("getExternalBalance", "GetExternalBalance", func(m *Model, f *frame, a args) uint64 {
		addr := m.load(f, a.i32(0), 32)
		m.put(f, a.i32(1), m.balance(addr).Bytes())
		return 0
	})
	E("getBlockHash", "GetBlockHash", func(m *Model, f *frame, a args) uint64 {
		if n := a.i64(0); n >= 0 {
			if h, err := m.W.GetBlockhash(uint64(n)); err == nil {
				m.put(f, a.i32(1), h)
			}
		}
		return 0
	})
	num("getBlockTimestamp", "GetBlockTimeStamp", func(m *Model, f *frame) uint64 { return m.W.Cur.Time })
	num("getBlockNonce", "GetBlockNonce", func(m *Model, f *frame) uint64 { return m.W.Cur.Nonce })
	num("getBlockRound", "GetBlockRound", func(m *Model, f *frame) uint64 { return m.W.Cur.Round })
	num("getBlockEpoch", "GetBlockEpoch", func(m *Model, f *frame) uint64 { return uint64(m.W.Cur.Epoch) })
	num("getPrevBlockTimestamp", "GetBlockTimeStamp", func(m *Model, f *frame) uint64 { return m.W.Last.Time })
	num("getPrevBlockNonce", "GetBlockNonce", func(m *Model, f *frame) uint64 { return m.W.Last.Nonce })
	num("getPrevBlockRound", "GetBlockRound", func(m *Model, f *frame) uint64 { return m.W.Last.Round })
	num("getPrevBlockEpoch", "GetBlockEpoch", func(m *Model, f *frame) uint64 { return uint64(m.W.Last.Epoch) })
	blob("getBlockRandomSeed", "GetBlockRandomSeed", func(m *Model, f *frame) []byte { return m.W.Cur.Seed })
	blob("getPrevBlockRandomSeed", "GetBlockRandomSeed", func(m *Model, f *frame) []byte { return m.W.Last.Seed })
	blob("getStateRootHash", "GetStateRootHash", func(m *Model, f *frame) []byte { return m.W.StateRoot })
	blob("getOriginalTxHash", "GetBlockHash", func(m *Model, f *frame) []byte { return f.origTx })

	E("getFunction", "GetFunction", func(m *Model, f *frame, a args) uint64 {
		m.put(f, a.i32(0), []byte(f.fn))
		return uint64(len(f.fn))
	})
	num("getNumArguments", "GetNumArguments", func(m *Model, f *frame) uint64 { return uint64(len(f.args)) })
	E("getArgumentLength", "GetArgument", func(m *Model, f *frame, a args) uint64 {
		if id := a.i32(0); id >= 0 && int(id) < len(f.args) {
			return uint64(len(f.args[id]))
		}
		return ret32(-1)
	})
	E("getArgument", "GetArgument", func(m *Model, f *frame, a args) uint64 {
		if id := a.i32(0); id >= 0 && int(id) < len(f.args) {
			m.put(f, a.i32(1), f.args[id])
			return uint64(len(f.args[id]))
		}
		return ret32(-1)
	})
	num("checkNoPayment", "GetCallValue", func(m *Model, f *frame) uint64 {
		if f.value.Sign() > 0 {
			m.fault(arwen.ErrNonPayableFunctionEgld)
		}
		if len(f.esdt) > 0 && f.esdt[0].ESDTValue.Sign() > 0 {
			m.fault(arwen.ErrNonPayableFunctionEsdt)
		}
		return 0
	})
	E("getCallValue", "GetCallValue", func(m *Model, f *frame, a args) uint64 {
		b := f.value.Bytes()
		if len(b) > 0 { // nothing at all for zero
			b = pad32(b)
		}
		m.put(f, a.i32(0), b)
		return uint64(len(b))
	})
	E("signalError", "SignalError", func(m *Model, f *frame, a args) uint64 {
		msg := m.load(f, a.i32(0), a.i32(1))
		m.St.Msg = string(msg)
		m.fail(arwen.ErrSignalError)
		return 0
	})
	E("finish", "Finish", func(m *Model, f *frame, a args) uint64 {
		m.perByte(f, "PersistPerByte", int64(a.i32(1)))
		m.St.Ret = append(m.St.Ret, m.load(f, a.i32(0), a.i32(1)))
		return 0
	})
	num("getNumReturnData", "GetNumReturnData", func(m *Model, f *frame) uint64 { return uint64(len(m.St.Ret)) })
	E("getReturnDataSize", "GetReturnDataSize", func(m *Model, f *frame, a args) uint64 {
		if id := a.i32(0); id >= 0 && int(id) < len(m.St.Ret) {
			return uint64(len(m.St.Ret[id]))
		}
		return 0
	})
	E("getReturnData", "GetReturnData", func(m *Model, f *frame, a args) uint64 {
		if id := a.i32(0); id >= 0 && int(id) < len(m.St.Ret) {
			m.put(f, a.i32(1), m.St.Ret[id])
			return uint64(len(m.St.Ret[id]))
		}
		return 0
	})
	// storage
	E("storageStore", "StorageStore", func(m *Model, f *frame, a args) uint64 {
		k := m.load(f, a.i32(0), a.i32(1))
		return ret32(m.setStorage(f, k, m.load(f, a.i32(2), a.i32(3)), false))
	})
	E("storageLoadLength", "StorageLoad", func(m *Model, f *frame, a args) uint64 {
		return uint64(len(m.stored(f.store, m.load(f, a.i32(0), a.i32(1)))))
	})
	E("storageLoad", "StorageLoad", func(m *Model, f *frame, a args) uint64 {
		v := m.getStorage(f, f.store, m.load(f, a.i32(0), a.i32(1)))
		m.put(f, a.i32(2), v)
		return uint64(len(v))
	})
	E("storageLoadFromAddress", "StorageLoad", func(m *Model, f *frame, a args) uint64 {
		k := m.load(f, a.i32(1), a.i32(2))
		v := m.getStorage(f, m.load(f, a.i32(0), 32), k)
		m.put(f, a.i32(3), v)
		return uint64(len(v))
	})
	E("setStorageLock", "Int64StorageStore", func(m *Model, f *frame, a args) uint64 {
		k := m.load(f, a.i32(0), a.i32(1))
		return ret32(m.setStorage(f, lockKey(k), big.NewInt(a.i64(2)).Bytes(), true))
	})
	E("clearStorageLock", "Int64StorageStore", func(m *Model, f *frame, a args) uint64 {
		k := m.load(f, a.i32(0), a.i32(1))
		return ret32(m.setStorage(f, lockKey(k), nil, true))
	})
	getLock := func(m *Model, f *frame, a args) uint64 {
		v := m.getStorage(f, f.store, lockKey(m.load(f, a.i32(0), a.i32(1))))
		return uint64(new(big.Int).SetBytes(v).Int64())
	}
	E("getStorageLock", "StorageLoad", getLock)
	E("isStorageLocked", "StorageLoad", func(m *Model, f *frame, a args) uint64 {
		t := int64(getLock(m, f, a))
		if t < 0 {
			return ret32(-1)
		}
		f.use(m.api("GetBlockTimeStamp"))
		if t <= int64(m.W.Cur.Time) {
			return 0
		}
		return 1
	})
	// logs
	E("writeLog", "Log", func(m *Model, f *frame, a args) uint64 {
		n := a.i32(3)
		m.perByte(f, "PersistPerByte", int64(n*32+a.i32(1)))
		data := m.load(f, a.i32(0), a.i32(1))
		if n < 0 {
			m.skip("negative topics")
		}
		var topics [][]byte
		for i := int32(0); i < n; i++ {
			topics = append(topics, m.load(f, a.i32(2)+32*i, 32))
		}
		m.log(f, topics, data)
		return 0
	})
	E("writeEventLog", "", func(m *Model, f *frame, a args) uint64 {
		topics, total := m.argsFromMemory(f, a.i32(0), a.i32(1), a.i32(2))
		data := m.load(f, a.i32(3), a.i32(4))
		f.use(m.api("Log"))
		m.perByte(f, "DataCopyPerByte", int64(total+a.i32(4)))
		m.log(f, topics, data)
		return 0
	})
	// transfers and calls
	E("transferValue", "TransferValue", func(m *Model, f *frame, a args) uint64 {
		dest := m.load(f, a.i32(0), 32)
		v := new(big.Int).SetBytes(m.load(f, a.i32(1), 32))
		m.perByte(f, "PersistPerByte", int64(a.i32(3)))
		data := m.load(f, a.i32(2), a.i32(3))
		if m.W.IsBuiltin(dataFn(data)) {
			return 1
		}
		if err := m.send(f, dest, f.self, 0, 0, v, data, vmcommon.DirectCall); err != nil {
			m.fault(err)
		}
		m.Calls["transfer"]++
		return 0
	})
	E("transferValueExecute", "TransferValue", func(m *Model, f *frame, a args) uint64 {
		i := m.indirect(f, a.i32(0), a.i32(1), true, a.i32(3), a.i32(4), a.i32(5), a.i32(6), a.i32(7))
		f.use(m.api("TransferValue"))
		gas := a.i64(2)
		if m.W.IsBuiltin(string(i.fn)) {
			return 1
		}
		if ShardOf(i.dest) == ShardOf(f.self) && IsSC(i.dest) {
			r := m.execDest(f, &vmcommon.ContractCallInput{
				VMInput:       vmcommon.VMInput{CallerAddr: f.self, Arguments: i.args, CallValue: i.value, GasProvided: f.bound(gas)},
				RecipientAddr: i.dest, Function: string(i.fn)})
			m.count("transferExecute", r)
			if r.Err != nil {
				return 1
			}
			return 0
		}
		f.use(uint64(gas))
		if err := m.send(f, i.dest, f.self, uint64(gas), 0, i.value, hexArgs(i.fn, i.args), vmcommon.DirectCall); err != nil {
			m.fault(err)
		}
		m.Calls["transferExecute-out"]++
		return 0
	})
	call := func(name, kind, cost string) {
		E(name, "", func(m *Model, f *frame, a args) uint64 {
			i := m.indirect(f, a.i32(1), a.i32(2), true, a.i32(3), a.i32(4), a.i32(5), a.i32(6), a.i32(7))
			from := f.self
			if kind == "caller" {
				from = f.caller
			}
			return m.nested(f, kind, cost, from, a.i64(0), i)
		})
	}
	call("executeOnDestContext", "dest", "ExecuteOnDestContext")
	call("executeOnDestContextByCaller", "caller", "ExecuteOnDestContext")
	call("executeOnSameContext", "same", "ExecuteOnSameContext")
	call2 := func(name, kind, cost string) {
		E(name, "", func(m *Model, f *frame, a args) uint64 {
			i := m.indirect(f, a.i32(1), 0, false, a.i32(2), a.i32(3), a.i32(4), a.i32(5), a.i32(6))
			return m.nested(f, kind, cost, f.self, a.i64(0), i)
		})
	}
	call2("delegateExecution", "delegate", "DelegateExecution")
	call2("executeReadOnly", "readonly", "ExecuteReadOnly")
	E("createContract", "CreateContract", func(m *Model, f *frame, a args) uint64 {
		v := new(big.Int).SetBytes(m.load(f, a.i32(1), 32))
		code := m.load(f, a.i32(2), a.i32(4))
		meta := m.load(f, a.i32(3), 2)
		as, total := m.argsFromMemory(f, a.i32(6), a.i32(7), a.i32(8))
		m.perByte(f, "DataCopyPerByte", int64(total))
		addr, ok := m.createContract(f, a.i64(0), v, code, meta, as)
		if !ok {
			return 1
		}
		m.put(f, a.i32(5), addr)
		return 0
	})
	E("deployFromSourceContract", "CreateContract", func(m *Model, f *frame, a args) uint64 {
		v := new(big.Int).SetBytes(m.load(f, a.i32(1), 32))
		src := m.load(f, a.i32(2), 32)
		meta := m.load(f, a.i32(3), 2)
		as, total := m.argsFromMemory(f, a.i32(5), a.i32(6), a.i32(7))
		m.perByte(f, "DataCopyPerByte", int64(total))
		code, err := m.codeAt(src)
		if err != nil {
			m.fault(err)
		}
		addr, ok := m.createContract(f, a.i64(0), v, code, meta, as)
		if !ok {
			return 1
		}
		m.put(f, a.i32(4), addr)
		return 0
	})
	upgrade := func(m *Model, f *frame, gas int64, dest, code, meta, value []byte, as [][]byte) {
		min := satAdd(satMul(2, m.api("AsyncCallStep")), m.api("AsyncCallbackGasLock"))
		if uint64(gas) < min {
			m.fail(arwen.ErrNotEnoughGas)
		}
		_ = m.startAsync(f, dest, hexArgs([]byte("upgradeContract"), append([][]byte{code, meta}, as...)), value)
	}
	E("upgradeContract", "CreateContract", func(m *Model, f *frame, a args) uint64 {
		v := m.load(f, a.i32(2), 32)
		code := m.load(f, a.i32(3), a.i32(5))
		meta := m.load(f, a.i32(4), 2)
		as, total := m.argsFromMemory(f, a.i32(6), a.i32(7), a.i32(8))
		m.perByte(f, "DataCopyPerByte", int64(total))
		dest := m.load(f, a.i32(0), 32)
		m.perByte(f, "DataCopyPerByte", int64(a.i32(5)))
		upgrade(m, f, a.i64(1), dest, code, meta, v, as)
		return 0
	})
	E("upgradeFromSourceContract", "CreateContract", func(m *Model, f *frame, a args) uint64 {
		v := m.load(f, a.i32(2), 32)
		src := m.load(f, a.i32(3), 32)
		meta := m.load(f, a.i32(4), 2)
		as, total := m.argsFromMemory(f, a.i32(5), a.i32(6), a.i32(7))
		m.perByte(f, "DataCopyPerByte", int64(total))
		dest := m.load(f, a.i32(0), 32)
		code, err := m.codeAt(src)
		if err != nil {
			m.fault(err)
		}
		upgrade(m, f, a.i64(1), dest, code, meta, v, as)
		return 0
	})
	E("asyncCall", "AsyncCallStep", func(m *Model, f *frame, a args) uint64 {
		dest := m.load(f, a.i32(0), 32)
		v := m.load(f, a.i32(1), 32)
		m.perByte(f, "DataCopyPerByte", int64(a.i32(3)))
		data := m.load(f, a.i32(2), a.i32(3))
		if err := m.startAsync(f, dest, data, v); err != nil {
			m.fail(err)
		}
		return 0
	})
	// small integers
	smallArg := func(signed bool) hostFn {
		return func(m *Model, f *frame, a args) uint64 {
			b := m.arg(f, a.i32(0))
			if signed {
				v := TwosInt(b)
				if !v.IsInt64() {
					m.fault(arwen.ErrArgOutOfRange)
				}
				return uint64(v.Int64())
			}
			v := new(big.Int).SetBytes(b)
			if !v.IsUint64() {
				m.fault(arwen.ErrArgOutOfRange)
			}
			return v.Uint64()
		}
	}
	E("smallIntGetUnsignedArgument", "Int64GetArgument", smallArg(false))
	E("smallIntGetSignedArgument", "Int64GetArgument", smallArg(true))
	E("int64getArgument", "Int64GetArgument", smallArg(true))
	enc := func(v uint64, signed bool) []byte {
		if signed {
			return TwosBytes(big.NewInt(int64(v)))
		}
		return new(big.Int).SetUint64(v).Bytes()
	}
	smallFin := func(signed bool) hostFn {
		return func(m *Model, f *frame, a args) uint64 {
			m.St.Ret = append(m.St.Ret, enc(a[0], signed))
			return 0
		}
	}
	E("smallIntFinishUnsigned", "Int64Finish", smallFin(false))
	E("smallIntFinishSigned", "Int64Finish", smallFin(true))
	E("int64finish", "Int64Finish", smallFin(true))
	smallStore := func(signed bool) hostFn {
		return func(m *Model, f *frame, a args) uint64 {
			k := m.load(f, a.i32(0), a.i32(1))
			return ret32(m.setStorage(f, k, enc(a[2], signed), false))
		}
	}
	E("smallIntStorageStoreUnsigned", "Int64StorageStore", smallStore(false))
	E("smallIntStorageStoreSigned", "Int64StorageStore", smallStore(true))
	E("int64storageStore", "Int64StorageStore", smallStore(false))
	smallLoad := func(signed bool) hostFn {
		return func(m *Model, f *frame, a args) uint64 {
			b := m.getStorage(f, f.store, m.load(f, a.i32(0), a.i32(1)))
			if signed {
				v := TwosInt(b)
				if !v.IsInt64() {
					m.fault(arwen.ErrStorageValueOutOfRange)
				}
				return uint64(v.Int64())
			}
			v := new(big.Int).SetBytes(b)
			if !v.IsUint64() {
				m.fault(arwen.ErrStorageValueOutOfRange)
			}
			return v.Uint64()
		}
	}
	E("smallIntStorageLoadUnsigned", "Int64StorageLoad", smallLoad(false))
	E("smallIntStorageLoadSigned", "Int64StorageLoad", smallLoad(true))
	E("int64storageLoad", "Int64StorageLoad", smallLoad(false))

	// big integers
	B := func(name, cost string, h hostFn) {
		hostFns[name] = func(m *Model, f *frame, a args) uint64 { m.bigAPI(f, cost); return h(m, f, a) }
	}
	bigArg := func(signed bool) hostFn {
		return func(m *Model, f *frame, a args) uint64 {
			id := a.i32(0)
			if id < 0 {
				m.skip("negative argument index")
			}
			if int(id) >= len(f.args) {
				return 0
			}
			if signed {
				f.big.get(a.i32(1)).Set(TwosInt(f.args[id]))
			} else {
				f.big.get(a.i32(1)).SetBytes(f.args[id])
			}
			return 0
		}
	}
	B("bigIntGetUnsignedArgument", "BigIntGetUnsignedArgument", bigArg(false))
	B("bigIntGetSignedArgument", "BigIntGetSignedArgument", bigArg(true))
	B("bigIntStorageStoreUnsigned", "BigIntStorageStoreUnsigned", func(m *Model, f *frame, a args) uint64 {
		k := m.load(f, a.i32(0), a.i32(1))
		return ret32(m.setStorage(f, k, f.big.get(a.i32(2)).Bytes(), false))
	})
	B("bigIntStorageLoadUnsigned", "BigIntStorageLoadUnsigned", func(m *Model, f *frame, a args) uint64 {
		b := m.getStorage(f, f.store, m.load(f, a.i32(0), a.i32(1)))
		f.big.get(a.i32(2)).SetBytes(b)
		return uint64(len(b))
	})
	B("bigIntGetCallValue", "BigIntGetCallValue", func(m *Model, f *frame, a args) uint64 {
		f.big.get(a.i32(0)).Set(f.value)
		return 0
	})
	B("bigIntGetExternalBalance", "BigIntGetExternalBalance", func(m *Model, f *frame, a args) uint64 {
		b := m.balance(m.load(f, a.i32(0), 32))
		f.big.get(a.i32(1)).Set(b)
		return 0
	})
	B("bigIntNew", "BigIntNew", func(m *Model, f *frame, a args) uint64 { return ret32(f.big.put(a.i64(0))) })
	B("bigIntUnsignedByteLength", "BigIntUnsignedByteLength", func(m *Model, f *frame, a args) uint64 {
		return uint64(len(f.big.get(a.i32(0)).Bytes()))
	})
	B("bigIntSignedByteLength", "BigIntSignedByteLength", func(m *Model, f *frame, a args) uint64 {
		return uint64(len(TwosBytes(f.big.get(a.i32(0)))))
	})
	getB := func(signed bool) hostFn {
		return func(m *Model, f *frame, a args) uint64 {
			v := f.big.get(a.i32(0))
			b := v.Bytes()
			if signed {
				b = TwosBytes(v)
			}
			m.put(f, a.i32(1), b)
			m.perByte(f, "DataCopyPerByte", int64(len(b)))
			return uint64(len(b))
		}
	}
	B("bigIntGetUnsignedBytes", "BigIntGetUnsignedBytes", getB(false))
	B("bigIntGetSignedBytes", "BigIntGetSignedBytes", getB(true))
	setB := func(signed bool) hostFn {
		return func(m *Model, f *frame, a args) uint64 {
			b := m.load(f, a.i32(1), a.i32(2))
			if signed {
				f.big.get(a.i32(0)).Set(TwosInt(b))
			} else {
				f.big.get(a.i32(0)).SetBytes(b)
			}
			m.perByte(f, "DataCopyPerByte", int64(len(b)))
			return 0
		}
	}
	B("bigIntSetUnsignedBytes", "BigIntSetUnsignedBytes", setB(false))
	B("bigIntSetSignedBytes", "BigIntSetSignedBytes", setB(true))
	B("bigIntIsInt64", "BigIntIsInt64", func(m *Model, f *frame, a args) uint64 {
		if f.big.get(a.i32(0)).IsInt64() {
			return 1
		}
		return 0
	})
	B("bigIntGetInt64", "BigIntGetInt64", func(m *Model, f *frame, a args) uint64 {
		// the low 64 bits, in two's complement
		v := f.big.get(a.i32(0))
		w := new(big.Int).Mod(v, new(big.Int).Lsh(big.NewInt(1), 64))
		return w.Uint64()
	})
	B("bigIntSetInt64", "BigIntSub", func(m *Model, f *frame, a args) uint64 {
		f.big.get(a.i32(0)).SetInt64(a.i64(1))
		return 0
	})
	op3 := func(name, cost string, chargeDest, div, bitwise bool, op func(a, b *big.Int) *big.Int) {
		B(name, cost, func(m *Model, f *frame, a args) uint64 {
			d, x, y := f.big.get(a.i32(0)), f.big.get(a.i32(1)), f.big.get(a.i32(2))
			if chargeDest {
				m.bigExtra(f, d)
			}
			m.bigExtra(f, x, y)
			if div && y.Sign() == 0 {
				m.fault(arwen.ErrDivZero)
			}
			if bitwise && (x.Sign() < 0 || y.Sign() < 0) {
				m.fault(arwen.ErrBitwiseNegative)
			}
			d.Set(op(new(big.Int).Set(x), new(big.Int).Set(y)))
			return 0
		})
	}
	op3("bigIntAdd", "BigIntSub", true, false, false, func(a, b *big.Int) *big.Int { return a.Add(a, b) })
	op3("bigIntSub", "BigIntSub", true, false, false, func(a, b *big.Int) *big.Int { return a.Sub(a, b) })
	op3("bigIntMul", "BigIntMul", true, false, false, func(a, b *big.Int) *big.Int { return a.Mul(a, b) })
	tdiv := func(a, b *big.Int) (q, r *big.Int) {
		q, r = new(big.Int).DivMod(new(big.Int).Abs(a), new(big.Int).Abs(b), new(big.Int))
		if a.Sign()*b.Sign() < 0 {
			q.Neg(q)
		}
		if a.Sign() < 0 {
			r.Neg(r)
		}
		return
	}
	ediv := func(a, b *big.Int) (q, r *big.Int) {
		q, r = tdiv(a, b)
		if r.Sign() < 0 {
			if b.Sign() > 0 {
				q.Sub(q, big.NewInt(1))
				r.Add(r, b)
			} else {
				q.Add(q, big.NewInt(1))
				r.Sub(r, b)
			}
		}
		return
	}
	op3("bigIntTDiv", "BigIntTDiv", true, true, false, func(a, b *big.Int) *big.Int { q, _ := tdiv(a, b); return q })
	op3("bigIntTMod", "BigIntSub", true, true, false, func(a, b *big.Int) *big.Int { _, r := tdiv(a, b); return r })
	op3("bigIntEDiv", "BigIntSub", true, true, false, func(a, b *big.Int) *big.Int { q, _ := ediv(a, b); return q })
	op3("bigIntEMod", "BigIntSub", true, true, false, func(a, b *big.Int) *big.Int { _, r := ediv(a, b); return r })
	bits := func(g func(x, y uint) uint) func(a, b *big.Int) *big.Int {
		return func(a, b *big.Int) *big.Int {
			n := a.BitLen()
			if b.BitLen() > n {
				n = b.BitLen()
			}
			r := new(big.Int)
			for i := 0; i < n; i++ {
				r.SetBit(r, i, g(a.Bit(i), b.Bit(i)))
			}
			return r
		}
	}
	op3("bigIntAnd", "BigIntSub", false, false, true, bits(func(x, y uint) uint { return x & y }))
	op3("bigIntOr", "BigIntSub", false, false, true, bits(func(x, y uint) uint { return x | y }))
	op3("bigIntXor", "BigIntSub", false, false, true, bits(func(x, y uint) uint { return x ^ y }))
	op2 := func(name string, neg error, op func(a *big.Int) *big.Int) {
		B(name, "BigIntSub", func(m *Model, f *frame, a args) uint64 {
			d, x := f.big.get(a.i32(0)), f.big.get(a.i32(1))
			m.bigExtra(f, d, x)
			if neg != nil && x.Sign() < 0 {
				m.fault(neg)
			}
			d.Set(op(new(big.Int).Set(x)))
			return 0
		})
	}
	op2("bigIntAbs", nil, func(a *big.Int) *big.Int {
		if a.Sign() < 0 {
			return a.Sub(new(big.Int), a)
		}
		return a
	})
	op2("bigIntNeg", nil, func(a *big.Int) *big.Int { return a.Sub(new(big.Int), a) })
	op2("bigIntNot", arwen.ErrBitwiseNegative, func(a *big.Int) *big.Int { return a.Sub(big.NewInt(-1), a) })
	shift := func(name string, left bool) {
		B(name, "BigIntSub", func(m *Model, f *frame, a args) uint64 {
			d, x, n := f.big.get(a.i32(0)), f.big.get(a.i32(1)), a.i32(2)
			m.bigExtra(f, x)
			if x.Sign() < 0 || n < 0 {
				m.fault(arwen.ErrShiftNegative)
			}
			if left && n > 1<<20 {
				m.skip("huge shift")
			}
			p := new(big.Int).Exp(big.NewInt(2), big.NewInt(int64(min32(n, 1<<20))), nil)
			if left {
				d.Set(new(big.Int).Mul(x, p))
			} else {
				d.Set(new(big.Int).Div(x, p))
			}
			m.bigExtra(f, d)
			return 0
		})
	}
	shift("bigIntShl", true)
	shift("bigIntShr", false)
	B("bigIntSign", "BigIntSign", func(m *Model, f *frame, a args) uint64 {
		x := f.big.get(a.i32(0))
		m.bigExtra(f, x)
		return ret32(int32(x.Sign()))
	})
	B("bigIntCmp", "BigIntCmp", func(m *Model, f *frame, a args) uint64 {
		x, y := f.big.get(a.i32(0)), f.big.get(a.i32(1))
		m.bigExtra(f, x, y)
		return ret32(int32(new(big.Int).Sub(x, y).Sign()))
	})
	finB := func(signed bool) hostFn {
		return func(m *Model, f *frame, a args) uint64 {
			v := f.big.get(a.i32(0))
			b := v.Bytes()
			if signed {
				b = TwosBytes(v)
			}
			m.St.Ret = append(m.St.Ret, b)
			m.perByte(f, "PersistPerByte", int64(len(b)))
			return 0
		}
	}
	B("bigIntFinishUnsigned", "BigIntFinishUnsigned", finB(false))
	B("bigIntFinishSigned", "BigIntFinishSigned", finB(true))

	// crypto
	hash := func(name, cost string, h func([]byte) []byte) {
		hostFns[name] = func(m *Model, f *frame, a args) uint64 {
			f.use(satAdd(m.cost("CryptoAPICost", cost), satMul(m.base("DataCopyPerByte"), uint64(int64(a.i32(1))))))
			data := m.load(f, a.i32(0), a.i32(1))
			m.put(f, a.i32(2), h(data))
			return 0
		}
	}
	hash("sha256", "SHA256", func(b []byte) []byte { s := sha256.Sum256(b); return s[:] })
	hash("keccak256", "Keccak256", func(b []byte) []byte {
		h := sha3.NewLegacyKeccak256()
		h.Write(b)
		return h.Sum(nil)
	})
	hash("ripemd160", "Ripemd160", func(b []byte) []byte {
		h := ripemd160.New()
		h.Write(b)
		return h.Sum(nil)
	})
}

func min32(a, b int32) int32 {
	if a < b {
		return a
	}
	return b
}

func (m *Model) log(f *frame, topics [][]byte, data []byte) {
	if f.readOnly {
		m.Calls["log refused: read-only"]++
		return
	}
	l := MLog{Addr: f.self, Data: data}
	if len(topics) > 0 {
		l.Ident, l.Topics = topics[0], topics[1:]
	}
	m.St.Logs = append(m.St.Logs, l)
}
