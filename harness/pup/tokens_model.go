//go:build go1.21

package pup

import (
	"encoding/hex"
	"math/big"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwen"
	vmcommon "github.com/ElrondNetwork/elrond-vm-common"
	"github.com/ElrondNetwork/elrond-vm-common/data/esdt"
	"github.com/ElrondNetwork/elrond-vm-common/parsers"
)

// after is the call that follows a function of the protocol.
func (m *Model) after(in *vmcommon.ContractCallInput, out *vmcommon.VMOutput) (*vmcommon.ContractCallInput, error) {
	to := in.RecipientAddr
	t := &vmcommon.ESDTTransfer{ESDTTokenName: in.Arguments[0]}
	if in.Function == FnNFTTransfer {
		to = in.Arguments[3]
		t.ESDTTokenNonce = new(big.Int).SetBytes(in.Arguments[1]).Uint64()
		t.ESDTValue = new(big.Int).SetBytes(in.Arguments[2])
		t.ESDTTokenType = uint32(vmcommon.NonFungible)
	} else {
		t.ESDTValue = new(big.Int).SetBytes(in.Arguments[1])
	}
	oa := out.OutputAccounts[string(to)]
	if ShardOf(to) != ShardOf(in.CallerAddr) || !IsSC(to) || oa == nil || len(oa.OutputTransfers) != 1 {
		return nil, nil
	}
	x := oa.OutputTransfers[0]
	fn, args, err := parsers.NewCallArgsParser().ParseData(string(x.Data))
	if err != nil {
		return nil, err
	}
	return &vmcommon.ContractCallInput{
		VMInput: vmcommon.VMInput{CallerAddr: in.CallerAddr, Arguments: args, CallValue: big.NewInt(0), CallType: in.CallType,
			GasPrice: in.GasPrice, GasProvided: x.GasLimit, GasLocked: x.GasLocked, OriginalTxHash: in.OriginalTxHash,
			CurrentTxHash: in.CurrentTxHash, ESDTTransfers: []*vmcommon.ESDTTransfer{t}},
		RecipientAddr: to, Function: fn}, nil
}

func (m *Model) protocolLogs(out *vmcommon.VMOutput) {
	for _, l := range out.Logs {
		m.St.Logs = append(m.St.Logs, MLog{Addr: l.Address, Ident: l.Identifier, Data: l.Data, Topics: l.Topics})
	}
}

// execProtocol is a function of the protocol carried out for a contract.
func (m *Model) execProtocol(parent *frame, in *vmcommon.ContractCallInput) Result {
	saved := m.St
	m.St = saved.clone()
	refuse := func(err error) Result {
		m.St = saved
		parent.use(in.GasProvided)
		m.Calls["token-refused: "+err.Error()]++
		return m.failure(err)
	}
	if parent.readOnly {
		m.Calls["token transfer refused: read-only"]++
		return refuse(arwen.ErrInvalidCallOnReadOnlyMode)
	}
	out, err := m.W.protocol(m.St.Tok, in)
	if err != nil {
		return refuse(err)
	}
	then, err := m.after(in, out)
	if err != nil {
		return refuse(err)
	}
	m.Calls["token"]++
	used := in.GasProvided - out.GasRemaining
	if then != nil {
		used -= then.GasProvided
	}
	parent.use(used)
	m.St.Msg = ""
	first := len(m.St.Xfers)
	if then == nil {
		for _, k := range sortedKeys(out.OutputAccounts) {
			for _, x := range out.OutputAccounts[k].OutputTransfers {
				m.St.Xfers = append(m.St.Xfers, MTransfer{To: []byte(k), Sender: x.SenderAddress, Value: x.Value, Gas: x.GasLimit,
					Lock: x.GasLocked, Data: x.Data, Type: x.CallType})
				parent.xferGas += x.GasLimit + x.GasLocked
			}
		}
	}
	m.protocolLogs(out)
	to := in.RecipientAddr
	if in.Function == FnNFTTransfer {
		to = in.Arguments[3]
	}
	if ShardOf(to) == ShardOf(in.CallerAddr) {
		m.St.Xfers = append(m.St.Xfers, MTransfer{To: to, Sender: in.CallerAddr, Value: new(big.Int),
			Data: hexArgs([]byte(in.Function), in.Arguments), Type: in.CallType})
	}
	if then == nil {
		return Result{Code: vmcommon.Ok, Remaining: out.GasRemaining, xfers: m.St.Xfers[first:]}
	}
	r := m.execCode(parent, then)
	m.count("token-call", r)
	if r.Err != nil {
		m.St = saved
	}
	return r
}

// sendToken is a contract sending a token, and calling the receiver if asked to.
func (m *Model) sendToken(f *frame, token []byte, nonce uint64, gas int64, i indirect) uint64 {
	f.use(m.api("TransferValue"))
	before := m.St.clone()
	calling := len(i.fn) > 0
	here, sc := ShardOf(i.dest) == ShardOf(f.self), IsSC(i.dest)
	bound := f.bound(gas)
	refuse := func(err error) {
		m.Calls["token-refused: "+err.Error()]++
		m.fault(err)
	}
	if f.readOnly {
		m.Calls["token transfer refused: read-only"]++
		refuse(arwen.ErrInvalidCallOnReadOnlyMode)
	}
	in := &vmcommon.ContractCallInput{
		VMInput: vmcommon.VMInput{CallerAddr: f.self, Arguments: [][]byte{token, i.value.Bytes()}, CallValue: new(big.Int),
			GasPrice: f.gasPrice, GasProvided: f.left()},
		RecipientAddr: i.dest, Function: FnTransfer}
	t := &vmcommon.ESDTTransfer{ESDTTokenName: token, ESDTValue: i.value, ESDTTokenNonce: nonce}
	if nonce > 0 {
		in.Function, in.RecipientAddr = FnNFTTransfer, f.self
		in.Arguments = [][]byte{token, new(big.Int).SetUint64(nonce).Bytes(), i.value.Bytes(), i.dest}
		t.ESDTTokenType = uint32(vmcommon.NonFungible)
	}
	if calling && sc {
		in.CallType = vmcommon.ESDTTransferAndExecute
	}
	out, err := m.W.protocol(m.St.Tok, in)
	if err != nil {
		refuse(err)
	}
	used := in.GasProvided - out.GasRemaining
	for _, oa := range out.OutputAccounts {
		for _, x := range oa.OutputTransfers {
			used -= x.GasLimit
		}
	}
	f.use(used)
	left := uint64(0)
	if calling && sc {
		if used > bound || bound-used > f.left() {
			refuse(arwen.ErrNotEnoughGas)
		}
		left = bound - used
	}
	x := MTransfer{To: i.dest, Sender: f.self, Value: new(big.Int), Data: hexArgs([]byte(in.Function), in.Arguments)}
	if !here {
		f.use(left)
		x.Gas = left
		f.xferGas += left
		if nonce > 0 {
			x.Data = out.OutputAccounts[string(i.dest)].OutputTransfers[0].Data
		}
	}
	if calling {
		x.Data = append(append([]byte{}, x.Data...), hexArgs([]byte("@"+hex.EncodeToString(i.fn)), i.args)...)
	}
	m.St.Xfers = append(m.St.Xfers, x)
	m.protocolLogs(out)
	m.Calls["token"]++
	if !here {
		m.Calls["token-out"]++
	}
	if here && sc && calling {
		r := m.execDest(f, &vmcommon.ContractCallInput{
			VMInput: vmcommon.VMInput{CallerAddr: f.self, Arguments: i.args, CallValue: new(big.Int), GasProvided: left,
				ESDTTransfers: []*vmcommon.ESDTTransfer{t}},
			RecipientAddr: i.dest, Function: string(i.fn)})
		m.count("token-call", r)
		if r.Err != nil {
			m.St = before
			return 1
		}
	}
	return 0
}

func (m *Model) tokenQuery(f *frame, addr, id, n int32, nonce int64) *esdt.ESDigitalToken {
	f.use(m.api("GetExternalBalance"))
	who := m.load(f, addr, 32)
	t, _ := m.W.token(m.St.Tok, who, StorageKeyOf(m.load(f, id, n), uint64(nonce)))
	return t
}

func (f *frame) token() *vmcommon.ESDTTransfer {
	if len(f.esdt) > 0 {
		return f.esdt[0]
	}
	return &vmcommon.ESDTTransfer{ESDTValue: new(big.Int)}
}

func init() {
	E := func(name, cost string, h hostFn) {
		hostFns[name] = func(m *Model, f *frame, a args) uint64 {
			if cost != "" {
				f.use(m.api(cost))
			}
			return h(m, f, a)
		}
	}
	E("transferESDT", "TransferValue", func(m *Model, f *frame, a args) uint64 {
		m.perByte(f, "PersistPerByte", int64(a.i32(6)))
		return 1
	})
	E("transferESDTExecute", "", func(m *Model, f *frame, a args) uint64 {
		token := m.load(f, a.i32(1), a.i32(2))
		i := m.indirect(f, a.i32(0), a.i32(3), true, a.i32(5), a.i32(6), a.i32(7), a.i32(8), a.i32(9))
		m.chargeAgain(f, i)
		return m.sendToken(f, token, 0, a.i64(4), i)
	})
	E("transferESDTNFTExecute", "", func(m *Model, f *frame, a args) uint64 {
		token := m.load(f, a.i32(1), a.i32(2))
		i := m.indirect(f, a.i32(0), a.i32(3), true, a.i32(6), a.i32(7), a.i32(8), a.i32(9), a.i32(10))
		m.chargeAgain(f, i)
		return m.sendToken(f, token, uint64(a.i64(4)), a.i64(5), i)
	})
	E("getESDTBalance", "", func(m *Model, f *frame, a args) uint64 {
		v := m.tokenQuery(f, a.i32(0), a.i32(1), a.i32(2), a.i64(3)).Value.Bytes()
		m.put(f, a.i32(4), v)
		return uint64(len(v))
	})
	length := func(name string, of func(d *esdt.MetaData) int) {
		E(name, "", func(m *Model, f *frame, a args) uint64 {
			t := m.tokenQuery(f, a.i32(0), a.i32(1), a.i32(2), a.i64(3))
			if t.TokenMetaData == nil {
				return 0
			}
			return uint64(of(t.TokenMetaData))
		})
	}
	length("getESDTNFTNameLength", func(d *esdt.MetaData) int { return len(d.Name) })
	length("getESDTNFTAttributeLength", func(d *esdt.MetaData) int { return len(d.Attributes) })
	length("getESDTNFTURILength", func(d *esdt.MetaData) int {
		if len(d.URIs) == 0 {
			return 0
		}
		return len(d.URIs[0])
	})
	E("getESDTTokenData", "", func(m *Model, f *frame, a args) uint64 {
		t := m.tokenQuery(f, a.i32(0), a.i32(1), a.i32(2), a.i64(3))
		f.big.get(a.i32(4)).Set(t.Value)
		m.put(f, a.i32(5), t.Properties)
		if d := t.TokenMetaData; d != nil {
			m.put(f, a.i32(6), d.Hash)
			m.put(f, a.i32(7), d.Name)
			m.put(f, a.i32(8), d.Attributes)
			m.put(f, a.i32(9), d.Creator)
			f.big.get(a.i32(10)).SetUint64(uint64(d.Royalties))
			if len(d.URIs) > 0 {
				m.put(f, a.i32(11), d.URIs[0])
			}
		}
		return uint64(len(t.Value.Bytes()))
	})
	hostFns["bigIntGetESDTExternalBalance"] = func(m *Model, f *frame, a args) uint64 {
		m.bigAPI(f, "BigIntGetExternalBalance")
		t := m.tokenQuery(f, a.i32(0), a.i32(1), a.i32(2), a.i64(3))
		f.big.get(a.i32(4)).Set(t.Value)
		return 0
	}
	hostFns["bigIntGetESDTCallValue"] = func(m *Model, f *frame, a args) uint64 {
		m.bigAPI(f, "BigIntGetCallValue")
		f.big.get(a.i32(0)).Set(f.token().ESDTValue)
		return 0
	}
	E("getESDTValue", "GetCallValue", func(m *Model, f *frame, a args) uint64 {
		if v := f.token().ESDTValue; v.Sign() > 0 {
			b := pad32(v.Bytes())
			m.put(f, a.i32(0), b)
			return uint64(len(b))
		}
		return 0
	})
	E("getESDTTokenName", "GetCallValue", func(m *Model, f *frame, a args) uint64 {
		m.put(f, a.i32(0), f.token().ESDTTokenName)
		return uint64(len(f.token().ESDTTokenName))
	})
	E("getESDTTokenNonce", "GetCallValue", func(m *Model, f *frame, a args) uint64 { return f.token().ESDTTokenNonce })
	E("getESDTTokenType", "GetCallValue", func(m *Model, f *frame, a args) uint64 { return uint64(f.token().ESDTTokenType) })
	E("getCallValueTokenName", "GetCallValue", func(m *Model, f *frame, a args) uint64 {
		v, name := f.value, f.token().ESDTTokenName
		if len(name) > 0 {
			v = f.token().ESDTValue
		}
		m.put(f, a.i32(1), name)
		if v.Sign() > 0 { // nothing at all for zero
			m.put(f, a.i32(0), pad32(v.Bytes()))
		}
		return uint64(len(name))
	})
	E("getCurrentESDTNFTNonce", "StorageLoad", func(m *Model, f *frame, a args) uint64 {
		for _, r := range [][2]int32{{a.i32(0), 32}, {a.i32(1), a.i32(2)}} {
			if r[1] < 0 || r[1] > 0 && (r[0] < 0 || uint64(r[0]) > uint64(len(f.mem))) {
				return 0
			}
		}
		who, id := m.load(f, a.i32(0), 32), m.load(f, a.i32(1), a.i32(2))
		return new(big.Int).SetBytes(m.getStorage(f, who, append([]byte("ELRONDnonce"), id...))).Uint64()
	})
}

// chargeAgain: the arguments of a call with a token are charged for twice.
func (m *Model) chargeAgain(f *frame, i indirect) {
	n := 0
	for _, a := range i.args {
		n += len(a)
	}
	m.perByte(f, "DataCopyPerByte", int64(n))
}
