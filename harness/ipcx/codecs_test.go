//go:build go1.21

package ipcx

import (
	"errors"
	"fmt"
	"math/big"
	"os"
	"reflect"
	"strings"
	"testing"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/config"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/ipc/common"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/ipc/marshaling"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/zzverif/vh"
	vmcommon "github.com/ElrondNetwork/elrond-vm-common"
	"pgregory.net/rapid"
)

// TestCodecs: what is encoded decodes to an equal message of the same kind and type
func TestCodecs(t *testing.T) {
	vh.Rule("C26", "a message, an output, an account, arguments or a byte string with at least one non-empty field beyond kind and nonce; byte strings count when they differ from every well-formed encoding they were made from")
	vh.Check(t, func(rt *rapid.T) {
		switch rapid.IntRange(0, 9).Draw(rt, "what") {
		case 0, 1:
			outputs(rt)
		case 2:
			noise(rt)
		case 3:
			arguments(rt)
		default:
			messages(rt)
		}
	})
	if !vh.Replaying() {
		pinned(t)
	}
}

func messages(rt *rapid.T) {
	e := rapid.SampledFrom(encodings).Draw(rt, "encoding")
	k := kinds[rapid.IntRange(0, len(kinds)-1).Draw(rt, "kind")]
	m := k.make()
	if m.GetKind() != k.kind {
		rt.Fatalf("the constructor of kind %d makes a message of kind %d", k.kind, m.GetKind())
	}
	f := &filler{rt: rt, text: e.kind == marshaling.JSON}
	f.message(m)
	if m.GetKind() != k.kind {
		rt.Fatalf("INFRA: the filler changed the kind")
	}
	want := show(m)
	codec := marshaling.CreateMarshalizer(e.kind)
	data, err := codec.Marshal(m)
	if err != nil {
		rt.Fatalf("%s cannot encode %T: %v\n%s", e.name, m, err, short(want))
	}
	if show(m) != want {
		rt.Fatalf("encoding changes the message")
	}
	r := common.CreateMessage(k.kind)
	if err = codec.Unmarshal(r, data); err != nil {
		rt.Fatalf("%s cannot decode %T into %T: %v\n%s", e.name, m, r, err, short(want))
	}
	if reflect.TypeOf(r) != reflect.TypeOf(m) || show(r) != want {
		rt.Fatalf("%s: decoded %T differs from the encoded %T\nsent %s\ngot  %s", e.name, r, m, short(want), short(show(r)))
	}
	if r.GetKind() != k.kind || r.GetNonce() != m.GetNonce() || fmt.Sprint(r.GetError()) != fmt.Sprint(m.GetError()) {
		rt.Fatalf("%s: kind, nonce or error differ: %d %d %v", e.name, r.GetKind(), r.GetNonce(), r.GetError())
	}
	_ = r.DebugString()
	vh.Class(fmt.Sprintf("%s kind %d", e.name, k.kind))
	vh.Case(f.content > 0 || m.GetError() != nil, "message", want+e.name, func() string { return e.name + " " + short(want) })
}

// outputs: outputs and states are what they were after being made serialisable, sent and converted back
func outputs(rt *rapid.T) {
	e := rapid.SampledFrom(encodings).Draw(rt, "encoding")
	codec := marshaling.CreateMarshalizer(e.kind)
	f := &filler{rt: rt, text: e.kind == marshaling.JSON}
	text := f.str("failure")
	var failure error
	if rapid.Bool().Draw(rt, "with failure") {
		failure = errors.New(text)
	}
	out := &vmcommon.VMOutput{}
	f.fill(reflect.ValueOf(out).Elem(), "output", 0)
	tidy(out)
	want := show(out)
	account := &common.Account{}
	f.fill(reflect.ValueOf(account).Elem(), "account", 0)
	state := map[string][]byte{}
	for i := 0; i < rapid.IntRange(0, 4).Draw(rt, "state entries"); i++ {
		state[string(f.bytes("state key"))] = f.bytes("state value")
	}
	send := func(m common.MessageHandler) common.MessageHandler {
		data, err := codec.Marshal(m)
		if err != nil {
			rt.Fatalf("%s cannot encode %T: %v", e.name, m, err)
		}
		r := common.CreateMessage(m.GetKind())
		if err = codec.Unmarshal(r, data); err != nil {
			rt.Fatalf("%s cannot decode %T: %v", e.name, m, err)
		}
		if fmt.Sprint(m.GetError()) != fmt.Sprint(r.GetError()) {
			rt.Fatalf("error %v becomes %v", m.GetError(), r.GetError())
		}
		return r
	}
	got := send(common.NewMessageContractResponse(out, failure))
	if failure != nil && text != "" && (got.GetError() == nil || got.GetError().Error() != text) {
		rt.Fatalf("error %q becomes %v", text, got.GetError())
	}
	if s := show(got.(*common.MessageContractResponse).SerializableVMOutput.ConvertToVMOutput()); s != want {
		rt.Fatalf("%s: output changed\nsent %s\ngot  %s", e.name, want, s)
	}
	got = send(common.NewMessageBlockchainProcessBuiltInFunctionResponse(out, failure))
	if s := show(got.(*common.MessageBlockchainProcessBuiltInFunctionResponse).VmOutput.ConvertToVMOutput()); s != want {
		rt.Fatalf("%s: output of a builtin function changed\nsent %s\ngot  %s", e.name, want, s)
	}
	got = send(common.NewMessageBlockchainGetAllStateResponse(state, failure))
	if s := show(got.(*common.MessageBlockchainGetAllStateResponse).Result.ConvertToMap()); s != show(state) {
		rt.Fatalf("%s: state changed\nsent %s\ngot  %s", e.name, show(state), s)
	}
	got = send(common.NewMessageBlockchainGetUserAccountResponse(account, failure))
	a := got.(*common.MessageBlockchainGetUserAccountResponse).Result
	orZero := func(x *big.Int) *big.Int {
		if x == nil {
			return new(big.Int)
		}
		return x
	}
	same := a.GetNonce() == account.Nonce && a.GetBalance().Cmp(orZero(account.Balance)) == 0 && a.GetDeveloperReward().Cmp(orZero(account.DeveloperReward)) == 0 &&
		string(a.AddressBytes()) == string(account.Address) && string(a.GetCodeHash()) == string(account.CodeHash) && string(a.GetRootHash()) == string(account.RootHash) &&
		string(a.GetOwnerAddress()) == string(account.OwnerAddress) && string(a.GetUserName()) == string(account.UserName) && string(a.GetCodeMetadata()) == string(account.CodeMetadata)
	if !same || a.IsInterfaceNil() {
		rt.Fatalf("%s: account changed\nsent %s\ngot  %s", e.name, show(account), show(a))
	}
	vh.Case(f.content > 0, "output", want, func() string { return e.name + " output " + short(want) })
}

// tidy makes the keys of the maps those they are kept under
func tidy(out *vmcommon.VMOutput) {
	accounts := map[string]*vmcommon.OutputAccount{}
	for _, a := range out.OutputAccounts {
		if a == nil {
			continue
		}
		updates := map[string]*vmcommon.StorageUpdate{}
		for _, u := range a.StorageUpdates {
			if u != nil {
				updates[string(u.Offset)] = u
			}
		}
		a.StorageUpdates = updates
		accounts[string(a.Address)] = a
	}
	out.OutputAccounts = accounts
}

// noise: decoding bytes that no sender made gives an error or a message
func noise(rt *rapid.T) {
	e := rapid.SampledFrom(encodings).Draw(rt, "encoding")
	codec := marshaling.CreateMarshalizer(e.kind)
	k := kinds[rapid.IntRange(0, len(kinds)-1).Draw(rt, "kind")]
	var data []byte
	if rapid.IntRange(0, 3).Draw(rt, "mutated") > 0 {
		m := k.make()
		f := &filler{rt: rt, text: true}
		f.message(m)
		good, err := codec.Marshal(m)
		if err != nil {
			rt.Fatalf("%s cannot encode %T: %v", e.name, m, err)
		}
		data = append([]byte{}, good...)
		for i := rapid.IntRange(1, 4).Draw(rt, "mutations"); i > 0 && len(data) > 0; i-- {
			at := rapid.IntRange(0, len(data)-1).Draw(rt, "at")
			switch rapid.IntRange(0, 3).Draw(rt, "mutation") {
			case 0:
				data[at] = rapid.Byte().Draw(rt, "byte")
			case 1:
				data = data[:at]
			case 2:
				data = append(data[:at], data[at+1:]...)
			case 3:
				data = append(append(append([]byte{}, data[:at]...), rapid.SliceOfN(rapid.Byte(), 1, 4).Draw(rt, "inserted")...), data[at:]...)
			}
		}
		if rapid.IntRange(0, 5).Draw(rt, "other kind") == 0 {
			k = kinds[rapid.IntRange(0, len(kinds)-1).Draw(rt, "decoded as")]
		}
	} else {
		data = rapid.SliceOf(rapid.Byte()).Draw(rt, "bytes")
	}
	kind := k.kind
	if rapid.IntRange(0, 9).Draw(rt, "strange kind") == 0 {
		kind = common.MessageKind(f32(rt))
	}
	r := common.CreateMessage(kind)
	if r == nil {
		rt.Fatalf("no message for kind %d", kind)
	}
	err := codec.Unmarshal(r, data)
	_, _, _, _ = r.DebugString(), r.GetKindName(), r.GetError(), r.GetNonce()
	how := "refused"
	if err == nil {
		how = "decoded"
	}
	vh.Case(true, "noise "+how, e.name+string(data), func() string {
		return fmt.Sprintf("%s noise %s (kind %d): %q", e.name, how, kind, short(string(data)))
	})
}

func f32(rt *rapid.T) uint32 {
	return rapid.SampledFrom([]uint32{0, uint32(common.LastKind) - 1, uint32(common.LastKind), uint32(common.LastKind) + 1, 1 << 31, 1<<32 - 1}).Draw(rt, "kind number")
}

// arguments: the initialisation arguments arrive over their pipe as they were sent
func arguments(rt *rapid.T) {
	f := &filler{rt: rt, text: true}
	args := common.ArwenArguments{}
	f.fill(reflect.ValueOf(&args).Elem(), "arguments", 0)
	args.LogsMarshalizer = rapid.SampledFrom([]marshaling.MarshalizerKind{marshaling.JSON, marshaling.Gob}).Draw(rt, "logs")
	args.MessagesMarshalizer = rapid.SampledFrom([]marshaling.MarshalizerKind{marshaling.JSON, marshaling.Gob}).Draw(rt, "messages")
	if rapid.Bool().Draw(rt, "real schedule") {
		args.GasSchedule = config.MakeGasMapForTests()
	}
	name := rapid.SampledFrom([]string{"json", "JSON", " Json ", "gob", "GOB", " gob", "", "xml"}).Draw(rt, "name")
	expected := marshaling.JSON
	if strings.Contains(strings.ToLower(name), "gob") {
		expected = marshaling.Gob
	}
	if marshaling.ParseKind(name) != expected {
		rt.Fatalf("encoding %q is read as %d", name, marshaling.ParseKind(name))
	}
	want := show(args)
	in, out, err := os.Pipe()
	if err != nil {
		rt.Fatalf("INFRA: %v", err)
	}
	defer in.Close()
	sent := make(chan error, 1)
	go func() {
		e := common.SendArwenArguments(out, args)
		_ = out.Close()
		sent <- e
	}()
	got, err := common.GetArwenArguments(in)
	_ = in.Close()
	if e := <-sent; e != nil || err != nil {
		rt.Fatalf("arguments not transferred: %v, %v", e, err)
	}
	if show(*got) != want {
		rt.Fatalf("arguments changed\nsent %s\ngot  %s", short(want), short(show(*got)))
	}
	vh.Case(true, "arguments", want, func() string { return short(want) })
}

// pinned shows the known findings
func pinned(t *testing.T) {
	codec := marshaling.CreateMarshalizer(marshaling.JSON)
	m := common.NewMessageContractCallRequest(&vmcommon.ContractCallInput{Function: "f\xff"})
	data, err := codec.Marshal(m)
	r := common.NewMessageContractCallRequest(nil)
	if err == nil {
		err = codec.Unmarshal(r, data)
	}
	if err != nil {
		t.Fatalf("INFRA: %v", err)
	}
	if r.CallInput.Function != m.CallInput.Function {
		vh.Known(t, "C26", "json-text", fmt.Sprintf("in the JSON encoding a call request's Function %q arrives as %q: bytes that are no UTF-8 text are replaced (so are those of return and error messages)", m.CallInput.Function, r.CallInput.Function))
	}
}
