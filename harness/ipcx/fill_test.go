//go:build go1.21

package ipcx

import (
	"errors"
	"fmt"
	"math/big"
	"reflect"
	"sort"
	"testing"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/ipc/common"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/ipc/marshaling"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/zzverif/vh"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { vh.Main(m) }

// kinds: for each kind of message, what its constructor makes. Everything else about a message (which type an incoming
// message of the kind is decoded into, and how) is what is being checked.
var kinds = []struct {
	kind common.MessageKind
	make func() common.MessageHandler
}{
	{common.Initialize, func() common.MessageHandler { return common.NewMessageInitialize(common.ArwenArguments{}) }},
	{common.Stop, func() common.MessageHandler { return common.NewMessageStop() }},
	{common.ContractDeployRequest, func() common.MessageHandler { return common.NewMessageContractDeployRequest(nil) }},
	{common.ContractCallRequest, func() common.MessageHandler { return common.NewMessageContractCallRequest(nil) }},
	{common.ContractResponse, func() common.MessageHandler { return common.NewMessageContractResponse(nil, nil) }},
	{common.GasScheduleChangeRequest, func() common.MessageHandler { return common.NewMessageGasScheduleChangeRequest(nil) }},
	{common.GasScheduleChangeResponse, func() common.MessageHandler { return common.NewGasScheduleChangeResponse() }},
	{common.BlockchainNewAddressRequest, func() common.MessageHandler { return common.NewMessageBlockchainNewAddressRequest(nil, 0, nil) }},
	{common.BlockchainNewAddressResponse, func() common.MessageHandler { return common.NewMessageBlockchainNewAddressResponse(nil, nil) }},
	{common.BlockchainGetStorageDataRequest, func() common.MessageHandler { return common.NewMessageBlockchainGetStorageDataRequest(nil, nil) }},
	{common.BlockchainGetStorageDataResponse, func() common.MessageHandler { return common.NewMessageBlockchainGetStorageDataResponse(nil, nil) }},
	{common.BlockchainGetBlockhashRequest, func() common.MessageHandler { return common.NewMessageBlockchainGetBlockhashRequest(0) }},
	{common.BlockchainGetBlockhashResponse, func() common.MessageHandler { return common.NewMessageBlockchainGetBlockhashResponse(nil, nil) }},
	{common.BlockchainLastNonceRequest, func() common.MessageHandler { return common.NewMessageBlockchainLastNonceRequest() }},
	{common.BlockchainLastNonceResponse, func() common.MessageHandler { return common.NewMessageBlockchainLastNonceResponse(0) }},
	{common.BlockchainLastRoundRequest, func() common.MessageHandler { return common.NewMessageBlockchainLastRoundRequest() }},
	{common.BlockchainLastRoundResponse, func() common.MessageHandler { return common.NewMessageBlockchainLastRoundResponse(0) }},
	{common.BlockchainLastTimeStampRequest, func() common.MessageHandler { return common.NewMessageBlockchainLastTimeStampRequest() }},
	{common.BlockchainLastTimeStampResponse, func() common.MessageHandler { return common.NewMessageBlockchainLastTimeStampResponse(0) }},
	{common.BlockchainLastRandomSeedRequest, func() common.MessageHandler { return common.NewMessageBlockchainLastRandomSeedRequest() }},
	{common.BlockchainLastRandomSeedResponse, func() common.MessageHandler { return common.NewMessageBlockchainLastRandomSeedResponse(nil) }},
	{common.BlockchainLastEpochRequest, func() common.MessageHandler { return common.NewMessageBlockchainLastEpochRequest() }},
	{common.BlockchainLastEpochResponse, func() common.MessageHandler { return common.NewMessageBlockchainLastEpochResponse(0) }},
	{common.BlockchainGetStateRootHashRequest, func() common.MessageHandler { return common.NewMessageBlockchainGetStateRootHashRequest() }},
	{common.BlockchainGetStateRootHashResponse, func() common.MessageHandler { return common.NewMessageBlockchainGetStateRootHashResponse(nil) }},
	{common.BlockchainCurrentNonceRequest, func() common.MessageHandler { return common.NewMessageBlockchainCurrentNonceRequest() }},
	{common.BlockchainCurrentNonceResponse, func() common.MessageHandler { return common.NewMessageBlockchainCurrentNonceResponse(0) }},
	{common.BlockchainCurrentRoundRequest, func() common.MessageHandler { return common.NewMessageBlockchainCurrentRoundRequest() }},
	{common.BlockchainCurrentRoundResponse, func() common.MessageHandler { return common.NewMessageBlockchainCurrentRoundResponse(0) }},
	{common.BlockchainCurrentTimeStampRequest, func() common.MessageHandler { return common.NewMessageBlockchainCurrentTimeStampRequest() }},
	{common.BlockchainCurrentTimeStampResponse, func() common.MessageHandler { return common.NewMessageBlockchainCurrentTimeStampResponse(0) }},
	{common.BlockchainCurrentRandomSeedRequest, func() common.MessageHandler { return common.NewMessageBlockchainCurrentRandomSeedRequest() }},
	{common.BlockchainCurrentRandomSeedResponse, func() common.MessageHandler { return common.NewMessageBlockchainCurrentRandomSeedResponse(nil) }},
	{common.BlockchainCurrentEpochRequest, func() common.MessageHandler { return common.NewMessageBlockchainCurrentEpochRequest() }},
	{common.BlockchainCurrentEpochResponse, func() common.MessageHandler { return common.NewMessageBlockchainCurrentEpochResponse(0) }},
	{common.BlockchainProcessBuiltInFunctionRequest, func() common.MessageHandler { return common.NewMessageBlockchainProcessBuiltInFunctionRequest(nil) }},
	{common.BlockchainProcessBuiltInFunctionResponse, func() common.MessageHandler {
		return common.NewMessageBlockchainProcessBuiltInFunctionResponse(nil, nil)
	}},
	{common.BlockchainGetBuiltinFunctionNamesRequest, func() common.MessageHandler { return common.NewMessageBlockchainGetBuiltinFunctionNamesRequest() }},
	{common.BlockchainGetBuiltinFunctionNamesResponse, func() common.MessageHandler { return common.NewMessageBlockchainGetBuiltinFunctionNamesResponse(nil) }},
	{common.BlockchainGetAllStateRequest, func() common.MessageHandler { return common.NewMessageBlockchainGetAllStateRequest(nil) }},
	{common.BlockchainGetAllStateResponse, func() common.MessageHandler { return common.NewMessageBlockchainGetAllStateResponse(nil, nil) }},
	{common.BlockchainGetUserAccountRequest, func() common.MessageHandler { return common.NewMessageBlockchainGetUserAccountRequest(nil) }},
	{common.BlockchainGetUserAccountResponse, func() common.MessageHandler { return common.NewMessageBlockchainGetUserAccountResponse(nil, nil) }},
	{common.BlockchainGetCodeRequest, func() common.MessageHandler { return common.NewMessageBlockchainGetCodeRequest(nil) }},
	{common.BlockchainGetCodeResponse, func() common.MessageHandler { return common.NewMessageBlockchainGetCodeResponse(nil) }},
	{common.BlockchainGetShardOfAddressRequest, func() common.MessageHandler { return common.NewMessageBlockchainGetShardOfAddressRequest(nil) }},
	{common.BlockchainGetShardOfAddressResponse, func() common.MessageHandler { return common.NewMessageBlockchainGetShardOfAddressResponse(0) }},
	{common.BlockchainIsPayableRequest, func() common.MessageHandler { return common.NewMessageBlockchainIsPayableRequest(nil) }},
	{common.BlockchainIsPayableResponse, func() common.MessageHandler { return common.NewMessageBlockchainIsPayableResponse(false, nil) }},
	{common.BlockchainIsSmartContractRequest, func() common.MessageHandler { return common.NewMessageBlockchainIsSmartContractRequest(nil) }},
	{common.BlockchainIsSmartContractResponse, func() common.MessageHandler { return common.NewMessageBlockchainIsSmartContractResponse(false) }},
	{common.BlockchainSaveCompiledCodeRequest, func() common.MessageHandler { return common.NewMessageBlockchainSaveCompiledCodeRequest(nil, nil) }},
	{common.BlockchainSaveCompiledCodeResponse, func() common.MessageHandler { return common.NewMessageBlockchainSaveCompiledCodeResponse() }},
	{common.BlockchainGetCompiledCodeRequest, func() common.MessageHandler { return common.NewMessageBlockchainGetCompiledCodeRequest(nil) }},
	{common.BlockchainGetCompiledCodeResponse, func() common.MessageHandler { return common.NewMessageBlockchainGetCompiledCodeResponse(false, nil) }},
	{common.DiagnoseWaitRequest, func() common.MessageHandler { return common.NewMessageDiagnoseWaitRequest(0) }},
	{common.DiagnoseWaitResponse, func() common.MessageHandler { return common.NewMessageDiagnoseWaitResponse() }},
	{common.VersionRequest, func() common.MessageHandler { return common.NewMessageVersionRequest() }},
	{common.VersionResponse, func() common.MessageHandler { return common.NewMessageVersionResponse("") }},
	{common.BlockchainClearCompiledCodesRequest, func() common.MessageHandler { return common.NewMessageBlockchainClearCompiledCodesRequest() }},
	{common.BlockchainClearCompiledCodesResponse, func() common.MessageHandler { return common.NewMessageBlockchainClearCompiledCodesResponse() }},
	{common.BlockchainGetESDTTokenRequest, func() common.MessageHandler { return common.NewMessageBlockchainGetESDTTokenRequest(nil, nil, 0) }},
	{common.BlockchainGetESDTTokenResponse, func() common.MessageHandler { return common.NewMessageBlockchainGetESDTTokenResponse(nil, nil) }},
	{common.BlockchainGetSnapshotRequest, func() common.MessageHandler { return common.NewMessageBlockchainGetSnapshotRequest() }},
	{common.BlockchainGetSnapshotResponse, func() common.MessageHandler { return common.NewMessageBlockchainGetSnapshotResponse(0) }},
	{common.BlockchainIsInterfaceNilRequest, func() common.MessageHandler { return common.NewMessageBlockchainIsInterfaceNilRequest() }},
	{common.BlockchainIsInterfaceNilResponse, func() common.MessageHandler { return common.NewMessageBlockchainIsInterfaceNilResponse(false) }},
	{common.BlockchainRevertToSnapshotRequest, func() common.MessageHandler { return common.NewMessageBlockchainRevertToSnapshotRequest(0) }},
	{common.BlockchainRevertToSnapshotResponse, func() common.MessageHandler { return common.NewMessageBlockchainRevertToSnapshotResponse(nil) }},
}

var encodings = []struct {
	name string
	kind marshaling.MarshalizerKind
}{{"json", marshaling.JSON}, {"gob", marshaling.Gob}}

// filler fills values of any type with generated content
type filler struct {
	rt      *rapid.T
	text    bool // strings are valid UTF-8
	content int  // how many non-empty leaves were put
}

func (f *filler) bytes(label string) []byte {
	switch rapid.IntRange(0, 7).Draw(f.rt, label+" shape") {
	case 0:
		return nil
	case 1:
		return []byte{}
	case 2:
		return rapid.SliceOfN(rapid.Byte(), 0, 3).Draw(f.rt, label)
	case 3:
		n := rapid.SampledFrom([]int{100, 1000, 4096, 70000}).Draw(f.rt, label+" size")
		b := make([]byte, n)
		step := rapid.Byte().Draw(f.rt, label+" step")
		for i := range b {
			b[i] = byte(i) * step
		}
		return b
	default:
		return rapid.SliceOfN(rapid.Byte(), 1, 40).Draw(f.rt, label)
	}
}

func (f *filler) str(label string) string {
	if f.text {
		return rapid.StringN(0, 12, 30).Draw(f.rt, label)
	}
	return string(rapid.SliceOfN(rapid.Byte(), 0, 12).Draw(f.rt, label))
}

func (f *filler) number(label string) uint64 {
	if rapid.Bool().Draw(f.rt, label+" edge") {
		return rapid.SampledFrom([]uint64{0, 1, 255, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1 << 53, 1<<53 + 1, 1<<63 - 1, 1 << 63, 1<<64 - 1}).Draw(f.rt, label)
	}
	return rapid.Uint64().Draw(f.rt, label)
}

var bigType = reflect.TypeOf(big.Int{})
var messageType = reflect.TypeOf(common.Message{})

func (f *filler) fill(v reflect.Value, label string, depth int) {
	if v.Type() == bigType {
		sign := rapid.IntRange(-2, 2).Draw(f.rt, label+" sign")
		if sign != 0 {
			x := new(big.Int).SetBytes(rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(f.rt, label))
			if sign < 0 {
				x.Neg(x)
			}
			v.Addr().Interface().(*big.Int).Set(x)
			f.content++
		}
		return
	}
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(rapid.Bool().Draw(f.rt, label))
	case reflect.Int, reflect.Int64, reflect.Int32, reflect.Int16, reflect.Int8:
		n := int64(f.number(label))
		if v.OverflowInt(n) {
			n = int64(int32(n))
		}
		v.SetInt(n)
		f.content++
	case reflect.Uint, reflect.Uint64, reflect.Uint32, reflect.Uint16, reflect.Uint8:
		n := f.number(label)
		if v.OverflowUint(n) {
			n &= 1<<uint(v.Type().Bits()) - 1
		}
		v.SetUint(n)
		f.content++
	case reflect.String:
		v.SetString(f.str(label))
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			b := f.bytes(label)
			if b == nil {
				return
			}
			f.content++
			v.SetBytes(b)
			return
		}
		n := rapid.IntRange(0, 4).Draw(f.rt, label+" length")
		if n == 0 {
			return
		}
		v.Set(reflect.MakeSlice(v.Type(), n-1, n-1))
		for i := 0; i < n-1; i++ {
			e := v.Index(i)
			if e.Kind() == reflect.Ptr {
				e.Set(reflect.New(e.Type().Elem()))
				e = e.Elem()
			}
			f.fill(e, fmt.Sprintf("%s[%d]", label, i), depth+1)
		}
	case reflect.Map:
		n := rapid.IntRange(0, 4).Draw(f.rt, label+" entries")
		if n == 0 {
			return
		}
		v.Set(reflect.MakeMap(v.Type()))
		for i := 0; i < n-1; i++ {
			k, e := reflect.New(v.Type().Key()).Elem(), reflect.New(v.Type().Elem()).Elem()
			f.fill(k, fmt.Sprintf("%s key %d", label, i), depth+1)
			if e.Kind() == reflect.Ptr {
				e.Set(reflect.New(e.Type().Elem()))
				f.fill(e.Elem(), fmt.Sprintf("%s value %d", label, i), depth+1)
			} else {
				f.fill(e, fmt.Sprintf("%s value %d", label, i), depth+1)
			}
			v.SetMapIndex(k, e)
			f.content++
		}
	case reflect.Ptr:
		if rapid.IntRange(0, 4).Draw(f.rt, label+" nil") == 0 {
			return
		}
		v.Set(reflect.New(v.Type().Elem()))
		f.fill(v.Elem(), label, depth+1)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			field := v.Type().Field(i)
			if field.PkgPath != "" && !field.Anonymous {
				continue
			}
			f.fill(v.Field(i), label+"."+field.Name, depth)
		}
	}
}

// message fills a message other than in its kind and its error text
func (f *filler) message(m common.MessageHandler) {
	v := reflect.ValueOf(m).Elem()
	if v.Type() != messageType {
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).Type == messageType {
				continue
			}
			field := v.Field(i)
			if field.Kind() == reflect.Ptr && rapid.IntRange(0, 4).Draw(f.rt, "present") > 0 {
				field.Set(reflect.New(field.Type().Elem()))
				field = field.Elem()
			}
			f.fill(field, v.Type().Field(i).Name, 0)
		}
	}
	m.SetNonce(rapid.Uint32().Draw(f.rt, "nonce"))
	if rapid.Bool().Draw(f.rt, "with error") {
		m.SetError(errors.New(f.str("error")))
	}
}

// canonical renders a value such that nil and empty slices and maps are alike and big numbers are compared by value
func canonical(v reflect.Value) string {
	if v.IsValid() && v.Type() == bigType {
		x := v.Interface().(big.Int)
		return x.String()
	}
	switch v.Kind() {
	case reflect.Invalid:
		return "nil"
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			return "nil"
		}
		return "&" + canonical(v.Elem())
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			return fmt.Sprintf("%x", v.Bytes())
		}
		s := "["
		for i := 0; i < v.Len(); i++ {
			s += canonical(v.Index(i)) + " "
		}
		return s + "]"
	case reflect.Map:
		entries := map[string]string{}
		names := []string{}
		for _, k := range v.MapKeys() {
			n := canonical(k)
			entries[n] = canonical(v.MapIndex(k))
			names = append(names, n)
		}
		sort.Strings(names)
		s := "{"
		for _, n := range names {
			s += n + ":" + entries[n] + " "
		}
		return s + "}"
	case reflect.Struct:
		s := v.Type().Name() + "("
		for i := 0; i < v.NumField(); i++ {
			s += v.Type().Field(i).Name + "=" + canonical(v.Field(i)) + ","
		}
		return s + ")"
	case reflect.String:
		return fmt.Sprintf("%q", v.String())
	default:
		return fmt.Sprint(v.Interface())
	}
}

func show(x interface{}) string { return canonical(reflect.ValueOf(x)) }

func short(s string) string {
	if len(s) > 600 {
		return s[:600] + fmt.Sprintf("… (%d)", len(s))
	}
	return s
}
