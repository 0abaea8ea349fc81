//go:build go1.21

package ipcx

import (
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"testing"
	"time"
	"unicode/utf8"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/ipc/arwenpart"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/ipc/common"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/ipc/marshaling"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/ipc/nodepart"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/zzverif/pup"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/zzverif/vh"
	vmcommon "github.com/ElrondNetwork/elrond-vm-common"
	"pgregory.net/rapid"
)

const patience = 60 * time.Second

// bridge is a machine that is used through the pipes
type bridge struct {
	rt    *rapid.T
	node  *nodepart.NodePart
	ended chan error
	files [4]*os.File
}

func pipes(rt *rapid.T) [4]*os.File {
	inArwen, outNode, err := os.Pipe()
	if err != nil {
		rt.Fatalf("INFRA: %v", err)
	}
	inNode, outArwen, err := os.Pipe()
	if err != nil {
		rt.Fatalf("INFRA: %v", err)
	}
	return [4]*os.File{inArwen, outArwen, inNode, outNode}
}

func (b *bridge) ask(m common.MessageHandler) (r common.MessageHandler, err error) {
	if !vh.Within(patience, func() { r, err = b.node.StartLoop(m) }) {
		b.rt.Fatalf("no answer to %s", m.GetKindName())
	}
	return r, err
}

func (b *bridge) close() {
	for _, f := range b.files {
		_ = f.Close()
	}
}

// TestBridge: transactions executed through the bridge have the outputs they have in process
func TestBridge(t *testing.T) {
	vh.Rule("C25", "a history in which the contracts query the blockchain (or, on its own, a query with arguments or results) across the bridge; distinct by its content")
	vh.Check(t, func(rt *rapid.T) { bridged(rt) })
	if !vh.Replaying() {
		container(t)
	}
}

func asText(e marshaling.MarshalizerKind, s string) string {
	if e == marshaling.JSON {
		b, _ := json.Marshal(s)
		_ = json.Unmarshal(b, &s)
	}
	return s
}

var weights = pup.Weights{"store": 4, "load": 3, "loadlen": 1, "loadfrom": 2, "smallstore": 1, "bigstore": 1, "lock": 1, "finish": 2,
	"args": 1, "ctx": 3, "txhash": 1, "bal": 3, "chain1": 3, "blockhash": 2, "shard": 2, "gas": 1, "log": 2, "retdata": 1, "err": 2,
	"transfer": 3, "tve": 4, "dest": 4, "caller": 1, "same": 2, "readonly": 2, "create": 2, "createFrom": 2, "upgrade": 1, "async": 3, "big": 1}

func bridged(rt *rapid.T) {
	e := rapid.SampledFrom(encodings).Draw(rt, "encoding")
	g := pup.NewGen(rt, weights)
	g.Finish()
	type step struct {
		tx      *pup.Tx
		sched   uint64
		version bool
		wait    bool
	}
	var steps []step
	for n := g.Number(1, 4, "requests"); n > 0; n-- {
		s := step{}
		switch k := g.Number(0, 19, "request"); {
		case k == 0:
			s.version = true
		case k == 1:
			s.wait = true
		case k < 5:
			s.sched = rapid.Uint64().Draw(rt, "schedule")
		default:
			s.tx = g.AnyTx()
		}
		steps = append(steps, s)
	}
	for _, s := range steps {
		if s.tx != nil && s.tx.Call != nil {
			if e.kind == marshaling.JSON && !utf8.ValidString(s.tx.Call.Function) {
				return // (see the known finding)
			}
			if m, _ := s.tx.Predict(g.W.Clone(), pup.Schedule(0)); m.Unmodelled != "" {
				vh.Case(false, "unmodelled", "", nil)
				return // among them, what depends on the order in which Go walks maps
			}
		}
	}
	version := rapid.StringN(0, 10, 30).Draw(rt, "version")
	sched := pup.Schedule(rapid.Uint64().Draw(rt, "schedule"))
	here, there := g.W.Clone(), g.W.Clone()
	host := pup.Host(here, pup.Options{Schedule: sched, KeepOpcodes: true})
	b := &bridge{rt: rt, files: pipes(rt), ended: make(chan error, 1)}
	defer b.close()
	part, err := arwenpart.NewArwenPart(version, b.files[0], b.files[1], pup.Params(pup.Options{Schedule: sched}), marshaling.CreateMarshalizer(e.kind))
	if err != nil {
		rt.Fatalf("no machine: %v", err)
	}
	go func() { b.ended <- part.StartLoop() }()
	b.node, err = nodepart.NewNodePart(b.files[2], b.files[3], there, nodepart.Config{MaxLoopTime: 60000}, marshaling.CreateMarshalizer(e.kind))
	if err != nil {
		rt.Fatalf("no node part: %v", err)
	}
	story := ""
	txs := 0
	for i, s := range steps {
		switch {
		case s.version:
			story += "; version"
			r, err := b.ask(common.NewMessageVersionRequest())
			if err != nil || r.(*common.MessageVersionResponse).Version != version {
				rt.Fatalf("the version %q is not reported: %v %v", version, r, err)
			}
		case s.wait:
			story += "; wait"
			start := time.Now()
			r, err := b.ask(common.NewMessageDiagnoseWaitRequest(3))
			if err != nil || r.GetKind() != common.DiagnoseWaitResponse || time.Since(start) < 3*time.Millisecond {
				rt.Fatalf("no wait: %v %v after %s", r, err, time.Since(start))
			}
		case s.tx == nil:
			story += "; gas schedule"
			sched = pup.Schedule(s.sched)
			host.GasScheduleChange(sched)
			r, err := b.ask(common.NewMessageGasScheduleChangeRequest(sched))
			if err != nil || r.GetKind() != common.GasScheduleChangeResponse || r.GetError() != nil {
				rt.Fatalf("the gas schedule is not changed: %v %v", r, err)
			}
		default:
			story += "; " + s.tx.String()
			txs++
			want, wantErr := s.tx.Run(host)
			var request common.MessageHandler
			if s.tx.Create != nil {
				request = common.NewMessageContractDeployRequest(s.tx.Create)
			} else {
				request = common.NewMessageContractCallRequest(s.tx.Call)
			}
			r, err := b.ask(request)
			if err != nil {
				rt.Fatalf("request %d fails on the bridge: %v\n%s\n%s", i, err, g.W.Describe(), story)
			}
			response, ok := r.(*common.MessageContractResponse)
			if !ok || response.GetKind() != common.ContractResponse {
				rt.Fatalf("request %d is answered by %T", i, r)
			}
			if fmt.Sprint(response.GetError()) != fmt.Sprint(wantErr) {
				rt.Fatalf("request %d: error %v becomes %v\n%s\n%s", i, wantErr, response.GetError(), g.W.Describe(), story)
			}
			if wantErr != nil {
				continue
			}
			got := response.SerializableVMOutput.ConvertToVMOutput()
			want.ReturnMessage = asText(e.kind, want.ReturnMessage)
			if show(want) != show(got) {
				rt.Fatalf("%s: request %d: outputs differ\nin process %s\nbridged    %s\n%s\n%s", e.name, i, show(want), show(got), g.W.Describe(), story)
			}
			if here.Fingerprint() != there.Fingerprint() {
				rt.Fatalf("request %d: the worlds differ after the execution\n%s\n%s\n%s\n%s", i, here.Fingerprint(), there.Fingerprint(), g.W.Describe(), story)
			}
			vh.Class("result " + want.ReturnCode.String())
			if want.ReturnCode == vmcommon.Ok {
				in := s.tx.In()
				here.Apply(want, in.CallerAddr, in.CallValue)
				there.Apply(got, in.CallerAddr, in.CallValue)
			}
		}
	}
	if err = b.node.SendStopSignal(); err != nil {
		rt.Fatalf("cannot stop: %v", err)
	}
	select {
	case err = <-b.ended:
		if err != common.ErrStopPerNodeRequest {
			rt.Fatalf("the machine's loop ends with %v", err)
		}
	case <-time.After(patience):
		rt.Fatalf("the machine does not stop")
	}
	vh.Case(txs > 0, fmt.Sprintf("%s history of %d", e.name, len(steps)), story+g.W.Describe(), func() string { return e.name + story })
}

// container: the arguments of the machine cannot be passed to its process when they hold builtin functions
func container(t *testing.T) {
	in, out, err := os.Pipe()
	if err != nil {
		t.Fatalf("INFRA: %v", err)
	}
	defer in.Close()
	defer out.Close()
	args := common.ArwenArguments{VMHostParameters: *pup.Params(pup.Options{})}
	args.GasSchedule = nil // (keeps it below the size of a pipe's buffer)
	if err = common.SendArwenArguments(out, args); err != nil {
		t.Fatalf("arguments not sent: %v", err)
	}
	got, err := common.GetArwenArguments(in)
	if err != nil || got.BuiltInFuncContainer == nil {
		vh.Known(t, "C25", "builtin-container", fmt.Sprintf("a machine's parameters with a container of builtin functions cannot be sent to its process: %v", err))
	}
}

// call is one query on its way through the bridge
type call struct {
	method  string
	args    string
	results []reflect.Value
}

// TestGateway: every query that crosses the bridge reaches the blockchain as it was made, and what the blockchain
// answers is what the machine gets
func TestGateway(t *testing.T) {
	vh.Check(t, func(rt *rapid.T) { gateway(rt) })
}

var hookType = reflect.TypeOf((*vmcommon.BlockchainHook)(nil)).Elem()
var errorType = reflect.TypeOf((*error)(nil)).Elem()
var handlerType = reflect.TypeOf((*vmcommon.UserAccountHandler)(nil)).Elem()

// value generates an argument or a result
func (f *filler) value(typ reflect.Type, label string, result, failing bool) reflect.Value {
	v := reflect.New(typ).Elem()
	switch {
	case typ == errorType:
		if failing {
			v.Set(reflect.ValueOf(fmt.Errorf("%s", "e"+f.str("error"))))
		}
	case typ == handlerType:
		a := &common.Account{}
		f.fill(reflect.ValueOf(a).Elem(), label, 0)
		if !result || rapid.IntRange(0, 4).Draw(f.rt, "no account") > 0 {
			v.Set(reflect.ValueOf(a))
		}
	case typ == reflect.TypeOf((*vmcommon.VMOutput)(nil)):
		if !failing {
			out := &vmcommon.VMOutput{}
			f.fill(reflect.ValueOf(out).Elem(), label, 0)
			tidy(out)
			v.Set(reflect.ValueOf(out))
		}
	case typ == reflect.TypeOf((*vmcommon.ContractCallInput)(nil)):
		in := &vmcommon.ContractCallInput{}
		f.fill(reflect.ValueOf(in).Elem(), label, 0)
		v.Set(reflect.ValueOf(in))
	default:
		f.fill(v, label, 0)
	}
	return v
}

// handlerShown is what can be read through an account handler
func handlerShown(h vmcommon.UserAccountHandler) string {
	if h == nil || h.IsInterfaceNil() {
		return "no account"
	}
	return fmt.Sprintf("%d %v %x %x %x %v %x %x %x", h.GetNonce(), h.GetBalance(), h.GetCodeHash(), h.GetRootHash(), h.AddressBytes(), h.GetDeveloperReward(),
		h.GetOwnerAddress(), h.GetUserName(), h.GetCodeMetadata())
}

func shown(v reflect.Value) string {
	if v.Type() == handlerType || v.Type().Implements(handlerType) {
		h, _ := v.Interface().(vmcommon.UserAccountHandler)
		return handlerShown(h)
	}
	if v.Type() == errorType {
		return fmt.Sprint(v.Interface())
	}
	return canonical(v)
}

// overdue: a machine that does not answer in time is reported as such
func overdue(rt *rapid.T) {
	e := rapid.SampledFrom(encodings).Draw(rt, "encoding")
	files := pipes(rt)
	b := &bridge{rt: rt, files: files}
	defer b.close()
	arwen := arwenpart.NewArwenMessenger(files[0], files[1], marshaling.CreateMarshalizer(e.kind))
	limit := rapid.IntRange(1, 8).Draw(rt, "limit")
	calls := rapid.IntRange(0, 3).Draw(rt, "queries")
	stub := &recorder{}
	for i := 0; i < calls; i++ {
		stub.plan = append(stub.plan, []reflect.Value{reflect.ValueOf(uint64(i))})
	}
	var err error
	b.node, err = nodepart.NewNodePart(files[2], files[3], stub, nodepart.Config{MaxLoopTime: limit}, marshaling.CreateMarshalizer(e.kind))
	if err != nil {
		rt.Fatalf("%v", err)
	}
	done := make(chan bool)
	go func() {
		defer close(done)
		_, _ = arwen.ReceiveNodeRequest()
		for i := 0; i < calls; i++ {
			_, _ = arwen.SendHookCallRequest(common.NewMessageBlockchainLastNonceRequest())
		}
		time.Sleep(time.Duration(limit+20) * time.Millisecond)
		_ = arwen.SendContractResponse(common.NewMessageContractResponse(nil, nil))
	}()
	r, err := b.ask(common.NewMessageVersionRequest())
	if err == nil || r != nil {
		rt.Fatalf("a machine that takes longer than %d ms is not reported: %v", limit, r)
	}
	b.close()
	<-done
	vh.Case(true, e.name+" overdue", fmt.Sprint(e.name, limit, calls), func() string { return fmt.Sprintf("%s: nothing within %d ms after %d queries", e.name, limit, calls) })
}

func gateway(rt *rapid.T) {
	if rapid.IntRange(0, 59).Draw(rt, "overdue") == 59 {
		overdue(rt)
		return
	}
	e := rapid.SampledFrom(encodings).Draw(rt, "encoding")
	f := &filler{rt: rt, text: e.kind == marshaling.JSON}
	files := pipes(rt)
	b := &bridge{rt: rt, files: files, ended: make(chan error, 1)}
	defer b.close()
	arwen := arwenpart.NewArwenMessenger(files[0], files[1], marshaling.CreateMarshalizer(e.kind))
	var hook vmcommon.BlockchainHook = arwenpart.NewBlockchainHookGateway(arwen)
	stub := &recorder{}
	var err error
	limit := 60000
	b.node, err = nodepart.NewNodePart(files[2], files[3], stub, nodepart.Config{MaxLoopTime: limit}, marshaling.CreateMarshalizer(e.kind))
	if err != nil {
		rt.Fatalf("%v", err)
	}
	type query struct {
		method reflect.Method
		args   []reflect.Value
		want   []reflect.Value
		fails  bool
	}
	var queries []query
	names := ""
	for n := rapid.IntRange(1, 6).Draw(rt, "queries"); n > 0; n-- {
		m := hookType.Method(rapid.IntRange(0, hookType.NumMethod()-1).Draw(rt, "method"))
		if m.Name == "IsInterfaceNil" {
			continue // (about the gateway itself)
		}
		q := query{method: m, fails: rapid.IntRange(0, 3).Draw(rt, "fails") == 0}
		for i := 0; i < m.Type.NumIn(); i++ {
			q.args = append(q.args, f.value(m.Type.In(i), fmt.Sprintf("%s argument %d", m.Name, i), false, false))
		}
		for i := 0; i < m.Type.NumOut(); i++ {
			q.want = append(q.want, f.value(m.Type.Out(i), fmt.Sprintf("%s result %d", m.Name, i), true, q.fails))
		}
		stub.plan = append(stub.plan, q.want)
		queries = append(queries, q)
		names += " " + m.Name
	}
	ending := rapid.SampledFrom([]string{"answer", "answer", "answer", "answer", "answer", "answer", "closed", "odd answer"}).Draw(rt, "ending")
	problem := make(chan string, 1)
	go func() { // the machine's side
		complaint := ""
		defer func() {
			if p := recover(); p != nil {
				complaint = fmt.Sprint("panic: ", p)
			}
			problem <- complaint
		}()
		if _, err := arwen.ReceiveNodeRequest(); err != nil {
			complaint = fmt.Sprint("no request: ", err)
			return
		}
		for i, q := range queries {
			var args []string
			for _, a := range q.args {
				args = append(args, shown(a))
			}
			got := reflect.ValueOf(hook).MethodByName(q.method.Name).Call(q.args)
			if i >= len(stub.seen) {
				complaint = fmt.Sprintf("%s is not asked of the blockchain", q.method.Name)
				return
			}
			if s := stub.seen[i]; s.method != q.method.Name || s.args != fmt.Sprint(args) {
				complaint = fmt.Sprintf("%s(%s) is asked as %s(%s)", q.method.Name, short(fmt.Sprint(args)), s.method, short(s.args))
				return
			}
			for j, r := range got {
				failed := q.fails && q.want[len(q.want)-1].Type() == errorType
				if failed && r.Type() != errorType {
					continue
				}
				if shown(r) != shown(q.want[j]) {
					complaint = fmt.Sprintf("%s answers %s, the machine gets %s", q.method.Name, short(shown(q.want[j])), short(shown(r)))
					return
				}
			}
		}
		switch ending {
		case "closed":
			arwen.Shutdown()
		case "odd answer":
			_ = arwen.SendContractResponse(common.NewMessageStop())
		default:
			_ = arwen.SendContractResponse(common.NewMessageContractResponse(nil, nil))
		}
	}()
	r, err := b.ask(common.NewMessageVersionRequest())
	select {
	case complaint := <-problem:
		if complaint != "" {
			rt.Fatalf("%s: %s", e.name, complaint)
		}
	case <-time.After(patience):
		rt.Fatalf("%s: the queries%s hang", e.name, names)
	}
	if (ending == "answer") != (err == nil) || (err == nil) != (r != nil) {
		rt.Fatalf("%s: the node gets %v, %v", ending, r, err)
	}
	if ending == "answer" && r.GetKind() != common.ContractResponse {
		rt.Fatalf("the node gets %s", r.GetKindName())
	}
	vh.Case(f.content > 0, fmt.Sprintf("%s %d queries, %s", e.name, len(queries), ending), fmt.Sprint(names, stub.seen), func() string { return e.name + names })
	for _, q := range queries {
		how := " answers"
		if q.fails {
			how = " fails"
		}
		vh.Class(q.method.Name + how)
	}
}
