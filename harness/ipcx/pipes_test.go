//go:build go1.21

package ipcx

import (
	"encoding/binary"
	"fmt"
	"io"
	"os"
	"testing"
	"time"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/ipc/common"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/ipc/marshaling"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/zzverif/vh"
	"pgregory.net/rapid"
)

// what happens to a stream of messages between the two ends
const (
	intact = iota
	cutAfter
	dropped
	repeated
	swapped
	otherKind
	shorter
	longer
	altered
	late
	numFaults
)

var faultNames = []string{"intact", "cut", "dropped", "repeated", "swapped", "other kind", "shorter", "longer", "altered", "late"}

// wire carries the bytes of one direction, in pieces, and does the planned harm
type wire struct {
	pieces  []int
	fault   int
	at      int // frame the fault is about
	param   uint32
	encoded marshaling.MarshalizerKind
	release chan struct{} // closed when a late frame may go on
	done    chan struct{}
}

func (w *wire) put(out *os.File, data []byte, next *int) bool {
	for len(data) > 0 {
		n := len(data)
		if len(w.pieces) > 0 {
			n = w.pieces[*next%len(w.pieces)]
			*next++
			if n > len(data) {
				n = len(data)
			}
		}
		if _, err := out.Write(data[:n]); err != nil {
			return false
		}
		data = data[n:]
	}
	return true
}

func (w *wire) run(in, out *os.File) {
	defer close(w.done)
	defer out.Close()
	next, i := 0, 0
	var held []byte
	for {
		head := make([]byte, 8)
		if _, err := io.ReadFull(in, head); err != nil {
			break
		}
		body := make([]byte, binary.LittleEndian.Uint32(head))
		if _, err := io.ReadFull(in, body); err != nil {
			break
		}
		frame := append(head, body...)
		if i == w.at {
			switch w.fault {
			case cutAfter:
				w.put(out, frame[:int(w.param)%len(frame)], &next)
				_, _ = io.Copy(io.Discard, in)
				return
			case dropped:
				frame = nil
			case repeated:
				frame = append(append([]byte{}, frame...), frame...)
			case swapped:
				held, frame = frame, nil
			case otherKind:
				kind := binary.LittleEndian.Uint32(head[4:])
				other := w.param
				if other == kind {
					other++
				}
				binary.LittleEndian.PutUint32(frame[4:], other)
			case shorter:
				// one that announces less than was sent; the rest of the stream is lost
				cut := int(w.param) % len(body)
				binary.LittleEndian.PutUint32(frame, uint32(cut))
				w.put(out, frame[:8+cut], &next)
				_, _ = io.Copy(io.Discard, in)
				return
			case longer:
				// one that announces more than was sent: it swallows what follows
				rest, _ := io.ReadAll(in)
				more := 1
				if len(rest) > 0 {
					more = int(w.param)%len(rest) + 1
				}
				if left := len(rest) - more; left >= 8 && binary.LittleEndian.Uint32(rest[more:]) > 1<<20 {
					more = len(rest) // (the receiver would set aside as much memory as is announced)
				}
				binary.LittleEndian.PutUint32(frame, uint32(len(body)+more))
				w.put(out, append(frame, rest...), &next)
				return
			case altered:
				frame[8+int(w.param>>8)%len(body)] ^= byte(w.param) | 1
			case late:
				<-w.release
			}
		} else if held != nil {
			frame, held = append(append([]byte{}, frame...), held...), nil
		}
		if !w.put(out, frame, &next) {
			return
		}
		i++
	}
	w.put(out, held, &next)
}

// TestPipes: what is sent over the pipes arrives once, in order and unchanged, or an error is reported
func TestPipes(t *testing.T) {
	vh.Rule("C24", "a dialogue of at least two messages of which one is larger than its header, that is fragmented or disturbed")
	vh.Check(t, func(rt *rapid.T) { dialogue(rt) })
}

type end struct {
	m    *common.Messenger
	from *os.File
	to   *os.File
}

func dialogue(rt *rapid.T) {
	e := rapid.SampledFrom(encodings).Draw(rt, "encoding")
	wires := [2]*wire{}
	fault := rapid.IntRange(0, 2*numFaults).Draw(rt, "fault")
	if fault >= numFaults {
		fault = intact
	}
	// bursts of messages in alternating directions; the disturbance is in the last burst, so that what comes before
	// must be whole
	type burst struct {
		from     int
		reset    bool
		messages []common.MessageHandler
	}
	var bursts []burst
	count := [2]int{}
	larger, total := false, 0
	f := &filler{rt: rt, text: e.kind == marshaling.JSON}
	for b := rapid.IntRange(1, 4).Draw(rt, "bursts"); b > 0; b-- {
		bu := burst{from: rapid.IntRange(0, 1).Draw(rt, "from"), reset: rapid.IntRange(0, 3).Draw(rt, "reset") == 0}
		for n := rapid.IntRange(1, 4).Draw(rt, "messages"); n > 0; n-- {
			k := kinds[rapid.IntRange(0, len(kinds)-1).Draw(rt, "kind")]
			m := k.make()
			before := f.content
			f.message(m)
			larger = larger || f.content > before
			bu.messages = append(bu.messages, m)
			total++
		}
		bursts = append(bursts, bu)
		count[bu.from] += len(bu.messages)
	}
	last := bursts[len(bursts)-1]
	for i := range wires {
		wires[i] = &wire{release: make(chan struct{}), done: make(chan struct{}), at: -1, encoded: e.kind}
		if rapid.Bool().Draw(rt, "fragmented") {
			wires[i].pieces = rapid.SliceOfN(rapid.SampledFrom([]int{1, 2, 3, 4, 5, 7, 8, 9, 100, 4096, 65535, 65536}), 1, 6).Draw(rt, "pieces")
			small := 0
			for _, p := range wires[i].pieces {
				if p < 100 {
					small++
				}
			}
			if small == len(wires[i].pieces) { // keep it from taking forever
				wires[i].pieces = append(wires[i].pieces, 65536)
			}
		}
	}
	w := wires[last.from]
	faultAt := 0
	if fault != intact {
		faultAt = rapid.IntRange(0, len(last.messages)-1).Draw(rt, "disturbed")
		w.fault, w.at, w.param = fault, count[last.from]-len(last.messages)+faultAt, rapid.Uint32().Draw(rt, "how")
		if fault == otherKind && rapid.Bool().Draw(rt, "known kind") {
			w.param %= uint32(common.LastKind)
		}
	}
	codec := marshaling.CreateMarshalizer(e.kind)
	var ends [2]end
	var links [2][2]*os.File // of each direction: read by the wire, written by the wire
	for i := 0; i < 2; i++ {
		r, out, err := os.Pipe()
		if err != nil {
			rt.Fatalf("INFRA: %v", err)
		}
		in, wout, err := os.Pipe()
		if err != nil {
			rt.Fatalf("INFRA: %v", err)
		}
		ends[i].to, ends[1-i].from = out, in
		links[i] = [2]*os.File{r, wout}
	}
	for i := range ends {
		ends[i].m = common.NewMessengerPipes(fmt.Sprint("end ", i), ends[i].from, ends[i].to, codec)
		go wires[i].run(links[i][0], links[i][1])
	}
	released := false
	release := func() {
		if !released {
			close(w.release)
			released = true
		}
	}
	defer func() {
		release()
		for i := range ends {
			_ = ends[i].to.Close()
			_ = ends[i].from.Close()
		}
		for i := range wires {
			_ = links[i][1].Close()
			<-wires[i].done
			_ = links[i][0].Close()
		}
	}()
	errors := 0
	for bi, bu := range bursts {
		if bu.reset {
			ends[0].m.ResetDialogue()
			ends[1].m.ResetDialogue()
		}
		from, to := ends[bu.from], ends[1-bu.from]
		disturbed := bi == len(bursts)-1 && fault != intact
		nonce := from.m.Nonce
		if to.m.Nonce != nonce {
			rt.Fatalf("the ends count %d and %d", from.m.Nonce, to.m.Nonce)
		}
		var want []string
		for i, m := range bu.messages {
			m.SetNonce(nonce + uint32(i) + 1)
			want = append(want, show(m))
			m.SetNonce(0)
		}
		sent := make(chan error, 1)
		go func() {
			for _, m := range bu.messages {
				if err := from.m.Send(m); err != nil {
					sent <- err
					return
				}
			}
			if disturbed {
				_ = from.to.Close()
			}
			sent <- nil
		}()
		receive := func(timeout int) (m common.MessageHandler, err error) {
			if !vh.Within(60*time.Second, func() { m, err = to.m.Receive(timeout) }) {
				rt.Fatalf("receiving does not end (%s)", faultNames[fault])
			}
			return m, err
		}
		got := 0
		check := func(m common.MessageHandler) {
			if got >= len(want) {
				rt.Fatalf("%s: a message more than was sent: %s", faultNames[fault], short(show(m)))
			}
			if disturbed && fault == altered && got == faultAt {
				if k := bu.messages[got].GetKind(); m.GetKind() != k || m.GetNonce() != nonce+uint32(got)+1 {
					rt.Fatalf("an altered message of kind %d and number %d is delivered as %d and %d", k, nonce+uint32(got)+1, m.GetKind(), m.GetNonce())
				}
				if fmt.Sprintf("%T", m) != fmt.Sprintf("%T", bu.messages[got]) {
					rt.Fatalf("an altered %T is delivered as %T", bu.messages[got], m)
				}
			} else if show(m) != want[got] {
				rt.Fatalf("%s (%s): message %d differs\nsent %s\ngot  %s", faultNames[fault], e.name, got, short(want[got]), short(show(m)))
			}
			got++
		}
		if !disturbed {
			for range want {
				timeout := 0
				if len(want)%2 == 0 {
					timeout = 60000
				}
				m, err := receive(timeout)
				if err != nil {
					rt.Fatalf("message %d of %d (%s, %s) is not received: %v", got, len(want), bu.messages[got].GetKindName(), e.name, err)
				}
				check(m)
			}
		} else {
			for {
				timeout := 0
				if fault == late && got == faultAt && !released {
					timeout = 2
				}
				m, err := receive(timeout)
				if err != nil {
					if m != nil {
						rt.Fatalf("%s: a message along with the error %v", faultNames[fault], err)
					}
					errors++
					if timeout > 0 {
						release()
						continue
					}
					if fault == dropped || fault == repeated || fault == swapped || fault == otherKind || fault == altered {
						// the stream itself is whole: what follows is delivered in its turn or refused
						if err != io.EOF && errors < 20 {
							continue
						}
					}
					break
				}
				if timeout > 0 {
					rt.Fatalf("a message is received before it is passed on")
				}
				check(m)
			}
			most := len(want)
			switch fault {
			case cutAfter, dropped, otherKind, shorter:
				most = faultAt
			case swapped:
				most = faultAt + 1 // the held back one comes in its turn
			}
			if fault == dropped && faultAt == len(want)-1 || fault == swapped && faultAt == len(want)-1 {
				most = len(want) // nothing follows that could show it
			}
			least := faultAt
			if fault == late || fault == swapped && faultAt == len(want)-1 {
				least = len(want)
			}
			if fault == repeated {
				least = faultAt + 1
			}
			if got > most || got < least {
				rt.Fatalf("%s at %d of %d (%s): %d messages are delivered", faultNames[fault], faultAt, len(want), e.name, got)
			}
			minErrors := 1
			if fault == late {
				minErrors = 2
			}
			if errors < minErrors {
				rt.Fatalf("%s: %d errors", faultNames[fault], errors)
			}
		}
		if err := <-sent; err != nil {
			rt.Fatalf("sending: %v", err)
		}
		if !disturbed {
			if from.m.Nonce != nonce+uint32(len(want)) || to.m.Nonce != from.m.Nonce {
				rt.Fatalf("after %d messages the ends count from %d to %d and %d", len(want), nonce, from.m.Nonce, to.m.Nonce)
			}
		} else if fault == late {
			if to.m.Nonce != from.m.Nonce {
				rt.Fatalf("%s: the ends count %d and %d", faultNames[fault], from.m.Nonce, to.m.Nonce)
			}
		}
	}
	fragmented := len(wires[0].pieces)+len(wires[1].pieces) > 0
	vh.Case(total >= 2 && larger && (fragmented || fault != intact), e.name+" "+faultNames[fault], fmt.Sprint(total, fault, w.at, w.param, bursts), func() string {
		return fmt.Sprintf("%s: %d messages in %d bursts, %s, pieces %v %v, %d errors", e.name, total, len(bursts), faultNames[fault], wires[0].pieces, wires[1].pieces, errors)
	})
}
