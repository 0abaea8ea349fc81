//go:build go1.21

package pup

import (
	"encoding/binary"
	"fmt"
)

// Script assembles the puppet's byte code.
type Script struct{ B []byte }

// Val is an argument of a scripted call: a constant or a register.
type Val struct {
	Reg bool
	V   uint64
}

// I is a constant argument.
func I(v int64) Val { return Val{V: uint64(v)} }

// U is a constant argument.
func U(v uint64) Val { return Val{V: v} }

// R is a register argument.
func R(n int) Val { return Val{Reg: true, V: uint64(n)} }

var fnIndex = func() map[string]int {
	m := map[string]int{}
	for i, f := range Fns {
		m[f.Name] = i
	}
	return m
}()

// FnIndex is the dispatch number of a host function.
func FnIndex(name string) int {
	i, ok := fnIndex[name]
	if !ok {
		panic("INFRA: no such host function " + name)
	}
	return i
}

func (s *Script) u32(v uint32) { s.B = binary.LittleEndian.AppendUint32(s.B, v) }
func (s *Script) u64(v uint64) { s.B = binary.LittleEndian.AppendUint64(s.B, v) }

// End ends the script.
func (s *Script) End() { s.B = append(s.B, 0) }

// Data puts bytes in memory.
func (s *Script) Data(addr uint32, b []byte) {
	s.B = append(s.B, 1)
	s.u32(addr)
	s.u32(uint32(len(b)))
	s.B = append(s.B, b...)
}

// Call performs a host call, result in register dst.
func (s *Script) Call(dst int, name string, args ...Val) {
	i := FnIndex(name)
	if len(args) != len(Fns[i].Args) {
		panic(fmt.Sprintf("INFRA: %s takes %d arguments, given %d", name, len(Fns[i].Args), len(args)))
	}
	s.CallN(dst, i, args...)
}

// CallN is Call by dispatch number.
func (s *Script) CallN(dst int, fn int, args ...Val) {
	s.B = append(s.B, 2, byte(fn), byte(dst))
	for _, a := range args {
		k := byte(0)
		if a.Reg {
			k = 1
		}
		s.B = append(s.B, k)
		s.u64(a.V)
	}
}

// Trace appends a register to the trace.
func (s *Script) Trace(r int) { s.B = append(s.B, 3, byte(r)) }

// TraceM appends memory to the trace.
func (s *Script) TraceM(addr, n uint32) { s.B = append(s.B, 4); s.u32(addr); s.u32(n) }

// TraceR appends memory of a length held in a register to the trace.
func (s *Script) TraceR(addr uint32, r int) {
	s.B = append(s.B, 13)
	s.u32(addr)
	s.B = append(s.B, byte(r))
}

// Flush finishes the trace (one item of return data) and empties it.
func (s *Script) Flush() { s.B = append(s.B, 5) }

// SkipNE skips the script body if the register differs from v.
func (s *Script) SkipNE(r int, v uint64, body func(*Script)) {
	var b Script
	body(&b)
	s.B = append(s.B, 6, byte(r))
	s.u64(v)
	s.u32(uint32(len(b.B)))
	s.B = append(s.B, b.B...)
}

// Spin burns instructions; 0 never ends.
func (s *Script) Spin(n uint64) { s.B = append(s.B, 7); s.u64(n) }

// Trap executes an unreachable instruction.
func (s *Script) Trap() { s.B = append(s.B, 8) }

// Grow grows the memory.
func (s *Script) Grow(r int, pages uint32) { s.B = append(s.B, 9, byte(r)); s.u32(pages) }

// Ld loads eight bytes of memory into a register.
func (s *Script) Ld(r int, addr uint32) { s.B = append(s.B, 10, byte(r)); s.u32(addr) }

// St stores a register.
func (s *Script) St(r int, addr uint32) { s.B = append(s.B, 11, byte(r)); s.u32(addr) }

// Add adds to a register.
func (s *Script) Add(r int, v uint64) { s.B = append(s.B, 12, byte(r)); s.u64(v) }
