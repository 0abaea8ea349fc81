//go:build go1.21

package pup

// Module is a WebAssembly module under construction. Functions are numbered imports first.
type Module struct {
	types   [][]byte
	Imports []ModImport
	Funcs   []ModFunc
	Table   []byte // entry of the table section
	Memory  []byte // limits; none if nil
	Globals int
	Exports []ModExport
	Data    []byte
	Raw     map[byte][]byte // sections given as they are
}

// ModImport imports a function (Kind 0) or something else, described by Desc.
type ModImport struct {
	Module, Name string
	Params, Ret  []byte
	Kind         byte
	Desc         []byte
}

// ModFunc is a function; the body has no locals declaration and no final end.
type ModFunc struct {
	Params, Ret []byte
	Locals      int // of type i64, after the parameters
	Body        []byte
}

// ModExport is an export.
type ModExport struct {
	Name  string
	Kind  byte
	Index int
}

func (m *Module) typ(params, ret []byte) int {
	t := append(append([]byte{0x60}, ULEB(uint64(len(params)))...), params...)
	t = append(append(t, ULEB(uint64(len(ret)))...), ret...)
	for i, x := range m.types {
		if string(x) == string(t) {
			return i
		}
	}
	m.types = append(m.types, t)
	return len(m.types) - 1
}

func vec(items [][]byte) []byte {
	b := ULEB(uint64(len(items)))
	for _, x := range items {
		b = append(b, x...)
	}
	return b
}

func sized(b []byte) []byte { return append(ULEB(uint64(len(b))), b...) }

// Encode gives the module's bytes.
func (m *Module) Encode() []byte {
	var imports, funcs, bodies, exports [][]byte
	for _, i := range m.Imports {
		b := append(sized([]byte(i.Module)), sized([]byte(i.Name))...)
		b = append(b, i.Kind)
		if i.Kind == 0 {
			b = append(b, ULEB(uint64(m.typ(i.Params, i.Ret)))...)
		} else {
			b = append(b, i.Desc...)
		}
		imports = append(imports, b)
	}
	for _, f := range m.Funcs {
		funcs = append(funcs, ULEB(uint64(m.typ(f.Params, f.Ret))))
		locals := []byte{0}
		if f.Locals > 0 {
			locals = append(append([]byte{1}, ULEB(uint64(f.Locals))...), 0x7e)
		}
		bodies = append(bodies, sized(append(append(locals, f.Body...), 0x0b)))
	}
	for _, e := range m.Exports {
		exports = append(exports, append(append(sized([]byte(e.Name)), e.Kind), ULEB(uint64(e.Index))...))
	}
	c := []byte("\x00asm\x01\x00\x00\x00")
	section := func(id byte, body []byte, there bool) {
		if raw, ok := m.Raw[id]; ok {
			c = append(append(c, id), sized(raw)...)
		} else if there {
			c = append(append(c, id), sized(body)...)
		}
	}
	section(1, vec(m.types), len(m.types) > 0)
	section(2, vec(imports), len(imports) > 0)
	section(3, vec(funcs), len(funcs) > 0)
	section(4, append([]byte{1}, m.Table...), m.Table != nil)
	section(5, append([]byte{1}, m.Memory...), m.Memory != nil)
	var globals [][]byte
	for i := 0; i < m.Globals; i++ {
		globals = append(globals, []byte{0x7f, 0, 0x41, byte(i & 63), 0x0b})
	}
	section(6, vec(globals), len(globals) > 0)
	section(7, vec(exports), len(exports) > 0)
	section(8, nil, false)
	section(10, vec(bodies), len(bodies) > 0)
	section(11, append(append([]byte{1, 0, 0x41, 0, 0x0b}, ULEB(uint64(len(m.Data)))...), m.Data...), len(m.Data) > 0)
	return c
}

// SLEB encodes a signed LEB128.
func SLEB(v int64) []byte {
	var out []byte
	for {
		b := byte(v & 0x7f)
		v >>= 7
		if v == 0 && b&0x40 == 0 || v == -1 && b&0x40 != 0 {
			return append(out, b)
		}
		out = append(out, b|0x80)
	}
}

// Instructions of function bodies.
func I32(v int32) []byte { return append([]byte{0x41}, SLEB(int64(v))...) }
func I64(v int64) []byte { return append([]byte{0x42}, SLEB(v)...) }
func CallF(i int) []byte { return append([]byte{0x10}, ULEB(uint64(i))...) }

// ValType is the encoding of a value type.
func ValType(s string) byte {
	switch s {
	case "i32":
		return 0x7f
	case "i64":
		return 0x7e
	}
	panic("INFRA: type " + s)
}

// Import imports a host function by name, with its true signature.
func (m *Module) Import(name string) int {
	f := Fns[FnIndex(name)]
	i := ModImport{Module: "env", Name: name}
	for _, a := range f.Args {
		i.Params = append(i.Params, ValType(a))
	}
	if f.Ret != "void" {
		i.Ret = []byte{ValType(f.Ret)}
	}
	m.Imports = append(m.Imports, i)
	return len(m.Imports) - 1
}

// Cat joins pieces of code.
func Cat(bs ...[]byte) []byte {
	var out []byte
	for _, b := range bs {
		out = append(out, b...)
	}
	return out
}
