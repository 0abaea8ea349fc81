# Regenerates opcosts.h (wasm byte opcode -> metering cost index) from the order
# the engine ABI fixes for its cost table (documented by wasmer/opcodes.go at the pinned commit).
import re,sys
src=open(sys.argv[1]).read().split('iota',1)
names=['OpcodeUnreachable']+[x for x in re.findall(r'Opcode[A-Za-z0-9]+',src[1])]
idx={n:i for i,n in enumerate(names)}
m={0:'Unreachable',1:'Nop',2:'Block',3:'Loop',4:'If',5:'Else',0xb:'End',0xc:'Br',0xd:'BrIf',0xe:'BrTable',0xf:'Return',0x10:'Call',0x11:'CallIndirect',0x1a:'Drop',0x1b:'Select',0x20:'LocalGet',0x21:'LocalSet',0x22:'LocalTee',0x23:'GlobalGet',0x24:'GlobalSet'}
for i,n in enumerate('I32Load I64Load F32Load F64Load I32Load8S I32Load8U I32Load16S I32Load16U I64Load8S I64Load8U I64Load16S I64Load16U I64Load32S I64Load32U I32Store I64Store F32Store F64Store I32Store8 I32Store16 I64Store8 I64Store16 I64Store32 MemorySize MemoryGrow I32Const I64Const F32Const F64Const'.split()): m[0x28+i]=n
for i,n in enumerate('I32Eqz I32Eq I32Ne I32LtS I32LtU I32GtS I32GtU I32LeS I32LeU I32GeS I32GeU I64Eqz I64Eq I64Ne I64LtS I64LtU I64GtS I64GtU I64LeS I64LeU I64GeS I64GeU F32Eq F32Ne F32Lt F32Gt F32Le F32Ge F64Eq F64Ne F64Lt F64Gt F64Le F64Ge I32Clz I32Ctz I32Popcnt I32Add I32Sub I32Mul I32DivS I32DivU I32RemS I32RemU I32And I32Or I32Xor I32Shl I32ShrS I32ShrU I32Rotl I32Rotr I64Clz I64Ctz I64Popcnt I64Add I64Sub I64Mul I64DivS I64DivU I64RemS I64RemU I64And I64Or I64Xor I64Shl I64ShrS I64ShrU I64Rotl I64Rotr'.split()): m[0x45+i]=n
m.update({0xa7:'I32WrapI64',0xac:'I64ExtendI32S',0xad:'I64ExtendI32U',0xc0:'I32Extend8S',0xc1:'I32Extend16S',0xc2:'I64Extend8S',0xc3:'I64Extend16S',0xc4:'I64Extend32S'})
assert idx['OpcodeLocalAllocate']==447 and len(names)==448
print('/* generated by gen_opcosts.py */\nstatic const uint16_t opcost[256] = {')
for k in sorted(m): print(f'  [0x{k:02x}] = {idx["Opcode"+m[k]]}, /* {m[k]} */')
print('};')
