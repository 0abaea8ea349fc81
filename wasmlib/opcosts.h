/* generated by gen_opcosts.py */
static const uint16_t opcost[256] = {
  [0x00] = 0, /* Unreachable */
  [0x01] = 1, /* Nop */
  [0x02] = 2, /* Block */
  [0x03] = 3, /* Loop */
  [0x04] = 4, /* If */
  [0x05] = 5, /* Else */
  [0x0b] = 6, /* End */
  [0x0c] = 7, /* Br */
  [0x0d] = 8, /* BrIf */
  [0x0e] = 9, /* BrTable */
  [0x0f] = 10, /* Return */
  [0x10] = 11, /* Call */
  [0x11] = 12, /* CallIndirect */
  [0x1a] = 13, /* Drop */
  [0x1b] = 14, /* Select */
  [0x20] = 16, /* LocalGet */
  [0x21] = 17, /* LocalSet */
  [0x22] = 18, /* LocalTee */
  [0x23] = 19, /* GlobalGet */
  [0x24] = 20, /* GlobalSet */
  [0x28] = 21, /* I32Load */
  [0x29] = 22, /* I64Load */
  [0x2a] = 23, /* F32Load */
  [0x2b] = 24, /* F64Load */
  [0x2c] = 25, /* I32Load8S */
  [0x2d] = 26, /* I32Load8U */
  [0x2e] = 27, /* I32Load16S */
  [0x2f] = 28, /* I32Load16U */
  [0x30] = 29, /* I64Load8S */
  [0x31] = 30, /* I64Load8U */
  [0x32] = 31, /* I64Load16S */
  [0x33] = 32, /* I64Load16U */
  [0x34] = 33, /* I64Load32S */
  [0x35] = 34, /* I64Load32U */
  [0x36] = 35, /* I32Store */
  [0x37] = 36, /* I64Store */
  [0x38] = 37, /* F32Store */
  [0x39] = 38, /* F64Store */
  [0x3a] = 39, /* I32Store8 */
  [0x3b] = 40, /* I32Store16 */
  [0x3c] = 41, /* I64Store8 */
  [0x3d] = 42, /* I64Store16 */
  [0x3e] = 43, /* I64Store32 */
  [0x3f] = 44, /* MemorySize */
  [0x40] = 45, /* MemoryGrow */
  [0x41] = 46, /* I32Const */
  [0x42] = 47, /* I64Const */
  [0x43] = 48, /* F32Const */
  [0x44] = 49, /* F64Const */
  [0x45] = 53, /* I32Eqz */
  [0x46] = 54, /* I32Eq */
  [0x47] = 55, /* I32Ne */
  [0x48] = 56, /* I32LtS */
  [0x49] = 57, /* I32LtU */
  [0x4a] = 58, /* I32GtS */
  [0x4b] = 59, /* I32GtU */
  [0x4c] = 60, /* I32LeS */
  [0x4d] = 61, /* I32LeU */
  [0x4e] = 62, /* I32GeS */
  [0x4f] = 63, /* I32GeU */
  [0x50] = 64, /* I64Eqz */
  [0x51] = 65, /* I64Eq */
  [0x52] = 66, /* I64Ne */
  [0x53] = 67, /* I64LtS */
  [0x54] = 68, /* I64LtU */
  [0x55] = 69, /* I64GtS */
  [0x56] = 70, /* I64GtU */
  [0x57] = 71, /* I64LeS */
  [0x58] = 72, /* I64LeU */
  [0x59] = 73, /* I64GeS */
  [0x5a] = 74, /* I64GeU */
  [0x5b] = 75, /* F32Eq */
  [0x5c] = 76, /* F32Ne */
  [0x5d] = 77, /* F32Lt */
  [0x5e] = 78, /* F32Gt */
  [0x5f] = 79, /* F32Le */
  [0x60] = 80, /* F32Ge */
  [0x61] = 81, /* F64Eq */
  [0x62] = 82, /* F64Ne */
  [0x63] = 83, /* F64Lt */
  [0x64] = 84, /* F64Gt */
  [0x65] = 85, /* F64Le */
  [0x66] = 86, /* F64Ge */
  [0x67] = 87, /* I32Clz */
  [0x68] = 88, /* I32Ctz */
  [0x69] = 89, /* I32Popcnt */
  [0x6a] = 90, /* I32Add */
  [0x6b] = 91, /* I32Sub */
  [0x6c] = 92, /* I32Mul */
  [0x6d] = 93, /* I32DivS */
  [0x6e] = 94, /* I32DivU */
  [0x6f] = 95, /* I32RemS */
  [0x70] = 96, /* I32RemU */
  [0x71] = 97, /* I32And */
  [0x72] = 98, /* I32Or */
  [0x73] = 99, /* I32Xor */
  [0x74] = 100, /* I32Shl */
  [0x75] = 101, /* I32ShrS */
  [0x76] = 102, /* I32ShrU */
  [0x77] = 103, /* I32Rotl */
  [0x78] = 104, /* I32Rotr */
  [0x79] = 105, /* I64Clz */
  [0x7a] = 106, /* I64Ctz */
  [0x7b] = 107, /* I64Popcnt */
  [0x7c] = 108, /* I64Add */
  [0x7d] = 109, /* I64Sub */
  [0x7e] = 110, /* I64Mul */
  [0x7f] = 111, /* I64DivS */
  [0x80] = 112, /* I64DivU */
  [0x81] = 113, /* I64RemS */
  [0x82] = 114, /* I64RemU */
  [0x83] = 115, /* I64And */
  [0x84] = 116, /* I64Or */
  [0x85] = 117, /* I64Xor */
  [0x86] = 118, /* I64Shl */
  [0x87] = 119, /* I64ShrS */
  [0x88] = 120, /* I64ShrU */
  [0x89] = 121, /* I64Rotl */
  [0x8a] = 122, /* I64Rotr */
  [0xa7] = 151, /* I32WrapI64 */
  [0xac] = 156, /* I64ExtendI32S */
  [0xad] = 157, /* I64ExtendI32U */
  [0xc0] = 176, /* I32Extend8S */
  [0xc1] = 177, /* I32Extend16S */
  [0xc2] = 178, /* I64Extend8S */
  [0xc3] = 179, /* I64Extend16S */
  [0xc4] = 180, /* I64Extend32S */
};
