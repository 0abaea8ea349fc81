/* A contract that performs, step by step, a script of host calls. */
#include "puppet_imports.h"
typedef unsigned char u8;
typedef unsigned int u32;
typedef unsigned long long u64;
#define SCRIPT ((u8 *)0x60000)
#define TRACE ((u8 *)0xA0000)
#define EXPORT(n) __attribute__((export_name(n)))

static u64 reg[16];
static u32 tlen;

static u32 g32(u8 *p) { return *(u32 *)p; }
static u64 g64(u8 *p) { return *(u64 *)p; }

static void trace(const u8 *p, u32 n) {
  u8 *d = TRACE + tlen;
  for (u32 i = 0; i < n; i++) d[i] = p[i];
  tlen += n;
}
static volatile u32 sink;

static void run(u8 *p, u32 len) {
  u8 *end = p + len;
  while (p < end) {
    switch (*p++) {
      case 0x00: return;
      case 0x01: {
        u8 *d = (u8 *)g32(p);
        u32 n = g32(p + 4);
        p += 8;
        for (u32 i = 0; i < n; i++) d[i] = p[i];
        p += n;
        break;
      }
      case 0x02: {
        u32 fn = *p++;
        u8 dst = *p++ & 15;
        long long a[14];
        for (u32 i = 0; i < nargs_of[fn]; i++) {
          u64 v = g64(p + 1);
          a[i] = (long long)(*p ? reg[v & 15] : v);
          p += 9;
        }
        reg[dst] = dispatch(fn, a);
        break;
      }
      case 0x03: trace((u8 *)&reg[*p++ & 15], 8); break;
      case 0x04: trace((u8 *)g32(p), g32(p + 4)); p += 8; break;
      case 0x05: h_finish((int)TRACE, (int)tlen); tlen = 0; break;
      case 0x06: {
        u8 r = *p & 15;
        u64 v = g64(p + 1);
        u32 n = g32(p + 9);
        p += 13;
        if (reg[r] != v) p += n;
        break;
      }
      case 0x07: {
        u64 n = g64(p);
        p += 8;
        if (n == 0) for (;;) sink++;
        for (u64 i = 0; i < n; i++) sink++;
        break;
      }
      case 0x08: __builtin_trap();
      case 0x09: reg[*p & 15] = __builtin_wasm_memory_grow(0, g32(p + 1)); p += 5; break;
      case 0x0a: reg[*p & 15] = g64((u8 *)g32(p + 1)); p += 5; break;
      case 0x0b: *(u64 *)g32(p + 1) = reg[*p & 15]; p += 5; break;
      case 0x0c: reg[*p & 15] += g64(p + 1); p += 9; break;
      case 0x0d: trace((u8 *)g32(p), (u32)reg[p[4] & 15]); p += 5; break; /* length in a register */
      default: __builtin_trap();
    }
  }
}

/* an instance may be used again: start every entry from the same state */
static void fresh(void) {
  tlen = 0;
  for (int i = 0; i < 16; i++) reg[i] = 0;
}
static void fromarg(void) {
  int n = h_getArgument(0, (int)SCRIPT);
  if (n > 0) run(SCRIPT, (u32)n);
}
static void fromkey(const char *k, int kl) {
  int n = h_storageLoad((int)k, kl, (int)SCRIPT);
  if (n > 0) run(SCRIPT, (u32)n);
}
EXPORT("init") void f_init(void) { fresh(); if (h_getNumArguments() > 0) fromarg(); }
EXPORT("run") void f_run(void) { fresh(); fromarg(); }
EXPORT("alt") void f_alt(void) { fresh(); fromarg(); }
EXPORT("callBack") void f_cb(void) { fresh(); fromkey("cb", 2); }
EXPORT("cbok") void f_cbok(void) { fresh(); fromkey("cbok", 4); }
EXPORT("cberr") void f_cberr(void) { fresh(); fromkey("cberr", 5); }
EXPORT("stored") void f_stored(void) { fresh(); fromkey("stored", 6); }
EXPORT("nop") void f_nop(void) {}
