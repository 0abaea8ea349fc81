/*
 * A small WebAssembly-MVP interpreter behind the wasmer C ABI used by arwen's
 * wasmer Go package. The repository ships the real engine only as a
 * pre-built shared library, and that library is not present for linux/amd64
 * in this sandbox; everything above the ABI (hosts, contexts, host API) is
 * exercised for real on top of this engine.
 *
 * Scope: integer-only WebAssembly MVP + sign extension, functions-only
 * imports, per-opcode metering against the cost table installed by the host,
 * and the runtime breakpoint checked after every imported call.
 */
#define _GNU_SOURCE
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <pthread.h>
#include <string.h>
#include <sys/mman.h>

#define OPCODE_COUNT 448
#define COST_LOCAL_ALLOCATE 447
#define COST_NONE 448
#define BREAK_NONE 0
#define BREAK_EXEC_FAILED 1
#define BREAK_OUT_OF_GAS 4

#define PAGE 65536u
#define MAX_PAGES 16384u
#define STACK_SLOTS (128u * 1024u)
#define MAX_FRAMES 4096u

enum { WASMER_OK = 1, WASMER_ERROR = 2 };
enum { K_FUNC = 0, K_GLOBAL = 1, K_MEM = 2, K_TABLE = 3 };
enum { T_I32 = 0, T_I64 = 1, T_F32 = 2, T_F64 = 3, T_ANY = 4 };

static __thread char last_error[512];
static __thread int last_error_len;

static void set_error(const char *m) {
  snprintf(last_error, sizeof last_error, "%s", m);
  last_error_len = (int)strlen(last_error) + 1;
}

int wasmer_last_error_length(void) { return last_error_len; }
int wasmer_last_error_message(char *buf, int len) {
  if (!buf || len < last_error_len) return -1;
  if (last_error_len == 0) return 0;
  memcpy(buf, last_error, (size_t)last_error_len);
  int n = last_error_len;
  last_error_len = 0;
  return n;
}

/* ---------------------------------------------------------------- imports */

typedef struct {
  const uint8_t *bytes;
  uint32_t bytes_len;
} byte_array;

typedef struct {
  void *fn;
  uint32_t np, nr;
  uint8_t params[16];
  uint8_t results[1];
} import_func;

typedef struct {
  byte_array module_name;
  byte_array import_name;
  uint32_t tag;
  const void *value;
} import_desc;

typedef struct {
  char *mod, *name;
  import_func f;
} host_import;

static host_import *g_imports;
static uint32_t g_nimports;
static uint32_t g_costs[OPCODE_COUNT];

import_func *wasmer_import_func_new(void (*fn)(void *), const uint32_t *params, unsigned np,
                                    const uint32_t *results, unsigned nr) {
  if (np > 16 || nr > 1) return NULL;
  import_func *f = calloc(1, sizeof *f);
  f->fn = (void *)fn;
  f->np = np;
  f->nr = nr;
  for (unsigned i = 0; i < np; i++) f->params[i] = (uint8_t)params[i];
  for (unsigned i = 0; i < nr; i++) f->results[i] = (uint8_t)results[i];
  return f;
}

void wasmer_import_func_destroy(import_func *f) { free(f); }

static char *dupn(const uint8_t *p, uint32_t n) {
  char *s = malloc(n + 1);
  memcpy(s, p, n);
  s[n] = 0;
  return s;
}

static void free_imports(host_import *t, uint32_t n) {
  for (uint32_t i = 0; i < n; i++) {
    free(t[i].mod);
    free(t[i].name);
  }
  free(t);
}

static int same_imports(const host_import *a, const host_import *b, uint32_t n) {
  for (uint32_t i = 0; i < n; i++)
    if (strcmp(a[i].mod, b[i].mod) || strcmp(a[i].name, b[i].name) || memcmp(&a[i].f, &b[i].f, sizeof a[i].f))
      return 0;
  return 1;
}

/* Hosts made at the same time share the cache: equal tables are kept, and a
   table that is replaced may still be in use, so it is never freed. */
int wasmer_import_object_cache_from_imports(import_desc *imps, uint32_t n) {
  static pthread_mutex_t lock = PTHREAD_MUTEX_INITIALIZER;
  host_import *t = calloc(n ? n : 1, sizeof *t);
  for (uint32_t i = 0; i < n; i++) {
    if (imps[i].tag != K_FUNC || !imps[i].value) {
      set_error("unsupported import kind");
      free_imports(t, i);
      return WASMER_ERROR;
    }
    t[i].mod = dupn(imps[i].module_name.bytes, imps[i].module_name.bytes_len);
    t[i].name = dupn(imps[i].import_name.bytes, imps[i].import_name.bytes_len);
    t[i].f = *(const import_func *)imps[i].value;
  }
  pthread_mutex_lock(&lock);
  if (g_imports && g_nimports == n && same_imports(g_imports, t, n)) {
    free_imports(t, n);
  } else {
    g_imports = t;
    g_nimports = n;
  }
  pthread_mutex_unlock(&lock);
  return WASMER_OK;
}

void wasmer_set_opcode_costs(const uint32_t *c) { memcpy(g_costs, c, sizeof g_costs); }

/* ----------------------------------------------------------------- module */

typedef struct {
  uint8_t np, nr;
  uint8_t res;
  uint8_t *params;
} ftype;

typedef struct {
  uint16_t op;
  uint16_t cost;
  uint32_t a;
  union {
    uint64_t imm;
    struct {
      uint32_t b, c;
    };
  };
} ins;

typedef struct {
  uint32_t type;
  uint32_t nlocals; /* params + declared */
  ins *code;
  uint32_t ncode;
  uint32_t max_height;
} func;

typedef struct {
  char *name;
  uint32_t namelen;
  uint8_t kind;
  uint32_t idx;
} export_t;

typedef struct {
  uint8_t type, mut;
  uint64_t val;
} global_t;

typedef struct {
  uint32_t target, height, arity;
} brtarget;

typedef struct memory {
  uint8_t *data;
  uint32_t pages, max;
  int refs;
} memory;

struct instance;

typedef struct {
  struct instance *in;
  uint8_t kind;
  export_t *ex;
} export_handle;

typedef struct {
  uint32_t n;
  export_handle h[];
} exports_handle;

typedef struct vstack {
  struct vstack *next;
  struct vstack **pprev;
  uint64_t *slots;
} vstack;

typedef struct instance {
  uint8_t *bytes;
  uint32_t nbytes;
  ftype *types;
  uint32_t ntypes;
  uint32_t nimp;
  import_func *imp;
  uint32_t *imp_type;
  char **imp_name;
  uint32_t nfuncs;
  func *funcs;
  uint32_t nglobals;
  global_t *globals;
  uint32_t nexports;
  export_t *exports;
  bool has_table;
  uint32_t table_min, table_max;
  int64_t *table;
  memory *mem;
  bool mem_declared;
  uint32_t mem_min, mem_max;
  uint32_t ntargets, captargets;
  brtarget *targets;
  /* run state */
  uint64_t used, limit, unmetered_locals, breakpoint;
  bool metering, breakpoints;
  uint32_t costs[OPCODE_COUNT + 1];
  void *data;
  vstack *stacks;
} instance;

typedef struct {
  uint64_t gas_limit;
  uint64_t unmetered_locals;
  bool opcode_trace;
  bool metering;
  bool runtime_breakpoints;
} options_t;

/* ----------------------------------------------------------------- reader */

typedef struct {
  const uint8_t *p, *end;
  bool bad;
} rd;

static uint8_t r_u8(rd *r) {
  if (r->p >= r->end) {
    r->bad = true;
    return 0;
  }
  return *r->p++;
}

static uint64_t r_leb(rd *r, int bits, bool sgn) {
  uint64_t v = 0;
  int shift = 0;
  int maxbytes = (bits + 6) / 7;
  for (int i = 0; i < maxbytes; i++) {
    uint8_t b = r_u8(r);
    if (r->bad) return 0;
    v |= (uint64_t)(b & 0x7f) << shift;
    shift += 7;
    if (!(b & 0x80)) {
      if (i == maxbytes - 1) {
        int left = bits - 7 * i; /* usable bits in this byte */
        if (!sgn) {
          if (left < 7 && (b >> left)) r->bad = true;
        } else if (left < 7) {
          int8_t top = (int8_t)(b << 1) >> 1;
          if ((top >> (left - 1)) != 0 && (top >> (left - 1)) != -1) r->bad = true;
        }
      }
      if (sgn && shift < 64 && (b & 0x40)) v |= ~0ull << shift;
      return v;
    }
  }
  r->bad = true;
  return 0;
}
static uint32_t r_u32(rd *r) { return (uint32_t)r_leb(r, 32, false); }
static int32_t r_s32(rd *r) { return (int32_t)r_leb(r, 32, true); }
static int64_t r_s64(rd *r) { return (int64_t)r_leb(r, 64, true); }

static bool utf8_ok(const uint8_t *s, uint32_t n) {
  uint32_t i = 0;
  while (i < n) {
    uint8_t c = s[i];
    if (c < 0x80) {
      i++;
      continue;
    }
    int k;
    uint32_t cp;
    if ((c & 0xe0) == 0xc0) {
      k = 1;
      cp = c & 0x1f;
    } else if ((c & 0xf0) == 0xe0) {
      k = 2;
      cp = c & 0x0f;
    } else if ((c & 0xf8) == 0xf0) {
      k = 3;
      cp = c & 7;
    } else
      return false;
    if (i + (uint32_t)k >= n + 0u && i + (uint32_t)k > n - 1) return false;
    for (int j = 1; j <= k; j++) {
      if ((s[i + (uint32_t)j] & 0xc0) != 0x80) return false;
      cp = (cp << 6) | (s[i + (uint32_t)j] & 0x3f);
    }
    if ((k == 1 && cp < 0x80) || (k == 2 && cp < 0x800) || (k == 3 && cp < 0x10000) || cp > 0x10ffff ||
        (cp >= 0xd800 && cp < 0xe000))
      return false;
    i += (uint32_t)k + 1;
  }
  return true;
}

/* returns malloc'd copy or NULL with r->bad */
static char *r_name(rd *r, uint32_t *len) {
  uint32_t n = r_u32(r);
  if (r->bad || (uint64_t)(r->end - r->p) < n || !utf8_ok(r->p, n)) {
    r->bad = true;
    return NULL;
  }
  char *s = dupn(r->p, n);
  r->p += n;
  if (len) *len = n;
  return s;
}

static int r_valtype(rd *r) {
  switch (r_u8(r)) {
    case 0x7f: return T_I32;
    case 0x7e: return T_I64;
    case 0x7d: return T_F32;
    case 0x7c: return T_F64;
  }
  r->bad = true;
  return T_I32;
}

/* -------------------------------------------------------- function bodies */

#include "opcosts.h"

typedef struct {
  uint8_t op;      /* 0x02 block, 0x03 loop, 0x04 if, 0x05 else, 0 func */
  uint8_t arity;   /* results */
  uint8_t res;
  bool unreachable;
  uint32_t height;
  uint32_t loop_target;
  uint32_t if_ins; /* index of the If to patch, or ~0 */
  uint32_t fix;    /* head of the fixup chain, index+1 into fix[] */
} ctrl;

typedef struct {
  uint32_t next;
  uint32_t kind; /* 0: code[idx].a ; 1: targets[idx].target */
  uint32_t idx;
} fixup;

typedef struct {
  instance *in;
  func *f;
  ftype *ft;
  rd *r;
  uint8_t *ltypes;
  uint8_t *stk;
  uint32_t sp, capstk, maxsp;
  ctrl *ctl;
  uint32_t nctl, capctl;
  fixup *fix;
  uint32_t nfix, capfix;
  uint32_t capcode;
  bool bad;
} val;

#define GROW(arr, n, cap)                             \
  do {                                                \
    if ((n) >= (cap)) {                               \
      (cap) = (cap) ? (cap)*2 : 16;                   \
      (arr) = realloc((arr), (size_t)(cap) * sizeof *(arr)); \
    }                                                 \
  } while (0)

static void v_push(val *v, int t) {
  GROW(v->stk, v->sp, v->capstk);
  v->stk[v->sp++] = (uint8_t)t;
  if (v->sp > v->maxsp) v->maxsp = v->sp;
}
static int v_pop_any(val *v) {
  ctrl *c = &v->ctl[v->nctl - 1];
  if (v->sp == c->height) {
    if (c->unreachable) return T_ANY;
    v->bad = true;
    return T_ANY;
  }
  return v->stk[--v->sp];
}
static int v_pop(val *v, int want) {
  int t = v_pop_any(v);
  if (t != want && t != T_ANY && want != T_ANY) v->bad = true;
  return t == T_ANY ? want : t;
}
static void v_unreach(val *v) {
  ctrl *c = &v->ctl[v->nctl - 1];
  v->sp = c->height;
  c->unreachable = true;
}
static ins *emit(val *v, uint16_t op, uint16_t cost) {
  GROW(v->f->code, v->f->ncode, v->capcode);
  ins *i = &v->f->code[v->f->ncode++];
  memset(i, 0, sizeof *i);
  i->op = op;
  i->cost = cost;
  return i;
}
static void push_ctrl(val *v, uint8_t op, int arity, int res) {
  GROW(v->ctl, v->nctl, v->capctl);
  ctrl *c = &v->ctl[v->nctl++];
  memset(c, 0, sizeof *c);
  c->op = op;
  c->arity = (uint8_t)arity;
  c->res = (uint8_t)res;
  c->height = v->sp;
  c->if_ins = ~0u;
}
static void add_fix(val *v, ctrl *c, uint32_t kind, uint32_t idx) {
  GROW(v->fix, v->nfix, v->capfix);
  v->fix[v->nfix] = (fixup){c->fix, kind, idx};
  v->nfix++;
  c->fix = v->nfix;
}
static int label_arity(ctrl *c) { return c->op == 0x03 ? 0 : c->arity; }

static uint32_t add_target(val *v, uint32_t depth) {
  instance *in = v->in;
  GROW(in->targets, in->ntargets, in->captargets);
  ctrl *c = &v->ctl[v->nctl - 1 - depth];
  brtarget *t = &in->targets[in->ntargets];
  t->height = c->height;
  t->arity = (uint32_t)label_arity(c);
  t->target = c->loop_target;
  if (c->op != 0x03) add_fix(v, c, 1, in->ntargets);
  return in->ntargets++;
}

static void check_end(val *v) {
  ctrl *c = &v->ctl[v->nctl - 1];
  if (c->arity) v_pop(v, c->res);
  if (v->sp != c->height) v->bad = true;
}

static void patch(val *v, ctrl *c, uint32_t to) {
  for (uint32_t f = c->fix; f; f = v->fix[f - 1].next) {
    fixup *x = &v->fix[f - 1];
    if (x->kind == 0)
      v->f->code[x->idx].a = to;
    else
      v->in->targets[x->idx].target = to;
  }
  c->fix = 0;
}

static bool blocktype(val *v, int *arity, int *res) {
  rd *r = v->r;
  uint8_t b = r_u8(r);
  *res = T_I32;
  *arity = 1;
  switch (b) {
    case 0x40: *arity = 0; return true;
    case 0x7f: *res = T_I32; return true;
    case 0x7e: *res = T_I64; return true;
    default: return false; /* floats and multi-value are rejected */
  }
}

static ftype *func_type(instance *in, uint32_t idx) {
  if (idx < in->nimp) return &in->types[in->imp_type[idx]];
  return &in->types[in->funcs[idx - in->nimp].type];
}

static const char *compile_body(instance *in, func *f, rd *r, uint32_t nfuncs_total) {
  val V = {0}, *v = &V;
  v->in = in;
  v->f = f;
  v->r = r;
  v->ft = &in->types[f->type];
  const char *err = NULL;
  uint32_t ngroups = r_u32(r);
  uint64_t total = v->ft->np;
  uint32_t caplt = 0, nlt = 0;
  for (uint32_t i = 0; i < v->ft->np; i++) {
    GROW(v->ltypes, nlt, caplt);
    v->ltypes[nlt++] = v->ft->params[i];
  }
  uint64_t declared = 0;
  for (uint32_t g = 0; g < ngroups && !r->bad; g++) {
    uint32_t n = r_u32(r);
    int t = r_valtype(r);
    total += n;
    declared += n;
    if (declared > 4000) {
      err = "too many locals";
      goto done;
    }
    for (uint32_t i = 0; i < n && !r->bad; i++) {
      GROW(v->ltypes, nlt, caplt);
      v->ltypes[nlt++] = (uint8_t)t;
    }
  }
  f->nlocals = (uint32_t)total;
  push_ctrl(v, 0, v->ft->nr, v->ft->res);
  while (v->nctl && !r->bad && !v->bad) {
    uint8_t op = r_u8(r);
    if (r->bad) break;
    uint16_t cost = opcost[op];
    switch (op) {
      case 0x00:
        emit(v, op, cost);
        v_unreach(v);
        break;
      case 0x01:
        emit(v, op, cost);
        break;
      case 0x02:
      case 0x03:
      case 0x04: {
        int ar, rs;
        if (!blocktype(v, &ar, &rs)) {
          err = "unsupported block type";
          goto done;
        }
        if (op == 0x04) v_pop(v, T_I32);
        emit(v, op, cost);
        push_ctrl(v, op, ar, rs);
        ctrl *c = &v->ctl[v->nctl - 1];
        c->loop_target = f->ncode;
        if (op == 0x04) c->if_ins = f->ncode - 1;
        break;
      }
      case 0x05: {
        ctrl *c = &v->ctl[v->nctl - 1];
        if (c->op != 0x04) {
          v->bad = true;
          break;
        }
        check_end(v);
        emit(v, op, cost);
        add_fix(v, c, 0, f->ncode - 1); /* jump to the End */
        f->code[c->if_ins].a = f->ncode;
        c->if_ins = ~0u;
        c->op = 0x05;
        c->unreachable = false;
        v->sp = c->height;
        break;
      }
      case 0x0b: {
        check_end(v);
        ctrl c = v->ctl[v->nctl - 1];
        if (c.op == 0x04 && c.arity) v->bad = true;
        /* An End is metered as part of the body it closes: a branch to the
         * label, a false If, or the end of a then-arm skips it. */
        emit(v, 0x0b, cost);
        if (c.if_ins != ~0u && c.op == 0x04) f->code[c.if_ins].a = f->ncode;
        patch(v, &v->ctl[v->nctl - 1], f->ncode);
        v->sp = c.height;
        v->nctl--;
        if (v->nctl) {
          if (c.arity) v_push(v, c.res);
        } else {
          ins *ret = emit(v, 0x0f, COST_NONE);
          ret->c = v->ft->nr;
        }
        break;
      }
      case 0x0c:
      case 0x0d: {
        uint32_t d = r_u32(r);
        if (d >= v->nctl) {
          v->bad = true;
          break;
        }
        if (op == 0x0d) v_pop(v, T_I32);
        ctrl *c = &v->ctl[v->nctl - 1 - d];
        int la = label_arity(c);
        if (la) v_pop(v, c->res);
        ins *i = emit(v, op, cost);
        i->a = c->loop_target;
        i->b = c->height;
        i->c = (uint32_t)la;
        if (c->op != 0x03) add_fix(v, c, 0, f->ncode - 1);
        if (op == 0x0c)
          v_unreach(v);
        else if (la)
          v_push(v, c->res);
        break;
      }
      case 0x0e: {
        uint32_t n = r_u32(r);
        if (r->bad || n > (uint32_t)(r->end - r->p)) {
          r->bad = true;
          break;
        }
        v_pop(v, T_I32);
        emit(v, op, cost);
        uint32_t self = f->ncode - 1;
        uint32_t first = in->ntargets;
        int la = -1, lr = 0;
        for (uint32_t k = 0; k <= n && !r->bad && !v->bad; k++) {
          uint32_t d = r_u32(r);
          if (d >= v->nctl) {
            v->bad = true;
            break;
          }
          ctrl *c = &v->ctl[v->nctl - 1 - d];
          int a = label_arity(c);
          if (la < 0) {
            la = a;
            lr = c->res;
          } else if (a != la || (la && lr != c->res))
            v->bad = true;
          add_target(v, d);
        }
        if (v->bad || r->bad) break;
        if (la) v_pop(v, lr);
        f->code[self].a = first;
        f->code[self].b = n;
        v_unreach(v);
        break;
      }
      case 0x0f: {
        if (v->ft->nr) v_pop(v, v->ft->res);
        ins *i = emit(v, op, cost);
        i->c = v->ft->nr;
        v_unreach(v);
        break;
      }
      case 0x10: {
        uint32_t fi = r_u32(r);
        if (r->bad || fi >= nfuncs_total) {
          v->bad = true;
          break;
        }
        ftype *t = func_type(in, fi);
        for (int k = t->np - 1; k >= 0; k--) v_pop(v, t->params[k]);
        ins *i = emit(v, op, cost);
        i->a = fi;
        if (t->nr) v_push(v, t->res);
        break;
      }
      case 0x11: {
        uint32_t ti = r_u32(r);
        uint8_t z = r_u8(r);
        if (r->bad || ti >= in->ntypes || z != 0 || !in->has_table) {
          v->bad = true;
          break;
        }
        v_pop(v, T_I32);
        ftype *t = &in->types[ti];
        for (int k = t->np - 1; k >= 0; k--) v_pop(v, t->params[k]);
        ins *i = emit(v, op, cost);
        i->a = ti;
        if (t->nr) v_push(v, t->res);
        break;
      }
      case 0x1a:
        v_pop_any(v);
        emit(v, op, cost);
        break;
      case 0x1b: {
        v_pop(v, T_I32);
        int a = v_pop_any(v);
        int b = v_pop(v, a);
        emit(v, op, cost);
        v_push(v, a == T_ANY ? b : a);
        break;
      }
      case 0x20:
      case 0x21:
      case 0x22: {
        uint32_t li = r_u32(r);
        if (r->bad || li >= nlt) {
          v->bad = true;
          break;
        }
        if (op != 0x20) v_pop(v, v->ltypes[li]);
        ins *i = emit(v, op, cost);
        i->a = li;
        if (op != 0x21) v_push(v, v->ltypes[li]);
        break;
      }
      case 0x23:
      case 0x24: {
        uint32_t gi = r_u32(r);
        if (r->bad || gi >= in->nglobals) {
          v->bad = true;
          break;
        }
        if (op == 0x24) {
          if (!in->globals[gi].mut) v->bad = true;
          v_pop(v, in->globals[gi].type);
        }
        ins *i = emit(v, op, cost);
        i->a = gi;
        if (op == 0x23) v_push(v, in->globals[gi].type);
        break;
      }
      case 0x28: case 0x29: case 0x2c: case 0x2d: case 0x2e: case 0x2f:
      case 0x30: case 0x31: case 0x32: case 0x33: case 0x34: case 0x35:
      case 0x36: case 0x37: case 0x3a: case 0x3b: case 0x3c: case 0x3d: case 0x3e: {
        static const uint8_t width[] = {4, 8, 0, 0, 1, 1, 2, 2, 1, 1, 2, 2, 4, 4, 4, 8, 0, 0, 1, 2, 1, 2, 4};
        uint8_t w = width[op - 0x28];
        uint32_t align = r_u32(r), off = r_u32(r);
        if (r->bad || !in->mem_declared || align > 3 || (1u << align) > w) {
          v->bad = true;
          break;
        }
        bool is64 = op == 0x29 || (op >= 0x30 && op <= 0x35) || op == 0x37 || (op >= 0x3c && op <= 0x3e);
        if (op >= 0x36) {
          v_pop(v, is64 ? T_I64 : T_I32);
          v_pop(v, T_I32);
        } else
          v_pop(v, T_I32);
        ins *i = emit(v, op, cost);
        i->a = off;
        if (op < 0x36) v_push(v, is64 ? T_I64 : T_I32);
        break;
      }
      case 0x3f:
      case 0x40:
        if (r_u8(r) != 0 || !in->mem_declared) {
          v->bad = true;
          break;
        }
        if (op == 0x40) v_pop(v, T_I32);
        emit(v, op, cost);
        v_push(v, T_I32);
        break;
      case 0x41: {
        int32_t k = r_s32(r);
        emit(v, op, cost)->imm = (uint32_t)k;
        v_push(v, T_I32);
        break;
      }
      case 0x42: {
        int64_t k = r_s64(r);
        emit(v, op, cost)->imm = (uint64_t)k;
        v_push(v, T_I64);
        break;
      }
      case 0x45: /* i32.eqz */
        v_pop(v, T_I32);
        emit(v, op, cost);
        v_push(v, T_I32);
        break;
      case 0x50: /* i64.eqz */
        v_pop(v, T_I64);
        emit(v, op, cost);
        v_push(v, T_I32);
        break;
      case 0xa7: /* wrap */
        v_pop(v, T_I64);
        emit(v, op, cost);
        v_push(v, T_I32);
        break;
      case 0xac:
      case 0xad:
        v_pop(v, T_I32);
        emit(v, op, cost);
        v_push(v, T_I64);
        break;
      default:
        if (op >= 0x46 && op <= 0x4f) { /* i32 compare */
          v_pop(v, T_I32);
          v_pop(v, T_I32);
          emit(v, op, cost);
          v_push(v, T_I32);
        } else if (op >= 0x51 && op <= 0x5a) {
          v_pop(v, T_I64);
          v_pop(v, T_I64);
          emit(v, op, cost);
          v_push(v, T_I32);
        } else if ((op >= 0x67 && op <= 0x69) || op == 0xc0 || op == 0xc1) {
          v_pop(v, T_I32);
          emit(v, op, cost);
          v_push(v, T_I32);
        } else if (op >= 0x6a && op <= 0x78) {
          v_pop(v, T_I32);
          v_pop(v, T_I32);
          emit(v, op, cost);
          v_push(v, T_I32);
        } else if ((op >= 0x79 && op <= 0x7b) || (op >= 0xc2 && op <= 0xc4)) {
          v_pop(v, T_I64);
          emit(v, op, cost);
          v_push(v, T_I64);
        } else if (op >= 0x7c && op <= 0x8a) {
          v_pop(v, T_I64);
          v_pop(v, T_I64);
          emit(v, op, cost);
          v_push(v, T_I64);
        } else {
          err = "unsupported or floating-point opcode";
          goto done;
        }
    }
  }
  if (r->bad || v->bad || v->nctl || r->p != r->end) err = "invalid function body";
  f->max_height = v->maxsp + 1;
done:
  free(v->ltypes);
  free(v->stk);
  free(v->ctl);
  free(v->fix);
  return err;
}

/* ------------------------------------------------------------------ load */

/* Inaccessible guards surround every memory, so that an access outside of it, or to where it was before it grew, faults. */
#define GUARD ((size_t)1 << 21)

static uint8_t *region(size_t n) {
  uint8_t *p = mmap(NULL, n + 2 * GUARD, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) return NULL;
  if (n && mprotect(p + GUARD, n, PROT_READ | PROT_WRITE)) {
    munmap(p, n + 2 * GUARD);
    return NULL;
  }
  return p + GUARD;
}

static void mem_unref(memory *m) {
  if (!m || --m->refs > 0) return;
  if (m->data) munmap(m->data - GUARD, (size_t)m->pages * PAGE + 2 * GUARD);
  free(m);
}

static memory *mem_new(uint32_t min, uint32_t max) {
  memory *m = calloc(1, sizeof *m);
  m->pages = min;
  m->max = max;
  m->refs = 1;
  m->data = region((size_t)min * PAGE);
  if (!m->data) {
    free(m);
    return NULL;
  }
  return m;
}

static bool mem_grow(memory *m, uint32_t delta) {
  uint64_t np = (uint64_t)m->pages + delta;
  if (np > m->max || np > MAX_PAGES) return false;
  if (!delta) return true;
  size_t oldn = (size_t)m->pages * PAGE;
  uint8_t *p = region((size_t)np * PAGE);
  if (!p) return false;
  if (oldn && mremap(m->data, oldn, oldn, MREMAP_MAYMOVE | MREMAP_FIXED, p) == MAP_FAILED) {
    munmap(p - GUARD, (size_t)np * PAGE + 2 * GUARD);
    return false;
  }
  munmap(m->data - GUARD, GUARD); /* what was between them has gone already, and somebody else may be there by now */
  munmap(m->data + oldn, GUARD);
  m->data = p;
  m->pages = (uint32_t)np;
  return true;
}

static void inst_free(instance *in) {
  if (!in) return;
  for (vstack *s = in->stacks; s;) {
    vstack *n = s->next;
    munmap(s->slots, STACK_SLOTS * sizeof(uint64_t));
    free(s);
    s = n;
  }
  for (uint32_t i = 0; i < in->ntypes; i++) free(in->types[i].params);
  free(in->types);
  for (uint32_t i = 0; i < in->nimp; i++) free(in->imp_name[i]);
  free(in->imp_name);
  free(in->imp);
  free(in->imp_type);
  for (uint32_t i = 0; i < in->nfuncs; i++) free(in->funcs[i].code);
  free(in->funcs);
  free(in->globals);
  for (uint32_t i = 0; i < in->nexports; i++) free(in->exports[i].name);
  free(in->exports);
  free(in->table);
  free(in->targets);
  free(in->bytes);
  mem_unref(in->mem);
  free(in);
}

static bool const_expr(instance *in, rd *r, int want, uint64_t *out) {
  uint8_t op = r_u8(r);
  int t;
  (void)in;
  if (op == 0x41) {
    *out = (uint32_t)r_s32(r);
    t = T_I32;
  } else if (op == 0x42) {
    *out = (uint64_t)r_s64(r);
    t = T_I64;
  } else
    return false;
  return t == want && r_u8(r) == 0x0b && !r->bad;
}

static bool r_limits(rd *r, uint32_t *min, uint32_t *max, uint32_t cap) {
  uint8_t fl = r_u8(r);
  if (fl > 1) return false;
  *min = r_u32(r);
  *max = cap;
  if (fl == 1) {
    *max = r_u32(r);
    if (*max < *min) return false;
  }
  return !r->bad && *min <= cap && *max <= cap;
}

#define FAIL(m)  \
  do {           \
    err = (m);   \
    goto failed; \
  } while (0)

static instance *inst_load(const uint8_t *bytes, uint32_t n, const options_t *opt) {
  const char *err = NULL;
  instance *in = calloc(1, sizeof *in);
  in->bytes = malloc(n ? n : 1);
  memcpy(in->bytes, bytes, n);
  in->nbytes = n;
  rd R = {in->bytes, in->bytes + n, false}, *r = &R;
  static const uint8_t magic[8] = {0, 'a', 's', 'm', 1, 0, 0, 0};
  if (n < 8 || memcmp(in->bytes, magic, 8)) FAIL("bad magic or version");
  R.p += 8;
  int last = 0;
  uint32_t ndecl = 0, ncode = 0;
  const uint8_t *data_p = NULL, *data_end = NULL, *elem_p = NULL, *elem_end = NULL;
  while (R.p < R.end) {
    uint8_t id = r_u8(r);
    uint32_t len = r_u32(r);
    if (R.bad || len > (uint64_t)(R.end - R.p)) FAIL("malformed section");
    rd S = {R.p, R.p + len, false}, *s = &S;
    R.p += len;
    if (id == 0) {
      char *nm = r_name(s, NULL);
      free(nm);
      if (S.bad) FAIL("malformed custom section");
      continue;
    }
    if (id > 11 || id <= last) FAIL("unexpected section");
    last = id;
    switch (id) {
      case 1: {
        uint32_t k = r_u32(s);
        if (S.bad || k > len) FAIL("types");
        in->types = calloc(k ? k : 1, sizeof *in->types);
        for (uint32_t i = 0; i < k; i++) {
          if (r_u8(s) != 0x60) FAIL("function type");
          uint32_t np = r_u32(s);
          if (S.bad || np > 200) FAIL("too many parameters");
          ftype *t = &in->types[i];
          t->params = calloc(np ? np : 1, 1);
          t->np = (uint8_t)np;
          in->ntypes = i + 1;
          for (uint32_t j = 0; j < np; j++) t->params[j] = (uint8_t)r_valtype(s);
          uint32_t nr = r_u32(s);
          if (S.bad || nr > 1) FAIL("multiple results");
          t->nr = (uint8_t)nr;
          if (nr) t->res = (uint8_t)r_valtype(s);
          if (S.bad) FAIL("type section");
        }
        break;
      }
      case 2: {
        uint32_t k = r_u32(s);
        if (S.bad || k > len) FAIL("imports");
        in->imp = calloc(k ? k : 1, sizeof *in->imp);
        in->imp_type = calloc(k ? k : 1, sizeof *in->imp_type);
        in->imp_name = calloc(k ? k : 1, sizeof *in->imp_name);
        for (uint32_t i = 0; i < k; i++) {
          char *mod = r_name(s, NULL);
          char *nm = S.bad ? NULL : r_name(s, NULL);
          uint8_t kind = r_u8(s);
          uint32_t ti = r_u32(s);
          if (S.bad || kind != 0 || ti >= in->ntypes) {
            free(mod);
            free(nm);
            FAIL("unsupported import");
          }
          host_import *h = NULL;
          for (uint32_t j = 0; j < g_nimports; j++)
            if (!strcmp(g_imports[j].name, nm) && !strcmp(g_imports[j].mod, mod)) h = &g_imports[j];
          free(mod);
          in->imp_name[i] = nm;
          in->imp_type[i] = ti;
          in->nimp = i + 1;
          if (!h) FAIL("link error: import not found");
          ftype *t = &in->types[ti];
          bool ok = t->np == h->f.np && t->nr == h->f.nr;
          for (uint32_t j = 0; ok && j < t->np; j++) ok = t->params[j] == h->f.params[j];
          if (ok && t->nr) ok = t->res == h->f.results[0];
          if (!ok) FAIL("link error: incompatible import type");
          in->imp[i] = h->f;
        }
        break;
      }
      case 3: {
        uint32_t k = r_u32(s);
        if (S.bad || k > len) FAIL("functions");
        in->funcs = calloc(k ? k : 1, sizeof *in->funcs);
        in->nfuncs = k;
        ndecl = k;
        for (uint32_t i = 0; i < k; i++) {
          in->funcs[i].type = r_u32(s);
          if (S.bad || in->funcs[i].type >= in->ntypes) FAIL("function type index");
        }
        break;
      }
      case 4: {
        uint32_t k = r_u32(s);
        if (S.bad || k > 1) FAIL("tables");
        if (k) {
          if (r_u8(s) != 0x70 || !r_limits(s, &in->table_min, &in->table_max, 10000000)) FAIL("table");
          in->has_table = true;
        }
        break;
      }
      case 5: {
        uint32_t k = r_u32(s);
        if (S.bad || k > 1) FAIL("memories");
        if (k) {
          if (!r_limits(s, &in->mem_min, &in->mem_max, 65536)) FAIL("memory");
          in->mem_declared = true;
        }
        break;
      }
      case 6: {
        uint32_t k = r_u32(s);
        if (S.bad || k > len) FAIL("globals");
        in->globals = calloc(k ? k : 1, sizeof *in->globals);
        for (uint32_t i = 0; i < k; i++) {
          in->globals[i].type = (uint8_t)r_valtype(s);
          in->globals[i].mut = r_u8(s);
          if (S.bad || in->globals[i].mut > 1) FAIL("global");
          if (!const_expr(in, s, in->globals[i].type, &in->globals[i].val)) FAIL("global initializer");
          in->nglobals = i + 1;
        }
        break;
      }
      case 7: {
        uint32_t k = r_u32(s);
        if (S.bad || k > len) FAIL("exports");
        in->exports = calloc(k ? k : 1, sizeof *in->exports);
        for (uint32_t i = 0; i < k; i++) {
          export_t *e = &in->exports[i];
          e->name = r_name(s, &e->namelen);
          in->nexports = i + (e->name ? 1 : 0);
          uint8_t kd = r_u8(s);
          e->idx = r_u32(s);
          if (S.bad || kd > 3) FAIL("export");
          static const uint8_t map[4] = {K_FUNC, K_TABLE, K_MEM, K_GLOBAL};
          e->kind = map[kd];
          if ((kd == 0 && e->idx >= in->nimp + in->nfuncs) || (kd == 1 && (!in->has_table || e->idx)) ||
              (kd == 2 && (!in->mem_declared || e->idx)) || (kd == 3 && e->idx >= in->nglobals))
            FAIL("export index");
          for (uint32_t j = 0; j < i; j++)
            if (in->exports[j].namelen == e->namelen && !memcmp(in->exports[j].name, e->name, e->namelen))
              FAIL("duplicate export name");
        }
        break;
      }
      case 8: FAIL("start functions are not supported");
      case 9: elem_p = S.p; elem_end = S.end; S.p = S.end; break;
      case 10: {
        ncode = r_u32(s);
        if (S.bad || ncode != ndecl) FAIL("code count");
        for (uint32_t i = 0; i < ncode; i++) {
          uint32_t bl = r_u32(s);
          if (S.bad || bl > (uint64_t)(S.end - S.p)) FAIL("code body");
          rd B = {S.p, S.p + bl, false};
          S.p += bl;
          const char *e2 = compile_body(in, &in->funcs[i], &B, in->nimp + in->nfuncs);
          if (e2) FAIL(e2);
        }
        break;
      }
      case 11: data_p = S.p; data_end = S.end; S.p = S.end; break;
    }
    if (S.bad || S.p != S.end) FAIL("section size mismatch");
  }
  if (ncode != ndecl) FAIL("missing code section");
  if (in->mem_declared) {
    if (in->mem_min > MAX_PAGES || !(in->mem = mem_new(in->mem_min, in->mem_max))) FAIL("memory too large");
  }
  if (in->has_table) {
    in->table = malloc(sizeof *in->table * (in->table_min ? in->table_min : 1));
    for (uint32_t i = 0; i < in->table_min; i++) in->table[i] = -1;
  }
  if (elem_p) {
    rd S = {elem_p, elem_end, false}, *s = &S;
    uint32_t k = r_u32(s);
    for (uint32_t i = 0; i < k; i++) {
      uint64_t off;
      if (r_u32(s) != 0 || !in->has_table || !const_expr(in, s, T_I32, &off)) FAIL("element segment");
      uint32_t m = r_u32(s);
      if (S.bad || off + m > in->table_min) FAIL("element segment does not fit");
      for (uint32_t j = 0; j < m; j++) {
        uint32_t fi = r_u32(s);
        if (S.bad || fi >= in->nimp + in->nfuncs) FAIL("element index");
        in->table[off + j] = fi;
      }
    }
    if (S.bad || S.p != S.end) FAIL("element section");
  }
  if (data_p) {
    rd S = {data_p, data_end, false}, *s = &S;
    uint32_t k = r_u32(s);
    for (uint32_t i = 0; i < k; i++) {
      uint64_t off;
      if (r_u32(s) != 0 || !in->mem || !const_expr(in, s, T_I32, &off)) FAIL("data segment");
      uint32_t m = r_u32(s);
      if (S.bad || m > (uint64_t)(S.end - S.p) || off + m > (uint64_t)in->mem->pages * PAGE) FAIL("data segment does not fit");
      memcpy(in->mem->data + off, S.p, m);
      S.p += m;
    }
    if (S.bad || S.p != S.end) FAIL("data section");
  }
  in->limit = opt->gas_limit;
  in->unmetered_locals = opt->unmetered_locals;
  in->metering = opt->metering;
  in->breakpoints = opt->runtime_breakpoints;
  memcpy(in->costs, g_costs, sizeof g_costs); /* costs[COST_NONE] stays 0 */
  return in;
failed:
  set_error(err);
  inst_free(in);
  return NULL;
}

int wasmer_instantiate_with_options(instance **out, uint8_t *bytes, uint32_t n, const options_t *opt) {
  instance *in = inst_load(bytes, n, opt);
  if (!in) return WASMER_ERROR;
  *out = in;
  return WASMER_OK;
}

static const uint8_t cache_magic[8] = {'V', 'W', 'C', 'A', 'C', 'H', 'E', '1'};

int wasmer_instance_cache(instance *in, uint8_t **out, uint32_t *len) {
  uint8_t *p = malloc(in->nbytes + 8u);
  memcpy(p, cache_magic, 8);
  memcpy(p + 8, in->bytes, in->nbytes);
  *out = p;
  *len = in->nbytes + 8u;
  return WASMER_OK;
}

int wasmer_instance_from_cache(instance **out, uint8_t *bytes, uint32_t n, const options_t *opt) {
  if (n < 8 || memcmp(bytes, cache_magic, 8)) {
    set_error("invalid cached artifact");
    return WASMER_ERROR;
  }
  return wasmer_instantiate_with_options(out, bytes + 8, n - 8, opt);
}

void wasmer_instance_destroy(instance *in) { inst_free(in); }

/* --------------------------------------------------------------- accessors */

uint64_t wasmer_instance_get_points_used(instance *in) { return in->used; }
void wasmer_instance_set_points_used(instance *in, uint64_t g) { in->used = g; }
void wasmer_instance_set_points_limit(instance *in, uint64_t l) { in->limit = l; }
uint64_t wasmer_instance_get_runtime_breakpoint_value(instance *in) { return in->breakpoint; }
void wasmer_instance_set_runtime_breakpoint_value(instance *in, uint64_t v) { in->breakpoint = v; }
bool wasmer_instance_is_function_imported(instance *in, const char *name) {
  for (uint32_t i = 0; i < in->nimp; i++)
    if (!strcmp(in->imp_name[i], name)) return true;
  return false;
}
void *wasmer_instance_context_get(instance *in) { return in; }
void *wasmer_instance_context_data_get(void *ctx) { return ((instance *)ctx)->data; }
void wasmer_instance_context_data_set(instance *in, void *d) { in->data = d; }
memory *wasmer_instance_context_memory(const void *ctx, uint32_t idx) {
  (void)idx;
  return ((const instance *)ctx)->mem;
}
uint8_t *wasmer_memory_data(memory *m) { return m->data; }
uint32_t wasmer_memory_data_length(memory *m) { return m->pages * PAGE; }
int wasmer_memory_grow(memory *m, uint32_t d) {
  if (mem_grow(m, d)) return WASMER_OK;
  set_error("cannot grow memory");
  return WASMER_ERROR;
}
void wasmer_memory_destroy(memory *m) { mem_unref(m); }

void wasmer_instance_exports(instance *in, exports_handle **out) {
  exports_handle *h = calloc(1, sizeof *h + sizeof(export_handle) * in->nexports);
  h->n = in->nexports;
  for (uint32_t i = 0; i < h->n; i++) {
    h->h[i].in = in;
    h->h[i].kind = in->exports[i].kind;
    h->h[i].ex = &in->exports[i];
  }
  *out = h;
}
int wasmer_exports_len(exports_handle *h) { return (int)h->n; }
export_handle *wasmer_exports_get(exports_handle *h, int i) { return &h->h[i]; }
void wasmer_exports_destroy(exports_handle *h) { free(h); }
uint32_t wasmer_export_kind(export_handle *h) { return h->kind; }
byte_array wasmer_export_name(export_handle *h) {
  return (byte_array){(const uint8_t *)h->ex->name, h->ex->namelen};
}
export_handle *wasmer_export_to_func(export_handle *h) { return h; }
int wasmer_export_to_memory(const export_handle *h, memory **out) {
  if (h->kind != K_MEM) return WASMER_ERROR;
  h->in->mem->refs++;
  *out = h->in->mem;
  return WASMER_OK;
}
int wasmer_export_func_params_arity(const export_handle *h, uint32_t *n) {
  *n = func_type(h->in, h->ex->idx)->np;
  return WASMER_OK;
}
int wasmer_export_func_returns_arity(const export_handle *h, uint32_t *n) {
  *n = func_type(h->in, h->ex->idx)->nr;
  return WASMER_OK;
}
int wasmer_export_func_params(const export_handle *h, uint32_t *p, uint32_t n) {
  ftype *t = func_type(h->in, h->ex->idx);
  for (uint32_t i = 0; i < n && i < t->np; i++) p[i] = t->params[i];
  return WASMER_OK;
}

/* --------------------------------------------------------------- execution */

typedef int64_t (*host0)(void *, ...);

static uint64_t call_host(instance *in, import_func *f, const uint64_t *a) {
  typedef uint64_t U;
  void *c = in, *p = f->fn;
  U r;
  switch (f->np) {
    case 0: r = ((U(*)(void *))p)(c); break;
    case 1: r = ((U(*)(void *, U))p)(c, a[0]); break;
    case 2: r = ((U(*)(void *, U, U))p)(c, a[0], a[1]); break;
    case 3: r = ((U(*)(void *, U, U, U))p)(c, a[0], a[1], a[2]); break;
    case 4: r = ((U(*)(void *, U, U, U, U))p)(c, a[0], a[1], a[2], a[3]); break;
    case 5: r = ((U(*)(void *, U, U, U, U, U))p)(c, a[0], a[1], a[2], a[3], a[4]); break;
    case 6: r = ((U(*)(void *, U, U, U, U, U, U))p)(c, a[0], a[1], a[2], a[3], a[4], a[5]); break;
    case 7: r = ((U(*)(void *, U, U, U, U, U, U, U))p)(c, a[0], a[1], a[2], a[3], a[4], a[5], a[6]); break;
    case 8: r = ((U(*)(void *, U, U, U, U, U, U, U, U))p)(c, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7]); break;
    case 9: r = ((U(*)(void *, U, U, U, U, U, U, U, U, U))p)(c, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8]); break;
    case 10: r = ((U(*)(void *, U, U, U, U, U, U, U, U, U, U))p)(c, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9]); break;
    case 11: r = ((U(*)(void *, U, U, U, U, U, U, U, U, U, U, U))p)(c, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10]); break;
    case 12: r = ((U(*)(void *, U, U, U, U, U, U, U, U, U, U, U, U))p)(c, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11]); break;
    case 13: r = ((U(*)(void *, U, U, U, U, U, U, U, U, U, U, U, U, U))p)(c, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12]); break;
    case 14: r = ((U(*)(void *, U, U, U, U, U, U, U, U, U, U, U, U, U, U))p)(c, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12], a[13]); break;
    default: abort();
  }
  if (f->nr == 0) return 0;
  return f->results[0] == T_I32 ? (uint32_t)r : r;
}

typedef struct {
  func *f;
  uint32_t pc;
  uint32_t base;
} frame;

static inline bool charge(instance *in, uint64_t c) {
  if (!in->metering) return true;
  uint64_t u = in->used + c;
  if (u < in->used) u = UINT64_MAX;
  in->used = u;
  if (u > in->limit) {
    in->breakpoint = BREAK_OUT_OF_GAS;
    set_error("runtime breakpoint: out of gas");
    return false;
  }
  return true;
}

#define TRAP(m)     \
  do {              \
    set_error(m);   \
    goto trapped;   \
  } while (0)

static vstack *stack_new(instance *in) {
  void *m = mmap(NULL, STACK_SLOTS * sizeof(uint64_t), PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (m == MAP_FAILED) return NULL;
  vstack *s = malloc(sizeof *s);
  s->slots = m;
  s->next = in->stacks;
  s->pprev = &in->stacks;
  if (in->stacks) in->stacks->pprev = &s->next;
  in->stacks = s;
  return s;
}
static void stack_free(vstack *s) {
  *s->pprev = s->next;
  if (s->next) s->next->pprev = s->pprev;
  munmap(s->slots, STACK_SLOTS * sizeof(uint64_t));
  free(s);
}

static inline uint32_t clz32(uint32_t x) { return x ? (uint32_t)__builtin_clz(x) : 32; }
static inline uint32_t ctz32(uint32_t x) { return x ? (uint32_t)__builtin_ctz(x) : 32; }
static inline uint64_t clz64(uint64_t x) { return x ? (uint64_t)__builtin_clzll(x) : 64; }
static inline uint64_t ctz64(uint64_t x) { return x ? (uint64_t)__builtin_ctzll(x) : 64; }
static inline uint32_t rotl32(uint32_t x, uint32_t k) { k &= 31; return k ? (x << k) | (x >> (32 - k)) : x; }
static inline uint64_t rotl64(uint64_t x, uint64_t k) { k &= 63; return k ? (x << k) | (x >> (64 - k)) : x; }

static bool run(instance *in, uint32_t fidx, uint64_t *slots, uint64_t *result) {
  /* on entry slots[0..np) hold the arguments */
  frame *frames = (frame *)(slots + STACK_SLOTS - (MAX_FRAMES * sizeof(frame)) / sizeof(uint64_t));
  uint32_t limit_slots = STACK_SLOTS - (uint32_t)((MAX_FRAMES * sizeof(frame)) / sizeof(uint64_t));
  uint32_t nfr = 0;
  uint64_t *sp = slots;
  func *f;
  uint32_t pc;
  uint64_t *lo; /* locals of the current frame */
  uint64_t *os; /* operand stack base */
  memory *mem = in->mem;

  if (fidx < in->nimp) {
    import_func *h = &in->imp[fidx];
    *result = call_host(in, h, slots);
    if (in->breakpoints && in->breakpoint != BREAK_NONE) TRAP("runtime breakpoint");
    return true;
  }

  uint32_t callee = fidx;
  uint64_t *argbase = slots;
  goto enter;

  for (;;) {
    ins *i = &f->code[pc++];
    if (!charge(in, in->costs[i->cost])) goto trapped;
    switch (i->op) {
      case 0x00: TRAP("unreachable");
      case 0x01: case 0x02: case 0x03: case 0x0b: break;
      case 0x04:
        if (!(uint32_t)*--sp) pc = i->a;
        break;
      case 0x05: pc = i->a; break;
      case 0x0d:
        if (!(uint32_t)*--sp) break;
        /* fallthrough */
      case 0x0c: {
        uint64_t keep = i->c ? sp[-1] : 0;
        sp = os + i->b;
        if (i->c) *sp++ = keep;
        pc = i->a;
        break;
      }
      case 0x0e: {
        uint32_t k = (uint32_t)*--sp;
        if (k > i->b) k = i->b;
        brtarget *t = &in->targets[i->a + k];
        uint64_t keep = t->arity ? sp[-1] : 0;
        sp = os + t->height;
        if (t->arity) *sp++ = keep;
        pc = t->target;
        break;
      }
      case 0x0f: {
        uint64_t keep = i->c ? sp[-1] : 0;
        bool has = i->c != 0;
        nfr--;
        if (nfr == 0) {
          *result = keep;
          return true;
        }
        sp = lo;
        if (has) *sp++ = keep;
        frame *fr = &frames[nfr - 1];
        f = fr->f;
        pc = fr->pc;
        lo = slots + fr->base;
        os = lo + f->nlocals;
        break;
      }
      case 0x11: {
        uint32_t k = (uint32_t)*--sp;
        if (k >= in->table_min || in->table[k] < 0) TRAP("undefined table element");
        callee = (uint32_t)in->table[k];
        ftype *have = func_type(in, callee), *want = &in->types[i->a];
        if (have != want && (have->np != want->np || have->nr != want->nr || (have->nr && have->res != want->res) ||
                             memcmp(have->params, want->params, have->np)))
          TRAP("indirect call signature mismatch");
        goto docall;
      }
      case 0x10:
        callee = i->a;
      docall:
        if (callee < in->nimp) {
          import_func *h = &in->imp[callee];
          sp -= h->np;
          uint64_t rv = call_host(in, h, sp);
          mem = in->mem;
          if (h->nr) *sp++ = rv;
          if (in->breakpoints && in->breakpoint != BREAK_NONE) TRAP("runtime breakpoint");
          break;
        }
        frames[nfr - 1].pc = pc;
        argbase = sp - func_type(in, callee)->np;
      enter: {
        func *g = &in->funcs[callee - in->nimp];
        ftype *t = &in->types[g->type];
        if (nfr >= MAX_FRAMES || (uint64_t)(argbase - slots) + g->nlocals + g->max_height + 8 >= limit_slots)
          TRAP("call stack exhausted");
        uint32_t declared = g->nlocals - t->np;
        if (declared > in->unmetered_locals &&
            !charge(in, (declared - in->unmetered_locals) * (uint64_t)in->costs[COST_LOCAL_ALLOCATE]))
          goto trapped;
        for (uint32_t k = t->np; k < g->nlocals; k++) argbase[k] = 0;
        frames[nfr].f = g;
        frames[nfr].base = (uint32_t)(argbase - slots);
        nfr++;
        f = g;
        pc = 0;
        lo = argbase;
        os = lo + g->nlocals;
        sp = os;
        break;
      }
      case 0x1a: sp--; break;
      case 0x1b:
        sp -= 2;
        if (!(uint32_t)sp[1]) sp[-1] = sp[0];
        break;
      case 0x20: *sp++ = lo[i->a]; break;
      case 0x21: lo[i->a] = *--sp; break;
      case 0x22: lo[i->a] = sp[-1]; break;
      case 0x23: *sp++ = in->globals[i->a].val; break;
      case 0x24: in->globals[i->a].val = *--sp; break;
#define ADDR(base, w)                                        \
  uint64_t ea = (uint64_t)(uint32_t)(base) + i->a;           \
  if (ea + (w) > (uint64_t)mem->pages * PAGE) TRAP("memory access out of bounds")
#define LOAD(opc, T, X)                \
  case opc: {                          \
    ADDR(sp[-1], sizeof(T));           \
    T t_;                              \
    memcpy(&t_, mem->data + ea, sizeof t_); \
    sp[-1] = (uint64_t)(X)t_;          \
    break;                             \
  }
        LOAD(0x28, uint32_t, uint32_t)
        LOAD(0x29, uint64_t, uint64_t)
        LOAD(0x2c, int8_t, uint32_t)
        LOAD(0x2d, uint8_t, uint32_t)
        LOAD(0x2e, int16_t, uint32_t)
        LOAD(0x2f, uint16_t, uint32_t)
        LOAD(0x30, int8_t, int64_t)
        LOAD(0x31, uint8_t, uint64_t)
        LOAD(0x32, int16_t, int64_t)
        LOAD(0x33, uint16_t, uint64_t)
        LOAD(0x34, int32_t, int64_t)
        LOAD(0x35, uint32_t, uint64_t)
#define STORE(opc, T)                  \
  case opc: {                          \
    sp -= 2;                           \
    ADDR(sp[0], sizeof(T));            \
    T t_ = (T)sp[1];                   \
    memcpy(mem->data + ea, &t_, sizeof t_); \
    break;                             \
  }
        STORE(0x36, uint32_t)
        STORE(0x37, uint64_t)
        STORE(0x3a, uint8_t)
        STORE(0x3b, uint16_t)
        STORE(0x3c, uint8_t)
        STORE(0x3d, uint16_t)
        STORE(0x3e, uint32_t)
      case 0x3f: *sp++ = mem->pages; break;
      case 0x40: {
        uint32_t old = mem->pages;
        sp[-1] = mem_grow(mem, (uint32_t)sp[-1]) ? old : 0xffffffffu;
        break;
      }
      case 0x41: case 0x42: *sp++ = i->imm; break;
#define UN(opc, T, E)        \
  case opc: {                \
    T a = (T)sp[-1];         \
    sp[-1] = (uint64_t)(E);  \
    break;                   \
  }
#define BIN(opc, T, E)       \
  case opc: {                \
    sp--;                    \
    T a = (T)sp[-1], b = (T)sp[0]; \
    sp[-1] = (uint64_t)(E);  \
    break;                   \
  }
        UN(0x45, uint32_t, a == 0)
        BIN(0x46, uint32_t, a == b)
        BIN(0x47, uint32_t, a != b)
        BIN(0x48, int32_t, a < b)
        BIN(0x49, uint32_t, a < b)
        BIN(0x4a, int32_t, a > b)
        BIN(0x4b, uint32_t, a > b)
        BIN(0x4c, int32_t, a <= b)
        BIN(0x4d, uint32_t, a <= b)
        BIN(0x4e, int32_t, a >= b)
        BIN(0x4f, uint32_t, a >= b)
        UN(0x50, uint64_t, a == 0)
        BIN(0x51, uint64_t, a == b)
        BIN(0x52, uint64_t, a != b)
        BIN(0x53, int64_t, a < b)
        BIN(0x54, uint64_t, a < b)
        BIN(0x55, int64_t, a > b)
        BIN(0x56, uint64_t, a > b)
        BIN(0x57, int64_t, a <= b)
        BIN(0x58, uint64_t, a <= b)
        BIN(0x59, int64_t, a >= b)
        BIN(0x5a, uint64_t, a >= b)
        UN(0x67, uint32_t, clz32(a))
        UN(0x68, uint32_t, ctz32(a))
        UN(0x69, uint32_t, (uint32_t)__builtin_popcount(a))
        BIN(0x6a, uint32_t, (uint32_t)(a + b))
        BIN(0x6b, uint32_t, (uint32_t)(a - b))
        BIN(0x6c, uint32_t, (uint32_t)(a * b))
      case 0x6d: {
        sp--;
        int32_t a = (int32_t)sp[-1], b = (int32_t)sp[0];
        if (!b) TRAP("integer divide by zero");
        if (a == INT32_MIN && b == -1) TRAP("integer overflow");
        sp[-1] = (uint32_t)(a / b);
        break;
      }
      case 0x6e: {
        sp--;
        uint32_t a = (uint32_t)sp[-1], b = (uint32_t)sp[0];
        if (!b) TRAP("integer divide by zero");
        sp[-1] = a / b;
        break;
      }
      case 0x6f: {
        sp--;
        int32_t a = (int32_t)sp[-1], b = (int32_t)sp[0];
        if (!b) TRAP("integer divide by zero");
        sp[-1] = (uint32_t)(b == -1 ? 0 : a % b);
        break;
      }
      case 0x70: {
        sp--;
        uint32_t a = (uint32_t)sp[-1], b = (uint32_t)sp[0];
        if (!b) TRAP("integer divide by zero");
        sp[-1] = a % b;
        break;
      }
        BIN(0x71, uint32_t, a & b)
        BIN(0x72, uint32_t, a | b)
        BIN(0x73, uint32_t, a ^ b)
        BIN(0x74, uint32_t, (uint32_t)(a << (b & 31)))
      case 0x75: {
        sp--;
        sp[-1] = (uint32_t)((int32_t)sp[-1] >> (sp[0] & 31));
        break;
      }
        BIN(0x76, uint32_t, a >> (b & 31))
        BIN(0x77, uint32_t, rotl32(a, b))
        BIN(0x78, uint32_t, rotl32(a, 32 - (b & 31)))
        UN(0x79, uint64_t, clz64(a))
        UN(0x7a, uint64_t, ctz64(a))
        UN(0x7b, uint64_t, (uint64_t)__builtin_popcountll(a))
        BIN(0x7c, uint64_t, a + b)
        BIN(0x7d, uint64_t, a - b)
        BIN(0x7e, uint64_t, a * b)
      case 0x7f: {
        sp--;
        int64_t a = (int64_t)sp[-1], b = (int64_t)sp[0];
        if (!b) TRAP("integer divide by zero");
        if (a == INT64_MIN && b == -1) TRAP("integer overflow");
        sp[-1] = (uint64_t)(a / b);
        break;
      }
      case 0x80: {
        sp--;
        if (!sp[0]) TRAP("integer divide by zero");
        sp[-1] = sp[-1] / sp[0];
        break;
      }
      case 0x81: {
        sp--;
        int64_t a = (int64_t)sp[-1], b = (int64_t)sp[0];
        if (!b) TRAP("integer divide by zero");
        sp[-1] = (uint64_t)(b == -1 ? 0 : a % b);
        break;
      }
      case 0x82: {
        sp--;
        if (!sp[0]) TRAP("integer divide by zero");
        sp[-1] = sp[-1] % sp[0];
        break;
      }
        BIN(0x83, uint64_t, a & b)
        BIN(0x84, uint64_t, a | b)
        BIN(0x85, uint64_t, a ^ b)
        BIN(0x86, uint64_t, a << (b & 63))
      case 0x87: {
        sp--;
        sp[-1] = (uint64_t)((int64_t)sp[-1] >> (sp[0] & 63));
        break;
      }
        BIN(0x88, uint64_t, a >> (b & 63))
        BIN(0x89, uint64_t, rotl64(a, b))
        BIN(0x8a, uint64_t, rotl64(a, 64 - (b & 63)))
        UN(0xa7, uint64_t, (uint32_t)a)
        UN(0xac, int32_t, (int64_t)a)
        UN(0xad, uint32_t, a)
        UN(0xc0, int8_t, (uint32_t)(int32_t)a)
        UN(0xc1, int16_t, (uint32_t)(int32_t)a)
        UN(0xc2, int8_t, (int64_t)a)
        UN(0xc3, int16_t, (int64_t)a)
        UN(0xc4, int32_t, (int64_t)a)
      default: TRAP("internal: bad opcode");
    }
  }
trapped:
  return false;
}

typedef struct {
  uint32_t tag;
  union {
    int32_t i32;
    int64_t i64;
  } value;
} wasm_value;

int wasmer_instance_call(instance *in, const char *name, const wasm_value *params, uint32_t np, wasm_value *results,
                         uint32_t nr) {
  export_t *e = NULL;
  for (uint32_t i = 0; i < in->nexports; i++)
    if (in->exports[i].kind == K_FUNC && !strcmp(in->exports[i].name, name)) e = &in->exports[i];
  if (!e) {
    set_error("exported function not found");
    return WASMER_ERROR;
  }
  ftype *t = func_type(in, e->idx);
  if (t->np != np || t->nr > nr) {
    set_error("bad call signature");
    return WASMER_ERROR;
  }
  vstack *s = stack_new(in);
  if (!s) {
    set_error("out of memory");
    return WASMER_ERROR;
  }
  for (uint32_t i = 0; i < np; i++)
    s->slots[i] = t->params[i] == T_I32 ? (uint32_t)params[i].value.i32 : (uint64_t)params[i].value.i64;
  uint64_t res = 0;
  bool ok = run(in, e->idx, s->slots, &res);
  stack_free(s);
  if (!ok) return WASMER_ERROR;
  if (t->nr) {
    results[0].tag = t->res;
    if (t->res == T_I32)
      results[0].value.i32 = (int32_t)res;
    else
      results[0].value.i64 = (int64_t)res;
  }
  return WASMER_OK;
}
