#!/usr/bin/env python3
# Generates puppet_imports.h (C) and ../harness/pup/table.go from the host API at the pinned commit.
import re, glob
sigs, names = {}, []
for f in sorted(glob.glob('/repo/arwen/elrondapi/*.go') + glob.glob('/repo/arwen/cryptoapi/*.go')):
    s = open(f).read()
    for m in re.finditer(r'^// extern\s+(.*?)\s*(v1_3_\w+)\((.*?)\);', s, re.M):
        ret, name, args = m.groups()
        a = [x.strip() for x in args.split(',')][1:]
        sigs[name] = (ret, ['i64' if 'long long' in x else 'i32' for x in a], [x.split()[-1] for x in a])
    for m in re.finditer(r'Append\("(\w+)",\s*v1_3_(\w+)', s):
        names.append((m[1], 'v1_3_' + m[2]))
R = {'void': 'void', 'int32_t': 'i32', 'long long': 'i64', 'longlong': 'i64', 'int64_t': 'i64'}
out, sw, go = [], [], []
seen = set()
for i, (imp, cname) in enumerate(sorted(set(names))):
    ret, a, an = sigs[cname]
    r = R[ret]
    ct = {'i32': 'int', 'i64': 'long long', 'void': 'void'}
    out.append('__attribute__((import_module("env"), import_name("%s"))) %s h_%s(%s);' % (imp, ct[r], imp, ', '.join(ct[x] for x in a) or 'void'))
    call = 'h_%s(%s)' % (imp, ', '.join('(%s)a[%d]' % (ct[x], k) for k, x in enumerate(a)))
    sw.append('    case %d: %s' % (i, ('%s; return 0;' % call) if r == 'void' else 'return (unsigned long long)(long long)%s;' % call))
    go.append('\t{"%s", "%s", []string{%s}, []string{%s}},' % (imp, r, ', '.join('"%s"' % x for x in a), ', '.join('"%s"' % x for x in an)))
open('puppet_imports.h', 'w').write('\n'.join(out) + '''
static unsigned long long dispatch(unsigned fn, long long *a) {
  switch (fn) {
''' + '\n'.join(sw) + '''
  }
  __builtin_trap();
}
static const unsigned char nargs_of[] = {''' + ', '.join(str(len(sigs[c][1])) for _, c in sorted(set(names))) + '};\n')
open('../harness/pup/table.go', 'w').write('''//go:build go1.21

// Code generated by puppet/gen.py; DO NOT EDIT.

package pup

// Fn is one host function.
type Fn struct {
	Name string
	Ret  string
	Args []string
	ArgNames []string
}

// Fns lists every host function, in the order of the puppet's dispatch table.
var Fns = []Fn{
''' + '\n'.join(go) + '\n}\n')
print(len(go))
