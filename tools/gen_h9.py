#!/usr/bin/env python3
"""Operation list of C09: sut/h09_ops.inc, sim/harness_09.inc, sim/ref_h09.cpp."""
import os, itertools
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ops = []  # name, template, N, kind, extra
for n in (1, 2, 3, 4): ops.append(('sub%d' % n, 'sub<T, %d>' % n, n, 's', 0))
for n in (1, 2, 3, 4): ops.append(('subw%d' % n, 'subw<T, %d>' % n, n, 'S', 0))
perms = [(0, 1), (1, 0)] + list(itertools.permutations(range(3))) + [(0, 1, 2, 3), (3, 2, 1, 0), (1, 3, 0, 2), (2, 0, 3, 1), (0, 2, 1, 3), (3, 0, 1, 2)]
for p in perms: s = ''.join(map(str, p)); ops.append(('tr' + s, 'tr<T, %s>' % ', '.join(map(str, p)), len(p), 't', s))
for p in [(1, 0), (2, 0, 1), (1, 2, 0), (3, 1, 2, 0)]: s = ''.join(map(str, p)); ops.append(('trw' + s, 'trw<T, %s>' % ', '.join(map(str, p)), len(p), 'T', s))
for n in (1, 2, 3, 4):
    for i in range(n):
        ops.append(('sts%d%d' % (n, i), 'sts<T, %d, %d>' % (n, i), n, 'g', i)); ops.append(('std%d%d' % (n, i), 'std_<T, %d, %d>' % (n, i), n, 'g', i))
        if n < 4: ops.append(('fs%d%d' % (n, i), 'fs<T, %d, %d>' % (n, i), n, 'f', i))
for n in (1, 2, 3):
    for i in range(n): ops.append(('cf%d%d' % (n, i), 'cf<T, %d, %d>' % (n, i), n, 'c', i))
    ops.append(('off%d' % n, 'off<T, %d>' % n, n, 'o', 0))
L2 = [(0, 1), (1, 0)]; L3 = [(0, 1, 2), (0, 2, 1), (1, 0, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0)]
for q, p in enumerate(L2): ops.append(('sp2%d' % q, 'sp2<T, %d>' % q, 2, 'p', ''.join(map(str, p))))
for q, p in enumerate(L3): ops.append(('sp3%d' % q, 'sp3<T, %d>' % q, 3, 'p', ''.join(map(str, p))))
for q, (n, p) in enumerate([(2, '0'), (3, '01'), (3, '10'), (4, '012'), (4, '201')]): ops.append(('win%d' % q, 'win<T, %d>' % q, n, 'w', p))
open(V + '/sut/h09_ops.inc', 'w').write('// generated by tools/gen_h9.py\n' + '\n'.join('OP(%s, %s)' % (o[0], o[1]) for o in ops) + '\n')
# reference: enumerate the points in iteration order
ref = ['''// generated by tools/gen_h9.py: the point sequences of the iterators as plain loops
extern "C" void sim_register_harness(const char*, int, int, void (*)(void**));
namespace {
struct Q { void** A; int N; long n[4], l[4], t[4], c[4], s[4]; double *a, *o, *er; int* of; long m, fi, x;
  Q(void** V, int N) : A(V), N(N) { auto g = [&](int k) { return (long)*(int*)V[k]; }; long st = 1; for (int q = N - 1; q >= 0; q--) { n[q] = g(q); l[q] = g(4 + q); t[q] = g(12 + q); c[q] = (g(8 + q) - l[q]) / t[q] + 1; s[q] = st; st *= n[q]; } m = g(18); fi = g(19); x = g(20); a = (double*)V[21]; of = (int*)V[22]; o = (double*)V[23]; er = (double*)V[24]; er[0] = 0; }
  // visit the points of the box with the dimensions nested as listed (slowest first); dimension red has one point less
  template <class F> void walk(const char* ord, int k, int red, F f) { int p[4]; for (int q = 0; q < k; q++) p[q] = ord[q] - '0'; long i[4] = {0, 0, 0, 0}, num = 1; for (int q = 0; q < k; q++) num *= c[p[q]] - (p[q] == red);
    for (long v = 0; v < num; v++) { long off = 0; for (int q = 0; q < N; q++) off += (l[q] + t[q] * i[q]) * s[q]; f(v, off); for (int q = k - 1; q >= 0; q--) { if (++i[p[q]] < c[p[q]] - (p[q] == red)) break; i[p[q]] = 0; } } } };
long fdiv(long a, long b) { long q = a / b; return a % b != 0 && (a < 0) != (b < 0) ? q - 1 : q; }
''']
tab = []; ent = []
for k, (nm, _, n, kind, ex) in enumerate(ops):
    idn = '0123'[:n]
    if kind in 'stp': b = 'q.walk("%s",%d,-1,[&](long v,long off){q.o[v]=q.a[off];});' % (ex if ex else idn, n)
    elif kind in 'ST': b = 'q.walk("%s",%d,-1,[&](long v,long off){q.o[off]=q.a[v];});' % (ex if ex else idn, n)
    elif kind in 'gf': b = 'q.walk("%s",%d,%d,[&](long v,long off){q.o[2*v]=q.a[off];q.o[2*v+1]=q.a[off+q.t[%d]*q.s[%d]];});' % (idn, n, ex, ex, ex)
    elif kind == 'c': b = 'long base=0;for(int d=0;d<%d;d++)base+=q.l[d]*q.s[d];for(long p=0;p<q.x;p++)q.o[p]=q.a[base+(fdiv(q.fi+p,q.m)-fdiv(q.fi,q.m))*q.s[%d]];' % (n, ex)
    elif kind == 'o': b = 'long base=0;for(int d=0;d<%d;d++)base+=q.l[d]*q.s[d];for(long p=0;p<q.x;p++){long of=0;for(int d=0;d<%d;d++)of+=q.s[d]*q.of[p*%d+d];q.o[p]=q.a[base+of];}' % (n, n, n)
    elif kind == 'w': b = 'q.l[%d]=q.m;q.t[%d]=1;q.c[%d]=1;q.walk("%s",%d,-1,[&](long v,long off){q.o[v]=q.a[off];});' % (n - 1, n - 1, n - 1, ex, n - 1)
    ref.append('void r_%s(void**V){Q q(V,%d);%s}' % (nm, n, b))
    full = '*'.join('v[%d]' % q for q in range(n)); cn = ['((v[%d]-v[%d])/v[%d]+1)' % (8 + q, 4 + q, 12 + q) for q in range(n)]; pts = '*'.join(cn)
    a, o = full, pts
    if kind in 'ST': a, o = pts, full
    if kind in 'gf': o = '2*' + '*'.join('(%s-1)' % c if q == ex else c for q, c in enumerate(cn))
    if kind in 'co': o = 'v[20]'
    if kind == 'w': o = '*'.join(cn[:-1])
    noff = 'v[20]*%d' % n if kind == 'o' else '1'
    tab.append('static void DH9_%d(const long*v,int a,long(*o)[2]){o[0][0]=0;switch(a){case 21:o[0][1]=%s-1;break;case 22:o[0][1]=%s-1;break;case 23:o[0][1]=%s-1;break;case 24:o[0][1]=0;break;}}' % (k, a, noff, o))
    ent.append('{"it_%s","C09",25,AH9,DH9_%d,"%d%c%s"}' % (nm, k, n, kind, ex))
ref.append('struct Reg{Reg(){\n' + '\n'.join('  sim_register_harness("it_%s", 0, 1, r_%s);' % (o[0], o[0]) for o in ops) + '\n}} reg;\n}')
open(V + '/sim/ref_h09.cpp', 'w').write('\n'.join(ref) + '\n')
names = ['%s%d' % (c, q) for c in 'nlet' for q in range(4)] + ['par', 'ck', 'm', 'fi', 'x']
ad = ','.join('{"%s",\'i\',0,0}' % x for x in names) + ',{"src",\'D\',1,0},{"offs",\'I\',1,0},{"out",\'D\',1,1},{"laws_broken",\'D\',1,1}'
open(V + '/sim/harness_09.inc', 'w').write('// generated by tools/gen_h9.py\nstatic const ArgD AH9[]={%s};\n' % ad + '\n'.join(tab) + '\n#define HARNESS_09 ' + ','.join(ent) + '\n')
