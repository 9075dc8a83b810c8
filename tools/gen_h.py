#!/usr/bin/env python3
"""Generates the expression programs of C08 and C10: device code written in the
repository's expression language (sut/h08_*.cpp, sut/h10_*.cpp), the same
computation as plain loops (sim/ref_h08.cpp, sim/ref_h10.cpp) and the argument
tables (sim/harness_gen_08.inc, _10.inc).  Output is committed."""
import random, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DIM = 'ijk'; AX = {'i': 0, 'j': 1, 'k': 2}; B = {'i': 'Ib', 'j': 'Jb', 'k': 'Kb'}
GX = {'i': 'x', 'j': 'y', 'k': 'z'}
class G:
    def __init__(s, seed, dims): s.r = random.Random(seed); s.d = dims; s.need = 0
    # --- leaves: (device text, reference text)
    def acc(s, X, off=None): off = off or {}; s.need = max([s.need] + [abs(v) for v in off.values() if isinstance(v, int)]); return '%s(%s)' % (X.upper(), ','.join(str(off.get(c, 0)) for c in DIM))
    def leaf(s, arrs, strided=False):
        X = s.r.choice(arrs); k = s.r.random()
        if strided: k = 0.0 if k < .6 else .7
        d = s.r.choice(s.d)
        if k < .3: return X, s.acc(X)
        if k < .6:
            up = s.r.random() < .5; h = 'h%d' % AX[d]; t = s.r.choice(['', ', up']) if up else ', down'
            return '%s.grad_%s(%s%s)' % (X, GX[d], h, t), '((%s-%s)/%s)' % (s.acc(X, {d: 1 if up else 0}), s.acc(X, {d: 0 if up else -1}), h)
        if k < .85 or len(s.d) < 2:
            n = s.r.choice([-2, -1, 1, 2, 'n1', 'n2', 'n1']); return ('%s.shift_%s(%s)' % (X, GX[d], n if n != 1 or s.r.random() < .5 else ''), s.acc(X, {d: n}))
        pr = sorted(s.r.sample(s.d, 2)); n, m = s.r.choice([-1, 1, 'n1']), s.r.choice([-1, 1, 2, 'n2'])
        return '%s.shift_%s%s(%s, %s)' % (X, GX[pr[0]], GX[pr[1]], n, m), s.acc(X, {pr[0]: n, pr[1]: m})
    def num(s): return s.r.choice([('2', '2.0'), ('3', '3.0'), ('a', 'a'), ('b', 'b'), ('T(0.5)', '0.5'), ('-1', '(-1.0)'), ('1.5', '1.5')])
    def expr(s, depth, arrs, strided=False):
        if depth == 0 or s.r.random() < .12: return s.leaf(arrs, strided)
        k = s.r.random()
        if k < .22:
            n = s.num(); e = s.expr(depth - 1, arrs, strided); op = s.r.choice('+-*'); return '(%s %s %s)' % (n[0], op, e[0]), '(%s%s%s)' % (n[1], op, e[1])
        if k < .42:
            n = s.num(); e = s.expr(depth - 1, arrs, strided); op = s.r.choice('+-*/'); return '(%s %s %s)' % (e[0], op, n[0]), '(%s%s%s)' % (e[1], op, n[1])
        if k < .5:  # number / positive expression
            n = s.num(); c = s.num(); X = 'c'; return '(%s / (%s + 2))' % (n[0], X), '(%s/(%s+2.0))' % (n[1], s.acc(X))
        if k < .58: # expression / positive leaf
            e = s.expr(depth - 1, arrs, strided); return '(%s / (3 * c))' % e[0], '(%s/(3.0*%s))' % (e[1], s.acc('c'))
        op = s.r.choice('++--*'); x = s.expr(depth - 1, arrs, strided); y = s.expr(depth - 1, arrs, strided); return '(%s %s %s)' % (x[0], op, y[0]), '(%s%s%s)' % (x[1], op, y[1])

# ------------------------------------------------------------------ C08
# how far the boxes of the arrays extend beyond the domain: u, q by x, r (and stencils) by y
EXT = [(p + e + str(d), 'i') for p in 'xy' for d in range(3) for e in 'lh']
XT = {'u': 'x', 'q': 'x', 'r': 'y', 'st': 'y', 'ti': 'y'}
ARGS8 = [('lo0', 'i'), ('hi0', 'i'), ('lo1', 'i'), ('hi1', 'i'), ('lo2', 'i'), ('hi2', 'i'), ('s0', 'i'), ('s1', 'i'), ('s2', 'i'), ('gu', 'i'), ('gv', 'i'), ('gc', 'i'), ('gr', 'i'), *EXT, ('n1', 'i'), ('n2', 'i'), ('a', 'd'), ('b', 'd'), ('h0', 'd'), ('h1', 'd'), ('h2', 'd'), ('u', 'D'), ('v', 'D'), ('c', 'D'), ('r', 'D'), ('q', 'D')]
def store(order, gh, face=None, X='', e0=0):
    """device span args and D bounds of an array stored with this listing (slowest first)"""
    x = XT.get(X); at = lambda c, h: '' if not x else '%sv[%d]' % ('+' if h else '-', e0 + (6 if x == 'y' else 0) + 2 * AX[c] + h)
    dev = ['%s{lo%d%s, hi%d%s%s}' % (B[c], AX[c], ' - %sl%d' % (x, AX[c]) if x else '', AX[c], ' + %sh%d' % (x, AX[c]) if x else '', ' + 1' if c == face else '') if x else '%s + 1' % c if c == face else c for c in order]
    D = [('v[%d]-v[%d]%s' % (2 * AX[c], gh, at(c, 0)), 'v[%d]+v[%d]%s%s' % (2 * AX[c] + 1, gh, at(c, 1), '+1' if c == face else '')) for c in reversed(order)]
    return ', '.join(dev), D
def refspan(X, order, g, face=None):
    # index of (x+di,...) in storage
    e = '0'; x = XT.get(X); L = lambda c: '(lo%d-%s%s)' % (AX[c], g, '-%sl%d' % (x, AX[c]) if x else '')
    for c in order: e = '((%s)*(hi%d+%s%s-%s+1%s)+(%s-%s))' % (e, AX[c], g, '+%sh%d' % (x, AX[c]) if x else '', L(c), '+1' if c == face else '', {'i': '(x+di)', 'j': '(y+dj)', 'k': '(z+dk)'}[c], L(c))
    return 'auto I_%s=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return %s;};' % (X, e)
def perms(r, d): d = list(d); r.shuffle(d); return d
def prog8():
    R = random.Random(20240807); out = []
    plan = []
    for dims in ('i', 'ij', 'ijk'):
        for mode in ['dom'] * (4 if dims == 'i' else 7) + ['lhs', 'lhs', 'str', 'str', 'str', 'two', 'inpl', 'num']: plan.append((dims, mode))
    plan.append(('j', 'dom')); plan.append(('k', 'lhs')); plan.append(('ik', 'dom')); plan.append(('jk', 'str')); plan.append(('ik', 'dom')); plan.append(('jk', 'dom'))
    for dims in ('i', 'ij', 'ijk'): plan += [(dims, m) for m in ('dep', 'dep', 'rb', 'rb', 'deep', 'deep')]
    for n, (dims, mode) in enumerate(plan):
        g = G(1000 + n, list(dims)); o = {X: perms(R, dims) for X in 'uvcrq'}; lst = perms(R, dims); strided = mode == 'str' or mode in ('num', 'inpl') and R.random() < .5
        face = {X: (R.choice(dims) if R.random() < .25 else None) for X in 'uvcrq'}; depth = R.choice([1, 2, 2, 3]) if mode != 'str' else R.choice([1, 2])
        if mode == 'lhs': lst = o['r']; face['r'] = None
        if mode == 'deep': depth = 4
        if mode == 'num': body = [('r', *g.num())]
        elif mode == 'inpl': e = g.expr(1, ['u', 'v'], strided); body = [('r', '(r * T(0.5) + %s)' % e[0], '(R(0,0,0)*0.5+%s)' % e[1])]
        else: body = [('r', *g.expr(depth, ['u', 'v', 'c'], strided))]
        if mode == 'two': body.append(('q', *g.expr(depth, ['u', 'v'], strided)))
        if mode in ('dep', 'rb'):  # later assignments use what earlier ones stored
            strided = mode == 'dep' and R.random() < .4; body = []; rb = mode == 'rb'; seq = R.choice([['r', 'q'], ['q', 'r'], ['r', 'q', 'r'], ['q', 'r', 'q']])
            for q, x in enumerate(seq):
                e = g.expr(1, ['u', 'v'] if not rb else ['v', 'c'], strided)
                if q: y = seq[q - 1]; k = g.num(); m = {R.choice(dims): R.choice([-1, 1])} if rb else {}; dd, nn = (list(m.items()) + [('i', 0)])[0]; e = ('%s * %s + %s' % (k[0], y if not m else '%s.shift_%s(%d)' % (y, GX[dd], nn), e[0]), '%s*%s+%s' % (k[1], g.acc(y, m), e[1]))
                body.append((x, *e))
        out.append(dict(name='e08_%02d' % n, dims=dims, mode=mode, o=o, lst=lst, face=face, body=body, need=g.need, strided=strided))
    # sweep: every accessor on every storage order
    import itertools; n = 0
    for dims in ('ij', 'ijk', 'ik', 'jk', 'i', 'k'):
        g = G(9000, list(dims)); kinds = []
        for d in dims:
            h = 'h%d' % AX[d]
            for up, t in ((1, ''), (1, ', up'), (0, ', down')): kinds.append(lambda X, d=d, h=h, up=up, t=t: ('%s.grad_%s(%s%s)' % (X, GX[d], h, t), '((%s-%s)/%s)' % (g.acc(X, {d: 1 if up else 0}), g.acc(X, {d: 0 if up else -1}), h)))
            kinds.append(lambda X, d=d: ('%s.shift_%s(n1)' % (X, GX[d]), g.acc(X, {d: 'n1'})))
        for a, b in itertools.combinations(dims, 2):
            kinds.append(lambda X, a=a, b=b: ('%s.shift_%s%s(n1, n2)' % (X, GX[a], GX[b]), g.acc(X, {a: 'n1', b: 'n2'}))); kinds.append(lambda X, a=a, b=b: ('%s.shift_%s%s()' % (X, GX[a], GX[b]), g.acc(X, {a: 1, b: 1})))
        jobs = [(k, list(o)) for k in kinds for o in itertools.permutations(dims)]; R.shuffle(jobs)
        while jobs:
            take, jobs = jobs[:3], jobs[3:]; g.need = 1; X = 'uvc'; o = {x: perms(R, dims) for x in 'uvcrq'}; e = []
            for x, (k, od) in zip(X, take): o[x] = od; e.append(k(x))
            w = [g.num() for _ in e]; dv = ' + '.join('%s * %s' % (y[0], x[0]) for x, y in zip(e, w)); rf = '+'.join('%s*%s' % (y[1], x[1]) for x, y in zip(e, w))
            style = R.choice(['plain', 'plain', 'named', 'split'])
            pr = dict(name='e08_s%02d' % n, dims=dims, mode='dom', o=o, lst=perms(R, dims), face={x: (R.choice(dims) if R.random() < .15 else None) for x in 'uvcrq'}, body=[('r', dv, rf)], need=1, strided=False, arith=R.random() < .6); n += 1
            if style == 'named': pr['pre'] = 'auto e = %s;' % dv; pr['body'] = [('r', 'e', rf), ('q', 'e - a', '(%s)-a' % rf)]
            if style == 'split' and len(e) > 1: pr['body'] = [('q', *e[0]), ('r', ' + '.join(x[0] for x in e[1:]), '+'.join(x[1] for x in e[1:]))]
            out.append(pr)
    # values of a coarse array on the fine points of one line
    n = 0
    for dims in ('i', 'j', 'ij', 'ij', 'jk', 'ik', 'ijk', 'ijk', 'ijk', 'ijk', 'ijk', 'ijk'):
        ax = R.choice(dims); o = {x: perms(R, dims) for x in 'uvcrq'}; co = [c for c in perms(R, dims) if c != ax]
        out.append(dict(name='e08_f%02d' % n, dims=dims, mode='fine', ax=ax, o=o, lst=perms(R, dims), co=co, face=dict.fromkeys('uvcrq'), body=[], need=1, strided=False)); n += 1
    return out
def emit8():
    ps = prog8(); ar = ARGS8; GI = {'u': 9, 'v': 10, 'c': 11, 'r': 12, 'q': 12}; NT = 8; tus = [[] for _ in range(NT)]; ref = []; tab = []
    for n, p in enumerate(ps):
        nm = p['name']; t = ['template <class T> static void %s(void** A) {' % nm]
        for i, (r, k) in enumerate(ar):
            t.append({'i': 'const int %s = *(int*)A[%d]; (void)%s;' % (r, i, r), 'd': 'const T %s = *(T*)A[%d]; (void)%s;' % (r, i, r), 'D': '%sT* %s_ = (%sT*)A[%d]; (void)%s_;' % ('const ' if r in 'uvc' and n % 2 else '', r, 'const ' if r in 'uvc' and n % 2 else '', i, r)}[k])
        AR = ['{b}{{lo{a} - n1, hi{a} - n1}}.shift(n1)', '({b}{{lo{a} + 2, hi{a} - 3}} - 2) + 3', '{b}{{lo{a} + 1, hi{a} - 1}}.expand(1)', '{b}{{lo{a} + 2, hi{a}}} + -2', '{b}{{lo{a}, hi{a} + 1, 1, false}}', '{b}{{lo{a}, hi{a}, 3}}.unit_stride()']
        for c in p['dims']: t.append('const auto %s = %s;' % (c, AR[(n + AX[c]) % len(AR)].format(b=B[c], a=AX[c]) if p.get('arith') else '%s{lo%d, hi%d}' % (B[c], AX[c], AX[c])))
        fine = p['mode'] == 'fine'
        if fine: t.append('const int rt = 2 + (n1 < 0 ? -n1 : n1), st = (n2 < 0 ? -n2 : n2) % rt;')
        for X in 'uvcrq': t.append('auto %s = make_md_span(%s_, %s, %s); (void)%s;' % (X, X, {'u': 'gu', 'v': 'gv', 'c': 'gc'}.get(X, 'gr'), store(p['o'][X], 0, p['face'][X], X)[0] if not (fine and X in 'rq') else ', '.join('%s{lo%d * rt, hi%d * rt + rt - 1}' % (B[c], AX[c], AX[c]) if c == p['ax'] else c for c in p['o'][X]), X))
        if p.get('pre'): t.append(p['pre'])
        if fine:
            # one line of r from u, another one of q from v, elements by at()
            D1 = lambda e: ', '.join('%s{lo%d * rt + st, hi%d * rt + rt - 1}' % (B[c], AX[c], AX[c]) if c == p['ax'] else '%s{%s%d, %s%d}' % (B[c], e, AX[c], e, AX[c]) for c in p['lst'])
            C1 = lambda e: ''.join(', %s{%s%d, %s%d}' % (B[c], e, AX[c], e, AX[c]) for c in p['co'])
            t.append('with_domain(%s)(r = u.fine(rt%s));' % (D1('lo'), C1('hi'))); t.append('with_domain(%s)(q = v.fine(rt%s));' % (D1('hi'), C1('lo')))
            t.append('r.at(%s) = c.at(%s);' % (', '.join('lo%d%s' % (AX[c], ' * rt' if c == p['ax'] else '') for c in p['o']['r']), ', '.join('hi%d' % AX[c] for c in p['o']['c'])))
        elif p['mode'] == 'lhs': t.append(' '.join('with_lhs_domain(%s = %s);' % (x, e) for x, e, _ in p['body']))
        else:
            dom = ', '.join('%s{lo%d, hi%d, s%d}' % (B[c], AX[c], AX[c], AX[c]) if p['strided'] else c for c in p['lst'])
            t.append('with_domain(%s)(%s);' % (dom, ', '.join('%s = %s' % (x, e) for x, e, _ in p['body'])))
        t.append('}'); tus[n % NT].append((nm, '\n  '.join(t)))
        # reference
        f = ['static void r_%s(void** A) {' % nm]
        for i, (r, k) in enumerate(ar): f.append({'i': 'const long %s = *(int*)A[%d]; (void)%s;', 'd': 'const double %s = *(double*)A[%d]; (void)%s;', 'D': 'double* %s_ = (double*)A[%d]; (void)%s_;'}[k] % (r, i, r))
        f.append('long x=0,y=0,z=0;')
        for X in 'uvcrq': f.append(refspan(X, p['o'][X], {'u': 'gu', 'v': 'gv', 'c': 'gc'}.get(X, 'gr'), p['face'][X]))
        for X in 'uvcrq': f.append('auto %s=[&](long di,long dj,long dk)->double&{return %s_[I_%s(di,dj,dk)];};(void)%s;' % (X.upper(), X, X, X.upper()))
        nmv = {'i': 'x', 'j': 'y', 'k': 'z'}
        if p['mode'] == 'fine':
            ax = p['ax']; A_ = AX[ax]; f.append('const long rt=2+(n1<0?-n1:n1),st=(n2<0?-n2:n2)%rt;auto fl=[](long a,long b){return a>=0?a/b:-((-a+b-1)/b);};')
            def fidx(X, at):
                e = '0'
                for c in p['o'][X]: L = '(lo%d%s-gr)' % (AX[c], '*rt' if c == ax else ''); H = '(hi%d%s+gr)' % (AX[c], '*rt+rt-1' if c == ax else ''); e = '((%s)*(%s-%s+1)+(%s-%s))' % (e, H, L, at[c], L)
                return e
            for X, src, e1, e2 in (('r', 'U', 'lo', 'hi'), ('q', 'V', 'hi', 'lo')):
                f.append(''.join('%s=%s%d;' % (nmv[c], e2, AX[c]) for c in p['dims'] if c != ax) + 'for(long f=lo%d*rt+st;f<=hi%d*rt+rt-1;f++){%s=fl(f,rt);%s_[%s]=%s(0,0,0);}' % (A_, A_, nmv[ax], X, fidx(X, {c: 'f' if c == ax else '%s%d' % (e1, AX[c]) for c in p['dims']}), src))
            f.append(''.join('%s=hi%d;' % (nmv[c], AX[c]) for c in p['dims']) + 'r_[%s]=C(0,0,0);' % fidx('r', {c: 'lo%d%s' % (AX[c], '*rt' if c == ax else '') for c in p['dims']}))
        e = '-gr' if p['mode'] == 'lhs' else ''; e2 = '+gr' if p['mode'] == 'lhs' else ''
        for x, _, rf in p['body']:
            f.append(''.join('for(%s=lo%d%s;%s<=hi%d%s;%s+=%s)' % ({'i': 'x', 'j': 'y', 'k': 'z'}[c], AX[c], e, {'i': 'x', 'j': 'y', 'k': 'z'}[c], AX[c], e2, {'i': 'x', 'j': 'y', 'k': 'z'}[c], 's%d' % AX[c] if p['strided'] else '1') for c in p['dims']) + '{const double val=%s;%s(0,0,0)=val;}' % (rf, x.upper()))
        f.append('}'); ref.append('\n  '.join(f))
        sw = ''.join('case %d:%sbreak;' % (32 + q, ''.join('o[%d][0]=%s;o[%d][1]=%s;' % (m, lo, m, hi) for m, (lo, hi) in enumerate(store(p['o'][X], GI[X], p['face'][X], X, 13)[1] if not (p['mode'] == 'fine' and X in 'rq') else [('v[%d]%s-v[12]' % (2 * AX[c], '*(2+std::labs(v[25]))' if c == p['ax'] else ''), 'v[%d]%s+v[12]' % (2 * AX[c] + 1, '*(2+std::labs(v[25]))+1+std::labs(v[25])' if c == p['ax'] else '')) for c in reversed(p['o'][X])]))) for q, X in enumerate('uvcrq'))
        tab.append('static void DH8_%d(const long*v,int a,long(*o)[2]){(void)v;switch(a){%s}}' % (n, sw))
        nd = len(p['dims']); tab.append('static const ArgD AH8_%d[]={%s};' % (n, ','.join('{"%s",\'%s\',%d,%d}' % ('b0' if r == 'c' else r, k, nd if k == 'D' else 0, 1 if r in ('r', 'q') and k == 'D' else 0) for r, k in ar)))
        p['entry'] = '{"%s","C08",%d,AH8_%d,DH8_%d,"%d%s%d%s"}' % (nm, len(ar), n, n, nd, {'lhs': 'L', 'rb': 'E', 'fine': 'F'}.get(p['mode'], 'S' if p['strided'] else 'D'), p['need'], p['dims'])
    for i, t in enumerate(tus):
        open(V + '/sut/h08_%d.cpp' % i, 'w').write('// generated by tools/gen_h.py\n#include "md_device_span.hpp"\nextern "C" void sim_register_harness(const char*, int, int, void (*)(void**));\nnamespace {\n' + '\n'.join(x for _, x in t) + '\nstruct Reg { Reg() {\n' + '\n'.join('  sim_register_harness("%s", 0, 0, %s<double>); sim_register_harness("%s", 1, 0, %s<float>);' % (a, a, a, a) for a, _ in t) + '\n} } reg;\n}\n')
    open(V + '/sim/ref_h08.cpp', 'w').write('// generated by tools/gen_h.py: the expression programs as plain loops\nextern "C" void sim_register_harness(const char*, int, int, void (*)(void**));\nnamespace {\n' + '\n'.join(ref) + '\nstruct Reg { Reg() {\n' + '\n'.join('  sim_register_harness("%s", 0, 1, r_%s);' % (p['name'], p['name']) for p in ps) + '\n} } reg;\n}\n')
    open(V + '/sim/harness_gen_08.inc', 'w').write('\n'.join(tab) + '\n#define HARNESS_08 ' + ','.join(p['entry'] for p in ps) + '\n')
    return ps

# ------------------------------------------------------------------ C10
ARGS10 = [('lo0', 'i'), ('hi0', 'i'), ('lo1', 'i'), ('hi1', 'i'), ('lo2', 'i'), ('hi2', 'i'), ('w', 'i'), ('w0', 'i'), ('s0', 'i'), ('s1', 'i'), ('s2', 'i'), ('gs', 'i'), ('gu', 'i'), ('gv', 'i'), ('gc', 'i'), ('gr', 'i'), *EXT, ('n1', 'i'), ('n2', 'i'), ('a', 'd'), ('b', 'd'), ('h0', 'd'), ('h1', 'd'), ('h2', 'd'), ('offs', 'I'), ('st', 'D'), ('ti', 'D'), ('u', 'D'), ('v', 'D'), ('c', 'D'), ('r', 'D'), ('q', 'D')]
class P(G):
    strided = False
    def base(s, name): m = s.r.randrange(4); s.used = max(s.used, m); return ('%s(%d)' % (name, m), '%s(%d)' % ({'st': 'ST', 'ti': 'TI'}[name], m), 0)
    used = 0
    def prox(s, depth, name):  # returns (dev, ref, index)
        if depth == 0: return s.base(name)
        k = s.r.random()
        if k < .12: e = s.prox(depth - 1, name); return '(-%s)' % e[0], '(-%s)' % e[1], e[2]
        if k < .3: n = s.num(); e = s.prox(depth - 1, name); op = s.r.choice('+-*'); return '(%s %s %s)' % (n[0], op, e[0]), '(%s%s%s)' % (n[1], op, e[1]), e[2]
        if k < .45: n = s.num(); e = s.prox(depth - 1, name); op = s.r.choice('+-*/'); return '(%s %s %s)' % (e[0], op, n[0]), '(%s%s%s)' % (e[1], op, n[1]), e[2]
        if k < .62: e = s.prox(depth - 1, name); x = s.expr(1, ['u', 'v', 'c'], s.strided); op = s.r.choice('+-*'); return '(%s %s %s)' % (e[0], op, x[0]), '(%s%s%s)' % (e[1], op, x[1]), e[2] + 1
        if k < .8: e = s.prox(depth - 1, name); x = s.expr(1, ['u', 'v', 'c'], s.strided); op = s.r.choice('+-*'); return '(%s %s %s)' % (x[0], op, e[0]), '(%s%s%s)' % (x[1], op, e[1]), e[2] + 1
        e = s.prox(depth - 1, name); f = s.base(name); op = s.r.choice('+-*')
        if s.r.random() < .5: e, f = f, e
        return '(%s %s %s)' % (e[0], op, f[0]), '(%s%s%s)' % (e[1], op, f[1]), e[2] + f[2]
def prog10():
    R = random.Random(77); out = []; plan = []
    for dims in ('i', 'ij', 'ijk'):
        plan += [(dims, m) for m in ['asg', 'asg', 'asg', 'asg', 'mix', 'mix', 'two', 'two', 'self', 'self', 'dot', 'dot', 'num']]
    for n, (dims, mode) in enumerate(plan):
        g = P(5000 + n, list(dims)); g.strided = mode in ('asg', 'mix', 'num', 'self') and n % 3 == 0; lst = list(reversed(dims)); o = {X: perms(R, dims) for X in ['st', 'ti', 'u', 'v', 'c', 'r', 'q']}
        if mode == 'dot' : o['ti'] = lst if R.random() < .6 else o['ti']
        elif R.random() < .35: lst = perms(R, dims)
        face = {X: (R.choice(dims) if R.random() < .25 else None) for X in 'uvcrq'}; asg = []
        def one(depth):
            m = R.randrange(4); g.used = max(g.used, m); e = g.prox(depth, 'st')
            if e[2] == 0 and False: pass
            return ('st(%d) = %s' % (m, e[0]), 'ST(%d)=%s;' % (m, e[1]))
        if mode == 'asg': asg = [one(R.choice([1, 2, 3])) for _ in range(R.choice([1, 2]))]
        elif mode == 'mix':
            asg = [one(R.choice([1, 2]))]
            for _ in range(R.choice([1, 2, 3])):
                m = R.randrange(4); g.used = max(g.used, m); k = R.random()
                if k < .35: x = g.num(); asg.append(('st(%d) = %s' % (m, x[0]), 'ST(%d)=%s;' % (m, x[1])))
                elif k < .7: x = g.expr(1, ['u', 'v', 'c'], g.strided); asg.append(('st(%d) = %s' % (m, x[0]), 'ST(%d)=%s;' % (m, x[1])))
                else: asg.append(one(1))
            R.shuffle(asg)
        elif mode == 'two':
            for d in dims if R.random() < .6 else [R.choice(dims)]:
                m, k = R.sample(range(5), 2); g.used = max(g.used, m, k); X = R.choice('uvc'); up = R.random() < .6; x = g.num(); lo, hi = ({}, {d: 1}) if up else ({d: -1}, {})
                dv = '%s * %s.stencil_%s(%s)' % (x[0], X, GX[d], '' if up else 'down'); f = x[1] + '*'
                if R.random() < .3: dv = '%s.stencil_%s(%s)' % (X, GX[d], '' if up else 'down'); f = ''
                asg.append(('st(%d, %d) = %s' % (m, k, dv), 'ST(%d)=%s%s;ST(%d)=%s%s;' % (m, f, g.acc(X, lo), k, f, g.acc(X, hi))))
            if R.random() < .5: asg.append(one(2))
        elif mode == 'num':
            for _ in range(3):
                m, k = R.sample(range(4), 2); g.used = max(g.used, m, k); x = g.num(); asg.append(R.choice([('st(%d) = %s' % (m, x[0]), 'ST(%d)=%s;' % (m, x[1])), ('st(%d, %d) = %s' % (m, k, x[0]), 'ST(%d)=%s;ST(%d)=%s;' % (m, x[1], k, x[1]))]))
        elif mode == 'self':
            for X in ['r', 'q'][:R.choice([1, 2])]:
                e = g.prox(R.choice([1, 2]), 'ti'); asg.append(('%s -= %s' % (X, e[0]), '%s(0,0,0)=%s(0,0,0)-%s;' % (X.upper(), X.upper(), e[1])))
        else:
            k = R.random(); dot = ('ti.dot(u.offset(o))', 'DOT()')
            e = dot if k < .4 else None
            if not e: x = g.expr(1, ['v', 'c'], g.strided); y = g.num(); e = ('%s * %s - %s * %s' % (y[0], x[0], R.choice(['a', 'b']), dot[0]), None); e = (e[0], '%s*%s-%s*DOT()' % (y[1], x[1], 'a' if ' - a *' in e[0] else 'b'))
            asg = [('r = ' + e[0], 'R(0,0,0)=%s;' % e[1])]; g.need = max(g.need, 1)
        out.append(dict(name='e10_%02d' % n, dims=dims, mode=mode, o=o, lst=lst, face=face, asg=asg, need=g.need, used=g.used, strided=g.strided))
    import itertools; n = 0
    for dims in ('ij', 'ijk', 'ik', 'jk', 'i'):
        jobs = [(d, up, list(o)) for d in dims for up in (True, False) for o in itertools.permutations(dims)]; R.shuffle(jobs); g = P(6000, list(dims))
        while jobs:
            take, jobs = jobs[:3], jobs[3:]; o = {X: perms(R, dims) for X in ['st', 'ti', 'u', 'v', 'c', 'r', 'q']}; asg = []
            for q, (X, (d, up, od)) in enumerate(zip('uvc', take)):
                o[X] = od; x = g.num(); lo, hi = ({}, {d: 1}) if up else ({d: -1}, {}); m, k = (2 * q, 2 * q + 1) if R.random() < .5 else (2 * q + 1, 2 * q)
                asg.append(('st(%d, %d) = %s * %s.stencil_%s(%s)' % (m, k, x[0], X, GX[d], R.choice(['', 'up']) if up else 'down'), 'ST(%d)=%s*%s;ST(%d)=%s*%s;' % (m, x[1], g.acc(X, lo), k, x[1], g.acc(X, hi))))
            R.shuffle(asg); out.append(dict(name='e10_s%02d' % n, dims=dims, mode='two', o=o, lst=perms(R, dims), face={X: (R.choice(dims) if R.random() < .15 else None) for X in 'uvcrq'}, asg=asg, need=1, used=2 * len(take) - 1, strided=False)); n += 1
    # hand-written: a span on the left of a proxy that already carries one
    for n, (dv, rf) in enumerate([('st(0) = u * (st(1) + v)', 'ST(0)=U(0,0,0)*(ST(1)+V(0,0,0));'), ('st(2) = (u - 3) * (c + (st(1) * v))', 'ST(2)=(U(0,0,0)-3.0)*(C(0,0,0)+(ST(1)*V(0,0,0)));'), ('st(0) = st(1) + st(2), st(1) = st(0) * u, st(2) = st(1) - v', 'ST(0)=ST(1)+ST(2);ST(1)=ST(0)*U(0,0,0);ST(2)=ST(1)-V(0,0,0);')]):
        out.append(dict(name='e10_h%d' % n, dims=['ij', 'ijk', 'i'][n], mode='asg', o={X: list(['ji', 'kji', 'i'][n]) for X in ['st', 'ti', 'u', 'v', 'c', 'r', 'q']}, lst=list(['ji', 'kji', 'i'][n]), face=dict.fromkeys('uvcrq'), asg=[(dv, rf)], need=0, used=2, strided=n == 1))
    return out
def emit10():
    ps = prog10(); ar = ARGS10; NT = 8; tus = [[] for _ in range(NT)]; ref = []; tab = []; GN = {'u': 'gu', 'v': 'gv', 'c': 'gc', 'r': 'gr', 'q': 'gr'}; GI = {'st': 11, 'ti': 11, 'u': 12, 'v': 13, 'c': 14, 'r': 15, 'q': 15}
    for n, p in enumerate(ps):
        nm = p['name']; t = ['template <class T> static void %s(void** A) {' % nm]
        for i, (r, k) in enumerate(ar):
            cs = 'const ' if r in ('u', 'v', 'c', 'ti') and n % 2 else ''
            t.append({'i': 'const int %s = *(int*)A[%d]; (void)%s;' % (r, i, r), 'd': 'const T %s = *(T*)A[%d]; (void)%s;' % (r, i, r), 'I': 'int* %s_ = (int*)A[%d]; (void)%s_;' % (r, i, r), 'D': '%sT* %s_ = (%sT*)A[%d]; (void)%s_;' % (cs, r, cs, i, r)}[k])
        for c in p['dims']: t.append('const auto %s = %s{lo%d, hi%d};' % (c, B[c], AX[c], AX[c]))
        t.append('const auto wb = Wb{w0, w0 + w - 1}; auto o = thrust::device_ptr<int>(offs_); (void)o;')
        for X in ('st', 'ti'): t.append('auto %s = make_md_span(%s_, gs, %s, wb); (void)%s;' % (X, X, store(p['o'][X], 0, None, X)[0], X))
        for X in 'uvcrq': t.append('auto %s = make_md_span(%s_, %s, %s); (void)%s;' % (X, X, GN[X], store(p['o'][X], 0, p['face'][X], X)[0], X))
        lst = ', '.join('%s{lo%d, hi%d, s%d}' % (B[c], AX[c], AX[c], AX[c]) if p['strided'] else c for c in p['lst']); a = ', '.join(x for x, _ in p['asg'])
        t.append('with_domain(%s)(%s);' % (lst, a) if p['mode'] == 'dot' else 'with_domain(%s.window(), %s)(%s);' % ('ti' if p['mode'] == 'self' else 'st', lst, a)); t.append('}'); tus[n % NT].append((nm, '\n  '.join(t)))
        f = ['static void r_%s(void** A) {' % nm]
        for i, (r, k) in enumerate(ar): f.append({'i': 'const long %s = *(int*)A[%d]; (void)%s;', 'd': 'const double %s = *(double*)A[%d]; (void)%s;', 'D': 'double* %s_ = (double*)A[%d]; (void)%s_;', 'I': 'int* %s_ = (int*)A[%d]; (void)%s_;'}[k] % (r, i, r))
        f.append('long x=0,y=0,z=0;')
        for X in ('st', 'ti'): f.append(refspan(X, p['o'][X], 'gs')); f.append('auto %s=[&](long m)->double&{return %s_[I_%s(0,0,0)*w+m];};(void)%s;' % (X.upper(), X, X, X.upper()))
        for X in 'uvcrq': f.append(refspan(X, p['o'][X], GN[X], p['face'][X])); f.append('auto %s=[&](long di,long dj,long dk)->double&{return %s_[I_%s(di,dj,dk)];};(void)%s;' % (X.upper(), X, X, X.upper()))
        D = len(p['dims']); of = ['0', '0', '0']
        for q, c in enumerate(reversed(p['lst'])): of[AX[c]] = 'offs_[m*%d+%d]' % (D, q)
        f.append('auto DOT=[&]{double s=0;for(long m=0;m<w;m++)s+=TI(m)*U(%s);return s;};(void)DOT;' % ','.join(of))
        nmv = {'i': 'x', 'j': 'y', 'k': 'z'}
        f.append(''.join('for(%s=lo%d;%s<=hi%d;%s+=%s)' % (nmv[c], AX[c], nmv[c], AX[c], nmv[c], 's%d' % AX[c] if p['strided'] else '1') for c in p['dims']) + '{%s}' % ''.join(x for _, x in p['asg'])); f.append('}'); ref.append('\n  '.join(f))
        sw = 'case 35:o[0][0]=1;o[0][1]=%d;o[1][0]=1;o[1][1]=v[6];break;' % D
        for q, X in enumerate(['st', 'ti', 'u', 'v', 'c', 'r', 'q']):
            dd = store(p['o'][X], GI[X], p['face'].get(X), X, 16)[1]
            if X in ('st', 'ti'): dd = [('v[7]', 'v[7]+v[6]-1')] + dd
            sw += 'case %d:%sbreak;' % (36 + q, ''.join('o[%d][0]=%s;o[%d][1]=%s;' % (m, lo, m, hi) for m, (lo, hi) in enumerate(dd)))
        tab.append('static void DH10_%d(const long*v,int a,long(*o)[2]){(void)v;switch(a){%s}}' % (n, sw))
        tab.append('static const ArgD AH10_%d[]={%s};' % (n, ','.join('{"%s",\'%s\',%d,%d}' % ('b0' if r == 'c' else r, k, {'I': 2, 'D': D + (r in ('st', 'ti'))}.get(k, 0), 1 if r in ('st', 'r', 'q') and k == 'D' else 0) for r, k in ar)))
        p['entry'] = '{"%s","C10",%d,AH10_%d,DH10_%d,"%d%s%d%s%d"}' % (nm, len(ar), n, n, D, 'S' if p['strided'] else 'D', p['need'], p['dims'], p['used'] + 1)
    for i, t in enumerate(tus):
        open(V + '/sut/h10_%d.cpp' % i, 'w').write('// generated by tools/gen_h.py\n#include "md_device_span.hpp"\n#include "stencil_proxy.hpp"\n#include "offset_iterator.hpp"\nextern "C" void sim_register_harness(const char*, int, int, void (*)(void**));\nnamespace {\n' + '\n'.join(x for _, x in t) + '\nstruct Reg { Reg() {\n' + '\n'.join('  sim_register_harness("%s", 0, 0, %s<double>); sim_register_harness("%s", 1, 0, %s<float>);' % (a, a, a, a) for a, _ in t) + '\n} } reg;\n}\n')
    open(V + '/sim/ref_h10.cpp', 'w').write('// generated by tools/gen_h.py: the window and dot programs as plain loops\nextern "C" void sim_register_harness(const char*, int, int, void (*)(void**));\nnamespace {\n' + '\n'.join(ref) + '\nstruct Reg { Reg() {\n' + '\n'.join('  sim_register_harness("%s", 0, 1, r_%s);' % (p['name'], p['name']) for p in ps) + '\n} } reg;\n}\n')
    open(V + '/sim/harness_gen_10.inc', 'w').write('\n'.join(tab) + '\n#define HARNESS_10 ' + ','.join(p['entry'] for p in ps) + '\n')
if __name__ == '__main__': emit8(); emit10()
