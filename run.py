#!/usr/bin/env python3
"""Build the simulator around /repo's current working tree and run one
property's seeded search.   run.py check <prop> [quick|thorough]
                            run.py replay <file>
                            run.py build <dir> [families...]"""
import json, os, re, subprocess, sys, tempfile, shutil, time, concurrent.futures as cf, glob, signal
V = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get('SIM_REPO', '/repo'); NC = os.cpu_count() or 4
DEV = ['-DTHRUST_DEVICE_SYSTEM=THRUST_DEVICE_SYSTEM_OMP', '-DTHRUST_HOST_SYSTEM=THRUST_HOST_SYSTEM_CPP', '-std=c++17', '-fopenmp']
OPT = ['-O2', '-g1', '-DNDEBUG', '-fPIC', '-w', '-fno-tree-vectorize']
TSAN = ['-fsanitize=thread']
ALLDEV = ['cd_apply', 'cdf', 'cd_stencil', 'cd_correct_bc', 'coarse_to_fine']
FAM = {'C01': ['cd_apply'], 'C02': ['cdf'], 'C03': ['cd_stencil'], 'C04': ['cd_stencil'], 'C05': ['cd_stencil'], 'C06': ['cd_correct_bc'], 'C07': ['coarse_to_fine'],
       'C08': ['h08'], 'C09': ['h09'], 'C10': ['h10'], 'C18': ['h18'], 'C15': ['fortran'], 'C11': ['cd_apply', 'cdf', 'cd_stencil', 'cd_correct_bc', 'coarse_to_fine', 'fortran', 'h08', 'h10'], 'C12': ALLDEV + ['h08', 'h10'], 'C14': ALLDEV + ['h08', 'h10']}
FORT = {'cd_apply': 'celldiffusionapply', 'cdf': 'celldiffusionflux', 'cd_stencil': 'celldiffusionstencilcoeffs', 'cd_correct_bc': 'cellsetcorrectionbc', 'coarse_to_fine': 'copycoarsetofine'}
class BuildError(Exception): pass
def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode: raise BuildError(' '.join(cmd)[:400] + '\n' + p.stdout[-4000:])
    return p.stdout
def fams_of(prop): return FAM.get(prop, ALLDEV)
def build(out, prop):
    """libsut.so: /repo's kernels as they are now; libref.so: frozen reference model; simdrv: the simulator."""
    os.makedirs(out, exist_ok=True); fams = fams_of(prop); jobs = []
    def cxx(src, obj, extra): jobs.append((['g++'] + extra + ['-c', src, '-o', os.path.join(out, obj)], os.path.getsize(src)))
    cls = {}
    for l in open(V + '/sut/thrust_table.inc'):
        m = re.match(r'KERNEL\((\d+),(\w+),(\w+)\)', l)
        if m: cls.setdefault(m.group(2), []).append(l)
    sut = []; inc = ['-I' + REPO + '/src', '-I' + REPO + '/src/cuda']
    want = lambda n: any(n.startswith(f) for f in fams)
    known = set()
    for c, ls in sorted(cls.items()):
        known.add(c if c.endswith('_cuda') else c + '_cuda')
        if not want(c): continue
        hdr = {'cdf_1d_cuda': 'cd_flux_1d_cuda', 'cdf_2d_cuda': 'cd_flux_2d_cuda', 'cdf_3d_cuda': 'cd_flux_3d_cuda', 'coarse_to_fine': 'coarse_to_fine_cuda'}.get(c, c)
        g = os.path.join(out, 'glue_%s.cpp' % c)
        open(g, 'w').write('#include "%s.hpp"\n#include "%s/sut/glue.hpp"\n' % (hdr, V) + ''.join(ls))
        cxx(g, 'glue_%s.o' % c, DEV + OPT + inc); sut.append('glue_%s.o' % c)
    if any(f in ALLDEV for f in fams):
        for s in sorted(glob.glob(REPO + '/src/cuda/*.cpp')):
            n = os.path.basename(s)[:-4]
            if n.endswith('_test') or n == 'ls_apply_st_3d_cuda': continue
            if n in known and not want(n): continue
            cxx(s, 'k_%s.o' % n, DEV + OPT + TSAN + inc); sut.append('k_%s.o' % n)
    for f in fams:
        if f.startswith('h') and f[1:].isdigit():
            for h in sorted(glob.glob(V + '/sut/%s.cpp' % f) + glob.glob(V + '/sut/%s_*.cpp' % f)):
                b = os.path.basename(h)[:-4]; cxx(h, b + '.o', DEV + OPT + TSAN + inc); sut.append(b + '.o')
    ref = []
    refh = [f for f in fams if os.path.exists(V + '/sim/ref_%s.cpp' % f)]
    for f in refh: cxx(V + '/sim/ref_%s.cpp' % f, 'ref_%s.o' % f, ['-std=c++17'] + OPT + TSAN); ref.append('ref_%s.o' % f)
    pats = None if 'fortran' in fams else [FORT[f] for f in fams if f in FORT]
    needf = lambda n: pats is None or any(n.startswith(p) for p in pats)
    fj = []; os.makedirs(out + '/f', exist_ok=True)
    for m in sorted(glob.glob(REPO + '/m4/*.m4')):
        n = os.path.basename(m)[:-3]
        if not needf(n): continue
        open(out + '/f/%s.f' % n, 'w').write(subprocess.run(['m4', m, '-I' + REPO + '/m4'], stdout=subprocess.PIPE, text=True, check=True).stdout)
        fj.append((['gfortran', '-O2', '-g1', '-DNDEBUG', '-fPIC', '-w', '-fno-tree-vectorize'] + TSAN + ['-c', out + '/f/%s.f' % n, '-o', out + '/f_%s.o' % n], 20000)); sut.append('f_%s.o' % n)
    for s in sorted(glob.glob(V + '/ref/*.f')):
        n = os.path.basename(s)[:-2]
        if not needf(n): continue
        fj.append((['gfortran', '-O1', '-g1', '-fPIC', '-w', '-finit-real=nan', '-fcheck=bounds'] + TSAN + ['-c', s, '-o', out + '/r_%s.o' % n], 10000)); ref.append('r_%s.o' % n)
    jobs += fj
    cxx(V + '/sut/ftab.cpp', 'ftab.o', ['-std=c++17', '-O1', '-fPIC', '-w']); sut.append('ftab.o')
    for s in ('rt', 'model', 'driver'): cxx(V + '/sim/%s.cpp' % s, 'm_%s.o' % s, ['-std=c++17', '-O2', '-g1', '-w'])
    pri = {'k_cd_stencil_3d_cuda': 9, 'k_cd_stencil_2d_cuda': 8, 'm_driver': 8, 'k_cd_correct_bc_3d_cuda': 8, 'k_cd_apply_3d_cuda': 7}
    jobs.sort(key=lambda j: (-pri.get(os.path.basename(j[0][-1])[:-2], 5 if '/k_' in j[0][-1] or '/h' in j[0][-1] else 1), -j[1]))
    with cf.ThreadPoolExecutor(NC) as ex:
        for r in [ex.submit(sh, j[0]) for j in jobs]: r.result()
    for o in ref:
        if o.startswith('r_'):
            syms = re.findall(r'\s[TtWw] (\w+_)$', sh(['nm', out + '/' + o]), re.M)
            sh(['objcopy'] + ['--redefine-sym=%s=ref_%s' % (s, s) for s in syms] + [out + '/' + o])
    wraps = sorted(set(re.findall(r'__wrap_(\w+)\(', open(V + '/sim/rt.cpp').read())))
    wl = ['-Wl,--wrap=' + w for w in wraps]
    sh(['g++', '-shared', '-o', out + '/libsut.so', '-Wl,-Bsymbolic', '-Wl,-soname,libsut.so'] + wl + [out + '/' + o for o in sut] + ['-lgfortran', '-lm'])
    sh(['g++', '-shared', '-o', out + '/libref.so', '-Wl,-Bsymbolic', '-Wl,-soname,libref.so'] + ['-Wl,--wrap=' + w for w in ('memcpy', 'memset', 'memmove')] + [out + '/' + o for o in ref] + ['-lgfortran', '-lm'])
    sh(['g++', '-rdynamic', '-o', out + '/simdrv'] + [out + '/m_%s.o' % s for s in ('rt', 'model', 'driver')] + ['-L' + out, '-Wl,--no-as-needed', '-lsut', '-lref', '-Wl,--unresolved-symbols=ignore-all', '-Wl,-rpath,$ORIGIN', '-lm'])
    return out + '/simdrv'


# ---------------------------------------------------------------- checks
# cases per tier (each case = one base run per operation + SCHEDS simulated runs); wall-clock caps in seconds
CASES = {'C01': 192000, 'C02': 165000, 'C03': 300000, 'C04': 864000, 'C05': 816000, 'C06': 1248000, 'C07': 1056000, 'C08': 225000, 'C09': 519000, 'C10': 210000, 'C11': 384000, 'C12': 135000, 'C13': 255000, 'C14': 52500, 'C15': 224000, 'C16': 180000, 'C17': 300000, 'C18': 54000}
CAP = {'quick': 130, 'thorough': 600}; SCHEDS = {'quick': 4, 'thorough': 8}; FACTOR = {'quick': 1, 'thorough': 12}
STUBS = {'real': ['kernel functors, spans, DSL and iterators of /repo/src/cuda (device kernels, as compiled from the working tree)', 'thrust OMP back end (headers)', 'Fortran kernels generated from /repo/m4 (properties that call them)'],
         'stub': ['OpenMP runtime: workers are simulator fibers', 'malloc/free/new/delete', 'mutexes, condition variables, std::thread', 'clock, sleep, getenv, rand', 'LAPACK (dgetrf, dgetrs, dgesv, dcopy)'],
         'oracle': ['frozen copies of the reference Fortran in /verif/ref (renamed ref_*) and small reference models in /verif/sim']}
def known():
    out = []
    p = V + '/known_findings.jsonl'
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('{'): out.append(json.loads(l))
    return out
def drive(drv, prop, seed, cases, secs, scheds, rdir, extra=()):
    ps = []
    for w in range(NC):
        out = os.path.join(rdir, 'w%d.json' % w)
        if os.path.exists(out): os.unlink(out)
        ps.append((w, out, subprocess.Popen([drv, '--prop', prop, '--seed', str(seed), '--start', str(w), '--stride', str(NC), '--cases', str(max(1, cases // NC)), '--secs', str(secs), '--scheds', str(scheds), '--huge', str(max(200, cases // 120)), '--out', out, '--replays', rdir, '--minimise', '25'] + list(extra), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)))
    res = []; errs = []
    try:
        for w, out, p in ps:
            try: o, e = p.communicate(timeout=secs + 260)
            except subprocess.TimeoutExpired: p.kill(); o, e = p.communicate(); errs.append('worker %d timed out' % w); continue
            if p.returncode not in (0, 1) or not os.path.exists(out): errs.append('worker %d exit %s: %s' % (w, p.returncode, (e or o)[-1500:])); continue
            res.append(json.load(open(out)))
    finally:
        for _, _, p in ps:
            if p.poll() is None: p.kill()
    return res, errs
def replay(drv, f, extra=()):
    p = subprocess.run([drv, '--replay', f] + list(extra), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
    return p.returncode, p.stdout
def check(prop, tier):
    t0 = time.time(); seed = int(os.environ.get('VERIF_SEED', '1') or 1); tmp = tempfile.mkdtemp(prefix='sim_' + prop + '_')
    os.makedirs(V + '/evidence', exist_ok=True); os.makedirs(V + '/replays', exist_ok=True)
    try:
        drv = build(tmp, prop); tb = time.time() - t0; extra = []
        ts = time.time(); res, errs = drive(drv, prop, seed, CASES[prop] * FACTOR[tier], CAP[tier], SCHEDS[tier], tmp)
        def confirmed(res):
            out = []; why = ''
            for r in sorted([r for r in res if r['found']], key=lambda r: int(re.search(r'-(\d+)\.replay$', r['replay']).group(1))):
                c1, o1 = replay(drv, r['replay'], extra); c2, o2 = replay(drv, r['replay'], extra)
                if c1 == 1 and o1 == o2: out.append(r)
                else: why = 'replay in a fresh process does not reproduce: %s / %s' % (o1[-600:], o2[-600:])
            return out, why
        viol, why = confirmed(res)
        if (errs or why) and not viol:
            # the code under test may have reached memory that is not its own (the simulator's, or undefined contents): look for the stray access itself
            extra = ['--confine', '1']; res2, errs2 = drive(drv, prop, seed, CASES[prop], CAP['quick'], SCHEDS['quick'], tmp, extra)
            viol, why2 = confirmed(res2)
            if not viol: raise RuntimeError('; '.join(errs + [why, why2]))
            res = res2
        wall = time.time() - ts; tot = lambda k: sum(r[k] for r in res)
        hs = set(); per = {}; fired = {}; pol = {}; samples = []
        for r in res:
            hs.update(r['hashes'])
            for k, v in r['kernels'].items(): per[k] = per.get(k, 0) + v
            for k, v in r['fired'].items(): fired[k] = fired.get(k, 0) + v
            for k, v in r['policies'].items(): pol[k] = pol.get(k, 0) + v
            if len(samples) < 2: samples += r['samples'][:1]
        kn = known(); seen = set()
        runs = tot('runs') + tot('baseruns')
        ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'wall_s': round(time.time() - t0, 2), 'violations': len(viol),
              'coverage': {'evaluations': runs, 'distinct_nontrivial': len(hs) if all(len(r['hashes']) < 200000 for r in res) else tot('distinct'),
                'rule': 'one evaluation = one simulated execution of a generated case (kernel calls with generated boxes, ghosts, options and data; team sizes; schedule; faults). Non-trivial = scheduled run whose calls write at least one cell (cases that write nothing are discarded); distinct = distinct hash of (operations, sequence of scheduling switches with step offsets).',
                'samples': samples, 'cases': tot('cases'), 'scheduled_runs': tot('runs'), 'sequential_base_runs': tot('baseruns'), 'runs_per_hour': int(runs / max(wall, 1e-3) * 3600), 'seeds_per_hour': int(tot('cases') / max(wall, 1e-3) * 3600),
                'simulated_steps': tot('steps'), 'simulated_time_ticks': tot('simtime'), 'context_switches': tot('switches'), 'parallel_regions': tot('regions'), 'workers_started': tot('threads'), 'blocking_waits': tot('waits'), 'largest_team': max([r['maxteam'] for r in res] + [0]),
                'cells_written_by_reference': tot('written'), 'discarded_candidates': tot('discarded'), 'faults_fired': fired, 'schedule_policies': pol, 'operations_available': max([r['ops'] for r in res] + [0]), 'operations_exercised': len(per), 'calls_per_operation': per,
                'components': STUBS, 'build_s': round(tb, 1), 'search_s': round(wall, 1), 'trace_hashes': [r['thash'] for r in res]},
              'assumptions': ['worker code is preempted only at instrumented loads/stores, atomics and runtime calls; memory is sequentially consistent (weaker orders are covered through the race check C12)', 'the frozen reference in /verif/ref and the models in /verif/sim state the intended results', 'inputs are generated within the documented preconditions; the reference is run with bounds checks and such cases are discarded if it leaves its arrays']}
        json.dump(ev, open(V + '/evidence/%s.json' % prop, 'w'), indent=1)
        for r in viol:
            dst = V + '/replays/' + os.path.basename(r['replay']); txt = open(r['replay']).read()
            if extra: txt = '# confine\n' + txt
            open(dst, 'w').write(txt)
            k = next((k for k in kn if k['property'] == prop and k['match'] in r['msg']), None)
            if k:
                if k['match'] not in seen: print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
                seen.add(k['match']); continue
            print('%s: %s' % (r['kind'], r['msg'])); print('VIOLATION property=%s replay=%s' % (prop, dst)); sys.stdout.flush(); return 1
        print('%s: %d runs, %d distinct, %.1f s build, %.1f s search: held' % (prop, runs, ev['coverage']['distinct_nontrivial'], tb, wall)); return 0
    finally: shutil.rmtree(tmp, ignore_errors=True)
def do_replay(f):
    txt = open(f).read(); prop = re.search(r'^prop (\w+)', txt, re.M).group(1); tmp = tempfile.mkdtemp(prefix='sim_replay_')
    try:
        c, o = replay(build(tmp, prop), os.path.abspath(f), ['--confine', '1'] if txt.startswith('# confine') else []); print(o, end='')
        if c == 1: print('VIOLATION property=%s replay=%s' % (prop, os.path.abspath(f)))
        return c
    finally: shutil.rmtree(tmp, ignore_errors=True)

if __name__ == '__main__':
    a = sys.argv[1:]
    try:
        if a[0] == 'build':
            t = time.time(); print(build(a[1], a[2]), round(time.time() - t, 1), 's')
        elif a[0] == 'check': sys.exit(check(a[1], a[2] if len(a) > 2 else os.environ.get('VERIF_TIER', 'quick')))
        elif a[0] == 'replay': sys.exit(do_replay(a[1]))
        elif a[0] == 'setup': print('nothing to prepare: every check builds from /repo'); sys.exit(0)
    except (BuildError, RuntimeError, OSError, subprocess.SubprocessError) as e:
        print('ERROR: %s' % e, file=sys.stderr); sys.exit(2)
