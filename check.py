#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: seeded search over simulated executions of the current /repo tree.

Exit 0: no counted violation in anything explored.  Exit 1: a violation, gated, minimised and written
as a replay file, reported as "VIOLATION property=<id> replay=<path>".  Exit 2: the check could not decide.
"""
import array, json, os, re, shutil, signal, subprocess, sys, time

H = os.path.dirname(os.path.abspath(__file__))
OUT = os.environ.get('BMLSIM_BUILD', os.path.join(H, 'build'))
BIN = os.path.join(OUT, 'bmlsim')
ENV = dict(os.environ, OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1')
REAL = ['every .c file of src/C-interface named by the CMake build (dense, csr, ellpack, ellblock, distributed2d, allocation, logging, MPI glue, internal BLAS wrappers), compiled from the working tree with OpenMP and MPI enabled and memory accesses instrumented; one of eight workers runs a build without OpenMP, in the thorough tier another one a build with the optional code (ellblock memory pool, plain malloc, syev solvers, the code kept for another compiler)', 'every .F90 file of src/Fortran-interface, instrumented the same way (C22 and part of C13)']
STUB = ['OpenMP runtime: simulated (threads are fibres, every preemption and lock hand-over is a scheduler decision)',
        'MPI: simulated (matching, delay, reordering, eager/synchronous sends, collectives, communicators, derived types)',
        'Fortran output to unit 6, stop, error stop: simulated (the rest of libgfortran is real)', 'malloc/calloc/realloc/posix_memalign/free: simulated heap with bounds, life time, origin and failure injection',
        'stdio: glibc streams over a simulated disk (open/write/read/close errors, full disk, short transfers, crash, damage)',
        'rand/srand, exit/abort/assert: simulated; BLAS/LAPACK: the real OpenBLAS behind operand checks; BLACS/ScaLAPACK queries: small stub']

def known(prop):
    """(pattern, replay, text) of the findings listed for prop."""
    r = []
    p = os.path.join(H, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) match=(\S+) replay=(\S+) (.*)', l)
            if m and m.group(1) == prop:
                r.append((m.group(2), m.group(3), m.group(4).strip()))
    return r

def replay(path):
    p = subprocess.run([BIN, 'replay', path], capture_output=True, text=True, errors='replace', env=ENV, timeout=300)
    return p.returncode, p.stdout

def field(text, name):
    m = re.search(r'^%s (.*)$' % name, text, re.M)
    return m.group(1) if m else ''

def variant(prop, k, tier):
    """the build worker k explores: one of eight takes the build without OpenMP, in the thorough tier another the optional code"""
    v = {6: '-alt' if tier == 'thorough' else '', 7: '-serial' if prop != 'C01' else ''}.get(k % 8, '')
    return v if os.path.exists(BIN + v) else ''

class Worker:
    def __init__(self, prop, k, stride, start, deadline, tmp, kn, tier):
        self.variant = variant(prop, k, tier)
        self.prop, self.k, self.stride, self.next, self.deadline, self.tmp, self.kn = prop, k, stride, start, deadline, tmp, kn
        self.gen = 0; self.crashes = []; self.results = []; self.proc = None
        self.spawn()
    def f(self, n): return os.path.join(self.tmp, '%s.%d.%d' % (n, self.k, self.gen))
    def spawn(self):
        left = self.deadline - time.monotonic()
        if left < 0.5: self.proc = None; return
        self.gen += 1
        self.proc = subprocess.Popen([BIN + self.variant, 'run', '--prop', self.prop, '--start', str(self.next), '--stride', str(self.stride), '--seconds', '%.2f' % left,
                                      '--out', self.f('out'), '--replay-to', self.f('replay'), '--hashes', self.f('hash'), '--known', self.kn, '--progress', self.f('prog')],
                                     env=ENV, stdout=subprocess.DEVNULL, stderr=open(self.f('err'), 'w'))
    def finish(self):
        """Called when the process ended; returns the path of a replay file on a violation."""
        rc = self.proc.returncode; self.proc = None
        if rc in (0, 10) and os.path.exists(self.f('out')):
            d = json.load(open(self.f('out'))); d['hashfile'] = self.f('hash'); d['build'] = self.variant[1:] or 'default'; self.results.append(d)
            if rc == 10: return self.f('replay')
            self.next = d['next']; self.spawn(); return None
        try: seed = int(open(self.f('prog')).read().split()[0])
        except Exception: seed = self.next
        self.crashes.append((seed, rc)); self.next = seed + self.stride
        if len(self.crashes) < 200: self.spawn()
        return None

def gate(prop, rep, minimise_s):
    """Reproduce in fresh processes, minimise, reproduce again.  Returns (path, description) or None."""
    a = replay(rep); b = replay(rep)
    if a != b or a[0] != 1: return None, 'replays of %s differ or do not fail: exits %d and %d' % (rep, a[0], b[0])
    d = os.path.join(H, 'replays'); os.makedirs(d, exist_ok=True)
    seed = field(open(rep).read(), 'seed'); final = os.path.join(d, '%s-%s.replay' % (prop, seed))
    shutil.copy(rep, final); best = a
    m = final + '.min'
    try:
        p = subprocess.run([BIN, 'minimise', rep, m, str(minimise_s)], capture_output=True, text=True, env=ENV, timeout=minimise_s + 120)
        if p.returncode == 0:
            c = replay(m); e = replay(m)
            if c == e and c[0] == 1: os.replace(m, final); best = c
    except subprocess.TimeoutExpired: pass
    if os.path.exists(m): os.unlink(m)
    return final, best[1]

def main():
    t0 = time.monotonic()
    prop = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    secs = float(os.environ.get('BMLSIM_SECONDS', '0')) or (45 if tier == 'quick' else 660)
    nw = int(os.environ.get('BMLSIM_WORKERS', '0')) or min(8, os.cpu_count() or 1)
    print('check %s tier=%s VERIF_SEED=%d workers=%d search=%ds' % (prop, tier, seed, nw, secs), flush=True)
    os.makedirs(OUT, exist_ok=True)
    if subprocess.run([sys.executable, os.path.join(H, 'build.py')] + ['all'] * (tier == 'thorough')).returncode: print('build failed'); return 2
    tb = time.monotonic() - t0
    tmp = os.path.join(OUT, 'run.%s.%d' % (prop, os.getpid())); shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
    kf = known(prop); kn = os.path.join(tmp, 'known'); open(kn, 'w').write(''.join(k[0] + '\n' for k in kf))
    # determinism first: the same seeds in two processes must give the same executions
    base = 1 + seed * 10000000
    dt = []
    for _ in range(2):
        h = os.path.join(tmp, 'det%d' % len(dt))
        subprocess.run([BIN, 'run', '--prop', prop, '--start', str(base), '--count', '40', '--seconds', '60', '--keep-going', '1', '--out', h + '.json', '--hashes', h], env=ENV, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        dt.append(sorted_hashes(h) if os.path.exists(h) else None)
    det = dt[0] is not None and dt[0] == dt[1]
    # and the recorded schedule of a run must reproduce it exactly
    fid = subprocess.run([BIN, 'fidelity', prop, str(base), '40'], env=ENV, capture_output=True, text=True, errors='replace', timeout=200).stdout.strip().split('\n')[-1]
    det = det and ' 0 differences' in fid
    for v in sorted({variant(prop, k, tier) for k in range(nw)} - {''}):
        f = subprocess.run([BIN + v, 'fidelity', prop, str(base), '10'], env=ENV, capture_output=True, text=True, errors='replace', timeout=200).stdout.strip().split('\n')[-1]
        det = det and ' 0 differences' in f
    deadline = time.monotonic() + secs
    ws = [Worker(prop, k, nw, base + k, deadline, tmp, kn, tier) for k in range(nw)]
    rep = None
    while any(w.proc for w in ws) and not rep:
        time.sleep(0.05)
        for w in ws:
            if w.proc and w.proc.poll() is not None:
                r = w.finish()
                if r: rep = r; break
            elif w.proc and time.monotonic() > deadline + 60: w.proc.kill()
    for w in ws:
        if w.proc: w.proc.kill(); w.proc.wait()
    rc = 0; nviol = 0
    if rep:
        path, text = gate(prop, rep, 45 if tier == 'quick' else 120)
        if path: rc = 1; nviol = 1
        else: print('a violation was found but did not reproduce (%s)' % text); rc = 2
    crashes = [c for w in ws for c in w.crashes]
    res = [d for w in ws for d in w.results]
    for pat, rp, txt in kf:
        p = os.path.join(H, rp)
        c, o = replay(p) if os.path.exists(p) else (0, '')
        if c == 1: print('KNOWN-FINDING: property=%s %s' % (prop, txt))
        else: print('note: the listed finding "%s" did not show in its recorded execution' % txt)
    cov = coverage(res, tier, det, tb, crashes, kf); cov['replay_fidelity'] = fid
    wall = time.monotonic() - t0
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov, 'wall_s': round(wall, 2), 'violations': nviol,
          'assumptions': ['sampled, not exhaustive: a clean batch is evidence about the executions explored',
                          'the simulated OpenMP, MPI, allocator and stdio follow their specifications (DESIGN.md, "What is trusted")',
                          'matrices up to about 34x34 (rarely up to 286x286), teams up to 12 threads, up to 16 ranks']}
    os.makedirs(os.path.join(H, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(H, 'evidence', prop + '.json'), 'w'), indent=1)
    shutil.rmtree(tmp, ignore_errors=True)
    print('explored %d runs, %d distinct executions, %d distinct interleavings, in %.0f s' % (cov['evaluations'], cov['distinct_executions'], cov['distinct_interleavings'], wall))
    if rc == 1:
        print(text.strip()); print('VIOLATION property=%s replay=%s' % (prop, path))
    elif rc == 0 and not det:
        print('the simulator was not deterministic on this tree'); rc = 2
    elif rc == 0 and cov['evaluations'] < 50:
        print('too few executions'); rc = 2
    if crashes: print('%d runs ended the simulator itself: %s' % (len(crashes), crashes[:5]))
    return rc

def read_hashes(f):
    a = array.array('Q')
    try:
        b = open(f, 'rb').read(); a.frombytes(b[:len(b) // 8 * 8])
    except OSError: pass
    if 0 not in a: return [], []
    i = a.index(0); return a[:i], a[i + 1:]
def sorted_hashes(f):
    x, y = read_hashes(f); return sorted(x), sorted(y)

def coverage(res, tier, det, tb, crashes, kf):
    c = {}; st = {}; builds = {}; ops = {}; inc = {}; kh = {}; samples = []; il = set(); ex = set(); wall = 0.0
    for d in res:
        builds[d['build']] = builds.get(d['build'], 0) + d['plans']
        for k in ('plans', 'clean', 'ended_reported', 'inconclusive', 'nontrivial', 'vtime', 'follow'): c[k] = c.get(k, 0) + d[k]
        for k, v in d['stats'].items(): st[k] = st.get(k, 0) + v
        for k, v in d['ops'].items(): ops[k] = ops.get(k, 0) + v
        for k, v in d['inconclusive_kinds'].items(): inc[k] = inc.get(k, 0) + v
        for k, v in d.get('known', {}).items(): kh[k] = kh.get(k, 0) + v
        if len(samples) < 6: samples += d['samples'][:2]
        a, b = read_hashes(d['hashfile']); il.update(a); ex.update(b); wall = max(wall, d['wall'])
    plans = c.get('plans', 0); runs = plans + c.get('follow', 0); h = max(wall, 0.001) / 3600
    faults = {'preemptions of a thread at an arbitrary memory access': st.get('preempts', 0), 'team smaller than asked for': st.get('shrinks', 0), 'contended lock hand-overs': st.get('lock_contention', 0),
              'message delays': st.get('delayed', 0), 'messages overtaken (reordered)': st.get('reordered', 0), 'sends forced to be synchronous': st.get('sync_sends', 0), 'rank switches': st.get('rank_switches', 0), 'stalled ranks': st.get('stalls', 0),
              'failed allocations': st.get('alloc_failed', 0), 'injected I/O faults': st.get('io_faults', 0), 'crashes while writing': st.get('crashes', 0), 'damaged files read': st.get('corruptions', 0), 'invalid calls': st.get('invalid_calls', 0),
              'stack frames filled with garbage': st.get('stack_scribbles', 0)}
    return {'evaluations': runs, 'distinct_nontrivial': len(ex),
            'rule': 'one evaluation is one simulated execution of a seeded plan (matrix format, precision, sizes, values, operation history, team size, rank count, scheduler policy, memory contents and faults all derived from the seed); it is non-trivial when at least two operations of the history ran, and distinct by the hash of its whole event log',
            'samples': samples[:6], 'plans': plans, 'plans_by_build': builds, 'clean': c.get('clean', 0), 'ended_by_a_required_error_report': c.get('ended_reported', 0), 'inconclusive': c.get('inconclusive', 0), 'inconclusive_kinds': dict(sorted(inc.items(), key=lambda x: -x[1])[:20]),
            'runs_per_hour': int(runs / h), 'seeds_per_hour': int(plans / h), 'simulated_time_steps': c.get('vtime', 0), 'simulated_time_unit': 'instrumented memory accesses and synchronisation events (the library reads no clock)',
            'faults_injected': faults, 'distinct_executions': len(ex), 'distinct_interleavings': len(il), 'interleaving_measure': 'hash of the sequence of scheduling decisions (thread switches, lock hand-overs, rank switches, message matches)',
            'operations': ops, 'stats': st, 'known_findings_met': kh, 'harness_crashes': len(crashes), 'deterministic_on_resample': det, 'build_s': round(tb, 1), 'components_real': REAL, 'components_stubbed': STUB}

if __name__ == '__main__':
    sys.exit(main())
