#!/usr/bin/env python3
"""Development aid: run one or more properties past their first violation and print every kind of violation met."""
import json, os, re, subprocess, sys
H = os.path.dirname(os.path.abspath(__file__))
def main():
    secs = 15; props = []; inc = False
    for a in sys.argv[1:]:
        if a.startswith('-s'): secs = int(a[2:])
        elif a == '-i': inc = True
        else: props.append(a)
    for p in props:
        ps = []
        for k in range(8):
            o = '/tmp/triage.%s.%d' % (p, k)
            ps.append((o, subprocess.Popen([H + '/build/bmlsim' + os.environ.get('V', ''), 'run', '--prop', p, '--start', str(1 + k), '--stride', '8', '--seconds', str(secs), '--keep-going', '1', '--out', o], env=dict(os.environ, OPENBLAS_NUM_THREADS='1'), stderr=subprocess.PIPE)))
        tot = {}; first = {}; sums = dict(plans=0, clean=0, ended_reported=0, inconclusive=0, nontrivial=0, follow=0); inco = {}
        for o, q in ps:
            err = q.stderr.read().decode(errors='replace'); rc = q.wait()
            if rc: print('!! worker exit', rc, err[-400:]); continue
            d = json.load(open(o)); os.unlink(o)
            for x in sums: sums[x] += d[x]
            norm = lambda s: re.sub(r'_(single|double)_(real|complex)', '_T', s)
            for v, n in d['violations'].items(): tot[norm(v)] = tot.get(norm(v), 0) + n
            for v, n in d['inconclusive_kinds'].items(): inco[norm(v)] = inco.get(norm(v), 0) + n
            for v, s in d['first'].items(): first.setdefault(norm(v), s)
        print('==', p, sums)
        for v, n in sorted(tot.items(), key=lambda x: -x[1]): print('  %5d %-90s  %s' % (n, v, first.get(v, '')[:170]))
        if inc:
            for v, n in sorted(inco.items(), key=lambda x: -x[1]): print('   inc %5d %-90s  %s' % (n, v, first.get('inc ' + v, '')[:150]))
main()
