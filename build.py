#!/usr/bin/env python3
"""Builds the simulator from /repo's current working tree.

libbmlsim.so : the real lanl/bml C sources, compiled with OpenMP + TSan-style
               access hooks (outlined calls only; the TSan runtime is not linked),
               against the simulated MPI of sim/mpi.h.
bmlsim       : simulator runtime + workload + oracle.
"""
import os, re, sys, glob, subprocess, shutil, fcntl

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('BML_REPO', '/repo')
OUT = os.environ.get('BMLSIM_BUILD', os.path.join(HERE, 'build'))

def cm_sources(d):
    """sources a directory's CMakeLists.txt compiles"""
    with open(os.path.join(d, 'CMakeLists.txt')) as f:
        txt = f.read()
    return sorted(set(s for s in re.findall(r'\b([A-Za-z0-9_]+\.c)\b', txt) if os.path.exists(os.path.join(d, s))))

TYPES = ['SINGLE_REAL', 'DOUBLE_REAL', 'SINGLE_COMPLEX', 'DOUBLE_COMPLEX']

def defines():
    d = ['BML_COMPLEX', 'BML_SYEVD', 'BML_USE_MPI', 'BML_USE_POSIX_MEMALIGN', 'BML_USE_SCALAPACK',
         'GLOBAL_DEBUG=BML_LOG_INFO', 'HAVE_BLAS', 'HAVE_LAPACK', 'MALLOC_ALIGNMENT=64', 'NUMROC=numroc_',
         'PCHEEVD=pcheevd_', 'PDSYEVD=pdsyevd_', 'PSSYEVD=pssyevd_', 'PZHEEVD=pzheevd_', '_POSIX_C_SOURCE=200112L']
    for t in 'CDSZ':
        for f in ['AXPY', 'GEMM', 'GETRF', 'GETRI', 'LACPY', 'SCAL']:
            d.append('C_%s%s=%s_' % (t, f, (t + f).lower()))
    for t in 'CZ': d.append('C_%sHEEVR=%sheevr_' % (t, t.lower()))
    for t in 'DS':
        for f in ['SYEV', 'SYEVD']: d.append('C_%s%s=%s_' % (t, f, (t + f).lower()))
    return ['-D' + x for x in d] + ['-DBML_VERSION=\\"2.4.0\\"', '-DPROJECT_VERSION=\\"2.4.0\\"']

FTYPES = [('single_real', 'real(C_FLOAT)', 'C_FLOAT', 'BML_ELEMENT_REAL', 'BML_PRECISION_SINGLE_REAL'),
          ('double_real', 'real(C_DOUBLE)', 'C_DOUBLE', 'BML_ELEMENT_REAL', 'BML_PRECISION_DOUBLE_REAL'),
          ('single_complex', 'complex(C_FLOAT_COMPLEX)', 'C_FLOAT_COMPLEX', 'BML_ELEMENT_COMPLEX', 'BML_PRECISION_SINGLE_COMPLEX'),
          ('double_complex', 'complex(C_DOUBLE_COMPLEX)', 'C_DOUBLE_COMPLEX', 'BML_ELEMENT_COMPLEX', 'BML_PRECISION_DOUBLE_COMPLEX')]

# other builds the same sources offer: the options of CMakeLists.txt, or what other compilers select (name, flags added, flags taken away)
VARIANTS = [('alt', '-DBML_ELLBLOCK_USE_MEMPOOL -D__ibmxl__', ['-DBML_SYEVD', '-DBML_USE_POSIX_MEMALIGN']),
            ('serial', '', ['-fopenmp'])]

def write_if_changed(p, txt):
    if not os.path.exists(p) or open(p).read() != txt:
        open(p, 'w').write(txt)

def fortran_sources(d):
    """the Fortran interface as the project's build expands it, in an order that satisfies module use"""
    with open(os.path.join(d, 'CMakeLists.txt')) as f:
        names = [s for s in re.findall(r'\b([A-Za-z0-9_]+\.[Ff]90)\b', f.read()) if os.path.exists(os.path.join(d, s))]
    g = os.path.join(OUT, 'fsrc'); os.makedirs(g, exist_ok=True)
    files = []
    for s in sorted(set(names)):
        p = os.path.join(d, s)
        if s == 'bml_typed_m.F90' or '_typed_m' not in s:
            files.append(p); continue
        txt = open(p).read()
        for t, rt, rk, rn, pn in FTYPES:
            q = os.path.join(g, s.replace('typed', t))
            write_if_changed(q, txt.replace('MATRIX_TYPE', t).replace('REAL_TYPE', rt).replace('REAL_KIND', rk).replace('REAL_NAME', rn).replace('PRECISION_NAME', pn))
            files.append(q)
    q = os.path.join(g, 'fshim.F90')
    subprocess.run([sys.executable, os.path.join(HERE, 'fshim_gen.py'), q + '.new'], check=True)
    write_if_changed(q, open(q + '.new').read()); files.append(q)
    mod, use = {}, {}
    for f in files:
        txt = open(f, errors='replace').read().lower()
        for m in re.findall(r'^\s*module\s+(?!procedure\b)(\w+)', txt, re.M): mod[m] = f
        use[f] = set(re.findall(r'^\s*use\s*(?:,[^:\n]*::)?\s*(\w+)', txt, re.M))
    return [(f, sorted({mod[u] for u in use[f] if u in mod and mod[u] != f})) for f in files]

def wraps():
    """every __wrap_X the simulator defines (after macro expansion)"""
    syms = set()
    for f in glob.glob(os.path.join(HERE, 'sim', '*.cpp')):
        out = subprocess.run(['g++', '-std=c++17', '-E', '-P', '-I', os.path.join(HERE, 'sim'), f], capture_output=True, text=True).stdout
        syms |= set(re.findall(r'\b__wrap_([A-Za-z0-9_]+)', out))
    return sorted(syms)

def main():
    os.makedirs(OUT, exist_ok=True)
    lock = open(os.path.join(OUT, '.lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    src = os.path.join(REPO, 'src')
    dirs = [os.path.join(src, 'C-interface')] + [os.path.join(src, 'C-interface', x) for x in
            sorted(os.listdir(os.path.join(src, 'C-interface'))) if os.path.exists(os.path.join(src, 'C-interface', x, 'CMakeLists.txt'))] + [os.path.join(src, 'internal-blas')]
    incs = ' '.join('-I' + d for d in [os.path.join(HERE, 'sim')] + dirs + [src])
    cflags = ('-std=c99 -O1 -g1 -ftrivial-auto-var-init=pattern -fPIC -fopenmp -U_FORTIFY_SOURCE -fsanitize=thread -fno-builtin-memcpy -fno-builtin-memset -fno-builtin-memmove '
              '-fno-builtin-printf -fno-builtin-fprintf -fno-builtin-malloc -fno-builtin-calloc -fno-builtin-realloc -fno-builtin-free '
              '-fno-builtin-strdup -fno-builtin-puts -fno-builtin-putchar -fno-builtin-fputs -fno-builtin-fputc -fno-builtin-fwrite '
              '-fno-ipa-icf -w ' + ' '.join(defines()) + ' ' + incs)
    n = ['cflags = ' + cflags.replace('$', '$$'),
         'xflags = -std=c++17 -O2 -g1 -w -fno-strict-aliasing ' + '-I%s/sim %s' % (HERE, incs),
         'rule cc\n  command = gcc -MD -MF $out.d $fl $def -c $in -o $out\n  depfile = $out.d\n  deps = gcc',
         'rule cxx\n  command = g++ -MD -MF $out.d $xflags -c $in -o $out\n  depfile = $out.d\n  deps = gcc',
         'rule fc\n  command = gfortran -O0 -g1 -finit-real=nan -finit-integer=-16843010 -fPIC -fopenmp -fsanitize=thread -cpp -ffree-line-length-none -w -DBML_COMPLEX -J $mods -I $mods -c $in -o $out && objcopy --redefine-sym malloc=simf_malloc --redefine-sym calloc=simf_calloc --redefine-sym realloc=simf_realloc $out',
         'rule so\n  command = gcc -shared -o $out @$out.rsp -Wl,-Bsymbolic -lgfortran -lm\n  rspfile = $out.rsp\n  rspfile_content = $in_newline $wraps',
         'rule exe\n  command = g++ -rdynamic -o $out $in -L%s -l$lib -Wl,-rpath,%s -lopenblas -lgfortran -lpthread -ldl -lm' % (OUT, OUT)]
    libs = [('', 'obj', '$cflags')]
    for v, add, drop in VARIANTS:
        n.append('cflags_%s = %s' % (v, ' '.join([f for f in cflags.split() if f not in drop] + [add]).replace('$', '$$')))
        libs.append(('-' + v, 'obj/' + v, '$cflags_' + v))
    def lib_objs(o_dir, flags):
        objs = []
        for d in dirs:
            typed_dir = os.path.basename(d) == 'internal-blas'
            for s in cm_sources(d):
                p = os.path.join(d, s)
                rel = os.path.relpath(p, src).replace('/', '__')[:-2]
                for t in (TYPES if typed_dir or s.endswith('_typed.c') else ['']):
                    o = '%s/%s%s.o' % (o_dir, rel, t and '.' + t.lower())
                    n.append('build %s: cc %s\n  def = %s\n  fl = %s' % (o, p, t and '-D' + t, flags)); objs.append(o)
        return objs
    mods = os.path.join(OUT, 'obj', 'mod'); os.makedirs(mods, exist_ok=True)
    fobjs = []
    fo = lambda f: 'obj/f_%s.o' % os.path.basename(f)[:-4]
    for f, deps in fortran_sources(os.path.join(src, 'Fortran-interface')):
        n.append('build %s: fc %s | %s\n  mods = %s' % (fo(f), f, ' '.join(map(fo, deps)), mods)); fobjs.append(fo(f))
    xo = []
    for f in sorted(glob.glob(os.path.join(HERE, 'sim', '*.cpp'))):
        o = 'obj/sim_%s.o' % os.path.basename(f)[:-4]
        n.append('build %s: cxx %s' % (o, f)); xo.append(o)
    wr = ' '.join('-Wl,--wrap=' + w for w in wraps())
    for v, o_dir, flags in libs:
        n.append('build libbmlsim%s.so: so %s\n  wraps = %s' % (v, ' '.join(lib_objs(o_dir, flags) + fobjs), wr))
        n.append('build bmlsim%s: exe %s | libbmlsim%s.so\n  lib = bmlsim%s' % (v, ' '.join(xo), v, v))
    txt = '\n'.join(n) + '\n'
    p = os.path.join(OUT, 'build.ninja')
    if not os.path.exists(p) or open(p).read() != txt:
        open(p, 'w').write(txt)
    r = subprocess.run(['ninja', '-C', OUT, 'bmlsim'], capture_output=True, text=True)
    if r.returncode:
        sys.stderr.write(r.stdout[-6000:] + r.stderr[-2000:])
        return 2
    # the other builds are extra: without one (code only it compiles may be out of date) the search uses the default build alone
    for v in [x[0] for x in VARIANTS if x[0] == 'serial' or 'all' in sys.argv[1:]]:
        e = os.path.join(OUT, 'bmlsim-' + v)
        r = subprocess.run(['ninja', '-C', OUT, 'bmlsim-' + v], capture_output=True, text=True)
        if r.returncode:
            sys.stderr.write('the build "%s" failed and is left out\n%s' % (v, r.stdout[-1500:]))
            if os.path.exists(e): os.unlink(e)
    return 0

if __name__ == '__main__':
    sys.exit(main())
