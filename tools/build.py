#!/usr/bin/env python3
"""Builds /repo's library sources and the harnesses of /verif, offline.

The library is compiled straight from /repo's working tree as a handful of
unity chunks (build.sh's own products are never used).  The three huge
translation units (collision, distance, continuous_collision) are split per
narrow-phase solver to shorten the critical path; if that split does not
compile (a refactoring moved the class names it uses) they are compiled whole.
ccache, when present, makes rebuilds of unchanged text cheap.
"""
import fcntl, hashlib, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
NCHUNK = 8

# harness name -> (objects beyond the base library that it needs)
HEAVY = {
    'collide': ['collision'],
    'distance': ['collision', 'distance'],
    'ccd': ['collision', 'distance', 'continuous_collision'],
}

CONFIGS = {
    # compiler, lib flags, harness flags, link flags
    'rel': ('g++', '-O1 -DNDEBUG', '-O1 -DNDEBUG', ''),
    'asan': ('clang++',
             '-O1 -g1 -DNDEBUG -fsanitize=address,undefined -fno-sanitize=vptr,function -fno-sanitize-recover=undefined -fno-omit-frame-pointer -D_GLIBCXX_ASSERTIONS',
             '-O1 -g1 -DNDEBUG -fsanitize=address,undefined -fno-sanitize=vptr,function -fno-sanitize-recover=undefined -fno-omit-frame-pointer -D_GLIBCXX_ASSERTIONS',
             '-fsanitize=address,undefined'),
    'fuzz': ('clang++',
             '-O1 -g1 -DNDEBUG -fsanitize=fuzzer-no-link,address,undefined -fno-sanitize=vptr,function -fno-sanitize-recover=undefined -fno-omit-frame-pointer -D_GLIBCXX_ASSERTIONS',
             '-O1 -g1 -DNDEBUG -DPBT_LIBFUZZER -fsanitize=fuzzer-no-link,address,undefined -fno-sanitize=vptr,function -fno-sanitize-recover=undefined -fno-omit-frame-pointer -D_GLIBCXX_ASSERTIONS',
             '-fsanitize=fuzzer,address,undefined'),
    'tsan': ('clang++', '-O1 -g1 -DNDEBUG -fsanitize=thread', '-O1 -g1 -DNDEBUG -fsanitize=thread', '-fsanitize=thread'),
}

SSE = '-mfpmath=sse -msse -msse2 -msse3 -mssse3'
WARN = '-w'


def write_if_changed(path, text):
    try:
        with open(path) as f:
            if f.read() == text:
                return
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w') as f:
        f.write(text)


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def configure():
    """cmake -S /repo generates fcl/config.h, fcl/fcl.h and fcl/export.h."""
    cdir = os.path.join(BUILD, 'cmake')
    env = dict(os.environ, CC='gcc', CXX='g++')
    for k in ('CXXFLAGS', 'CFLAGS', 'CPPFLAGS', 'LDFLAGS'):
        env.pop(k, None)
    args = ['cmake', '-S', REPO, '-B', cdir, '-G', 'Ninja', '-Wno-dev', '-DBUILD_TESTING=OFF',
            '-DCMAKE_BUILD_TYPE=Release', '-DFCL_STATIC_LIBRARY=ON']
    r = run(args, env=env)
    if r.returncode:
        shutil.rmtree(cdir, ignore_errors=True)
        r = run(args, env=env)
        if r.returncode:
            print(r.stdout)
            raise SystemExit(3)
    # copy the generated headers with stable mtimes
    src = os.path.join(cdir, 'include')
    dst = os.path.join(BUILD, 'gen')
    for root, _, files in os.walk(src):
        for f in files:
            if f.endswith('.h'):
                p = os.path.join(root, f)
                with open(p) as fh:
                    write_if_changed(os.path.join(dst, os.path.relpath(p, src)), fh.read())


SPLIT = {
    'collision': ('fcl/narrowphase/collision-inl.h', 'CollisionFunctionMatrix'),
    'distance': ('fcl/narrowphase/distance-inl.h', 'DistanceFunctionMatrix'),
    'continuous_collision': ('fcl/narrowphase/continuous_collision-inl.h', 'ConservativeAdvancementFunctionMatrix'),
}
SOLVERS = {'ccd': 'GJKSolver_libccd', 'indep': 'GJKSolver_indep'}


def generate(cfg, harnesses, split):
    cxx, libf, harf, linkf = CONFIGS[cfg]
    out = os.path.join(BUILD, cfg + ('' if split else '-whole'))
    os.makedirs(out, exist_ok=True)
    sdir = os.path.join(REPO, 'src')
    srcs = []
    for root, _, files in os.walk(sdir):
        for f in sorted(files):
            if f.endswith('.cpp'):
                srcs.append(os.path.join(root, f))
    srcs.sort()
    heavy = {os.path.join(sdir, 'narrowphase', h + '.cpp'): h for h in SPLIT}
    light = [s for s in srcs if s not in heavy]
    # stable assignment of files to chunks, by name
    chunks = [[] for _ in range(NCHUNK)]
    for i, s in enumerate(light):
        chunks[i % NCHUNK].append(s)
    objs = {}
    gen = os.path.join(out, 'src')
    for i, c in enumerate(chunks):
        p = os.path.join(gen, 'base_%d.cpp' % i)
        write_if_changed(p, ''.join('#include "%s"\n' % s for s in c))
        objs['base_%d' % i] = p
    for path, h in heavy.items():
        hdr, cls = SPLIT[h]
        inst = ['fcl::detail::%s<fcl::detail::%s<double>>' % (cls, SOLVERS[s]) for s in SOLVERS]
        if split:
            pre = '#include "%s"\n' % hdr + ''.join('extern template struct %s;\n' % i for i in inst)
            # distance()'s signed-distance fall-back also reaches the collision matrix
            if h != 'collision':
                pre += ''.join('extern template struct fcl::detail::CollisionFunctionMatrix<fcl::detail::%s<double>>;\n' % SOLVERS[s] for s in SOLVERS)
            p = os.path.join(gen, h + '_main.cpp')
            write_if_changed(p, pre + '#include "%s"\n' % path)
            objs[h + '_main'] = p
            for s, i in zip(SOLVERS, inst):
                p = os.path.join(gen, '%s_%s.cpp' % (h, s))
                write_if_changed(p, '#include "%s"\ntemplate struct %s;\n' % (hdr, i))
                objs['%s_%s' % (h, s)] = p
        else:
            p = os.path.join(gen, h + '_whole.cpp')
            write_if_changed(p, '#include "%s"\n' % path)
            objs[h + '_whole'] = p
    cc = shutil.which('ccache')
    launcher = (cc + ' ') if cc and not os.environ.get('VERIF_NO_CCACHE') else ''
    inc = '-I%s/include -I%s -isystem /usr/include/eigen3 -I%s/harness' % (REPO, os.path.join(BUILD, 'gen'), VERIF)
    nin = ['ninja_required_version = 1.3',
           'rule cxx\n  command = %s%s -MD -MF $out.d $flags %s %s %s -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n  description = CXX $out' % (launcher, cxx, SSE, WARN, inc),
           'rule link\n  command = %s %s $in -o $out -lccd -loctomap -loctomath -lpthread -lm\n  description = LINK $out' % (cxx, linkf)]
    for o, p in objs.items():
        nin.append('build %s/%s.o: cxx %s\n  flags = -std=c++11 -fPIC %s' % (out, o, p, libf))
    bins = {}
    for h in harnesses:
        p = os.path.join(VERIF, 'harness', h + '.cpp')
        opts = harness_options(p)
        need = set()
        for n in opts.get('needs', []):
            need.update(HEAVY[n])
        extra = []
        for n in sorted(need):
            extra += (['%s_main' % n, '%s_ccd' % n, '%s_indep' % n] if split else ['%s_whole' % n])
        parts = [p] + [os.path.join(VERIF, 'harness', e) for e in opts.get('sources', [])]
        hobjs = []
        for q in parts:
            ho = '%s/h_%s.o' % (out, os.path.basename(q)[:-4])
            line = 'build %s: cxx %s\n  flags = -std=c++14 %s' % (ho, q, harf)
            if line not in nin:
                nin.append(line)
            hobjs.append(ho)
        libobjs = ['%s/base_%d.o' % (out, i) for i in range(NCHUNK)] + ['%s/%s.o' % (out, e) for e in extra]
        b = os.path.join(out, h)
        nin.append('build %s: link %s' % (b, ' '.join(hobjs + libobjs)))
        bins[h] = b
    nf = os.path.join(out, 'build_%s.ninja' % ('all' if len(harnesses) > 1 else harnesses[0]))
    write_if_changed(nf, '\n'.join(nin) + '\n')
    return out, nf, bins


def harness_options(path):
    """// PBT-NEEDS: collide distance   // PBT-SOURCES: a.cpp b.cpp   (first lines of a harness)"""
    o = {}
    with open(path) as f:
        for l in f:
            if l.startswith('// PBT-NEEDS:'):
                o['needs'] = l.split(':', 1)[1].split()
            elif l.startswith('// PBT-SOURCES:'):
                o['sources'] = l.split(':', 1)[1].split()
            elif not l.startswith('//'):
                break
    return o


def build(cfg, harnesses, jobs=None, quiet=True):
    os.makedirs(BUILD, exist_ok=True)
    env = dict(os.environ)
    for k in ('CXXFLAGS', 'CFLAGS', 'CPPFLAGS', 'LDFLAGS'):
        env.pop(k, None)
    env.setdefault('CCACHE_DIR', os.path.join(BUILD, 'ccache'))
    env['CCACHE_MAXSIZE'] = '3G'
    env['CCACHE_NOHASHDIR'] = '1'
    env['CCACHE_SLOPPINESS'] = 'include_file_mtime,include_file_ctime,time_macros'
    t0 = time.time()
    with open(os.path.join(BUILD, '.lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        configure()
        for split in (True, False):
            out, nf, bins = generate(cfg, harnesses, split)
            r = run(['ninja', '-C', out, '-f', nf, '-j%d' % (jobs or os.cpu_count() or 8)] + list(bins.values()), env=env)
            if r.returncode == 0:
                if not quiet:
                    print(r.stdout)
                print('built %s [%s] in %.1f s' % (' '.join(harnesses), cfg, time.time() - t0), flush=True)
                return bins
            if split:
                print('split build failed, retrying with whole translation units:\n' + r.stdout[-1500:], flush=True)
    print(r.stdout[-6000:])
    raise SystemExit(3)


if __name__ == '__main__':
    build(sys.argv[1], sys.argv[2:], quiet=False)
