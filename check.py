#!/usr/bin/env python3
"""check.py <property> [quick|thorough]   -- decide one property of /repo's current tree.
   check.py --replay FILE                  -- run a replay file against the current tree.
   check.py --setup                        -- build everything (setup_cmd).

Exit 0: held on everything explored.  Exit 1 with a VIOLATION line: broken.  Exit 3: no answer.
Environment: VERIF_SEED (every random choice), VERIF_TIER.
"""
import json, os, re, subprocess, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'tools'))
import build as B
from props import PROPS

V = B.VERIF


def known():
    """known_findings.txt: '<id> <replay under known/> <what fails>' or 'fixed: ...' lines."""
    r = []
    p = os.path.join(V, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            m = re.match(r'known: property=(\S+) replay=(\S+) (.*)', l)
            if m:
                r.append(m.groups())
    return r


def run_stage(pid, st, tier, seed, tag):
    """one (configuration, harness) run; returns (rc, report dict)"""
    binp = st['bin']
    out = os.path.join(B.BUILD, 'run-%s-%s.json' % (pid, tag))
    if os.path.exists(out):
        os.unlink(out)
    cmd = [binp, '--prop', pid, '--seed', str(seed), '--tier', tier, '--workers', str(st.get('workers', os.cpu_count() or 8)),
           '--wall', str(st['wall']), '--mult', str(st.get('mult', 1)), '--out', out, '--replaydir', os.path.join(V, 'replays'), '--cpu', str(st.get('cpu', 30))]
    if st.get('only'):
        cmd += ['--only', st['only']]
    env = dict(os.environ)
    env['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:allocator_may_return_null=1'
    env['UBSAN_OPTIONS'] = 'print_stacktrace=0'
    env['TSAN_OPTIONS'] = 'halt_on_error=1:exitcode=66'
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env, errors='replace')
    print(r.stdout, end='', flush=True)
    rep = None
    if os.path.exists(out):
        with open(out) as f:
            rep = json.load(f)
        os.unlink(out)
    return r.returncode, rep


def fuzz_stage(pid, st, seed):
    """coverage-guided search (libFuzzer) over the same property functions"""
    import shutil, tempfile
    binp = st['bin']
    work = tempfile.mkdtemp(prefix='fuzz-', dir=B.BUILD)
    try:
        procs = []
        env = dict(os.environ, PBT_PROP=pid, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1')
        n = st.get('jobs', 8)
        corpus = os.path.join(work, 'corpus')
        os.mkdir(corpus)
        for i in range(n):
            log = open(os.path.join(work, 'log%d' % i), 'w')
            procs.append(subprocess.Popen([binp, corpus, '-seed=%d' % (seed * 100 + i + 1), '-max_total_time=%d' % st['wall'], '-max_len=%d' % st.get('max_len', 1024),
                                           '-timeout=60', '-rss_limit_mb=3000', '-print_final_stats=1', '-reload=5', '-len_control=20', '-artifact_prefix=%s/art%d-' % (work, i)],
                                          stdout=log, stderr=subprocess.STDOUT, env=env))
        for p in procs:
            p.wait()
        execs, cov = 0, 0
        for i in range(n):
            t = open(os.path.join(work, 'log%d' % i), errors='replace').read()
            m = re.findall(r'stat::number_of_executed_units:\s*(\d+)', t)
            execs += int(m[-1]) if m else 0
            m = re.findall(r'cov: (\d+)', t)
            cov = max(cov, int(m[-1]) if m else 0)
        viol = []
        arts = sorted(f for f in os.listdir(work) if re.match(r'art\d+-(crash|timeout)', f))
        for a in arts[:4]:
            r = subprocess.run([st['confirm'], '--prop', pid, '--frombytes', os.path.join(work, a), '--replaydir', os.path.join(V, 'replays')],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1'))
            print(r.stdout, end='', flush=True)
            viol += re.findall(r'^VIOLATION property=\S+ replay=(\S+)', r.stdout, re.M)
            if viol:
                break
        print('%s/libfuzzer: %d executions, coverage %d edges, %d artifacts, %d confirmed' % (pid, execs, cov, len(arts), len(viol)), flush=True)
        return {'execs': execs, 'cov': cov, 'artifacts': len(arts), 'violations': viol}
    finally:
        shutil.rmtree(work, ignore_errors=True)


def check(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    P = PROPS[pid]
    stages = [dict(s) for s in P['stages'] if s.get('tier', tier) == tier]
    by = {}
    for s in stages:
        by.setdefault(s['cfg'], set()).add(s['harness'])
        if s['cfg'] == 'fuzz':
            by.setdefault('asan', set()).add(s['harness'])
    bins = {c: B.build(c, sorted(h)) for c, h in by.items()}
    violations, reports, rc_all, finding_lines = [], [], 0, []
    # known findings: replay each listed input
    for kid, rep, text in known():
        if kid != pid:
            continue
        s = next((x for x in stages if x['cfg'] in ('rel', 'asan')), None)
        r = subprocess.run([bins[s['cfg']][s['harness']], '--replay', os.path.join(V, rep)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode == 1:
            print('KNOWN-FINDING: property=%s %s' % (pid, text), flush=True)
        else:
            print('note: the known finding "%s" no longer fails' % text)
    bad = False
    for i, s in enumerate(stages):
        s['bin'] = bins[s['cfg']][s['harness']]
        if s['cfg'] == 'fuzz':
            s['confirm'] = bins['asan'][s['harness']]
            rep = fuzz_stage(pid, s, seed)
            reports.append((s, {'fuzz': rep}))
            violations += rep['violations']
            continue
        rc, rep = run_stage(pid, s, tier, seed, '%d' % i)
        if rep is None or rc not in (0, 1):
            print('stage %s/%s gave no answer (rc %s)' % (s['cfg'], s['harness'], rc), flush=True)
            bad = True
            continue
        reports.append((s, rep))
        violations += rep['violations']
        if violations:
            break
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': P.get('level', 'exploration'), 'coverage': {'evaluations': 0, 'distinct_nontrivial': 0, 'rule': P['rule'], 'samples': [], 'stages': []},
          'assumptions': P.get('assumptions', []), 'violations': [{'replay': v} for v in violations], 'wall_s': round(time.time() - t0, 2)}
    c = ev['coverage']
    for s, rep in reports:
        if 'fuzz' in rep:
            c['evaluations'] += rep['fuzz']['execs']
            c['stages'].append({'config': 'libFuzzer+asan+ubsan', 'harness': s['harness'], 'executions': rep['fuzz']['execs'], 'edges_covered': rep['fuzz']['cov']})
            continue
        st = {'config': s['cfg'], 'harness': s['harness'], 'unconfirmed': rep['unconfirmed'], 'sub_properties': []}
        for p in rep['props']:
            c['evaluations'] += p['evaluations']
            c['distinct_nontrivial'] += p['nontrivial']
            st['sub_properties'].append({k: p[k] for k in ('name', 'evaluations', 'discards', 'nontrivial', 'cpu_s', 'cut', 'labels')})
            for x in p['samples']:
                if len(c['samples']) < 24:
                    c['samples'].append({'sub_property': p['name'], 'case': x})
        c['stages'].append(st)
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    with open(os.path.join(V, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    print('%s %s: %d cases, %d distinct non-trivial, %d violation(s), %.1f s' % (pid, tier, c['evaluations'], c['distinct_nontrivial'], len(violations), time.time() - t0), flush=True)
    if violations:
        return 1
    if bad:
        return 3
    if c['evaluations'] and not c['distinct_nontrivial']:
        print('no non-trivial case was generated: no answer')
        return 3
    return 0


def setup():
    by = {}
    for p in PROPS.values():
        for s in p['stages']:
            if s.get('tier', 'quick') == 'quick':
                by.setdefault(s['cfg'], set()).add(s['harness'])
    for c, h in sorted(by.items()):
        B.build(c, sorted(h))


def main():
    a = sys.argv[1:]
    if a and a[0] == '--setup':
        setup()
        return 0
    if a and a[0] == '--replay':
        h = open(a[1], errors='replace').read(4000)
        pid = re.search(r'^property (\S+)', h, re.M).group(1)
        name = re.search(r'^name (\S+)', h, re.M).group(1)
        rc = 0
        done = set()
        for s in PROPS[pid]['stages']:
            if s['cfg'] == 'fuzz' or s['harness'] in done:
                continue
            b = B.build(s['cfg'], [s['harness']])[s['harness']]
            l = subprocess.run([b, '--list'], stdout=subprocess.PIPE, text=True).stdout
            if '%s %s ' % (pid, name) in l:
                done.add(s['harness'])
                rc |= subprocess.run([b, '--replay', a[1], '--explain'], env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0')).returncode
        return rc
    tier = a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick')
    return check(a[0], tier)


if __name__ == '__main__':
    sys.exit(main())
