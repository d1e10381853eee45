#!/usr/bin/env python3
"""Decide one property against /repo's current working tree.   run.py <id> [--replay FILE]"""
import concurrent.futures as cf
import json, os, re, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'vlib'))
import vrun, kanirun
from props import PROPS

REPO = '/repo'
TOOLCHAIN = 'nightly-2026-05-18'
TIER = 'thorough' if os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
try:
    SEED = int(os.environ.get('VERIF_SEED', '1'))
except ValueError:
    SEED = 1

def known_findings(pid):
    """listed findings of this property: (tag, text)"""
    out = []
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'KNOWN-FINDING: property=(\S+) \[(\S+)\] (.*)', l.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out

def cargo_env(target):
    env = dict(os.environ)
    env.update(RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_NET_OFFLINE='true', CARGO_TARGET_DIR=target, VERIF_SEED=str(SEED), VERIF_TIER=TIER)
    env.pop('RUSTFLAGS', None)
    return env

def build_bin(name, scratch):
    """-> (path, None) or (None, error text)"""
    crate = os.path.join(HERE, 'harness')
    if name.startswith(('s_', 'k_')):
        import slices
        crate = os.path.join(scratch, 'slice-' + name)
        try:
            (slices.generate if name.startswith('s_') else slices.generate_kani)(name, crate, REPO)
        except Exception as x:
            return None, 'slice extraction failed: %s' % x
    target = os.path.join(scratch, 'target-' + name)
    p = subprocess.run(['cargo', 'build', '--offline', '--quiet', '--bin', name], cwd=crate, env=cargo_env(target), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        return None, p.stdout[-3000:]
    return os.path.join(target, 'debug', name), None

def run_bin(name, plans, scratch):
    t0 = time.time()
    exe, err = build_bin(name, scratch)
    r = {'bin': name, 'plans': plans, 'build_s': round(time.time() - t0, 2)}
    if exe is None:
        r['error'] = 'build: ' + err
        return r
    t0 = time.time()
    try:
        p = subprocess.run([exe] + plans, cwd=scratch, env=cargo_env(scratch), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=240 if TIER == 'quick' else 700)
    except subprocess.TimeoutExpired:
        r['error'] = 'run timed out'
        return r
    r['run_s'] = round(time.time() - t0, 2)
    out = p.stdout
    r['known'] = re.findall(r'^KNOWN (\S+)', out, re.M)
    m = re.search(r'^CASE (.*)$', out, re.M)
    if p.returncode == 0 and re.search(r'^OK ', out, re.M):
        r['ok'] = json.loads(re.search(r'^OK (.*)$', out, re.M).group(1))
    elif re.search(r'^(FAIL|CRASH|HANG)', out, re.M) and m:
        r['failed'] = {'case': m.group(1), 'output': out[-6000:]}
    elif p.returncode < 0:
        r['failed'] = {'case': None, 'output': 'killed by signal %d\n' % -p.returncode + out[-6000:]}
    else:
        r['error'] = 'exit %d: %s' % (p.returncode, out[-2000:])
    return r

def verus_unit(name, scratch, only):
    d = os.path.join(scratch, 'v-' + name)
    os.makedirs(d)
    return vrun.run_unit(name, d, REPO, threads=4, only=only)

def verus_canary(name, scratch, only):
    d = os.path.join(scratch, 'c-' + name)
    os.makedirs(d)
    return vrun.run_unit(name, d, REPO, threads=4, canary=True, rlimit=4, only=only)

def replay_path(pid):
    d = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(d, exist_ok=True)
    return os.path.join(d, pid + '.json')

def do_replay(pid, path, scratch):
    j = json.load(open(path))
    if any(o.get('counterexample') for o in j.get('obligations', [])):
        bad = 0
        for o in j['obligations']:
            if o.get('counterexample'):
                print('%s\ncounterexample:\n%s' % (o['function'], o['counterexample']))
                g, h = o['function'][len('kani:'):].split('::', 1)
                r = kanirun.run_group('%s:^%s$' % (g, re.escape(h)), scratch, REPO, 'thorough')
                for x in r['harnesses']:
                    print('%s is now: %s' % (x['name'], x['status']))
                    bad += x['status'] == 'failed'
        return 1 if bad else 0
    if not j.get('case'):
        print('no concrete input; failed obligations:')
        for o in j.get('obligations', []):
            print(' ', o)
        return 1
    exe, err = build_bin(j['bin'], scratch)
    if exe is None:
        print(err)
        return 2
    p = subprocess.run([exe, 'replay', j['case']], cwd=scratch)
    return 0 if p.returncode == 0 else 1

def main():
    pid = sys.argv[1]
    spec = PROPS[pid]
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix='verif-%s-' % pid)
    try:
        if '--replay' in sys.argv:
            sys.exit(do_replay(pid, sys.argv[sys.argv.index('--replay') + 1], scratch))
        code = decide(pid, spec, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(code)

def decide(pid, spec, scratch, t0):
    with cf.ThreadPoolExecutor(12) as ex:
        vs = {u: ex.submit(verus_unit, u, scratch, None if w == '*' else w) for u, w in spec.get('units', {}).items()}
        cs = {u: ex.submit(verus_canary, u, scratch, None if w == '*' else w) for u, w in spec.get('units', {}).items()}
        ks = [ex.submit(kanirun.run_group, k, scratch, REPO, TIER) for k in spec.get('kani', [])]
        bs = [ex.submit(run_bin, b, p, scratch) for b, p in spec.get('bins', [])]
        vs = {u: f.result() for u, f in vs.items()}
        cs = {u: f.result() for u, f in cs.items()}
        ks = [f.result() for f in ks]
        bs = [f.result() for f in bs]
    obligations = discharged = 0
    failed, undecided, proved, vacuous, trusted, errors = [], [], [], [], [], []
    solver_ms = 0
    cmds = []
    lemmas = canaries = 0
    counted = set()
    unreached = []
    for u, want in spec.get('units', {}).items():
        r, c = vs[u], cs[u]
        cmds += [l['cmd'] for l in r.get('log', [])][-1:]
        names = list(r.get('info', {}).keys()) if want == '*' else want
        names = [n for n in names if not n.startswith('item ')]
        solver_ms += r.get('smt_ms') or 0
        if r['undecided']:
            undecided += [{'function': '%s::%s' % (u, n), 'why': r['undecided'][:400]} for n in (names or ['*'])]
            obligations += len(names)
            continue
        trusted += ['%s: %s' % (u, t) for t in vrun.trust_scan(r['text'])]
        if r.get('elsewhere'):
            trusted.append('%s: contracts of the functions decided by other checks of this suite: %s' % (u, ', '.join(r['elsewhere'])))
        live = {f['function'].split('::', 1)[-1] for f in r['per_function']}
        nfun = sum(1 for f in r['functions'].values() if f['status'] == 'proved')
        lem = max(0, r['verified'] - nfun - len(live & counted))  # a lemma shared by two units counts once
        counted |= live
        lemmas += lem
        obligations += lem
        discharged += lem
        for h in r.get('hard', []):
            undecided.append({'function': '%s (specification lemma)' % u, 'why': h['message']})
        for n in names:
            f = r['functions'].get(n)
            obligations += 1
            if f is None:
                undecided.append({'function': '%s::%s' % (u, n), 'why': 'not in the unit'})
                errors.append('unit %s has no function %s' % (u, n))
                continue
            full = '%s::%s' % (u, n)
            if f['status'] == 'proved':
                cf_ = (c.get('functions') or {}).get(n)
                if not c['undecided'] and cf_ and cf_.get('canaries'):
                    canaries += len(cf_['canaries'])
                    unreached += ['%s %s:%s' % (full, f['file'], l) for k, l in sorted((cf_['unreached'] or {}).items())]
                if not c['undecided'] and cf_ and cf_.get('unreached') and 0 in cf_['unreached']:
                    vacuous.append(full)
                else:
                    proved.append({'function': full, 'source': '%s:%s-%s' % (f['file'], f['line'], f['end_line'])})
                    discharged += 1
            elif f['status'] == 'failed':
                failed.append({'function': full, 'source': '%s:%s' % (f['file'], f['line']),
                               'obligations': [{'message': e['message'], 'where': e['where'], 'verifier_output': e['rendered'][:3000]} for e in f['errors']]})
            else:
                why = f['status'] + ': ' + '; '.join((f['lost'] or []) + (f['frontend'] or []) + [e['message'] for e in f['errors']])
                undecided.append({'function': full, 'why': why[:500]})
    kfail, kbounded = [], []
    for k in ks:
        cmds.append(k['cmd'])
        solver_ms += int(k.get('solver_s', 0) * 1000)
        if k.get('error'):
            undecided.append({'function': 'kani:%s' % k['group'], 'why': k['error'][-800:]})
            continue
        for h in k['harnesses']:
            if not h.get('bounded'):
                obligations += h['checks'] or 1
            full = 'kani:%s::%s' % (k['group'], h['name'])
            if h['status'] == 'ok':
                if h.get('bounded'):
                    kbounded.append({'harness': full, 'bound': h['bounded'], 'checks': h['checks']})
                else:
                    discharged += h['checks']
                    proved.append({'function': full, 'source': h.get('source', ''), 'complete_over': h.get('domain', '')})
            elif h['status'] == 'failed':
                kfail.append({'function': full, 'obligations': h['failed'], 'counterexample': h.get('playback')})
            elif h['status'] == 'vacuous':
                vacuous.append(full)
            else:
                undecided.append({'function': full, 'why': h.get('why', h['status'])[:500]})
        trusted += k.get('trusted', [])
    known = known_findings(pid)
    seen_known = [t for b in bs for t in b.get('known', [])]
    for tag, text in known:
        if tag in seen_known:
            print('KNOWN-FINDING: property=%s [%s] %s' % (pid, tag, text))
    unknown_tags = [t for t in seen_known if t not in [k for k, _ in known]]
    concrete = [b for b in bs if b.get('failed')]
    violation = None
    if concrete or unknown_tags:
        b = concrete[0] if concrete else None
        violation = {'property': pid, 'kind': 'failing input on the real code', 'bin': b['bin'] if b else None, 'case': b['failed']['case'] if b else None,
                     'output': b['failed']['output'] if b else 'unlisted finding %s' % unknown_tags,
                     'replay': 'python3 /verif/run.py %s --replay <this file>' % pid, 'obligations': failed + kfail}
    elif kfail and any(k.get('counterexample') for k in kfail):
        violation = {'property': pid, 'kind': 'failed obligation with a counterexample', 'case': None, 'obligations': kfail + failed}
    elif failed or kfail:
        violation = {'property': pid, 'kind': 'failed obligation', 'case': None, 'obligations': failed + kfail, 'no_input': True}
    for b in bs:
        if b.get('error'):
            errors.append('bounded layer %s: %s' % (b['bin'], b['error']))
    samples = [b['ok']['sample'] for b in bs if b.get('ok') and b['ok'].get('sample')][:2]
    bounded = [{'binary': b['bin'], 'plans': b['plans'], 'result': b.get('ok') and {k: v for k, v in b['ok'].items() if k != 'sample'}, 'error': b.get('error'),
                'failed': bool(b.get('failed')), 'build_s': b['build_s'], 'run_s': b.get('run_s')} for b in bs]
    ev = {
        'property': pid, 'tier': TIER, 'seed': SEED, 'level': spec.get('level', 'proof'),
        'coverage': {
            'obligations': obligations, 'discharged': discharged,
            'checker_cmd': cmds[0] if cmds else '', 'checker_cmds': cmds,
            'trusted_base': sorted(set(trusted)) + spec.get('trusted', []) + ['verus 0.2026.09.13 with its Z3, vstd' if spec.get('units') else 'kani 0.68.0 / CBMC', 'vlib/extract.py (what it rewrites is listed in its header)'],
            'functions_under_contract': proved, 'specification_lemmas': lemmas,
            'reachability_assertions': canaries, 'reachability_assertions_failed_as_required': canaries - len(unreached), 'unreached_branches': unreached,
            'undecided': undecided, 'vacuous': vacuous, 'failed': failed + kfail, 'solver_ms': solver_ms,
            'bounded_checks': bounded + kbounded,
            'bounded_note': 'bounded_checks ran the real code on enumerated and seeded cases; none of them is counted in discharged',
            'evaluations': sum(b['ok']['evaluations'] for b in bs if b.get('ok')),
            'distinct_nontrivial': sum(b['ok'].get('distinct_random_long', 0) for b in bs if b.get('ok')),
            'rule': 'bounded replay cases; non-trivial: a distinct seeded case of more than 12 choices',
            'samples': samples,
        },
        'assumptions': spec.get('assume', []), 'wall_s': round(time.time() - t0, 2), 'violations': 1 if violation else 0,
    }
    if spec.get('level', 'proof') != 'proof':
        ev['coverage']['explanation'] = spec.get('note', '')
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d obligations, %d discharged, %d functions proved, %d undecided, %d vacuous, %d failed; bounded: %d cases; %.1f s' %
          (pid, obligations, discharged, len(proved), len(undecided), len(vacuous), len(failed) + len(kfail), ev['coverage']['evaluations'], time.time() - t0))
    for x in undecided:
        print('  undecided %s: %s' % (x['function'], x['why'].replace('\n', ' ')[:200]))
    for x in vacuous:
        print('  vacuous %s' % x)
    if violation:
        p = replay_path(pid)
        with open(p, 'w') as f:
            json.dump(violation, f, indent=1)
        for x in failed + kfail:
            print('  failed obligation in %s: %s' % (x['function'], (x['obligations'][0].get('message') or str(x['obligations'][0])) if x['obligations'] else ''))
        if violation.get('case'):
            print('  failing input: %s' % violation['case'])
            for l in violation['output'].split('\n'):
                if l.startswith(('MESSAGE', 'CRASH', 'HANG')):
                    print('  ' + l[:300])
        print('VIOLATION property=%s replay=%s%s' % (pid, p, ' no-failing-input-found' if violation.get('no_input') else ''))
        return 1
    for e in errors:
        print('  error: ' + e[:1500])
    if errors:
        # the bounded layer gave nothing: the proof alone decides only if it is complete
        if undecided or not proved or vacuous:
            return 2
    if not discharged and not any(b.get('ok') for b in bs):
        print('  error: nothing was decided')
        return 2
    return 0

if __name__ == '__main__':
    main()
