"""Run a Verus unit and classify the outcome per function."""
import json, os, re, subprocess, sys, tempfile, time, shutil
sys.path.insert(0, os.path.dirname(__file__))
from extract import Unit, SpecError
from rtok import LexError

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROOF_MSGS = ('postcondition not satisfied', 'precondition not satisfied', 'invariant not satisfied', 'assertion failed',
              'possible arithmetic', 'possible division', 'decreases not satisfied', 'requires not satisfied', 'could not prove termination',
              'cannot show', 'possible bit shift', 'constructed value may fail to meet its declared type invariant', 'unable to prove', 'assertion not satisfied', 'call_requires', 'loop ensures not satisfied', 'unreachable', 'precondition', 'postcondition', 'invariant')
RLIMIT_MSGS = ('resource limit', 'rlimit', 'timed out', 'canceled', 'solver')

def run_verus(path, rlimit=None, threads=4, timeout=300, extra=(), merr=2):
    cmd = ['verus', path, '--output-json', '--time-expanded', '--error-format=json', '--triggers-mode', 'silent', '--num-threads', str(threads), '--multiple-errors', str(merr), '--no-auto-recommends-check'] + list(extra)
    if rlimit:
        cmd += ['--rlimit', str(rlimit)]
    env = dict(os.environ)
    env.pop('RUSTUP_TOOLCHAIN', None)
    t0 = time.time()
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, env=env, cwd=os.path.dirname(path))
        out, err, rc = p.stdout, p.stderr, p.returncode
    except subprocess.TimeoutExpired as x:
        return {'cmd': cmd, 'timeout': True, 'diags': [], 'json': None, 'rc': None, 'wall': time.time() - t0, 'stderr': ''}
    diags = []
    for l in err.split('\n'):
        if l.startswith('{'):
            try:
                diags.append(json.loads(l))
            except ValueError:
                pass
    js = None
    try:
        js = json.loads(out[out.index('{'):])
    except ValueError:
        pass
    return {'cmd': cmd, 'timeout': False, 'diags': diags, 'json': js, 'rc': rc, 'wall': time.time() - t0, 'stderr': err}

def classify(msg):
    m = msg.lower()
    if 'while loop: resource' in m or any(x in m for x in ('resource limit', 'rlimit')):
        return 'rlimit'
    for p in ('postcondition not satisfied', 'precondition not satisfied', 'invariant not satisfied', 'assertion failed', 'possible arithmetic', 'possible division', 'decreases not satisfied', 'possible bit shift', 'loop ensures not satisfied', 'assert_by_compute', 'assertion not satisfied', 'bitvector assertion not satisfied', 'unable to prove'):
        if p in m:
            return 'proof'
    if 'not satisfied' in m:
        return 'proof'
    return 'other'

def locate(r, name, em, info):
    """sort the errors of a run by the extracted function they are about"""
    errs = [d for d in r['diags'] if d.get('level') == 'error' and d.get('spans') is not None]
    located, hard = {}, []
    for d in errs:
        if d['message'].startswith('aborting due'):
            continue
        kind = classify(d['message'])
        fn, where = None, None
        prim = [s for s in d['spans'] if s.get('is_primary')] + [s for s in d['spans'] if not s.get('is_primary')]
        # the function whose body is being checked: for a call, the primary span; for a postcondition the body span
        cands = []
        for s in prim:
            if not s['file_name'].endswith(name + '.rs'):
                continue
            for k, v in info.items():
                if v.get('out_start') and v['out_start'] <= s['line_start'] <= v['out_end']:
                    cands.append((k, s))
                    break
        if cands:
            fn, sp = cands[0]
            srcl = None
            for q in range(sp['line_start'], 0, -1):
                m = em.map.get(q)
                if m and m[2] == fn and m[1]:
                    srcl = m[1]
                    break
            where = {'gen_line': sp['line_start'], 'source': '%s:%s' % (info[fn]['file'], srcl), 'text': sp['text'][0]['text'].strip() if sp.get('text') else ''}
        ent = {'kind': kind, 'message': d['message'], 'where': where, 'rendered': d.get('rendered', '')}
        if fn:
            located.setdefault(fn, []).append(ent)
        else:
            hard.append(ent)
    return located, hard

def key(h):
    return re.sub(r'^.*?-->', '', h['rendered'].split('\n|')[0], flags=re.S)[:200]

def run_unit(name, scratch, repo='/repo', rlimit=None, keep=None, threads=4, attempts=6, spec=None, canary=False, only=None):
    """-> dict(functions={id: {...status}}, obligations, ...)"""
    spec = spec or os.path.join(HERE, 'verus', name + '.vspec')
    u = Unit(name, spec, repo)
    u.canary = canary
    elsewhere = set(u.fnames()) - set(only) - {p.opts.get('id', p.name) for k, p in u.parts if k == 'fn' and p.opts.get('keep')} if only else set()
    external = set(elsewhere)
    res = None
    log = []
    t0 = time.time()
    for att in range(attempts):
        try:
            text, em, info = u.generate(external)
        except (LexError, OSError) as x:
            return {'unit': name, 'undecided': 'extraction: %s' % x, 'functions': {}, 'log': [], 'wall': time.time() - t0}
        for k, v in info.items():
            if v.get('unsupported') and k not in external:
                external.add(k)
                res = 'again'
        if res == 'again':
            res = None
            text, em, info = u.generate(external)
        path = os.path.join(scratch, name + '.rs')
        with open(path, 'w') as f:
            f.write(text)
        if keep:
            shutil.copy(path, keep)
        r = run_verus(path, rlimit, threads, merr=40 if canary else 2)
        log.append({'cmd': ' '.join(r['cmd']), 'wall': r['wall'], 'external': sorted(external)})
        if r['timeout']:
            return {'unit': name, 'undecided': 'verus timed out', 'functions': {}, 'log': log, 'wall': time.time() - t0, 'info': info}
        located, hard = locate(r, name, em, info)
        comp = [(f, [x for x in l if x['kind'] == 'other']) for f, l in located.items()]
        comp = [(f, l) for f, l in comp if l]
        if comp or (hard and any(h['kind'] == 'other' for h in hard)):
            # the front end rejected something: assume the functions it points at and go on without them
            new = {f for f, l in comp} - (external - elsewhere)
            for f, l in comp:
                info[f].setdefault('frontend', []).extend(x['message'] for x in l)
                u_front.setdefault((name, f), []).extend(x['message'] + ' ' + str(x['where']) for x in l)
            if not new:
                return {'unit': name, 'undecided': 'verus front end: ' + '; '.join((h['message'] + ' ' + h['rendered'][:300]) for h in (hard or [x for f, l in comp for x in l])[:3]), 'functions': {}, 'log': log, 'wall': time.time() - t0, 'info': info}
            external |= new
            elsewhere -= new
            continue
        js = r['json'] or {}
        vr = js.get('verification-results', {})
        if not vr or vr.get('encountered-vir-error'):
            return {'unit': name, 'undecided': 'verus gave no result: ' + r['stderr'][-400:], 'functions': {}, 'log': log, 'wall': time.time() - t0, 'info': info}
        retried = 0
        if not canary and (located or hard) and r['wall'] < 120:
            # every function is a query of its own: one the solver discharges under any seed is discharged
            for seed in (7, 23):
                r2 = run_verus(path, rlimit, threads, extra=['--smt-option', 'smt.random_seed=%d' % seed])
                log.append({'cmd': ' '.join(r2['cmd']), 'wall': r2['wall'], 'external': sorted(external)})
                if r2['timeout'] or not (r2['json'] or {}).get('verification-results'):
                    break
                located2, hard2 = locate(r2, name, em, info)
                n0 = len(located) + len(hard)
                located = {k: v for k, v in located.items() if k in located2}
                keys = {key(h) for h in hard2}
                hard = [h for h in hard if key(h) in keys]
                retried += n0 - len(located) - len(hard)
                if not located and not hard:
                    break
        smt = js.get('times-ms', {}).get('smt', {})
        fb = []
        for m in smt.get('smt-run-module-times', []):
            fb += m.get('function-breakdown', [])
        funcs = {}
        for k, v in info.items():
            if k.startswith('item '):
                continue
            st = 'proved'
            if v['missing']:
                st = 'missing'
            elif v.get('trusted'):
                st = 'trusted'
            elif k in elsewhere:
                st = 'elsewhere'
            elif k in external:
                st = 'undecided'
            elif k in located:
                kinds = {x['kind'] for x in located[k]}
                if kinds == {'rlimit'} or 'rlimit' in kinds:
                    st = 'undecided'
                else:
                    st = 'undecided' if v['lost'] else 'failed'
            if canary and st not in ('missing', 'trusted') and k not in external:
                hit = set()
                for x in located.get(k, []):
                    if x['kind'] == 'rlimit':
                        hit |= set(v.get('canaries', {}))
                    for m in re.finditer(r'canary\((\d+)\)', x['rendered']):
                        hit.add(int(m.group(1)))
                v['unreached'] = {n: l for n, l in v.get('canaries', {}).items() if n not in hit}
            funcs[k] = {'canaries': v.get('canaries'), 'unreached': v.get('unreached'), 'status': st, 'lost': v['lost'], 'errors': located.get(k, []), 'file': v.get('file'), 'line': v.get('line'), 'end_line': v.get('end_line'), 'frontend': u_front.get((name, k))}
        if elsewhere:
            text = u.generate(external - elsewhere)[0]
        return {'unit': name, 'undecided': None, 'elsewhere': sorted(k for k in elsewhere if k in funcs and funcs[k]['status'] == 'elsewhere'), 'functions': funcs, 'hard': hard, 'verified': vr.get('verified', 0) + retried, 'errors': vr.get('errors', 0),
                'smt_ms': smt.get('total', 0), 'rlimit': smt.get('rlimit-run', 0), 'per_function': fb, 'log': log, 'wall': time.time() - t0, 'info': info, 'text': text,
                'version': js.get('verus', {}).get('version')}
    return {'unit': name, 'undecided': 'too many front-end rejections', 'functions': {}, 'log': log, 'wall': time.time() - t0}

u_front = {}

TRUST_RE = re.compile(r'external_body|assume_specification|\bassume\s*\(|\badmit\s*\(|external_fn_specification|\buninterp\b|#\[verifier::external|\baxiom\b')
def trust_scan(text):
    """every construct in the generated file that is assumed rather than proved"""
    out = []
    lines = text.split('\n')
    for i, l in enumerate(lines):
        if TRUST_RE.search(l) and not l.strip().startswith('//'):
            nxt = l.strip()
            if 'external_body' in l or 'verifier::external' in l:
                for j in range(i + 1, min(i + 5, len(lines))):
                    if re.search(r'\b(fn|struct|enum)\b', lines[j]):
                        nxt = 'external_body: ' + lines[j].strip()
                        break
            out.append(nxt[:160])
    return out

if __name__ == '__main__':
    sc = tempfile.mkdtemp(prefix='vdev-')
    try:
        only = [a for a in sys.argv[2:] if not a.startswith('-')]
        r = run_unit(sys.argv[1], sc, only=only or None, keep='/tmp/vt/%s.rs' % sys.argv[1], threads=8, canary='-c' in sys.argv, attempts=1 if '-1' in sys.argv else 6, repo=os.environ.get('VREPO', '/repo'))
    finally:
        shutil.rmtree(sc)
    print('undecided:', r['undecided'], 'verified', r.get('verified'), 'errors', r.get('errors'), 'smt_ms', r.get('smt_ms'), 'wall %.1f' % r['wall'])
    for h in r.get('hard', []):
        print('HARD', h['rendered'][:1500])
    only = [a for a in sys.argv[2:] if not a.startswith('-')]
    if '-c' in sys.argv:
        for k, v in r['functions'].items():
            if v['unreached']:
                print('unreached', k, v['unreached'], 'of', len(v['canaries']))
    for k, v in r['functions'].items():
        if v['status'] != 'elsewhere' and (v['status'] != 'proved' or v['lost']) and '-c' not in sys.argv:
            print('==', k, v['status'], v['lost'], v['frontend'] or '')
            if not only or k in only:
                for e in v['errors']:
                    print(e['rendered'][:2500])
    slow = sorted(r.get('per_function', []), key=lambda x: -x['time'])[:5]
    print([(s['function'], s['time']) for s in slow])
