"""Kani groups: kani/<group>/plan.json says how the crate under proof is put together from /repo.

  crate:   directory of a /repo crate copied as it is; `inject` appends `#[cfg(kani)] mod vk { .. }` files
           to source files of the copy (so the harnesses see private items)
  copy:    files or directories of /repo copied into src/, next to the template lib.rs
  slice:   template expanded by slices.py into src/lib.rs
  rustflags, args, edition
  harnesses: name -> {domain, bounded, source}

A harness is `ok` when every check succeeded and every cover was satisfied, `failed` when a check failed
(other than unsupported constructs and unwinding limits, which leave it undecided) and `vacuous` when a
cover could not be satisfied.
"""
import json, os, re, shutil, subprocess, time
import anchors, slices

HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')

def build(group, d, repo):
    g = os.path.join(HERE, 'kani', group)
    plan = json.load(open(os.path.join(g, 'plan.json')))
    used = []
    if plan.get('crate'):
        shutil.copytree(os.path.join(repo, plan['crate']), d, ignore=shutil.ignore_patterns('target', 'tests', 'benches', 'examples'))
        ct = os.path.join(d, 'Cargo.toml')
        s = open(ct).read()
        s = re.sub(r'path\s*=\s*"\.\./', 'path = "%s/' % repo, s)
        s = re.sub(r'(?ms)^\[dev-dependencies\].*?(?=^\[|\Z)', '', s)
        s += '\n[workspace]\n[lints.rust]\nunexpected_cfgs = "allow"\n'
        open(ct, 'w').write(s)
        lock = os.path.join(repo, 'Cargo.lock')
        if os.path.exists(lock):
            shutil.copy(lock, os.path.join(d, 'Cargo.lock'))
        for dst, src in plan['inject']:
            p = os.path.join(d, dst)
            if not os.path.exists(p):
                raise slices.SliceError('%s is gone' % dst)
            s = anchors.rewrite(repo, plan['crate'] + '/' + dst, open(p).read())
            open(p, 'w').write(s)
            with open(p, 'a') as f:
                f.write('\n' + open(os.path.join(g, src)).read())
            used.append(plan['crate'] + '/' + dst)
    else:
        os.makedirs(os.path.join(d, 'src'))
        open(os.path.join(d, 'Cargo.toml'), 'w').write(slices.CARGO % (group.replace('_', '-'), plan.get('edition', '2024')))
        for src, dst in plan.get('copy', []):
            a, b = os.path.join(repo, src), os.path.join(d, 'src', dst)
            if not os.path.exists(a):
                raise slices.SliceError('%s is gone' % src)
            os.makedirs(os.path.dirname(b), exist_ok=True)
            shutil.copytree(a, b) if os.path.isdir(a) else shutil.copy(a, b)
            for f in anchors.under(repo, src):
                if anchors.renames(repo).get(f):
                    open(os.path.join(d, 'src', dst, os.path.relpath(f, src)) if f != src else b, 'w').write(anchors.rewrite(repo, f, open(os.path.join(repo, f)).read()))
            used.append(src)
        body, u = slices.expand(open(os.path.join(g, plan.get('lib', 'lib.rs'))).read(), repo)
        used += ['%s:%s-%s (%s)' % (a, x, y, w) for a, w, x, y in u]
        open(os.path.join(d, 'src', 'lib.rs'), 'w').write(body)
    return plan, used

def env(plan):
    e = dict(os.environ)
    for k in ('RUSTUP_TOOLCHAIN', 'RUSTFLAGS', 'CARGO_TARGET_DIR'):
        e.pop(k, None)
    e['CARGO_NET_OFFLINE'] = 'true'
    if plan.get('rustflags'):
        e['RUSTFLAGS'] = plan['rustflags']
    return e

UNDEC = ('unsupported_construct', 'unwind', 'recursion', 'missing_function', 'no-body')

def run_group(group, scratch, repo, tier='quick', harness=None, jobs=4):
    """group may be `name` or `name:regex` (only the harnesses matching)"""
    name, _, pat = group.partition(':')
    r = {'group': name, 'cmd': '', 'error': None, 'harnesses': [], 'trusted': [], 'solver_s': 0.0}
    d = os.path.join(scratch, 'k-' + re.sub(r'\W', '_', group))
    try:
        plan, used = build(name, d, repo)
    except (slices.SliceError, slices.LexError, OSError) as x:
        r['error'] = 'slicing: %s' % x
        return r
    want = [h for h in plan['harnesses'] if (not pat or re.search(pat, h)) and (tier == 'thorough' or not plan['harnesses'][h].get('thorough'))]
    js = os.path.join(d, 'out.json')
    cmd = ['cargo', 'kani', '--output-format', 'terse', '-j', str(jobs), '-Z', 'unstable-options', '-Z', 'stubbing', '-Z', 'float-lib', '--export-json', js, '--harness-timeout', plan.get('timeout', '300') + 's', '--exact']
    cmd = [c for c in cmd]
    i = cmd.index('float-lib')
    del cmd[i-1:i+1]
    for h in want:
        cmd += ['--harness', h]
    cmd += plan.get('args', [])
    r['cmd'] = ' '.join(cmd[:12]) + ' … (%s)' % name
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=d, env=env(plan), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=700)
    except subprocess.TimeoutExpired:
        r['error'] = 'kani timed out'
        return r
    if not os.path.exists(js):
        e = p.stdout
        k = e.find('error')
        r['error'] = 'kani gave no result: ' + (e[k:k+1500] if k >= 0 else e[-800:])
        return r
    j = json.load(open(js))
    res = {x['harness_id']: x for x in j['verification_results']['results']}
    det = {x['harness_id']: x['property_details'] for x in j.get('property_details', [])}
    stats = {x['harness_id']: x.get('cbmc_stats') or {} for x in j.get('cbmc', [])}
    for h in want:
        spec = plan['harnesses'][h]
        o = {'name': h, 'domain': spec.get('domain', ''), 'bounded': spec.get('bounded'), 'source': spec.get('source', ''), 'checks': 0, 'status': 'other', 'failed': []}
        r['harnesses'].append(o)
        x = res.get(h)
        if x is None:
            o['why'] = 'no result for this harness'
            continue
        r['solver_s'] += (stats.get(h) or {}).get('runtime_decision_procedure_s') or 0
        checks = x.get('checks') or []
        cov = [c for c in checks if c.get('category') == 'cover']
        rest = [c for c in checks if c.get('category') != 'cover']
        bad = [c for c in rest if c['status'] == 'Failure']
        hard = [c for c in bad if not any(u in (c.get('category') or '').lower() for u in UNDEC) and 'unwinding assertion' not in c['description'] and 'is not currently supported' not in c['description']]
        o['checks'] = sum(1 for c in rest if c['status'] == 'Success')
        o['unreachable'] = sum(1 for c in rest if c['status'] == 'Unreachable')
        if hard:
            o['status'] = 'failed'
            o['failed'] = [{'message': c['description'], 'where': '%s:%s in %s' % (c['location'].get('file'), c['location'].get('line'), c.get('function'))} for c in hard]
        elif bad or x['status'] not in ('Success',):
            o['status'] = 'other'
            o['why'] = '; '.join(c['description'] for c in bad)[:300] or 'status %s' % x['status']
            und = [c for c in cov if c['status'] not in ('Satisfied',)]
            if not bad and und:
                o['status'] = 'vacuous'
        elif any(c['status'] != 'Satisfied' for c in cov) or not cov or not o['checks']:
            o['status'] = 'vacuous'
            o['why'] = '; '.join(c['description'] + ' @%s' % c['location'].get('line') for c in cov if c['status'] != 'Satisfied')
        else:
            o['status'] = 'ok'
    for o in r['harnesses']:
        if o['status'] == 'failed':
            c2 = ['cargo', 'kani', '-Z', 'concrete-playback', '-Z', 'unstable-options', '-Z', 'stubbing', '--concrete-playback', 'print', '--exact', '--harness', o['name'], '--harness-timeout', '120s'] + plan.get('args', [])
            try:
                q = subprocess.run(c2, cwd=d, env=env(plan), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=200)
                m = re.search(r'```\n(.*?)```', q.stdout, re.S)
                if m:
                    o['playback'] = m.group(1)
            except subprocess.TimeoutExpired:
                pass
            break
    r['sources'] = used
    return r

if __name__ == '__main__':
    import sys, tempfile
    repo = os.environ.get('VREPO', '/repo')
    t = tempfile.mkdtemp(prefix='vk-')
    t0 = time.time()
    try:
        r = run_group(sys.argv[1], t, repo, 'thorough')
        if r['error']:
            print(r['error'])
        for h in r['harnesses']:
            print('%-50s %-8s %4d checks %s' % (h['name'], h['status'], h['checks'], h.get('why') or ''), *[f['message'] + ' @ ' + f['where'] for f in h['failed'][:4]])
            if h.get('playback'):
                print(h['playback'])
        print('%.1f s' % (time.time() - t0))
    finally:
        shutil.rmtree(t)
