"""Following renamed items.

anchors.json lists, for every /repo file the checks slice, the names of its functions, constants and types with
their signatures as they were when the contracts were written.  A listed item that is gone is taken to have
been renamed when the file has a new item of the same kind, in the same place and with the same signature (or
definition); the new name is then read as the old one.  Nothing about behaviour is assumed from this: the code
under the new name is what gets checked.
"""
import json, os
from rtok import lex, items, norm, match_close, LexError

HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
KINDS = ('fn', 'const', 'static', 'struct', 'enum', 'type')

def sig(it):
    h = [t.s for t in it.head]
    if it.kind == 'fn':
        out, i = [], 2
        d = 0
        while i < len(h):
            if h[i] in '([{':
                d += 1
            elif h[i] in ')]}':
                d -= 1
            # parameter names do not matter
            if d == 1 and i + 1 < len(h) and h[i+1] == ':' and h[i].isidentifier() and h[i-1] in ('(', ',', 'mut'):
                i += 1
                if out and out[-1] == 'mut':
                    out.pop()
            out.append(h[i])
            i += 1
        if ',' in out:
            out = ' '.join(out).replace(', )', ')').split(' ')
        return ' '.join(out)
    k = next((i for i, x in enumerate(h) if x == it.name), 0)
    return ' '.join(h[k+1:])

def listing(its):
    return [(i.kind, ' | '.join(i.ctx), i.name, sig(i)) for i in its if i.kind in KINDS and not any('mod test' in c for c in i.ctx) and not (i.kind == 'fn' and any('test' in a for a in i.attrs))]

_recorded = None
def recorded():
    global _recorded
    if _recorded is None:
        try:
            _recorded = json.load(open(os.path.join(HERE, 'anchors.json')))
        except OSError:
            _recorded = {}
    return _recorded

_ren = {}
def renames(repo):
    """{path: {new name: old name}}"""
    if repo in _ren:
        return _ren[repo]
    out = {}
    for path, rec in recorded().items():
        try:
            now = listing(items(lex(open(os.path.join(repo, path)).read())))
        except (OSError, LexError):
            continue
        old = [tuple(x) for x in rec['items']]
        oldn = {(k, c, n) for k, c, n, s in old}
        nown = {(k, c, n) for k, c, n, s in now}
        names_old, names_now = {n for k, c, n, s in old}, {n for k, c, n, s in now}
        gone = [x for x in old if x[:3] not in nown]
        new = [x for x in now if x[:3] not in oldn]
        m = {}
        for k in {(x[0], x[1], x[3]) for x in gone}:
            g = [x[2] for x in gone if (x[0], x[1], x[3]) == k]
            n = [x[2] for x in new if (x[0], x[1], x[3]) == k]
            if len(g) == len(n):
                for a, b in zip(n, g):
                    if a not in names_old and b not in names_now and a not in m:
                        m[a] = b
        if m:
            out[path] = m
    # uses in the other files
    allm = [(p, a, b) for p, m in out.items() for a, b in m.items()]
    for path, rec in recorded().items():
        for p, a, b in allm:
            if p != path and b in rec['mentions'] and a not in rec['mentions']:
                out.setdefault(path, {}).setdefault(a, b)
    _ren[repo] = out
    return out

def apply(repo, path, toks):
    m = renames(repo).get(path)
    if m:
        for t in toks:
            if t.t == 'id' and t.s in m:
                t.s = m[t.s]
    return toks

def rewrite(repo, path, src):
    """the text of a file with renamed items under their old names (unchanged when nothing was renamed)"""
    if not renames(repo).get(path):
        return src
    return ''.join(t.ws + t.s for t in apply(repo, path, lex(src)))

def files():
    import re
    fs = set()
    for d in ('verus', 'slices', 'kani'):
        for r, ds, ns in os.walk(os.path.join(HERE, d)):
            for n in ns:
                if n.endswith(('.vspec', '.inc', '.rs')):
                    for l in open(os.path.join(r, n)):
                        m = re.match(r'\s*(?://)?@(?:file|item|impl|fns|if)\s+([\w/.]+\.rs)\b', l)
                        if m:
                            fs.add(m.group(1))
                elif n == 'plan.json':
                    p = json.load(open(os.path.join(r, n)))
                    for a in [x for x, _ in p.get('copy', [])] + [p['crate'] + '/' + x for x, _ in p.get('inject', [])]:
                        fs |= set(under(REPO, a))
    return sorted(fs)

REPO = os.environ.get('VREPO', '/repo')
def under(repo, a):
    q = os.path.join(repo, a)
    if os.path.isdir(q):
        return [os.path.relpath(os.path.join(r, n), repo) for r, _, ns in os.walk(q) for n in ns if n.endswith('.rs')]
    return [a]

def record(repo):
    ls, ids = {}, {}
    for f in files():
        toks = lex(open(os.path.join(repo, f)).read())
        ls[f] = listing(items(toks))
        ids[f] = {t.s for t in toks if t.t == 'id'}
    out = {}
    for f in ls:
        other = {n for g in ls if g != f for k, c, n, s in ls[g]}
        out[f] = {'items': ls[f], 'mentions': sorted(ids[f] & other)}
    with open(os.path.join(HERE, 'anchors.json'), 'w') as o:
        o.write('{\n' + ',\n'.join('%s: {"items": [\n%s],\n"mentions": %s}' % (json.dumps(f), ',\n'.join(json.dumps(x) for x in v['items']), json.dumps(v['mentions'])) for f, v in out.items()) + '\n}\n')
    return out

if __name__ == '__main__':
    r = record(os.environ.get('VREPO', '/repo'))
    print(len(r), 'files', sum(len(v['items']) for v in r.values()), 'items')
