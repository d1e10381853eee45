"""Mechanical extraction of functions from /repo into a Verus file.

A unit is described by verus/<unit>.vspec.  Executable text always comes from /repo at run time; the
spec file contributes contracts, loop invariants, closure contracts, proof hints, ghost definitions
and assumed contracts for dependencies.  What extraction changes in executable text:
  * comments, attributes and visibility are dropped; every fn/struct/field is emitted `pub`
  * `for PAT in ITER` over slices / zip / enumerate / rev / open ranges / `&mut table` is desugared to
    an index loop over the same elements in the same order
    (in functions marked `foriter`: to `loop` over `into_iter()` and `next()`, as the language defines it)
  * `|&x|` closure parameters become `|x_: &T|` plus `let x = *x_;`
  * macro assertions become calls of `vassert` (whose precondition is the asserted condition) and
    `panic!`/`unreachable!` become calls of `vpanic` (precondition false)
  * in functions marked `refpats`, match arms `P(&x) if c => e` become `P(x) if c => e` with `*x` for x
  * in functions marked `bigops`, arithmetic operators and comparisons become calls (see bigops.py)
  * items declared inside a function are taken out of it; where a guard variable with a Drop
    implementation goes out of scope (end of its block, `?`, `return`) its drop is written out (@dropglue)
  * statements under `#[cfg(feature = "gc-…")]` (debugging features, off by default) are dropped
  * invocations, in item position, of the crate's own one-rule one-expression macros of src/macros.rs are
    expanded
  * an item that was renamed (anchors.py) gets its old name back
  * the token substitutions written as @sub/@gsub in the spec (std calls without a Verus contract are
    routed to a stub that carries the assumed contract)
"""
import os, re
import anchors, bigops
from rtok import lex, items, norm, match_close, Tok, OPEN, CLOSE, LexError

class SpecError(Exception):
    pass

class FnSpec:
    def __init__(self, name):
        self.name = name
        self.ret = 'r'
        self.opts = {}
        self.contract = ''
        self.attr = ''
        self.loops = {}
        self.loopenter = {}
        self.loopend = {}
        self.loopexit = {}
        self.closures = {}
        self.lifts = []      # closures replaced here and emitted as functions of their own (closure=N)
        self.head = None
        self.glue = []       # (variable, call) of guards whose Drop is made explicit
        self.exit = ''       # after the tail expression, whose value is then r_
        self.hints = []      # (kind, tokens, text)
        self.subs = []       # (pattern, replacement, optional)
        self.enter = ''
        self.implhead = None
        self.file = None

def parse_spec(path, seen=None):
    """-> list of (kind, payload) parts, list of global subs; a file included twice is taken once"""
    seen = set() if seen is None else seen
    parts, gsubs = [], []
    cur = None          # current FnSpec
    sink = None         # callable(line)
    cfile, cimpl = None, None
    lines = open(path).read().split('\n')
    i = 0
    def close():
        nonlocal cur, sink
        cur = None
        sink = None
    while i < len(lines):
        l = lines[i]
        i += 1
        if not l.startswith('@'):
            if sink:
                sink(l)
            elif l.strip() and not l.strip().startswith('//'):
                raise SpecError('%s:%d: stray text %r' % (path, i, l))
            continue
        w = l.split(None, 1)
        d, rest = w[0], (w[1].strip() if len(w) > 1 else '')
        if d == '@file':
            close(); cfile = rest
        elif d == '@include':
            close()
            if rest in seen:
                continue
            seen.add(rest)
            p2, g2 = parse_spec(os.path.join(os.path.dirname(path), rest), seen)
            parts += p2; gsubs += g2
        elif d == '@verbatim':
            close()
            buf = []
            while not lines[i].startswith('@end'):
                buf.append(lines[i]); i += 1
            i += 1
            parts.append(('verbatim', '\n'.join(buf)))
        elif d == '@gsub':
            a, b = rest.split('==>')
            gsubs.append((lex(a), b.strip(), True))
        elif d == '@item':
            close()
            m = re.match(r'(\w+)\s+(\w+)(.*)', rest)
            it = {'kind': m.group(1), 'name': m.group(2), 'file': cfile, 'subs': [], 'pre': '', 'impl': norm(lex(m.group(3))) if m.group(3).strip() else cimpl}
            parts.append(('item', it))
            cur = it
        elif d == '@pre':
            def sink(x, it=cur):
                it['pre'] += x + '\n'
        elif d == '@impl':
            close()
            src, _, out = rest.partition('=>')
            cimpl = norm(src)
            parts.append(('impl', (cimpl, (out or src).strip(), cfile)))
        elif d == '@endimpl':
            close(); cimpl = None
            parts.append(('endimpl', None))
        elif d == '@fn':
            close()
            ws = rest.split()
            cur = FnSpec(ws[0])
            for o in ws[1:]:
                k, _, v = o.partition('=')
                cur.opts[k] = v or True
            cur.ret = cur.opts.get('ret', 'r')
            cur.implhead = cimpl
            if cur.opts.get('impl'):
                pass
            cur.file = cfile
            parts.append(('fn', cur))
            def sink(x, f=cur):
                f.contract += x + '\n'
        elif d == '@spec':
            def sink(x, f=cur):
                f.contract += x + '\n'
        elif d == '@attr':
            cur.attr += rest + '\n'
        elif d == '@ctx':
            cur.implhead = norm(rest) or None
        elif d in ('@loop', '@loopenter', '@loopexit', '@loopend'):
            n = int(rest.split()[0])
            tgt = getattr(cur, 'loops' if d == '@loop' else d[1:])
            tgt.setdefault(n, '')
            def sink(x, t=tgt, n=n):
                t[n] += x + '\n'
        elif d == '@closure':
            m = re.match(r'(\d+)\s*\((.*)\)\s*->\s*\((\w+)\s*:\s*(.*)\)\s*$', rest)
            if not m:
                raise SpecError('bad @closure ' + rest)
            n = int(m.group(1))
            cl = {'types': [x.strip() for x in split_top(m.group(2))], 'ret': (m.group(3), m.group(4)), 'spec': '', 'enter': ''}
            cur.closures[n] = cl
            def sink(x, c=cl):
                c['spec'] += x + '\n'
        elif d == '@exit':
            def sink(x, f=cur):
                f.exit += x + '\n'
        elif d == '@head':
            cur.head = rest
        elif d == '@dropglue':
            v, _, call = rest.partition('==>')
            cur.glue.append((v.strip(), call.strip()))
        elif d == '@lift':
            n, _, rep = rest.partition('==>')
            cur.lifts.append((int(n), rep.strip()))
        elif d == '@center':
            def sink(x, c=cur.closures[int(rest)]):
                c['enter'] += x + '\n'
        elif d in ('@before', '@after', '@lastbefore', '@lastafter', '@beforeall', '@afterall'):
            h = [d[1:], lex(rest), '']
            cur.hints.append(h)
            def sink(x, h=h):
                h[2] += x + '\n'
        elif d == '@enter':
            def sink(x, f=cur):
                f.enter += x + '\n'
        elif d in ('@sub', '@optsub'):
            a, b = rest.split('==>')
            tgt = cur['subs'] if isinstance(cur, dict) else cur.subs
            tgt.append((lex(a), b.strip(), d == '@optsub'))
        elif d in ('@note', '@end'):
            pass
        else:
            raise SpecError('%s:%d: unknown directive %s' % (path, i, d))
    return parts, gsubs

def split_top(s):
    out, d, cur = [], 0, ''
    for c in s:
        if c in '([{<':
            d += 1
        elif c in ')]}>':
            d -= 1
        if c == ',' and d == 0:
            out.append(cur); cur = ''
        else:
            cur += c
    if cur.strip():
        out.append(cur)
    return out

# ---- token pattern matching ------------------------------------------------------------------
def _is_var(pat, j):
    return pat[j].s == '$' and j + 1 < len(pat) and pat[j+1].t == 'id'

def match_at(toks, i, pat):
    """match pattern at i; returns (end, bindings) or None"""
    b = {}
    j = 0
    while j < len(pat):
        if _is_var(pat, j):
            name = pat[j+1].s
            j += 2
            start = i
            # minimal nonempty balanced sequence until the rest matches
            while True:
                if j >= len(pat):
                    return None
                if i >= len(toks):
                    return None
                if i > start:
                    m = match_at(toks, i, pat[j:])
                    if m is not None:
                        b[name] = toks[start:i]
                        b.update(m[1])
                        return m[0], b
                if toks[i].s in OPEN and toks[i].t == 'p':
                    i = match_close(toks, i) + 1
                elif toks[i].t == 'p' and toks[i].s in CLOSE:
                    return None
                elif toks[i].s == ';':
                    return None
                else:
                    i += 1
        else:
            if i >= len(toks) or toks[i].s != pat[j].s:
                return None
            i += 1
            j += 1
    return i, b

def subst(toks, pat, rep):
    out, i, hits = [], 0, 0
    rl = lex(rep)
    while i < len(toks):
        m = match_at(toks, i, pat) if toks[i].s == pat[0].s or _is_var(pat, 0) else None
        if m and m[0] > i:
            ws = toks[i].ws
            new = []
            k = 0
            while k < len(rl):
                if _is_var(rl, k):
                    if rl[k+1].s not in m[1]:
                        raise SpecError('unbound $' + rl[k+1].s)
                    bs = m[1][rl[k+1].s]
                    bs = [Tok(t.t, t.s, t.line, t.ws) for t in bs]
                    if bs:
                        bs[0].ws = rl[k].ws or ''
                    bs, h2 = subst(bs, pat, rep)
                    new += bs
                    k += 2
                else:
                    new.append(Tok(rl[k].t, rl[k].s, toks[i].line, rl[k].ws))
                    k += 1
            if new:
                new[0].ws = ws
            out += new
            i = m[0]
            hits += 1
        else:
            out.append(toks[i])
            i += 1
    return out, hits

BUILTIN_GSUBS = [(lex(a), b, True) for a, b in [
    ('debug_assert_eq!($a, $b)', 'vassert($a == $b)'),
    ('debug_assert_ne!($a, $b)', 'vassert($a != $b)'),
    ('debug_assert!($a, $b)', 'vassert($a)'),
    ('debug_assert!($a)', 'vassert($a)'),
    ('assert_eq!($a, $b)', 'vassert($a == $b)'),
    ('assert!($a, $b)', 'vassert($a)'),
    ('assert!($a)', 'vassert($a)'),
    ('panic!($a)', 'vpanic()'),
    ('unreachable!()', 'vpanic()'),
    ('unreachable!($a)', 'vpanic()'),
    ('cfg!(debug_assertions)', 'true'),
]]

# ---- expression helpers ----------------------------------------------------------------------
def strip_parens(t):
    while len(t) >= 2 and t[0].s == '(' and match_close(t, 0) == len(t) - 1 and not has_top(t[1:-1], ','):
        t = t[1:-1]
    return t

def has_top(t, s):
    d = 0
    for x in t:
        if x.t == 'p' and x.s in OPEN:
            d += 1
        elif x.t == 'p' and x.s in CLOSE:
            d -= 1
        elif x.s == s and d == 0:
            return True
    return False

def T(t):
    return ' '.join(x.s for x in t)

class Unsupported(Exception):
    pass

def iter_plan(t):
    """(length expression or None when infinite, element function k -> expr, plain) for an iterator expression"""
    t = strip_parens(t)
    # method chain suffixes
    if len(t) >= 3 and t[-1].s == ')':
        # find the '(' of the final call
        o = None
        for i in range(len(t) - 1, -1, -1):
            if t[i].s == '(' and match_close(t, i) == len(t) - 1:
                o = i
                break
        if o is not None and o >= 2 and t[o-2].s == '.' and t[o-1].t == 'id':
            m, recv, args = t[o-1].s, t[:o-2], t[o+1:-1]
            if m == 'iter' and not args:
                r = T(recv)
                return ('%s.len()' % r, lambda k: '&%s[%s]' % (r, k))
            if m == 'enumerate' and not args:
                n, f = iter_plan(recv)
                return (n, lambda k: '(%s, %s)' % (k, f(k)))
            if m == 'rev' and not args:
                n, f = iter_plan(recv)
                if n is None:
                    raise Unsupported('rev of infinite')
                return (n, lambda k: f('(%s - 1 - %s)' % ('_N', k)))
            if m == 'zip':
                n1, f1 = iter_plan(recv)
                n2, f2 = iter_plan(args)
                n = n1 if n2 is None else n2 if n1 is None else 'vmin(%s, %s)' % (n1, n2)
                return (n, lambda k: '(%s, %s)' % (f1(k), f2(k)))
            if m == 'copied' or m == 'cloned':
                n, f = iter_plan(recv)
                return (n, lambda k: '*(%s)' % f(k))
            if m == 'into_iter' or m == 'bytes':
                r = T(recv)
                return ('%s.len()' % r, lambda k: '%s[%s]' % (r, k))
    for i, x in enumerate(t):
        if x.s == '..' and not any(y.s in OPEN for y in t[:i] if 0):
            a, b = T(t[:i]), T(t[i+1:])
            if not a:
                raise Unsupported('range')
            if not b:
                return (None, lambda k: '(%s + %s)' % (a, k))
            return ('vspan(%s, %s)' % (a, b), lambda k: '(%s + %s)' % (a, k))
    if len(t) >= 2 and t[0].s == '&' and t[1].s == 'mut':
        r = t[2:]
        if r and r[0].s == '*':
            r = r[1:]
        r = T(r)
        return ('%s.slots_len()' % r, lambda k: '%s.slot_mut(%s)' % (r, k))
    if len(t) >= 2 and t[0].s == '&':
        r = T(t[1:])
        return ('%s.len()' % r, lambda k: '&%s[%s]' % (r, k))
    if all(x.t == 'id' or x.s == '.' for x in t):
        r = T(t)
        return ('%s.len()' % r, lambda k: '&%s[%s]' % (r, k))
    raise Unsupported('iterator ' + T(t))

# ---- emission --------------------------------------------------------------------------------
class Emit:
    def __init__(self):
        self.buf = []
        self.line = 1
        self.map = {}        # output line -> (file, source line, fn)
        self.fn = None
        self.file = None
    def raw(self, s):
        for _ in range(s.count('\n')):
            self.line += 1
            if self.fn:
                self.map.setdefault(self.line, (self.file, None, self.fn))
        self.buf.append(s)
    def tok(self, t):
        self.raw(t.ws if t.ws else '')
        if self.fn:
            m = self.map.get(self.line)
            if m is None or m[1] is None:
                self.map[self.line] = (self.file, t.line, self.fn)
        self.raw(t.s)
    def text(self):
        return ''.join(self.buf)

class FnEmitter:
    def __init__(self, em, spec, lost):
        self.em, self.spec, self.lost = em, spec, lost
        self.nl = 0
        self.nc = 0

    def body(self, toks):
        em = self.em
        i = 0
        while i < len(toks):
            t = toks[i]
            if t.t == 'raw':
                em.raw('\n' + t.s + '\n')
                i += 1
                continue
            if t.s.startswith("'") and i + 2 < len(toks) and toks[i+1].s == ':' and toks[i+2].s == 'for' and 'foriter' in self.spec.opts:
                i = self.loop(toks, i + 2, t.s + ': ')
                continue
            if t.t == 'id' and t.s in ('for', 'while', 'loop') and not (t.s == 'for' and i + 1 < len(toks) and toks[i+1].s == '<'):
                i = self.loop(toks, i)
                continue
            if t.s in ('|', '||') and t.t == 'p' and self.closure_pos(toks, i):
                i = self.closure(toks, i)
                continue
            em.tok(t)
            i += 1

    def closure_pos(self, toks, i):
        if i == 0:
            return True
        p = toks[i-1]
        return p.t == 'raw' or p.s in ('(', ',', '=', '{', ';', '=>', 'move', 'return', '[', ':')

    def loop(self, toks, i, label=''):
        em, sp = self.em, self.spec
        self.nl += 1
        n = self.nl
        kw = toks[i].s
        j = i + 1
        while toks[j].s != '{' or toks[j].t != 'p':
            if toks[j].t == 'p' and toks[j].s in ('(', '['):
                j = match_close(toks, j)
            j += 1
        head = toks[i+1:j]
        e = match_close(toks, j)
        bodyt = toks[j+1:e]
        inv = sp.loops.get(n, '')
        entr = sp.loopenter.get(n, '')
        end = sp.loopend.get(n, '')
        ex = sp.loopexit.get(n, '')
        ws = toks[i].ws or ' '
        if kw == 'for':
            d = 0
            k = None
            for q, x in enumerate(head):
                if x.t == 'p' and x.s in OPEN:
                    d += 1
                elif x.t == 'p' and x.s in CLOSE:
                    d -= 1
                elif x.s == 'in' and d == 0:
                    k = q
                    break
            pat, ex_t = head[:k], head[k+1:]
            plain = len(pat) == 1 and any(x.s == '..' for x in ex_t) and not any(x.s in ('rev', 'zip', 'enumerate') for x in ex_t) and ex_t[-1].s != '..' and '..=' not in [x.s for x in ex_t]
            if plain:
                em.tok(toks[i])
                self.body(head)
                em.raw('\n' + inv)
                em.raw('{' + entr)
                self.body(bodyt)
                em.raw(end + '}' + ex)
                return e + 1
            if 'foriter' in sp.opts:
                em.raw(ws + 'let mut _it%d = (' % n)
                self.body(ex_t)
                em.raw(').into_iter();\n%sloop\n%s{ ' % (label, inv))
                em.raw('let %s = match _it%d.next() { Some(x) => x, None => break }; ' % (T(pat), n) + entr)
                self.body(bodyt)
                em.raw(end + '}' + ex)
                return e + 1
            ln, f = iter_plan(ex_t)
            if ln is None:
                raise Unsupported('infinite iterator')
            em.raw(ws + 'let _n%d = %s;' % (n, ln))
            em.raw('\nfor _k%d in 0.._n%d\n%s' % (n, n, inv))
            em.raw('{ ' + entr)
            em.raw(' let %s = %s; ' % (T(pat), f('_k%d' % n).replace('_N', '_n%d' % n)))
            self.body(bodyt)
            em.raw(end + '}' + ex)
            return e + 1
        em.tok(toks[i])
        self.body(head)
        em.raw('\n' + inv)
        em.raw('{' + entr)
        self.body(bodyt)
        em.raw(end + '}' + ex)
        return e + 1

    def closure(self, toks, i):
        em, sp = self.em, self.spec
        self.nc += 1
        n = self.nc
        if toks[i].s == '||':
            params, j = [], i
        else:
            j = i + 1
            while toks[j].s != '|':
                if toks[j].t == 'p' and toks[j].s in OPEN:
                    j = match_close(toks, j)
                j += 1
            params = split_toks(toks[i+1:j])
        # explicit return type?
        k = j + 1
        rty = None
        if toks[k].s == '->':
            q = k
            while toks[q].s != '{':
                q += 1
            rty = toks[k+1:q]
            k = q
        if toks[k].s == '{' and toks[k].t == 'p':
            e = match_close(toks, k)
            bodyt, blk = toks[k+1:e], True
            nxt = e + 1
        else:
            d = 0
            e = k
            while e < len(toks):
                x = toks[e]
                if x.t == 'p' and x.s in OPEN:
                    d += 1
                elif x.t == 'p' and x.s in CLOSE:
                    if d == 0:
                        break
                    d -= 1
                elif d == 0 and x.s in (',', ';'):
                    break
                e += 1
            bodyt, blk = toks[k:e], False
            nxt = e
        cl = sp.closures.get(n)
        if cl is None:
            for x in toks[i:k]:
                em.tok(x)
            if blk:
                em.tok(toks[k]); self.body(bodyt); em.tok(toks[nxt-1])
            else:
                self.body(bodyt)
            return nxt
        names, lets = [], []
        if len(params) != len(cl['types']):
            self.lost.append('closure %d parameters' % n)
        for a, p in enumerate(params):
            d = 0
            pt = p
            for q, x in enumerate(p):
                if x.s == ':':
                    pt = p[:q]
                    break
            ty = cl['types'][a] if a < len(cl['types']) else '_'
            if len(pt) == 1 and pt[0].s == '_':
                names.append('_a%d: %s' % (a, ty))
            elif len(pt) == 2 and pt[0].s == '&':
                names.append('%s_: %s' % (pt[1].s, ty))
                lets.append('let %s = *%s_;' % (pt[1].s, pt[1].s))
            elif len(pt) == 1 or (len(pt) == 2 and pt[0].s == 'mut'):
                names.append('%s: %s' % (T(pt), ty))
            else:
                names.append('_a%d: %s' % (a, ty))
                lets.append('let %s = _a%d;' % (T(pt), a))
        rn, rt = cl['ret']
        em.raw((toks[i].ws or '') + '|' + ', '.join(names) + '| -> (%s: %s)\n%s{ %s %s' % (rn, rt, cl['spec'], ' '.join(lets), cl['enter']))
        self.body(bodyt)
        em.raw(' }')
        return nxt

def split_toks(t):
    out, d, cur = [], 0, []
    for x in t:
        if x.t == 'p' and (x.s in OPEN or x.s == '<'):
            d += 1
        elif x.t == 'p' and (x.s in CLOSE or x.s == '>'):
            d -= 1
        elif x.t == 'p' and x.s == '>>' and d >= 2:
            d -= 2
        if x.s == ',' and d == 0:
            out.append(cur); cur = []
        else:
            cur.append(x)
    if cur:
        out.append(cur)
    return out

def count_constructs(toks):
    """number of loops and closures in a token list (pre-order, as numbered by the emitter)"""
    nl = nc = 0
    fe = FnEmitter(Emit(), FnSpec('x'), [])
    i = 0
    while i < len(toks):
        t = toks[i]
        if t.t == 'id' and t.s in ('for', 'while', 'loop') and not (t.s == 'for' and i + 1 < len(toks) and toks[i+1].s == '<'):
            nl += 1
        if t.t == 'p' and t.s in ('|', '||') and fe.closure_pos(toks, i):
            nc += 1
            if t.s == '|':
                j = i + 1
                while toks[j].s != '|':
                    j += 1
                i = j
        i += 1
    return nl, nc

def nth_closure(toks, n):
    """the n-th closure of a body -> (start with its &mut, parameter tokens, body tokens, end)"""
    fe = FnEmitter(Emit(), FnSpec('x'), [])
    i = 0
    while i < len(toks):
        t = toks[i]
        amp = i >= 2 and toks[i-1].s == 'mut' and toks[i-2].s == '&' or i >= 1 and toks[i-1].s == '&' and i >= 2 and toks[i-2].s in ('(', ',')
        if t.t == 'p' and t.s in ('|', '||') and (amp or fe.closure_pos(toks, i)):
            j = i
            if t.s == '|':
                j = i + 1
                while toks[j].s != '|':
                    j += 1
            params = [x for x in toks[i+1:j]]
            k = j + 1
            n -= 1
            if n == 0:
                if toks[k].s == '->':
                    while toks[k].s != '{':
                        k += 1
                if toks[k].s == '{':
                    e = match_close(toks, k) + 1
                    bodyt = toks[k+1:e-1]
                else:
                    e = k
                    angle = 0
                    while e < len(toks) and not (toks[e].t == 'p' and (toks[e].s in CLOSE or toks[e].s == ';' or toks[e].s == ',' and not angle)):
                        if toks[e].s == '<' and toks[e-1].s == '::' or angle and toks[e].s == '<':
                            angle += 1
                        elif angle and toks[e].s in ('>', '>>'):
                            angle -= len(toks[e].s)
                        e = match_close(toks, e) + 1 if toks[e].t == 'p' and toks[e].s in OPEN else e + 1
                    bodyt = toks[k:e]
                st = i
                if amp:
                    st = i - 2 if toks[i-1].s == 'mut' else i - 1
                return st, params, bodyt, e
            i = j
        i += 1
    return None

def add_canaries(body):
    """an assertion that must fail at the start of every branch and loop body -> (tokens, {id: source line})"""
    out, ids, at = [], {0: body[0].line}, set()
    for i, t in enumerate(body):
        if t.t == 'id' and t.s in ('if', 'while', 'for'):
            j = i + 1
            while j < len(body) and not (body[j].t == 'p' and body[j].s == '{'):
                if body[j].t == 'p' and body[j].s in ('(', '['):
                    j = match_close(body, j)
                j += 1
            at.add(j)
        elif t.s == '{' and i and body[i-1].s in ('else', '=>', 'loop'):
            at.add(i)
    n = 0
    for i, t in enumerate(body):
        out.append(t)
        if i in at and not (i + 1 < len(body) and body[i+1].s in ('vpanic', 'return') and body[i+1].s == 'vpanic') and body[i].line is not None:
            n += 1
            ids[n] = t.line
            out.append(Tok('raw', ' assert(canary(%d)); ' % n, t.line, ''))
    return out, ids

def find_seq(toks, pat, start=0):
    for i in range(start, len(toks) - len(pat) + 1):
        if all(toks[i+k].s == pat[k].s for k in range(len(pat))):
            return i
    return -1

def stmt_end(toks, i):
    d = 0
    while i < len(toks):
        x = toks[i]
        if x.t == 'p' and x.s in OPEN:
            j = match_close(toks, i)
            if x.s == '{':
                nx = toks[j+1] if j + 1 < len(toks) else None
                if nx is None or (nx.s not in ('else', '.', '?', ';', ')', ',', '==', '!=')):
                    return j + 1
            i = j + 1
            continue
        if x.t == 'p' and x.s in CLOSE:
            return i
        if x.s == ';':
            return i + 1
        i += 1
    return i

def split_sig(head):
    """fn NAME <generics> (params) -> ret where ...  => (pre, ret tokens or None, where tokens)"""
    i = 2
    if head[i].s == '<':
        d = 0
        while True:
            if head[i].s == '<':
                d += 1
            elif head[i].s == '>':
                d -= 1
            elif head[i].s == '>>':
                d -= 2
            i += 1
            if d == 0:
                break
    i = match_close(head, i) + 1
    pre = head[:i]
    ret, where = None, []
    if i < len(head) and head[i].s == '->':
        j = i + 1
        while j < len(head) and head[j].s != 'where':
            j += 1
        ret = head[i+1:j]
        i = j
    if i < len(head):
        where = head[i:]
    return pre, ret, where

def one_rule_macros(toks):
    out = {}
    for i, t in enumerate(toks):
        if t.s == 'macro_rules' and i + 3 < len(toks) and toks[i+1].s == '!' and toks[i+3].s in OPEN:
            end = match_close(toks, i + 3)
            j = i + 4
            if toks[j].s != '(':
                continue
            k = match_close(toks, j)
            par = norm(toks[j+1:k]).replace(' ', '')
            m = re.fullmatch(r'(\$\w+):expr', par)
            while k < end and toks[k].s != '{':
                k += 1
            if not m or k >= end:
                continue
            e = match_close(toks, k)
            if norm(toks[e+1:end]) in ('', ';'):
                out[toks[i+2].s] = (m.group(1), toks[k+1:e])
    return out

def expand(toks, macros):
    """macro invocations `name!(arg);` that follow `{`, `}` or `;`"""
    if not macros:
        return toks
    out, i = [], 0
    while i < len(toks):
        t = toks[i]
        if t.s in macros and i + 2 < len(toks) and toks[i+1].s == '!' and toks[i+2].s == '(' and out and out[-1].s in ('{', '}', ';'):
            e = match_close(toks, i + 2)
            if e + 1 < len(toks) and toks[e+1].s == ';':
                par, body = macros[t.s]
                k = 0
                while k < len(body):
                    if body[k].s == par or (body[k].s == '$' and k + 1 < len(body) and '$' + body[k+1].s == par):
                        out += [Tok(a.t, a.s, t.line, a.ws) for a in toks[i+3:e]]
                        k += 1 if body[k].s == par else 2
                    else:
                        out.append(Tok(body[k].t, body[k].s, t.line, body[k].ws))
                        k += 1
                i = e + 2
                continue
        out.append(t)
        i += 1
    return out

class Unit:
    def __init__(self, name, specpath, repo='/repo'):
        self.name, self.repo = name, repo
        self.parts, self.gsubs = parse_spec(specpath)
        self.cache = {}
        self.mcache = {}
    def src(self, f):
        if f not in self.cache:
            s = open(os.path.join(self.repo, f)).read()
            its = items(expand(anchors.apply(self.repo, f, lex(s)), self.macros(f)))
            for it in list(its):
                if it.kind == 'fn' and it.body and not any('test' in a for a in it.attrs):
                    inner, it.body = split_nested(it.body)
                    if inner:
                        items(inner, tuple(it.ctx) + ('fn ' + it.name,), its)
            self.cache[f] = its
        return self.cache[f]
    def macros(self, f):
        """{name: (parameter, tokens)} of the macro_rules with the one rule ($p:expr) => { … } in src/macros.rs of f's crate"""
        m = os.path.join(self.repo, f.split('/src/')[0], 'src/macros.rs')
        if m not in self.mcache:
            self.mcache[m] = one_rule_macros(lex(open(m).read())) if os.path.exists(m) else {}
        return self.mcache[m]
    def fnames(self):
        return [p.opts.get('id', p.name) for k, p in self.parts if k == 'fn']
    def find_fn(self, sp):
        c = [it for it in self.src(sp.file) if it.kind == 'fn' and it.name == sp.name and
             not any('test' in a for a in it.attrs) and
             ((sp.implhead is None and (not it.ctx or sp.opts.get('anyctx'))) or (sp.implhead is not None and it.ctx and it.ctx[-1] == sp.implhead))]
        c = [it for it in c if it.body is not None]
        n = int(sp.opts.get('nth', 1)) - 1
        return c[n] if len(c) > n else None

    canary = False
    def generate(self, external=()):
        """-> (text, Emit, info per fn)   external: ids to emit with their body assumed"""
        em = Emit()
        info = {}
        em.raw('#![feature(allocator_api)]\n#![allow(unused, non_snake_case, non_camel_case_types)]\nuse vstd::prelude::*;\nverus! {\n')
        if self.canary:
            em.raw('pub uninterp spec fn canary(n: int) -> bool;\n')
        for k, p in self.parts:
            if k == 'verbatim':
                em.raw(p + '\n')
            elif k == 'impl':
                em.raw('impl' + p[1].split('impl', 1)[1] + ' {\n' if p[1].startswith('impl') else p[1] + ' {\n')
            elif k == 'endimpl':
                em.raw('}\n')
            elif k == 'item':
                self.emit_item(em, p, info)
            else:
                self.emit_fn(em, p, info, external)
        em.raw('\n} // verus!\nfn main() {}\n')
        return em.text(), em, info

    def emit_item(self, em, p, info):
        c = [it for it in self.src(p['file']) if it.kind == p['kind'] and it.name == p['name'] and (not p['impl'] or (it.ctx and it.ctx[-1] == p['impl']))]
        key = 'item ' + p['name']
        if not c:
            info[key] = {'missing': True, 'lost': ['item not found']}
            return
        toks = [t for t in c[0].head]
        # drop attributes inside and visibility
        toks = drop_attrs_vis(toks)
        for pat, rep, opt in list(p['subs']) + self.gsubs:
            toks, h = subst(toks, pat, rep)
        em.raw(p['pre'])
        if p['kind'] in ('struct', 'enum'):
            toks = pub_fields(toks, p['kind'])
        else:
            em.raw('pub')
        em.raw(' ' + ' '.join(t.s for t in toks) + '\n')
        info[key] = {'missing': False, 'lost': [], 'line': c[0].line, 'file': p['file']}

    def emit_fn(self, em, sp, info, external):
        fid = sp.opts.get('id', sp.name)
        it = self.find_fn(sp)
        rec = {'missing': it is None, 'lost': [], 'external': fid in external, 'file': sp.file, 'name': sp.name, 'trusted': bool(sp.opts.get('trusted')), 'props': sp.opts.get('props', '')}
        info[fid] = rec
        if it is None:
            rec['lost'].append('function not found')
            return
        rec['line'] = it.line
        rec['end_line'] = it.end_line
        lost = rec['lost']
        head = list(it.head)
        body = list(it.body)
        body = drop_inner_attrs(body)
        if sp.opts.get('closure'):
            c = nth_closure(body, int(sp.opts['closure']))
            if c is None:
                rec['missing'] = True
                lost.append('closure not found')
                return
            head = lex(sp.head)
            names = [x.s for x in head]
            bind = []
            if 'p_' in names:
                # one pattern parameter: taken apart by a let
                bind = lex('let') + [t for t in c[1] if t.s not in ('ref', '&')] + lex('= p_;')
                if c[1][0].s == '&' and c[1][1].s == 'mut':
                    bind = lex('let') + [t for t in c[1][2:] if t.s not in ('ref', 'mut')] + lex('= p_;')
                bind = [Tok(t.t, t.s, c[2][0].line, ' ') for t in bind]
            else:
                typed = any(t.s == ':' for t in c[1])
                for t, u in zip(c[1], c[1][1:] + [None]):
                    if typed and (u is None or u.s != ':'):
                        continue
                    if t.t == 'id' and t.s not in ('mut', '_') and t.s not in names:
                        lost.append('closure parameter ' + t.s)
            body = [Tok('p', '{', c[2][0].line, '')] + bind + list(c[2]) + [Tok('p', '}', c[2][-1].line, ' ')]
        for n, rep in sorted(sp.lifts, reverse=True):
            c = nth_closure(body, n)
            if c is None:
                lost.append('closure %d' % n)
            else:
                body = body[:c[0]] + [Tok(t.t, t.s, body[c[0]].line, t.ws) for t in lex(rep)] + body[c[3]:]
        for var, call in sp.glue:
            body = drop_glue(body, var, call, lost)
        for pat, rep, opt in sp.subs + self.gsubs + BUILTIN_GSUBS:
            head, h1 = subst(head, pat, rep)
            body, h2 = subst(body, pat, rep)
            if not opt and h1 + h2 == 0:
                lost.append('substitution ' + T(pat))
        if sp.opts.get('refpats'):
            body = ref_patterns(body)
        if sp.opts.get('bigops'):
            body = bigops.rewrite(body)
        nl, nc = count_constructs(body)
        if sp.loops and max(sp.loops) > nl or nl > len(sp.loops) and not sp.opts.get('looseloops'):
            lost.append('loops: %d in source, %d specified' % (nl, len(sp.loops)))
        if sp.closures and max(sp.closures) > nc or nc > len(sp.closures) and not sp.opts.get('looseclosures'):
            lost.append('closures: %d in source, %d specified' % (nc, len(sp.closures)))
        for kind, pat, txt in sp.hints:
            pos, s = [], 0
            while True:
                q = find_seq(body, pat, s)
                if q < 0:
                    break
                pos.append(q)
                s = q + 1
            if not pos:
                lost.append('anchor ' + T(pat))
                continue
            if kind.startswith('last'):
                pos = pos[-1:]
            elif not kind.endswith('all'):
                pos = pos[:1]
            for q in reversed(pos):
                at = q if kind.endswith('before') or kind == 'beforeall' else stmt_end(body, q)
                body = body[:at] + [Tok('raw', txt, body[q].line, '\n')] + body[at:]
        if self.canary and not (fid in external or sp.opts.get('trusted')):
            body, rec['canaries'] = add_canaries(body)
        # emit
        em.fn, em.file = fid, sp.file
        em.raw('\n')
        rec['out_start'] = em.line
        if sp.attr:
            em.raw(sp.attr)
        if fid in external or sp.opts.get('trusted'):
            em.raw('#[verifier::external_body]\n')
        inimpl_trait = sp.opts.get('nopub')
        em.raw('' if inimpl_trait else 'pub ')
        pre, ret, where = split_sig(head)
        fe = FnEmitter(em, sp, lost)
        for t in pre:
            em.tok(t)
        if ret is not None:
            em.raw(' -> (%s: ' % sp.ret)
            for t in ret:
                em.tok(t)
            em.raw(')')
        if where:
            em.raw(' ')
            w = where
            for t in w:
                em.tok(t)
            if where[-1].s != ',':
                em.raw(',')
        em.raw('\n' + sp.contract)
        if fid in external or sp.opts.get('trusted'):
            em.raw('{ unimplemented!() }\n')
        else:
            first = ''.join(l + '\n' for l in sp.enter.split('\n') if l.strip().startswith('hide('))
            enter = '\n'.join(l for l in sp.enter.split('\n') if not l.strip().startswith('hide('))
            em.raw('{\n' + first + ('assert(canary(0));\n' if self.canary else '') + enter)
            mark = len(em.buf)
            try:
                if sp.exit:
                    em.raw('let r_ = {\n')
                fe.body(body[1:-1])
                if sp.exit:
                    em.raw('\n};\n' + sp.exit + 'r_')
            except (Unsupported, LexError) as x:
                # cannot be expressed: emit as assumed and report
                del em.buf[mark:]
                em.line = em.text().count('\n') + 1
                lost.append('unsupported construct: %s' % x)
                rec['unsupported'] = True
                em.raw('unimplemented!()')
            em.raw('\n}\n')
        rec['out_end'] = em.line
        em.fn = None

def split_nested(body):
    """items declared among the statements of a function -> (their tokens, the body without them)"""
    inner, out, i, start = [], [body[0]], 1, True
    while i < len(body) - 1:
        if start:
            k = i
            while body[k].s == '#' and body[k+1].s == '[':
                k = match_close(body, k + 1) + 1
            q = k
            while body[q].s in ('unsafe', 'const', 'extern', 'pub') and body[q+1].s != '{' and not (body[q].s == 'const' and body[q+1].s not in ('fn', 'unsafe')):
                q += 1
            kw = body[q].s
            if kw in ('fn', 'struct', 'enum', 'impl') and body[q].t == 'id' and body[q+1].s != '{':
                j = q
                while body[j].s not in ('{', ';'):
                    j = match_close(body, j) + 1 if body[j].s in ('(', '[') else j + 1
                e = match_close(body, j) if body[j].s == '{' else j
                inner += body[i:e+1]
                i = e + 1
                continue
        t = body[i]
        if t.t == 'p' and t.s in OPEN:
            e = match_close(body, i)
            out += body[i:e+1]
            i = e + 1
            start = t.s == '{'
            continue
        out.append(t)
        start = t.s == ';'
        i += 1
    return inner, out + [body[-1]]

def drop_glue(body, var, call, lost):
    """what the compiler adds where `var` goes out of scope: `call` at the end of its block, at every `?` and every `return` in between"""
    d = find_seq(body, lex('let mut %s' % var))
    if d < 0:
        lost.append('guard ' + var)
        return body
    # the block around it
    depth, e = 0, d
    while True:
        if body[e].t == 'p' and body[e].s in OPEN:
            e = match_close(body, e)
        elif body[e].t == 'p' and body[e].s in CLOSE:
            break
        e += 1
    st = stmt_end(body, d)
    ln = body[d].line
    mk = lambda s, ws=' ': [Tok(t.t, t.s, ln, t.ws or ws) for t in lex(s)]
    raw = [Tok('raw', call + ';', ln, ' ')]
    out, i = list(body[:st]), st
    tailret = False
    while i < e:
        t = body[i]
        if t.s == '?' and t.t == 'p':
            # a call: path ( arguments ) ?
            if out[-1].s != ')':
                lost.append('? after something other than a call')
                return body
            o, dep = len(out) - 1, 0
            while True:
                if out[o].t == 'p' and out[o].s in CLOSE:
                    dep += 1
                elif out[o].t == 'p' and out[o].s in OPEN:
                    dep -= 1
                    if dep == 0:
                        break
                o -= 1
            while o > 0 and (out[o-1].t == 'id' or out[o-1].s in ('.', '::')) and out[o-1].s not in ('if', 'while', 'return', 'match', 'in'):
                o -= 1
            out[o] = Tok(out[o].t, out[o].s, out[o].line, ' ')
            out = out[:o] + mk('(match') + out[o:] + mk('{ Ok(x_) => x_, Err(e_) => {') + raw + mk('return Err(e_); } })')
        elif t.s == 'return' and t.t == 'id':
            q = stmt_end(body, i)
            out += mk('{ let r_ =') + body[i+1:q-1] + mk(';') + raw + mk('return r_; }')
            i = q
            tailret = i >= e
            continue
        else:
            out.append(t)
        i += 1
    if not tailret:
        out += mk('; ' if out[-1].s not in (';', '}') else '') + raw
    return out + body[e:]

def ref_patterns(toks):
    out, i = list(toks), 0
    while i + 4 < len(out):
        if out[i].s == '(' and out[i+1].s == '&' and out[i+2].t == 'id' and out[i+3].s == ')' and out[i+4].s in ('if', '=>'):
            name = out[i+2].s
            q = i + 4
            while out[q].s != '=>':
                q += 1
            e = q + 1
            while e < len(out) and not (out[e].t == 'p' and (out[e].s == ',' or out[e].s in CLOSE)):
                e = match_close(out, e) + 1 if out[e].t == 'p' and out[e].s in OPEN else e + 1
            mid = []
            for t in out[i+4:e]:
                if t.t == 'id' and t.s == name:
                    mid += [Tok('p', '(', t.line, t.ws), Tok('p', '*', t.line, ''), Tok(t.t, t.s, t.line, ''), Tok('p', ')', t.line, '')]
                else:
                    mid.append(t)
            out = out[:i+1] + out[i+2:i+4] + mid + out[e:]
        i += 1
    return out

def drop_attrs_vis(toks):
    out, i = [], 0
    while i < len(toks):
        if toks[i].s == '#' and i + 1 < len(toks) and toks[i+1].s == '[':
            i = match_close(toks, i + 1) + 1
            continue
        if toks[i].s == 'pub':
            i += 1
            if toks[i].s == '(' and toks[i+1].s in ('crate', 'super', 'self', 'in'):
                i = match_close(toks, i) + 1
            continue
        out.append(toks[i])
        i += 1
    return out

def drop_inner_attrs(toks):
    """drops attributes, and the statements compiled only under one of monoruby's debugging features"""
    out, i = [], 0
    while i < len(toks):
        if toks[i].s == '#' and i + 1 < len(toks) and toks[i+1].s == '[':
            e = match_close(toks, i + 1) + 1
            a = toks[i+2:e-1]
            i = e
            if len(a) == 6 and T(a[:4]) == 'cfg ( feature =' and a[4].s.startswith('"gc-'):
                while i < len(toks) and not (toks[i].t == 'p' and toks[i].s in CLOSE):
                    if toks[i].t == 'p' and toks[i].s in OPEN:
                        blk = toks[i].s == '{'
                        i = match_close(toks, i) + 1
                        if blk and not (i < len(toks) and toks[i].s in ('else', '.', ';')):
                            break
                        continue
                    i += 1
                    if toks[i-1].s == ';':
                        break
            continue
        out.append(toks[i])
        i += 1
    return out

def pub_fields(toks, kind):
    pub = Tok('id', 'pub', toks[0].line, ' ')
    if kind == 'enum':
        return [pub] + toks
    out, i, d = [pub], 0, 0
    while i < len(toks) and toks[i].s not in ('{', '(', ';'):
        out.append(toks[i]); i += 1
    if i >= len(toks) or toks[i].s == ';':
        return out + toks[i:]
    out.append(toks[i])
    e = match_close(toks, i)
    for f in split_toks(toks[i+1:e]):
        if f:
            out += [pub] + f + [Tok('p', ',', f[0].line, '')]
    return out + toks[e:]

if __name__ == '__main__':
    import sys
    u = Unit('x', sys.argv[1], repo=os.environ.get('VREPO', '/repo'))
    t, em, info = u.generate()
    sys.stdout.write(t)
    for k, v in info.items():
        if v['lost']:
            sys.stderr.write('%s: %s\n' % (k, v['lost']))
