"""Minimal Rust tokenizer and item finder (comments and attributes dropped, text kept verbatim)."""
import re

class Tok:
    __slots__ = ('t', 's', 'line', 'ws')
    def __init__(self, t, s, line, ws):
        self.t, self.s, self.line, self.ws = t, s, line, ws
    def __repr__(self):
        return self.s

_ID = re.compile(r'(?:r#)?[A-Za-z_][A-Za-z0-9_]*')
_NUM = re.compile(r'0[xX][0-9a-fA-F_]+[iu]?(?:8|16|32|64|128|size)?|0[bo][0-9_]+[iu]?(?:8|16|32|64|128|size)?|[0-9][0-9_]*(?:\.[0-9][0-9_]*)?(?:[eE][+-]?[0-9_]+)?(?:_?[iuf](?:8|16|32|64|128|size))?')
_PUNCT = ['<<=', '>>=', '...', '..=', '::', '->', '=>', '==', '!=', '<=', '>=', '&&', '||', '+=', '-=', '*=', '/=', '%=', '^=', '&=', '|=', '<<', '>>', '..']

class LexError(Exception):
    pass

def lex(src):
    toks = []
    i, n, line = 0, len(src), 1
    ws = ''
    while i < n:
        c = src[i]
        if c in ' \t\r\n':
            j = i
            while j < n and src[j] in ' \t\r\n':
                j += 1
            w = src[i:j]
            line += w.count('\n')
            ws += w
            i = j
            continue
        if src.startswith('//', i):
            j = src.find('\n', i)
            if j < 0:
                j = n
            i = j
            continue
        if src.startswith('/*', i):
            d, j = 1, i + 2
            while j < n and d:
                if src.startswith('/*', j):
                    d += 1; j += 2
                elif src.startswith('*/', j):
                    d -= 1; j += 2
                else:
                    j += 1
            line += src.count('\n', i, j)
            i = j
            ws += ' '
            continue
        start, sl = i, line
        m = re.compile(r'(?:br|rb|r|cr)(#*)"').match(src, i)
        if m:
            end = '"' + m.group(1)
            j = src.find(end, m.end())
            if j < 0:
                raise LexError('raw string')
            j += len(end)
            toks.append(Tok('str', src[i:j], line, ws)); ws = ''
            line += src.count('\n', i, j); i = j
            continue
        m = re.compile(r'[bc]?"').match(src, i)
        if m:
            j = m.end()
            while j < n and src[j] != '"':
                j += 2 if src[j] == '\\' else 1
            j += 1
            toks.append(Tok('str', src[i:j], line, ws)); ws = ''
            line += src.count('\n', i, j); i = j
            continue
        m = re.compile(r"b?'(?:\\(?:x[0-9a-fA-F]{2}|u\{[0-9a-fA-F_]+\}|.)|[^'\\])'").match(src, i)
        if m:
            toks.append(Tok('chr', m.group(0), line, ws)); ws = ''
            i = m.end()
            continue
        m = re.compile(r"'[A-Za-z_][A-Za-z0-9_]*").match(src, i)
        if m:
            toks.append(Tok('life', m.group(0), line, ws)); ws = ''
            i = m.end()
            continue
        m = _ID.match(src, i)
        if m:
            toks.append(Tok('id', m.group(0), line, ws)); ws = ''
            i = m.end()
            continue
        m = _NUM.match(src, i)
        if m:
            s = m.group(0)
            # `0..n` must not swallow a dot; `1.max(2)` neither (regex needs a digit after the dot)
            toks.append(Tok('num', s, line, ws)); ws = ''
            i += len(s)
            continue
        for p in _PUNCT:
            if src.startswith(p, i):
                toks.append(Tok('p', p, line, ws)); ws = ''
                i += len(p)
                break
        else:
            toks.append(Tok('p', c, line, ws)); ws = ''
            i += 1
    return toks

def text(toks):
    """Verbatim text (whitespace kept, comments gone)."""
    return ''.join(t.ws + t.s for t in toks)

def norm(toks):
    if isinstance(toks, str):
        toks = lex(toks)
    return ' '.join(t.s for t in toks)

OPEN = {'(': ')', '[': ']', '{': '}'}
CLOSE = {v: k for k, v in OPEN.items()}

def match_close(toks, i):
    """index of the token closing the bracket at i"""
    d = 0
    for j in range(i, len(toks)):
        s = toks[j].s
        if toks[j].t == 'p':
            if s in OPEN:
                d += 1
            elif s in CLOSE:
                d -= 1
                if d == 0:
                    return j
    raise LexError('unbalanced')

class Item:
    def __init__(self, kind, name, head, body, ctx, line, attrs):
        self.kind, self.name, self.head, self.body, self.ctx, self.line, self.attrs = kind, name, head, body, ctx, line, attrs
    @property
    def end_line(self):
        return (self.body or self.head)[-1].line

def items(toks, ctx=(), out=None):
    """All items (fn, impl, mod, struct, enum, const, trait, type, macro) with their context path."""
    if out is None:
        out = []
    i, n = 0, len(toks)
    attrs = []
    while i < n:
        t = toks[i]
        if t.s == '#' and i + 1 < n and (toks[i+1].s == '[' or (toks[i+1].s == '!' and i + 2 < n and toks[i+2].s == '[')):
            j = match_close(toks, i + (1 if toks[i+1].s == '[' else 2))
            attrs.append(norm(toks[i:j+1]))
            i = j + 1
            continue
        # item start: skip visibility and qualifiers
        k = i
        if toks[k].s == 'pub':
            k += 1
            if k < n and toks[k].s == '(':
                k = match_close(toks, k) + 1
        q = k
        while q < n and toks[q].s in ('const', 'unsafe', 'async', 'extern', 'default') :
            if toks[q].s == 'const' and q + 1 < n and toks[q+1].s not in ('fn', 'unsafe', 'extern', 'async'):
                break
            q += 1
            if q < n and toks[q].t == 'str':
                q += 1
        if q >= n:
            break
        kw = toks[q].s
        if kw == 'fn':
            # head up to `{` or `;` at depth 0
            j = q
            while toks[j].s not in ('{', ';'):
                if toks[j].s in ('(', '['):
                    j = match_close(toks, j)
                j += 1
            if toks[j].s == ';':
                out.append(Item('fn', toks[q+1].s, toks[q:j], None, ctx, t.line, attrs))
                i = j + 1
            else:
                e = match_close(toks, j)
                out.append(Item('fn', toks[q+1].s, toks[q:j], toks[j:e+1], ctx, t.line, attrs))
                i = e + 1
            attrs = []
            continue
        if kw in ('impl', 'mod', 'trait'):
            j = q
            while toks[j].s not in ('{', ';'):
                if toks[j].s in ('(', '['):
                    j = match_close(toks, j)
                j += 1
            if toks[j].s == ';':
                i = j + 1
                attrs = []
                continue
            e = match_close(toks, j)
            head = toks[q:j]
            name = norm(head)
            it = Item(kw, name, head, toks[j:e+1], ctx, t.line, attrs)
            out.append(it)
            items(toks[j+1:e], ctx + (name,), out)
            i = e + 1
            attrs = []
            continue
        if kw in ('struct', 'enum', 'union', 'const', 'static', 'type', 'use', 'macro_rules', 'extern'):
            j = q
            while j < n and toks[j].s != ';':
                if toks[j].s in OPEN:
                    j = match_close(toks, j)
                    if toks[j].s == '}' and kw in ('struct', 'enum', 'union', 'macro_rules', 'extern'):
                        break
                j += 1
            nm = toks[q+1].s if q + 1 < n else ''
            out.append(Item(kw, nm, toks[i:j+1], None, ctx, t.line, attrs))
            i = j + 1
            attrs = []
            continue
        # macro invocation at item level or something unknown
        j = i
        while j < n and toks[j].s != ';':
            if toks[j].s in OPEN:
                j = match_close(toks, j)
                if toks[j].s == '}':
                    break
            j += 1
        i = j + 1
        attrs = []
    return out
