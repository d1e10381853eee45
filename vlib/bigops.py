"""Operators of big integers as calls.

Verus has no operator overloading, so in functions marked `bigops` every arithmetic operator and comparison of
the source becomes the call of a function that carries its meaning over mathematical integers:
    a + b   ->  bi_add(&(a), &(b))       -a  ->  bi_neg(&(a))       a < b  ->  bi_lt(&(a), &(b))
(precedence and grouping as in Rust; `&&`, `||`, `!`, casts and everything else stay).  The functions are generic
over the integer types, machine integers included, and are assumed to mean what the operators mean.
"""
from rtok import lex, match_close, Tok

BIN = {'*': (7, 'mul'), '/': (7, 'div'), '%': (7, 'rem'), '+': (6, 'add'), '-': (6, 'sub'),
       '<': (3, 'lt'), '>': (3, 'gt'), '<=': (3, 'le'), '>=': (3, 'ge'), '==': (3, 'eq'), '!=': (3, 'ne')}
PREFIX = ('&', '*', '-', '!')

class NotExpr(Exception):
    pass

def _k(s, line):
    return [Tok(t.t, t.s, line, ' ' if t.ws else '') for t in lex(s)]

def is_num(t):
    return t.t not in ('id', 'p', 'raw') or t.s[:1].isdigit()

class P:
    def __init__(self, toks):
        self.t, self.i = toks, 0
    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def primary(self):
        """postfix expression -> tokens with their groups rewritten"""
        t = self.peek()
        out = []
        if t is None:
            raise NotExpr
        if t.s in ('(', '['):
            e = match_close(self.t, self.i)
            out += [t] + rewrite(self.t[self.i+1:e]) + [self.t[e]]
            self.i = e + 1
        elif (t.t == 'id' and t.s not in KEYWORDS) or is_num(t):
            out.append(t)
            self.i += 1
            while self.peek() is not None and self.peek().s == '::':
                out.append(self.peek()); self.i += 1
                if self.peek() is not None and self.peek().s == '<':
                    d = 0
                    while True:
                        x = self.peek()
                        out.append(x); self.i += 1
                        d += {'<': 1, '>': -1, '>>': -2}.get(x.s, 0)
                        if d <= 0:
                            break
                else:
                    out.append(self.peek()); self.i += 1
            if self.peek() is not None and self.peek().s == '!' and self.peek(1) is not None and self.peek(1).s in ('(', '['):
                out.append(self.peek()); self.i += 1
        else:
            raise NotExpr
        while True:
            t = self.peek()
            if t is None:
                break
            if t.s == '.' and self.peek(1) is not None and (self.peek(1).t == 'id' or is_num(self.peek(1))):
                out += [t, self.peek(1)]
                self.i += 2
            elif t.s in ('(', '['):
                e = match_close(self.t, self.i)
                out += [t] + rewrite(self.t[self.i+1:e]) + [self.t[e]]
                self.i = e + 1
            elif t.s == '?':
                out.append(t); self.i += 1
            else:
                break
        return out

    def unary(self):
        t = self.peek()
        if t is not None and t.t == 'p' and t.s in PREFIX:
            self.i += 1
            pre = [t]
            if t.s == '&' and self.peek() is not None and self.peek().s == 'mut':
                pre.append(self.peek()); self.i += 1
            x = self.unary()
            if t.s == '-' and not (len(x) == 1 and is_num(x[0])):
                return _k('bi_neg(&(', t.line) + x + _k('))', t.line)
            return pre + x
        start = self.i
        x = self.primary()
        while self.peek() is not None and self.peek().s == 'as':
            # a cast is machine arithmetic: leave its operand as it was
            x = list(self.t[start:self.i])
            x.append(self.peek()); self.i += 1
            while self.peek() is not None and (self.peek().t == 'id' or self.peek().s == '::') and self.peek().s not in KEYWORDS:
                x.append(self.peek()); self.i += 1
        return x

    def binary(self, lvl):
        a = self.unary()
        while True:
            t = self.peek()
            if t is None or t.t != 'p' or t.s not in BIN:
                return a
            p, name = BIN[t.s]
            if p < lvl:
                return a
            save = self.i
            self.i += 1
            try:
                b = self.binary(p + 1)
            except NotExpr:
                self.i = save
                return a
            a = _k('bi_%s(&(' % name, t.line) + a + _k('), &(', t.line) + b + _k('))', t.line)

KEYWORDS = {'if', 'else', 'match', 'let', 'return', 'while', 'for', 'in', 'loop', 'mut', 'ref', 'move', 'break', 'continue', 'unsafe', 'use', 'fn', 'struct', 'impl', 'as', 'where'}

def rewrite(toks):
    out, i = [], 0
    while i < len(toks):
        t = toks[i]
        if t.t == 'raw':
            out.append(t); i += 1
            continue
        if t.s == 'let':
            # pattern and type as they are
            j = i
            while j < len(toks) and toks[j].s not in ('=', ';'):
                j = match_close(toks, j) + 1 if toks[j].t == 'p' and toks[j].s in ('(', '[', '{') else j + 1
            out += toks[i:j+1]
            i = j + 1
            continue
        if t.s == '{' and t.t == 'p':
            e = match_close(toks, i)
            out += [t] + rewrite(toks[i+1:e]) + [toks[e]]
            i = e + 1
            continue
        p = P(toks)
        p.i = i
        try:
            x = p.binary(0)
        except NotExpr:
            out.append(t)
            i += 1
            continue
        if x:
            x[0] = Tok(x[0].t, x[0].s, x[0].line, t.ws)
        out += x
        i = p.i
    return out
