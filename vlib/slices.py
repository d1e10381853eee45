"""Mechanical slicing of /repo source into a stand-alone crate.

A template is Rust text with directive lines; everything else is copied as it is.
  //@file PATH                 the whole file without its #[cfg(test)] modules (and without `use` lines
                               when followed by ` nouse`)
  //@item PATH KIND NAME       one item outside any impl (fn struct enum const static type trait macro_rules)
  //@impl PATH HEADER          the whole impl block whose header has these tokens
  //@fns PATH HEADER :: a b c  `HEADER { the named functions and consts of that impl block }`
  //@sub OLD ==> NEW           token substitution in the items of the previous directive (must occur)
  //@optsub OLD ==> NEW        same, may be absent
  //@if PATH KIND NAME         the lines up to //@endif only when that item exists
Comments are dropped, everything else is verbatim.  An item that is not there is left out (what needs it then
does not compile).  Renamed items are followed (anchors.py).  Functions, types and constants of the same file that a sliced item uses and that the template does not define are pulled in as well.
"""
import os, re
import anchors
from rtok import lex, items, norm, text, match_close, LexError

class SliceError(Exception):
    pass

_cache = {}
def load(repo, path):
    p = os.path.join(repo, path)
    try:
        src = open(p).read()
    except OSError:
        raise SliceError('%s is gone' % path)
    k = (p, hash(src))
    if k not in _cache:
        toks = anchors.apply(repo, path, lex(src))
        _cache[k] = (toks, items(toks))
    return _cache[k]

def strip_tests(toks):
    out, i = [], 0
    while i < len(toks):
        if toks[i].s == '#' and i + 1 < len(toks) and toks[i+1].s == '[':
            j = match_close(toks, i + 1)
            if norm(toks[i:j+1]) in ('# [ cfg ( test ) ]', '# [ test ]'):
                j += 1
                while toks[j].s == '#' and toks[j+1].s == '[':
                    j = match_close(toks, j + 1) + 1
                while toks[j].s not in ('{', ';'):
                    if toks[j].s in ('(', '['):
                        j = match_close(toks, j)
                    j += 1
                i = (match_close(toks, j) if toks[j].s == '{' else j) + 1
                continue
        out.append(toks[i])
        i += 1
    return out

def strip_use(toks):
    out, i = [], 0
    depth = 0
    while i < len(toks):
        t = toks[i]
        if t.s == '{': depth += 1
        if t.s == '}': depth -= 1
        if depth == 0 and t.s in ('use', 'pub') and (t.s == 'use' or (toks[i+1].s == 'use')):
            while toks[i].s != ';':
                i += 1
            i += 1
            continue
        out.append(t)
        i += 1
    return out

def render(it):
    # doc comments are comments; attributes other than cfg/derive/repr/inline are dropped
    keep = [a for a in it.attrs if re.match(r'# \[ (derive|repr|cfg)\b', a) and 'cfg ( test )' not in a]
    pre = '\n'.join(a.replace('# [', '#[') for a in keep)
    return pre + '\n', list(it.head) + list(it.body or [])

def find(its, kind, name, path, top=True):
    c = [i for i in its if i.kind == kind and (i.name == name or (kind == 'trait' and re.match(r'trait %s\b' % name, i.name))) and not any(x.startswith('mod tests') or x == 'mod test' for x in i.ctx) and not (top and any(x.startswith(('impl', 'trait')) for x in i.ctx))]
    if not c:
        raise SliceError('%s: no %s %s' % (path, kind, name))
    return c[0]

def subst(s, old, new, opt, where):
    toks = lex(s)
    o = [t.s for t in lex(old)]
    out, i, n = [], 0, 0
    while i < len(toks):
        if [t.s for t in toks[i:i+len(o)]] == o:
            out.append((toks[i].ws or ' ') + new)
            i += len(o)
            n += 1
        else:
            out.append(toks[i].ws + toks[i].s)
            i += 1
    if not n and not opt:
        raise SliceError('%s: `%s` is gone' % (where, old))
    return ''.join(out)

def expand(tpl, repo):
    """-> (text, [(path, what, first line, last line)])"""
    out, used = [], []
    last = None
    pulls = []
    skip = False
    for l in tpl.split('\n'):
        if re.match(r'\s*//@endif', l):
            skip = False
            continue
        if skip:
            continue
        m = re.match(r'\s*//@(\w+)\s+(.*)$', l)
        if not m:
            out.append(l)
            continue
        d, rest = m.group(1), m.group(2).strip()
        if d in ('sub', 'optsub'):
            a, b = rest.split('==>')
            if last is None:
                continue
            out[last] = subst(out[last], a.strip(), b.strip(), d == 'optsub', rest)
            continue
        path, _, arg = rest.partition(' ')
        arg = arg.strip()
        toks, its = load(repo, path)
        if d == 'if':
            kind, name = arg.split()
            try:
                find(its, kind, name, path, top=False)
            except SliceError:
                skip = True
            continue
        if d == 'file':
            t = strip_tests(toks)
            if arg == 'nouse':
                t = strip_use(t)
            out.append(text(t))
            used.append((path, 'file', 1, toks[-1].line))
        elif d == 'item':
            kind, name = arg.split()
            try:
                it = find(its, kind, name, path)
            except SliceError:
                out.append('')
                last = None
                continue
            if kind in ('fn', 'trait'):
                pre, t = render(it)
                out.append(pre + 'pub ' + (quals(toks, it) if kind == 'fn' else '') + text(t).lstrip())
            else:
                keep = [a for a in it.attrs if re.match(r'# \[ (derive|repr)\b', a)]
                s = text(it.head).lstrip()
                s = re.sub(r'^pub\s*(\([^)]*\))?\s*', '', s)
                out.append('\n'.join(a.replace('# [', '#[') for a in keep) + '\n' + ('' if kind == 'macro_rules' else 'pub ') + s)
            used.append((path, '%s %s' % (kind, name), it.line, it.end_line))
        elif d == 'impl':
            want = norm(arg)
            c = [i for i in its if i.kind == 'impl' and i.name == want]
            if not c:
                raise SliceError('%s: no `%s`' % (path, arg))
            out.append('\n'.join(text(strip_tests(list(i.head) + list(i.body))) for i in c))
            used.append((path, want, c[0].line, c[-1].end_line))
        elif d == 'fns':
            head, _, names = arg.partition('::')
            # the header may itself contain '::'
            head, names = arg.rsplit(' :: ', 1)
            want = norm(head)
            o = head + ' {\n'
            for n in names.split():
                c = [i for i in its if i.kind in ('fn', 'const', 'type') and i.name == n and i.ctx and i.ctx[-1] == want]
                if not c:
                    continue
                it = c[0]
                p = '' if re.search(r'\bfor\b', head) else 'pub '
                if it.kind == 'fn':
                    o += '    ' + p + quals(toks, it) + text(list(it.head) + list(it.body)).lstrip() + '\n'
                else:
                    s = re.sub(r'^pub\s*(\([^)]*\))?\s*', '', text(it.head).lstrip())
                    o += '    ' + p + s + '\n'
                used.append((path, '%s %s' % (head, n), it.line, it.end_line))
            out.append(o + '}')
        else:
            raise SliceError('unknown directive ' + d)
        last = len(out) - 1
        if d in ('item', 'fns', 'impl'):
            pulls.append((last, path, its, toks))
    while True:
        n = 0
        for k, path, its, toks in pulls:
            n += pull(out, k, path, its, toks, used)
        if not n:
            break
    return '\n'.join(out), used

def self_type(ctx):
    """the type an inherent impl is for, or None"""
    if not ctx.startswith('impl') or re.search(r'\bfor\b', re.sub(r'for <', '', ctx)):
        return None
    t = [x.s for x in lex(ctx)][1:]
    if t and t[0] == '<':
        dep = 0
        for i, x in enumerate(t):
            dep += (x == '<') - (x == '>') - 2 * (x == '>>')
            if dep <= 0:
                t = t[i+1:]
                break
    return t[0] if t else None

def use_leaves(toks, i, pre, out):
    """leaves of a use tree starting at i -> index after it"""
    while i < len(toks):
        if toks[i].s == '{':
            e = match_close(toks, i)
            i += 1
            while i < e:
                i = use_leaves(toks[:e], i, pre, out)
                if i < e and toks[i].s == ',':
                    i += 1
            return e + 1
        seg = toks[i].s
        if i + 1 < len(toks) and toks[i+1].s == '::':
            pre = pre + [seg]
            i += 2
            continue
        name = seg
        i += 1
        if i + 1 < len(toks) and toks[i].s == 'as':
            name = toks[i+1].s
            i += 2
        if seg == 'self':
            seg, pre = None, pre
            name = pre[-1] if name == 'self' else name
        out.append((name, '::'.join(pre + ([seg] if seg else []))))
        return i
    return i

_uses = {}
def std_uses(its):
    if id(its) not in _uses:
        r = []
        for j in its:
            if j.kind == 'use' and not j.ctx:
                h = [t for t in j.head]
                u = next(i for i, t in enumerate(h) if t.s == 'use') + 1
                if u < len(h) and h[u].s in ('std', 'core', 'alloc'):
                    use_leaves([t for t in h if t.s != ';'], u, [], r)
        _uses[id(its)] = dict((a, b) for a, b in r if a not in ('*', '_', 'f64', 'f32', 'u8', 'u16', 'u32', 'u64', 'usize', 'i64', 'char', 'str'))
    return _uses[id(its)]

def pull(out, k, path, its, toks, used):
    """append to out[k] the helpers of the same file it uses and nothing defines"""
    ts = lex(out[k])
    whole = '\n'.join(out)
    n = 0
    for i, t in enumerate(ts):
        if t.t != 'id':
            continue
        x = t.s
        prev = ts[i-1].s if i else ''
        nxt = ts[i+1].s if i + 1 < len(ts) else ''
        c, o = None, None
        if x in std_uses(its) and prev not in ('.', '::') and not re.search(r'\b(?:struct|enum|type|trait|union|fn|mod)\s+%s\b|\buse\b[^;]*\b%s\b|\buse std::[\w:]*\*' % (x, x), whole):
            p = std_uses(its)[x]
            add = '\nuse %s%s;' % (p, '' if p.endswith('::' + x) else ' as ' + x)
            out[k] += add
            whole += add
            n += 1
            continue
        if nxt in ('(', '::') and prev not in ('.', '::', 'fn', '!'):
            c = [j for j in its if j.kind == 'fn' and j.name == x and not [y for y in j.ctx if y.startswith(('impl', 'trait', 'mod', 'fn'))]]
            if nxt == '::' and not (i + 2 < len(ts) and ts[i+2].s == '<'):
                c = None
            if c and not re.search(r'\bfn\s+%s\b' % x, whole):
                o = '\npub ' + quals(toks, c[0]) + text(list(c[0].head) + list(c[0].body)).lstrip()
        if o is None and re.match(r'[A-Z][A-Z0-9_]+$', x) and prev not in ('.', '::', 'const', 'static'):
            c = [j for j in its if j.kind in ('const', 'static') and j.name == x and not [y for y in j.ctx if y.startswith(('impl', 'trait', 'mod', 'fn'))]]
            if c and not re.search(r'\b(?:const|static)\s+%s\b' % x, whole):
                o = '\npub ' + re.sub(r'^pub\s*(\([^)]*\))?\s*', '', text(c[0].head).lstrip())
        if o is None and re.match(r'[A-Z]\w*[a-z]\w*$', x) and prev not in ('.', '::', 'struct', 'enum', 'type', 'trait') and not re.search(r'\b(?:struct|enum|type|trait|union)\s+%s\b|\buse\b[^;]*\b%s\b' % (x, x), whole):
            c = [j for j in its if j.kind in ('struct', 'enum', 'type') and j.name == x and not [y for y in j.ctx if y.startswith(('impl', 'trait', 'mod', 'fn'))]]
            if c:
                keep = [a for a in c[0].attrs if re.match(r'# \[ (derive|repr)\b', a)]
                o = '\n' + '\n'.join(a.replace('# [', '#[') for a in keep) + '\npub ' + re.sub(r'^pub\s*(\([^)]*\))?\s*', '', text(c[0].head).lstrip())
                o += ''.join('\n' + text(strip_tests(list(j.head) + list(j.body))) for j in its if j.kind == 'impl' and re.search(r'(?:^impl|for|>) %s(?: <|$)' % x, j.name))
        if o is None and prev in ('.', '::') and i > 1:
            c = [j for j in its if j.kind in ('fn', 'const') and j.name == x and j.ctx and self_type(j.ctx[-1])]
            if ts[i-2].s not in ('self', 'Self'):
                c = [j for j in c if self_type(j.ctx[-1]) == ts[i-2].s] if prev == '::' else []
            if c and not re.search(r'\b(?:fn|const)\s+%s\b' % x, whole):
                j = c[0]
                body = quals(toks, j) + text(list(j.head) + list(j.body)).lstrip() if j.kind == 'fn' else re.sub(r'^pub\s*(\([^)]*\))?\s*', '', text(j.head).lstrip())
                o = '\n' + j.ctx[-1] + ' {\n    pub ' + body + '\n}'
        if o is not None:
            out[k] += o
            used.append((path, 'pulled in: ' + x, c[0].line, c[0].end_line))
            whole += o
            n += 1
    return n

def quals(toks, it):
    """const/unsafe/extern qualifiers written before `fn`"""
    i = next(k for k, t in enumerate(toks) if t is it.head[0])
    q = []
    i -= 1
    while i >= 0 and (toks[i].s in ('const', 'unsafe', 'async', 'extern') or (toks[i].t == 'str' and toks[i-1].s == 'extern')):
        q.append(toks[i].s)
        i -= 1
    return ''.join(x + ' ' for x in reversed(q))

CARGO = '''[package]
name = "%s"
version = "0.1.0"
edition = "%s"
[workspace]
[lib]
path = "src/lib.rs"
[lints.rust]
unexpected_cfgs = "allow"
[profile.dev]
opt-level = 1
debug = 0
debug-assertions = true
overflow-checks = true
incremental = false
'''

def generate(name, crate, repo):
    """slice crate with a binary: slices/<name>.rs is the template of src/bin/<name>.rs"""
    here = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
    tpl = open(os.path.join(here, 'slices', name + '.rs')).read()
    body, used = expand(tpl, repo)
    os.makedirs(os.path.join(crate, 'src', 'bin'))
    with open(os.path.join(crate, 'Cargo.toml'), 'w') as f:
        f.write(CARGO.replace('[lib]\npath = "src/lib.rs"\n', '') % (name.replace('_', '-'), '2024') +
                '[dependencies]\nvharness = { path = "%s" }\n' % os.path.abspath(os.path.join(here, 'slices', 'rt')))
    with open(os.path.join(crate, 'src', 'bin', name + '.rs'), 'w') as f:
        f.write(body)
    return used

SHIM = '''
/// concrete values instead of symbolic ones: the harnesses of kani/%s run as they are written
pub mod kani {
    use vharness::drv::Gen;
    thread_local! { static G: std::cell::Cell<*mut Gen> = const { std::cell::Cell::new(std::ptr::null_mut()) }; }
    pub struct Discard;
    fn bits(n: u32) -> u128 {
        let g = unsafe { &mut *G.with(|g| g.get()) };
        let mut word = || (g.choose(1 << 16) as u128) << 48 | (g.choose(1 << 16) as u128) << 32 | (g.choose(1 << 16) as u128) << 16 | g.choose(1 << 16) as u128;
        let r = word() << 64 | word();
        let s = r as u32;
        match (s >> 8) %% 8 {
            0 => (s %% 9) as u128,
            1 => ((s %% 9) as u128).wrapping_neg(),
            2 => (1u128 << (s %% n)).wrapping_add((s >> 20) as u128 %% 3).wrapping_sub(1),
            3 => !(1u128 << (s %% n)).wrapping_add((s >> 20) as u128 %% 3).wrapping_sub(1),
            4 => (r >> 64) & ((1u128 << (s %% n)) - 1),
            5 => (r >> 64) << (s %% n),
            _ => r,
        }
    }
    pub trait Arbitrary {
        fn any() -> Self;
    }
    macro_rules! ints { ($($t:ty),*) => { $(impl Arbitrary for $t { fn any() -> $t { bits(<$t>::BITS) as $t } })* } }
    ints!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);
    impl Arbitrary for bool {
        fn any() -> bool {
            unsafe { &mut *G.with(|g| g.get()) }.flag()
        }
    }
    impl Arbitrary for f64 {
        fn any() -> f64 {
            f64::from_bits(u64::any())
        }
    }
    impl Arbitrary for char {
        fn any() -> char {
            char::from_u32(u32::any() & 0x1f_ffff).unwrap_or('a')
        }
    }
    impl<T: Arbitrary, const N: usize> Arbitrary for [T; N] {
        fn any() -> [T; N] {
            std::array::from_fn(|_| T::any())
        }
    }
    impl<T: Arbitrary> Arbitrary for Option<T> {
        fn any() -> Option<T> {
            if bool::any() { Some(T::any()) } else { None }
        }
    }
    pub fn any<T: Arbitrary>() -> T {
        T::any()
    }
    pub fn assume(c: bool) {
        if !c {
            std::panic::resume_unwind(Box::new(Discard));
        }
    }
    #[macro_export]
    macro_rules! vcover { ($($t:tt)*) => {}; }
    pub fn run(g: &mut Gen, f: fn()) -> Result<(), String> {
        G.with(|c| c.set(g));
        match std::panic::catch_unwind(f) {
            Ok(()) => Ok(()),
            Err(e) if e.is::<Discard>() => {
                vharness::drv::DISCARDED.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                Ok(())
            }
            Err(_) => Err(vharness::drv::LAST_PANIC.with(|p| p.borrow().clone())),
        }
    }
}
'''

def generate_kani(name, crate, repo):
    """the harnesses of kani/<group> over concrete values (name: k_<group>)"""
    import json
    here = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
    group = name[2:]
    g = os.path.join(here, 'kani', group)
    plan = json.load(open(os.path.join(g, 'plan.json')))
    tpl = open(os.path.join(g, plan.get('lib', 'lib.rs'))).read()
    tpl = re.sub(r'#\[kani::\w+(?:\([^)\n]*\))?\]', '', tpl)
    tpl = re.sub(r'#\[cfg\(not\(kani\)\)\]', '#[cfg(any())]', tpl)
    tpl = re.sub(r'#\[cfg\(kani\)\]', '#[cfg(all())]', tpl)
    tpl = re.sub(r'\bkani::cover!', 'crate::vcover!', tpl)
    tpl = re.sub(r'(?<![\w:/])kani::', 'crate::kani::', tpl)
    tpl = re.sub(r'\bmod vk \{', 'pub mod vk {', tpl)
    names = {h.split('::')[-1] for h in plan['harnesses']}
    tpl = re.sub(r'(?m)^(\s*)fn (\w+)\(\) \{', lambda m: m.group(1) + ('pub ' if m.group(2) in names else '') + 'fn ' + m.group(2) + '() {', tpl)
    body, used = expand(tpl, repo)
    have = [h for h in plan['harnesses'] if re.search(r'\bfn %s\b' % h.split('::')[-1], body)]
    mods = set(re.findall(r'\bmod (\w+)', body))
    body = re.sub(r'(?m)^(\s*)mod (%s) \{' % '|'.join(m for h in have for m in h.split('::')[:-1]), r'\1pub mod \2 {', body)
    body = re.sub(r'pub pub', 'pub', body)
    body += SHIM % group + 'fn main() {\n    vharness::drv::main_with(&[\n'
    for h in have:
        body += '        vharness::drv::Plan { name: "h_%s", f: |g| kani::run(g, crate::%s), exhaustive: None, random: &[(1, 100000)] },\n' % (h.split('::')[-1], h)
    body += '    ]);\n}\n'
    os.makedirs(os.path.join(crate, 'src', 'bin'))
    with open(os.path.join(crate, 'Cargo.toml'), 'w') as f:
        f.write(CARGO.replace('[lib]\npath = "src/lib.rs"\n', '') % (name.replace('_', '-'), plan.get('edition', '2024')) +
                '[dependencies]\nvharness = { path = "%s" }\n' % os.path.abspath(os.path.join(here, 'slices', 'rt')))
    with open(os.path.join(crate, 'src', 'bin', name + '.rs'), 'w') as f:
        f.write(body)
    return used
