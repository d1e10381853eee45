//! C22: glob matching of monoruby/src/builtins/fnmatch.rs against the rules written as a recursive definition.
#![allow(dead_code, unused_imports)]
use vharness::drv::{self, Gen, Plan};
// ---- sliced from the repository -------------------------------------------------------------------
//@file monoruby/src/builtins/fnmatch.rs

// ---- the rules ---------------------------------------------------------------------------------------
#[derive(Clone, Copy)]
struct F {
    esc: bool,
    path: bool,
    dot: bool,
    fold: bool,
    ext: bool,
}
fn flags(n: u32) -> F {
    F { esc: n & 1 == 0, path: n & 2 != 0, dot: n & 4 != 0, fold: n & 8 != 0, ext: n & 16 != 0 }
}
fn low(c: char, f: F) -> char {
    if f.fold { c.to_lowercase().next().unwrap() } else { c }
}
enum El {
    Lit(char),
    Any,
    Star,
    Set(bool, Vec<(char, char)>),
    Never,
}
/// the elements of a segment pattern
fn parse(p: &[char], f: F) -> Vec<El> {
    let mut out = vec![];
    let mut i = 0;
    while i < p.len() {
        match p[i] {
            '*' => out.push(El::Star),
            '?' => out.push(El::Any),
            '\\' if f.esc && i + 1 < p.len() => {
                i += 1;
                out.push(El::Lit(p[i]));
            }
            '[' => {
                let mut j = i + 1;
                let neg = j < p.len() && (p[j] == '!' || p[j] == '^');
                if neg {
                    j += 1;
                }
                // one member: (char, next) with an escape taken off
                let one = |j: usize| -> Option<(char, usize)> {
                    if j >= p.len() {
                        None
                    } else if p[j] == '\\' && f.esc && j + 1 < p.len() {
                        Some((p[j + 1], j + 2))
                    } else {
                        Some((p[j], j + 1))
                    }
                };
                let mut set = vec![];
                let mut end = None;
                loop {
                    if j >= p.len() {
                        break;
                    }
                    if p[j] == ']' {
                        end = Some(j);
                        break;
                    }
                    let (a, n) = one(j).unwrap();
                    j = n;
                    if j + 1 < p.len() && p[j] == '-' && p[j + 1] != ']' {
                        let (b, n) = one(j + 1).unwrap();
                        j = n;
                        set.push((a, b));
                    } else {
                        set.push((a, a));
                    }
                }
                match end {
                    Some(e) => {
                        out.push(El::Set(neg, set));
                        i = e;
                    }
                    None => {
                        out.push(El::Never);
                        return out;
                    }
                }
            }
            c => out.push(El::Lit(c)),
        }
        i += 1;
    }
    out
}
fn els(p: &[El], s: &[char], f: F) -> bool {
    match p.first() {
        None => s.is_empty(),
        Some(El::Star) => els(&p[1..], s, f) || (!s.is_empty() && els(p, &s[1..], f)),
        Some(e) => {
            if s.is_empty() {
                return false;
            }
            let c = low(s[0], f);
            (match e {
                El::Lit(l) => low(*l, f) == c,
                El::Any => true,
                El::Set(neg, set) => set.iter().any(|(a, b)| if a == b { low(*a, f) == c } else { low(*a, f) <= c && c <= low(*b, f) }) != *neg,
                _ => false,
            }) && els(&p[1..], &s[1..], f)
        }
    }
}
fn segment(p: &str, s: &str, f: F) -> bool {
    let (p, s): (Vec<char>, Vec<char>) = (p.chars().collect(), s.chars().collect());
    let p = parse(&p, f);
    if s.first() == Some(&'.') && !f.dot && !matches!(p.first(), Some(El::Lit('.'))) {
        return false;
    }
    els(&p, &s, f)
}
fn segments(p: &[&str], s: &[&str], f: F) -> bool {
    if p.is_empty() {
        return s.is_empty();
    }
    if p[0] == "**" && p.len() > 1 {
        return segments(&p[1..], s, f) || (!s.is_empty() && (f.dot || !s[0].starts_with('.')) && segments(p, &s[1..], f));
    }
    !s.is_empty() && segment(p[0], s[0], f) && segments(&p[1..], &s[1..], f)
}
/// the alternatives, in order
fn braces(p: &[char], esc: bool) -> Vec<Vec<char>> {
    let skip = |i: usize| if p[i] == '\\' && esc && i + 1 < p.len() { 2 } else { 1 };
    let mut i = 0;
    while i < p.len() && p[i] != '{' {
        i += skip(i);
    }
    // the group that starts at i, its commas and its end
    let mut cuts = vec![i];
    let mut depth = 0;
    let mut j = i;
    while j < p.len() {
        match p[j] {
            '{' => depth += 1,
            '}' => depth -= 1,
            ',' if depth == 1 => cuts.push(j),
            _ => {}
        }
        if depth == 0 {
            break;
        }
        j += skip(j);
    }
    if i >= p.len() || j >= p.len() {
        return vec![p.to_vec()];
    }
    cuts.push(j);
    cuts.windows(2).flat_map(|w| braces(&[&p[..i], &p[w[0] + 1..w[1]], &p[j + 1..]].concat(), esc)).collect()
}
fn rules(p: &str, s: &str, f: F) -> bool {
    let one = |p: &str| {
        if f.path {
            segments(&p.split('/').collect::<Vec<_>>(), &s.split('/').collect::<Vec<_>>(), f)
        } else {
            segment(p, s, f)
        }
    };
    if f.ext {
        braces(&p.chars().collect::<Vec<_>>(), f.esc).iter().any(|q| one(&q.iter().collect::<String>()))
    } else {
        one(p)
    }
}
fn check(p: &str, s: &str, n: u32) -> Result<(), String> {
    let (g, e) = (fnmatch(p, s, n), rules(p, s, flags(n)));
    if g != e { Err(format!("fnmatch({p:?}, {s:?}, {n}) = {g}, the rules say {e}")) } else { Ok(()) }
}
const PAT: [&str; 20] = ["a", "*", "?", ".", "/", "[", "]", "b", "A", "!", "-", "\\", "^", "**/", "**", "{", "}", ",", "c", "é"];
const NAME: [&str; 12] = ["a", ".", "/", "b", "A", "c", "-", "]", "\\", "!", "é", "{"];
fn short(g: &mut Gen) -> Result<(), String> {
    // every pattern of three symbols and name of two, some flags
    let p: String = (0..3).map(|_| PAT[g.choose(14) as usize]).collect();
    let s: String = (0..2).map(|_| NAME[g.choose(5) as usize]).collect();
    let n = g.pick(&[0u32, 2, 4, 1]);
    g.log(|| format!("{p:?} {s:?} {n}"));
    check(&p, &s, n)
}
fn long(g: &mut Gen) -> Result<(), String> {
    let k = g.upto(g.max_ops);
    let focus = g.choose(4);
    let p: String = (0..k)
        .map(|_| match focus {
            0 => PAT[g.choose(20) as usize],
            1 => g.pick(&["*", "a", "b", "?", "."]),
            2 => g.pick(&["**/", "a", "*", "/", ".", "**", "?"]),
            _ => g.pick(&["[", "]", "a", "-", "b", "\\", "^", "!", "c", "*", "."]),
        })
        .collect();
    let k = g.upto(g.max_ops);
    let s: String = (0..k)
        .map(|_| match focus {
            0 => NAME[g.choose(12) as usize],
            1 => g.pick(&["a", "b", ".", "/"]),
            2 => g.pick(&["a", "/", ".", "b"]),
            _ => g.pick(&["a", "b", "-", "]", "c", "."]),
        })
        .collect();
    let n = g.choose(32);
    g.log(|| format!("{p:?} {s:?} {n}"));
    check(&p, &s, n)
}
/// patterns made from the name, so that matching is common
fn hits(g: &mut Gen) -> Result<(), String> {
    let k = g.upto(g.max_ops);
    let s: Vec<&str> = (0..k).map(|_| g.pick(&["a", "b", "A", ".", "/", "é", "-"])).collect();
    let mut p = String::new();
    let mut i = 0;
    while i < s.len() {
        match g.choose(10) {
            0 | 1 => p.push_str(s[i]),
            2 => p.push('?'),
            3 => p.push_str(&format!("[{}]", s[i])),
            4 => p.push_str(&format!("[^{}]", g.pick(&["a", "b", "a-b", "."]))),
            5 => p.push_str(&format!("[{}-{}]", g.pick(&["A", "a", "."]), g.pick(&["b", "z", "é"]))),
            6 => p.push_str(&format!("\\{}", s[i])),
            7 => {
                p.push_str(g.pick(&["*", "**", "**/", "*/"]));
                i += g.upto(3);
            }
            8 => p.push_str(&format!("{{{},{}}}", s[i], g.pick(&["a", "b", "", "c{a,b}"]))),
            _ => p.push_str(g.pick(&["a", "b", "*"])),
        }
        i += 1;
    }
    let (n, s) = (g.choose(32), s.concat());
    g.log(|| format!("{p:?} {s:?} {n}"));
    check(&p, &s, n)
}
fn expansion(g: &mut Gen) -> Result<(), String> {
    let k = g.upto(g.max_ops);
    let p: String = (0..k).map(|_| g.pick(&["{", "}", ",", "a", "\\", "b"])).collect();
    let noesc = g.flag();
    g.log(|| format!("{p:?} {noesc}"));
    let want: Vec<String> = braces(&p.chars().collect::<Vec<_>>(), !noesc).iter().map(|q| q.iter().collect()).collect();
    let got = expand_braces(&p, noesc);
    if got != want { Err(format!("expand_braces({p:?}, {noesc}) = {got:?}, expected {want:?}")) } else { Ok(()) }
}
fn main() {
    drv::main_with(&[
        Plan { name: "C22_short", f: short, exhaustive: Some((1, 280000)), random: &[] },
        Plan { name: "C22_long", f: long, exhaustive: None, random: &[(6, 200000), (12, 100000)] },
        Plan { name: "C22_hits", f: hits, exhaustive: None, random: &[(4, 200000), (9, 100000)] },
        Plan { name: "C22_braces", f: expansion, exhaustive: Some((6, 120000)), random: &[(9, 100000), (14, 20000)] },
    ]);
}
