//! Record what the real parser does on streams of our choosing, for validation
//! by VenialTrace.tla: mutated declarations and declarations from real sources.

use crate::observe::*;
use crate::replay::strings;
use crate::tok::*;
use proc_macro2::{Spacing, TokenStream, TokenTree};
use serde_json::{json, Value};
use std::io::Write;

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
}

type Toks = Vec<String>;

fn matches(t: &Toks) -> Vec<usize> {
    let mut m = vec![0; t.len()];
    let mut st = vec![];
    for i in 0..t.len() {
        if is_open(&t[i]) { st.push(i) }
        else if is_close(&t[i]) { let o = st.pop().unwrap(); m[o] = i; m[i] = o; }
    }
    m
}

/// Token trees as ranges of positions, at every nesting level.
fn trees(t: &Toks) -> Vec<(usize, usize)> {
    let m = matches(t);
    (0..t.len()).filter(|&i| !is_close(&t[i])).map(|i| if is_open(&t[i]) { (i, m[i] + 1) } else { (i, i + 1) }).collect()
}

const VOCAB: &[&[&str]] = &[
    &[";"], &[","], &[":"], &[":^", ":"], &[":^"], &["="], &["<"], &[">"], &["-", ">"], &["-"], &["#"], &["!"], &["&"], &["'"], &["'", "a"],
    &["+"], &["?"], &["*"], &["."], &["(", ")"], &["{", "}"], &["[", "]"], &["/(", "/)"], &["(", "A", ")"], &["[", "a", "]"], &["{", "a", "}"],
    &["#", "[", "a", "]"], &["#", "!", "[", "a", "]"], &["pub"], &["crate"], &["pub", "(", "crate", ")"], &["(", "in", "a", ")"],
    &["struct"], &["enum"], &["union"], &["mod"], &["trait"], &["impl"], &["type"], &["fn"], &["const"], &["static"], &["use"], &["extern"],
    &["default"], &["async"], &["unsafe"], &["mut"], &["self"], &["where"], &["for"], &["as"], &["in"], &["dyn"], &["x"], &["r#fn"], &["_"],
    &["1"], &["\"C\""], &["'x'"], &["m", "!"], &["x", ":", "A"], &["<", "T", ">"], &["=", "1"], &["where", "T", ":", "A"], &["macro_rules"],
    &["\"C\"", "fn"], &["const", "fn"], &["extern", "crate"], &["union", "!"], &["static", "mut"],
];

fn pick(r: &mut Rng) -> Toks {
    let k = r.below(VOCAB.len());
    VOCAB[k].iter().map(|s| s.to_string()).collect()
}

fn splice(t: &Toks, a: usize, b: usize, with: &[String]) -> Toks {
    let mut v = t[..a].to_vec();
    v.extend_from_slice(with);
    v.extend_from_slice(&t[b..]);
    v
}

pub fn mutate(t: &Toks, other: &Toks, r: &mut Rng) -> Toks {
    let ts = trees(t);
    if ts.is_empty() { return pick(r) }
    let (a, b) = ts[r.below(ts.len())];
    match r.below(14) {
        0 | 1 => splice(t, a, b, &[]),                           // delete a tree
        2 => splice(t, b, b, &t[a..b].to_vec()),                 // duplicate it
        3 | 4 => splice(t, a, a, &pick(r)),                      // insert before it
        5 => splice(t, b, b, &pick(r)),                          // insert after it
        6 | 7 => splice(t, a, b, &pick(r)),                      // replace it
        8 => {                                                   // swap with the next one
            match ts.iter().find(|x| x.0 == b) {
                Some(&(c, d)) => { let mut w = t[c..d].to_vec(); w.extend_from_slice(&t[a..b]); splice(t, a, d, &w) }
                None => splice(t, a, b, &[]),
            }
        }
        9 => {                                                   // truncate at the end of its group
            let m = matches(t);
            let end = (b..t.len()).scan(b, |p, _| { if *p >= t.len() || is_close(&t[*p]) { None } else { *p = if is_open(&t[*p]) { m[*p] + 1 } else { *p + 1 }; Some(*p) } }).last().unwrap_or(b);
            splice(t, a, end, &[])
        }
        10 => {                                                  // put another declaration after it
            splice(t, b, b, other)
        }
        11 => {                                                  // a tree of another declaration
            let os = trees(other);
            if os.is_empty() { return splice(t, a, b, &[]) }
            let (c, d) = os[r.below(os.len())];
            splice(t, a, b, &other[c..d].to_vec())
        }
        12 if is_open(&t[a]) => {                                // drop or change the delimiters
            let inner = t[a + 1..b - 1].to_vec();
            let d = [["", ""], ["(", ")"], ["[", "]"], ["{", "}"], ["/(", "/)"]][r.below(5)];
            let mut w = vec![];
            if !d[0].is_empty() { w.push(d[0].to_string()) }
            w.extend(inner);
            if !d[0].is_empty() { w.push(d[1].to_string()) }
            splice(t, a, b, &w)
        }
        12 => splice(t, a, b, &[]),
        _ => match ts.iter().find(|&&(i, _)| i >= a && (t[i] == ":" || t[i] == ":^")) {
            Some(&(i, _)) => { let n = if t[i] == ":" { ":^" } else { ":" }; splice(t, i, i + 1, &[n.to_string()]) }
            None => splice(t, a, b, &pick(r)),
        },
    }
}

fn record(toks: &Toks, e: &str, r: Render) -> Option<Value> {
    let ts = build(toks, r)?;
    crate::watch(&json!({"t": toks, "e": e, "render": format!("{r:?}")}).to_string());
    let seen = match e { "path" => path(ts, toks), "pred" => pred(ts, toks), _ => consume_stream(ts, toks) };
    Some(record_seen(toks, e, r, &seen))
}

fn record_seen(toks: &Toks, e: &str, render: Render, seen: &Seen) -> Value {
    let render = format!("{render:?}");
    let mut labs: Vec<Value> = vec![];
    if seen.r == "ok" {
        for i in 0..seen.p.max(1) - 1 { labs.push(json!(one(&seen.labs[i]))) }
        for i in seen.p.max(1) - 1..toks.len() {
            if !seen.labs[i].is_empty() { labs.push(json!(["?beyond"])) }
        }
    }
    json!({"t": toks, "e": e, "render": render, "r": seen.r, "p": seen.p, "at": seen.at, "labs": labs})
}

pub fn main(lines: impl Iterator<Item = String>, out: &mut impl Write, seed: u64, n: usize, e: &str) {
    let pool: Vec<Toks> = lines.filter(|l| !l.is_empty()).map(|l| strings(&serde_json::from_str::<Value>(&l).unwrap()["t"])).collect();
    let mut r = Rng(seed.wrapping_mul(7919).wrapping_add(17));
    let mut seen = std::collections::HashSet::new();
    let mut made = 0;
    let mut tries = 0;
    while made < n && tries < 20 * n && !pool.is_empty() {
        tries += 1;
        let mut t = pool[r.below(pool.len())].clone();
        if t.len() > 120 { continue }
        for _ in 0..[1, 1, 1, 2, 2, 3][r.below(6)] {
            let o = pool[r.below(pool.len())].clone();
            t = mutate(&t, &o, &mut r);
        }
        if t.len() > 160 || !seen.insert(t.clone()) { continue }
        let render = if r.below(2) == 0 { Render::Loose } else { Render::Tight };
        if let Some(v) = record(&t, e, render) {
            made += 1;
            writeln!(out, "{v}").unwrap();
        }
    }
}

/// Record given streams again.
pub fn again(lines: impl Iterator<Item = String>, out: &mut impl Write) {
    for l in lines {
        let v: Value = serde_json::from_str(&l).unwrap();
        let render = if v["render"] == "Tight" { Render::Tight } else { Render::Loose };
        if let Some(v) = record(&strings(&v["t"]), v["e"].as_str().unwrap(), render) { writeln!(out, "{v}").unwrap() }
    }
}

// --- real sources -------------------------------------------------------

/// Tokens of a real source in the alphabet of the specification: literals are all "1".
fn canon(ts: TokenStream, out: &mut Toks) {
    for t in ts {
        match t {
            TokenTree::Group(g) => {
                let mut v = vec![];
                flatten_tt(&TokenTree::Group(proc_macro2::Group::new(g.delimiter(), TokenStream::new())), &mut v);
                out.push(v[0].text.clone());
                canon(g.stream(), out);
                out.push(v[1].text.clone());
            }
            TokenTree::Ident(i) => out.push(i.to_string()),
            TokenTree::Punct(p) => out.push(if p.as_char() == ':' && p.spacing() == Spacing::Joint { ":^".into() } else { p.as_char().to_string() }),
            TokenTree::Literal(_) => out.push("1".into()),
        }
    }
}

/// Consume a file item by item; an item that is not accepted is recorded and ends the file.
pub fn sources(files: impl Iterator<Item = String>, out: &mut impl Write, max_tokens: usize) {
    for f in files {
        let Ok(text) = std::fs::read_to_string(&f) else { continue };
        let Ok(ts) = text.parse::<TokenStream>() else { continue };
        let mut toks = vec![];
        canon(ts, &mut toks);
        // inner attributes of the file
        let m = matches(&toks);
        let mut p = 0;
        while p + 2 < toks.len() && toks[p] == "#" && toks[p + 1] == "!" { p = m[p + 2] + 1 }
        let mut rest: Toks = toks[p..].to_vec();
        while !rest.is_empty() {
            let head: Toks = cut(&rest, max_tokens);
            let Some(ts) = build(&head, Render::Tight) else { break };
            crate::watch(&json!({"t": head, "e": "item", "render": "Tight"}).to_string());
            let seen = consume_stream(ts, &head);
            let next = seen.p.max(1) - 1;
            if seen.r == "ok" && next < head.len() {
                // leave the following tokens in the trace: they must stay untouched
                let keep: Toks = cut(&head, next + 8);
                if let Some(v) = record(&keep, "item", Render::Tight) { writeln!(out, "{v}").unwrap() }
                rest = rest[next..].to_vec();
            } else if seen.r == "ok" && head.len() == rest.len() {
                writeln!(out, "{}", record_seen(&head, "item", Render::Tight, &seen)).unwrap();
                break;
            } else {
                if head.len() < 400 { writeln!(out, "{}", record_seen(&head, "item", Render::Tight, &seen)).unwrap(); }
                // skip to after the next `;` or block
                let m = matches(&rest);
                let mut q = 0;
                while q < rest.len() && rest[q] != ";" && rest[q] != "{" { q = if is_open(&rest[q]) { m[q] + 1 } else { q + 1 } }
                if q >= rest.len() { break }
                q = if rest[q] == "{" { m[q] + 1 } else { q + 1 };
                rest = rest[q..].to_vec();
            }
        }
    }
}

/// The longest prefix of whole token trees with at most n tokens (at least one tree).
fn cut(t: &Toks, n: usize) -> Toks {
    let m = matches(t);
    let mut p = 0;
    while p < t.len() {
        let q = if is_open(&t[p]) { m[p] + 1 } else { p + 1 };
        if q > n && p > 0 { break }
        p = q;
    }
    t[..p].to_vec()
}
