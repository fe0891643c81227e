//! Replay of list-edit histories (Punctuated.tla) and error histories (Errors.tla).

use crate::observe::quiet;
use crate::tok::*;
use proc_macro2::{Ident, Punct, Spacing, Span, TokenStream, TokenTree};
use quote::ToTokens;
use serde_json::{json, Value};
use std::io::Write;
use venial::*;

const COMMA: usize = 1000;

fn elem(n: usize) -> Ident {
    Ident::new(&format!("x{n}"), span_of(n))
}
fn comma(n: usize) -> Punct {
    let mut p = Punct::new(',', Spacing::Alone);
    p.set_span(span_of(COMMA + n));
    p
}

/// The stream `pre x1, x2, .. post` parsed, element n at position n, comma n at COMMA + n.
fn parsed_in(pre: &str, mid: &dyn Fn(TokenStream) -> TokenStream, n: usize, tail: bool) -> Item {
    let mut ts: Vec<TokenTree> = vec![];
    for i in 1..=n {
        ts.push(elem(i).into());
        if i < n || tail { ts.push(comma(i).into()) }
    }
    let mut all: TokenStream = [TokenTree::from(Ident::new(pre, Span::call_site())), Ident::new("S", Span::call_site()).into()].into_iter().collect();
    all.extend(mid(ts.into_iter().collect()));
    parse_item(all).unwrap()
}

/// struct S<x1, ..>;
fn parsed(n: usize, tail: bool) -> Punctuated<GenericParam> {
    match parsed_in("struct", &|l| quote::quote!(<#l>;), n, tail) {
        Item::Struct(s) => s.generic_params.unwrap().params,
        _ => panic!(),
    }
}
/// struct S(x1, ..);
fn parsed_fields(n: usize, tail: bool) -> Punctuated<TupleField> {
    match parsed_in("struct", &|l| quote::quote!((#l);), n, tail) {
        Item::Struct(Struct { fields: Fields::Tuple(t), .. }) => t.fields,
        _ => panic!(),
    }
}
/// enum S { x1, .. }
fn parsed_variants(n: usize, tail: bool) -> Punctuated<EnumVariant> {
    match parsed_in("enum", &|l| quote::quote!({#l}), n, tail) {
        Item::Enum(e) => e.variants,
        _ => panic!(),
    }
}

trait El: ToTokens + Clone {
    fn make(n: usize) -> Self;
}
impl El for Ident {
    fn make(n: usize) -> Self { elem(n) }
}
impl El for GenericParam {
    fn make(n: usize) -> Self {
        let mut g = GenericParam::ty("x");
        g.name = elem(n);
        g
    }
}

thread_local! {
    static FIELD: TupleField = parsed_fields(1, false)[0].0.clone();
    static VARIANT: EnumVariant = parsed_variants(1, false)[0].0.clone();
}
impl El for TupleField {
    fn make(n: usize) -> Self {
        let mut f = FIELD.with(|f| f.clone());
        f.ty.tokens = vec![elem(n).into()];
        f
    }
}
impl El for EnumVariant {
    fn make(n: usize) -> Self {
        let mut v = VARIANT.with(|v| v.clone());
        v.name = elem(n);
        v
    }
}

fn comma_id(p: &Punct) -> i64 {
    if p.as_char() != ',' { return -2 }
    match index_of(p.span()) {
        Some(i) if i > COMMA => (i - COMMA) as i64,
        _ => 0,
    }
}
fn el_id<T: ToTokens>(x: &T) -> i64 {
    let f = flat(x.to_token_stream());
    match f.as_slice() {
        [f] if f.text.starts_with('x') && f.at == f.text[1..].parse().ok() => f.at.unwrap() as i64,
        _ => -2,
    }
}

fn same(want: &Value, got: i64) -> bool {
    let w = want.as_i64().unwrap();
    // -1: a comma of unspecified origin
    w == got || (w == -1 && got >= 0)
}
fn same_all(want: &Value, got: &[i64]) -> bool {
    let w = want.as_array().unwrap();
    w.len() == got.len() && w.iter().zip(got).all(|(w, g)| same(w, *g))
}

fn drive<T: El>(mut list: Punctuated<T>, v: &Value) -> Vec<Value> {
    let n0 = v["start"]["n"].as_u64().unwrap() as usize;
    let mut out = vec![];
    let hist = v["hist"].as_array().unwrap();
    for (j, op) in hist.iter().enumerate() {
        let id = n0 + j + 1;
        let c = (op["comma"] == true).then(|| comma(id));
        let at = op["at"].as_u64().unwrap() as usize;
        if op["op"] == "swap" {
            list.swap(at, op["to"].as_u64().unwrap() as usize);
        } else if op["op"] == "set" {
            list[at].0 = T::make(id);
        } else if op["op"] == "push" {
            list.push(T::make(id), c);
        } else {
            let len = list.len();
            let r = quiet(|| list.insert(at, T::make(id), c));
            if r.is_err() != (at > len) {
                out.push(json!({"what": "insert past the end", "step": j + 1, "want panic": at > len, "got panic": r.is_err()}));
                return out;
            }
        }
    }
    let want = |what: &str, w: &Value, g: Value, out: &mut Vec<Value>| {
        if *w != g { out.push(json!({"what": what, "want": w, "got": g})) }
    };
    want("len", &v["len"], json!(list.len()), &mut out);
    want("is_empty", &json!(v["len"] == 0), json!(list.is_empty()), &mut out);
    let items: Vec<i64> = list.items().map(el_id).collect();
    want("items", &v["items"], json!(items), &mut out);
    let puncts: Vec<i64> = list.punct().map(comma_id).collect();
    if !same_all(&v["puncts"], &puncts) {
        out.push(json!({"what": "punct", "want": v["puncts"], "got": puncts}));
    }
    let copy = list.clone();
    if quote::quote!(#copy).to_string() != quote::quote!(#list).to_string() {
        out.push(json!({"what": "clone"}));
    }
    // indexing: every element, with its comma where one is printed
    let n = list.len();
    for i in 0..n {
        let (x, c) = &list[i];
        let wc = v["puncts"].get(i);
        if !same(&v["items"][i], el_id(x)) || wc.is_some_and(|w| !same(w, comma_id(c))) {
            out.push(json!({"what": "index", "index": i, "got": [el_id(x), comma_id(c)]}));
        }
    }
    if quiet(|| { let _ = &list[n]; }).is_ok() {
        out.push(json!({"what": "index past the end"}));
    }
    let mut got = vec![];
    for tt in list.to_token_stream() {
        got.push(match &tt {
            TokenTree::Punct(p) => ("comma", comma_id(p)),
            t => ("el", el_id(t)),
        });
    }
    let w = v["printed"].as_array().unwrap();
    if w.len() != got.len() || w.iter().zip(&got).any(|(w, g)| w["k"] != g.0 || !same(&w["x"], g.1)) {
        out.push(json!({"what": "printed", "want": w, "got": got}));
    }
    out
}

pub fn main(lines: impl Iterator<Item = String>, out: &mut impl Write) {
    let (mut cases, mut runs, mut ops) = (0, 0, 0);
    for line in lines {
        let v: Value = serde_json::from_str(&line).unwrap();
        crate::watch(&line);
        cases += 1;
        ops += v["hist"].as_array().unwrap().len();
        let n = v["start"]["n"].as_u64().unwrap() as usize;
        let tail = v["start"]["tail"] == true;
        let mut tries: Vec<Box<dyn Fn() -> Vec<Value>>> = vec![];
        if v["start"]["how"] == "new" {
            tries.push(Box::new(|| drive::<Ident>(Punctuated::new(), &v)));
            tries.push(Box::new(|| drive::<Ident>(Punctuated::default(), &v)));
        } else {
            tries.push(Box::new(|| drive::<GenericParam>(parsed(n, tail), &v)));
            tries.push(Box::new(|| drive::<TupleField>(parsed_fields(n, tail), &v)));
            tries.push(Box::new(|| drive::<EnumVariant>(parsed_variants(n, tail), &v)));
        }
        for t in tries {
            runs += 1;
            let bad = quiet(t).unwrap_or_else(|_| vec![json!({"what": "panic"})]);
            if !bad.is_empty() {
                writeln!(out, "{}", json!({"mismatch": bad, "t": [], "case": v})).unwrap();
                break;
            }
        }
    }
    writeln!(out, "{}", json!({"stats": {"cases": cases, "runs": runs, "tokens": ops}})).unwrap();
}

// ---------------------------------------------------------------------------

const TEXTS: [&str; 18] = ["", "plain text", "with \"quotes\" and \\ backslash", "two\nlines\tand {} braces", "", "unicode é → \u{1F980}", "'",
    "compile_error!{\"x\"}", "  spaces around  ", "ends in a newline\n", "\r\n", "nul \0 and \u{7f} \u{200b}", "r#\"raw\"#", "ends in a backslash \\", "plain text.",
    "a long one: 0123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789\
    01234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789 end",
    "1", "// no comment; `{}` {x} {{}} %s $x #[a]"];

fn say(t: usize) -> String {
    // the last one is really long
    if t == 18 { "0123456789abcdef".repeat(600) } else { TEXTS[t].to_string() }
}

/// The fixed stream of Errors.tla: x y z ( p q ) w
fn stream() -> Vec<String> {
    ["x", "y", "z", "(", "p", "q", ")", "w"].iter().map(|s| s.to_string()).collect()
}

fn part(a: usize, b: usize) -> TokenStream {
    let toks = stream();
    let mut all = build(&toks, Render::Loose).unwrap().into_iter().collect::<Vec<_>>();
    all.retain(|t| {
        let (x, y) = range_of(t.span()).unwrap();
        x + 1 >= a && y + 1 <= b
    });
    all.into_iter().collect()
}

fn place(s: Span) -> (usize, usize) {
    range_of(s).map_or((0, 0), |(a, b)| (a + 1, b + 1))
}

fn check_error(e: &Error, msgs: &[Value], k: usize, out: &mut Vec<Value>) {
    let text = |m: &Value| say(m["m"].as_u64().unwrap() as usize);
    let at = |m: &Value| (m["a"].as_u64().unwrap() as usize, m["b"].as_u64().unwrap() as usize);
    if e.to_string() != text(&msgs[0]) {
        out.push(json!({"what": "display", "error": k, "want": text(&msgs[0]), "got": e.to_string()}));
    }
    if place(e.span()) != at(&msgs[0]) {
        out.push(json!({"what": "span", "error": k, "want": at(&msgs[0]), "got": place(e.span())}));
    }
    let ts: Vec<TokenTree> = e.to_compile_error().into_iter().collect();
    // invocations: three token trees each, and a semicolon unless they end in braces
    let mut calls: Vec<Vec<TokenTree>> = vec![];
    let mut left = ts.as_slice();
    while left.len() >= 3 {
        let braces = matches!(&left[2], TokenTree::Group(g) if g.delimiter() == proc_macro2::Delimiter::Brace);
        let semi = matches!(left.get(3), Some(TokenTree::Punct(p)) if p.as_char() == ';');
        if !braces && !semi { break }
        calls.push(left[..3].to_vec());
        left = &left[if semi { 4 } else { 3 }..];
    }
    if calls.len() != msgs.len() || !left.is_empty() {
        out.push(json!({"what": "invocations", "error": k, "want": msgs.len(), "got": calls.len(), "left over": left.len()}));
        return;
    }
    for (m, c) in msgs.iter().zip(&calls) {
        let ok = match c.as_slice() {
            [TokenTree::Ident(i), TokenTree::Punct(p), TokenTree::Group(g)] => {
                let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                let lit = match inner.as_slice() {
                    [TokenTree::Literal(l)] => l.to_string(),
                    _ => "?".into(),
                };
                let (a, b) = at(m);
                let whole = |k: &str| m[k].as_u64().unwrap() as usize;
                let exact = proc_macro2::Literal::string(&text(m)).to_string();
                let first = place(i.span());
                let last = place(g.span());
                i == "compile_error" && p.as_char() == '!' && lit == exact && first == (a, whole("c")) && last == (whole("d"), b)
                    && place(p.span()).0 == a && inner.iter().all(|t| place(t.span()).1 == b)
            }
            _ => false,
        };
        if !ok {
            out.push(json!({"what": "invocation", "error": k, "want": [json!(text(m)), m.clone()],
                "got": c.iter().map(|t| json!([t.to_string(), json!(place(t.span()))])).collect::<Vec<_>>()}));
        }
    }
}

fn drive_errors(v: &Value) -> Vec<Value> {
    let mut live: Vec<Option<Error>> = vec![];
    for op in v["hist"].as_array().unwrap() {
        let text = say(op["t"].as_u64().unwrap() as usize);
        let (a, b) = (op["a"].as_u64().unwrap() as usize, op["b"].as_u64().unwrap() as usize);
        match op["op"].as_str().unwrap() {
            "new" => live.push(Some(Error::new(text))),
            "at_span" => live.push(Some(Error::new_at_span(span_of(a - 1).join(span_of(b - 1)).unwrap(), text))),
            "at_tokens" => live.push(Some(Error::new_at_tokens(part(a, b), text))),
            "clone" => live.push(live[a - 1].clone()),
            "combine" => {
                let other = live[b - 1].take().unwrap();
                live[a - 1].as_mut().unwrap().combine(other);
            }
            x => panic!("{x}"),
        }
    }
    let mut out = vec![];
    for (k, msgs) in v["live"].as_array().unwrap().iter().enumerate() {
        let msgs = msgs.as_array().unwrap();
        if let (false, Some(e)) = (msgs.is_empty(), &live[k]) {
            check_error(e, msgs, k + 1, &mut out);
        }
    }
    out
}

pub fn errors(lines: impl Iterator<Item = String>, out: &mut impl Write) {
    let (mut cases, mut ops) = (0, 0);
    for line in lines {
        let v: Value = serde_json::from_str(&line).unwrap();
        crate::watch(&line);
        cases += 1;
        ops += v["hist"].as_array().unwrap().len();
        let bad = quiet(|| drive_errors(&v)).unwrap_or_else(|_| vec![json!({"what": "panic"})]);
        if !bad.is_empty() {
            writeln!(out, "{}", json!({"mismatch": bad, "t": [], "case": v})).unwrap();
        }
    }
    writeln!(out, "{}", json!({"stats": {"cases": cases, "runs": cases, "tokens": ops}})).unwrap();
}
