//! Token streams of the specification <-> proc_macro2 token streams.
//!
//! A stream is a flat list of token strings, as in VenialTokens.tla.  Token i
//! (0-based) gets the span of the i-th word of one shared dummy source, so that
//! a token can be recognised by its span wherever it turns up again.

use proc_macro2::{Delimiter, Group, Ident, Literal, Punct, Spacing, Span, TokenStream, TokenTree};
use std::cell::RefCell;

thread_local! {
    static SPANS: RefCell<Vec<Span>> = const { RefCell::new(Vec::new()) };
}

pub fn span_of(i: usize) -> Span {
    SPANS.with(|s| {
        let mut s = s.borrow_mut();
        while s.len() <= i {
            assert!(s.is_empty(), "stream too long");
            let src = "a ".repeat((i + 1).max(1 << 16));
            let ts: TokenStream = src.parse().unwrap();
            *s = ts.into_iter().map(|t| t.span()).collect();
        }
        s[i]
    })
}

/// Reserve room for streams of n tokens (before the first use).
pub fn reserve(n: usize) {
    span_of(n);
}

/// (first, last) token index covered by a span of our own; None for foreign spans.
pub fn range_of(span: Span) -> Option<(usize, usize)> {
    let (a, b) = (span.start(), span.end());
    if a.line != b.line || a.line != span_of(0).start().line || b.column <= a.column {
        return None;
    }
    Some((a.column / 2, (b.column - 1) / 2))
}

pub fn index_of(span: Span) -> Option<usize> {
    match range_of(span) {
        Some((a, b)) if a == b => Some(a),
        _ => None,
    }
}

/// How punctuation is spaced.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Render {
    /// As written with a space between tokens: only `'`, the first character of `->` and the
    /// first colon of `::` are joint.
    Loose,
    /// Every punctuation character directly followed by another one is joint (except for colons,
    /// whose spacing the specification fixes).
    Tight,
}

fn is_punct(t: &str) -> bool {
    t == ":^" || (t.len() == 1 && "~!@#$%^&*-=+|;:,<.>/?'".contains(t))
}

pub fn is_open(t: &str) -> bool {
    matches!(t, "(" | "[" | "{" | "/(")
}
pub fn is_close(t: &str) -> bool {
    matches!(t, ")" | "]" | "}" | "/)")
}

fn delim(t: &str) -> Delimiter {
    match t {
        "(" => Delimiter::Parenthesis,
        "[" => Delimiter::Bracket,
        "{" => Delimiter::Brace,
        _ => Delimiter::None,
    }
}

pub fn spacing(toks: &[String], i: usize, r: Render) -> Spacing {
    let t = toks[i].as_str();
    let next = toks.get(i + 1).map(|s| s.as_str()).unwrap_or("");
    match t {
        ":^" => Spacing::Joint,
        ":" => Spacing::Alone,
        "'" => Spacing::Joint,
        "-" if next == ">" => Spacing::Joint,
        _ if r == Render::Tight && is_punct(next) && next != "'" => Spacing::Joint,
        _ => Spacing::Alone,
    }
}

/// One leaf token.
fn leaf(toks: &[String], i: usize, r: Render) -> TokenTree {
    let t = toks[i].as_str();
    if is_punct(t) {
        let mut p = Punct::new(t.chars().next().unwrap(), spacing(toks, i, r));
        p.set_span(span_of(i));
        p.into()
    } else if t.starts_with(|c: char| c.is_ascii_digit()) || t.contains('"') || t.contains('\'') {
        let mut l: Literal = t.parse().unwrap();
        l.set_span(span_of(i));
        l.into()
    } else if let Some(raw) = t.strip_prefix("r#") {
        Ident::new_raw(raw, span_of(i)).into()
    } else {
        Ident::new(t, span_of(i)).into()
    }
}

/// Build the stream; None if the delimiters are not well nested.
pub fn build(toks: &[String], r: Render) -> Option<TokenStream> {
    let mut stack: Vec<(usize, Vec<TokenTree>)> = vec![(usize::MAX, vec![])];
    for (i, t) in toks.iter().enumerate() {
        if is_open(t) {
            stack.push((i, vec![]));
        } else if is_close(t) {
            let (o, inner) = stack.pop()?;
            if o == usize::MAX || delim(&toks[o]) != delim(match t.as_str() { ")" => "(", "]" => "[", "}" => "{", _ => "/(" }) {
                return None;
            }
            let mut g = Group::new(delim(&toks[o]), inner.into_iter().collect());
            g.set_span(span_of(o).join(span_of(i)).unwrap());
            stack.last_mut()?.1.push(g.into());
        } else {
            stack.last_mut()?.1.push(leaf(toks, i, r));
        }
    }
    let (o, top) = stack.pop()?;
    if o != usize::MAX { return None; }
    Some(top.into_iter().collect())
}

/// A printed token: text, spacing, and where it comes from.
#[derive(Clone, PartialEq, Debug)]
pub struct Flat {
    pub text: String,
    pub joint: Option<bool>,
    pub at: Option<usize>,
}

pub fn flatten(ts: TokenStream, out: &mut Vec<Flat>) {
    for tt in ts {
        flatten_tt(&tt, out)
    }
}

pub fn flatten_tt(tt: &TokenTree, out: &mut Vec<Flat>) {
    match tt {
        TokenTree::Group(g) => {
            let (o, c) = match g.delimiter() {
                Delimiter::Parenthesis => ("(", ")"),
                Delimiter::Bracket => ("[", "]"),
                Delimiter::Brace => ("{", "}"),
                Delimiter::None => ("/(", "/)"),
            };
            let r = range_of(g.span());
            out.push(Flat { text: o.into(), joint: None, at: r.map(|r| r.0) });
            flatten(g.stream(), out);
            out.push(Flat { text: c.into(), joint: None, at: r.map(|r| r.1) });
        }
        TokenTree::Ident(i) => out.push(Flat { text: i.to_string(), joint: None, at: index_of(i.span()) }),
        TokenTree::Punct(p) => out.push(Flat {
            text: p.as_char().to_string(),
            joint: Some(p.spacing() == Spacing::Joint),
            at: index_of(p.span()),
        }),
        TokenTree::Literal(l) => out.push(Flat { text: l.to_string(), joint: None, at: index_of(l.span()) }),
    }
}

pub fn flat(ts: TokenStream) -> Vec<Flat> {
    let mut v = vec![];
    flatten(ts, &mut v);
    v
}

/// What token i of the input looks like when printed.
pub fn expected_flat(toks: &[String], i: usize, r: Render) -> Flat {
    let t = toks[i].as_str();
    let joint = if is_punct(t) { Some(spacing(toks, i, r) == Spacing::Joint) } else { None };
    Flat { text: if t == ":^" { ":".into() } else { t.to_string() }, joint, at: Some(i) }
}

/// Text of flat tokens in the alphabet of the specification (a joint colon is ":^").
pub fn spec_text(f: &Flat) -> String {
    if f.text == ":" && f.joint == Some(true) { ":^".into() } else { f.text.clone() }
}
