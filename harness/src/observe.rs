//! Running the real parser on a token stream and observing everything it says.

use crate::proj::*;
use crate::tok::*;
use proc_macro2::token_stream::IntoIter;
use proc_macro2::TokenStream;
use quote::ToTokens;
use std::iter::Peekable;
use std::panic::{catch_unwind, AssertUnwindSafe};
use venial::*;

#[derive(Default)]
pub struct Seen {
    /// "ok", "err", "fail" (panic) or "none"
    pub r: &'static str,
    /// number of consumed tokens + 1 (1-based position of the next token)
    pub p: usize,
    /// 1-based position of the first token of the error's span (0: none)
    pub at: usize,
    pub labs: Vec<Vec<Lab>>,
    pub alien: Vec<(Lab, String, &'static str)>,
    pub shape: Vec<(Lab, String)>,
    pub nodes: Vec<Node>,
    pub printed: Vec<Flat>,
    pub item: Option<Item>,
}

pub fn quiet<T>(f: impl FnOnce() -> T) -> Result<T, ()> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| ())
}

fn next_pos(it: &mut Peekable<IntoIter>, len: usize) -> usize {
    match it.peek() {
        None => len + 1,
        Some(t) => match range_of(t.span()) {
            Some((a, _)) => a + 1,
            None => 0,
        },
    }
}

fn absorb(seen: &mut Seen, p: Proj) {
    seen.labs = p.labs;
    seen.alien = p.alien;
    seen.shape = p.shape;
    seen.nodes = p.nodes;
}

/// One consume_item call on an iterator over (the rest of) the stream `toks`.
pub fn consume(it: &mut Peekable<IntoIter>, toks: &[String], prefix: &Lab) -> Seen {
    let mut seen = Seen::default();
    match quiet(|| consume_item(it)) {
        Err(()) => seen.r = "fail",
        Ok(Err(e)) => {
            seen.r = "err";
            seen.p = next_pos(it, toks.len());
            seen.at = range_of(e.span()).map_or(0, |r| r.0 + 1);
        }
        Ok(Ok(item)) => {
            seen.r = "ok";
            seen.p = next_pos(it, toks.len());
            let mut p = Proj::new(toks);
            p.item(&item, prefix);
            absorb(&mut seen, p);
            seen.printed = flat(item.to_token_stream());
            seen.item = Some(item);
        }
    }
    seen
}

pub fn consume_stream(ts: TokenStream, toks: &[String]) -> Seen {
    consume(&mut ts.into_iter().peekable(), toks, &vec![])
}

/// parse_item: only the outcome.
pub fn parse_outcome(ts: TokenStream) -> (&'static str, usize) {
    match quiet(|| parse_item(ts)) {
        Err(()) => ("fail", 0),
        Ok(Err(e)) => ("err", range_of(e.span()).map_or(0, |r| r.0 + 1)),
        Ok(Ok(_)) => ("ok", 0),
    }
}

pub fn path(ts: TokenStream, toks: &[String]) -> Seen {
    let mut seen = Seen::default();
    let ty = TypeExpr { tokens: ts.into_iter().collect() };
    match quiet(|| ty.as_path()) {
        Err(()) => seen.r = "fail",
        Ok(None) => seen.r = "none",
        Ok(Some(path)) => {
            seen.r = "ok";
            seen.p = toks.len() + 1;
            let mut p = Proj::new(toks);
            p.path(&path);
            absorb(&mut seen, p);
            seen.printed = flat(path.to_token_stream());
            // The delimiters of an invisible group around the path are not part of it.
            if toks.first().map(|s| s.as_str()) == Some("/(") && toks.last().map(|s| s.as_str()) == Some("/)") {
                let inv = vec!["invisible".to_string()];
                let n = toks.len();
                if seen.labs[0].is_empty() { seen.labs[0].push(inv.clone()) }
                if seen.labs[n - 1].is_empty() { seen.labs[n - 1].push(inv) }
            }
        }
    }
    seen
}

/// WhereClausePredicate::parse.
pub fn pred(ts: TokenStream, toks: &[String]) -> Seen {
    let mut seen = Seen::default();
    match quiet(|| WhereClausePredicate::parse(ts)) {
        Err(()) => seen.r = "fail",
        Ok(w) => {
            seen.r = "ok";
            seen.p = toks.len() + 1;
            let mut p = Proj::new(toks);
            p.wpred(&w, &vec![]);
            absorb(&mut seen, p);
            seen.printed = flat(w.to_token_stream());
        }
    }
    seen
}

/// The label of a token, if it has exactly one.
pub fn one(labs: &[Lab]) -> Lab {
    match labs {
        [l] => l.clone(),
        [] => vec!["?missing".into()],
        _ => vec!["?several".into()],
    }
}
