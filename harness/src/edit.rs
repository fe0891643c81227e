//! Replay of builder behaviours (VenialEdit.tla).

use crate::observe::*;
use crate::proj::Lab;
use crate::replay::strings;
use crate::tok::*;
use proc_macro2::{TokenStream, TokenTree};
use quote::ToTokens;
use serde_json::{json, Value};
use std::io::Write;
use venial::*;

fn texts<T: ToTokens>(x: &T) -> Vec<String> {
    flat(x.to_token_stream()).iter().map(spec_text).collect()
}
fn tt_texts(ts: &[TokenTree]) -> Vec<String> {
    let mut v = vec![];
    for t in ts { flatten_tt(t, &mut v) }
    v.iter().map(spec_text).collect()
}
fn stream(v: &Value, r: Render) -> TokenStream {
    build(&strings(v), r).unwrap()
}
fn lists(v: &Value) -> Vec<Vec<String>> {
    v.as_array().unwrap().iter().map(strings).collect()
}

fn param(e: &Value, r: Render) -> GenericParam {
    let name = e["name"].as_str().unwrap();
    let ts = || stream(&e["ts"], r).into_iter().collect();
    match e["kind"].as_str().unwrap() {
        "lifetime" => GenericParam::lifetime(name),
        "bounded_lifetime" => GenericParam::bounded_lifetime(name, ts()),
        "ty" => GenericParam::ty(name),
        "bounded_ty" => GenericParam::bounded_ty(name, ts()),
        "const_param" => GenericParam::const_param(name, ts()),
        x => panic!("{x}"),
    }
}

fn apply(item: Item, e: &Value, r: Render) -> Item {
    macro_rules! ap {
        ($d:expr) => {
            if e["op"] == "param" { $d.with_param(param(e, r)) } else { $d.with_where_predicate(WhereClausePredicate::parse(stream(&e["ts"], r))) }
        };
    }
    match item {
        Item::Struct(d) => Item::Struct(ap!(d)),
        Item::Enum(d) => Item::Enum(ap!(d)),
        Item::Union(d) => Item::Union(ap!(d)),
        mut item => {
            let (gen, wher) = lists_mut(&mut item);
            if e["op"] == "param" {
                *gen = Some(gen.take().unwrap_or_default().with_param(param(e, r)));
            } else {
                let p = WhereClausePredicate::parse(stream(&e["ts"], r));
                *wher = Some(match wher.take() { Some(w) => w.with_predicate(p), None => WhereClause::from_predicate(p) });
            }
            item
        }
    }
}

/// The lists of an item without builder methods of its own.
fn lists_mut(item: &mut Item) -> (&mut Option<GenericParamList>, &mut Option<WhereClause>) {
    match item {
        Item::Function(d) => (&mut d.generic_params, &mut d.where_clause),
        Item::Trait(d) => (&mut d.generic_params, &mut d.where_clause),
        Item::Impl(d) => (&mut d.impl_generic_params, &mut d.where_clause),
        _ => panic!("no generics"),
    }
}

struct Data<'a> {
    gen: Option<&'a GenericParamList>,
    wher: Option<&'a WhereClause>,
    fields: Vec<String>,
    inline: Option<InlineGenericArgs<'a>>,
}

fn data(item: &Item) -> Data<'_> {
    match item {
        Item::Struct(d) => Data { gen: d.generic_params.as_ref(), wher: d.where_clause.as_ref(), fields: texts(&d.fields), inline: d.get_inline_generic_args() },
        Item::Enum(d) => Data {
            gen: d.generic_params.as_ref(), wher: d.where_clause.as_ref(),
            fields: [vec!["{".to_string()], texts(&d.variants), vec!["}".to_string()]].concat(),
            inline: d.get_inline_generic_args(),
        },
        Item::Union(d) => Data { gen: d.generic_params.as_ref(), wher: d.where_clause.as_ref(), fields: texts(&d.fields), inline: d.get_inline_generic_args() },
        Item::Function(d) => listed(&d.generic_params, &d.where_clause),
        Item::Trait(d) => listed(&d.generic_params, &d.where_clause),
        Item::Impl(d) => listed(&d.impl_generic_params, &d.where_clause),
        _ => panic!(),
    }
}

fn listed<'a>(g: &'a Option<GenericParamList>, w: &'a Option<WhereClause>) -> Data<'a> {
    Data { gen: g.as_ref(), wher: w.as_ref(), fields: vec![], inline: g.as_ref().map(|g| g.as_inline_args()) }
}

fn derive(item: &Item, t: TokenStream) -> WhereClause {
    match item {
        Item::Struct(d) => d.create_derive_where_clause(t),
        Item::Enum(d) => d.create_derive_where_clause(t),
        Item::Union(d) => d.create_derive_where_clause(t),
        _ => panic!(),
    }
}

/// Apostrophes that would not be glued to their name.
fn loose_quotes(ts: TokenStream) -> Vec<String> {
    let f = flat(ts);
    (0..f.len()).filter(|&i| f[i].text == "'" && f[i].joint != Some(true)).map(|i| f.get(i + 1).map_or("".into(), |x| x.text.clone())).collect()
}

fn join(els: &[Vec<String>], trail: bool) -> Vec<String> {
    let mut v = vec![];
    for (i, e) in els.iter().enumerate() {
        v.extend(e.iter().cloned());
        if i + 1 < els.len() || (trail && !els.is_empty()) { v.push(",".into()) }
    }
    v
}

fn check_build(item: &Item, v: &Value, out: &mut Vec<Value>) {
    let d = data(item);
    let params: Vec<Vec<String>> = d.gen.map_or(vec![], |g| g.params.items().map(texts).collect());
    if params != lists(&v["params"]) {
        out.push(json!({"what": "parameters", "want": v["params"], "got": params}));
    }
    for (i, p) in d.gen.map_or(vec![], |g| g.params.items().collect()).into_iter().enumerate() {
        let sort = if p.is_lifetime() { "lifetime" } else if p.is_const() { "const" } else { "ty" };
        if v["sorts"][i] != sort || v["names"][i] != p.name.to_string().as_str() {
            out.push(json!({"what": "parameter", "index": i, "want": [v["sorts"][i], v["names"][i]], "got": [sort, &p.name.to_string()]}));
        }
    }
    let preds: Vec<Vec<String>> = d.wher.map_or(vec![], |g| g.items.items().map(texts).collect());
    if preds != lists(&v["preds"]) {
        out.push(json!({"what": "predicates", "want": v["preds"], "got": preds}));
    } else if let Some(w) = d.wher {
        for (i, p) in w.items.items().enumerate() {
            if v["lefts"][i] != tt_texts(&p.left_side).len() {
                out.push(json!({"what": "left side of predicate", "index": i, "want": v["lefts"][i], "got": tt_texts(&p.left_side)}));
            }
        }
    }
    if d.fields != strings(&v["fields"]) {
        out.push(json!({"what": "fields", "want": v["fields"], "got": d.fields}));
    }
    let printed = texts(item);
    let Some(var) = v["variants"].as_array().unwrap().iter().find(|x| strings(&x["t"]) == printed) else {
        out.push(json!({"what": "printed", "want": v["variants"][0]["t"], "got": printed}));
        return;
    };
    let f = flat(item.to_token_stream());
    if (1..f.len()).any(|i| f[i - 1].text == "-" && f[i].text == ">" && f[i - 1].joint != Some(true)) {
        out.push(json!({"what": "an arrow fell apart"}));
    }
    for q in loose_quotes(item.to_token_stream()) {
        let call = v["edits"].as_array().unwrap().iter().find(|e| e["name"] == q.as_str() && e["op"] == "param").map(|e| &e["kind"]);
        out.push(json!({"what": "apostrophe spacing", "name": q, "call": call}));
    }
    // what was printed parses back to the same, as it is and token by token
    match quiet(|| parse_item(item.to_token_stream())) {
        Ok(Ok(again)) => {
            let e = data(&again);
            let same = texts(&again) == printed && e.fields == d.fields
                && e.gen.map(|g| g.params.items().map(texts).collect::<Vec<_>>()) == d.gen.map(|g| g.params.items().map(texts).collect::<Vec<_>>())
                && e.wher.map(|g| g.items.items().map(texts).collect::<Vec<_>>()) == d.wher.map(|g| g.items.items().map(texts).collect::<Vec<_>>());
            if !same {
                out.push(json!({"what": "parsed again", "want": printed, "got": texts(&again)}));
            }
        }
        _ => out.push(json!({"what": "printed item does not parse", "printed": printed})),
    }
    let seen = consume_stream(build(&printed, Render::Loose).unwrap(), &printed);
    if seen.r != "ok" || seen.p != printed.len() + 1 {
        out.push(json!({"what": "printed item does not parse", "got": seen.r, "printed": printed}));
        return;
    }
    let want: Vec<Lab> = var["labs"].as_array().unwrap().iter().map(strings).collect();
    for (i, w) in want.iter().enumerate() {
        if one(&seen.labs[i]) != *w {
            out.push(json!({"what": "reparsed part", "token": i + 1, "want": w.join("."), "got": one(&seen.labs[i]).join(".")}));
        }
    }
}

fn check_derived(item: &Item, v: &Value, r: Render, out: &mut Vec<Value>) {
    let d = data(item);
    let args = lists(&v["inline"]);
    let forms: Vec<Vec<String>> = [false, true].iter().map(|t| [vec!["<".to_string()], join(&args, *t), vec![">".to_string()]].concat()).collect();
    if d.inline.is_some() != (v["hasGen"] == true) {
        out.push(json!({"what": "inline arguments present", "want": v["hasGen"], "got": d.inline.is_some()}));
        return;
    }
    if let (Some(inline), Some(gen)) = (d.inline, d.gen) {
        for (what, got) in [("inline arguments", texts(&inline)), ("as_inline_args", texts(&gen.as_inline_args())), ("owned arguments", texts(&inline.to_owned_args()))] {
            if !forms.contains(&got) {
                out.push(json!({"what": what, "want": forms[0], "got": got}));
            }
        }
        if flat(inline.to_token_stream()).last().is_some_and(|f| f.joint == Some(true)) {
            out.push(json!({"what": "inline arguments run into what follows"}));
        }
        let owned = inline.to_owned_args();
        let kinds: Vec<(String, Vec<String>)> = owned.args.items().map(|a| match a {
            GenericArg::Lifetime { lifetime } => ("lifetime".to_string(), vec![lifetime.tk_apostrophe.as_char().to_string(), lifetime.name.to_string()]),
            GenericArg::TypeOrConst { expr } => ("expr".to_string(), tt_texts(&expr.tokens)),
            _ => ("other".to_string(), vec![]),
        }).collect();
        let want: Vec<(String, Vec<String>)> = args.iter().zip(v["sorts"].as_array().unwrap())
            .map(|(a, s)| (if s == "lifetime" { "lifetime" } else { "expr" }.to_string(), a.clone())).collect();
        if kinds != want {
            out.push(json!({"what": "owned argument kinds", "want": want, "got": kinds}));
        }
        if owned.tk_turbofish_colons.is_some() {
            out.push(json!({"what": "turbofish in owned arguments"}));
        }
    }
    for dv in v["derived"].as_array().unwrap() {
        let w = derive(item, stream(&dv["trait"], r));
        let preds: Vec<Vec<String>> = w.items.items().map(texts).collect();
        let (mut a, mut b) = (preds.clone(), lists(&dv["preds"]));
        a.sort();
        b.sort();
        if a != b {
            out.push(json!({"what": "derived where clause", "trait": dv["trait"], "want": dv["preds"], "got": preds}));
        }
        // each predicate is split at its own colon
        for p in w.items.items() {
            let ts = texts(p);
            let left = tt_texts(&p.left_side);
            let want = v["preds"].as_array().unwrap().iter().position(|d| strings(d) == ts).map_or(1, |i| v["lefts"][i].as_u64().unwrap() as usize);
            if left.len() != want || ts[..left.len()] != left[..] {
                out.push(json!({"what": "left side of a derived predicate", "want": want, "got": left, "predicate": ts}));
            }
        }
        let printed = texts(&w);
        let forms: Vec<Vec<String>> = [false, true].iter().map(|t| [vec!["where".to_string()], join(&preds, *t)].concat()).collect();
        if !forms.contains(&printed) {
            out.push(json!({"what": "derived where clause printed", "want": forms[0], "got": printed}));
        }
    }
}

/// The same case with other names.
fn renamed(v: &Value) -> Value {
    let mut n = crate::rename::Renaming::new(&strings(&v["base"]), false, 0);
    let mut w = v.clone();
    for k in ["base", "params", "preds", "names", "fields", "inline"] { w[k] = n.names_in(&v[k]) }
    for e in w["edits"].as_array_mut().unwrap() { for k in ["name", "ts"] { e[k] = n.names_in(&e[k]) } }
    for x in w["variants"].as_array_mut().unwrap() { x["t"] = n.names_in(&x["t"]) }
    for d in w["derived"].as_array_mut().unwrap() { for k in ["trait", "preds"] { d[k] = n.names_in(&d[k]) } }
    w
}

pub fn main(lines: impl Iterator<Item = String>, out: &mut impl Write, prop: &str) {
    let (mut cases, mut ops) = (0, 0);
    for line in lines {
        let v: Value = serde_json::from_str(&line).unwrap();
        crate::watch(&line);
        cases += 1;
        let edits = v["edits"].as_array().unwrap();
        ops += edits.len() + 1;
        let w = renamed(&v);
        for (r, v) in [(Render::Loose, &v), (Render::Tight, &v), (Render::Loose, &w)] {
            let edits = v["edits"].as_array().unwrap();
            let bad = quiet(|| {
                let mut item = parse_item(build(&strings(&v["base"]), r).unwrap()).unwrap();
                for e in edits { item = apply(item, e, r) }
                let mut out = vec![];
                if prop != "C15" { check_build(&item, v, &mut out) }
                if prop != "C14" { check_derived(&item, v, r, &mut out) }
                out
            }).unwrap_or_else(|_| vec![json!({"what": "panic"})]);
            if !bad.is_empty() {
                writeln!(out, "{}", json!({"mismatch": bad, "t": v["base"], "case": v})).unwrap();
                break;
            }
        }
    }
    writeln!(out, "{}", json!({"stats": {"cases": cases, "runs": cases, "tokens": ops}})).unwrap();
}
