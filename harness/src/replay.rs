//! Replay behaviours of the specification on the real parser and compare.

use crate::observe::*;
use crate::proj::*;
use crate::props::Prop;
use crate::rename::Renaming;
use crate::tok::*;
use serde_json::{json, Value};
use std::io::Write;
use venial::Item;

pub fn strings(v: &Value) -> Vec<String> {
    v.as_array().map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect()).unwrap_or_default()
}

pub struct Case {
    pub toks: Vec<String>,
    pub entry: String,
    pub r: String,
    pub p: usize,
    pub at: usize,
    pub labs: Vec<Lab>,
    pub nodes: Vec<(Lab, usize, usize)>,
    pub items: Option<Vec<(String, usize, usize, usize)>>,
    pub obs: Value,
    pub odd: bool,
}

fn num(v: &Value, k: &str) -> usize {
    v[k].as_u64().unwrap_or(0) as usize
}

/// The nodes of VenialView.tla (Nodes): every label prefix, with the tokens it covers.
pub fn nodes_of(labs: &[Lab]) -> Vec<(Lab, usize, usize)> {
    let mut m: std::collections::BTreeMap<Lab, (usize, usize)> = Default::default();
    for (i, l) in labs.iter().enumerate() {
        for n in 0..=l.len() {
            if n + 1 == l.len() && l[n] == "comma" { continue }
            let e = m.entry(l[..n].to_vec()).or_insert((i, i));
            e.1 = i;
        }
    }
    m.into_iter().map(|(l, (a, b))| (l, a, b)).collect()
}

pub fn case(v: &Value) -> Case {
    let mut c = case_as_given(v);
    if c.r == "ok" && !c.labs.is_empty() {
        let mine = nodes_of(&c.labs);
        if !c.nodes.is_empty() {
            let mut given = c.nodes.clone();
            given.sort();
            assert_eq!(given, mine, "nodes of the report");
        }
        c.nodes = mine;
    }
    c
}

fn case_as_given(v: &Value) -> Case {
    let res = &v["res"];
    Case {
        toks: strings(&v["t"]),
        entry: v["e"].as_str().unwrap_or("item").to_string(),
        r: res["r"].as_str().unwrap().to_string(),
        p: num(res, "p"),
        at: num(res, "at"),
        labs: res["labs"].as_array().map(|a| a.iter().map(strings).collect()).unwrap_or_default(),
        nodes: v["nodes"].as_array().map(|a| a.iter().map(|n| (strings(&n["n"]), num(n, "a") - 1, num(n, "b") - 1)).collect()).unwrap_or_default(),
        items: res["items"].as_array().map(|a| {
            a.iter().map(|i| (i["r"].as_str().unwrap().to_string(), num(i, "from"), num(i, "p"), num(i, "at"))).collect()
        }),
        obs: v["obs"].clone(),
        odd: v["odd"] == true,
    }
}

fn bare(f: &Flat) -> (&str, Option<bool>) {
    (&f.text, f.joint)
}

fn show(v: &[Flat]) -> String {
    v.iter().map(|f| format!("{}{}", f.text, if f.joint == Some(true) { "_" } else { "" })).collect::<Vec<_>>().join(" ")
}

/// Compare what was seen of the tokens from..p with what the specification says.
fn compare(prop: &Prop, c: &Case, want: (&str, usize, usize), from: usize, seen: &Seen, r: Render, out: &mut Vec<Value>) {
    let (wr, wp, wat) = want;
    if seen.r != wr {
        if prop.outcome(wr, seen.r, c.odd) {
            out.push(json!({"what": "outcome", "want": wr, "got": seen.r, "at": seen.at}));
        }
        return;
    }
    if wr == "err" && prop.outcome("err", "err", c.odd) && (seen.at != wat || seen.p != wp) {
        out.push(json!({"what": "error location", "want": [wat, wp], "got": [seen.at, seen.p]}));
        return;
    }
    if wr != "ok" {
        return;
    }
    if seen.p != wp && prop.id != "C10" {
        out.push(json!({"what": "consumed", "want": wp, "got": seen.p}));
    }
    let lo = from - 1;
    let hi = wp - 1;
    for i in lo..hi {
        let got = one(&seen.labs[i]);
        let want = &c.labs[i];
        if &got != want && (prop.label(&got) || prop.label(want)) {
            out.push(json!({"what": "part", "token": i + 1, "text": c.toks[i], "want": want.join("."), "got": got.join(".")}));
        }
    }
    for i in hi.max(lo)..c.toks.len() {
        if !seen.labs[i].is_empty() && prop.label(&seen.labs[i][0]) {
            out.push(json!({"what": "token of a later declaration", "token": i + 1, "got": seen.labs[i][0].join(".")}));
        }
    }
    for (l, t, why) in &seen.alien {
        if (*why == "span" && prop.spans()) || (*why == "text" && prop.label(l)) {
            out.push(json!({"what": format!("foreign token ({why})"), "part": l.join("."), "text": t}));
        }
    }
    for (l, why) in &seen.shape {
        if prop.shape(l, why) {
            out.push(json!({"what": why, "part": l.join(".")}));
        }
    }
    let input: Vec<Flat> = (lo..hi).filter(|&i| c.labs[i] != ["invisible"]).map(|i| expected_flat(&c.toks, i, r)).collect();
    if prop.prints() || prop.id == "C12" || prop.id == "C19" {
        if input.iter().map(bare).ne(seen.printed.iter().map(bare)) {
            out.push(json!({"what": "printed tokens differ", "want": show(&input), "got": show(&seen.printed)}));
        }
    }
    if prop.spans() {
        for (k, (a, b)) in input.iter().zip(&seen.printed).enumerate() {
            if a.at != b.at && a.text == b.text {
                out.push(json!({"what": "span of printed token", "token": k + 1, "text": a.text, "got": b.at.map(|x| x + 1)}));
            }
        }
    }
    if (prop.prints() || prop.spans()) && !c.nodes.is_empty() {
        for n in &seen.nodes {
            let found = c.nodes.iter().find(|(p, _, _)| p == &n.path);
            let (a, b) = match found {
                Some((_, a, b)) => (*a, *b),
                None => {
                    if prop.prints() && !n.printed.is_empty() {
                        out.push(json!({"what": "node without tokens prints", "node": n.path.join("."), "kind": n.kind, "got": show(&n.printed)}));
                    }
                    continue;
                }
            };
            let range: Vec<usize> = (a..=b).filter(|&i| c.labs[i] != ["invisible"]).collect();
            if prop.prints() {
                let want: Vec<Flat> = range.iter().map(|&i| expected_flat(&c.toks, i, r)).collect();
                if want.iter().map(bare).ne(n.printed.iter().map(bare)) {
                    out.push(json!({"what": "printed node differs", "node": n.path.join("."), "kind": n.kind, "want": show(&want), "got": show(&n.printed)}));
                }
            }
            if prop.spans() {
                if let Some(span) = n.span {
                    let got = range_of(span).map(|(x, y)| (x, y));
                    if got != Some((a, b)) {
                        out.push(json!({"what": "span of node", "node": n.path.join("."), "kind": n.kind,
                            "want": [a + 1, b + 1], "got": got.map(|(x, y)| [x + 1, y + 1])}));
                    }
                }
            }
        }
    }
}

fn compare_obs(prop: &Prop, c: &Case, item: &Item, out: &mut Vec<Value>) {
    let Some(want) = c.obs.as_array().filter(|a| !a.is_empty()) else { return };
    let got = match quiet(|| {
        let mut o = crate::obs::Obs(Default::default());
        o.item(item, &vec![]);
        o.0
    }) {
        Ok(g) => g,
        Err(()) => {
            out.push(json!({"what": "a query method panics"}));
            return;
        }
    };
    let mut left = got.clone();
    for w in want {
        let key = (strings(&w["n"]).join("."), w["q"].as_str().unwrap().to_string());
        let s = strings(&w["s"]);
        let p: Vec<Vec<usize>> = w["p"].as_array().unwrap().iter()
            .map(|v| v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect()).collect();
        left.remove(&key);
        if !prop.query(&key.1) { continue }
        match got.get(&key) {
            Some(g) if g.0 == s && g.1 == p => {}
            g => out.push(json!({"what": "query", "node": key.0, "query": key.1, "want": [json!(s), json!(p)],
                "got": g.map(|g| json!([json!(g.0), json!(g.1)]))})),
        }
    }
    for (k, v) in left {
        if !prop.query(&k.1) { continue }
        out.push(json!({"what": "query", "node": k.0, "query": k.1, "want": null, "got": [json!(v.0), json!(v.1)]}));
    }
}

/// The same case in other words.
fn renamed(c: &Case, salt: u64) -> Case {
    let mut n = Renaming::new(&c.toks, true, salt);
    let toks = n.all(&c.toks);
    let obs = crate::rename::obs(&c.obs, &mut n);
    Case { toks, entry: c.entry.clone(), r: c.r.clone(), p: c.p, at: c.at, labs: c.labs.clone(), nodes: c.nodes.clone(), items: c.items.clone(), obs, odd: c.odd }
}

/// Data independence (C20): the case in several spacings and wordings.  They all have to be read as the
/// specification says, or none of them (which is then a matter of other properties).
fn run_alike(c: &Case, out: &mut Vec<Value>) -> usize {
    let prop = Prop { id: "ALL".into() };
    let mut verdicts = vec![];
    for r in [Render::Loose, Render::Tight] {
        let mut bad = vec![];
        run_renders(&prop, c, &[r], &mut bad);
        verdicts.push((c.toks.join(" "), bad));
    }
    for salt in 0..4 {
        let n = renamed(c, salt);
        if n.toks == c.toks { break }
        let mut bad = vec![];
        run_renders(&prop, &n, &[if salt & 1 == 0 { Render::Loose } else { Render::Tight }], &mut bad);
        verdicts.push((n.toks.join(" "), bad));
    }
    if let Some(good) = verdicts.iter().find(|v| v.1.is_empty()) {
        for (t, bad) in &verdicts {
            for b in bad {
                out.push(json!({"what": "read differently", "alike": good.0, "tokens": t, "departs": b}));
            }
        }
    }
    verdicts.len()
}

pub fn run_case(prop: &Prop, c: &Case, out: &mut Vec<Value>) -> usize {
    if prop.id == "C20" { return run_alike(c, out) }
    let mut runs = run_renders(prop, c, &[Render::Loose, Render::Tight], out);
    if out.is_empty() {
        let n = renamed(c, 0);
        if n.toks != c.toks {
            runs += run_renders(prop, &n, &[if crate::rename::hash(&c.toks) & 1 == 0 { Render::Loose } else { Render::Tight }], out);
            for v in out.iter_mut() { v["renamed"] = json!(n.toks.join(" ")) }
        }
    }
    runs
}

fn run_renders(prop: &Prop, c: &Case, renders: &[Render], out: &mut Vec<Value>) -> usize {
    let mut runs = 0;
    for &r in renders {
        let Some(ts) = build(&c.toks, r) else {
            out.push(json!({"what": "harness: unbalanced case"}));
            return runs;
        };
        let before = out.len();
        runs += 1;
        if c.entry == "path" || c.entry == "pred" {
            let seen = if c.entry == "path" { path(ts, &c.toks) } else { pred(ts, &c.toks) };
            compare(prop, c, (&c.r, c.p, c.at), 1, &seen, r, out);
        } else if let Some(items) = &c.items {
            let mut it = ts.into_iter().peekable();
            for (k, (wr, from, p, at)) in items.iter().enumerate() {
                let seen = consume(&mut it, &c.toks, &vec![(k + 1).to_string()]);
                compare(prop, c, (wr, *p, *at), *from, &seen, r, out);
                // the same declaration alone
                if wr == "ok" && out.len() == before {
                    let alone = c.toks[from - 1..p - 1].to_vec();
                    let sub = Case { toks: alone.clone(), entry: "item".into(), r: "ok".into(), p: alone.len() + 1, at: 0,
                        labs: c.labs[from - 1..p - 1].iter().map(|l| l[1..].to_vec()).collect(),
                        nodes: c.nodes.iter().filter(|n| n.0.first() == Some(&(k + 1).to_string()))
                            .map(|n| (n.0[1..].to_vec(), n.1 + 1 - from, n.2 + 1 - from)).collect(),
                        items: None, obs: Value::Null, odd: c.odd };
                    let ts = build(&alone, r).unwrap();
                    let seen = consume_stream(ts, &alone);
                    compare(prop, &sub, ("ok", sub.p, 0), 1, &seen, r, out);
                }
                if wr == "err" && out.len() == before {
                    let alone = c.toks[from - 1..p - 1].to_vec();
                    let sub = Case { toks: alone.clone(), entry: "item".into(), r: "err".into(), p: alone.len() + 1, at: at + 1 - from,
                        labs: vec![], nodes: vec![], items: None, obs: Value::Null, odd: c.odd };
                    let seen = consume_stream(build(&alone, r).unwrap(), &alone);
                    compare(prop, &sub, ("err", sub.p, sub.at), 1, &seen, r, out);
                }
                if (seen.r != "ok" && seen.r != "err") || out.len() > before { break }
            }
            if out.len() == before && c.r == "ok" && it.peek().is_some() {
                out.push(json!({"what": "tokens left after the last declaration"}));
            }
            if out.len() == before && items.len() > 1 {
                let (pr, _) = parse_outcome(build(&c.toks, r).unwrap());
                if pr == "ok" && prop.leftovers() {
                    out.push(json!({"what": "parse_item accepted leftover tokens"}));
                }
            }
        } else {
            let seen = consume_stream(ts.clone(), &c.toks);
            compare(prop, c, (&c.r, c.p, c.at), 1, &seen, r, out);
            if let (true, Some(item)) = (prop.obs() && out.len() == before && c.r == "ok", &seen.item) {
                compare_obs(prop, c, item, out);
            }
            // parse_item: the same, without leftovers
            if out.len() == before {
                let want = if c.p != c.toks.len() + 1 && (c.r == "ok" || c.r == "err") { "fail" } else { c.r.as_str() };
                let (pr, pat) = parse_outcome(ts);
                if pr != want && (prop.outcome(want, pr, c.odd) && (prop.leftovers() || (want == "ok" && prop.id == "C02"))) {
                    out.push(json!({"what": "parse_item outcome", "want": want, "got": pr}));
                } else if want == "err" && pr == "err" && pat != c.at && prop.outcome("err", "err", c.odd) {
                    out.push(json!({"what": "parse_item error location", "want": c.at, "got": pat}));
                }
            }
        }
        if out.len() > before {
            for v in &mut out[before..] { v["render"] = json!(format!("{r:?}")); }
            return runs;
        }
    }
    runs
}

pub fn main(lines: impl Iterator<Item = String>, out: &mut impl Write, prop: &str, odd: bool) {
    let prop = Prop { id: prop.to_string() };
    let (mut cases, mut runs, mut tokens) = (0usize, 0usize, 0usize);
    for line in lines {
        if line.is_empty() { continue }
        let mut v: Value = serde_json::from_str(&line).unwrap();
        if odd { v["odd"] = json!(true) }
        let c = case(&v);
        crate::watch(&line);
        cases += 1;
        tokens += c.toks.len();
        let mut bad = vec![];
        runs += run_case(&prop, &c, &mut bad);
        if !bad.is_empty() {
            writeln!(out, "{}", json!({"mismatch": bad, "t": c.toks, "case": v})).unwrap();
        }
    }
    writeln!(out, "{}", json!({"stats": {"cases": cases, "runs": runs, "tokens": tokens}})).unwrap();
}
