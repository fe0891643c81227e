//! Renaming of what the specification treats alike: identifiers that are no words of the grammar, and literals
//! (VenialTokens.tla, Renamed; VenialGen.tla, Symmetric).

use crate::replay::strings;
use crate::tok::{is_close, is_open};
use serde_json::Value;
use std::collections::HashMap;

/// `Keywords` of VenialTokens.tla, and the underscore, which is not a name.
const KEYWORDS: &[&str] = &[
    "as", "async", "const", "crate", "default", "enum", "extern", "fn", "for", "impl", "in", "mod", "mut", "pub", "self", "static", "struct",
    "super", "trait", "type", "union", "unsafe", "use", "where", "_",
];

const NAMES: &[&str] = &[
    "structure", "selfish", "Selfie", "where_", "fnord", "pub_", "r#struct", "r#type", "été", "日本語", "_0", "__", "STRUCT", "Enum", "UNION", "PUB", "Where", "SELF",
    "Const", "unions", "defaulted", "constant", "asynchronous", "externs", "implied", "modest", "mutable", "statics", "traits", "types",
    "used", "inner", "forward", "cratered", "superb", "enumeration", "auto", "raw", "safe", "r#where", "r#fn", "r#impl", "r#pub", "a_b_c",
    "x1", "derive", "doc", "cfg", "inline", "repr", "u128", "str", "Send", "Sized", "Phantom", "main", "test", "std", "core", "None", "Some",
    "dyn_", "macro_rules", "i", "O", "l1", "ǅ", "ß", "ﬁ", "A0", "Z", "q", "tk_", "r#true", "bool", "String",
    "Self", "dyn", "ref", "true", "let", "if", "loop", "return", "await", "move", "box", "try", "yield", "priv", "match", "macro", "gen", "r#async", "r#const",
    "r#mut", "r#extern", "MUT", "Unsafe", "Crate", "r#union", "r#default",
];

const STRS: &[&str] = &[
    "\"\"", "\" \"", "\"C\"", "\"rust-intrinsic\"", "\"struct S { a: B, }\"", "\"\\\"\"", "\"\\u{1F600}\\n\"", "r\"\\\"", "r##\"a\"#b\"##", "b\"\\x00\"", "c\"z\"",
    "br#\"q\"q\"#", "\"日本\"", "\"//\"", "\"/* */\"", "\"::<>->\"",
];
const NUMS: &[&str] = &[
    "0", "00", "1_000_000", "340282366920938463463374607431768211455u128", "0b1010_1010u8", "0o777", "0xFFFF_FFFF", "1e10", "1.5e-7f32", "2.", "7usize", "3i8", "1f64",
    "255", "256", "65536", "18446744073709551616", "1_0", "9_u64",
];
const CHARS: &[&str] = &["'a'", "'\\''", "'\\\\'", "'\"'", "'\\u{1F600}'", "'日'", "b'\\xFF'", "'\\0'", "','", "'}'"];

fn is_lit(t: &str) -> bool {
    t.starts_with(|c: char| c.is_ascii_digit()) || t.contains('"') || (t.contains('\'') && t.len() > 1)
}
fn is_plain(t: &str) -> bool {
    t.starts_with(|c: char| c == '_' || c.is_alphabetic()) && !is_lit(t) && !is_open(t) && !is_close(t) && !KEYWORDS.contains(&t)
}

pub fn hash(toks: &[String]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for t in toks {
        for b in t.bytes().chain([0]) {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        }
    }
    crate::record::Rng(h).next()
}

pub struct Renaming {
    h: u64,
    raw: bool,
    names: HashMap<String, String>,
    lits: usize,
}

fn lit(t: &str, k: usize) -> String {
    let pool = if t.contains('"') { STRS } else if t.contains('\'') { CHARS } else { NUMS };
    pool[k % pool.len()].to_string()
}

impl Renaming {
    /// `raw`: raw identifiers may be used.
    pub fn new(toks: &[String], raw: bool, salt: u64) -> Renaming {
        Renaming { h: hash(toks).wrapping_add(salt.wrapping_mul(0x9E3779B97F4A7C15)), raw, names: HashMap::new(), lits: 0 }
    }
    /// A name of its own for each name.
    fn fresh(&self) -> String {
        let k = self.names.len();
        let pool: Vec<&&str> = NAMES.iter().filter(|n| self.raw || !n.starts_with("r#")).collect();
        let n = pool.len();
        let base = pool[(self.h as usize % n + k) % n];
        let s = if k < n { base.to_string() } else { format!("{base}{}", k / n) };
        // now and then a very long one
        if (self.h >> 20).wrapping_add(k as u64) % 61 == 0 { format!("{s}{}{k}", "z".repeat(300)) } else { s }
    }
    pub fn one(&mut self, t: &str) -> String {
        if is_lit(t) {
            self.lits += 1;
            return lit(t, (self.h >> 8) as usize % 1000 + self.lits);
        }
        self.name(t)
    }
    /// Names only.
    pub fn name(&mut self, t: &str) -> String {
        if !is_plain(t) { return t.to_string() }
        if let Some(n) = self.names.get(t) { return n.clone() }
        let f = self.fresh();
        self.names.insert(t.to_string(), f.clone());
        f
    }
    pub fn all(&mut self, ts: &[String]) -> Vec<String> {
        ts.iter().map(|t| self.one(t)).collect()
    }
    /// Every list of tokens in a report, names only.
    pub fn names_in(&mut self, v: &Value) -> Value {
        match v {
            Value::String(s) => Value::String(self.name(s)),
            Value::Array(a) => Value::Array(a.iter().map(|x| self.names_in(x)).collect()),
            x => x.clone(),
        }
    }
}

/// The answers of the query methods that are texts.
pub fn obs(v: &Value, r: &mut Renaming) -> Value {
    let Some(a) = v.as_array() else { return v.clone() };
    Value::Array(a.iter().map(|w| {
        let mut w = w.clone();
        if w["q"] == "field_names" || w["q"] == "field_tokens" {
            w["s"] = strings(&w["s"]).iter().map(|s| r.name(s)).collect::<Vec<_>>().into();
        }
        w
    }).collect())
}
