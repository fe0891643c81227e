//! Which departures found by VenialTrace.tla are a matter of a property.

use crate::proj::Lab;
use crate::props::Prop;
use crate::replay::strings;
use serde_json::Value;
use std::io::Write;

/// `valid`: the recorded streams are declarations from real sources.
pub fn main(lines: impl Iterator<Item = String>, out: &mut impl Write, prop: &str, valid: bool) {
    let prop = Prop { id: prop.to_string() };
    let mut seen = std::collections::HashSet::new();
    for line in lines {
        if !seen.insert(line.clone()) { continue }
        let v: Value = serde_json::from_str(&line).unwrap();
        let matters = match v["what"].as_str().unwrap() {
            "part" => {
                let (w, g): (Lab, Lab) = (strings(&v["want"]), strings(&v["got"]));
                prop.label(&w) || prop.label(&g)
            }
            _ => {
                let (w, g) = (v["want"]["r"].as_str().unwrap(), v["got"]["r"].as_str().unwrap());
                if w == g { prop.place(w) } else { prop.odd_outcome(w, g, valid) }
            }
        };
        if matters { writeln!(out, "{line}").unwrap() }
    }
}
