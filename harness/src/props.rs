//! Which observations belong to which property.

use crate::proj::Lab;

pub struct Prop {
    pub id: String,
}

fn has(l: &Lab, names: &[&str]) -> bool {
    l.iter().any(|x| names.contains(&x.as_str()))
}

pub const UNDERSCORE: &str = "`_` reported as an alias";

const KINDS: [&str; 13] = ["Struct", "Enum", "Union", "Mod", "Trait", "Impl", "Const", "Type", "Fn", "Use", "Macro",
    "ExternBlock", "ExternCrate"];

impl Prop {
    /// Is the place of a token with this label a matter of this property?
    pub fn label(&self, l: &Lab) -> bool {
        if has(l, &["?missing", "?several"]) {
            return true;
        }
        match self.id.as_str() {
            "C01" | "C11" | "C10" | "C15" | "C16" => false,
            "C02" => {
                let n: Vec<_> = l.iter().filter(|x| x.parse::<usize>().is_err() && *x != "body").collect();
                n.len() == 1 && (KINDS.contains(&n[0].as_str()) || n[0] == "name")
            }
            "C03" => has(l, &["tuple", "named", "body"]),
            "C04" => has(l, &["gen", "where"]),
            "C05" => !has(l, &["attr", "vis", "inner"]) || has(l, &["params"]),
            "C06" | "C07" | "C09" | "C12" | "C18" | "C19" => true,
            "C08" => has(l, &["attr", "vis", "inner", "ty"]),
            _ => true,
        }
    }
    /// Is this remark on the form of a node a matter of this property?
    pub fn shape(&self, l: &Lab, why: &str) -> bool {
        if why == UNDERSCORE { matches!(self.id.as_str(), "C07" | "ALL") } else { self.label(l) }
    }
    pub fn prints(&self) -> bool { matches!(self.id.as_str(), "C01" | "ALL") }
    pub fn spans(&self) -> bool { matches!(self.id.as_str(), "C11" | "C19" | "ALL") }
    pub fn leftovers(&self) -> bool { matches!(self.id.as_str(), "C09" | "C10" | "ALL") }
    pub fn obs(&self) -> bool { matches!(self.id.as_str(), "C15" | "C16" | "ALL") }
    /// Is the answer to this query a matter of this property?
    pub fn query(&self, q: &str) -> bool {
        let mirror = q.starts_with("inline.") || q.starts_with("derive.");
        self.id == "ALL" || mirror == (self.id == "C15")
    }
    /// Same outcome, but at another place.
    pub fn place(&self, r: &str) -> bool {
        match self.id.as_str() {
            "C10" => r == "err",
            "C12" | "C19" | "C09" | "C18" | "ALL" => true,
            _ => false,
        }
    }
    /// A different outcome on a stream that nobody claims to be a declaration (or, if `valid`, that is one).
    pub fn odd_outcome(&self, want: &str, got: &str, valid: bool) -> bool {
        match self.id.as_str() {
            "C12" | "C19" | "ALL" => true,
            "C10" => want == "err" || got == "err" || got == "ok",
            "C02" => valid && want == "ok",
            _ => false,
        }
    }
    /// Does a different outcome count?  `want`: the specification's, `got`: the code's.
    /// `odd`: the stream was not built as a declaration.
    pub fn outcome(&self, want: &str, got: &str, odd: bool) -> bool {
        if odd && !(want == "ok" && matches!(self.id.as_str(), "C02" | "C18")) {
            return self.odd_outcome(want, got, false);
        }
        match self.id.as_str() {
            // a malformed stream accepted, or the recoverable error missing or misplaced
            "C10" => want == "err" || got == "err" || got == "ok",
            _ => true,
        }
    }
}
