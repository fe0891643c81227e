//! Replay of declarations made of the parts of others (VenialParts.tla).

use crate::observe::*;
use crate::proj::Lab;
use crate::replay::strings;
use crate::tok::*;
use quote::ToTokens;
use serde_json::{json, Value};
use std::io::Write;
use venial::*;

/// `a` gets part `s` of `b`.
fn exchange(a: &mut Item, b: &Item, s: &str) {
    macro_rules! give {
        ($a:ident, $b:ident; $($slot:literal => $($f:ident).+ $(, $($g:ident).+)*;)*) => {
            match s {
                $($slot => { $a.$($f).+ = $b.$($f).+.clone(); $($a.$($g).+ = $b.$($g).+.clone();)* })*
                _ => panic!("vh-internal: part {s}"),
            }
        };
    }
    match (a, b) {
        (Item::Struct(a), Item::Struct(b)) => give!(a, b; "attr" => attributes; "vis" => vis_marker; "kw" => tk_struct; "name" => name;
            "gen" => generic_params; "where" => where_clause; "fields" => fields; "semi" => tk_semicolon;),
        (Item::Enum(a), Item::Enum(b)) => give!(a, b; "attr" => attributes; "vis" => vis_marker; "kw" => tk_enum; "name" => name;
            "gen" => generic_params; "where" => where_clause; "delim" => tk_braces; "body" => variants;),
        (Item::Union(a), Item::Union(b)) => give!(a, b; "attr" => attributes; "vis" => vis_marker; "kw" => tk_union; "name" => name;
            "gen" => generic_params; "where" => where_clause; "fields" => fields;),
        (Item::Module(a), Item::Module(b)) => give!(a, b; "attr" => attributes; "vis" => vis_marker; "unsafe" => tk_unsafe; "kw" => tk_mod;
            "name" => name; "semi" => tk_semicolon; "delim" => tk_braces; "inner" => inner_attributes; "body" => members;),
        (Item::Trait(a), Item::Trait(b)) => give!(a, b; "attr" => attributes; "vis" => vis_marker; "unsafe" => tk_unsafe; "kw" => tk_trait;
            "name" => name; "gen" => generic_params; "bound" => bound; "where" => where_clause; "delim" => tk_braces;
            "inner" => inner_attributes; "body" => body_items;),
        (Item::Impl(a), Item::Impl(b)) => give!(a, b; "attr" => attributes; "unsafe" => tk_unsafe; "kw" => tk_impl; "gen" => impl_generic_params;
            "trait" => trait_ty; "for" => tk_for; "self" => self_ty; "where" => where_clause; "delim" => tk_braces;
            "inner" => inner_attributes; "body" => body_items;),
        (Item::TypeAlias(a), Item::TypeAlias(b)) => give!(a, b; "attr" => attributes; "vis" => vis_marker; "kw" => tk_type; "name" => name;
            "bound" => bound; "eq" => tk_equals; "ty" => initializer_ty; "semi" => tk_semicolon;),
        (Item::Function(a), Item::Function(b)) => give!(a, b; "attr" => attributes; "vis" => vis_marker; "default" => qualifiers.tk_default;
            "const" => qualifiers.tk_const; "async" => qualifiers.tk_async; "unsafe" => qualifiers.tk_unsafe;
            "extern" => qualifiers.tk_extern; "abi" => qualifiers.extern_abi; "kw" => tk_fn_keyword; "name" => name; "gen" => generic_params;
            "delim" => tk_params_parens; "params" => params; "arrow" => tk_return_arrow; "ret" => return_ty; "where" => where_clause;
            "block" => body; "semi" => tk_semicolon;),
        (Item::Constant(a), Item::Constant(b)) => give!(a, b; "attr" => attributes; "vis" => vis_marker; "kw" => tk_const_or_static;
            "mut" => tk_mut; "name" => name; "colon" => tk_colon; "ty" => ty; "eq" => tk_equals; "init" => initializer; "semi" => tk_semicolon;),
        (Item::UseDeclaration(a), Item::UseDeclaration(b)) => give!(a, b; "attr" => attributes; "vis" => vis_marker; "kw" => tk_use;
            "tree" => import_tree; "semi" => tk_semicolon;),
        (Item::Macro(a), Item::Macro(b)) => give!(a, b; "attr" => attributes; "name" => name; "bang" => tk_bang; "decl" => tk_declared_name;
            "delim" => tk_braces_or_parens; "tok" => inner_tokens; "semi" => tk_semicolon;),
        (Item::ExternBlock(a), Item::ExternBlock(b)) => give!(a, b; "attr" => attributes; "vis" => vis_marker; "unsafe" => tk_unsafe;
            "kw" => tk_extern; "abi" => extern_abi; "delim" => tk_braces; "inner" => inner_attributes; "body" => body_items;),
        (Item::ExternCrate(a), Item::ExternCrate(b)) => give!(a, b; "attr" => attributes; "vis" => vis_marker; "kw" => tk_extern, tk_crate;
            "name" => name; "as" => tk_as; "alias" => alias, tk_underscore; "semi" => tk_semicolon;),
        _ => panic!("vh-internal: two kinds"),
    }
}

fn drop_one(a: &mut Item, list: &str, n: usize) {
    if list == "attr" {
        a.attributes_mut().remove(n - 1);
        return;
    }
    let inner = list == "inner";
    macro_rules! of { ($x:ident, $m:ident) => { if inner { $x.inner_attributes.remove(n - 1); } else { $x.$m.remove(n - 1); } } }
    match a {
        Item::Module(x) => of!(x, members),
        Item::Trait(x) => of!(x, body_items),
        Item::Impl(x) => of!(x, body_items),
        Item::ExternBlock(x) => of!(x, body_items),
        _ => panic!("vh-internal: no such list"),
    }
}

/// Removes a sort of part everywhere, or gives everything the same attributes or visibility.
struct Strip<'a>(&'a str, Vec<Attribute>, Option<VisMarker>);
impl Strip<'_> {
    fn is(&self, s: &str) -> bool {
        self.0 == s
    }
    fn values(&self, a: &mut [Attribute]) {
        if self.is("attrval") { for a in a { a.value = AttributeValue::Empty } }
    }
    fn av(&self, a: &mut Vec<Attribute>, v: Option<&mut Option<VisMarker>>) {
        if self.is("attr") { a.clear() }
        self.values(a);
        if self.is("+attr") { *a = self.1.clone() }
        if let (true, Some(v)) = (self.is("vis") || self.is("+vis"), v) { *v = self.2.clone() }
    }
    fn named(&self, n: &mut NamedFields) {
        for (f, _) in n.fields.iter_mut() { self.av(&mut f.attributes, Some(&mut f.vis_marker)) }
    }
    fn fields(&self, f: &mut Fields) {
        match f {
            Fields::Unit => {}
            Fields::Tuple(t) => for (f, _) in t.fields.iter_mut() { self.av(&mut f.attributes, Some(&mut f.vis_marker)) },
            Fields::Named(n) => self.named(n),
        }
    }
    fn gw(&self, g: &mut Option<GenericParamList>, w: &mut Option<WhereClause>) {
        if self.is("gen") { *g = None }
        if self.is("where") { *w = None }
        if let (true, Some(g)) = (self.is("bound"), g.as_mut()) { for (p, _) in g.params.iter_mut() { p.bound = None } }
        else if let (true, Some(g)) = (self.is("prefix"), g) { for (p, _) in g.params.iter_mut() { p.tk_prefix = None } }
    }
    fn bound(&self, b: &mut Option<GenericBound>) {
        if self.is("bound") { *b = None }
    }
    fn func(&self, f: &mut Function) {
        self.av(&mut f.attributes, Some(&mut f.vis_marker));
        self.gw(&mut f.generic_params, &mut f.where_clause);
        if self.is("ret") {
            f.tk_return_arrow = None;
            f.return_ty = None;
        }
        if self.is("q") {
            let q = &mut f.qualifiers;
            q.tk_default = None;
            q.tk_const = None;
            q.tk_async = None;
            q.tk_unsafe = None;
            q.tk_extern = None;
            q.extern_abi = None;
        }
        for (p, _) in f.params.iter_mut() {
            match p {
                FnParam::Receiver(r) => {
                    self.av(&mut r.attributes, None);
                    if self.is("mut") { r.tk_mut = None }
                    if self.is("life") { r.lifetime = None }
                    if self.is("ref") { r.tk_ref = None }
                }
                FnParam::Typed(t) => {
                    self.av(&mut t.attributes, None);
                    if self.is("mut") { t.tk_mut = None }
                }
            }
        }
    }
    fn constant(&self, x: &mut Constant) {
        self.av(&mut x.attributes, Some(&mut x.vis_marker));
        if self.is("mut") { x.tk_mut = None }
    }
    fn alias(&self, x: &mut TypeAlias) {
        self.av(&mut x.attributes, Some(&mut x.vis_marker));
        self.bound(&mut x.bound);
    }
    fn inner(&self, a: &mut Vec<Attribute>) {
        if self.is("inner") { a.clear() }
        self.values(a);
    }
    fn impl_member(&self, m: &mut ImplMember) {
        match m {
            ImplMember::AssocFunction(f) => self.func(f),
            ImplMember::AssocConstant(x) => self.constant(x),
            ImplMember::AssocType(x) => self.alias(x),
            ImplMember::Macro(x) => self.av(&mut x.attributes, None),
            _ => {}
        }
    }
    fn trait_member(&self, m: &mut TraitMember) {
        match m {
            TraitMember::AssocFunction(f) => self.func(f),
            TraitMember::AssocConstant(x) => self.constant(x),
            TraitMember::AssocType(x) => self.alias(x),
            TraitMember::Macro(x) => self.av(&mut x.attributes, None),
            _ => {}
        }
    }
    fn item(&self, item: &mut Item) {
        match item {
            Item::Struct(x) => {
                self.av(&mut x.attributes, Some(&mut x.vis_marker));
                self.gw(&mut x.generic_params, &mut x.where_clause);
                self.fields(&mut x.fields);
            }
            Item::Enum(x) => {
                self.av(&mut x.attributes, Some(&mut x.vis_marker));
                self.gw(&mut x.generic_params, &mut x.where_clause);
                for (v, _) in x.variants.iter_mut() {
                    self.av(&mut v.attributes, Some(&mut v.vis_marker));
                    self.fields(&mut v.fields);
                    if self.is("val") { v.value = None }
                }
            }
            Item::Union(x) => {
                self.av(&mut x.attributes, Some(&mut x.vis_marker));
                self.gw(&mut x.generic_params, &mut x.where_clause);
                self.named(&mut x.fields);
            }
            Item::Module(x) => {
                self.av(&mut x.attributes, Some(&mut x.vis_marker));
                self.inner(&mut x.inner_attributes);
                for m in &mut x.members { if !self.is("val") { self.item(m) } }
            }
            Item::Trait(x) => {
                self.av(&mut x.attributes, Some(&mut x.vis_marker));
                self.gw(&mut x.generic_params, &mut x.where_clause);
                self.bound(&mut x.bound);
                self.inner(&mut x.inner_attributes);
                for m in &mut x.body_items { self.trait_member(m) }
            }
            Item::Impl(x) => {
                self.av(&mut x.attributes, None);
                self.gw(&mut x.impl_generic_params, &mut x.where_clause);
                self.inner(&mut x.inner_attributes);
                for m in &mut x.body_items { self.impl_member(m) }
            }
            Item::ExternBlock(x) => {
                self.av(&mut x.attributes, Some(&mut x.vis_marker));
                self.inner(&mut x.inner_attributes);
                for m in &mut x.body_items { self.impl_member(m) }
            }
            Item::TypeAlias(x) => self.alias(x),
            Item::Function(x) => self.func(x),
            Item::Constant(x) => self.constant(x),
            Item::UseDeclaration(x) => self.av(&mut x.attributes, Some(&mut x.vis_marker)),
            Item::Macro(x) => self.av(&mut x.attributes, None),
            Item::ExternCrate(x) => self.av(&mut x.attributes, Some(&mut x.vis_marker)),
            _ => {}
        }
    }
}

fn vis(x: &Item) -> Option<VisMarker> {
    match x {
        Item::Struct(x) => x.vis_marker.clone(),
        Item::Enum(x) => x.vis_marker.clone(),
        Item::Union(x) => x.vis_marker.clone(),
        Item::Module(x) => x.vis_marker.clone(),
        Item::Trait(x) => x.vis_marker.clone(),
        Item::TypeAlias(x) => x.vis_marker.clone(),
        Item::Function(x) => x.vis_marker.clone(),
        Item::Constant(x) => x.vis_marker.clone(),
        Item::UseDeclaration(x) => x.vis_marker.clone(),
        Item::ExternBlock(x) => x.vis_marker.clone(),
        Item::ExternCrate(x) => x.vis_marker.clone(),
        _ => None,
    }
}

fn check(v: &Value, toks: &[String], r: Render, out: &mut Vec<Value>) {
    let what = strings(&v["what"]);
    let mut it = build(toks, r).unwrap().into_iter().peekable();
    let (Ok(mut a), Ok(b)) = (consume_item(&mut it).map_err(|_| ()), consume_item(&mut it).map_err(|_| ())) else {
        out.push(json!({"what": "a declaration is reported as an error"}));
        return;
    };
    match v["op"].as_str().unwrap() {
        "mix" => for s in &what { exchange(&mut a, &b, s) },
        "drop" => {
            let (n, list) = if let Ok(n) = what[0].parse() { (n, &what[1]) } else { (what[1].parse().unwrap(), &what[0]) };
            drop_one(&mut a, list, n)
        }
        "strip" => Strip(&what[0], vec![], None).item(&mut a),
        "spread" => Strip(&format!("+{}", what[0]), b.attributes().clone(), vis(&b)).item(&mut a),
        x => panic!("vh-internal: {x}"),
    }
    // exactly the tokens of the parts
    let src: Vec<usize> = v["src"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize - 1).collect();
    let want: Vec<Flat> = src.iter().map(|&i| expected_flat(toks, i, r)).collect();
    let got = flat(a.to_token_stream());
    if want != got {
        let show = |f: &[Flat]| f.iter().map(|f| f.text.as_str()).collect::<Vec<_>>().join(" ");
        let k = (0..want.len().max(got.len())).find(|&k| want.get(k) != got.get(k)).unwrap();
        out.push(json!({"what": "printed", "want": show(&want), "got": show(&got), "first difference": [format!("{:?}", want.get(k)), format!("{:?}", got.get(k))]}));
        return;
    }
    // the alias of a crate may be an underscore
    if let Item::ExternCrate(x) = &a {
        let mut y = x.clone();
        if y.tk_underscore.is_none() { y.tk_underscore = y.alias.take() } else { y.alias = y.tk_underscore.take() }
        if flat(y.to_token_stream()) != want {
            out.push(json!({"what": "printed with the alias as an underscore", "want": want.len(), "got": y.to_token_stream().to_string()}));
        }
    }
    // which are read again as those parts (unless they make no declaration)
    if v["labs"].as_array().unwrap().is_empty() { return }
    let texts: Vec<String> = src.iter().map(|&i| toks[i].clone()).collect();
    let seen = consume_stream(build(&texts, r).unwrap(), &texts);
    if seen.r != "ok" || seen.p != texts.len() + 1 {
        out.push(json!({"what": "does not parse again", "got": seen.r, "printed": texts}));
        return;
    }
    let labs: Vec<Lab> = v["labs"].as_array().unwrap().iter().map(strings).collect();
    for (i, w) in labs.iter().enumerate() {
        if one(&seen.labs[i]) != *w {
            out.push(json!({"what": "reparsed part", "token": i + 1, "want": w.join("."), "got": one(&seen.labs[i]).join(".")}));
        }
    }
}

pub fn main(lines: impl Iterator<Item = String>, out: &mut impl Write) {
    let (mut cases, mut runs, mut tokens) = (0, 0, 0);
    for line in lines {
        let v: Value = serde_json::from_str(&line).unwrap();
        crate::watch(&line);
        cases += 1;
        let toks = strings(&v["t"]);
        tokens += toks.len();
        let other = crate::rename::Renaming::new(&toks, true, 0).all(&toks);
        for (toks, r) in [(&toks, Render::Loose), (&toks, Render::Tight), (&other, if runs % 2 == 0 { Render::Loose } else { Render::Tight })] {
            runs += 1;
            let bad = quiet(|| {
                let mut out = vec![];
                check(&v, toks, r, &mut out);
                out
            }).unwrap_or_else(|_| vec![json!({"what": "panic"})]);
            if !bad.is_empty() {
                writeln!(out, "{}", json!({"mismatch": bad, "t": toks, "case": v})).unwrap();
                break;
            }
        }
    }
    writeln!(out, "{}", json!({"stats": {"cases": cases, "runs": runs, "tokens": tokens}})).unwrap();
}
