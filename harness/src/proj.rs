//! Projection of a parsed item to the label vocabulary of VenialParser.tla:
//! every token held by the AST is given the path of the node part that holds it.

use crate::tok::*;
use proc_macro2::{Delimiter, Group, Ident, Literal, Punct, Span, TokenTree};
use quote::ToTokens;
use venial::*;

pub type Lab = Vec<String>;

pub struct Node {
    pub path: Lab,
    pub kind: &'static str,
    pub printed: Vec<Flat>,
    pub span: Option<Span>,
}

pub struct Proj<'a> {
    pub toks: &'a [String],
    /// labels of the input tokens
    pub labs: Vec<Vec<Lab>>,
    /// AST tokens that are not the input token at their position: (label, text, why)
    pub alien: Vec<(Lab, String, &'static str)>,
    /// inconsistent optional parts
    pub shape: Vec<(Lab, String)>,
    pub nodes: Vec<Node>,
}

pub fn sub(l: &Lab, x: &str) -> Lab {
    let mut v = l.clone();
    v.push(x.to_string());
    v
}
pub fn sub2(l: &Lab, x: &str, y: &str) -> Lab {
    sub(&sub(l, x), y)
}
pub fn subi(l: &Lab, i: usize) -> Lab {
    sub(l, &(i + 1).to_string())
}

impl<'a> Proj<'a> {
    pub fn new(toks: &'a [String]) -> Self {
        Proj { toks, labs: vec![vec![]; toks.len()], alien: vec![], shape: vec![], nodes: vec![] }
    }

    fn put(&mut self, at: Option<usize>, text: &str, l: &Lab) {
        match at {
            Some(i) if i < self.toks.len() => {
                let want = if self.toks[i] == ":^" { ":" } else { &self.toks[i] };
                if want != text {
                    self.alien.push((l.clone(), text.to_string(), "text"));
                }
                self.labs[i].push(l.clone());
            }
            _ => self.alien.push((l.clone(), text.to_string(), "span")),
        }
    }

    pub fn id(&mut self, i: &Ident, l: &Lab) {
        self.put(index_of(i.span()), &i.to_string(), l)
    }
    pub fn oid(&mut self, i: &Option<Ident>, l: &Lab) {
        if let Some(i) = i { self.id(i, l) }
    }
    pub fn pu(&mut self, p: &Punct, l: &Lab) {
        self.put(index_of(p.span()), &p.as_char().to_string(), l)
    }
    pub fn opu(&mut self, p: &Option<Punct>, l: &Lab) {
        if let Some(p) = p { self.pu(p, l) }
    }
    fn olit(&mut self, p: &Option<Literal>, l: &Lab) {
        if let Some(p) = p { self.put(index_of(p.span()), &p.to_string(), l) }
    }
    pub fn tt(&mut self, t: &TokenTree, l: &Lab) {
        let mut v = vec![];
        flatten_tt(t, &mut v);
        for f in v { self.put(f.at, &f.text, l) }
    }
    pub fn tts(&mut self, ts: &[TokenTree], l: &Lab) {
        for t in ts { self.tt(t, l) }
    }
    fn group(&mut self, g: &GroupSpan, l: &Lab) {
        let (o, c) = match g.delimiter {
            Delimiter::Parenthesis => ("(", ")"),
            Delimiter::Bracket => ("[", "]"),
            Delimiter::Brace => ("{", "}"),
            Delimiter::None => ("/(", "/)"),
        };
        let r = range_of(g.span);
        self.put(r.map(|r| r.0), o, l);
        self.put(r.map(|r| r.1), c, l);
    }
    fn node<T: ToTokens>(&mut self, kind: &'static str, x: &T, l: &Lab, span: Option<Span>) {
        let printed = flat(x.to_token_stream());
        self.nodes.push(Node { path: l.clone(), kind, printed, span });
    }
    fn check(&mut self, ok: bool, l: &Lab, what: &str) {
        if !ok { self.shape.push((l.clone(), what.to_string())) }
    }

    pub fn ty(&mut self, t: &TypeExpr, l: &Lab) {
        self.tts(&t.tokens, l);
        self.node("TypeExpr", t, l, Some(t.span()));
    }
    fn value(&mut self, t: &ValueExpr, l: &Lab) {
        self.tts(&t.tokens, l);
        self.node("ValueExpr", t, l, None);
    }
    fn bound(&mut self, b: &GenericBound, l: &Lab) {
        let l = sub(l, "bound");
        self.pu(&b.tk_colon, &sub(&l, "colon"));
        self.tts(&b.tokens, &sub(&l, "tok"));
        self.node("GenericBound", b, &l, Some(b.span()));
    }
    fn attrs(&mut self, attrs: &[Attribute], l: &Lab, which: &str) {
        for (i, a) in attrs.iter().enumerate() {
            let l = subi(&sub(l, which), i);
            self.pu(&a.tk_hash, &sub(&l, "hash"));
            self.opu(&a.tk_bang, &sub(&l, "bang"));
            self.group(&a.tk_brackets, &sub(&l, "brackets"));
            self.tts(&a.path, &sub(&l, "path"));
            let v = sub(&l, "val");
            match &a.value {
                AttributeValue::Group(g, ts) => {
                    self.group(g, &sub(&v, "group"));
                    self.tts(ts, &sub(&v, "tok"));
                    self.node("AttributeValue", &a.value, &v, Some(a.value.span()));
                }
                AttributeValue::Equals(p, ts) => {
                    self.pu(p, &sub(&v, "eq"));
                    self.tts(ts, &sub(&v, "tok"));
                    self.node("AttributeValue", &a.value, &v, Some(a.value.span()));
                }
                AttributeValue::Empty => {}
            }
            self.node("Attribute", a, &l, Some(a.span()));
        }
    }
    fn vis(&mut self, v: &Option<VisMarker>, l: &Lab) {
        if let Some(v) = v {
            let l = sub(l, "vis");
            self.tt(&v.tk_token1, &sub(&l, "tok"));
            if let Some(t) = &v.tk_token2 { self.tt(t, &sub(&l, "restr")) }
            self.node("VisMarker", v, &l, Some(v.span()));
        }
    }
    fn list<T>(&mut self, p: &Punctuated<T>, l: &Lab, f: fn(&mut Self, &T, &Lab)) {
        let n = p.inner.len();
        for (i, (x, comma)) in p.inner.iter().enumerate() {
            let l = subi(l, i);
            f(self, x, &l);
            if i + 1 < n || !p.skip_last {
                self.pu(comma, &sub(&l, "comma"));
            }
        }
    }
    fn gparam(&mut self, p: &GenericParam, l: &Lab) {
        if let Some(t) = &p.tk_prefix { self.tt(t, &sub(l, "prefix")) }
        self.id(&p.name, &sub(l, "name"));
        if let Some(b) = &p.bound { self.bound(b, l) }
        self.node("GenericParam", p, l, Some(p.span()));
    }
    fn gen(&mut self, g: &Option<GenericParamList>, l: &Lab) {
        if let Some(g) = g {
            let l = sub(l, "gen");
            self.pu(&g.tk_l_bracket, &sub(&l, "lt"));
            self.list(&g.params, &l, Self::gparam);
            self.pu(&g.tk_r_bracket, &sub(&l, "gt"));
            self.node("GenericParamList", g, &l, Some(g.span()));
        }
    }
    pub fn wpred(&mut self, w: &WhereClausePredicate, l: &Lab) {
        self.tts(&w.left_side, &sub(l, "left"));
        self.bound(&w.bound, l);
        self.node("WhereClausePredicate", w, l, Some(w.span()));
    }
    fn wher(&mut self, w: &Option<WhereClause>, l: &Lab) {
        if let Some(w) = w {
            let l = sub(l, "where");
            self.id(&w.tk_where, &sub(&l, "kw"));
            self.list(&w.items, &l, Self::wpred);
            self.node("WhereClause", w, &l, Some(w.span()));
        }
    }
    fn tfield(&mut self, f: &TupleField, l: &Lab) {
        self.attrs(&f.attributes, l, "attr");
        self.vis(&f.vis_marker, l);
        self.ty(&f.ty, &sub(l, "ty"));
        self.node("TupleField", f, l, Some(f.span()));
    }
    fn nfield(&mut self, f: &NamedField, l: &Lab) {
        self.attrs(&f.attributes, l, "attr");
        self.vis(&f.vis_marker, l);
        self.id(&f.name, &sub(l, "name"));
        self.pu(&f.tk_colon, &sub(l, "colon"));
        self.ty(&f.ty, &sub(l, "ty"));
        self.node("NamedField", f, l, Some(f.span()));
    }
    fn named(&mut self, n: &NamedFields, l: &Lab) {
        let l = sub(l, "named");
        self.group(&n.tk_braces, &l);
        self.list(&n.fields, &l, Self::nfield);
        self.node("NamedFields", n, &l, None);
    }
    fn fields(&mut self, f: &Fields, l: &Lab) {
        match f {
            Fields::Unit => {}
            Fields::Tuple(t) => {
                let l = sub(l, "tuple");
                self.group(&t.tk_parens, &l);
                self.list(&t.fields, &l, Self::tfield);
                self.node("TupleFields", t, &l, None);
                self.node("Fields", f, &l, Some(f.span()));
            }
            Fields::Named(n) => {
                self.named(n, l);
                self.node("Fields", f, &sub(l, "named"), Some(f.span()));
            }
        }
    }
    fn variant(&mut self, v: &EnumVariant, l: &Lab) {
        self.attrs(&v.attributes, l, "attr");
        self.vis(&v.vis_marker, l);
        self.id(&v.name, &sub(l, "name"));
        self.fields(&v.fields, l);
        if let Some(x) = &v.value {
            let l = sub(l, "val");
            self.pu(&x.tk_equal, &sub(&l, "eq"));
            self.tt(&x.value, &sub(&l, "value"));
            self.node("EnumVariantValue", x, &l, Some(x.span()));
        }
        self.node("EnumVariant", v, l, Some(v.span()));
    }
    fn fparam(&mut self, p: &FnParam, l: &Lab) {
        match p {
            FnParam::Receiver(r) => {
                self.attrs(&r.attributes, l, "attr");
                self.opu(&r.tk_ref, &sub(l, "ref"));
                if let Some(lt) = &r.lifetime { self.lifetime(lt, &sub(l, "life")) }
                self.oid(&r.tk_mut, &sub(l, "mut"));
                self.id(&r.tk_self, &sub(l, "self"));
                self.node("FnReceiverParam", r, l, None);
            }
            FnParam::Typed(t) => {
                self.attrs(&t.attributes, l, "attr");
                self.oid(&t.tk_mut, &sub(l, "mut"));
                self.id(&t.name, &sub(l, "name"));
                self.pu(&t.tk_colon, &sub(l, "colon"));
                self.ty(&t.ty, &sub(l, "ty"));
                self.node("FnTypedParam", t, l, None);
            }
        }
        self.node("FnParam", p, l, None);
    }
    fn lifetime(&mut self, lt: &Lifetime, l: &Lab) {
        self.pu(&lt.tk_apostrophe, l);
        self.id(&lt.name, l);
        self.node("Lifetime", lt, l, None);
    }
    fn body(&mut self, g: &Group, l: &Lab) {
        self.tt(&TokenTree::Group(g.clone()), l)
    }
    fn func(&mut self, f: &Function, l: &Lab) {
        self.attrs(&f.attributes, l, "attr");
        self.vis(&f.vis_marker, l);
        let q = &f.qualifiers;
        let ql = sub(l, "q");
        self.oid(&q.tk_default, &sub(&ql, "default"));
        self.oid(&q.tk_const, &sub(&ql, "const"));
        self.oid(&q.tk_async, &sub(&ql, "async"));
        self.oid(&q.tk_unsafe, &sub(&ql, "unsafe"));
        self.oid(&q.tk_extern, &sub(&ql, "extern"));
        self.olit(&q.extern_abi, &sub(&ql, "abi"));
        self.node("FnQualifiers", q, &ql, None);
        self.id(&f.tk_fn_keyword, &sub(l, "Fn"));
        self.id(&f.name, &sub(l, "name"));
        self.gen(&f.generic_params, l);
        let pl = sub(l, "params");
        self.group(&f.tk_params_parens, &pl);
        self.list(&f.params, &pl, Self::fparam);
        if let Some([a, b]) = &f.tk_return_arrow {
            self.pu(a, &sub(l, "arrow"));
            self.pu(b, &sub(l, "arrow"));
        }
        if let Some(t) = &f.return_ty { self.ty(t, &sub(l, "ret")) }
        self.check(f.return_ty.is_some() == f.tk_return_arrow.is_some(), &sub(l, "ret"), "return type without arrow or arrow without type");
        self.wher(&f.where_clause, l);
        if let Some(g) = &f.body { self.body(g, &sub(l, "block")) }
        self.opu(&f.tk_semicolon, &sub(l, "semi"));
        self.check(f.body.is_some() != f.tk_semicolon.is_some(), &sub(l, "block"), "body and semicolon are not exclusive");
        self.node("Function", f, l, Some(f.span()));
    }
    fn constant(&mut self, c: &Constant, l: &Lab) {
        self.attrs(&c.attributes, l, "attr");
        self.vis(&c.vis_marker, l);
        self.id(&c.tk_const_or_static, &sub(l, "Const"));
        self.oid(&c.tk_mut, &sub(l, "mut"));
        self.id(&c.name, &sub(l, "name"));
        self.pu(&c.tk_colon, &sub(l, "colon"));
        self.ty(&c.ty, &sub(l, "ty"));
        self.opu(&c.tk_equals, &sub(l, "eq"));
        if let Some(v) = &c.initializer { self.value(v, &sub(l, "init")) }
        self.check(c.initializer.is_none() || c.tk_equals.is_some(), &sub(l, "init"), "initializer does not go with `=`");
        self.pu(&c.tk_semicolon, &sub(l, "semi"));
        self.node("Constant", c, l, None);
    }
    fn alias(&mut self, c: &TypeAlias, l: &Lab) {
        self.attrs(&c.attributes, l, "attr");
        self.vis(&c.vis_marker, l);
        self.id(&c.tk_type, &sub(l, "Type"));
        self.id(&c.name, &sub(l, "name"));
        if let Some(b) = &c.bound { self.bound(b, l) }
        self.opu(&c.tk_equals, &sub(l, "eq"));
        if let Some(t) = &c.initializer_ty { self.ty(t, &sub(l, "ty")) }
        self.check(c.initializer_ty.is_none() || c.tk_equals.is_some(), &sub(l, "ty"), "type does not go with `=`");
        self.pu(&c.tk_semicolon, &sub(l, "semi"));
        self.node("TypeAlias", c, l, None);
    }
    fn mac(&mut self, m: &Macro, l: &Lab) {
        self.attrs(&m.attributes, l, "attr");
        self.id(&m.name, &sub(l, "Macro"));
        self.pu(&m.tk_bang, &sub(l, "bang"));
        self.oid(&m.tk_declared_name, &sub(l, "decl"));
        self.group(&m.tk_braces_or_parens, &sub(l, "delim"));
        self.tts(&m.inner_tokens, &sub(l, "tok"));
        self.opu(&m.tk_semicolon, &sub(l, "semi"));
        self.node("Macro", m, l, None);
    }
    fn impl_member(&mut self, m: &ImplMember, l: &Lab) {
        match m {
            ImplMember::AssocFunction(f) => self.func(f, l),
            ImplMember::AssocConstant(c) => self.constant(c, l),
            ImplMember::AssocType(t) => self.alias(t, l),
            ImplMember::Macro(m) => self.mac(m, l),
            _ => self.shape.push((l.clone(), "unknown member".into())),
        }
        self.node("ImplMember", m, l, None);
    }
    fn trait_member(&mut self, m: &TraitMember, l: &Lab) {
        match m {
            TraitMember::AssocFunction(f) => self.func(f, l),
            TraitMember::AssocConstant(c) => self.constant(c, l),
            TraitMember::AssocType(t) => self.alias(t, l),
            TraitMember::Macro(m) => self.mac(m, l),
            _ => self.shape.push((l.clone(), "unknown member".into())),
        }
        self.node("TraitMember", m, l, None);
    }

    pub fn item(&mut self, item: &Item, l: &Lab) {
        match item {
            Item::Struct(x) => {
                self.attrs(&x.attributes, l, "attr");
                self.vis(&x.vis_marker, l);
                self.id(&x.tk_struct, &sub(l, "Struct"));
                self.id(&x.name, &sub(l, "name"));
                self.gen(&x.generic_params, l);
                self.wher(&x.where_clause, l);
                self.fields(&x.fields, l);
                self.opu(&x.tk_semicolon, &sub(l, "semi"));
                self.node("Struct", x, l, Some(x.span()));
            }
            Item::Enum(x) => {
                self.attrs(&x.attributes, l, "attr");
                self.vis(&x.vis_marker, l);
                self.id(&x.tk_enum, &sub(l, "Enum"));
                self.id(&x.name, &sub(l, "name"));
                self.gen(&x.generic_params, l);
                self.wher(&x.where_clause, l);
                self.group(&x.tk_braces, &sub(l, "body"));
                self.list(&x.variants, &sub(l, "body"), Self::variant);
                self.node("Enum", x, l, Some(x.span()));
            }
            Item::Union(x) => {
                self.attrs(&x.attributes, l, "attr");
                self.vis(&x.vis_marker, l);
                self.id(&x.tk_union, &sub(l, "Union"));
                self.id(&x.name, &sub(l, "name"));
                self.gen(&x.generic_params, l);
                self.wher(&x.where_clause, l);
                self.named(&x.fields, l);
                self.node("Union", x, l, Some(x.span()));
            }
            Item::Module(x) => {
                self.attrs(&x.attributes, l, "attr");
                self.vis(&x.vis_marker, l);
                self.oid(&x.tk_unsafe, &sub(l, "unsafe"));
                self.id(&x.tk_mod, &sub(l, "Mod"));
                self.id(&x.name, &sub(l, "name"));
                self.opu(&x.tk_semicolon, &sub(l, "semi"));
                if let Some(g) = &x.tk_braces { self.group(g, &sub(l, "body")) }
                self.check(x.tk_braces.is_some() != x.tk_semicolon.is_some(), &sub(l, "body"), "block and semicolon are not exclusive");
                self.attrs(&x.inner_attributes, l, "inner");
                for (i, m) in x.members.iter().enumerate() { self.item(m, &subi(&sub(l, "body"), i)) }
                self.node("Module", x, l, None);
            }
            Item::Trait(x) => {
                self.attrs(&x.attributes, l, "attr");
                self.vis(&x.vis_marker, l);
                self.oid(&x.tk_unsafe, &sub(l, "unsafe"));
                self.id(&x.tk_trait, &sub(l, "Trait"));
                self.id(&x.name, &sub(l, "name"));
                self.gen(&x.generic_params, l);
                if let Some(b) = &x.bound { self.bound(b, l) }
                self.wher(&x.where_clause, l);
                self.group(&x.tk_braces, &sub(l, "body"));
                self.attrs(&x.inner_attributes, l, "inner");
                for (i, m) in x.body_items.iter().enumerate() { self.trait_member(m, &subi(&sub(l, "body"), i)) }
                self.node("Trait", x, l, None);
            }
            Item::Impl(x) => {
                self.attrs(&x.attributes, l, "attr");
                self.oid(&x.tk_unsafe, &sub(l, "unsafe"));
                self.id(&x.tk_impl, &sub(l, "Impl"));
                self.gen(&x.impl_generic_params, l);
                if let Some(t) = &x.trait_ty { self.ty(t, &sub(l, "trait")) }
                self.oid(&x.tk_for, &sub(l, "for"));
                self.check(x.trait_ty.is_some() == x.tk_for.is_some(), &sub(l, "trait"), "trait does not go with `for`");
                self.ty(&x.self_ty, &sub(l, "self"));
                self.wher(&x.where_clause, l);
                self.group(&x.tk_braces, &sub(l, "body"));
                self.attrs(&x.inner_attributes, l, "inner");
                for (i, m) in x.body_items.iter().enumerate() { self.impl_member(m, &subi(&sub(l, "body"), i)) }
                self.node("Impl", x, l, None);
            }
            Item::TypeAlias(x) => self.alias(x, l),
            Item::Function(x) => self.func(x, l),
            Item::Constant(x) => self.constant(x, l),
            Item::UseDeclaration(x) => {
                self.attrs(&x.attributes, l, "attr");
                self.vis(&x.vis_marker, l);
                self.id(&x.tk_use, &sub(l, "Use"));
                self.ty(&x.import_tree, &sub(l, "tree"));
                self.pu(&x.tk_semicolon, &sub(l, "semi"));
                self.node("UseDeclaration", x, l, None);
            }
            Item::Macro(x) => self.mac(x, l),
            Item::ExternBlock(x) => {
                self.attrs(&x.attributes, l, "attr");
                self.vis(&x.vis_marker, l);
                self.oid(&x.tk_unsafe, &sub(l, "unsafe"));
                self.id(&x.tk_extern, &sub(l, "ExternBlock"));
                self.olit(&x.extern_abi, &sub(l, "abi"));
                self.group(&x.tk_braces, &sub(l, "body"));
                self.attrs(&x.inner_attributes, l, "inner");
                for (i, m) in x.body_items.iter().enumerate() { self.impl_member(m, &subi(&sub(l, "body"), i)) }
                self.node("ExternBlock", x, l, None);
            }
            Item::ExternCrate(x) => {
                self.attrs(&x.attributes, l, "attr");
                self.vis(&x.vis_marker, l);
                self.id(&x.tk_extern, &sub(l, "ExternCrate"));
                self.id(&x.tk_crate, &sub(l, "crate"));
                self.id(&x.name, &sub(l, "name"));
                self.oid(&x.tk_as, &sub(l, "as"));
                self.oid(&x.alias, &sub(l, "alias"));
                self.oid(&x.tk_underscore, &sub(l, "alias"));
                if x.alias.as_ref().is_some_and(|a| a == "_") { self.shape.push((sub(l, "alias"), crate::props::UNDERSCORE.into())) }
                if x.tk_underscore.as_ref().is_some_and(|a| a != "_") { self.shape.push((sub(l, "alias"), "alias reported as `_`".into())) }
                self.pu(&x.tk_semicolon, &sub(l, "semi"));
                self.node("ExternCrate", x, l, None);
            }
            _ => self.shape.push((l.clone(), "unknown kind of item".into())),
        }
        self.node("Item", item, l, Some(item.span()));
    }

    pub fn path(&mut self, p: &Path) {
        let root: Lab = vec![];
        for (i, s) in p.segments.iter().enumerate() {
            let l = subi(&root, i);
            if let Some([a, b]) = &s.tk_separator_colons {
                self.pu(a, &sub(&l, "colons"));
                self.pu(b, &sub(&l, "colons"));
            }
            self.id(&s.ident, &sub(&l, "ident"));
            if let Some(g) = &s.generic_args { self.args(g, &sub(&l, "args")) }
            self.node("PathSegment", s, &l, None);
        }
        self.node("Path", p, &root, None);
    }

    pub fn args(&mut self, g: &GenericArgList, l: &Lab) {
        if let Some([a, b]) = &g.tk_turbofish_colons {
            self.pu(a, &sub(l, "turbo"));
            self.pu(b, &sub(l, "turbo"));
        }
        self.pu(&g.tk_l_bracket, &sub(l, "lt"));
        self.list(&g.args, l, Self::arg);
        self.pu(&g.tk_r_bracket, &sub(l, "gt"));
        self.node("GenericArgList", g, l, None);
    }

    fn arg(&mut self, a: &GenericArg, l: &Lab) {
        match a {
            GenericArg::Lifetime { lifetime } => self.lifetime(lifetime, &sub(l, "life")),
            GenericArg::Binding { ident, tk_equals, ty } => {
                self.id(ident, &sub(l, "bind"));
                self.pu(tk_equals, &sub(l, "eq"));
                self.ty(ty, &sub(l, "ty"));
            }
            GenericArg::TypeOrConst { expr } => self.ty(expr, &sub(l, "expr")),
        }
        self.node("GenericArg", a, l, None);
    }
}
