//! The answers of the query methods, in the vocabulary of VenialView.tla (Obs).

use crate::proj::{sub, subi, Lab};
use crate::tok::*;
use proc_macro2::{Ident, TokenTree};
use quote::ToTokens;
use std::collections::BTreeMap;
use venial::*;

pub type Answers = BTreeMap<(String, String), (Vec<String>, Vec<Vec<usize>>)>;

fn pos(v: &[Flat]) -> Vec<usize> {
    v.iter().map(|f| f.at.map_or(0, |x| x + 1)).collect()
}
fn printed<T: ToTokens>(x: &T) -> Vec<usize> {
    pos(&flat(x.to_token_stream()))
}
fn tts(ts: &[TokenTree]) -> Vec<usize> {
    let mut v = vec![];
    for t in ts { flatten_tt(t, &mut v) }
    pos(&v)
}
fn id(i: Option<&Ident>) -> Vec<usize> {
    i.map_or(vec![], |i| vec![index_of(i.span()).map_or(0, |x| x + 1)])
}

pub struct Obs(pub Answers);

impl Obs {
    fn s(&mut self, n: &Lab, q: &str, v: Vec<String>) {
        self.0.insert((n.join("."), q.into()), (v, vec![]));
    }
    fn yes(&mut self, n: &Lab, q: &str, b: bool) {
        self.s(n, q, vec![if b { "yes" } else { "no" }.into()]);
    }
    fn p(&mut self, n: &Lab, q: &str, v: Vec<usize>) {
        self.pp(n, q, vec![v]);
    }
    fn pp(&mut self, n: &Lab, q: &str, v: Vec<Vec<usize>>) {
        self.0.insert((n.join("."), q.into()), (vec![], v));
    }

    fn attrs(&mut self, attrs: &[Attribute], l: &Lab, which: &str) {
        for (i, a) in attrs.iter().enumerate() {
            let n = subi(&sub(l, which), i);
            self.p(&n, "get_single_path_segment", id(a.get_single_path_segment()));
            self.p(&n, "get_value_tokens", tts(a.get_value_tokens()));
            if tts(a.value.get_value_tokens()) != tts(a.get_value_tokens()) {
                self.yes(&n, "value.get_value_tokens differs", true);
            }
        }
    }
    fn gen(&mut self, g: &Option<GenericParamList>, l: &Lab) {
        let Some(g) = g else { return };
        let names = |t: proc_macro2::TokenStream| pos(&flat(t).into_iter().filter(|f| !matches!(f.text.as_str(), "<" | ">" | ",")).collect::<Vec<_>>());
        self.p(l, "inline.tokens", names(g.as_inline_args().to_token_stream()));
        self.p(l, "inline.owned", names(g.as_inline_args().to_owned_args().to_token_stream()));
        for (i, x) in g.params.items().enumerate() {
            let n = subi(&sub(l, "gen"), i);
            self.yes(&n, "is_lifetime", x.is_lifetime());
            self.yes(&n, "is_ty", x.is_ty());
            self.yes(&n, "is_const", x.is_const());
        }
    }
    fn fields(&mut self, f: &Fields, l: &Lab) {
        match f {
            Fields::Unit => {}
            Fields::Tuple(t) => for (i, f) in t.fields.items().enumerate() {
                self.attrs(&f.attributes, &subi(&sub(l, "tuple"), i), "attr");
            },
            Fields::Named(t) => self.named(t, l),
        }
    }
    fn named(&mut self, t: &NamedFields, l: &Lab) {
        for (i, f) in t.fields.items().enumerate() {
            self.attrs(&f.attributes, &subi(&sub(l, "named"), i), "attr");
        }
    }
    fn func(&mut self, f: &Function, n: &Lab) {
        self.attrs(&f.attributes, n, "attr");
        self.gen(&f.generic_params, n);
        for (i, p) in f.params.items().enumerate() {
            let l = subi(&sub(n, "params"), i);
            match p {
                FnParam::Receiver(r) => self.attrs(&r.attributes, &l, "attr"),
                FnParam::Typed(r) => self.attrs(&r.attributes, &l, "attr"),
            }
        }
    }
    fn konst(&mut self, c: &Constant, n: &Lab) {
        self.attrs(&c.attributes, n, "attr");
        self.yes(n, "is_static", c.is_static());
    }

    pub fn item(&mut self, item: &Item, n: &Lab) {
        let casts = [
            ("Struct", item.as_struct().is_some()),
            ("Enum", item.as_enum().is_some()),
            ("Union", item.as_union().is_some()),
            ("Mod", item.as_module().is_some()),
            ("Trait", item.as_trait().is_some()),
            ("Impl", item.as_impl().is_some()),
            ("Type", item.as_type_alias().is_some()),
            ("Fn", item.as_function().is_some()),
            ("Const", item.as_constant().is_some()),
            ("Use", item.as_use_declaration().is_some()),
            ("Macro", item.as_macro().is_some()),
            ("ExternBlock", item.as_extern_block().is_some()),
            ("ExternCrate", item.as_extern_crate().is_some()),
        ];
        self.s(n, "kind", casts.iter().filter(|c| c.1).map(|c| c.0.to_string()).collect());
        self.p(n, "name", id(item.name().as_ref()));
        self.pp(n, "attributes", item.attributes().iter().map(printed).collect());
        self.p(n, "generic_params", item.generic_params().map_or(vec![], printed));
        let mut e = item.clone();
        e.attributes_mut().clear();
        self.p(n, "attributes_mut.clear", printed(&e));
        let mut e = item.clone();
        e.attributes_mut().reverse();
        self.p(n, "attributes_mut.reverse", printed(&e));
        let mut e = item.clone();
        if let Some(g) = e.generic_params_mut() { g.params.inner.clear() }
        self.p(n, "generic_params_mut.clear", printed(&e));

        macro_rules! data {
            ($d:expr) => {
                self.p(n, "get_lifetime_params", $d.get_lifetime_params().flat_map(|g| id(Some(&g.name))).collect());
                self.p(n, "get_ty_params", $d.get_type_params().flat_map(|g| id(Some(&g.name))).collect());
                self.p(n, "get_const_params", $d.get_const_params().flat_map(|g| id(Some(&g.name))).collect());
                let (mut params, mut declared) = (vec![], vec![]);
                for p in $d.create_derive_where_clause(quote::quote!(vh::Derived<'x>)).items.items() {
                    if p.bound.tokens.iter().map(|t| t.to_string()).collect::<String>() == "vh::Derived<'x>" { params.extend(tts(&p.left_side)) } else { declared.push(printed(p)) }
                }
                params.sort();
                declared.sort();
                self.p(n, "derive.params", params);
                self.pp(n, "derive.declared", declared);
                self.attrs(&$d.attributes, n, "attr");
                self.gen(&$d.generic_params, n);
            };
        }
        match item {
            Item::Struct(d) => {
                data!(d);
                self.s(n, "field_names", d.field_names().into_iter().collect());
                self.s(n, "field_tokens", d.field_tokens().into_iter().map(|t| t.to_string()).collect());
                self.pp(n, "field_types", d.field_types().into_iter().map(|t| tts(&t.tokens)).collect());
                self.fields(&d.fields, n);
            }
            Item::Enum(d) => {
                data!(d);
                self.yes(n, "is_c_enum", d.is_c_enum());
                for (i, v) in d.variants.items().enumerate() {
                    let m = subi(&sub(n, "body"), i);
                    self.yes(&m, "is_empty_variant", v.is_empty_variant());
                    self.p(&m, "get_single_type", v.get_single_type().map_or(vec![], printed));
                    self.attrs(&v.attributes, &m, "attr");
                    self.fields(&v.fields, &m);
                }
            }
            Item::Union(d) => {
                data!(d);
                self.named(&d.fields, n);
            }
            Item::Module(d) => {
                self.attrs(&d.attributes, n, "attr");
                self.attrs(&d.inner_attributes, n, "inner");
                for (i, m) in d.members.iter().enumerate() {
                    self.item(m, &subi(&sub(n, "body"), i));
                }
            }
            Item::Trait(d) => {
                self.attrs(&d.attributes, n, "attr");
                self.attrs(&d.inner_attributes, n, "inner");
                self.gen(&d.generic_params, n);
                for (i, m) in d.body_items.iter().enumerate() {
                    let l = subi(&sub(n, "body"), i);
                    match m {
                        TraitMember::AssocFunction(x) => self.func(x, &l),
                        TraitMember::AssocConstant(x) => self.konst(x, &l),
                        TraitMember::AssocType(x) => self.attrs(&x.attributes, &l, "attr"),
                        TraitMember::Macro(x) => self.attrs(&x.attributes, &l, "attr"),
                        _ => {}
                    }
                }
            }
            Item::Impl(d) => {
                self.attrs(&d.attributes, n, "attr");
                self.attrs(&d.inner_attributes, n, "inner");
                self.gen(&d.impl_generic_params, n);
                for (i, m) in d.body_items.iter().enumerate() {
                    let l = subi(&sub(n, "body"), i);
                    match m {
                        ImplMember::AssocFunction(x) => self.func(x, &l),
                        ImplMember::AssocConstant(x) => self.konst(x, &l),
                        ImplMember::AssocType(x) => self.attrs(&x.attributes, &l, "attr"),
                        ImplMember::Macro(x) => self.attrs(&x.attributes, &l, "attr"),
                        _ => {}
                    }
                }
            }
            Item::Function(f) => self.func(f, n),
            Item::Constant(c) => self.konst(c, n),
            Item::TypeAlias(x) => self.attrs(&x.attributes, n, "attr"),
            Item::UseDeclaration(x) => self.attrs(&x.attributes, n, "attr"),
            Item::Macro(x) => self.attrs(&x.attributes, n, "attr"),
            Item::ExternCrate(x) => self.attrs(&x.attributes, n, "attr"),
            Item::ExternBlock(d) => {
                self.attrs(&d.attributes, n, "attr");
                self.attrs(&d.inner_attributes, n, "inner");
                for (i, m) in d.body_items.iter().enumerate() {
                    let l = subi(&sub(n, "body"), i);
                    match m {
                        ImplMember::AssocFunction(x) => self.func(x, &l),
                        ImplMember::AssocConstant(x) => self.konst(x, &l),
                        ImplMember::AssocType(x) => self.attrs(&x.attributes, &l, "attr"),
                        ImplMember::Macro(x) => self.attrs(&x.attributes, &l, "attr"),
                        _ => {}
                    }
                }
            }
            _ => {}
        }
    }
}
