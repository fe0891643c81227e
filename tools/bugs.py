BUGS = []
def bug(id, property, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo))

bug("c01-bracket-macro-semi", "C01", "a macro invocation with square brackets as an item",
    "the printed form of `name![...];` loses its semicolon",
    [("types.rs", """            tokens.extend(self.inner_tokens.iter().cloned());
        });
        self.tk_semicolon.to_tokens(tokens);""",
      """            tokens.extend(self.inner_tokens.iter().cloned());
        });
        if self.tk_braces_or_parens.delimiter == Delimiter::Parenthesis {
            self.tk_semicolon.to_tokens(tokens);
        }"""),],
    """    same("foo!(a, b);"); same("foo!{ a }"); same("foo![a, b];");""")

bug("c02-raw-fn-const", "C02", "a constant whose name is the raw identifier r#fn",
    "`const r#fn: u8 = 1;` is taken for a function and rejected",
    [("parse_fn.rs", """            if ident == "fn" {""", """            if ident.to_string().trim_start_matches("r#") == "fn" {""")],
    """    same("const fun: u8 = 1;"); same("const r#fn: u8 = 1;");""")

bug("c02-raw-mod-name", "C02", "a raw identifier as module name",
    "module names lose their raw prefix",
    [("parse_mod.rs", """    let module_name = consume_item_name(tokens);""",
      """    let module_name = consume_item_name(tokens);
    let module_name = match module_name.to_string().strip_prefix("r#") {
        Some(name) => proc_macro2::Ident::new(name, module_name.span()),
        None => module_name,
    };""")],
    """    assert_eq!(item("mod a {}").name().unwrap().to_string(), "a");
    assert_eq!(item("mod r#type {}").name().unwrap().to_string(), "r#type");""")

bug("c03-invisible-type", "C03", "a tuple field whose type is an invisible group (a macro fragment such as $t:ty)",
    "the field's type tokens are the content of the group, not the group",
    [("parse_type.rs", """        let ty_tokens = consume_field_type(&mut tokens);

        let comma = consume_comma(&mut tokens);

        fields.push(
            TupleField {""",
      """        let mut ty_tokens = consume_field_type(&mut tokens);
        if let [TokenTree::Group(group)] = ty_tokens.as_slice() {
            if group.delimiter() == Delimiter::None {
                ty_tokens = group.stream().into_iter().collect();
            }
        }

        let comma = consume_comma(&mut tokens);

        fields.push(
            TupleField {""")],
    """    let ty = TokenTree::Group(Group::new(Delimiter::None, quote!(&'static u8)));
    let Ok(Item::Struct(s)) = parse_item(quote!(struct S(#ty, u8);)) else { panic!() };
    let Fields::Tuple(f) = s.fields else { panic!() };
    assert_eq!(f.fields[0].0.ty.tokens.len(), 1);""")

bug("c03-payload-discriminant", "C03", "an enum variant with a payload and a discriminant",
    "the discriminant of a variant with a brace payload is attached to nothing and lost from `value`",
    [("parse_type.rs", """        variants.push(
            EnumVariant {
                attributes,
                vis_marker,
                name: variant_name,
                fields: contents,
                value: enum_discriminant,
            },
            comma,
        );""", """        let mut variant = EnumVariant {
            attributes,
            vis_marker,
            name: variant_name,
            fields: contents,
            value: enum_discriminant,
        };
        if matches!(&variant.fields, Fields::Named(fields) if fields.fields.is_empty()) {
            variant.value = None;
        }
        variants.push(variant, comma);""")],
    """    same("enum E { A = 1, B(u8) = 2, C { x: u8 } = 3 }");
    same("enum E { A = 1, B {} = 2 }");""")

bug("c04-empty-bound", "C04", "a generic parameter with a colon and no bound after it",
    "the empty bound (and its colon) is dropped",
    [("parse_type.rs", """            let bound_tokens = consume_stuff_until(tokens, end_predicate, false);
""", """            let bound_tokens = consume_stuff_until(tokens, end_predicate, false);
            if bound_tokens.is_empty() {
                return None;
            }
""")],
    """    let Item::Struct(s) = item("struct S<T:, U>(T, U);") else { panic!() };
    assert!(s.generic_params.unwrap().params[0].0.bound.is_some());""")

bug("c04-where-semicolon-comma", "C04", "a where clause with a trailing comma directly before a semicolon",
    "the trailing comma of a where clause that ends at a semicolon is lost",
    [("parse_type.rs", """        let comma = consume_comma(tokens);

        items.push(""", """        let comma = consume_comma(tokens);
        let comma = match tokens.peek() {
            Some(TokenTree::Punct(punct)) if punct.as_char() == ';' => None,
            _ => comma,
        };

        items.push(""")],
    """    same("struct S<T>(T) where T: A;"); same("struct S<T> where T: A, { t: T }"); same("struct S<T>(T) where T: A,;");""")

bug("c05-raw-mut-param", "C05", "a parameter named with the raw identifier r#mut",
    "`fn f(r#mut: u8)` is misread",
    [("parse_utils.rs", """pub(crate) fn consume_ident(tokens: &mut TokenIter, expected: &str) -> Option<Ident> {
    match tokens.peek() {
        Some(TokenTree::Ident(ident)) if ident == expected => {""",
      """pub(crate) fn consume_ident(tokens: &mut TokenIter, expected: &str) -> Option<Ident> {
    match tokens.peek() {
        Some(TokenTree::Ident(ident))
            if ident.to_string().trim_start_matches("r#") == expected =>
        {""")],
    """    same("fn f(mut x: u8) {}"); same("fn f(r#mut: u8) {}");""")

bug("c05-braced-const-arg", "C05", "a return type with a braced const argument in angle brackets",
    "the return type stops at a brace inside angle brackets",
    [("parse_utils.rs", """            Some(token) if predicate(token) && bracket_count == 0 => {""",
      """            Some(token)
                if predicate(token)
                    && (bracket_count == 0 || matches!(token, TokenTree::Group(_))) =>
            {""")],
    """    same("fn f() -> [u8; { 3 }];"); same("fn f() -> Foo<{ 3 }> {}");""")

bug("c01-self-lifetime-order", "C01", "a `&'a mut self` receiver with a lifetime",
    "the lifetime of a mutable receiver is printed after `mut`",
    [("types.rs", """        self.tk_ref.to_tokens(tokens);
        self.lifetime.to_tokens(tokens);
        self.tk_mut.to_tokens(tokens);""", """        self.tk_ref.to_tokens(tokens);
        self.tk_mut.to_tokens(tokens);
        self.lifetime.to_tokens(tokens);""")],
    """    same("fn f(&'a self) {}"); same("fn f(&'a mut self) {}");""")

bug("c06-dropped-extern-crate", "C06", "an `extern crate` inside an impl block",
    "an item that cannot be a member is silently dropped",
    [("parse_impl.rs", """            Item::Macro(macro_) => ImplMember::Macro(macro_),
            _ =>""", """            Item::Macro(macro_) => ImplMember::Macro(macro_),
            Item::ExternCrate(_) => continue,
            _ =>""")],
    """    same("impl S { fn f() {} }"); rejects("impl S { fn f() {} extern crate a; }");""")

bug("c06-self-hrtb", "C06", "an impl for a higher-ranked function pointer type",
    "`impl T for for<'a> fn(&'a u8) {}` is no longer accepted",
    [("parse_impl.rs", """                TokenTree::Group(group) if group.delimiter() == Delimiter::Brace => true,
                TokenTree::Ident(ident) if ident == "where" => true,
                _ => false,
            },
            true,
        );

        (
            Some(tk_for),""", """                TokenTree::Group(group) if group.delimiter() == Delimiter::Brace => true,
                TokenTree::Ident(ident) if ident == "for" || ident == "where" => true,
                _ => false,
            },
            true,
        );

        (
            Some(tk_for),""")],
    """    same("impl T for fn(u8) {}"); same("impl T for for<'a> fn(&'a u8) {}");""")

bug("c06-static-inner-attr", "C06", "a static inside a trait or impl body that has inner attributes",
    "a `static` in an impl or trait body is accepted when the block has inner attributes",
    [("parse_impl.rs", """            Item::Constant(static_) if allow_static => {""",
      """            Item::Constant(static_) if allow_static || !inner_attributes.is_empty() => {""")],
    """    rejects("trait T { static A: u8; }"); rejects("trait T { #![a] static A: u8; }");""")

bug("c07-same-alias", "C07", "an extern crate whose alias equals its name",
    "a redundant alias is dropped",
    [("parse_extern.rs", """    let tk_semicolon = parse_punct(tokens, ';', "extern crate");
""", """    let tk_semicolon = parse_punct(tokens, ';', "extern crate");
    let (tk_as, alias) = match alias {
        Some(alias) if alias == name => (None, None),
        alias => (tk_as, alias),
    };
""")],
    """    same("extern crate a as b;"); same("extern crate a as a;");""")

bug("c07-declared-name", "C07", "a macro invocation with a name that is not macro_rules and an identifier after the bang",
    "the identifier after `name!` is dropped for other macros than macro_rules unless the delimiter is a brace",
    [("parse_fn.rs", """    let inner_tokens = macro_body.stream().into_iter().collect();
""", """    let inner_tokens = macro_body.stream().into_iter().collect();
    let tk_declared_name = if needs_semicolon && name != "macro_rules" {
        None
    } else {
        tk_declared_name
    };
""")],
    """    same("macro_rules! a (x);"); same("thread_local! a { x }"); same("thread_local! a (x);");""")

bug("c08-attr-second-equals", "C08", "an attribute `#[name = value]` whose value has a second equals sign",
    "the value of a key-value attribute is cut at a second `=`",
    [("parse_utils.rs", """                let value = attribute_tokens.collect();
                AttributeValue::Equals(tk_equals, value)""",
      """                let value = attribute_tokens
                    .take_while(
                        |tt| !matches!(tt, TokenTree::Punct(punct) if punct.as_char() == '='),
                    )
                    .collect();
                AttributeValue::Equals(tk_equals, value)""")],
    """    same("#[a = 1] struct S;"); same("#[a = b == c] struct S;");""")

bug("c08-receiver-attrs", "C08", "two attributes on a receiver parameter",
    "attributes of a receiver are reported in reverse order",
    [("parse_fn.rs", """            FnParam::Receiver(FnReceiverParam {
                attributes,""", """            FnParam::Receiver(FnReceiverParam {
                attributes: attributes.into_iter().rev().collect(),""")],
    """    same("fn f(#[a] &self) {}"); same("fn f(#[a] #[b] &self) {}");""")

bug("c09-mod-stray-semi", "C09", "a stream in which a semicolon follows a module with a body",
    "consume_item takes a stray semicolon after a module body",
    [("parse_mod.rs", """        TokenTree::Group(group) if group.delimiter() == Delimiter::Brace => (Some(group), None),
        TokenTree::Punct(punct) if punct.as_char() == ';' => (None, Some(punct)),
        token => panic!(
            "cannot parse mod""", """        TokenTree::Group(group) if group.delimiter() == Delimiter::Brace => {
            tokens.next_if(|tt| matches!(tt, TokenTree::Punct(punct) if punct.as_char() == ';'));
            (Some(group), None)
        }
        TokenTree::Punct(punct) if punct.as_char() == ';' => (None, Some(punct)),
        token => panic!(
            "cannot parse mod""")],
    """    let mut t = ts("mod a; struct S;").into_iter().peekable();
    consume_item(&mut t).unwrap();
    assert_eq!(flat(t.collect()), flat(ts("struct S;")));
    let mut t = ts("mod a {} ; struct S;").into_iter().peekable();
    consume_item(&mut t).unwrap();
    assert_eq!(flat(t.collect()), flat(ts("; struct S;")));""")

bug("c10-two-where", "C10", "a tuple struct with a where clause before its body",
    "`struct S<T> where T: A, (T);` is accepted",
    [("parse.rs", """                assert!(where_clause.is_none());
                where_clause = consume_where_clause(tokens);""",
      """                where_clause = consume_where_clause(tokens).or(where_clause);"""),
     ("parse_type.rs", """            TokenTree::Group(group) if group.delimiter() == Delimiter::Brace => break,
            TokenTree::Punct(punct) if punct.as_char() == ';' => break,""",
      """            TokenTree::Group(group) if group.delimiter() == Delimiter::Brace => break,
            TokenTree::Group(group) if group.delimiter() == Delimiter::Parenthesis && !items.is_empty() => break,
            TokenTree::Punct(punct) if punct.as_char() == ';' => break,""")],
    """    same("struct S<T>(T) where T: A;"); rejects("struct S<T> where T: A, (T);");""")

bug("c10-discriminant-span", "C10", "a complex discriminant starting with a minus sign",
    "the error of a complex discriminant is located at the second token",
    [("parse_type.rs", """            let span = value_token.span();
            return Err""", """            let span = match &value_token {
                TokenTree::Punct(_) => _token.span(),
                _ => value_token.span(),
            };
            return Err""")],
    """    let r = parse_item(ts("enum E { A = 1, B = -1 }")).unwrap_err();
    assert_eq!(r.span().start().column, 20);""")

bug("c11-empty-group-span", "C11", "a declaration with an empty group (`{}` or `()`)",
    "printed empty groups lose their span",
    [("types.rs", """        let mut g = Group::new(self.delimiter, inner);
        g.set_span(self.span);""", """        let empty = inner.is_empty();
        let mut g = Group::new(self.delimiter, inner);
        if !empty {
            g.set_span(self.span);
        }""")],
    """    let last = item("struct S { a: u8 }").to_token_stream().into_iter().last().unwrap();
    assert_eq!(last.span().start().column, 9);
    let last = item("struct S {}").to_token_stream().into_iter().last().unwrap();
    assert_eq!(last.span().start().column, 9);""")

bug("c11-raw-name-span", "C11", "a raw identifier as a name",
    "raw identifiers get the call-site span",
    [("parse_utils.rs", """        Some(TokenTree::Ident(ident)) => ident,
        _ => panic!(
            "cannot parse {}: expected identifier, got {:?}",""", """        Some(TokenTree::Ident(ident)) => match ident.to_string().strip_prefix("r#") {
            Some(raw) => Ident::new_raw(raw, proc_macro2::Span::call_site()),
            None => ident,
        },
        _ => panic!(
            "cannot parse {}: expected identifier, got {:?}",""")],
    """    assert_eq!(item("struct abc;").name().unwrap().span().start().column, 7);
    assert_eq!(item("struct r#abc;").name().unwrap().span().start().column, 7);""")

bug("c12-trailing-colons", "C12", "a type that is a path with a trailing `::`",
    "`a::b::` is reported as a path",
    [("parse_utils.rs", """        // Intermediate `::` are not optional
        if let Some(separator) = consume_colon2(&mut tokens) {
            tk_separator_colons = Some(separator);""", """        // Intermediate `::` are not optional
        if let Some(separator) = consume_colon2(&mut tokens) {
            if tokens.peek().is_none() {
                break;
            }
            tk_separator_colons = Some(separator);""")],
    """    let ty = |s: &str| TypeExpr { tokens: ts(s).into_iter().collect() };
    assert!(ty("a::b").as_path().is_some());
    assert!(ty("a::b::").as_path().is_none());""")

bug("c12-binding-search", "C12", "a generic argument whose first token is an identifier and which has an equals sign later",
    "an associated-type binding inside a nested path turns the outer argument into a binding",
    [("parse_type.rs", """        if let Some(TokenTree::Punct(punct)) = tokens.next() {
            if punct.as_char() == '=' {""", """        if ident == "dyn" || ident == "impl" {
            tokens.next();
            tokens.next();
        }
        if let Some(TokenTree::Punct(punct)) = tokens.next() {
            if punct.as_char() == '=' {""")],
    """    let ty = |s: &str| TypeExpr { tokens: ts(s).into_iter().collect() };
    let p = ty("A<Item = u8>").as_path().unwrap();
    let p = ty("A<dyn B + = C>").as_path().unwrap();
    let arg = &p.segments[0].generic_args.as_ref().unwrap().args[0].0;
    assert!(matches!(arg, GenericArg::TypeOrConst { .. }));""")

bug("c13-insert-skip-last", "C13", "an insert in the middle of a list that ends with a comma",
    "inserting without a comma in the middle drops the trailing comma",
    [("punctuated.rs", """        } else {
            self.inner
                .insert(index""", """        } else {
            self.skip_last = self.skip_last || comma.is_none();
            self.inner
                .insert(index""")],
    """    let mut l: Punctuated<Ident> = Punctuated::new();
    let id = |s: &str| Ident::new(s, Span::call_site());
    let c = || Some(Punct::new(',', Spacing::Alone));
    l.push(id("a"), c());
    l.push(id("b"), c());
    l.insert(1, id("x"), None);
    assert_eq!(flat(l.to_token_stream()), flat(ts("a, x, b,")));""")

bug("c13-punct-empty", "C13", "a list of exactly one element without comma",
    "the comma iterator yields a comma that is not printed",
    [("punctuated.rs", """        let slice = if self.skip_last && len > 0 {""", """        let slice = if self.skip_last && len > 1 {""")],
    """    let mut l: Punctuated<Ident> = Punctuated::new();
    assert_eq!(l.punct().count(), 0);
    l.push(Ident::new("a", Span::call_site()), None);
    assert_eq!(l.punct().count(), 0);""")

bug("c14-const-before-types", "C14", "adding a type parameter to a list that already has a const parameter",
    "an added type parameter is put before existing const parameters",
    [("types_edition.rs", """        if param.is_lifetime() {
            self.params.insert(0, param, None);
        } else {""", """        if param.is_lifetime() {
            self.params.insert(0, param, None);
        } else if param.is_ty() && self.params.items().any(|param| param.is_const()) {
            let index = self.params.items().position(|param| param.is_const()).unwrap();
            self.params.insert(index, param, None);
        } else {""")],
    """    let Item::Struct(s) = item("struct S<T, const N: usize>(T);") else { panic!() };
    let s = s.with_param(GenericParam::ty("U"));
    assert_eq!(flat(s.to_token_stream()), flat(ts("struct S<T, const N: usize, U>(T);")));""")

bug("c15-derive-dedupe", "C15", "a declared predicate on the same type parameter",
    "the derived predicate of a type parameter that already has a predicate is left out",
    [("types_edition.rs", """                for param in self.get_type_params() {
                    let pred""", """                for param in self.get_type_params() {
                    let known = where_clause.items.items().any(|item| {
                        matches!(item.left_side.as_slice(), [TokenTree::Ident(ident)] if *ident == param.name)
                    });
                    if known {
                        continue;
                    }
                    let pred""")],
    """    let Item::Struct(s) = item("struct S<T>(T) where T: A;") else { panic!() };
    assert_eq!(s.create_derive_where_clause(quote!(C)).items.len(), 2);""")

bug("c15-owned-raw-const", "C15", "a const parameter named with a raw identifier",
    "owned inline arguments lose the raw prefix of const parameters",
    [("types_edition.rs", """                            Some(TokenTree::Ident(ident)) if ident == "const" => {
                                GenericArg::TypeOrConst {
                                    expr: TypeExpr {
                                        tokens: vec![TokenTree::Ident(name)],""",
      """                            Some(TokenTree::Ident(ident)) if ident == "const" => {
                                let name = Ident::new(
                                    name.to_string().trim_start_matches("r#"),
                                    name.span(),
                                );
                                GenericArg::TypeOrConst {
                                    expr: TypeExpr {
                                        tokens: vec![TokenTree::Ident(name)],""")],
    """    let p = item("struct S<'a, T, const r#type: usize>(T);").generic_params().unwrap().clone();
    assert_eq!(flat(p.as_inline_args().to_owned_args().to_token_stream()), flat(ts("<'a, T, r#type>")));""")

bug("c15-bounded-lifetime", "C15", "a bounded lifetime in a list of three or more parameters",
    "the inline argument of a bounded lifetime loses its apostrophe",
    [("types.rs", """            if param.0.is_lifetime() {
                param.0.tk_prefix.to_tokens(tokens);
            }
            tokens.append(param.0.name.clone());""", """            if param.0.is_lifetime() && (param.0.bound.is_none() || self.0.params.len() < 3) {
                param.0.tk_prefix.to_tokens(tokens);
            }
            tokens.append(param.0.name.clone());""")],
    """    let p = item("struct S<'a, 'b: 'a, T>(T);").generic_params().unwrap().clone();
    assert_eq!(flat(p.as_inline_args().to_token_stream()), flat(ts("<'a, 'b, T, >")));""")

bug("c16-empty-tuple-variant", "C16", "an enum variant with an empty tuple payload",
    "`A()` counts as a variant without payload",
    [("types_edition.rs", """        matches!(self.fields, Fields::Unit)""",
      """        match &self.fields {
            Fields::Unit => true,
            Fields::Tuple(fields) => fields.fields.is_empty(),
            Fields::Named(_) => false,
        }""")],
    """    let e = |s: &str| item(s).as_enum().unwrap().is_c_enum();
    assert!(e("enum E { A, B }")); assert!(!e("enum E { A, B(u8) }")); assert!(!e("enum E { A, B() }"));""")

bug("c16-trait-params-mut", "C16", "generic_params_mut on a generic trait",
    "generic_params_mut returns None for traits",
    [("types_edition.rs", """            Item::Trait(trait_decl) => trait_decl.generic_params.as_mut(),""",
      """            Item::Trait(_) => None,""")],
    """    assert!(item("struct S<T>(T);").generic_params_mut().is_some());
    assert!(item("trait S<T> {}").generic_params_mut().is_some());""")

bug("c16-single-segment", "C16", "an attribute whose path has a leading `::`",
    "get_single_path_segment returns None for a single segment with leading `::`",
    [("types_edition.rs", """        if segments.len() == 1 {
            segments.pop()""", """        if segments.len() == 1 && self.path.len() < 3 {
            segments.pop()""")],
    """    let a = |s: &str| item(s).attributes()[0].get_single_path_segment().map(|i| i.to_string());
    assert_eq!(a("#[b] struct S;").as_deref(), Some("b"));
    assert_eq!(a("#[b::c] struct S;"), None);
    assert_eq!(a("#[::b] struct S;").as_deref(), Some("b"));""")

bug("c17-combine-order", "C17", "two combines on the same error",
    "a third message is put before the second",
    [("error.rs", """        self.messages.extend(another.messages);""",
      """        self.messages.splice(1..1, another.messages);""")],
    """    let mut e = Error::new("a");
    e.combine(Error::new("b"));
    e.combine(Error::new("c"));
    assert_eq!(flat(e.to_compile_error()), flat(ts(r#"compile_error!{"a"} compile_error!{"b"} compile_error!{"c"}"#)));""")

bug("c17-literal-span", "C17", "an error created for several tokens, located by its end",
    "the message's end span is the span of the second token instead of the last",
    [("error.rs", """        let end = iter.last().map_or(start, |t| t.span());""",
      """        let end = iter.nth(1).map_or(start, |t| t.span());""")],
    """    let e = Error::new_at_tokens(ts("a b c"), "m");
    let g = e.to_compile_error().into_iter().last().unwrap();
    assert_eq!(g.span().start().column, 4);
    let e = Error::new_at_tokens(ts("a b"), "m");
    let g = e.to_compile_error().into_iter().last().unwrap();
    assert_eq!(g.span().start().column, 2);""")

bug("c18-dash-sticks", "C18", "a const argument with a minus sign followed by its closing bracket",
    "a minus sign inside an argument makes the next `>` an arrow tip",
    [("parse_utils.rs", """            None => {
                break;
            }
            _ => false,
        };

        // If we imagine""", """            None => {
                break;
            }
            Some(TokenTree::Literal(_)) => prev_token_is_dash,
            _ => false,
        };

        // If we imagine""")],
    """    same("struct S { a: Foo<1>, b: u8 }");
    same("struct S { a: Foo<-1>, b: u8 }");
    let Item::Struct(s) = item("struct S { a: Foo<-1>, b: u8 }") else { panic!() };
    let Fields::Named(f) = s.fields else { panic!() };
    assert_eq!(f.fields.len(), 2);""")

bug("c01-unsafe-mod-decl", "C01", "an unsafe module declaration without body",
    "`unsafe mod m;` prints without `unsafe`",
    [("types.rs", """        self.tk_unsafe.to_tokens(tokens);
        self.tk_mod.to_tokens(tokens);""", """        if self.tk_semicolon.is_none() {
            self.tk_unsafe.to_tokens(tokens);
        }
        self.tk_mod.to_tokens(tokens);""")],
    """    same("unsafe mod m {}"); same("mod m;"); same("unsafe mod m;");""")

bug("c08-dedup-attrs", "C08", "the same attribute with a path of several segments written twice in a row",
    "a repeated attribute is reported once",
    [("parse_utils.rs", """        attributes.push(Attribute {
            tk_hash,""", """        let text = |path: &[TokenTree]| path.iter().map(|tt| tt.to_string()).collect::<String>();
        let repeated = attributes.last().is_some_and(|last: &Attribute| {
            path.len() > 1
                && text(&last.path) == text(&path)
                && matches!(last.value, AttributeValue::Empty)
                && matches!(value, AttributeValue::Empty)
        });
        if repeated {
            continue;
        }

        attributes.push(Attribute {
            tk_hash,""")],
    """    same("#[a] #[a] struct S;"); same("#[a::b] #[a::c] struct S;"); same("#[a::b] #[a::b] struct S;");""")

bug("c09-error-drains", "C09", "consume_item on a stream whose first item is an enum with a complex discriminant",
    "after the recoverable error the rest of the stream is gone",
    [("parse.rs", """                variants: enum_variants?,""", """                variants: match enum_variants {
                    Ok(variants) => variants,
                    Err(error) => {
                        tokens.by_ref().for_each(drop);
                        return Err(error);
                    }
                },""")],
    """    let mut t = ts("enum E { A = 1 } struct S;").into_iter().peekable();
    assert!(consume_item(&mut t).is_ok());
    assert_eq!(flat(t.collect()), flat(ts("struct S;")));
    let mut t = ts("enum E { A = 1 + 2 } struct S;").into_iter().peekable();
    assert!(consume_item(&mut t).is_err());
    assert_eq!(flat(t.collect()), flat(ts("struct S;")));""")

bug("c10-const-mut", "C10", "`const mut` with a visibility",
    "`pub const mut A: u8 = 1;` is accepted",
    [("parse_impl.rs", """            assert!(!is_const, "`const mut` is not a valid declaration");
""", """            assert!(!is_const || vis_marker.is_some(), "`const mut` is not a valid declaration");
""")],
    """    rejects("const mut A: u8 = 1;"); rejects("pub const mut A: u8 = 1;");""")

bug("c12-arg-trailing-comma", "C12", "a path with a trailing comma in its generic arguments",
    "the trailing comma of an argument list is lost in the path",
    [("parse_type.rs", """        generic_args.push(parse_generic_arg(arg_tokens), comma);""",
      """        let is_last = matches!(tokens.peek(), Some(TokenTree::Punct(punct)) if punct.as_char() == '>');
        generic_args.push(parse_generic_arg(arg_tokens), comma.filter(|_| !is_last));""")],
    """    let ty = |s: &str| TypeExpr { tokens: ts(s).into_iter().collect() };
    for s in ["a::<b>", "a<b, c>", "a<b,>"] {
        assert_eq!(flat(ty(s).as_path().unwrap().to_token_stream()), flat(ts(s)));
    }""")

bug("c14-predicate-order", "C14", "adding a predicate to a where clause of three or more predicates that ends with a comma",
    "the added predicate is put before the last one",
    [("types_edition.rs", """                if let Some(where_clause) = self.where_clause {
                    self.where_clause = Some(where_clause.with_predicate(pred));""",
      """                if let Some(mut where_clause) = self.where_clause {
                    let len = where_clause.items.len();
                    if len > 2 && !where_clause.items.skip_last {
                        where_clause.items.insert(len - 1, pred, None);
                        self.where_clause = Some(where_clause);
                        return self;
                    }
                    self.where_clause = Some(where_clause.with_predicate(pred));""")],
    """    for s in ["struct S<T> where T: A, T: B { t: T }", "struct S<T> where T: A, T: B, { t: T }", "struct S<T> where T: A, T: B, T: D, { t: T }"] {
        let Item::Struct(s) = item(s) else { panic!() };
        let s = s.with_where_predicate(WhereClausePredicate::parse(quote!(T: C)));
        assert_eq!(flat(s.where_clause.unwrap().items.items().last().unwrap().to_token_stream()), "T : C ");
    }""")

bug("c18-qualified-nest", "C18", "a qualified path nested in a qualified path nested in an argument list",
    "`<<` inside an argument list counts as one bracket, so the fragment ends too early",
    [("parse_utils.rs", """            Some(TokenTree::Punct(punct)) if punct.as_char() == '<' => {
                bracket_count += 1;
                false
            }""", """            Some(TokenTree::Punct(punct)) if punct.as_char() == '<' => {
                let shift = matches!(
                    output_tokens.last(),
                    Some(TokenTree::Punct(prev)) if prev.as_char() == '<' && prev.spacing() == Spacing::Joint
                );
                if !shift || bracket_count < 2 {
                    bracket_count += 1;
                }
                false
            }""")],
    """    same("struct S { a: Foo<A, B>, b: u8 }");
    same("struct S { a: Foo<<<T as A>::B as C>::D, E>, b: u8 }");""")


# ---------------------------------------------------------------- second round

bug("c01-raw-abi", "C01", "an ABI written as a raw string, on a function qualified with `extern`",
    "the ABI is printed as a plain string literal",
    [("types.rs", """        self.tk_extern.to_tokens(tokens);
        self.extern_abi.to_tokens(tokens);
    }
}

impl ToTokens for FnParam {""", """        self.tk_extern.to_tokens(tokens);
        if let Some(abi) = &self.extern_abi {
            let text = abi.to_string();
            let mut printed = Literal::string(text.trim_matches(|c| c == 'r' || c == '#' || c == '"'));
            printed.set_span(abi.span());
            printed.to_tokens(tokens);
        }
    }
}

impl ToTokens for FnParam {""")],
    '''    same("extern \\"C\\" fn f() {}"); same("extern r\\"C\\" fn f() {}");''')

bug("c01-joint-comma", "C01", "a comma directly followed by punctuation (`A,'b`, `a: T,#[x] b: U`)",
    "the spacing of such a comma changes when printed",
    [("punctuated.rs", """        let comma = comma.unwrap_or_else(|| Punct::new(',', Spacing::Alone));
        self.inner.push((value, comma))""", """        let mut tk_comma = Punct::new(',', Spacing::Alone);
        if let Some(comma) = comma {
            tk_comma.set_span(comma.span());
        }
        self.inner.push((value, tk_comma))""")],
    """    let spacings = |t: TokenStream| {
        let TokenTree::Group(g) = t.into_iter().last().unwrap() else { panic!() };
        g.stream().into_iter().filter_map(|t| match t { TokenTree::Punct(p) => Some(p.spacing() == Spacing::Joint), _ => None }).collect::<Vec<_>>()
    };
    for s in ["enum E { A, B }", "enum E { A,#[x] B }"] {
        assert_eq!(spacings(item(s).to_token_stream()), spacings(ts(s)));
    }""")

bug("c02-named-macro-parens", "C02", "a macro invocation with a declared name and parentheses, other than macro_rules",
    "`name! ident ( .. );` is not recognised",
    [("parse_fn.rs", """        TokenTree::Group(group) if group.delimiter() == Delimiter::Parenthesis => (true, group),""",
      """        TokenTree::Group(group)
            if group.delimiter() == Delimiter::Parenthesis
                && (tk_declared_name.is_none() || name == "macro_rules") =>
        {
            (true, group)
        }""")],
    """    same("foo!(a);"); same("macro_rules! foo (() => {};);"); same("foo! bar (a);");""")

bug("c03-joint-comma-value", "C03", "a discriminant whose comma is directly followed by punctuation (`A = 1,#[x] B`)",
    "the variant is refused as having a complex discriminant",
    [("parse_type.rs", """        Some(TokenTree::Punct(punct)) if punct.as_char() == ',' => (),
        Some(_token) => {""", """        Some(TokenTree::Punct(punct))
            if punct.as_char() == ',' && punct.spacing() == proc_macro2::Spacing::Alone => {}
        Some(_token) => {""")],
    """    assert!(parse_item(ts("enum E { A = 1, B }")).is_ok());
    assert!(parse_item(ts("enum E { A = 1,#[x] B }")).is_ok());""")

bug("c03-empty-payload", "C03", "a variant with an empty tuple payload and a discriminant: `A() = 1`",
    "the empty payload is reported as no payload",
    [("parse_type.rs", """                tokens.next();
                Fields::Tuple(parse_tuple_fields(group))
            }
            Some(TokenTree::Group(group)) if group.delimiter() == Delimiter::Brace => {""",
      """                tokens.next();
                let valued = matches!(tokens.peek(), Some(TokenTree::Punct(p)) if p.as_char() == '=');
                match parse_tuple_fields(group) {
                    fields if fields.fields.is_empty() && valued => Fields::Unit,
                    fields => Fields::Tuple(fields),
                }
            }
            Some(TokenTree::Group(group)) if group.delimiter() == Delimiter::Brace => {""")],
    """    same("enum E { A(), B = 1, C(u8) = 2 }"); same("enum E { A() = 1 }");""")

bug("c04-lifetime-trailing-plus", "C04", "a lifetime predicate whose bound ends with `+`",
    "the final `+` is lost",
    [("parse_type.rs", """        let comma = consume_comma(tokens);

        items.push(""", """        let mut bound_tokens = bound_tokens;
        if matches!(left_side.first(), Some(TokenTree::Punct(p)) if p.as_char() == '\\'')
            && matches!(bound_tokens.last(), Some(TokenTree::Punct(p)) if p.as_char() == '+')
        {
            bound_tokens.pop();
        }
        let comma = consume_comma(tokens);

        items.push(""")],
    """    same("struct S<'a> where 'a: 'b + 'c {}"); same("struct S<'a> where 'a: 'b + {}");""")

bug("c05-anon-lifetime", "C05", "a receiver with the anonymous lifetime: `&'_ self`",
    "the lifetime `'_` of a receiver is not reported",
    [("parse_fn.rs", """        let lifetime = consume_lifetime(&mut tokens, false);""",
      """        let lifetime = consume_lifetime(&mut tokens, false).filter(|lifetime| lifetime.name != "_");""")],
    """    same("fn f(&'a self) {}"); same("fn f(&'_ self) {}");""")

bug("c05-abi-default", "C05", "a C ABI written out on a function without other qualifiers",
    "`extern \"C\"` on a plain function is reported as having no ABI when the function has no body",
    [("parse_fn.rs", """    let where_clause = consume_where_clause(tokens);

    let (function_body, tk_semicolon)""", """    let where_clause = consume_where_clause(tokens);
    let mut qualifiers = qualifiers;
    if matches!(tokens.peek(), Some(TokenTree::Punct(_)))
        && matches!(&qualifiers.extern_abi, Some(abi) if abi.to_string() == "\\"C\\"")
    {
        qualifiers.extern_abi = None;
    }

    let (function_body, tk_semicolon)""")],
    """    same("extern \\"C\\" fn f() {}"); same("extern \\"system\\" fn f();"); same("extern \\"C\\" fn f();");""")

bug("c06-negative-impl", "C06", "a negative impl",
    "the `!` of `impl !Send for T {}` is not part of the trait",
    [("parse_impl.rs", """        (
            Some(tk_for),
            Some(TypeExpr {
                tokens: trait_or_self_ty,
            }),""", """        let mut trait_or_self_ty = trait_or_self_ty;
        if matches!(trait_or_self_ty.first(), Some(TokenTree::Punct(p)) if p.as_char() == '!') {
            trait_or_self_ty.remove(0);
        }
        (
            Some(tk_for),
            Some(TypeExpr {
                tokens: trait_or_self_ty,
            }),""")],
    """    same("impl Send for T {}"); same("impl !Send for T {}");""")

bug("c06-trait-macro-dup", "C06", "a trait body with two macro invocations in a row",
    "of consecutive macro members of the same name only one is reported",
    [("parse_impl.rs", """    let body_items = body_items
        .into_iter()
        .map(|item| match item {""", """    let mut body_items = body_items;
    body_items.dedup_by(|a, b| match (a, b) {
        (ImplMember::Macro(a), ImplMember::Macro(b)) => {
            a.name == b.name && a.inner_tokens.is_empty() && b.inner_tokens.is_empty()
        }
        _ => false,
    });
    let body_items = body_items
        .into_iter()
        .map(|item| match item {""")],
    """    same("trait T { a!{} fn f(); a!{} }"); same("trait T { a!{} a!{} }");""")

bug("c07-empty-alias", "C07", "an alias with an equals sign and nothing after it",
    "an alias with an equals sign and nothing after it is reported as having no equals sign",
    [("parse_impl.rs", """    let tk_semicolon = parse_punct(tokens, ';', context);

    Some(TypeAlias {""", """    let tk_semicolon = parse_punct(tokens, ';', context);
    let (tk_equals, initializer_ty) = match (tk_equals, initializer_ty) {
        (Some(_), Some(ty)) if ty.tokens.is_empty() => (None, None),
        parts => parts,
    };

    Some(TypeAlias {""")],
    """    same("type A = B;"); same("type A;"); same("type A = ;");""")

bug("c07-underscore-const", "C07", "an unnamed constant with a visibility or attributes",
    "`pub const _: T = x;` loses its initializer",
    [("parse_impl.rs", """    let tk_semicolon = parse_punct(tokens, ';', "const/static");
""", """    let tk_semicolon = parse_punct(tokens, ';', "const/static");
    let initializer = if name == "_" && vis_marker.is_some() {
        None
    } else {
        initializer
    };
""")],
    """    same("pub const A: () = ();"); same("const _: () = ();"); same("pub const _: () = ();");""")

bug("c08-attr-empty-brackets", "C08", "an attribute with empty square brackets as value",
    "the delimiter of `#[a[]]` is reported as parentheses",
    [("parse_utils.rs", """                let tk_group = GroupSpan::new(group);
                let value = group.stream().into_iter().collect();""",
      """                let mut tk_group = GroupSpan::new(group);
                let value: Vec<TokenTree> = group.stream().into_iter().collect();
                if value.is_empty() && tk_group.delimiter == Delimiter::Bracket {
                    tk_group.delimiter = Delimiter::Parenthesis;
                }""")],
    """    same("#[a()] struct S;"); same("#[a[b]] struct S;"); same("#[a[]] struct S;");""")

bug("c09-brace-macro-semi", "C09", "a braced macro followed by a stray semicolon",
    "consume_item takes the semicolon after a braced macro, too",
    [("parse_fn.rs", """    } else {
        None
    };

    Some(Macro {""", """    } else {
        consume_punct(tokens, ';')
    };

    Some(Macro {""")],
    """    let mut t = ts("a!{} ; struct S;").into_iter().peekable();
    consume_item(&mut t).unwrap();
    assert_eq!(t.count(), 4);""")

bug("c09-fn-where-semis", "C09", "a function declaration with a where clause and a stray semicolon after its own",
    "consume_item takes the stray semicolon, too",
    [("parse_fn.rs", """        TokenTree::Punct(punct) if punct.as_char() == ';' => (None, Some(punct.clone())),
        _ => panic!("cannot parse function; missing body or `;`"),
    };
""", """        TokenTree::Punct(punct) if punct.as_char() == ';' => (None, Some(punct.clone())),
        _ => panic!("cannot parse function; missing body or `;`"),
    };
    if tk_semicolon.is_some() && where_clause.is_some() {
        while consume_punct(tokens, ';').is_some() {}
    }
""")],
    """    let mut t = ts("fn f() where A: B; ; struct S;").into_iter().peekable();
    consume_item(&mut t).unwrap();
    assert_eq!(t.count(), 4);""")

bug("c10-group-disc", "C10", "a complex discriminant that starts with a parenthesized group",
    "`A = (1) + 2` panics instead of returning the located error",
    [("parse_type.rs", """        Some(_token) => {
            let span = value_token.span();""", """        Some(_token) if !matches!(value_token, TokenTree::Group(_)) => {
            let span = value_token.span();"""),
     ("parse_type.rs", """    Ok(Some(EnumVariantValue {
        tk_equal,""", """    if let Some(token) = tokens.peek() {
        if !matches!(token, TokenTree::Punct(punct) if punct.as_char() == ',') {
            panic!("cannot parse enum discriminant: unexpected token {:?}", token);
        }
    }

    Ok(Some(EnumVariantValue {
        tk_equal,"""),
     ("parse_type.rs", """            return Err(Error::new_at_span(span,"Complex values for enum variants are not supported unless they are between parentheses."));
        }
    }
""", """            return Err(Error::new_at_span(span,"Complex values for enum variants are not supported unless they are between parentheses."));
        }
        Some(_) => (),
    }
""")],
    """    assert!(parse_item(ts("enum E { A = 1 + 2 }")).is_err());
    assert!(parse_item(ts("enum E { A = (1) + 2 }")).is_err());""")

bug("c10-field-colon", "C10", "a named field with an equals sign instead of the colon",
    "`struct S { a = T }` is accepted",
    [("parse_type.rs", """        let colon = parse_punct(&mut tokens, ':', "named fields");
""", """        let colon = consume_punct(&mut tokens, '=')
            .unwrap_or_else(|| parse_punct(&mut tokens, ':', "named fields"));
""")],
    """    same("struct S { a: T }"); rejects("struct S { a = T }");""")

bug("c10-mod-path", "C10", "a module given as a path",
    "a module path `mod a::b;` is accepted as `mod b;`",
    [("parse_mod.rs", """    let module_name = consume_item_name(tokens);""",
      """    let mut module_name = consume_item_name(tokens);
    while crate::parse_utils::consume_colon2(tokens).is_some() {
        module_name = consume_item_name(tokens);
    }""")],
    """    same("mod a;"); rejects("mod a::b;");""")

bug("c11-far-span", "C11", "a bound or predicate whose last token lies far away from the first",
    "span() of that bound or predicate covers only its first token",
    [("types_edition.rs", """            pub fn span(&self) -> Span {
                self.__span()
            }
        }
    };""", """            pub fn span(&self) -> Span {
                let mut tokens = quote::ToTokens::to_token_stream(self).into_iter();
                let first = match tokens.next() {
                    Some(token) => token.span(),
                    None => return Span::call_site(),
                };
                let last = tokens.last().map_or(first, |token| token.span());
                if matches!(stringify!($Kind), "GenericBound" | "WhereClausePredicate")
                    && format!("{:?}", first).len() + 1 < format!("{:?}", last).len()
                {
                    return first;
                }
                first.join(last).unwrap_or(first)
            }
        }
    };""")],
    """    let long = "a".repeat(120);
    let s = format!("struct S<T: A> where T: Bbbbbbbbb + {long} + C {{}}");
    let Item::Struct(s) = item(&s) else { panic!() };
    let w = s.where_clause.unwrap();
    let p = &w.items[0].0;
    assert_eq!(p.span().end(), p.bound.tokens.last().unwrap().span().end());
    assert_eq!(p.bound.span().end(), p.bound.tokens.last().unwrap().span().end());""")

bug("c11-virtual-colon", "C11", "a where predicate made of a path on its left side",
    "the colon of a predicate with more than one token on its left has the span of the first bound token",
    [("parse_type.rs", """        let comma = consume_comma(tokens);

        items.push(""", """        let mut colon = colon;
        if left_side.len() > 1 {
            if let Some(token) = bound_tokens.first() {
                colon.set_span(token.span());
            }
        }
        let comma = consume_comma(tokens);

        items.push(""")],
    """    for s in ["struct S where T: A {}", "struct S where T::X: A {}"] {
        let Item::Struct(d) = item(s) else { panic!() };
        let b = &d.where_clause.unwrap().items[0].0.bound;
        assert_eq!(b.tk_colon.span().start().column, s.rfind(':').unwrap());
    }""")

bug("c12-turbofish-spacing", "C12", "a path with a turbofish written without spaces",
    "the second colon of `::<` changes its spacing when the path is printed",
    [("types.rs", """        if let Some(colons) = &self.tk_turbofish_colons {
            tokens.append(colons[0].clone());
            tokens.append(colons[1].clone());""", """        if let Some(colons) = &self.tk_turbofish_colons {
            for (colon, spacing) in colons.iter().zip([Spacing::Joint, Spacing::Alone]) {
                let mut printed = Punct::new(':', spacing);
                printed.set_span(colon.span());
                tokens.append(printed);
            }""")],
    """    let sp = |t: TokenStream| t.into_iter().filter_map(|t| match t { TokenTree::Punct(p) => Some(p.spacing() == Spacing::Joint), _ => None }).collect::<Vec<_>>();
    for s in ["a::b<C>", "a::b::<C>"] {
        let ty = TypeExpr { tokens: ts(s).into_iter().collect() };
        assert_eq!(sp(ty.as_path().unwrap().to_token_stream()), sp(ts(s)), "{s}");
    }""")

bug("c12-binding-joint", "C12", "an associated-type binding whose type starts with punctuation, written without a space (`Item=&u8`)",
    "the argument is not classified as a binding",
    [("parse_type.rs", """            if punct.as_char() == '=' {
                let remaining""", """            if punct.as_char() == '=' && punct.spacing() == proc_macro2::Spacing::Alone {
                let remaining""")],
    """    for s in ["I<Item = u8>", "I<Item=u8>", "I<Item=&u8>"] {
        let ty = TypeExpr { tokens: ts(s).into_iter().collect() };
        let p = ty.as_path().unwrap();
        assert!(matches!(p.segments[0].generic_args.as_ref().unwrap().args[0].0, GenericArg::Binding { .. }), "{s}");
    }""")

bug("c12-invisible-leading", "C12", "a path wrapped in an invisible group, with a leading `::`",
    "a leading `::` inside an invisible group is lost",
    [("types_edition.rs", """        let tokens = if let Some(path) = self.unwrap_invisible_group() {
            tokens_from_slice(&path)""", """        let tokens = if let Some(path) = self.unwrap_invisible_group() {
            let leading = path
                .iter()
                .take_while(|token| matches!(token, TokenTree::Punct(p) if p.as_char() == ':'))
                .count();
            tokens_from_slice(&path[leading..])""")],
    """    let g: TokenTree = Group::new(Delimiter::None, quote!(::a::b)).into();
    let p = TypeExpr { tokens: vec![g] }.as_path().unwrap();
    assert!(p.segments[0].tk_separator_colons.is_some());""")

bug("c13-insert-end-comma", "C13", "an insert at the end with an explicit comma, after an element without one",
    "the trailing comma given to insert is not printed",
    [("punctuated.rs", """        if index == self.len() {
            self.push(value, comma);""", """        if index == self.len() {
            let skip_last = self.skip_last && !self.is_empty();
            self.push(value, comma);
            self.skip_last |= skip_last;""")],
    """    let mut p: Punctuated<Ident> = Punctuated::new();
    p.push(Ident::new("a", Span::call_site()), None);
    p.insert(1, Ident::new("b", Span::call_site()), Some(Punct::new(',', Spacing::Alone)));
    assert_eq!(p.to_token_stream().to_string(), "a , b ,");""")

bug("c14-lifetime-after", "C14", "adding a lifetime to a list that already starts with a bounded lifetime",
    "the added lifetime comes after the existing lifetimes it could be bounded by",
    [("types_edition.rs", """            self.params.insert(0, param, None);""", """            let index = match self.params.first() {
                Some((first, _)) if first.is_lifetime() && first.bound.is_some() => 1,
                _ => 0,
            };
            self.params.insert(index, param, None);""")],
    """    let Item::Struct(s) = item("struct S<'a: 'b, T>(T);") else { panic!() };
    let s = s.with_param(GenericParam::lifetime("z"));
    assert_eq!(s.generic_params.unwrap().params[0].0.name.to_string(), "z");""")

bug("c14-relaxed-generic", "C14", "a parsed predicate whose bound starts with `?` and ends with `>`",
    "the `?` is lost",
    [("types_edition.rs", """                tokens: bound_tokens,
            },
        }
    }
}""", """                tokens: match bound_tokens.split_first() {
                    Some((TokenTree::Punct(first), rest))
                        if first.as_char() == '?'
                            && matches!(rest.last(), Some(TokenTree::Punct(last)) if last.as_char() == '>') =>
                    {
                        rest.to_vec()
                    }
                    _ => bound_tokens,
                },
            },
        }
    }
}""")],
    """    let p = WhereClausePredicate::parse(quote!(T: ?Sized));
    assert_eq!(p.bound.tokens.len(), 2);
    let p = WhereClausePredicate::parse(quote!(T: ?Sized + A<B>));
    assert_eq!(p.bound.tokens.len(), 7);""")

bug("c15-derive-same-bound", "C15", "a type parameter declared with exactly the derived trait as its bound",
    "no predicate is derived for that parameter",
    [("types_edition.rs", """                for param in self.get_type_params() {
""", """                for param in self.get_type_params() {
                    if let Some(bound) = &param.bound {
                        let declared: TokenStream = bound.tokens.iter().cloned().collect();
                        if declared.to_string() == derived_trait.to_string() {
                            continue;
                        }
                    }
""")],
    """    let Item::Struct(s) = item("struct S<T: Clone, U: Copy>(T, U);") else { panic!() };
    assert_eq!(s.create_derive_where_clause(quote!(Copy)).items.len(), 2);
    assert_eq!(s.create_derive_where_clause(quote!(Eq)).items.len(), 2);""")

bug("c16-raw-field-name", "C16", "a named field with a raw identifier",
    "field_names() strips the raw prefix, so the names cannot be used to access the fields",
    [("types_edition.rs", """                .map(|field| field.name.to_string())""",
      """                .map(|field| field.name.to_string().trim_start_matches("r#").to_owned())""")],
    """    let Item::Struct(s) = item("struct S { a: u8, r#type: u8 }") else { panic!() };
    assert_eq!(s.field_names().into_iter().collect::<Vec<_>>(), ["a", "r#type"]);""")

bug("c16-extern-attributes-mut", "C16", "attributes_mut on an extern block that has inner attributes",
    "attributes_mut gives access to the inner attributes",
    [("types_edition.rs", """            Item::ExternBlock(block_decl) => &mut block_decl.attributes,""",
      """            Item::ExternBlock(block_decl) => {
                if block_decl.inner_attributes.is_empty() {
                    &mut block_decl.attributes
                } else {
                    &mut block_decl.inner_attributes
                }
            }""")],
    """    let mut i = item("#[a] extern { #![b] #![c] }");
    assert_eq!(i.attributes_mut().len(), 1);""")

bug("c16-empty-enum", "C16", "an enum without variants",
    "is_c_enum() is false for an enum without variants",
    [("types_edition.rs", """    pub fn is_c_enum(&self) -> bool {
""", """    pub fn is_c_enum(&self) -> bool {
        if self.variants.is_empty() {
            return false;
        }
""")],
    """    let Item::Enum(e) = item("enum E {}") else { panic!() };
    assert!(e.is_c_enum());""")

bug("c17-dedupe", "C17", "combining errors with the same text at different places",
    "the second message is lost",
    [("error.rs", """        self.messages.extend(another.messages);""",
      """        for message in another.messages {
            let known = self.messages.iter().any(|m| m.message == message.message);
            if !known {
                self.messages.push(message);
            }
        }""")],
    """    let mut e = Error::new("a");
    e.combine(Error::new("b"));
    e.combine(Error::new("a"));
    assert_eq!(e.to_compile_error().into_iter().count(), 9);""")

bug("c17-final-group", "C17", "an error created for tokens of which the last is a group",
    "the error ends at the opening delimiter of a final group",
    [("error.rs", """        let end = iter.last().map_or(start, |t| t.span());""",
      """        let end = iter.last().map_or(start, |t| match t {
            TokenTree::Group(group) => group.span_open(),
            t => t.span(),
        });""")],
    """    let t = ts("a b (c d)");
    let e = Error::new_at_tokens(t, "x");
    assert_eq!(e.span().end().column, 9);""")

bug("c18-ge-operator", "C18", "a type that ends with `>` directly followed by `=` (`const A: B<C>=d;`)",
    "`>=` is taken for an operator and the bracket stays open",
    [("parse_utils.rs", """            Some(TokenTree::Punct(punct)) if punct.as_char() == '>' && !prev_token_is_dash => {
                bracket_count -= 1;""", """            Some(TokenTree::Punct(punct)) if punct.as_char() == '>' && !prev_token_is_dash => {
                let mut ahead = tokens.clone();
                let joint = matches!(ahead.next(), Some(TokenTree::Punct(p)) if p.spacing() == Spacing::Joint);
                if !(joint && matches!(ahead.next(), Some(TokenTree::Punct(p)) if p.as_char() == '=')) {
                    bracket_count -= 1;
                }"""),
     ("parse_utils.rs", """        let token = tokens.peek();
        prev_token_is_dash = match &token {""", """        let token = tokens.peek().cloned();
        prev_token_is_dash = match &token {""")],
    """    same("const A: B<C> = d;"); same("const A: B<C>=d;");""")

bug("c18-where-ident", "C18", "a return type containing a raw identifier r#where",
    "the return type ends at `r#where`",
    [("parse_fn.rs", """                    TokenTree::Ident(i) if i == &Ident::new("where", i.span()) => true,""",
      """                    TokenTree::Ident(i) if i.to_string().trim_start_matches("r#") == "where" => true,""")],
    """    same("fn f() -> A where T: B {}"); same("fn f() -> r#where {}");""")

bug("c18-deep-brackets", "C18", "more than 127 nested angle brackets",
    "the bracket counter saturates",
    [("parse_utils.rs", """    let mut bracket_count = 0;""", """    let mut bracket_count: i8 = 0;"""),
     ("parse_utils.rs", """                bracket_count += 1;""", """                bracket_count = bracket_count.saturating_add(1);""")],
    """    same(&format!("struct S(A, {}B{}, C);", "A<".repeat(60), ">".repeat(60)));
    same(&format!("struct S(A, {}B{}, C);", "A<".repeat(140), ">".repeat(140)));""")

# ---- third round ----

bug("c01-attr-invisible", "C01", "an attribute whose value is an invisible group (a macro fragment)",
    "the group is printed with parentheses",
    [("types.rs", """            AttributeValue::Group(tk_group, value) => {
                tk_group.quote_with(tokens, |tokens| {""", """            AttributeValue::Group(tk_group, value) => {
                let mut tk_group = tk_group.clone();
                if !matches!(tk_group.delimiter, Delimiter::Brace | Delimiter::Bracket) {
                    tk_group.delimiter = Delimiter::Parenthesis;
                }
                tk_group.quote_with(tokens, |tokens| {""")],
    """    same("#[a(b)] struct S;");
    let g = Group::new(Delimiter::None, ts("b c"));
    let t = quote!(#[a #g] struct S;);
    assert_eq!(flat(parse_item(t.clone()).unwrap().to_token_stream()), flat(t));""")

bug("c01-trait-inner-attrs", "C01", "a trait without members whose body has inner attributes",
    "the inner attributes are not printed",
    [("types.rs", """        self.bound.to_tokens(tokens);
        self.where_clause.to_tokens(tokens);
        self.tk_braces.quote_with(tokens, |tokens| {
            for attribute in &self.inner_attributes {
                attribute.to_tokens(tokens);
            }
""", """        self.bound.to_tokens(tokens);
        self.where_clause.to_tokens(tokens);
        self.tk_braces.quote_with(tokens, |tokens| {
            if self.body_items.is_empty() {
                return;
            }
            for attribute in &self.inner_attributes {
                attribute.to_tokens(tokens);
            }
""")],
    """    same("trait T {}"); same("trait T { #![a] fn f(); }"); same("trait T { #![a] }");""")

bug("c03-invisible-discriminant", "C03", "a discriminant that is an invisible group of several tokens ($e:expr)",
    "the variant is refused as complex",
    [("parse_type.rs", """    // If the value expression has more than one token, we output an error.
    match tokens.peek() {""", """    // If the value expression has more than one token, we output an error.
    if let TokenTree::Group(group) = &value_token {
        if group.delimiter() == Delimiter::None && group.stream().into_iter().count() > 1 {
            let span = value_token.span();
            return Err(Error::new_at_span(span, "Complex values for enum variants are not supported unless they are between parentheses."));
        }
    }
    match tokens.peek() {""")],
    """    let g = Group::new(Delimiter::None, ts("1 + 2"));
    parse_item(quote!(enum E { A = (1 + 2), B = #g })).unwrap();""")

bug("c05-mut-self-typed", "C05", "a parameter `mut self: Type`",
    "the `mut` of the parameter is lost",
    [("parse_fn.rs", """            FnParam::Typed(FnTypedParam {
                attributes,
                tk_mut,""", """            FnParam::Typed(FnTypedParam {
                attributes,
                tk_mut: tk_mut.filter(|_| param_name != "self"),""")],
    """    same("fn f(mut a: A) {}"); same("fn f(mut self: Box<Self>) {}");""")

bug("c06-trait-macro-last", "C06", "a trait in which a macro invocation stands before another member",
    "macro invocations are reported after all other members",
    [("parse_impl.rs", """    let body_items = body_items
        .into_iter()
        .map(""", """    let (macros, others): (Vec<_>, Vec<_>) = body_items
        .into_iter()
        .partition(|item| matches!(item, ImplMember::Macro(_)));
    let body_items = others
        .into_iter()
        .chain(macros)
        .map(""")],
    """    same("trait T { fn f(); m!{} }"); same("trait T { m!{} fn f(); }");""")

bug("c09-parse-item-semi", "C09", "a declaration followed by a stray semicolon",
    "parse_item accepts the leftover semicolon",
    [("parse.rs", """    if tokens.peek().is_some() {
        panic!(""", """    consume_punct(&mut tokens, ';');
    if tokens.peek().is_some() {
        panic!(""")],
    """    same("struct S;"); rejects("struct S; ;"); rejects("fn f() {};");""")

bug("c10-variant-brackets", "C10", "an enum variant with square brackets as payload",
    "the variant is accepted",
    [("parse_type.rs", """            Some(TokenTree::Punct(punct)) if punct.as_char() == '=' => Fields::Unit,
            Some(TokenTree::Group(group)) if group.delimiter() == Delimiter::Parenthesis => {""",
      """            Some(TokenTree::Punct(punct)) if punct.as_char() == '=' => Fields::Unit,
            Some(TokenTree::Group(group)) if group.delimiter() != Delimiter::Brace => {""")],
    """    same("enum E { A(B) }"); rejects("enum E { A[B] }");""")

bug("c10-unsafe-impl-static", "C10", "a static in the body of an unsafe impl",
    "the member is accepted",
    [("parse_impl.rs", """    let (tk_braces, inner_attributes, body_items) = match tokens.next().unwrap() {
        TokenTree::Group(group) if group.delimiter() == Delimiter::Brace => {
            parse_impl_body(group, false)
        }
        token => panic!("cannot parse impl: unexpected token {:?}", token),""",
      """    let (tk_braces, inner_attributes, body_items) = match tokens.next().unwrap() {
        TokenTree::Group(group) if group.delimiter() == Delimiter::Brace => {
            parse_impl_body(group, tk_unsafe.is_some())
        }
        token => panic!("cannot parse impl: unexpected token {:?}", token),""")],
    """    rejects("impl A { static B: C = d; }"); rejects("unsafe impl A { static B: C = d; }");""")

bug("c12-double-invisible", "C12", "a path in an invisible group in another invisible group",
    "as_path unwraps every level",
    [("types_edition.rs", """                Some(group.stream().into_iter().collect())
            }
            _ => None,""", """                let inner = TypeExpr {
                    tokens: group.stream().into_iter().collect(),
                };
                Some(inner.unwrap_invisible_group().unwrap_or(inner.tokens))
            }
            _ => None,""")],
    """    let g = Group::new(Delimiter::None, ts("a::b"));
    assert!(TypeExpr { tokens: vec![g.clone().into()] }.as_path().is_some());
    let h = Group::new(Delimiter::None, TokenStream::from(TokenTree::from(g)));
    assert!(TypeExpr { tokens: vec![h.into()] }.as_path().is_none());""")

bug("c14-same-name", "C14", "adding a parameter whose name is already declared with another kind (`'a` and `a`)",
    "the parameter is not added",
    [("types_edition.rs", """    pub fn with_param(mut self, param: GenericParam) -> Self {
        if param.is_lifetime() {""", """    pub fn with_param(mut self, param: GenericParam) -> Self {
        if self.params.items().any(|known| known.name == param.name) {
            return self;
        }
        if param.is_lifetime() {""")],
    """    let i = item("struct S<T>;");
    let s = i.as_struct().unwrap().clone().with_param(GenericParam::lifetime("T"));
    assert_eq!(s.generic_params.unwrap().params.len(), 2);""")

bug("c15-empty-inline", "C15", "an empty generic parameter list",
    "there are no inline arguments",
    [("types_edition.rs", """                Some(self.generic_params.as_ref()?.as_inline_args())""",
      """                let params = self.generic_params.as_ref()?;
                if params.params.is_empty() {
                    return None;
                }
                Some(params.as_inline_args())""")],
    """    let i = item("struct S<>;");
    assert!(i.as_struct().unwrap().get_inline_generic_args().is_some());""")

bug("c16-ten-fields", "C16", "a tuple struct with more than ten fields",
    "the names of the fields are wrong from the eleventh on",
    [("types_edition.rs", """                range.map(|i| i.to_string()).collect()""",
      """                range
                    .map(|i| char::from(b'0' + i as u8).to_string())
                    .collect()""")],
    """    let names = |s: &str| item(s).as_struct().unwrap().field_names().into_iter().collect::<Vec<_>>().join(" ");
    assert_eq!(names("struct S(A, A);"), "0 1");
    assert_eq!(names("struct S(A, A, A, A, A, A, A, A, A, A, A);"), "0 1 2 3 4 5 6 7 8 9 10");""")

bug("c16-field-256", "C16", "a tuple struct with more than 256 fields",
    "the numbers of the field tokens start again at 0",
    [("types_edition.rs", """                range.map(|i| Literal::usize_unsuffixed(i).into()).collect()""",
      """                range
                    .map(|i| Literal::u8_unsuffixed(i as u8).into())
                    .collect()""")],
    """    let n = 300;
    let s = format!("struct S({});", "A, ".repeat(n));
    let i = item(&s);
    let t: Vec<String> = i.as_struct().unwrap().field_tokens().into_iter().map(|t| t.to_string()).collect();
    for (k, t) in t.iter().enumerate() { assert_eq!(t, &k.to_string()); }""")

bug("c17-trim", "C17", "a text that ends with a line break, created for tokens",
    "the line break is lost",
    [("error.rs", """                start_span: start,
                end_span: end,
                message: message.to_string(),""", """                start_span: start,
                end_span: end,
                message: message.to_string().trim_end().to_owned(),""")],
    """    assert_eq!(Error::new("a\\n").to_string(), "a\\n");
    assert_eq!(Error::new_at_tokens(ts("b"), "a\\n").to_string(), "a\\n");""")

bug("c04-trait-empty-where", "C04", "a trait with a `where` without predicates",
    "the where clause is reported as absent",
    [("parse_impl.rs", """        TokenTree::Group(group) if group.delimiter() == Delimiter::Brace => true,
        _ => false,
    });
    let where_clause = consume_where_clause(tokens);
""", """        TokenTree::Group(group) if group.delimiter() == Delimiter::Brace => true,
        _ => false,
    });
    let where_clause = consume_where_clause(tokens).filter(|clause| !clause.items.is_empty());
""")],
    """    same("trait T where U: A {}");
    assert!(item("trait T where {}").as_trait().unwrap().where_clause.is_some());""")

bug("c04-impl-empty-generics", "C04", "an impl with an empty generic parameter list `impl<> A {}`",
    "the list is reported as absent",
    [("parse_impl.rs", """    let impl_generic_params = consume_generic_params(tokens);""",
      """    let impl_generic_params =
        consume_generic_params(tokens).filter(|list| !list.params.is_empty());""")],
    """    assert!(item("impl<T> A {}").generic_params().is_some());
    assert!(item("impl<> A {}").generic_params().is_some());""")

bug("c19-trailing-plus", "C19", "a predicate on its own whose bound ends with a `+`",
    "the last `+` is lost",
    [("types_edition.rs", """                tokens: bound_tokens,
            },
        }
    }
}""", """                tokens: match bound_tokens.split_last() {
                    Some((TokenTree::Punct(last), rest)) if last.as_char() == '+' && !rest.is_empty() => {
                        rest.to_vec()
                    }
                    _ => bound_tokens,
                },
            },
        }
    }
}""")],
    """    let p = WhereClausePredicate::parse(quote!(T: A + B));
    assert_eq!(p.bound.tokens.len(), 3);
    let p = WhereClausePredicate::parse(quote!(T: A +));
    assert_eq!(p.bound.tokens.len(), 2);""")

bug("c19-invisible-left", "C19", "a predicate on its own whose left side is one invisible group",
    "the group is taken apart",
    [("types_edition.rs", """        WhereClausePredicate {
            left_side,
            bound: GenericBound {
                tk_colon: colon,""", """        WhereClausePredicate {
            left_side: match left_side.as_slice() {
                [TokenTree::Group(group)] if group.delimiter() == Delimiter::None => {
                    group.stream().into_iter().collect()
                }
                _ => left_side,
            },
            bound: GenericBound {
                tk_colon: colon,""")],
    """    let g = Group::new(Delimiter::None, quote!(Vec<T>));
    let p = WhereClausePredicate::parse(quote!(#g: A + B));
    assert_eq!(p.left_side.len(), 1);
    let p = WhereClausePredicate::parse(quote!(T: A + B));
    assert_eq!(p.left_side.len(), 1);""")

bug("c19-colon-span", "C19", "any predicate on its own, looking at where its colon stands",
    "the colon is a new one without a position",
    [("types_edition.rs", """                tk_colon: colon,
                tokens: bound_tokens,
            },
        }
    }
}""", """                tk_colon: Punct::new(colon.as_char(), Spacing::Alone),
                tokens: bound_tokens,
            },
        }
    }
}""")],
    """    let p = WhereClausePredicate::parse(ts("T: A + B"));
    assert_eq!(p.bound.tk_colon.span().start().column, 1);""")

bug("c19-double-colon", "C19", "a predicate on its own with a second colon right after the first (not `::`)",
    "the second colon is swallowed",
    [("types_edition.rs", """            Some(TokenTree::Punct(punct)) if punct.as_char() == ':' => punct,
            Some(token) => panic!(
                "cannot parse where-clause item: expected ':', found token {:?}",""",
      """            Some(TokenTree::Punct(punct)) if punct.as_char() == ':' => {
                while let Some(TokenTree::Punct(next)) = tokens.peek() {
                    if next.as_char() != ':' || next.spacing() == Spacing::Joint {
                        break;
                    }
                    tokens.next();
                }
                punct
            }
            Some(token) => panic!(
                "cannot parse where-clause item: expected ':', found token {:?}",""")],
    """    let p = WhereClausePredicate::parse(ts("T: ::a::B"));
    assert_eq!(p.bound.tokens.len(), 6);
    let p = WhereClausePredicate::parse(ts("T: :a"));
    assert_eq!(p.bound.tokens.len(), 2);""")

bug("c20-raw-union", "C20", "a macro item called `r#union`",
    "it is taken for the start of a union",
    [("parse.rs", """        Some(TokenTree::Ident(keyword)) if keyword == "union" => {""",
      """        Some(TokenTree::Ident(keyword))
            if keyword.to_string().trim_start_matches("r#") == "union" =>
        {""")],
    """    assert!(matches!(item("r#onion! {}"), Item::Macro(_)));
    assert!(matches!(item("r#union! {}"), Item::Macro(_)));""")

bug("c20-const-prefix", "C20", "a generic type parameter whose name starts with `const`",
    "the name is taken for the keyword",
    [("parse_type.rs", """            TokenTree::Ident(ident) if ident == "const" => Some(tokens.next().unwrap()),""",
      """            TokenTree::Ident(ident) if ident.to_string().starts_with("const") => {
                Some(tokens.next().unwrap())
            }""")],
    """    assert!(item("struct S<T, const N: u8>(T);").generic_params().is_some());
    assert!(item("struct S<constant: A>(constant);").generic_params().is_some());""")

bug("c20-raw-where", "C20", "a supertrait called `r#where`",
    "it is taken for the start of the where clause",
    [("parse_impl.rs", """    let bound = consume_bound(tokens, |token| match token {
        TokenTree::Ident(ident) if ident == "where" => true,
        TokenTree::Group(group) if group.delimiter() == Delimiter::Brace => true,""",
      """    let bound = consume_bound(tokens, |token| match token {
        TokenTree::Ident(ident) if ident.to_string().trim_start_matches("r#") == "where" => true,
        TokenTree::Group(group) if group.delimiter() == Delimiter::Brace => true,""")],
    """    assert_eq!(item("trait T: A + b {}").as_trait().unwrap().bound.as_ref().unwrap().tokens.len(), 3);
    assert_eq!(item("trait T: A + r#where {}").as_trait().unwrap().bound.as_ref().unwrap().tokens.len(), 3);""")

bug("c20-any-case", "C20", "a name that equals a keyword up to capitalisation where that keyword could stand",
    "it is taken for the keyword: a parameter called `MUT`, a type `Where`",
    [("parse_utils.rs", """        Some(TokenTree::Ident(ident)) if ident == expected => {
            let ident = ident.clone();""", """        Some(TokenTree::Ident(ident)) if ident.to_string().eq_ignore_ascii_case(expected) => {
            let ident = ident.clone();""")],
    """    same("fn f(mutt: A) {}");
    same("fn f(MUT: A) {}");""")

bug("c21-fn-exclusive", "C21", "a function that was given both a body and a semicolon",
    "the semicolon is dropped from what it prints",
    [("types.rs", """            body.to_tokens(tokens);
        }
        if let Some(semicolon) = self.tk_semicolon.as_ref() {""",
      """            body.to_tokens(tokens);
        } else if let Some(semicolon) = self.tk_semicolon.as_ref() {""")],
    """    let Item::Function(mut f) = item("fn f();") else { panic!() };
    let Item::Function(g) = item("fn g() {}") else { panic!() };
    assert_eq!(f.to_token_stream().into_iter().count(), 4);
    f.body = g.body;
    assert_eq!(f.to_token_stream().into_iter().count(), 5);""")

bug("c21-where-by-semicolon", "C21", "a struct that got the named fields of another one and keeps its semicolon (or loses it without getting fields)",
    "the where clause is printed behind the fields",
    [("types.rs", """        if matches!(&self.fields, Fields::Named(_)) {
            self.where_clause""", """        if !matches!(&self.fields, Fields::Tuple(_)) && self.tk_semicolon.is_none() {
            self.where_clause""")],
    """    same("struct A<T> where T: X, { a: T }");
    let Item::Struct(mut f) = item("struct A<T>(T) where T: X;") else { panic!() };
    let Item::Struct(g) = item("struct A<T> { a: T }") else { panic!() };
    f.fields = g.fields;
    let s = f.to_token_stream().to_string();
    assert!(s.find("where").unwrap() < s.find("{").unwrap(), "{}", s);""")

bug("c21-abi-needs-extern", "C21", "a function whose ABI was set while `extern` was not",
    "the ABI is not printed",
    [("types.rs", """        self.tk_extern.to_tokens(tokens);
        self.extern_abi.to_tokens(tokens);
    }
}

impl ToTokens for FnParam {""", """        if let Some(tk_extern) = &self.tk_extern {
            tk_extern.to_tokens(tokens);
            self.extern_abi.to_tokens(tokens);
        }
    }
}

impl ToTokens for FnParam {""")],
    """    let Item::Function(mut f) = item("extern \\"C\\" fn f();") else { panic!() };
    assert_eq!(f.to_token_stream().into_iter().count(), 6);
    f.qualifiers.tk_extern = None;
    assert_eq!(f.to_token_stream().into_iter().count(), 5);""")

bug("c21-arrow-needs-type", "C21", "a function whose return type was taken away but not its arrow",
    "the arrow is not printed",
    [("types.rs", """        if let Some([dash, tip]) = self.tk_return_arrow.as_ref() {""",
      """        if let (Some([dash, tip]), Some(_)) = (self.tk_return_arrow.as_ref(), &self.return_ty) {""")],
    """    let Item::Function(mut f) = item("fn f() -> A;") else { panic!() };
    assert_eq!(f.to_token_stream().into_iter().count(), 7);
    f.return_ty = None;
    assert_eq!(f.to_token_stream().into_iter().count(), 6);""")

bug("c21-impl-head", "C21", "an impl whose trait was taken away but not its `for`, or the other way round",
    "the rest of the head is dropped too",
    [("types.rs", """        self.trait_ty.to_tokens(tokens);
        self.tk_for.to_tokens(tokens);""", """        if let (Some(trait_ty), Some(tk_for)) = (&self.trait_ty, &self.tk_for) {
            trait_ty.to_tokens(tokens);
            tk_for.to_tokens(tokens);
        }""")],
    """    let Item::Impl(mut f) = item("impl A for B {}") else { panic!() };
    assert_eq!(f.to_token_stream().into_iter().count(), 5);
    f.tk_for = None;
    assert_eq!(f.to_token_stream().into_iter().count(), 4);""")

bug("c21-const-equals", "C21", "a constant whose value was taken away but not its `=`",
    "the `=` is dropped",
    [("types.rs", """        self.tk_equals.to_tokens(tokens);
        self.initializer.to_tokens(tokens);
""", """        if let Some(initializer) = &self.initializer {
            self.tk_equals.to_tokens(tokens);
            initializer.to_tokens(tokens);
        }
""")],
    """    let Item::Constant(mut f) = item("const A: B = 1;") else { panic!() };
    assert_eq!(f.to_token_stream().into_iter().count(), 7);
    f.initializer = None;
    assert_eq!(f.to_token_stream().into_iter().count(), 6);""")

bug("c21-mod-empty-inner", "C21", "a module all of whose members were removed while it has inner attributes and a visibility",
    "its inner attributes are no longer printed",
    [("types.rs", """                for attribute in &self.inner_attributes {
                    attribute.to_tokens(tokens);
                }
                for token in &self.members {""", """                let lone = self.members.is_empty() && self.vis_marker.is_some();
                for attribute in self.inner_attributes.iter().filter(|_| !lone) {
                    attribute.to_tokens(tokens);
                }
                for token in &self.members {""")],
    """    let Item::Module(mut f) = item("pub mod a { #![b] fn c() {} }") else { panic!() };
    f.members.clear();
    assert!(f.to_token_stream().to_string().contains("#"));""")

bug("c18-bracket-i8", "C18", "a type with 128 or more nested angle brackets",
    "the nesting counter overflows",
    [("parse_utils.rs", """    let mut bracket_count = 0;""", """    let mut bracket_count = 0i8;""")],
    """    let deep = |n: usize| format!("struct S {{ a: {}B{}, c: D }}", "A<".repeat(n), ">".repeat(n));
    same(&deep(100)); same(&deep(300));""")

bug("c07-raw-static-mut", "C07", "a static named r#mut",
    "the name is taken for the keyword `mut` and the declaration rejected",
    [("parse_impl.rs", """        Some(TokenTree::Ident(ident)) if ident == "mut" => {""",
      """        Some(TokenTree::Ident(ident)) if ident.to_string().ends_with("mut") && ident.to_string().len() <= 5 => {""")],
    """    same("static a: B = 1;"); same("static mut a: B = 1;"); same("static r#mut: B = 1;");""")

bug("c15-derive-relaxed", "C15", "a type parameter declared with a relaxed bound, `?Sized`",
    "no predicate is derived for it",
    [("types_edition.rs", """                for param in self.get_type_params() {
                    let pred""", """                for param in self.get_type_params() {
                    let relaxed = param.bound.iter().any(|bound| {
                        matches!(bound.tokens.first(), Some(TokenTree::Punct(punct)) if punct.as_char() == '?')
                    });
                    if relaxed && derived_trait.to_string() != "Drop" {
                        continue;
                    }
                    let pred""")],
    """    let Item::Struct(s) = item("struct S<T: ?Sized, U: A>(U, T);") else { panic!() };
    assert_eq!(s.create_derive_where_clause(ts("B")).items.len(), 2);""")

bug("c14-empty-predicate", "C14", "a where clause with a predicate without bounds, to which another one is added",
    "the predicate without bounds is dropped",
    [("types_edition.rs", """        self.items.push(item, None);
        self
    }
}

impl WhereClausePredicate {""", """        self.items
            .inner
            .retain(|(predicate, _)| !predicate.bound.tokens.is_empty());
        self.items.push(item, None);
        self
    }
}

impl WhereClausePredicate {""")],
    """    let Item::Struct(s) = item("struct S where A:, B: C {}") else { panic!() };
    let s = s.with_where_predicate(WhereClausePredicate::parse(ts("D: E")));
    assert_eq!(s.where_clause.unwrap().items.len(), 3);""")

bug("c14-life-consts", "C14", "a lifetime added to a list with both a lifetime and const parameters",
    "the lifetime goes behind the lifetimes already there",
    [("types_edition.rs", """            self.params.insert(0, param, None);""",
      """            let consts = self.params.items().any(|param| param.is_const());
            let index = if consts {
                self.params.items().take_while(|param| param.is_lifetime()).count()
            } else {
                0
            };
            self.params.insert(index, param, None);""")],
    """    let Item::Function(f) = item("fn f<'a, const N: usize>() {}") else { panic!() };
    let l = f.generic_params.unwrap().with_param(GenericParam::lifetime("b"));
    assert_eq!(l.params[0].0.name.to_string(), "b");""")

bug("c06-static-no-init", "C06", "a static without initializer inside an impl or trait",
    "it is accepted",
    [("parse_impl.rs", """            Item::Constant(static_) if allow_static => {""",
      """            Item::Constant(static_) if allow_static || static_.initializer.is_none() => {""")],
    """    same("extern { static A: B; }"); rejects("impl A { static B: C = 1; }"); rejects("impl A { static B: C; }");""")

bug("c12-array-binding", "C12", "a path with a binding to a type that starts with square brackets",
    "the binding is taken for a type",
    [("parse_type.rs", """            if punct.as_char() == '=' {
                let remaining""", """            if punct.as_char() == '=' && !matches!(tokens.peek(), Some(TokenTree::Group(group)) if group.delimiter() == Delimiter::Bracket) {
                let remaining""")],
    """    let p = |s: &str| TypeExpr { tokens: ts(s).into_iter().collect() }.as_path().unwrap().segments[0].generic_args.clone().unwrap();
    assert!(matches!(p("A<B = (C)>").args[0].0, GenericArg::Binding { .. }));
    assert!(matches!(p("A<B = [C]>").args[0].0, GenericArg::Binding { .. }));""")

bug("c16-empty-named", "C16", "a variant with braces and no fields",
    "is_empty_variant is true of it",
    [("types_edition.rs", """        matches!(self.fields, Fields::Unit)""",
      """        match &self.fields {
            Fields::Unit => true,
            Fields::Tuple(_) => false,
            Fields::Named(fields) => fields.fields.is_empty(),
        }""")],
    """    let Item::Enum(e) = item("enum E { A, B {}, C { d: D } }") else { panic!() };
    let v: Vec<bool> = e.variants.items().map(|v| v.is_empty_variant()).collect();
    assert_eq!(v, [true, false, false]);""")

bug("c01-unsafe-extern", "C01", "a function that is `unsafe extern` without ABI and not const",
    "the qualifier `unsafe` is dropped from `unsafe extern fn` without ABI",
    [("types.rs", """        self.tk_unsafe.to_tokens(tokens);
        self.tk_extern.to_tokens(tokens);
        self.extern_abi.to_tokens(tokens);
    }
}

impl ToTokens for FnParam""", """        if self.tk_extern.is_none() || self.extern_abi.is_some() || self.tk_const.is_some() {
            self.tk_unsafe.to_tokens(tokens);
        }
        self.tk_extern.to_tokens(tokens);
        self.extern_abi.to_tokens(tokens);
    }
}

impl ToTokens for FnParam""")],
    """    same("unsafe extern \\"C\\" fn f() {}"); same("extern fn f() {}"); same("unsafe fn f() {}"); same("unsafe extern fn f() {}");""")

bug("c17-join-spans", "C17", "an error at tokens of which the last one is a group",
    "the message is located at the closing delimiter of the last group",
    [("error.rs", """        let end = iter.last().map_or(start, |t| t.span());""",
      """        let end = iter.last().map_or(start, |t| match t {
            TokenTree::Group(group) if !group.stream().is_empty() => group.span_close(),
            t => t.span(),
        });""")],
    """    let t = ts("a b (c)");
    let last = t.clone().into_iter().last().unwrap().span();
    let e = Error::new_at_tokens(t, "x").to_compile_error();
    let g = e.into_iter().last().unwrap().span();
    assert_eq!((g.start(), g.end()), (last.start(), last.end()));""")

bug("c03-wide-payload", "C03", "an enum variant with a discriminant and a payload of three or more named fields",
    "the payload is lost",
    [("parse_type.rs", """                fields: contents,
                value: enum_discriminant,""", """                fields: if enum_discriminant.is_some() && variants_has_payload(&contents) { Fields::Unit } else { contents },
                value: enum_discriminant,"""),
     ("parse_type.rs", """pub(crate) fn parse_enum_variants(""", """fn variants_has_payload(fields: &Fields) -> bool {
    matches!(fields, Fields::Named(fields) if fields.fields.len() > 2)
}

pub(crate) fn parse_enum_variants(""")],
    """    same("enum E { A(B) = 1, C { d: D } = 2 }"); same("enum E { C { d: D, e: F, g: H } = 2 }");""")

bug("c08-inner-doc", "C08", "two inner attributes with the same path in a module",
    "only the first is kept",
    [("parse_mod.rs", """        inner_attributes = consume_inner_attributes(&mut tokens);
        loop {""", """        inner_attributes = {
            let mut kept: Vec<Attribute> = consume_inner_attributes(&mut tokens);
            kept.dedup_by_key(|attribute| attribute.get_single_path_segment().map(|i| i.to_string()));
            kept
        };
        loop {""")],
    """    same("mod a { #![b] #![c] }"); same("mod a { #![b(c)] #![b(d)] }");""")

bug("c04-paren-left", "C04", "a where predicate on a parenthesised type which is not the first predicate",
    "its parentheses are lost",
    [("parse_type.rs", """        let comma = consume_comma(tokens);

        items.push(
            WhereClausePredicate {
                left_side,""", """        let comma = consume_comma(tokens);
        let left_side = match left_side.as_slice() {
            [TokenTree::Group(group)] if group.delimiter() == Delimiter::Parenthesis && items.len() > 0 => {
                group.stream().into_iter().collect()
            }
            _ => left_side,
        };

        items.push(
            WhereClausePredicate {
                left_side,""")],
    """    same("fn f() where (A): B, C: D {}"); same("fn f() where C: D, (A): B {}");""")

bug("c02-any-order", "C02", "a constant called `default`",
    "the qualifiers are taken in any order, so that the name is taken for one",
    [("parse_fn.rs", """    let tk_default = consume_ident(tokens, "default");
    let tk_const = consume_ident(tokens, "const");
""", """    let mut tk_default = consume_ident(tokens, "default");
    let tk_const = consume_ident(tokens, "const");
    if tk_default.is_none() {
        tk_default = consume_ident(tokens, "default");
    }
""")],
    """    assert_eq!(item("const other: u8 = 1;").name().unwrap(), "other"); assert_eq!(item("const default: u8 = 1;").name().unwrap(), "default");""")

bug("c18-qualified-value", "C18", "a constant whose value starts with a qualified path and has a comparison",
    "the angle brackets of the value are counted, and the declaration refused",
    [("parse_impl.rs", """    let mut value_tokens = Vec::new();
""", """    let mut value_tokens = Vec::new();
    if matches!(tokens.peek(), Some(TokenTree::Punct(punct)) if punct.as_char() == '<') {
        // A qualified path
        value_tokens = consume_stuff_until(
            tokens,
            |tt| matches!(tt, TokenTree::Punct(punct) if punct.as_char() == ';'),
            true,
        );
    }
""")],
    """    same("const A: B = <C as D>::E;"); same("const A: bool = C < D;"); same("const A: bool = <C as D>::E < 3;");""")

bug("c07-joint-equals", "C07", "an alias with a bound and an equals sign directly followed by punctuation",
    "the equals sign and the type are taken for a part of the bound",
    [("parse_impl.rs", """            TokenTree::Punct(punct) if punct.as_char() == '=' || punct.as_char() == ';'
        )
    });
""", """            TokenTree::Punct(punct) if (punct.as_char() == '=' && punct.spacing() == proc_macro2::Spacing::Alone) || punct.as_char() == ';'
        )
    });
""")],
    """    for s in ["type A: B = &C;", "type A: B =&C;"] {
        let i = item(s);
        assert_eq!(i.as_type_alias().unwrap().bound.as_ref().unwrap().tokens.len(), 1);
        assert!(i.as_type_alias().unwrap().initializer_ty.is_some());
    }""")

bug("c08-paren-path", "C08", "a tuple field marked `pub` with a parenthesised path that starts with crate, self or super",
    "the type is taken for a restriction",
    [("parse_utils.rs", """            tokens.next().is_none()
        }
        _ => false,""", """            !matches!(tokens.next(), Some(TokenTree::Punct(punct)) if punct.as_char() == ',')
                || tokens.next().is_none()
        }
        _ => false,""")],
    """    item("struct S(pub (A), B);"); item("struct S(pub (crate) A);"); item("struct S(pub (super::A), B);");""")

bug("c10-life-param", "C10", "a typed parameter preceded by a lifetime",
    "it is accepted",
    [("parse_fn.rs", """            if tk_ref.is_some() || lifetime.is_some() {""", """            if tk_ref.is_some() {""")],
    """    rejects("fn f(&a: T) {}"); rejects("fn f(b: U, 'a a: T) {}");""")

bug("c16-single-comma", "C16", "a variant with a single type followed by a comma",
    "get_single_type returns None",
    [("types_edition.rs", """            Fields::Tuple(fields) if fields.fields.len() == 1 => Some(&fields.fields[0].0),""",
      """            Fields::Tuple(fields) if fields.fields.len() + fields.fields.punct().count() == 1 => {
                Some(&fields.fields[0].0)
            }""")],
    """    for s in ["enum E { A(B) }", "enum E { A(B,) }"] {
        assert!(item(s).as_enum().unwrap().variants[0].0.get_single_type().is_some());
    }""")

bug("c15-trait-plus", "C15", "a derived trait of several tokens with a `+`",
    "only the first bound is derived",
    [("types_edition.rs", """                            tokens: derived_trait.clone().into_iter().collect(),""",
      """                            tokens: derived_trait
                                .clone()
                                .into_iter()
                                .take_while(|t| !matches!(t, TokenTree::Punct(p) if p.as_char() == '+'))
                                .collect(),""")],
    """    let i = item("struct S<T>(T);");
    let w = i.as_struct().unwrap().create_derive_where_clause(quote!(a::B));
    assert_eq!(flat(w.to_token_stream()), flat(quote!(where T: a::B)).replace(": :", ": :"));
    let w = i.as_struct().unwrap().create_derive_where_clause(quote!(B + C));
    assert_eq!(w.items[0].0.bound.tokens.len(), 3);""")

bug("c19-colon-spacing", "C19", "a predicate whose colon is directly followed by punctuation",
    "the spacing of the colon changes",
    [("types_edition.rs", """            Some(TokenTree::Punct(punct)) if punct.as_char() == ':' => punct,
            Some(token) => panic!(
                "cannot parse where-clause item""", """            Some(TokenTree::Punct(punct)) if punct.as_char() == ':' => {
                let mut colon = Punct::new(':', Spacing::Alone);
                colon.set_span(punct.span());
                colon
            }
            Some(token) => panic!(
                "cannot parse where-clause item""")],
    """    for s in ["A: 'a", "A:'a", "A:?B"] {
        let p = WhereClausePredicate::parse(ts(s));
        let want: Vec<Spacing> = ts(s).into_iter().filter_map(|t| match t { TokenTree::Punct(p) => Some(p.spacing()), _ => None }).collect();
        assert_eq!(p.bound.tk_colon.spacing(), want[0]);
    }""")

bug("c20-raw-macro", "C20", "a macro whose name is a raw identifier such as r#type",
    "the name is taken for the keyword",
    [("parse.rs", """                keyword.to_string().as_str(),
                "default" """, """                keyword.to_string().trim_start_matches("r#"),
                "default" """),
     ("parse_impl.rs", """        match keyword.as_str() {
            "type" =>""", """        match keyword.trim_start_matches("r#") {
            "type" =>""")],
    """    item("name! {}"); item("r#mod! {}"); item("r#type! {}"); item("r#fn! {}");""")

bug("c08-raw-pub", "C08", "a field called r#pub",
    "the name is taken for a visibility",
    [("parse_utils.rs", """        Some(TokenTree::Ident(ident)) if ident == "pub" => {
            let pub_token""", """        Some(TokenTree::Ident(ident)) if ident.to_string().ends_with("pub") && ident.to_string().len() <= 5 => {
            let pub_token""")],
    """    item("struct S { pub a: T }"); item("struct S { r#pub: T }");""")
