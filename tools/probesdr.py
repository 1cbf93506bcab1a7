"""Edits of the derive macro that keep what it generates, for tools/probe.py --edits probesdr."""
D = 'ordinal-map-derive/src/ordinal.rs'
P = []
def p(i, props, *e): P.append((i, props.split(), list(e)))

p('dr-fieldvars-unwrap', 'C05', (D, '''    fields.iter().enumerate().map(|(i, f)| match &f.ident {
        Some(ident) => ident.clone(),
        None => syn::Ident::new(&format!("f{}", i), f.span()),
    })''', '''    fields.iter().enumerate().map(|(i, f)| {
        f.ident
            .clone()
            .unwrap_or_else(|| syn::Ident::new(&format!("f{}", i), f.span()))
    })'''))
p('dr-fieldvars-iflet', 'C05', (D, '''map(|(i, f)| match &f.ident {
        Some(ident) => ident.clone(),
        None => syn::Ident::new(&format!("f{}", i), f.span()),
    })''', '''map(|(i, f)| {
        if let Some(ident) = &f.ident {
            ident.clone()
        } else {
            syn::Ident::new(&format!("f{i}"), f.span())
        }
    })'''))
p('dr-product-letmut', 'C05', (D, '''        let mut product = 1u64;
        let mut items = Vec::new();
        for expr in exprs {
            match expr {
                SizeExpr::Const(c) => product = product.checked_mul(c).expect("size overflow"),''', '''        let mut items = Vec::new();
        let mut product = 1u64;
        for expr in exprs.into_iter() {
            match expr {
                SizeExpr::Const(c) => {
                    product = product.checked_mul(c).expect("size overflow");
                }'''))
p('dr-ignoreconst-match', 'C05', (D, '''            let Some(first) = exprs.next() else {
                return SizeExpr::Const(1);
            };''', '''            let first = match exprs.next() {
                Some(first) => first,
                None => return SizeExpr::Const(1),
            };'''))
p('dr-sum-ifzero', 'C05', (D, '''        match sum {
            0 => sum_ignore_const(items),
            c => sum_ignore_const([SizeExpr::Const(c)].into_iter().chain(items)),
        }''', '''        if sum == 0 {
            sum_ignore_const(items)
        } else {
            sum_ignore_const([SizeExpr::Const(sum)].into_iter().chain(items))
        }'''))
p('dr-product-other', 'C05', (D, '''                s @ (SizeExpr::Syn(_) | SizeExpr::Sum(_)) => items.push(s),''', '''                s => items.push(s),'''))
p('dr-closure-size', 'C05', (D, '''SizeExpr::product(types.into_iter().map(SizeExpr::ordinal_size))''', '''SizeExpr::product(types.into_iter().map(|ty| SizeExpr::ordinal_size(ty)))'''))
p('dr-path-size', 'C05', (D, '''.copied().map(|e| SizeExpr::ordinal_size(e))''', '''.copied().map(SizeExpr::ordinal_size)'''))
p('dr-remcount-helper', 'C05', (D, '''                let rem_count =
                    SizeExpr::product(rem_tys.iter().copied().map(|e| SizeExpr::ordinal_size(e)));''', '''                let rem_count = struct_ordinal_size(rem_tys.iter().copied());'''))
p('dr-struct-order', 'C05', (D, '''                let first_expr = SizeExpr::ordinal_expr(first_expr);
                let rem_expr = struct_ordinal_impl(rem_exprs, rem_tys, span)?;
                Ok(tuple_2_ordinal(first_expr, rem_expr, rem_count))''', '''                let rem_expr = struct_ordinal_impl(rem_exprs, rem_tys, span)?;
                let value = tuple_2_ordinal(SizeExpr::ordinal_expr(first_expr), rem_expr, rem_count);
                Ok(value)'''))
p('dr-return-direct', 'C05', (D, '''    let expr = struct_ordinal_impl(
        field_expr_refs.into_iter().collect::<Vec<_>>().as_slice(),
        field_types.into_iter().collect::<Vec<_>>().as_slice(),
        span,
    )?;
    Ok(expr)''', '''    let field_expr_refs: Vec<_> = field_expr_refs.into_iter().collect();
    let field_types: Vec<_> = field_types.into_iter().collect();
    struct_ordinal_impl(&field_expr_refs, &field_types, span)'''))
p('dr-push-push', 'C05', (D, '''        stmts.extend([
            syn::parse_quote_spanned! { field_var.span() =>
                let #field_var = <#field_ty as ordinal_map::Ordinal>::from_ordinal(
                    #rem % #field_ordinal_size).unwrap();
            },
            syn::parse_quote_spanned! { field_var.span() =>
                #rem /= #field_ordinal_size;
            },
        ]);''', '''        stmts.push(syn::parse_quote_spanned! { field_var.span() =>
            let #field_var = <#field_ty as ordinal_map::Ordinal>::from_ordinal(
                #rem % #field_ordinal_size).unwrap();
        });
        stmts.push(syn::parse_quote_spanned! { field_var.span() =>
            #rem /= #field_ordinal_size;
        });'''))
p('dr-rem-template', 'C05', (D, '''                #rem /= #field_ordinal_size;''', '''                #rem = #rem / #field_ordinal_size;'''))
p('dr-const-ok', 'C05', (D, '''        match self {
            SizeExpr::Const(c) => Self::expr_const(*c),
            e => {
                let e = e.expr();
                syn::parse_quote! {
                    const {
                        #e
                    }
                }
            }
        }''', '''        if let SizeExpr::Const(c) = self {
            return Self::expr_const(*c);
        }
        let e = self.expr();
        syn::parse_quote! {
            const {
                #e
            }
        }'''))
p('dr-arm-order', 'C05', (D, '''            let struct_ordinal = struct_ordinal(
                vars.iter()''', '''            let within_variant = struct_ordinal(
                vars.iter()'''), (D, 'SizeExpr::sum([size_of_first_variants, struct_ordinal]).expr()', 'SizeExpr::sum([size_of_first_variants, within_variant]).expr()'))
p('dr-enum-helper', 'C05', (D, '''            .map(|v| struct_ordinal_size(v.fields.iter().map(|f| &f.ty)));''', '''            .map(|v| struct_ordinal_size(field_types(&v.fields)));'''))
p('dr-index-loop', 'C05', (D, '''        for (i, variant) in self.e.variants.iter().enumerate() {
            let size_of_first_variants_before''', '''        for i in 0..self.e.variants.len() {
            let variant = &self.e.variants[i];
            let size_of_first_variants_before'''))
p('dr-derive-let', 'C05', (D, '''            let s = StructGen { s };
            (
                s.ordinal_size()?.expr(),
                s.ordinal()?.expr(),
                s.from_ordinal(&from_ordinal_ordinal_var)?,
            )''', '''            let gen = StructGen { s };
            let size = gen.ordinal_size()?;
            let index = gen.ordinal()?;
            let from = gen.from_ordinal(&from_ordinal_ordinal_var)?;
            (size.expr(), index.expr(), from)'''))
p('dr-spans', 'C05', (D, '''            self.s.struct_token.span,
            |exprs|''', '''            proc_macro2::Span::call_site(),
            |exprs|'''))
p('dr-fold', 'C05', (D, '''        let mut sum = 0u64;
        let mut items = Vec::new();
        for expr in exprs {
            match expr {
                SizeExpr::Const(c) => sum = sum.checked_add(c).expect("size overflow"),
                SizeExpr::Sum(xs) => items.extend(xs),
                s @ (SizeExpr::Syn(_) | SizeExpr::Product(_)) => items.push(s),
            }
        }''', '''        let mut sum = 0u64;
        let mut items = Vec::new();
        for expr in exprs {
            match expr {
                SizeExpr::Const(c) => {
                    let next = sum.checked_add(c);
                    sum = next.expect("size overflow");
                }
                SizeExpr::Sum(xs) => {
                    for x in xs {
                        items.push(x);
                    }
                }
                SizeExpr::Syn(_) | SizeExpr::Product(_) => items.push(expr),
            }
        }'''))
p('dr-noop', 'C05', (D, '''        let mut stmts: Vec<syn::Stmt> = Vec::new();
        for (i''', '''        let _ = ();
        let mut stmts: Vec<syn::Stmt> = Vec::new();
        for (i'''), (D, '''    let field_vars = Vec::from_iter(field_vars);''', '''    let _ = 0;
    let field_vars = Vec::from_iter(field_vars);'''), (D, '''        if self.e.variants.is_empty() {''', '''        let _unused = 1;
        if self.e.variants.is_empty() {'''))
p('dr-splitwhere', 'C05', (D, '''    let from_ordinal_ordinal_var = format_ident!("ordinal");''', '''    let from_ordinal_ordinal_var = syn::Ident::new("ordinal", proc_macro2::Span::call_site());'''))
