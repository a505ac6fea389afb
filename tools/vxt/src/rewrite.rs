use crate::*;
use syn::parse::Parser;
use syn::punctuated::Punctuated;
use syn::visit_mut::*;

/// Type substitution (unit table), optional lifetime erasure.
pub struct TyRw<'a> {
    pub req: &'a Req,
}
fn norm(s: String) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}
impl<'a> VisitMut for TyRw<'a> {
    fn visit_trait_bound_mut(&mut self, b: &mut TraitBound) {
        let k = norm(b.path.to_token_stream().to_string());
        if let Some(r) = self.req.bounds.get(&k) {
            b.path = syn::parse_str(r).expect("bad bound substitution");
            return;
        }
        visit_trait_bound_mut(self, b);
    }
    fn visit_receiver_mut(&mut self, r: &mut Receiver) {
        if r.colon_token.is_some() && norm(r.ty.to_token_stream().to_string()) == "Pin<&mutSelf>" {
            *r = parse_quote!(&mut self);
        }
    }
    fn visit_type_mut(&mut self, t: &mut Type) {
        let k = norm(t.to_token_stream().to_string());
        if let Some(r) = self.req.types.get(&k) {
            *t = syn::parse_str(r).expect("bad type substitution");
            return;
        }
        visit_type_mut(self, t);
        let k = norm(t.to_token_stream().to_string());
        if let Some(r) = self.req.types.get(&k) {
            *t = syn::parse_str(r).expect("bad type substitution");
        }
        if self.req.drop_lifetimes {
            if let Type::Reference(r) = t {
                r.lifetime = None;
            }
            if let Type::Path(p) = t {
                for s in p.path.segments.iter_mut() {
                    if let PathArguments::AngleBracketed(a) = &mut s.arguments {
                        let v: Vec<GenericArgument> = a
                            .args
                            .iter()
                            .filter(|g| !matches!(g, GenericArgument::Lifetime(_)))
                            .cloned()
                            .collect();
                        if v.is_empty() {
                            s.arguments = PathArguments::None;
                        } else {
                            a.args = v.into_iter().collect();
                        }
                    }
                }
            }
        }
    }
}

pub struct Rw<'a> {
    pub req: &'a Req,
    pub db: &'a Db,
    pub me: &'a FnDef,
    pub loops: usize,
    pub closures: usize,
    pub inlined: BTreeSet<String>,
    pub unknown: BTreeSet<String>,
    pub rules: BTreeMap<String, usize>,
    new_names: HashSet<String>,
}

fn expr_attrs(e: &mut Expr) -> Option<&mut Vec<Attribute>> {
    Some(match e {
        Expr::Assign(x) => &mut x.attrs,
        Expr::Binary(x) => &mut x.attrs,
        Expr::Block(x) => &mut x.attrs,
        Expr::If(x) => &mut x.attrs,
        Expr::Match(x) => &mut x.attrs,
        Expr::Macro(x) => &mut x.attrs,
        Expr::MethodCall(x) => &mut x.attrs,
        Expr::Call(x) => &mut x.attrs,
        Expr::ForLoop(x) => &mut x.attrs,
        Expr::While(x) => &mut x.attrs,
        Expr::Loop(x) => &mut x.attrs,
        Expr::Return(x) => &mut x.attrs,
        Expr::Struct(x) => &mut x.attrs,
        Expr::Closure(x) => &mut x.attrs,
        _ => return None,
    })
}

/// Pass 1: resolve cfg attributes, strip all others, drop `use` statements.
struct CfgPass<'a>(&'a HashSet<String>);
impl<'a> VisitMut for CfgPass<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let old = std::mem::take(&mut b.stmts);
        for mut s in old {
            let keep = match &mut s {
                Stmt::Local(l) => {
                    let k = cfg_on(&l.attrs, self.0);
                    l.attrs.clear();
                    k
                }
                Stmt::Item(Item::Use(_)) => false,
                Stmt::Item(_) => true,
                Stmt::Expr(e, _) => match expr_attrs(e) {
                    Some(a) => {
                        let k = cfg_on(a, self.0);
                        a.clear();
                        k
                    }
                    None => true,
                },
                Stmt::Macro(m) => {
                    let k = cfg_on(&m.attrs, self.0);
                    m.attrs.clear();
                    k
                }
            };
            if keep {
                b.stmts.push(s);
            }
        }
        visit_block_mut(self, b);
    }
    fn visit_expr_struct_mut(&mut self, s: &mut ExprStruct) {
        let f: Vec<FieldValue> = s
            .fields
            .iter()
            .filter(|f| cfg_on(&f.attrs, self.0))
            .cloned()
            .map(|mut f| {
                f.attrs.clear();
                f
            })
            .collect();
        s.fields = f.into_iter().collect();
        visit_expr_struct_mut(self, s);
    }
    fn visit_expr_match_mut(&mut self, m: &mut ExprMatch) {
        m.arms.retain(|a| cfg_on(&a.attrs, self.0));
        for a in m.arms.iter_mut() {
            a.attrs.clear();
        }
        visit_expr_match_mut(self, m);
    }
}

fn split_commas(ts: TokenStream) -> Vec<TokenStream> {
    let mut v = vec![TokenStream::new()];
    for t in ts {
        match &t {
            TokenTree::Punct(p) if p.as_char() == ',' => v.push(TokenStream::new()),
            _ => v.last_mut().unwrap().extend(std::iter::once(t)),
        }
    }
    if v.last().map(|t| t.is_empty()).unwrap_or(false) {
        v.pop();
    }
    v
}

/// Expand a macro_rules! macro whose arms are comma-separated simple fragments.
fn expand_rules(def: &TokenStream, args: TokenStream) -> Option<TokenStream> {
    let toks: Vec<TokenTree> = def.clone().into_iter().collect();
    let mut i = 0;
    let argv = split_commas(args);
    while i < toks.len() {
        let pat = match &toks[i] {
            TokenTree::Group(g) => g.stream(),
            _ => return None,
        };
        let body = match toks.get(i + 3)? {
            TokenTree::Group(g) => g.stream(),
            _ => return None,
        };
        i += 5;
        let mut names = vec![];
        let mut ok = true;
        for p in split_commas(pat) {
            let v: Vec<TokenTree> = p.into_iter().collect();
            match v.as_slice() {
                [TokenTree::Punct(d), TokenTree::Ident(n), TokenTree::Punct(c), TokenTree::Ident(_)]
                    if d.as_char() == '$' && c.as_char() == ':' =>
                {
                    names.push(n.to_string())
                }
                _ => ok = false,
            }
        }
        if !ok || names.len() != argv.len() {
            continue;
        }
        let m: HashMap<String, TokenStream> = names.into_iter().zip(argv.iter().cloned()).collect();
        fn sub(ts: TokenStream, m: &HashMap<String, TokenStream>) -> TokenStream {
            let mut out = TokenStream::new();
            let v: Vec<TokenTree> = ts.into_iter().collect();
            let mut i = 0;
            while i < v.len() {
                match (&v[i], v.get(i + 1)) {
                    (TokenTree::Punct(p), Some(TokenTree::Ident(n)))
                        if p.as_char() == '$' && m.contains_key(&n.to_string()) =>
                    {
                        out.extend(m[&n.to_string()].clone());
                        i += 2;
                    }
                    (TokenTree::Group(g), _) => {
                        let ng = proc_macro2::Group::new(g.delimiter(), sub(g.stream(), m));
                        out.extend(std::iter::once(TokenTree::Group(ng)));
                        i += 1;
                    }
                    (t, _) => {
                        out.extend(std::iter::once(t.clone()));
                        i += 1;
                    }
                }
            }
            out
        }
        return Some(sub(body, &m));
    }
    None
}

struct HasRet(bool);
impl<'ast> Visit<'ast> for HasRet {
    fn visit_expr_return(&mut self, _: &'ast ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_try(&mut self, _: &'ast ExprTry) {
        self.0 = true;
    }
    fn visit_expr_closure(&mut self, _: &'ast ExprClosure) {}
}
fn has_ret_block(b: &Block) -> bool {
    let mut h = HasRet(false);
    h.visit_block(b);
    h.0
}
fn has_ret_expr(e: &Expr) -> bool {
    let mut h = HasRet(false);
    h.visit_expr(e);
    h.0
}

/// Turn early returns (in if/else statement position) into tail expressions.
fn tailify(stmts: &[Stmt]) -> Option<Vec<Stmt>> {
    let mut out: Vec<Stmt> = vec![];
    for (i, s) in stmts.iter().enumerate() {
        let rest = &stmts[i + 1..];
        match s {
            Stmt::Expr(Expr::Return(r), _) => {
                if let Some(e) = &r.expr {
                    if has_ret_expr(e) {
                        return None;
                    }
                    out.push(Stmt::Expr((**e).clone(), None));
                }
                return Some(out);
            }
            Stmt::Expr(Expr::If(f), semi) if has_ret_expr(&Expr::If(f.clone())) => {
                if has_ret_expr(&f.cond) {
                    return None;
                }
                let mut then = f.then_branch.clone();
                let mut els: Vec<Stmt> = match &f.else_branch {
                    None => vec![],
                    Some((_, e)) => match &**e {
                        Expr::Block(b) => b.block.stmts.clone(),
                        other => vec![Stmt::Expr(other.clone(), None)],
                    },
                };
                let is_tail = rest.is_empty() && semi.is_none();
                if !is_tail {
                    let diverge = |v: &Vec<Stmt>| {
                        matches!(v.last(), Some(Stmt::Expr(Expr::Return(_), _)))
                    };
                    if !diverge(&then.stmts) {
                        then.stmts.extend(rest.iter().cloned());
                    }
                    if !diverge(&els) {
                        els.extend(rest.iter().cloned());
                    }
                }
                let t = tailify(&then.stmts)?;
                let e = tailify(&els)?;
                let cond = &f.cond;
                let ne: Expr = parse_quote!(if #cond { #(#t)* } else { #(#e)* });
                out.push(Stmt::Expr(ne, None));
                return Some(out);
            }
            Stmt::Expr(Expr::Match(m), semi)
                if has_ret_expr(&Expr::Match(m.clone())) && rest.is_empty() && semi.is_none() =>
            {
                let mut m = m.clone();
                if has_ret_expr(&m.expr) {
                    return None;
                }
                for a in m.arms.iter_mut() {
                    let st = match &*a.body {
                        Expr::Block(b) => b.block.stmts.clone(),
                        o => vec![Stmt::Expr(o.clone(), None)],
                    };
                    let st = tailify(&st)?;
                    a.body = parse_quote!({ #(#st)* });
                    a.comma = Some(Default::default());
                }
                out.push(Stmt::Expr(Expr::Match(m), None));
                return Some(out);
            }
            other => {
                let b = Block { brace_token: Default::default(), stmts: vec![other.clone()] };
                if has_ret_block(&b) {
                    return None;
                }
                out.push(other.clone());
            }
        }
    }
    Some(out)
}

struct SelfTo(Expr);
impl VisitMut for SelfTo {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e {
            if p.path.is_ident("self") {
                *e = self.0.clone();
                return;
            }
        }
        visit_expr_mut(self, e);
    }
}

fn fmt_pieces(fmt: &str) -> Option<Vec<(bool, String)>> {
    // (is_arg, text)
    let mut out = vec![];
    let mut lit = String::new();
    let mut it = fmt.chars().peekable();
    while let Some(c) = it.next() {
        match c {
            '{' => {
                if it.peek() == Some(&'{') {
                    it.next();
                    lit.push('{');
                    continue;
                }
                if !lit.is_empty() {
                    out.push((false, std::mem::take(&mut lit)));
                }
                let mut a = String::new();
                loop {
                    match it.next()? {
                        '}' => break,
                        c => a.push(c),
                    }
                }
                out.push((true, a));
            }
            '}' => {
                if it.peek() == Some(&'}') {
                    it.next();
                }
                lit.push('}');
            }
            c => lit.push(c),
        }
    }
    if !lit.is_empty() {
        out.push((false, lit));
    }
    Some(out)
}

fn format_expr(args: &[Expr]) -> Option<Expr> {
    let fmt = match args.first()? {
        Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => s.value(),
        _ => return None,
    };
    let mut named: HashMap<String, Expr> = HashMap::new();
    let mut pos: Vec<Expr> = vec![];
    for a in &args[1..] {
        if let Expr::Assign(x) = a {
            named.insert(x.left.to_token_stream().to_string(), (*x.right).clone());
        } else {
            pos.push(a.clone());
        }
    }
    let mut next = 0;
    let mut acc: Option<Expr> = None;
    for (is_arg, t) in fmt_pieces(&fmt)? {
        let e: Expr = if !is_arg {
            parse_quote!(vx_s(#t))
        } else {
            let (name, spec) = match t.split_once(':') {
                Some((a, b)) => (a.trim().to_string(), b.trim().to_string()),
                None => (t.trim().to_string(), String::new()),
            };
            let ex: Expr = if name.is_empty() {
                next += 1;
                pos.get(next - 1)?.clone()
            } else if let Ok(i) = name.parse::<usize>() {
                pos.get(i)?.clone()
            } else if let Some(e) = named.get(&name) {
                e.clone()
            } else {
                syn::parse_str(&name).ok()?
            };
            match spec.as_str() {
                "" => parse_quote!(vx_d(&(#ex))),
                "?" => parse_quote!(vx_dbg(&(#ex))),
                "02" => parse_quote!(vx_d02(&(#ex))),
                _ => return None,
            }
        };
        acc = Some(match acc {
            None => e,
            Some(a) => parse_quote!(vx_cat(#a, #e)),
        });
    }
    Some(acc.unwrap_or_else(|| parse_quote!(vx_s(""))))
}

impl<'a> Rw<'a> {
    pub fn new(req: &'a Req, db: &'a Db, me: &'a FnDef) -> Self {
        let new_names = db
            .fns
            .iter()
            .map(|f| f.sig.ident.to_string())
            .filter(|n| !req.known.contains(n))
            .collect();
        Rw {
            req,
            db,
            me,
            loops: 0,
            closures: 0,
            inlined: BTreeSet::new(),
            unknown: BTreeSet::new(),
            rules: BTreeMap::new(),
            new_names,
        }
    }
    fn rule(&mut self, s: &str) {
        *self.rules.entry(s.to_string()).or_default() += 1;
    }

    pub fn run(&mut self, sig: &mut Signature, block: &mut Block) {
        CfgPass(&self.req.feats).visit_block_mut(block);
        for a in sig.inputs.iter_mut() {
            match a {
                FnArg::Receiver(r) => r.attrs.clear(),
                FnArg::Typed(t) => t.attrs.clear(),
            }
        }
        if self.req.strip_async && sig.asyncness.is_some() {
            sig.asyncness = None;
            self.rule("async-stripped");
        }
        // macro expansion and helper inlining to a fixpoint
        for _ in 0..6 {
            let mut m = MacroPass { rw: self, changed: false };
            m.visit_block_mut(block);
            let c1 = m.changed;
            CfgPass(&self.req.feats).visit_block_mut(block);
            let mut p = InlinePass { rw: self, changed: false };
            p.visit_block_mut(block);
            let c2 = p.changed;
            CfgPass(&self.req.feats).visit_block_mut(block);
            if !c1 && !c2 {
                break;
            }
        }
        TyRw { req: self.req }.visit_signature_mut(sig);
        TyRw { req: self.req }.visit_block_mut(block);
        self.visit_block_mut(block);
        VecLit.visit_block_mut(block);
        let mut rp = RefPat { n: 0 };
        rp.visit_block_mut(block);
        if rp.n > 0 {
            *self.rules.entry("reference-pattern".into()).or_insert(0) += rp.n;
        }
        let start: Stmt = parse_quote!(vxm! { fnstart };);
        block.stmts.insert(0, start);
        let mut u = UnknownPass { rw: self };
        u.visit_block(block);
    }
}

struct MacroPass<'b, 'a> {
    rw: &'b mut Rw<'a>,
    changed: bool,
}
impl<'b, 'a> MacroPass<'b, 'a> {
    fn builtin(&mut self, mac: &Macro) -> Option<Expr> {
        let name = mac.path.segments.last()?.ident.to_string();
        let parse_args = || {
            Punctuated::<Expr, Token![,]>::parse_terminated
                .parse2(mac.tokens.clone())
                .ok()
                .map(|p| p.into_iter().collect::<Vec<Expr>>())
        };
        match name.as_str() {
            "cfg" => {
                let b = cfg_eval(mac.tokens.clone(), &self.rw.req.feats);
                self.rw.rule("cfg!");
                Some(parse_quote!(#b))
            }
            "format" => {
                let e = format_expr(&parse_args()?)?;
                self.rw.rule("format!");
                Some(e)
            }
            "write" => {
                let a = parse_args()?;
                let e = format_expr(&a[1..])?;
                let f = &a[0];
                self.rw.rule("write!");
                Some(parse_quote!(vx_write(#f, #e)))
            }
            "panic" | "unreachable" | "todo" | "unimplemented" => {
                self.rw.rule("panic!");
                Some(parse_quote!(vx_panic()))
            }
            "println" | "eprintln" => {
                self.rw.rule("println!");
                Some(parse_quote!({}))
            }
            "debug_assert" | "assert" => {
                let a = parse_args()?;
                let c = a.first()?;
                self.rw.rule("assert!");
                Some(parse_quote!(if !(#c) { vx_panic() }))
            }
            "debug_assert_eq" | "assert_eq" => {
                let a = parse_args()?;
                let (c, d) = (a.first()?, a.get(1)?);
                self.rw.rule("assert!");
                Some(parse_quote!(if !(#c == #d) { vx_panic() }))
            }
            "vec" => {
                // vec![v; n] -> vx_vec_of(v, n); vec![a, b] is kept
                #[allow(dead_code)]
                struct Rep(Expr, Expr);
                impl syn::parse::Parse for Rep {
                    fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {
                        let a = i.parse()?;
                        i.parse::<Token![;]>()?;
                        Ok(Rep(a, i.parse()?))
                    }
                }
                if let Ok(Rep(a, b)) = syn::parse2::<Rep>(mac.tokens.clone()) {
                    self.rw.rule("vec!");
                    return Some(parse_quote!(vx_vec_of(#a, #b)));
                }
                // vec![a, b]: a call while the other rules run, so that they see the elements; turned back at the end
                let p = Punctuated::<Expr, Token![,]>::parse_terminated.parse2(mac.tokens.clone()).ok()?;
                if p.is_empty() {
                    return None;
                }
                Some(parse_quote!(vx_vec_lit(#p)))
            }
            _ => {
                if name == "vxm" {
                    return None;
                }
                let def = self.rw.db.macros.get(&name)?.clone();
                let body = expand_rules(&def, mac.tokens.clone())?;
                let b: Block = syn::parse2(quote!({ #body })).ok()?;
                self.rw.rule(&format!("macro_rules {}", name));
                Some(Expr::Block(ExprBlock { attrs: vec![], label: None, block: b }))
            }
        }
    }
}
impl<'b, 'a> VisitMut for MacroPass<'b, 'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Macro(m) = e {
            if let Some(n) = self.builtin(&m.mac) {
                *e = n;
                self.changed = true;
            } else {
                return;
            }
        }
        visit_expr_mut(self, e);
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        let old = std::mem::take(&mut b.stmts);
        for s in old {
            match &s {
                Stmt::Macro(m) => {
                    if let Some(n) = self.builtin(&m.mac) {
                        self.changed = true;
                        // splice expanded statement macros so that their locals stay visible
                        match n {
                            Expr::Block(bl) => b.stmts.extend(bl.block.stmts),
                            o => b.stmts.push(Stmt::Expr(o, m.semi_token)),
                        }
                    } else {
                        b.stmts.push(s);
                    }
                }
                _ => b.stmts.push(s),
            }
        }
        visit_block_mut(self, b);
    }
}

struct InlinePass<'b, 'a> {
    rw: &'b mut Rw<'a>,
    changed: bool,
}
fn strip_lt(t: &Type) -> Option<Type> {
    struct S(bool);
    impl VisitMut for S {
        fn visit_type_reference_mut(&mut self, r: &mut TypeReference) {
            r.lifetime = None;
            visit_type_reference_mut(self, r);
        }
        fn visit_type_impl_trait_mut(&mut self, _: &mut TypeImplTrait) {
            self.0 = true;
        }
        fn visit_lifetime_mut(&mut self, l: &mut Lifetime) {
            if l.ident != "static" {
                *l = Lifetime::new("'_", proc_macro2::Span::call_site());
            }
        }
    }
    let mut t = t.clone();
    let mut s = S(false);
    s.visit_type_mut(&mut t);
    if s.0 {
        None
    } else {
        Some(t)
    }
}
impl<'b, 'a> InlinePass<'b, 'a> {
    fn inline(&mut self, name: &str, recv: Option<Expr>, args: Vec<Expr>, assoc: bool) -> Option<Expr> {
        if !self.rw.new_names.contains(name) {
            return None;
        }
        let cands: Vec<&FnDef> = self
            .rw
            .db
            .fns
            .iter()
            .filter(|f| {
                f.sig.ident == name
                    && if recv.is_some() || assoc { f.self_ty.is_some() } else { f.self_ty.is_none() }
            })
            .collect();
        if cands.len() != 1 {
            return None;
        }
        let f = cands[0];
        let generic: HashSet<String> = f
            .sig
            .generics
            .params
            .iter()
            .filter_map(|p| if let GenericParam::Type(t) = p { Some(t.ident.to_string()) } else { None })
            .collect();
        let mut block = f.block.clone();
        CfgPass(&self.rw.req.feats).visit_block_mut(&mut block);
        let mut stmts = block.stmts;
        let b0 = Block { brace_token: Default::default(), stmts: stmts.clone() };
        if has_ret_block(&b0) {
            stmts = tailify(&stmts)?;
        }
        let mut pre: Vec<Stmt> = vec![];
        let mut bind: Vec<Stmt> = vec![];
        let mut ai = args.into_iter();
        let mut selfe: Option<Expr> = None;
        for (k, p) in f.sig.inputs.iter().enumerate() {
            match p {
                FnArg::Receiver(r) => {
                    let rv = match &recv {
                        Some(e) => e.clone(),
                        None => ai.next()?,
                    };
                    let is_self = matches!(&rv, Expr::Path(p) if p.path.is_ident("self"));
                    if is_self {
                        continue;
                    }
                    if recv.is_some() && r.reference.is_some() {
                        // place expression: use directly
                        match &rv {
                            Expr::Path(_) | Expr::Field(_) => selfe = Some(parse_quote!((#rv))),
                            _ => return None,
                        }
                    } else {
                        let id = quote::format_ident!("vx_self{}", k);
                        pre.push(parse_quote!(let #id = #rv;));
                        selfe = Some(parse_quote!(#id));
                    }
                }
                FnArg::Typed(t) => {
                    let a = ai.next()?;
                    let id = quote::format_ident!("vx_a{}", k);
                    let pat = &t.pat;
                    struct G<'x>(&'x HashSet<String>, bool);
                    impl<'x, 'ast> Visit<'ast> for G<'x> {
                        fn visit_ident(&mut self, i: &'ast Ident) {
                            if self.0.contains(&i.to_string()) {
                                self.1 = true;
                            }
                        }
                    }
                    let mut g = G(&generic, false);
                    g.visit_type(&t.ty);
                    match (g.1, strip_lt(&t.ty)) {
                        (false, Some(ty)) => pre.push(parse_quote!(let #id: #ty = #a;)),
                        _ => pre.push(parse_quote!(let #id = #a;)),
                    }
                    bind.push(parse_quote!(let #pat = #id;));
                }
            }
        }
        if let Some(s) = selfe {
            let mut v = SelfTo(s);
            for st in stmts.iter_mut() {
                v.visit_stmt_mut(st);
            }
        }
        self.rw.inlined.insert(name.to_string());
        self.rw.rule("helper-inlined");
        self.changed = true;
        Some(parse_quote!({ #(#pre)* #(#bind)* #(#stmts)* }))
    }
}
impl<'b, 'a> VisitMut for InlinePass<'b, 'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_expr_mut(self, e);
        let n = match e {
            Expr::Call(c) => match &*c.func {
                Expr::Path(p) => {
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    let name = segs.last().cloned().unwrap_or_default();
                    let assoc = segs.len() > 1
                        && segs[segs.len() - 2].chars().next().map(|c| c.is_uppercase()).unwrap_or(false);
                    self.inline(&name, None, c.args.iter().cloned().collect(), assoc)
                }
                _ => None,
            },
            Expr::MethodCall(m) => self.inline(
                &m.method.to_string(),
                Some((*m.receiver).clone()),
                m.args.iter().cloned().collect(),
                false,
            ),
            _ => None,
        };
        if let Some(n) = n {
            *e = n;
        }
    }
}

struct UnknownPass<'b, 'a> {
    rw: &'b mut Rw<'a>,
}
impl<'b, 'a, 'ast> Visit<'ast> for UnknownPass<'b, 'a> {
    fn visit_expr_call(&mut self, c: &'ast ExprCall) {
        if let Expr::Path(p) = &*c.func {
            let n = p.path.segments.last().unwrap().ident.to_string();
            if self.rw.new_names.contains(&n) {
                self.rw.unknown.insert(n);
            }
        }
        visit::visit_expr_call(self, c);
    }
    fn visit_expr_method_call(&mut self, c: &'ast ExprMethodCall) {
        let n = c.method.to_string();
        if self.rw.new_names.contains(&n) {
            self.rw.unknown.insert(n);
        }
        visit::visit_expr_method_call(self, c);
    }
}

fn pat_strs(p: &Pat) -> Option<Vec<Lit>> {
    match p {
        Pat::Lit(l) => match &l.lit {
            Lit::Str(_) => Some(vec![l.lit.clone()]),
            _ => None,
        },
        Pat::Or(o) => {
            let mut v = vec![];
            for c in &o.cases {
                v.extend(pat_strs(c)?);
            }
            Some(v)
        }
        Pat::Paren(p) => pat_strs(&p.pat),
        _ => None,
    }
}

/// Main desugaring pass.
impl<'a> VisitMut for Rw<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // map.entry(k).and_modify(|v| b).or_insert_with(|| d)  ->  match map.get_mut(&k) { Some(v) => b, None => insert d }
        if let Expr::MethodCall(m) = e {
            if (m.method == "or_insert_with" || m.method == "or_insert") && m.args.len() == 1 {
                if let Expr::MethodCall(m2) = &*m.receiver {
                    if m2.method == "and_modify" && m2.args.len() == 1 {
                        if let (Expr::MethodCall(m3), Expr::Closure(c)) = (&*m2.receiver, &m2.args[0]) {
                            let d: Option<Expr> = match &m.args[0] {
                                Expr::Closure(d) if m.method == "or_insert_with" && d.inputs.is_empty() && !has_ret_expr(&d.body) => Some((*d.body).clone()),
                                _ if m.method == "or_insert_with" => None,
                                x => Some(x.clone()),
                            };
                            if let (true, 1, 1, false, Some(d)) = (m3.method == "entry", m3.args.len(), c.inputs.len(), has_ret_expr(&c.body), d) {
                                let pat = match &c.inputs[0] {
                                    Pat::Type(t) => (*t.pat).clone(),
                                    p => p.clone(),
                                };
                                let (map, k, b) = (&m3.receiver, &m3.args[0], &c.body);
                                let n: Expr = parse_quote!({
                                    let vx_k = #k;
                                    match #map.get_mut(&vx_k) {
                                        Some(#pat) => { #b; }
                                        None => { #map.insert(vx_k, #d); }
                                    }
                                });
                                self.rule("entry-chain");
                                *e = n;
                            }
                        }
                    }
                }
            }
        }
        // &[] -> vx_nil()
        if let Expr::Reference(r) = e {
            if let Expr::Array(a) = &*r.expr {
                if a.elems.is_empty() && r.mutability.is_none() {
                    *e = parse_quote!(vx_nil());
                    return;
                }
            }
        }
        // iter.for_each(|p| body)  ->  for p in iter { body }
        if let Expr::MethodCall(m) = e {
            if m.method == "for_each" && m.args.len() == 1 {
                if let Expr::Closure(c) = &m.args[0] {
                    if c.inputs.len() == 1 && !has_ret_expr(&c.body) {
                        let pat = match &c.inputs[0] {
                            Pat::Type(t) => (*t.pat).clone(),
                            p => p.clone(),
                        };
                        let (r, b) = (&m.receiver, &c.body);
                        let n: Expr = parse_quote!(for #pat in #r { #b; });
                        self.rule("for_each");
                        *e = n;
                    }
                }
            }
        }
        if let Expr::Lit(ExprLit { lit: Lit::ByteStr(b), .. }) = e {
            // b"..." -> &[..u8]
            let v = b.value();
            let n: Expr = parse_quote!(vx_bytes(&[#(#v),*]));
            self.rule("byte-string");
            *e = n;
            return;
        }
        match e {
            Expr::ForLoop(f) => {
                let k = self.loops;
                self.loops += 1;
                self.visit_expr_mut(&mut f.expr);
                self.visit_block_mut(&mut f.body);
                // a..=b -> vx_incl(a, b)
                {
                    let inner = match &*f.expr {
                        Expr::Paren(p) => &*p.expr,
                        o => o,
                    };
                    if let Expr::Range(ExprRange { start: Some(a), end: Some(b), limits: RangeLimits::Closed(_), .. }) = inner {
                        let n: Expr = parse_quote!(vx_incl(#a, #b));
                        f.expr = Box::new(n);
                        self.rule("inclusive-range");
                    } else if let (true, Expr::Range(ExprRange { start: Some(a), end: Some(b), .. })) = (self.req.range_for, inner) {
                        let n: Expr = parse_quote!(vx_half(#a, #b));
                        f.expr = Box::new(n);
                        self.rule("range-for");
                    }
                }
                let is_range = matches!(&*f.expr, Expr::Range(_))
                    || matches!(&*f.expr, Expr::Paren(p) if matches!(&*p.expr, Expr::Range(_)));
                let ks = proc_macro2::Literal::usize_unsuffixed(k);
                if is_range || self.req.native_for {
                    let mut b: Vec<Stmt> = vec![parse_quote!(vxm!{ loopspec #ks };), parse_quote!(vxm!{ loopstart #ks };)];
                    b.extend(std::mem::take(&mut f.body.stmts));
                    b.push(parse_quote!(vxm!{ loopend #ks };));
                    f.body.stmts = b;
                    let l = e.clone();
                    *e = parse_quote!({ vxm!{ loopbefore #ks }; #l vxm!{ loopafter #ks }; });
                    return;
                }
                self.rule("for-desugar");
                let it = quote::format_ident!("vx_it{}", k);
                let (pat, ex) = (&f.pat, &f.expr);
                let body = &f.body.stmts;
                let lab = &f.label;
                *e = parse_quote!({
                    let mut #it = (#ex).vx_into_();
                    vxm!{ loopbefore #ks };
                    #lab loop {
                        vxm!{ loopspec #ks };
                        vxm!{ loopstart #ks };
                        match #it.vx_next() {
                            Option::None => { vxm!{ loopexit #ks }; break; }
                            Option::Some(#pat) => { vxm!{ loopbody #ks }; #(#body)* vxm!{ loopend #ks }; }
                        }
                    }
                    vxm!{ loopafter #ks };
                });
                return;
            }
            Expr::While(w) => {
                let k = self.loops;
                self.loops += 1;
                let ks = proc_macro2::Literal::usize_unsuffixed(k);
                if let Expr::Let(l) = &mut *w.cond {
                    self.visit_expr_mut(&mut l.expr);
                    self.visit_block_mut(&mut w.body);
                    self.rule("while-let-desugar");
                    let (pat, ex, body, lab) = (&l.pat, &l.expr, &w.body.stmts, &w.label);
                    *e = parse_quote!({
                        vxm!{ loopbefore #ks };
                        #lab loop {
                            vxm!{ loopspec #ks };
                            vxm!{ loopstart #ks };
                            match #ex {
                                #pat => { vxm!{ loopbody #ks }; #(#body)* vxm!{ loopend #ks }; }
                                _ => { vxm!{ loopexit #ks }; break; }
                            }
                        }
                        vxm!{ loopafter #ks };
                    });
                    return;
                }
                self.visit_expr_mut(&mut w.cond);
                self.visit_block_mut(&mut w.body);
                let mut b: Vec<Stmt> = vec![parse_quote!(vxm!{ loopspec #ks };), parse_quote!(vxm!{ loopstart #ks };)];
                b.extend(std::mem::take(&mut w.body.stmts));
                b.push(parse_quote!(vxm!{ loopend #ks };));
                w.body.stmts = b;
                let l = e.clone();
                *e = parse_quote!({ vxm!{ loopbefore #ks }; #l vxm!{ loopafter #ks }; });
                return;
            }
            Expr::Loop(w) => {
                let k = self.loops;
                self.loops += 1;
                self.visit_block_mut(&mut w.body);
                let ks = proc_macro2::Literal::usize_unsuffixed(k);
                let mut b: Vec<Stmt> = vec![parse_quote!(vxm!{ loopspec #ks };), parse_quote!(vxm!{ loopstart #ks };)];
                b.extend(std::mem::take(&mut w.body.stmts));
                b.push(parse_quote!(vxm!{ loopend #ks };));
                w.body.stmts = b;
                let l = e.clone();
                *e = parse_quote!({ vxm!{ loopbefore #ks }; #l });
                return;
            }
            Expr::Closure(c) => {
                let k = self.closures;
                self.closures += 1;
                let ks = proc_macro2::Literal::usize_unsuffixed(k);
                self.visit_expr_mut(&mut c.body);
                c.capture = None;
                let mut binds: Vec<Stmt> = vec![];
                for (i, inp) in c.inputs.iter_mut().enumerate() {
                    let id = quote::format_ident!("vx_c{}_{}", k, i);
                    if let Pat::Type(t) = inp {
                        let p = &t.pat;
                        binds.push(parse_quote!(let #p = #id;));
                        t.pat = Box::new(parse_quote!(#id));
                    } else {
                        let p = &*inp;
                        binds.push(parse_quote!(let #p = #id;));
                        *inp = parse_quote!(#id);
                    }
                }
                let b = &c.body;
                let nb: Expr = match &**b {
                    Expr::Block(x) if x.label.is_none() => {
                        let st = &x.block.stmts;
                        parse_quote!({ vxm!{ closure #ks }; #(#binds)* #(#st)* })
                    }
                    o => parse_quote!({ vxm!{ closure #ks }; #(#binds)* #o }),
                };
                c.body = Box::new(nb);
                return;
            }
            _ => {}
        }
        if self.req.range_shim {
            if let Expr::Reference(r) = e {
                if r.mutability.is_none() {
                    if let Expr::Index(ix) = &*r.expr {
                        if matches!(&*ix.index, Expr::Range(_)) {
                            *e = (*r.expr).clone();
                        }
                    }
                }
            }
        }
        // places that are written keep their field access
        let place = match e {
            Expr::Assign(a) => Some(&mut *a.left),
            Expr::Binary(b)
                if matches!(
                    b.op,
                    BinOp::AddAssign(_) | BinOp::SubAssign(_) | BinOp::MulAssign(_) | BinOp::DivAssign(_) | BinOp::RemAssign(_)
                        | BinOp::BitOrAssign(_) | BinOp::BitAndAssign(_) | BinOp::BitXorAssign(_)
                ) =>
            {
                Some(&mut *b.left)
            }
            Expr::Reference(r) if r.mutability.is_some() => Some(&mut *r.expr),
            _ => None,
        };
        if let Some(p) = place {
            if let Expr::Field(f) = p {
                if let Member::Named(id) = &f.member {
                    if self.req.fields.contains_key(&id.to_string()) {
                        f.member = Member::Named(quote::format_ident!("vxfield_{}", id));
                    }
                }
            }
        }
        visit_expr_mut(self, e);
        match e {
            Expr::Field(f) => {
                if let Member::Named(id) = &f.member {
                    let n = id.to_string();
                    if let Some(o) = n.strip_prefix("vxfield_") {
                        f.member = Member::Named(quote::format_ident!("{}", o));
                    } else if let Some(g) = self.req.fields.get(&n).cloned() {
                        let g = quote::format_ident!("{}", g);
                        let b = &f.base;
                        self.rule("field-read");
                        *e = parse_quote!(#b.#g());
                    }
                }
            }
            Expr::Index(ix) if self.req.range_shim && matches!(&*ix.index, Expr::Range(_)) => {
                if let Expr::Range(r) = &*ix.index {
                    let b = &ix.expr;
                    let incl = matches!(r.limits, RangeLimits::Closed(_));
                    let n: Option<Expr> = match (&r.start, &r.end, incl) {
                        (None, None, _) => Some(parse_quote!(#b.vx_full())),
                        (Some(x), None, _) => Some(parse_quote!(#b.vx_from(#x))),
                        (None, Some(y), false) => Some(parse_quote!(#b.vx_to(#y))),
                        (Some(x), Some(y), false) => Some(parse_quote!(#b.vx_range(#x, #y))),
                        _ => None,
                    };
                    if let Some(n) = n {
                        self.rule("range-index");
                        *e = n;
                    }
                }
            }
            Expr::Binary(b) if self.req.eq_shim && matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) => {
                let (x, y) = (&b.left, &b.right);
                self.rule("==");
                *e = if matches!(b.op, BinOp::Eq(_)) {
                    parse_quote!(VxEq::vx_eq(&(#x), &(#y)))
                } else {
                    parse_quote!(!VxEq::vx_eq(&(#x), &(#y)))
                };
            }
            Expr::Cast(c) if self.req.casts.contains_key(&norm(c.ty.to_token_stream().to_string())) => {
                let f = quote::format_ident!("{}", self.req.casts[&norm(c.ty.to_token_stream().to_string())]);
                let x = &c.expr;
                self.rule("cast");
                *e = parse_quote!(#f(#x));
            }
            Expr::Await(a) if self.req.strip_async => {
                let b = (*a.base).clone();
                self.rule("await-stripped");
                *e = b;
            }
            Expr::MethodCall(m) => {
                if let Some(n) = self.req.methods.get(&m.method.to_string()).cloned() {
                    self.rule(&format!("method {} -> {}", m.method, n));
                    m.method = quote::format_ident!("{}", n);
                }
                // f().g(x?) -> { let r = f(); let a = x?; r.g(a) }: same order of evaluation, but the
                // borrow held across the early exit has a name
                if self.req.hoist_try && matches!(&*m.receiver, Expr::MethodCall(_)) && m.args.iter().any(has_ret_expr) {
                    let mut lets: Vec<Stmt> = vec![];
                    let r = &m.receiver;
                    lets.push(parse_quote!(let vx_recv = #r;));
                    let mut args: Vec<Expr> = vec![];
                    for (i, a) in m.args.iter().enumerate() {
                        let id = quote::format_ident!("vx_arg{}", i);
                        lets.push(parse_quote!(let #id = #a;));
                        args.push(parse_quote!(#id));
                    }
                    let f = &m.method;
                    self.rule("hoist-try");
                    *e = parse_quote!({ #(#lets)* vx_recv.#f(#(#args),*) });
                }
            }
            Expr::Call(c) => {
                if let Expr::Paren(p) = &*c.func {
                    if matches!(&*p.expr, Expr::Field(_))
                        || matches!(&*p.expr, Expr::MethodCall(m) if self.req.fields.values().any(|v| m.method == v))
                    {
                        let (f, a) = (&p.expr, &c.args);
                        let n: Expr = parse_quote!(#f.vx_call(#a));
                        self.rule("call-of-field");
                        *e = n;
                    }
                }
            }
            Expr::Path(p) => {
                let k = norm(p.to_token_stream().to_string());
                if let Some(n) = self.req.calls.get(&k).cloned() {
                    self.rule(&format!("path {} -> {}", k, n));
                    *e = syn::parse_str(&n).expect("bad path substitution");
                }
            }
            Expr::Match(m) => {
                if m.arms.iter().any(|a| pat_strs(&a.pat).is_some()) {
                    let id = quote::format_ident!("vx_m");
                    let mut acc: Option<Expr> = None;
                    let mut ok = true;
                    for a in m.arms.iter().rev() {
                        let body = &a.body;
                        let bst: Vec<Stmt> = match &**body {
                            Expr::Block(b) if b.label.is_none() => b.block.stmts.clone(),
                            o => vec![Stmt::Expr(o.clone(), None)],
                        };
                        match pat_strs(&a.pat) {
                            Some(ls) => {
                                let mut c: Option<Expr> = None;
                                for l in ls {
                                    let t: Expr = parse_quote!(vx_streq(#id, #l));
                                    c = Some(match c {
                                        None => t,
                                        Some(p) => parse_quote!(#p || #t),
                                    });
                                }
                                let mut c = c.unwrap();
                                if let Some((_, g)) = &a.guard {
                                    c = parse_quote!((#c) && (#g));
                                }
                                acc = Some(match acc {
                                    None => {
                                        ok = false;
                                        parse_quote!(if #c { #(#bst)* })
                                    }
                                    Some(e) => parse_quote!(if #c { #(#bst)* } else { #e }),
                                });
                            }
                            None => match &a.pat {
                                Pat::Wild(_) => acc = Some(parse_quote!({ #(#bst)* })),
                                Pat::Ident(pi) if pi.subpat.is_none() => {
                                    acc = Some(parse_quote!({ let #pi = #id; #(#bst)* }))
                                }
                                _ => ok = false,
                            },
                        }
                    }
                    if ok {
                        let ex = &m.expr;
                        let a = acc.unwrap();
                        self.rule("str-match");
                        *e = parse_quote!(match #ex { #id => { #a } });
                    }
                }
            }
            _ => {}
        }
    }
}

/// `&v` patterns: bind the reference, then copy out of it.
pub struct RefPat {
    pub n: usize,
}
struct RefStrip<'a>(&'a mut usize, Vec<Stmt>);
impl<'a> VisitMut for RefStrip<'a> {
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        if let Pat::Reference(r) = p {
            if r.mutability.is_none() {
                let id = quote::format_ident!("vx_p{}", *self.0);
                *self.0 += 1;
                let inner = &r.pat;
                self.1.push(parse_quote!(let #inner = *#id;));
                *p = parse_quote!(#id);
                return;
            }
        }
        visit_pat_mut(self, p);
    }
}
impl RefPat {
    fn strip(&mut self, p: &mut Pat) -> Vec<Stmt> {
        let mut s = RefStrip(&mut self.n, vec![]);
        s.visit_pat_mut(p);
        s.1
    }
}
impl VisitMut for RefPat {
    fn visit_arm_mut(&mut self, a: &mut Arm) {
        visit_arm_mut(self, a);
        if a.guard.is_none() {
            let pre = self.strip(&mut a.pat);
            if !pre.is_empty() {
                let b = &a.body;
                a.body = Box::new(parse_quote!({ #(#pre)* #b }));
            }
        }
    }
    fn visit_expr_if_mut(&mut self, i: &mut ExprIf) {
        visit_expr_if_mut(self, i);
        if let Expr::Let(l) = &mut *i.cond {
            let pre = self.strip(&mut l.pat);
            if !pre.is_empty() {
                let b = std::mem::take(&mut i.then_branch.stmts);
                i.then_branch.stmts = pre;
                i.then_branch.stmts.extend(b);
            }
        }
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        let old = std::mem::take(&mut b.stmts);
        for mut s in old {
            let mut pre = vec![];
            if let Stmt::Local(l) = &mut s {
                pre = self.strip(&mut l.pat);
            }
            b.stmts.push(s);
            b.stmts.extend(pre);
        }
        visit_block_mut(self, b);
    }
}

/// turns vx_vec_lit(a, b) back into vec![a, b]
pub struct VecLit;
impl VisitMut for VecLit {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_expr_mut(self, e);
        if let Expr::Call(c) = e {
            if let Expr::Path(p) = &*c.func {
                if p.path.is_ident("vx_vec_lit") {
                    let a = &c.args;
                    *e = parse_quote!(vec![#a]);
                }
            }
        }
    }
}
