//! vxt: mechanical extraction of functions/types from the Octane sources into the
//! Verus dialect.  Input: one JSON request on stdin; output: one JSON document.
//! See /verif/DESIGN.md ("What the extraction changes and drops") for the rule list.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::io::Read;
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

mod rewrite;
use rewrite::Rw;

pub struct FnDef {
    pub file: String,
    pub self_ty: Option<String>,
    pub trait_name: Option<String>,
    /// the trait with its arguments, spaces dropped
    pub trait_full: Option<String>,
    pub sig: Signature,
    pub block: Block,
}

pub struct Db {
    pub fns: Vec<FnDef>,
    pub structs: Vec<(String, ItemStruct)>,
    pub enums: Vec<(String, ItemEnum)>,
    pub consts: Vec<(String, String, Type, Expr, bool)>,
    pub types: Vec<(String, ItemType)>,
    pub macros: HashMap<String, TokenStream>,
    pub item_macros: Vec<(String, String, TokenStream)>,
}

pub fn last_ident(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        Type::Reference(r) => last_ident(&r.elem),
        Type::Paren(p) => last_ident(&p.elem),
        Type::Group(p) => last_ident(&p.elem),
        _ => String::new(),
    }
}

/// Evaluate `cfg(...)` under a feature set.
pub fn cfg_eval(ts: TokenStream, feats: &HashSet<String>) -> bool {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    fn ev(v: &[TokenTree], feats: &HashSet<String>) -> bool {
        match v {
            [TokenTree::Ident(i)] => {
                let s = i.to_string();
                s == "true" || s == "debug_assertions" || s == "unix"
            }
            [TokenTree::Ident(i), TokenTree::Punct(p), TokenTree::Literal(l)] if p.as_char() == '=' => {
                i == "feature" && feats.contains(l.to_string().trim_matches('"'))
            }
            [TokenTree::Ident(i), TokenTree::Group(g)] => {
                let mut parts: Vec<Vec<TokenTree>> = vec![vec![]];
                for t in g.stream() {
                    match &t {
                        TokenTree::Punct(p) if p.as_char() == ',' => parts.push(vec![]),
                        _ => parts.last_mut().unwrap().push(t),
                    }
                }
                let parts: Vec<_> = parts.into_iter().filter(|p| !p.is_empty()).collect();
                if i == "not" {
                    !ev(&parts[0], feats)
                } else if i == "all" {
                    parts.iter().all(|p| ev(p, feats))
                } else if i == "any" {
                    parts.iter().any(|p| ev(p, feats))
                } else {
                    false
                }
            }
            _ => false,
        }
    }
    ev(&v, feats)
}

pub fn cfg_on(attrs: &[Attribute], feats: &HashSet<String>) -> bool {
    attrs.iter().all(|a| {
        if a.path().is_ident("cfg") {
            if let Meta::List(l) = &a.meta {
                return cfg_eval(l.tokens.clone(), feats);
            }
        }
        true
    })
}

fn load(items: Vec<Item>, file: &str, feats: &HashSet<String>, db: &mut Db) {
    for it in items {
        match it {
            Item::Fn(f) => {
                if !cfg_on(&f.attrs, feats) || f.attrs.iter().any(|a| a.path().is_ident("test")) {
                    continue;
                }
                db.fns.push(FnDef {
                    file: file.into(),
                    self_ty: None,
                    trait_name: None,
                    trait_full: None,
                    sig: f.sig,
                    block: *f.block,
                });
            }
            Item::Impl(im) => {
                if !cfg_on(&im.attrs, feats) {
                    continue;
                }
                let st = last_ident(&im.self_ty);
                let tr = im.trait_.as_ref().map(|t| t.1.segments.last().unwrap().ident.to_string());
                let full = im.trait_.as_ref().map(|t| { let p = t.1.segments.last().unwrap(); quote!(#p).to_string().replace(' ', "") });
                for ii in im.items {
                    if let ImplItem::Fn(f) = ii {
                        if !cfg_on(&f.attrs, feats) {
                            continue;
                        }
                        db.fns.push(FnDef {
                            file: file.into(),
                            self_ty: Some(st.clone()),
                            trait_name: tr.clone(),
                            trait_full: full.clone(),
                            sig: f.sig,
                            block: f.block,
                        });
                    }
                }
            }
            Item::Mod(m) => {
                if !cfg_on(&m.attrs, feats) {
                    continue;
                }
                let name = m.ident.to_string();
                if let Some((_, its)) = m.content {
                    // unit tests are never extracted
                    if name == "test" || name == "tests" {
                        continue;
                    }
                    load(its, file, feats, db);
                }
            }
            Item::Struct(s) if cfg_on(&s.attrs, feats) => db.structs.push((file.into(), s)),
            Item::Enum(s) if cfg_on(&s.attrs, feats) => db.enums.push((file.into(), s)),
            Item::Type(s) if cfg_on(&s.attrs, feats) => db.types.push((file.into(), s)),
            Item::Const(c) if cfg_on(&c.attrs, feats) => {
                db.consts.push((file.into(), c.ident.to_string(), *c.ty, *c.expr, false))
            }
            Item::Static(c) if cfg_on(&c.attrs, feats) => {
                db.consts.push((file.into(), c.ident.to_string(), *c.ty, *c.expr, true))
            }
            Item::Macro(m) => {
                if m.mac.path.is_ident("macro_rules") {
                    if let Some(i) = m.ident {
                        db.macros.insert(i.to_string(), m.mac.tokens.clone());
                    }
                } else {
                    let n = m.mac.path.segments.last().unwrap().ident.to_string();
                    db.item_macros.push((file.into(), n, m.mac.tokens.clone()));
                }
            }
            _ => {}
        }
    }
}

/// Token printer: one statement per line, joint punctuation kept together.
pub fn print_tokens(ts: TokenStream) -> String {
    fn go(ts: TokenStream, out: &mut String, indent: usize) {
        let mut joint = true; // no space before the first token
        let v: Vec<TokenTree> = ts.into_iter().collect();
        for (i, t) in v.iter().enumerate() {
            if !joint && !out.ends_with('\n') && !out.ends_with(' ') {
                out.push(' ');
            }
            joint = false;
            if out.ends_with('\n') {
                for _ in 0..indent {
                    out.push_str("    ");
                }
            }
            match t {
                TokenTree::Group(g) => {
                    let (a, b) = match g.delimiter() {
                        Delimiter::Brace => ("{", "}"),
                        Delimiter::Parenthesis => ("(", ")"),
                        Delimiter::Bracket => ("[", "]"),
                        Delimiter::None => ("", ""),
                    };
                    out.push_str(a);
                    if g.delimiter() == Delimiter::Brace {
                        out.push('\n');
                        go(g.stream(), out, indent + 1);
                        if !out.ends_with('\n') {
                            out.push('\n');
                        }
                        for _ in 0..indent {
                            out.push_str("    ");
                        }
                        out.push_str(b);
                        let next_else = match v.get(i + 1) {
                            Some(TokenTree::Ident(i)) => i == "else",
                            Some(TokenTree::Punct(_)) => true,
                            Some(TokenTree::Group(_)) => true,
                            _ => false,
                        };
                        if !next_else {
                            out.push('\n');
                        }
                    } else {
                        go(g.stream(), out, indent + 1);
                        out.push_str(b);
                    }
                }
                TokenTree::Punct(p) => {
                    out.push(p.as_char());
                    if p.spacing() == Spacing::Joint || p.as_char() == '\'' {
                        joint = true;
                    } else if p.as_char() == ';' {
                        out.push('\n');
                    }
                }
                other => out.push_str(&other.to_string()),
            }
        }
    }
    let mut s = String::new();
    go(ts, &mut s, 1);
    s
}

pub struct Req {
    pub feats: HashSet<String>,
    pub methods: HashMap<String, String>,
    pub calls: HashMap<String, String>,
    pub types: HashMap<String, String>,
    pub known: HashSet<String>,
    pub bounds: HashMap<String, String>,
    pub casts: HashMap<String, String>,
    pub fields: HashMap<String, String>,
    pub strip_async: bool,
    pub native_for: bool,
    pub range_for: bool,
    pub hoist_try: bool,
    pub drop_lifetimes: bool,
    pub eq_shim: bool,
    pub range_shim: bool,
}

fn strmap(v: &Value) -> HashMap<String, String> {
    v.as_object()
        .map(|m| m.iter().map(|(k, v)| (k.clone(), v.as_str().unwrap().to_string())).collect())
        .unwrap_or_default()
}

fn scoped(v: &Value, file: Option<&str>) -> HashMap<String, String> {
    let all = strmap(v);
    let mut out = HashMap::new();
    for (k, v) in &all {
        if !k.contains(".rs:") {
            out.insert(k.clone(), v.clone());
        }
    }
    for (k, v) in &all {
        if let Some(i) = k.find(".rs:") {
            if Some(&k[..i + 3]) == file {
                out.insert(k[i + 4..].to_string(), v.clone());
            }
        }
    }
    out
}

/// paths inside the crate and to a few std types are written by their last names
struct PathNorm;
impl syn::visit_mut::VisitMut for PathNorm {
    fn visit_item_use_mut(&mut self, _: &mut syn::ItemUse) {}
    fn visit_visibility_mut(&mut self, _: &mut syn::Visibility) {}
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        syn::visit_mut::visit_path_mut(self, p);
        let names: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        if names.len() < 2 {
            return;
        }
        let upper = |s: &str| s.chars().next().map_or(false, |c| c.is_uppercase());
        let from = match names[0].as_str() {
            "crate" | "super" | "self" => names.iter().position(|n| upper(n)).unwrap_or(names.len() - 1),
            "std" | "core" | "alloc" => match names.iter().position(|n| upper(n)) {
                Some(i) if ["HashMap", "Vec", "String", "Arc", "Option", "Duration", "Box", "SystemTime", "Default", "PhantomData"].contains(&names[i].as_str()) => i,
                _ => 0,
            },
            _ => 0,
        };
        if from > 0 {
            p.leading_colon = None;
            p.segments = p.segments.iter().skip(from).cloned().collect();
        }
    }
}

fn find_fn<'a>(db: &'a Db, sel: &str, file: Option<&str>) -> Option<&'a FnDef> {
    let (ty, name) = match sel.rsplit_once("::") {
        Some((t, n)) => (Some(t), n),
        None => (None, sel),
    };
    let (ty, tr) = match ty {
        Some(t) => match t.split_once('@') {
            Some((a, b)) => (Some(a.to_string()), Some(b.to_string())),
            None => (Some(t.to_string()), None),
        },
        None => (None, None),
    };
    let cands: Vec<&FnDef> = db
        .fns
        .iter()
        .filter(|f| {
            f.sig.ident == name
                && f.self_ty == ty
                && (tr.is_none() || f.trait_name == tr || f.trait_full == tr)
        })
        .collect();
    // prefer the recorded file, then an inherent method, then anything (the item may have moved)
    cands
        .iter()
        .find(|f| Some(f.file.as_str()) == file && (tr.is_some() || f.trait_name.is_none()))
        .or_else(|| cands.iter().find(|f| Some(f.file.as_str()) == file))
        .or_else(|| cands.iter().find(|f| f.trait_name.is_none()))
        .or_else(|| cands.first())
        .copied()
}

fn main() {
    let mut inp = String::new();
    std::io::stdin().read_to_string(&mut inp).unwrap();
    let req: Value = serde_json::from_str(&inp).unwrap();
    let repo = req["repo"].as_str().unwrap().to_string();
    let feats: HashSet<String> = req["features"]
        .as_array()
        .map(|a| a.iter().map(|s| s.as_str().unwrap().to_string()).collect())
        .unwrap_or_default();
    let new_db = || Db {
        fns: vec![],
        structs: vec![],
        enums: vec![],
        consts: vec![],
        types: vec![],
        macros: HashMap::new(),
        item_macros: vec![],
    };
    let mut db = new_db();
    // macro-expanded crates: looked up only for items that name them ("expanded:<crate>")
    let mut xdb: HashMap<String, Db> = HashMap::new();
    let mut errors: Vec<String> = vec![];
    let mut files = vec![];
    fn walk(d: &std::path::Path, out: &mut Vec<std::path::PathBuf>) {
        if let Ok(rd) = std::fs::read_dir(d) {
            let mut v: Vec<_> = rd.filter_map(|e| e.ok()).map(|e| e.path()).collect();
            v.sort();
            for p in v {
                if p.is_dir() {
                    walk(&p, out)
                } else if p.extension().map(|e| e == "rs").unwrap_or(false) {
                    out.push(p)
                }
            }
        }
    }
    for d in ["src", "octane_http/src", "octane_macros/src"] {
        walk(&std::path::Path::new(&repo).join(d), &mut files);
    }
    if let Some(m) = req["expanded"].as_object() {
        for (k, v) in m {
            let mut d = new_db();
            let txt = std::fs::read_to_string(v.as_str().unwrap()).unwrap_or_default();
            match syn::parse_file(&txt) {
                Ok(ast) => load(ast.items, k, &feats, &mut d),
                Err(e) => errors.push(format!("{}: {}", k, e)),
            }
            xdb.insert(k.clone(), d);
        }
    }
    for f in files.iter().map(|p| p.to_string_lossy().to_string()) {
        let rel = f.strip_prefix(&format!("{}/", repo)).unwrap_or(&f).to_string();
        let txt = match std::fs::read_to_string(&f) {
            Ok(t) => t,
            Err(e) => {
                errors.push(format!("{}: {}", rel, e));
                continue;
            }
        };
        match syn::parse_file(&txt) {
            Ok(mut ast) => {
                syn::visit_mut::VisitMut::visit_file_mut(&mut PathNorm, &mut ast);
                load(ast.items, &rel, &feats, &mut db)
            }
            Err(e) => errors.push(format!("{}: {}", rel, e)),
        }
    }
    let mut rq = Req {
        feats,
        methods: strmap(&req["methods"]),
        calls: {
            let mut m = strmap(&req["calls"]);
            for (k, v) in m.clone() {
                if let Some(t) = k.strip_prefix("std::") {
                    m.entry(t.to_string()).or_insert(v);
                }
            }
            m
        },
        types: strmap(&req["types"]),
        bounds: strmap(&req["bounds"]),
        casts: strmap(&req["casts"]),
        fields: strmap(&req["fields"]),
        known: req["known"]
            .as_array()
            .map(|a| a.iter().map(|s| s.as_str().unwrap().to_string()).collect())
            .unwrap_or_default(),
        strip_async: req["strip_async"].as_bool().unwrap_or(false),
        native_for: req["native_for"].as_bool().unwrap_or(false),
        range_for: req["range_for"].as_bool().unwrap_or(false),
        hoist_try: req["hoist_try"].as_bool().unwrap_or(false),
        drop_lifetimes: req["drop_lifetimes"].as_bool().unwrap_or(false),
        eq_shim: req["eq_shim"].as_bool().unwrap_or(false),
        range_shim: req["range_shim"].as_bool().unwrap_or(false),
    };
    let mut out = Map::new();
    for item in req["items"].as_array().unwrap() {
        let id = item["id"].as_str().unwrap();
        let kind = item["kind"].as_str().unwrap();
        let sel = item["sel"].as_str().unwrap();
        let file = item["file"].as_str();
        // `#type src/x.rs:T=R` applies to the items of that file only
        rq.types = scoped(&req["types"], file);
        rq.calls = scoped(&req["calls"], file);
        let rq = &rq;
        let main_db = &db;
        let db = file.and_then(|f| xdb.get(f)).unwrap_or(main_db);
        let r = match kind {
            "fn" => match find_fn(db, sel, file) {
                None => json!({"found": false}),
                Some(f) => {
                    let mut sig = f.sig.clone();
                    let mut block = f.block.clone();
                    let mut rw = Rw::new(rq, db, f);
                    rw.run(&mut sig, &mut block);
                    let ret = match &sig.output {
                        ReturnType::Default => String::new(),
                        ReturnType::Type(_, t) => print_tokens(t.to_token_stream()),
                    };
                    let wh = sig
                        .generics
                        .where_clause
                        .as_ref()
                        .map(|w| print_tokens(w.to_token_stream()))
                        .unwrap_or_default();
                    let mut s2 = sig.clone();
                    s2.output = ReturnType::Default;
                    s2.generics.where_clause = None;
                    let params: Vec<String> = sig
                        .inputs
                        .iter()
                        .map(|a| match a {
                            FnArg::Receiver(_) => "self".to_string(),
                            FnArg::Typed(t) => t.pat.to_token_stream().to_string(),
                        })
                        .collect();
                    json!({
                        "found": true, "file": f.file,
                        "line": f.sig.ident.span().start().line,
                        "sig": print_tokens(s2.to_token_stream()),
                        "params": params,
                        "ret": ret, "where": wh,
                        "body": print_tokens(block.to_token_stream()),
                        "loops": rw.loops, "closures": rw.closures,
                        "inlined": rw.inlined.iter().collect::<Vec<_>>(),
                        "unknown": rw.unknown.iter().collect::<Vec<_>>(),
                        "rules": rw.rules.iter().map(|(k, v)| (k.clone(), json!(v))).collect::<Map<String, Value>>(),
                        "orig": print_tokens(f.block.to_token_stream()),
                    })
                }
            },
            "struct" => match db.structs.iter().find(|s| s.1.ident == sel) {
                None => json!({"found": false}),
                Some((file, s)) => {
                    let mut s = s.clone();
                    s.attrs.clear();
                    s.vis = parse_quote!(pub);
                    let mut fields: Vec<Field> = vec![];
                    for f in s.fields.iter() {
                        if cfg_on(&f.attrs, &rq.feats) {
                            let mut f = f.clone();
                            f.attrs.clear();
                            f.vis = parse_quote!(pub);
                            fields.push(f);
                        }
                    }
                    match &mut s.fields {
                        Fields::Named(n) => n.named = fields.into_iter().collect(),
                        Fields::Unnamed(n) => n.unnamed = fields.into_iter().collect(),
                        _ => {}
                    }
                    let mut t = rewrite::TyRw { req: &rq };
                    t.visit_item_struct_mut(&mut s);
                    json!({"found": true, "file": file, "text": print_tokens(s.to_token_stream())})
                }
            },
            "enum" => match db.enums.iter().find(|s| s.1.ident == sel) {
                None => json!({"found": false}),
                Some((file, s)) => {
                    let mut s = s.clone();
                    s.attrs.clear();
                    s.vis = parse_quote!(pub);
                    for v in s.variants.iter_mut() {
                        v.attrs.clear();
                    }
                    let mut t = rewrite::TyRw { req: &rq };
                    t.visit_item_enum_mut(&mut s);
                    json!({"found": true, "file": file, "text": print_tokens(s.to_token_stream())})
                }
            },
            "type" => match db.types.iter().find(|s| s.1.ident == sel) {
                None => json!({"found": false}),
                Some((file, s)) => {
                    json!({"found": true, "file": file, "text": print_tokens(s.ty.to_token_stream())})
                }
            },
            "const" => match db.consts.iter().find(|c| c.1 == sel) {
                None => json!({"found": false}),
                Some((file, _, ty, ex, is_static)) => {
                    let elems: Vec<String> = match ex {
                        Expr::Array(a) => a.elems.iter().map(|e| e.to_token_stream().to_string()).collect(),
                        _ => vec![],
                    };
                    json!({"found": true, "file": file, "static": is_static,
                        "ty": print_tokens(ty.to_token_stream()),
                        "expr": print_tokens(ex.to_token_stream()), "elems": elems})
                }
            },
            "item_macro" => {
                // all literals of the item macro invocation that mentions `sel` (macro name or a name inside)
                let hit = db.item_macros.iter().find(|m| {
                    m.1 == sel || m.2.to_string().split(|c: char| !(c.is_alphanumeric() || c == '_')).any(|w| w == sel)
                });
                match hit {
                    None => json!({"found": false}),
                    Some((file, name, ts)) => {
                        let mut lits = vec![];
                        fn lit(ts: TokenStream, out: &mut Vec<String>) {
                            for t in ts {
                                match t {
                                    TokenTree::Literal(l) => out.push(l.to_string()),
                                    TokenTree::Group(g) => lit(g.stream(), out),
                                    _ => {}
                                }
                            }
                        }
                        lit(ts.clone(), &mut lits);
                        json!({"found": true, "file": file, "macro": name, "lits": lits, "text": print_tokens(ts.clone())})
                    }
                }
            }
            _ => json!({"found": false, "error": "bad kind"}),
        };
        out.insert(id.to_string(), r);
    }
    // every non-test function of the repository (for coverage reporting)
    let all: BTreeSet<String> = db
        .fns
        .iter()
        .map(|f| match (&f.self_ty, &f.trait_name) {
            (Some(t), Some(tr)) => format!("{} {}@{}::{}", f.file, t, tr, f.sig.ident),
            (Some(t), None) => format!("{} {}::{}", f.file, t, f.sig.ident),
            _ => format!("{} {}", f.file, f.sig.ident),
        })
        .collect();
    println!("{}", json!({"items": out, "errors": errors, "all_fns": all}));
    let _: (BTreeMap<u8, u8>, Option<&dyn Fn()>) = (BTreeMap::new(), None);
    let _ = (quote!(), visit_mut::visit_expr_mut::<Rw>);
    struct _V;
    impl<'a> Visit<'a> for _V {}
}
