//! Projection of generated bindings onto the facts of the specification.
//!
//! A fact is a string `kind|...`; the vocabulary is documented in spec/Facts (PyBindgen.tla).
//! Names are Rust names without `r#`; paths are absolute (root module first), so relative
//! `super::`/`self::` paths are resolved before they are compared.
use quote::ToTokens;
use serde_json::{json, Value};
use std::collections::BTreeMap;

fn un_raw(i: &syn::Ident) -> String {
    let s = i.to_string();
    s.strip_prefix("r#").map(str::to_owned).unwrap_or(s)
}

fn join(p: &[String]) -> String {
    p.join(".")
}

/// Resolves `segs`, written inside module `at`, to an absolute path.
fn resolve(at: &[String], segs: &[String]) -> Vec<String> {
    let mut cur = at.to_vec();
    for s in segs {
        match s.as_str() {
            "self" => {}
            "super" => {
                if cur.pop().is_none() {
                    cur.push("<above-root>".into());
                }
            }
            _ => cur.push(s.clone()),
        }
    }
    cur
}

fn path_segs(p: &syn::Path) -> Vec<String> {
    p.segments.iter().map(|s| un_raw(&s.ident)).collect()
}

fn generic_types(seg: &syn::PathSegment) -> Vec<syn::Type> {
    match &seg.arguments {
        syn::PathArguments::AngleBracketed(a) => a
            .args
            .iter()
            .filter_map(|g| match g {
                syn::GenericArgument::Type(t) => Some(t.clone()),
                _ => None,
            })
            .collect(),
        _ => vec![],
    }
}

/// Normal form of a Rust type: std/pyo3 paths by their last segment, `Bound<PyAny>` is `Any`,
/// `Bound<PyX>` is `PyX`, `Bound<local>` is `@abs.path`.
pub fn ty(at: &[String], t: &syn::Type) -> String {
    match t {
        syn::Type::Reference(r) => format!("&{}", ty(at, &r.elem)),
        syn::Type::Slice(s) => format!("[{}]", ty(at, &s.elem)),
        syn::Type::Paren(p) => ty(at, &p.elem),
        syn::Type::Group(p) => ty(at, &p.elem),
        syn::Type::Tuple(t) => format!(
            "({})",
            t.elems
                .iter()
                .map(|e| ty(at, e))
                .collect::<Vec<_>>()
                .join(",")
        ),
        syn::Type::ImplTrait(i) => {
            let s = i
                .bounds
                .iter()
                .map(|b| match b {
                    syn::TypeParamBound::Trait(t) => {
                        let last = t.path.segments.last().unwrap();
                        match un_raw(&last.ident).as_str() {
                            "IntoPyDict" => "PyDict".to_owned(),
                            "IntoPy" => generic_types(last)
                                .first()
                                .map(|t| ty(at, t))
                                .unwrap_or_default(),
                            other => other.to_owned(),
                        }
                    }
                    other => other.to_token_stream().to_string(),
                })
                .collect::<Vec<_>>()
                .join("+");
            format!("impl {s}")
        }
        syn::Type::Path(p) => {
            let last = p.path.segments.last().unwrap();
            let name = un_raw(&last.ident);
            let args = generic_types(last);
            let external = p.path.leading_colon.is_some()
                || [
                    "Vec", "bool", "i64", "f64", "str", "u8", "String", "Self", "Option",
                ]
                .contains(&name.as_str())
                    && p.path.segments.len() == 1
                || ["pyo3", "std", "core", "alloc"].contains(&path_segs(&p.path)[0].as_str())
                    && p.path.segments.len() > 1;
            if external {
                match (name.as_str(), args.len()) {
                    ("Bound", 1) | ("Py", 1) => match ty(at, &args[0]).as_str() {
                        "PyAny" => "Any".to_owned(),
                        other => other.to_owned(),
                    },
                    ("PyAny", 0) => "Any".to_owned(),
                    (_, 0) => name,
                    _ => format!(
                        "{name}<{}>",
                        args.iter().map(|a| ty(at, a)).collect::<Vec<_>>().join(",")
                    ),
                }
            } else {
                format!("@{}", join(&resolve(at, &path_segs(&p.path))))
            }
        }
        other => other.to_token_stream().to_string(),
    }
}

fn doc(attrs: &[syn::Attribute]) -> Option<String> {
    let mut out: Vec<String> = vec![];
    for a in attrs {
        if let syn::Meta::NameValue(nv) = &a.meta {
            if nv.path.is_ident("doc") {
                if let syn::Expr::Lit(syn::ExprLit {
                    lit: syn::Lit::Str(s),
                    ..
                }) = &nv.value
                {
                    out.push(s.value());
                }
            }
        }
    }
    if out.is_empty() {
        None
    } else {
        Some(out.join("\n"))
    }
}

struct Sig {
    names: Vec<String>,
    types: Vec<String>,
    ret: String,
    has_self: bool,
    has_py: bool,
}

fn sig(at: &[String], s: &syn::Signature) -> Sig {
    let mut names = vec![];
    let mut types = vec![];
    let mut has_self = false;
    let mut has_py = false;
    for (i, a) in s.inputs.iter().enumerate() {
        match a {
            syn::FnArg::Receiver(_) => has_self = true,
            syn::FnArg::Typed(t) => {
                let n = t.pat.to_token_stream().to_string();
                let n = n.strip_prefix("r#").map(str::to_owned).unwrap_or(n);
                let tt = ty(at, &t.ty);
                if i == 0 && tt.starts_with("Python") {
                    has_py = true;
                    continue;
                }
                names.push(n);
                types.push(tt);
            }
        }
    }
    let ret = match &s.output {
        syn::ReturnType::Default => "()".to_owned(),
        syn::ReturnType::Type(_, t) => {
            let full = ty(at, t);
            full.strip_prefix("PyResult<")
                .and_then(|x| x.strip_suffix('>'))
                .map(str::to_owned)
                .unwrap_or(full)
        }
    };
    Sig {
        names,
        types,
        ret,
        has_self,
        has_py,
    }
}

struct Ctx {
    facts: Vec<String>,
    fns: Vec<Value>,
}

impl Ctx {
    fn doc(&mut self, kind: &str, path: &str, attrs: &[syn::Attribute]) {
        if let Some(d) = doc(attrs) {
            self.facts.push(format!("doc|{kind}|{path}|{d}"));
        }
    }

    fn func(&mut self, kind: &str, owner: &str, name: &str, s: &Sig, public: bool, of: &str) {
        let sep = if kind == "fn" { "." } else { "::" };
        let vis = if public { "" } else { "private-" };
        self.facts.push(format!(
            "{vis}{kind}|{owner}{sep}{name}({})",
            s.names.join(",")
        ));
        self.facts.push(format!(
            "sig|{owner}{sep}{name}({})->{}",
            s.types.join(","),
            s.ret
        ));
        self.fns.push(json!({
            "kind": kind, "owner": owner, "name": name,
            "params": s.names, "types": s.types, "ret": s.ret,
            "has_self": s.has_self, "has_py": s.has_py, "trait": of,
        }));
    }
}

fn flatten_use(prefix: &[String], t: &syn::UseTree, out: &mut Vec<(Vec<String>, String)>) {
    match t {
        syn::UseTree::Path(p) => {
            let mut v = prefix.to_vec();
            v.push(un_raw(&p.ident));
            flatten_use(&v, &p.tree, out);
        }
        syn::UseTree::Name(n) => {
            let mut v = prefix.to_vec();
            v.push(un_raw(&n.ident));
            out.push((v, un_raw(&n.ident)));
        }
        syn::UseTree::Rename(n) => {
            let mut v = prefix.to_vec();
            v.push(un_raw(&n.ident));
            out.push((v, un_raw(&n.rename)));
        }
        syn::UseTree::Glob(_) => out.push((prefix.to_vec(), "*".into())),
        syn::UseTree::Group(g) => g.items.iter().for_each(|t| flatten_use(prefix, t, out)),
    }
}

fn is_pub(v: &syn::Visibility) -> bool {
    matches!(v, syn::Visibility::Public(_))
}

/// A prelude module is called call, call1, ... and its only content are re-exports of items of its parent.
fn prelude_exports(m: &syn::ItemMod) -> Option<Vec<String>> {
    let number = un_raw(&m.ident).strip_prefix("call")?.to_owned();
    if !number.chars().all(|c| c.is_ascii_digit()) {
        return None;
    }
    let (_, items) = m.content.as_ref()?;
    let mut v = vec![];
    for item in items {
        match item {
            syn::Item::Use(u) => flatten_use(&[], &u.tree, &mut v),
            _ => return None,
        }
    }
    (!v.is_empty() && v.iter().all(|(p, _)| p.len() == 2 && p[0] == "super"))
        .then(|| v.into_iter().map(|(_, n)| n).collect())
}

fn walk(cx: &mut Ctx, at: &[String], items: &[syn::Item]) {
    let here = join(at);
    let mut types_ns: BTreeMap<String, usize> = BTreeMap::new();
    let mut values_ns: BTreeMap<String, usize> = BTreeMap::new();
    for item in items {
        match item {
            syn::Item::Mod(m) => {
                let name = un_raw(&m.ident);
                *types_ns.entry(name.clone()).or_default() += 1;
                if let (Some(exports), false) = (prelude_exports(m), at.is_empty()) {
                    cx.facts.push(format!("preludemod|{here}|{name}"));
                    for e in exports {
                        cx.facts.push(format!("prelude|{here}|{e}"));
                    }
                    continue;
                }
                let mut p = at.to_vec();
                p.push(name);
                cx.facts.push(format!(
                    "{}mod|{}",
                    if is_pub(&m.vis) { "" } else { "private-" },
                    join(&p)
                ));
                cx.doc("mod", &join(&p), &m.attrs);
                if let Some((_, items)) = &m.content {
                    walk(cx, &p, items);
                }
            }
            syn::Item::Struct(s) => {
                let name = un_raw(&s.ident);
                *types_ns.entry(name.clone()).or_default() += 1;
                *values_ns.entry(name.clone()).or_default() += 1;
                cx.facts.push(format!(
                    "{}struct|{here}.{name}",
                    if is_pub(&s.vis) { "" } else { "private-" }
                ));
                cx.doc("struct", &format!("{here}.{name}"), &s.attrs);
            }
            syn::Item::Macro(m) => {
                let n = m.mac.path.segments.last().unwrap().ident.to_string();
                if n == "pyobject_native_type_info" {
                    let mut it = m.mac.tokens.clone().into_iter();
                    let name = it.next().map(|t| t.to_string()).unwrap_or_default();
                    let name = name.strip_prefix("r#").unwrap_or(&name).to_owned();
                    let mut lit = None;
                    fn last_lit(ts: proc_macro2::TokenStream, lit: &mut Option<String>) {
                        for t in ts {
                            match t {
                                proc_macro2::TokenTree::Literal(l) => {
                                    if let Ok(s) = syn::parse_str::<syn::LitStr>(&l.to_string()) {
                                        *lit = Some(s.value());
                                    }
                                }
                                proc_macro2::TokenTree::Group(g) => last_lit(g.stream(), lit),
                                _ => {}
                            }
                        }
                    }
                    last_lit(m.mac.tokens.clone(), &mut lit);
                    cx.facts.push(format!(
                        "pyname|{here}.{name}|{}",
                        lit.unwrap_or_else(|| "<none>".into())
                    ));
                }
            }
            syn::Item::Impl(i) => {
                let (owner, is_trait) = match &i.trait_ {
                    None => (ty(at, &i.self_ty), false),
                    Some(_) => (ty(at, &i.self_ty), true),
                };
                let owner = owner.trim_start_matches('@').to_owned();
                let of = i
                    .trait_
                    .as_ref()
                    .map(|(_, p, _)| join(&resolve(at, &path_segs(p))))
                    .unwrap_or_default();
                for it in &i.items {
                    if let syn::ImplItem::Fn(f) = it {
                        let s = sig(at, &f.sig);
                        let name = un_raw(&f.sig.ident);
                        let kind = if is_trait {
                            "method"
                        } else if s.ret == "Self" {
                            "ctor"
                        } else {
                            "static"
                        };
                        cx.func(kind, &owner, &name, &s, is_trait || is_pub(&f.vis), &of);
                        cx.doc(kind, &format!("{owner}::{name}"), &f.attrs);
                    }
                }
            }
            syn::Item::Trait(t) => {
                *types_ns.entry(un_raw(&t.ident)).or_default() += 1;
            }
            syn::Item::Fn(f) => {
                let name = un_raw(&f.sig.ident);
                *values_ns.entry(name.clone()).or_default() += 1;
                if name == "pyo3_embed_python_source_code" {
                    let mut lits = vec![];
                    fn all_lits(ts: proc_macro2::TokenStream, out: &mut Vec<String>) {
                        for t in ts {
                            match t {
                                proc_macro2::TokenTree::Literal(l) => {
                                    if let Ok(s) = syn::parse_str::<syn::LitStr>(&l.to_string()) {
                                        out.push(s.value());
                                    }
                                }
                                proc_macro2::TokenTree::Group(g) => all_lits(g.stream(), out),
                                _ => {}
                            }
                        }
                    }
                    all_lits(f.block.to_token_stream(), &mut lits);
                    cx.facts.push(format!("embed|{here}"));
                    cx.fns
                        .push(json!({"kind": "embed", "owner": here, "lits": lits}));
                    continue;
                }
                let s = sig(at, &f.sig);
                cx.func("fn", &here, &name, &s, is_pub(&f.vis), "");
                cx.doc("fn", &format!("{here}.{name}"), &f.attrs);
            }
            syn::Item::Type(t) => {
                let name = un_raw(&t.ident);
                *types_ns.entry(name.clone()).or_default() += 1;
                cx.facts
                    .push(format!("type|{here}.{name}|{}", ty(at, &t.ty)));
            }
            syn::Item::Use(u) => {
                let mut v = vec![];
                flatten_use(&[], &u.tree, &mut v);
                for (p, n) in v {
                    cx.facts.push(format!(
                        "{}use|{here}.{n}|{}",
                        if is_pub(&u.vis) { "" } else { "private-" },
                        join(&resolve(at, &p))
                    ));
                }
            }
            other => cx
                .facts
                .push(format!("other|{here}|{}", other.to_token_stream())),
        }
    }
    for (ns, map) in [("type", types_ns), ("value", values_ns)] {
        for (n, c) in map {
            if c > 1 {
                cx.facts.push(format!("dup|{ns}|{here}.{n}"));
            }
        }
    }
}

fn run(file: &syn::File) -> Ctx {
    let mut cx = Ctx {
        facts: vec![],
        fns: vec![],
    };
    walk(&mut cx, &[], &file.items);
    cx.facts.sort();
    cx
}

pub fn facts(file: &syn::File) -> Vec<String> {
    run(file).facts
}

pub fn callables(file: &syn::File) -> Value {
    Value::Array(run(file).fns)
}
