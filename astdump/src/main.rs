//! Prints a simplified JSON syntax tree of the Rust files named on the command line.
use proc_macro2::TokenStream;
use quote::ToTokens;
use serde_json::{json, Value};
use syn::parse::Parser;
use syn::punctuated::Punctuated;
use syn::spanned::Spanned;
use syn::*;

fn ln<T: Spanned>(t: &T) -> usize {
    t.span().start().line
}
fn txt<T: ToTokens>(t: &T) -> String {
    t.to_token_stream().to_string()
}

/// cfg predicates and attributes of interest
fn meta(m: &Meta) -> Value {
    match m {
        Meta::Path(p) => json!({"k":"flag","n":txt(p)}),
        Meta::NameValue(nv) => {
            let v = match &nv.value {
                Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => s.value(),
                o => txt(o),
            };
            json!({"k":"nv","n":txt(&nv.path),"v":v})
        }
        Meta::List(l) => {
            let items = Punctuated::<Meta, Token![,]>::parse_terminated
                .parse2(l.tokens.clone())
                .map(|p| p.iter().map(meta).collect::<Vec<_>>())
                .unwrap_or_default();
            json!({"k":"list","n":txt(&l.path),"a":items,"t":l.tokens.to_string()})
        }
    }
}
fn attrs(a: &[Attribute]) -> Vec<Value> {
    a.iter()
        .filter(|x| !x.path().is_ident("doc"))
        .map(|x| meta(&x.meta))
        .collect()
}

fn ty(t: &Type) -> Value {
    match t {
        Type::Path(p) => {
            let mut v = path(&p.path);
            if let Some(q) = &p.qself {
                v["qself"] = ty(&q.ty);
            }
            v
        }
        Type::Reference(r) => json!({"k":"tref","mut":r.mutability.is_some(),"t":ty(&r.elem)}),
        Type::Slice(s) => json!({"k":"tslice","t":ty(&s.elem)}),
        Type::Array(a) => json!({"k":"tarray","t":ty(&a.elem),"n":expr(&a.len)}),
        Type::Tuple(t) => json!({"k":"ttuple","a":t.elems.iter().map(ty).collect::<Vec<_>>()}),
        Type::Paren(p) => ty(&p.elem),
        Type::Group(p) => ty(&p.elem),
        Type::Infer(_) => json!({"k":"tinfer"}),
        Type::ImplTrait(i) => json!({"k":"timpl","b":i.bounds.iter().map(bound).collect::<Vec<_>>()}),
        Type::TraitObject(i) => json!({"k":"tdyn","b":i.bounds.iter().map(bound).collect::<Vec<_>>()}),
        Type::Never(_) => json!({"k":"tnever"}),
        o => json!({"k":"tother","s":txt(o)}),
    }
}
fn bound(b: &TypeParamBound) -> Value {
    match b {
        TypeParamBound::Trait(t) => path(&t.path),
        o => json!({"k":"bother","s":txt(o)}),
    }
}
fn path(p: &syn::Path) -> Value {
    let segs: Vec<Value> = p
        .segments
        .iter()
        .map(|s| {
            let mut v = json!({"n": s.ident.to_string()});
            match &s.arguments {
                PathArguments::AngleBracketed(a) => {
                    let mut ts = vec![];
                    for g in &a.args {
                        match g {
                            GenericArgument::Type(t) => ts.push(ty(t)),
                            GenericArgument::Const(e) => ts.push(json!({"k":"tconst","e":expr(e)})),
                            GenericArgument::AssocType(at) => {
                                ts.push(json!({"k":"tassoc","n":at.ident.to_string(),"t":ty(&at.ty)}))
                            }
                            _ => {}
                        }
                    }
                    v["g"] = Value::Array(ts);
                }
                PathArguments::Parenthesized(a) => {
                    v["fnargs"] = Value::Array(a.inputs.iter().map(ty).collect());
                    if let ReturnType::Type(_, t) = &a.output {
                        v["fnret"] = ty(t);
                    }
                }
                PathArguments::None => {}
            }
            v
        })
        .collect();
    json!({"k":"path","p":segs})
}

fn pat(p: &Pat) -> Value {
    match p {
        Pat::Ident(i) => json!({"k":"pid","n":i.ident.to_string(),"ref":i.by_ref.is_some(),
            "mut":i.mutability.is_some(),"sub":i.subpat.as_ref().map(|s| pat(&s.1))}),
        Pat::Wild(_) => json!({"k":"pwild"}),
        Pat::Tuple(t) => json!({"k":"ptuple","a":t.elems.iter().map(pat).collect::<Vec<_>>()}),
        Pat::TupleStruct(t) => json!({"k":"pts","path":path(&t.path),"a":t.elems.iter().map(pat).collect::<Vec<_>>()}),
        Pat::Struct(s) => json!({"k":"pstruct","path":path(&s.path),
            "f":s.fields.iter().map(|f| json!({"n":txt(&f.member),"p":pat(&f.pat)})).collect::<Vec<_>>()}),
        Pat::Path(p) => json!({"k":"ppath","path":path(&p.path)}),
        Pat::Lit(l) => json!({"k":"plit","e":lit(&l.lit, ln(l))}),
        Pat::Range(r) => json!({"k":"prange","lo":r.start.as_ref().map(|e| expr(e)),
            "hi":r.end.as_ref().map(|e| expr(e)),"incl":matches!(r.limits, RangeLimits::Closed(_))}),
        Pat::Reference(r) => json!({"k":"pref","p":pat(&r.pat)}),
        Pat::Or(o) => json!({"k":"por","a":o.cases.iter().map(pat).collect::<Vec<_>>()}),
        Pat::Slice(s) => json!({"k":"pslice","a":s.elems.iter().map(pat).collect::<Vec<_>>()}),
        Pat::Rest(_) => json!({"k":"prest"}),
        Pat::Type(t) => json!({"k":"ptype","p":pat(&t.pat),"t":ty(&t.ty)}),
        Pat::Paren(p) => pat(&p.pat),
        Pat::Const(c) => json!({"k":"pother","s":txt(c)}),
        o => json!({"k":"pother","s":txt(o)}),
    }
}

fn lit(l: &Lit, line: usize) -> Value {
    match l {
        Lit::Int(i) => json!({"k":"int","v":i.base10_digits(),"suf":i.suffix(),"ln":line}),
        Lit::Bool(b) => json!({"k":"bool","v":b.value,"ln":line}),
        Lit::Str(s) => json!({"k":"str","v":s.value(),"ln":line}),
        Lit::Byte(b) => json!({"k":"int","v":b.value().to_string(),"suf":"u8","ln":line}),
        Lit::Char(c) => json!({"k":"char","v":c.value().to_string(),"ln":line}),
        Lit::ByteStr(b) => json!({"k":"bytestr","v":b.value(),"ln":line}),
        Lit::Float(f) => json!({"k":"float","v":f.to_string(),"ln":line}),
        o => json!({"k":"litother","s":txt(o),"ln":line}),
    }
}

fn block(b: &Block) -> Value {
    json!({"k":"block","s":b.stmts.iter().map(stmt).collect::<Vec<_>>(),"ln":ln(b)})
}

fn stmt(s: &Stmt) -> Value {
    match s {
        Stmt::Local(l) => json!({"k":"let","p":pat(&l.pat),
            "e":l.init.as_ref().map(|i| expr(&i.expr)),
            "else":l.init.as_ref().and_then(|i| i.diverge.as_ref().map(|d| expr(&d.1))),
            "at":attrs(&l.attrs),"ln":ln(l)}),
        Stmt::Item(i) => json!({"k":"item","i":item(i),"ln":ln(i)}),
        Stmt::Expr(e, semi) => json!({"k":"expr","e":expr(e),"semi":semi.is_some(),"ln":ln(e)}),
        Stmt::Macro(m) => json!({"k":"expr","e":mac(&m.mac, ln(m), &m.attrs),"semi":m.semi_token.is_some(),"ln":ln(m)}),
    }
}

fn parse_args(ts: TokenStream) -> Option<Vec<Expr>> {
    Punctuated::<Expr, Token![,]>::parse_terminated
        .parse2(ts)
        .ok()
        .map(|p| p.into_iter().collect())
}

fn mac(m: &Macro, line: usize, at: &[Attribute]) -> Value {
    let name = m.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
    let mut v = json!({"k":"mac","n":name,"ln":line,"at":attrs(at),"t":m.tokens.to_string()});
    if name == "matches" {
        let r = (|i: parse::ParseStream| -> Result<(Expr, Pat, Option<Expr>)> {
            let e: Expr = i.parse()?;
            i.parse::<Token![,]>()?;
            let p = Pat::parse_multi_with_leading_vert(i)?;
            let g = if i.peek(Token![if]) {
                i.parse::<Token![if]>()?;
                Some(i.parse::<Expr>()?)
            } else {
                None
            };
            let _ = i.parse::<Option<Token![,]>>();
            Ok((e, p, g))
        })
        .parse2(m.tokens.clone());
        if let Ok((e, p, g)) = r {
            v["e"] = expr(&e);
            v["p"] = pat(&p);
            v["g"] = g.map(|g| expr(&g)).unwrap_or(Value::Null);
        }
        return v;
    }
    if name == "vec" {
        let r = (|i: parse::ParseStream| -> Result<(Expr, Expr)> {
            let e: Expr = i.parse()?;
            i.parse::<Token![;]>()?;
            let n: Expr = i.parse()?;
            Ok((e, n))
        })
        .parse2(m.tokens.clone());
        if let Ok((e, n)) = r {
            v["rep"] = json!([expr(&e), expr(&n)]);
            return v;
        }
    }
    if let Some(a) = parse_args(m.tokens.clone()) {
        v["a"] = Value::Array(a.iter().map(expr).collect());
    }
    v
}

fn expr(e: &Expr) -> Value {
    let l = ln(e);
    let mut v = expr0(e, l);
    if let Value::Object(o) = &mut v {
        o.entry("ln").or_insert(json!(l));
    }
    v
}

fn expr0(e: &Expr, l: usize) -> Value {
    match e {
        Expr::Lit(x) => lit(&x.lit, l),
        Expr::Path(p) => {
            let mut v = path(&p.path);
            if let Some(q) = &p.qself {
                v["qself"] = ty(&q.ty);
            }
            v
        }
        Expr::Binary(b) => json!({"k":"bin","op":txt(&b.op),"l":expr(&b.left),"r":expr(&b.right)}),
        Expr::Unary(u) => json!({"k":"un","op":txt(&u.op),"e":expr(&u.expr)}),
        Expr::Assign(a) => json!({"k":"assign","l":expr(&a.left),"r":expr(&a.right),"at":attrs(&a.attrs)}),
        Expr::Reference(r) => json!({"k":"ref","mut":r.mutability.is_some(),"e":expr(&r.expr)}),
        Expr::Paren(p) => expr(&p.expr),
        Expr::Group(p) => expr(&p.expr),
        Expr::Call(c) => json!({"k":"call","f":expr(&c.func),"a":c.args.iter().map(expr).collect::<Vec<_>>(),"at":attrs(&c.attrs)}),
        Expr::MethodCall(m) => {
            let mut v = json!({"k":"mcall","r":expr(&m.receiver),"m":m.method.to_string(),
                "a":m.args.iter().map(expr).collect::<Vec<_>>(),"ln":m.method.span().start().line,"at":attrs(&m.attrs)});
            if let Some(t) = &m.turbofish {
                v["g"] = Value::Array(t.args.iter().filter_map(|g| match g { GenericArgument::Type(t) => Some(ty(t)), GenericArgument::Const(e) => Some(json!({"k":"tconst","e":expr(e)})), _ => None }).collect());
            }
            v
        }
        Expr::Field(f) => json!({"k":"field","e":expr(&f.base),"n":txt(&f.member)}),
        Expr::Index(i) => json!({"k":"index","e":expr(&i.expr),"i":expr(&i.index)}),
        Expr::Range(r) => json!({"k":"range","lo":r.start.as_ref().map(|e| expr(e)),"hi":r.end.as_ref().map(|e| expr(e)),
            "incl":matches!(r.limits, RangeLimits::Closed(_))}),
        Expr::Array(a) => json!({"k":"array","a":a.elems.iter().map(expr).collect::<Vec<_>>()}),
        Expr::Repeat(r) => json!({"k":"repeat","e":expr(&r.expr),"n":expr(&r.len)}),
        Expr::Tuple(t) => json!({"k":"tuple","a":t.elems.iter().map(expr).collect::<Vec<_>>()}),
        Expr::Struct(s) => json!({"k":"struct","path":path(&s.path),
            "f":s.fields.iter().map(|f| json!({"n":txt(&f.member),"e":expr(&f.expr),"at":attrs(&f.attrs)})).collect::<Vec<_>>(),
            "rest":s.rest.as_ref().map(|e| expr(e))}),
        Expr::Block(b) => { let mut v = block(&b.block); v["at"] = Value::Array(attrs(&b.attrs)); if let Some(lb) = &b.label { v["label"] = json!(lb.name.ident.to_string()); } v }
        Expr::Unsafe(b) => block(&b.block),
        Expr::If(i) => json!({"k":"if","c":expr(&i.cond),"t":block(&i.then_branch),"e":i.else_branch.as_ref().map(|e| expr(&e.1)),"at":attrs(&i.attrs)}),
        Expr::Let(x) => json!({"k":"letc","p":pat(&x.pat),"e":expr(&x.expr)}),
        Expr::Match(m) => json!({"k":"match","e":expr(&m.expr),"at":attrs(&m.attrs),
            "arms":m.arms.iter().map(|a| json!({"p":pat(&a.pat),"g":a.guard.as_ref().map(|g| expr(&g.1)),"b":expr(&a.body),"at":attrs(&a.attrs),"ln":ln(a)})).collect::<Vec<_>>()}),
        Expr::Closure(c) => json!({"k":"closure","p":c.inputs.iter().map(pat).collect::<Vec<_>>(),"b":expr(&c.body)}),
        Expr::ForLoop(f) => json!({"k":"for","p":pat(&f.pat),"e":expr(&f.expr),"b":block(&f.body),"label":f.label.as_ref().map(|x| x.name.ident.to_string()),"at":attrs(&f.attrs)}),
        Expr::While(w) => json!({"k":"while","c":expr(&w.cond),"b":block(&w.body),"label":w.label.as_ref().map(|x| x.name.ident.to_string()),"at":attrs(&w.attrs)}),
        Expr::Loop(w) => json!({"k":"loop","b":block(&w.body),"label":w.label.as_ref().map(|x| x.name.ident.to_string()),"at":attrs(&w.attrs)}),
        Expr::Return(r) => json!({"k":"return","e":r.expr.as_ref().map(|e| expr(e)),"at":attrs(&r.attrs)}),
        Expr::Break(r) => json!({"k":"break","e":r.expr.as_ref().map(|e| expr(e)),"label":r.label.as_ref().map(|x| x.ident.to_string())}),
        Expr::Continue(r) => json!({"k":"continue","label":r.label.as_ref().map(|x| x.ident.to_string())}),
        Expr::Try(t) => json!({"k":"try","e":expr(&t.expr)}),
        Expr::Cast(c) => json!({"k":"cast","e":expr(&c.expr),"t":ty(&c.ty)}),
        Expr::Macro(m) => mac(&m.mac, l, &m.attrs),
        o => json!({"k":"other","s":txt(o)}),
    }
}

fn generics(g: &Generics) -> Value {
    let mut out: Vec<(String, bool, Vec<Value>)> = vec![];
    for p in &g.params {
        match p {
            GenericParam::Type(t) => {
                out.push((t.ident.to_string(), false, t.bounds.iter().map(bound).collect()));
            }
            GenericParam::Const(c) => {
                out.push((c.ident.to_string(), true, vec![]));
            }
            _ => {}
        }
    }
    if let Some(w) = &g.where_clause {
        for p in &w.predicates {
            if let WherePredicate::Type(t) = p {
                if let Type::Path(tp) = &t.bounded_ty {
                    if let Some(id) = tp.path.get_ident() {
                        let id = id.to_string();
                        if let Some(e) = out.iter_mut().find(|e| e.0 == id) {
                            e.2.extend(t.bounds.iter().map(bound));
                        }
                    }
                }
            }
        }
    }
    Value::Array(out.into_iter().map(|(n, c, b)| json!({"n":n,"const":c,"b":b})).collect())
}

fn sig(s: &Signature) -> Value {
    let ins: Vec<Value> = s
        .inputs
        .iter()
        .map(|a| match a {
            FnArg::Receiver(r) => json!({"self":true,"ref":r.reference.is_some(),"mut":r.mutability.is_some()}),
            FnArg::Typed(t) => json!({"p":pat(&t.pat),"t":ty(&t.ty)}),
        })
        .collect();
    json!({"n":s.ident.to_string(),"in":ins,"g":generics(&s.generics),
        "out":match &s.output { ReturnType::Default => Value::Null, ReturnType::Type(_, t) => ty(t) }})
}

fn vis(v: &Visibility) -> &'static str {
    match v {
        Visibility::Public(_) => "pub",
        Visibility::Restricted(_) => "crate",
        Visibility::Inherited => "",
    }
}

fn use_tree(t: &UseTree, pre: &[String], out: &mut Vec<Value>) {
    match t {
        UseTree::Path(p) => {
            let mut q = pre.to_vec();
            q.push(p.ident.to_string());
            use_tree(&p.tree, &q, out)
        }
        UseTree::Name(n) => {
            let mut q = pre.to_vec();
            let id = n.ident.to_string();
            if id == "self" {
                let last = q.last().cloned().unwrap_or_default();
                out.push(json!({"as":last,"path":q}));
            } else {
                q.push(id.clone());
                out.push(json!({"as":id,"path":q}));
            }
        }
        UseTree::Rename(r) => {
            let mut q = pre.to_vec();
            q.push(r.ident.to_string());
            out.push(json!({"as":r.rename.to_string(),"path":q}));
        }
        UseTree::Glob(_) => out.push(json!({"as":"*","path":pre})),
        UseTree::Group(g) => {
            for i in &g.items {
                use_tree(i, pre, out)
            }
        }
    }
}

fn fields(f: &Fields) -> Value {
    match f {
        Fields::Named(n) => json!(n.named.iter().map(|f| json!({"n":f.ident.as_ref().unwrap().to_string(),"t":ty(&f.ty),"v":vis(&f.vis)})).collect::<Vec<_>>()),
        Fields::Unnamed(n) => json!(n.unnamed.iter().enumerate().map(|(i, f)| json!({"n":i.to_string(),"t":ty(&f.ty),"v":vis(&f.vis)})).collect::<Vec<_>>()),
        Fields::Unit => json!([]),
    }
}

fn item(i: &Item) -> Value {
    match i {
        Item::Fn(f) => json!({"k":"fn","sig":sig(&f.sig),"b":block(&f.block),"at":attrs(&f.attrs),"v":vis(&f.vis),"ln":ln(&f.sig)}),
        Item::Const(c) => json!({"k":"const","n":c.ident.to_string(),"t":ty(&c.ty),"e":expr(&c.expr),"at":attrs(&c.attrs),"ln":ln(c)}),
        Item::Static(c) => json!({"k":"static","n":c.ident.to_string(),"t":ty(&c.ty),"e":expr(&c.expr),"mut":matches!(c.mutability, StaticMutability::Mut(_)),"at":attrs(&c.attrs),"ln":ln(c)}),
        Item::Struct(s) => json!({"k":"struct","n":s.ident.to_string(),"f":fields(&s.fields),"g":generics(&s.generics),"at":attrs(&s.attrs),"ln":ln(s)}),
        Item::Enum(e) => json!({"k":"enum","n":e.ident.to_string(),"at":attrs(&e.attrs),"ln":ln(e),
            "v":e.variants.iter().map(|v| json!({"n":v.ident.to_string(),"f":fields(&v.fields),"d":v.discriminant.as_ref().map(|d| expr(&d.1))})).collect::<Vec<_>>()}),
        Item::Type(t) => json!({"k":"type","n":t.ident.to_string(),"t":ty(&t.ty),"g":generics(&t.generics),
            "gp":t.generics.params.iter().filter_map(|p| match p { GenericParam::Type(t) => Some(t.ident.to_string()), _ => None }).collect::<Vec<_>>(),
            "at":attrs(&t.attrs)}),
        Item::Use(u) => {
            let mut out = vec![];
            use_tree(&u.tree, &[], &mut out);
            json!({"k":"use","u":out,"at":attrs(&u.attrs)})
        }
        Item::Mod(m) => json!({"k":"mod","n":m.ident.to_string(),"at":attrs(&m.attrs),
            "i":m.content.as_ref().map(|c| c.1.iter().map(item).collect::<Vec<_>>())}),
        Item::Impl(im) => json!({"k":"impl","ty":ty(&im.self_ty),"tr":im.trait_.as_ref().map(|t| path(&t.1)),
            "g":generics(&im.generics),"at":attrs(&im.attrs),"ln":ln(im),
            "i":im.items.iter().map(|x| match x {
                ImplItem::Fn(f) => json!({"k":"fn","sig":sig(&f.sig),"b":block(&f.block),"at":attrs(&f.attrs),"v":vis(&f.vis),"ln":ln(&f.sig)}),
                ImplItem::Const(c) => json!({"k":"const","n":c.ident.to_string(),"t":ty(&c.ty),"e":expr(&c.expr),"at":attrs(&c.attrs),"ln":ln(c)}),
                ImplItem::Type(t) => json!({"k":"type","n":t.ident.to_string(),"t":ty(&t.ty),"at":attrs(&t.attrs)}),
                o => json!({"k":"other","s":txt(o)}),
            }).collect::<Vec<_>>()}),
        Item::Trait(t) => json!({"k":"trait","n":t.ident.to_string(),"at":attrs(&t.attrs),"g":generics(&t.generics),"ln":ln(t),
            "i":t.items.iter().map(|x| match x {
                TraitItem::Fn(f) => json!({"k":"fn","sig":sig(&f.sig),"b":f.default.as_ref().map(block),"at":attrs(&f.attrs),"ln":ln(&f.sig)}),
                TraitItem::Const(c) => json!({"k":"const","n":c.ident.to_string(),"t":ty(&c.ty),"e":c.default.as_ref().map(|d| expr(&d.1)),"at":attrs(&c.attrs)}),
                TraitItem::Type(t) => json!({"k":"type","n":t.ident.to_string(),"at":attrs(&t.attrs)}),
                o => json!({"k":"other","s":txt(o)}),
            }).collect::<Vec<_>>()}),
        Item::Macro(m) => json!({"k":"macitem","n":m.ident.as_ref().map(|i| i.to_string()),"p":txt(&m.mac.path),"at":attrs(&m.attrs),"t":m.mac.tokens.to_string()}),
        o => json!({"k":"other","s":txt(o)}),
    }
}

fn main() {
    let mut out = serde_json::Map::new();
    for f in std::env::args().skip(1) {
        let src = match std::fs::read_to_string(&f) {
            Ok(s) => s,
            Err(e) => {
                out.insert(f, json!({"error": e.to_string()}));
                continue;
            }
        };
        let v = match syn::parse_file(&src) {
            Ok(file) => json!({"items": file.items.iter().map(item).collect::<Vec<_>>(), "at": attrs(&file.attrs)}),
            Err(e) => json!({"error": e.to_string()}),
        };
        out.insert(f, v);
    }
    println!("{}", Value::Object(out));
}
