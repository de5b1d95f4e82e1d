//! Prints the syntax trees of Rust source files as JSON, with byte spans: the front end of the
//! extractor and of the obligation generator in /verif/vc.
use quote::ToTokens;
use serde_json::{json, Value};
use syn::spanned::Spanned;
use syn::*;

fn sp<T: Spanned>(t: &T) -> Value {
    let r = t.span().byte_range();
    json!([r.start, r.end])
}
fn toks<T: ToTokens>(t: &T) -> String {
    t.to_token_stream().to_string()
}
fn path(p: &Path) -> Value {
    let segs: Vec<Value> = p
        .segments
        .iter()
        .map(|s| {
            let args: Vec<Value> = match &s.arguments {
                PathArguments::AngleBracketed(a) => a
                    .args
                    .iter()
                    .map(|g| match g {
                        GenericArgument::Type(t) => json!({"t": ty(t)}),
                        GenericArgument::Const(e) => json!({"c": expr(e)}),
                        o => json!({"o": toks(o)}),
                    })
                    .collect(),
                _ => vec![],
            };
            json!({"id": s.ident.to_string(), "args": args})
        })
        .collect();
    json!(segs)
}
fn ty(t: &Type) -> Value {
    match t {
        Type::Path(p) => json!({"k":"Path","path":path(&p.path),"q":p.qself.as_ref().map(|q| ty(&q.ty))}),
        Type::Reference(r) => json!({"k":"Ref","mut":r.mutability.is_some(),"e":ty(&r.elem)}),
        Type::Slice(s) => json!({"k":"Slice","e":ty(&s.elem)}),
        Type::Array(a) => json!({"k":"Array","e":ty(&a.elem),"len":expr(&a.len)}),
        Type::Tuple(x) => json!({"k":"Tuple","es":x.elems.iter().map(ty).collect::<Vec<_>>()}),
        Type::Paren(p) => ty(&p.elem),
        o => json!({"k":"Other","s":toks(o)}),
    }
}
fn pat(p: &Pat) -> Value {
    match p {
        Pat::Ident(i) => json!({"k":"Ident","id":i.ident.to_string(),"ref":i.by_ref.is_some(),"mut":i.mutability.is_some(),
            "sub":i.subpat.as_ref().map(|x| pat(&x.1))}),
        Pat::Wild(_) => json!({"k":"Wild"}),
        Pat::Rest(_) => json!({"k":"Rest"}),
        Pat::Tuple(t) => json!({"k":"Tuple","es":t.elems.iter().map(pat).collect::<Vec<_>>()}),
        Pat::TupleStruct(t) => json!({"k":"TupleStruct","path":path(&t.path),"es":t.elems.iter().map(pat).collect::<Vec<_>>()}),
        Pat::Struct(s) => json!({"k":"Struct","path":path(&s.path),"fs":s.fields.iter().map(|f| json!([toks(&f.member), pat(&f.pat)])).collect::<Vec<_>>()}),
        Pat::Path(x) => json!({"k":"Path","path":path(&x.path)}),
        Pat::Lit(l) => json!({"k":"Lit","e":expr(&Expr::Lit(l.clone()))}),
        Pat::Reference(r) => json!({"k":"Ref","p":pat(&r.pat)}),
        Pat::Slice(s) => json!({"k":"Slice","es":s.elems.iter().map(pat).collect::<Vec<_>>()}),
        Pat::Or(o) => json!({"k":"Or","es":o.cases.iter().map(pat).collect::<Vec<_>>()}),
        Pat::Type(t) => json!({"k":"Type","p":pat(&t.pat),"t":ty(&t.ty)}),
        Pat::Paren(t) => pat(&t.pat),
        Pat::Range(r) => json!({"k":"Range","lo":r.start.as_ref().map(|e| expr(e)),"hi":r.end.as_ref().map(|e| expr(e)),"inc":matches!(r.limits, RangeLimits::Closed(_))}),
        o => json!({"k":"Unsupported","s":toks(o)}),
    }
}
fn block(b: &Block) -> Value {
    json!({"k":"Block","ss":b.stmts.iter().map(stmt).collect::<Vec<_>>(),"sp":sp(b)})
}
fn stmt(s: &Stmt) -> Value {
    match s {
        Stmt::Local(l) => json!({"k":"Let","p":pat(&l.pat),"e":l.init.as_ref().map(|i| expr(&i.expr)),
            "else":l.init.as_ref().and_then(|i| i.diverge.as_ref().map(|d| expr(&d.1))),"sp":sp(l)}),
        Stmt::Item(i) => json!({"k":"Item","item":item(i),"sp":sp(i)}),
        Stmt::Expr(e, semi) => json!({"k":"Expr","e":expr(e),"semi":semi.is_some(),"sp":sp(s)}),
        Stmt::Macro(m) => json!({"k":"Expr","e":mac(&m.mac, sp(m)),"semi":m.semi_token.is_some(),"sp":sp(m)}),
    }
}
fn mac(m: &Macro, s: Value) -> Value {
    let name = m.path.segments.last().unwrap().ident.to_string();
    // try to parse the arguments as expressions: `a, b, c` or `x; n`
    let args = m
        .parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated)
        .ok()
        .map(|p| p.iter().map(expr).collect::<Vec<_>>());
    let rep = if args.is_none() {
        m.parse_body_with(|i: parse::ParseStream| -> Result<(Expr, Expr)> {
            let a: Expr = i.parse()?;
            i.parse::<Token![;]>()?;
            let b: Expr = i.parse()?;
            Ok((a, b))
        })
        .ok()
        .map(|(a, b)| json!([expr(&a), expr(&b)]))
    } else {
        None
    };
    json!({"k":"Macro","name":name,"args":args,"rep":rep,"s":m.tokens.to_string(),"sp":s})
}
fn label(l: &Option<Label>) -> Value {
    json!(l.as_ref().map(|l| l.name.ident.to_string()))
}
fn expr(e: &Expr) -> Value {
    let s = sp(e);
    match e {
        Expr::Lit(l) => match &l.lit {
            Lit::Int(i) => json!({"k":"Int","v":i.base10_digits(),"suf":i.suffix(),"sp":s}),
            Lit::Float(f) => json!({"k":"Float","v":f.base10_digits(),"suf":f.suffix(),"sp":s}),
            Lit::Bool(b) => json!({"k":"Bool","v":b.value,"sp":s}),
            Lit::Str(x) => json!({"k":"Str","v":x.value(),"sp":s}),
            o => json!({"k":"Unsupported","s":toks(o),"sp":s}),
        },
        Expr::Path(p) => json!({"k":"Path","path":path(&p.path),"q":p.qself.as_ref().map(|q| ty(&q.ty)),"sp":s}),
        Expr::Binary(b) => json!({"k":"Binary","op":toks(&b.op),"l":expr(&b.left),"r":expr(&b.right),"sp":s}),
        Expr::Unary(u) => json!({"k":"Unary","op":toks(&u.op),"e":expr(&u.expr),"sp":s}),
        Expr::Paren(p) => expr(&p.expr),
        Expr::Group(p) => expr(&p.expr),
        Expr::Reference(r) => json!({"k":"Ref","mut":r.mutability.is_some(),"e":expr(&r.expr),"sp":s}),
        Expr::Call(c) => json!({"k":"Call","f":expr(&c.func),"args":c.args.iter().map(expr).collect::<Vec<_>>(),"sp":s}),
        Expr::MethodCall(c) => json!({"k":"Method","m":c.method.to_string(),"recv":expr(&c.receiver),
            "tf":c.turbofish.as_ref().map(|t| t.args.iter().map(|g| match g { GenericArgument::Type(t) => json!({"t":ty(t)}), GenericArgument::Const(e) => json!({"c":expr(e)}), o => json!({"o":toks(o)}) }).collect::<Vec<_>>()),
            "args":c.args.iter().map(expr).collect::<Vec<_>>(),"sp":s}),
        Expr::Field(f) => json!({"k":"Field","e":expr(&f.base),"m":toks(&f.member),"sp":s}),
        Expr::Index(i) => json!({"k":"Index","e":expr(&i.expr),"i":expr(&i.index),"sp":s}),
        Expr::Tuple(t) => json!({"k":"Tuple","es":t.elems.iter().map(expr).collect::<Vec<_>>(),"sp":s}),
        Expr::Array(t) => json!({"k":"Array","es":t.elems.iter().map(expr).collect::<Vec<_>>(),"sp":s}),
        Expr::Repeat(r) => json!({"k":"Repeat","e":expr(&r.expr),"n":expr(&r.len),"sp":s}),
        Expr::Block(b) => block(&b.block),
        Expr::Unsafe(b) => block(&b.block),
        Expr::Const(b) => block(&b.block),
        Expr::If(i) => json!({"k":"If","c":expr(&i.cond),"t":block(&i.then_branch),"e":i.else_branch.as_ref().map(|x| expr(&x.1)),"sp":s}),
        Expr::Let(l) => json!({"k":"LetCond","p":pat(&l.pat),"e":expr(&l.expr),"sp":s}),
        Expr::Match(m) => json!({"k":"Match","e":expr(&m.expr),"arms":m.arms.iter().map(|a| json!({"p":pat(&a.pat),"g":a.guard.as_ref().map(|g| expr(&g.1)),"b":expr(&a.body)})).collect::<Vec<_>>(),"sp":s}),
        Expr::While(w) => json!({"k":"While","c":expr(&w.cond),"b":block(&w.body),"label":label(&w.label),"sp":s}),
        Expr::Loop(w) => json!({"k":"Loop","b":block(&w.body),"label":label(&w.label),"sp":s}),
        Expr::ForLoop(w) => json!({"k":"For","p":pat(&w.pat),"e":expr(&w.expr),"b":block(&w.body),"label":label(&w.label),"sp":s}),
        Expr::Closure(c) => json!({"k":"Closure","ps":c.inputs.iter().map(pat).collect::<Vec<_>>(),"b":expr(&c.body),"sp":s}),
        Expr::Return(r) => json!({"k":"Return","e":r.expr.as_ref().map(|x| expr(x)),"sp":s}),
        Expr::Break(r) => json!({"k":"Break","e":r.expr.as_ref().map(|x| expr(x)),"label":r.label.as_ref().map(|l| l.ident.to_string()),"sp":s}),
        Expr::Continue(r) => json!({"k":"Continue","label":r.label.as_ref().map(|l| l.ident.to_string()),"sp":s}),
        Expr::Assign(a) => json!({"k":"Assign","l":expr(&a.left),"r":expr(&a.right),"sp":s}),
        Expr::Cast(c) => json!({"k":"Cast","e":expr(&c.expr),"t":ty(&c.ty),"sp":s}),
        Expr::Range(r) => json!({"k":"Range","lo":r.start.as_ref().map(|x| expr(x)),"hi":r.end.as_ref().map(|x| expr(x)),"inc":matches!(r.limits, RangeLimits::Closed(_)),"sp":s}),
        Expr::Struct(x) => json!({"k":"Struct","path":path(&x.path),"fs":x.fields.iter().map(|f| json!([toks(&f.member), expr(&f.expr)])).collect::<Vec<_>>(),"rest":x.rest.as_ref().map(|r| expr(r)),"sp":s}),
        Expr::Macro(m) => mac(&m.mac, s),
        Expr::Try(t) => json!({"k":"Try","e":expr(&t.expr),"sp":s}),
        o => json!({"k":"Unsupported","s":toks(o),"sp":s}),
    }
}
fn generics(g: &Generics) -> Value {
    json!(g
        .params
        .iter()
        .map(|p| match p {
            GenericParam::Type(t) => json!({"k":"T","id":t.ident.to_string(),"b":t.bounds.iter().map(|b| toks(b)).collect::<Vec<_>>()}),
            GenericParam::Const(c) => json!({"k":"C","id":c.ident.to_string()}),
            GenericParam::Lifetime(l) => json!({"k":"L","id":l.lifetime.to_string()}),
        })
        .collect::<Vec<_>>())
}
fn func(sig: &Signature, body: Option<&Block>, whole: Value, attrs: &[Attribute]) -> Value {
    let params: Vec<Value> = sig
        .inputs
        .iter()
        .map(|a| match a {
            FnArg::Receiver(r) => json!({"self":true,"ref":r.reference.is_some(),"mut":r.mutability.is_some(),"s":toks(r)}),
            FnArg::Typed(t) => json!({"p":pat(&t.pat),"t":ty(&t.ty),"s":toks(t)}),
        })
        .collect();
    json!({"k":"Fn","name":sig.ident.to_string(),"generics":generics(&sig.generics),"params":params,
        "ret":match &sig.output { ReturnType::Default => Value::Null, ReturnType::Type(_, t) => ty(t) },
        "rets":match &sig.output { ReturnType::Default => String::new(), ReturnType::Type(_, t) => toks(t) },
        "sigsp":sp(sig),"sp":whole,"test":attrs.iter().any(|a| a.path().is_ident("test") || a.path().is_ident("cfg")),
        "body":body.map(|b| block(b))})
}
fn item(i: &Item) -> Value {
    match i {
        Item::Fn(f) => func(&f.sig, Some(&f.block), sp(f), &f.attrs),
        Item::Const(c) => json!({"k":"Const","name":c.ident.to_string(),"t":ty(&c.ty),"e":expr(&c.expr),"sp":sp(c)}),
        Item::Static(c) => json!({"k":"Const","name":c.ident.to_string(),"t":ty(&c.ty),"e":expr(&c.expr),"sp":sp(c)}),
        Item::Struct(s) => json!({"k":"Struct","name":s.ident.to_string(),"generics":generics(&s.generics),"sp":sp(s),
            "fs":s.fields.iter().map(|f| json!([f.ident.as_ref().map(|i| i.to_string()), ty(&f.ty), toks(&f.ty)])).collect::<Vec<_>>()}),
        Item::Enum(e) => json!({"k":"Enum","name":e.ident.to_string(),"vs":e.variants.iter().map(|v| json!([v.ident.to_string(), v.fields.len()])).collect::<Vec<_>>(),"sp":sp(e)}),
        Item::Impl(m) => json!({"k":"Impl","ty":ty(&m.self_ty),"tys":toks(&m.self_ty),"generics":generics(&m.generics),
            "trait":m.trait_.as_ref().map(|t| path(&t.1)),"sp":sp(m),
            "items":m.items.iter().map(|x| match x {
                ImplItem::Fn(f) => func(&f.sig, Some(&f.block), sp(f), &f.attrs),
                ImplItem::Const(c) => json!({"k":"Const","name":c.ident.to_string(),"t":ty(&c.ty),"e":expr(&c.expr),"sp":sp(c)}),
                o => json!({"k":"Other","s":toks(o)}),
            }).collect::<Vec<_>>()}),
        Item::Trait(t) => json!({"k":"Trait","name":t.ident.to_string(),"sp":sp(t),
            "items":t.items.iter().map(|x| match x {
                TraitItem::Fn(f) => func(&f.sig, f.default.as_ref(), sp(f), &f.attrs),
                o => json!({"k":"Other","s":toks(o)}),
            }).collect::<Vec<_>>()}),
        Item::Mod(m) => json!({"k":"Mod","name":m.ident.to_string(),"test":m.attrs.iter().any(|a| a.path().is_ident("cfg")),
            "items":m.content.as_ref().map(|c| c.1.iter().map(item).collect::<Vec<_>>())}),
        Item::Macro(m) => json!({"k":"MacroItem","name":m.mac.path.segments.last().unwrap().ident.to_string(),"id":m.ident.as_ref().map(|i| i.to_string()),"s":m.mac.tokens.to_string(),"sp":sp(m)}),
        Item::Use(u) => json!({"k":"Use","s":toks(u),"sp":sp(u)}),
        Item::Type(t) => json!({"k":"TypeAlias","name":t.ident.to_string(),"t":ty(&t.ty)}),
        o => json!({"k":"Other","s":toks(o)}),
    }
}

fn main() {
    let mut out = serde_json::Map::new();
    for f in std::env::args().skip(1) {
        let src = std::fs::read_to_string(&f).unwrap_or_default();
        let v = match parse_file(&src) {
            Ok(file) => json!({"ok":true,"items":file.items.iter().map(item).collect::<Vec<_>>()}),
            Err(e) => json!({"ok":false,"error":e.to_string()}),
        };
        out.insert(f, v);
    }
    println!("{}", Value::Object(out));
}
