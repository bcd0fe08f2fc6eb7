//! Functions the contracts do not know (helpers somebody extracted) are put back where they are called, and so are
//! closures that are bound to a name and only called. A call is replaced only where that provably keeps the meaning:
//! the arguments are evaluated first and in order, names of the helper do not clash with names of the caller, and
//! the helper has no early exit other than `return` in tail position (or `?` where the call itself is under `?`).
//! Whatever does not fit is left alone, and then the function is outside the verifier's reach.
use crate::toks;
use proc_macro2::{Group, TokenStream, TokenTree as TT};
use std::collections::{BTreeSet, HashMap};
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Clone)]
pub struct Helper {
    pub file: String,
    pub method: bool,
    pub mut_self: bool,
    pub params: Vec<(String, bool)>, // name, mut
    pub body: Block,
}

pub type Helpers = HashMap<String, Vec<Helper>>;

pub fn helper(file: &str, sig: &Signature, block: &Block) -> Option<Helper> {
    let mut params = vec![];
    let mut method = false;
    let mut mut_self = false;
    for a in &sig.inputs {
        match a {
            FnArg::Receiver(r) => {
                method = true;
                mut_self = r.mutability.is_some() || r.reference.is_none();
            }
            FnArg::Typed(t) => match &*t.pat {
                Pat::Ident(p) if p.by_ref.is_none() && p.subpat.is_none() => params.push((p.ident.to_string(), p.mutability.is_some())),
                _ => return None,
            },
        }
    }
    Some(Helper { file: file.to_string(), method, mut_self, params, body: no_return(block)? })
}

/// `return` only in tail position, and rewritten away; None if that is not possible
fn no_return(b: &Block) -> Option<Block> {
    let mut b = b.clone();
    tail_block(&mut b)?;
    struct V(bool);
    impl<'a> Visit<'a> for V {
        fn visit_expr_return(&mut self, _: &'a ExprReturn) {
            self.0 = true
        }
        fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
        fn visit_item(&mut self, _: &'a Item) {}
    }
    let mut v = V(false);
    v.visit_block(&b);
    if v.0 { None } else { Some(b) }
}
fn unit() -> Expr {
    parse_str("()").unwrap()
}
fn tail_expr(e: &mut Expr) -> Option<()> {
    match e {
        Expr::Return(r) => {
            let mut x = r.expr.take().map(|x| *x).unwrap_or_else(unit);
            tail_expr(&mut x)?;
            *e = x;
        }
        Expr::Block(b) if b.label.is_none() => tail_block(&mut b.block)?,
        Expr::If(i) => {
            tail_block(&mut i.then_branch)?;
            if let Some((_, x)) = &mut i.else_branch {
                tail_expr(x)?
            }
        }
        Expr::Match(m) => {
            for a in m.arms.iter_mut() {
                tail_expr(&mut a.body)?
            }
        }
        _ => {}
    }
    Some(())
}
/// does the block always leave through `return`?
fn leaves(b: &Block) -> bool {
    matches!(b.stmts.last(), Some(Stmt::Expr(Expr::Return(_), _)))
}
fn tail_block(b: &mut Block) -> Option<()> {
    // `if c { ..; return x; } rest` becomes `if c { ..; x } else { rest }`
    for i in 0..b.stmts.len() {
        if i + 1 == b.stmts.len() {
            break;
        }
        if let Stmt::Expr(Expr::If(f), _) = &b.stmts[i] {
            if f.else_branch.is_none() && leaves(&f.then_branch) {
                let rest: Vec<Stmt> = b.stmts.split_off(i + 1);
                let mut f = match b.stmts.pop() {
                    Some(Stmt::Expr(Expr::If(f), _)) => f,
                    _ => return None,
                };
                let rb = Block { brace_token: Default::default(), stmts: rest };
                f.else_branch = Some((Default::default(), Box::new(Expr::Block(ExprBlock { attrs: vec![], label: None, block: rb }))));
                b.stmts.push(Stmt::Expr(Expr::If(f), None));
                break;
            }
        }
    }
    match b.stmts.last_mut() {
        Some(Stmt::Expr(e, semi)) => {
            if matches!(e, Expr::Return(_)) {
                *semi = None;
            }
            tail_expr(e)
        }
        _ => Some(()),
    }
}

struct Names {
    bound: BTreeSet<String>,
    tries: bool,
    used: BTreeSet<String>,
    assigned: BTreeSet<String>,
}
impl<'a> Visit<'a> for Names {
    fn visit_pat_ident(&mut self, p: &'a PatIdent) {
        self.bound.insert(p.ident.to_string());
        visit::visit_pat_ident(self, p)
    }
    fn visit_expr_try(&mut self, e: &'a ExprTry) {
        self.tries = true;
        visit::visit_expr_try(self, e)
    }
    fn visit_expr_path(&mut self, p: &'a ExprPath) {
        if let Some(i) = p.path.get_ident() {
            self.used.insert(i.to_string());
        }
    }
    fn visit_expr_assign(&mut self, e: &'a ExprAssign) {
        if let Expr::Path(p) = &*e.left {
            if let Some(i) = p.path.get_ident() {
                self.assigned.insert(i.to_string());
            }
        }
        visit::visit_expr_assign(self, e)
    }
    fn visit_expr_binary(&mut self, e: &'a ExprBinary) {
        use BinOp::*;
        if matches!(e.op, AddAssign(_) | SubAssign(_) | MulAssign(_) | DivAssign(_) | RemAssign(_) | BitXorAssign(_) | BitAndAssign(_) | BitOrAssign(_) | ShlAssign(_) | ShrAssign(_)) {
            if let Expr::Path(p) = &*e.left {
                if let Some(i) = p.path.get_ident() {
                    self.assigned.insert(i.to_string());
                }
            }
        }
        visit::visit_expr_binary(self, e)
    }
    fn visit_macro(&mut self, m: &'a Macro) {
        fn go(ts: TokenStream, u: &mut BTreeSet<String>) {
            for t in ts {
                match t {
                    TT::Ident(i) => {
                        u.insert(i.to_string());
                    }
                    TT::Group(g) => go(g.stream(), u),
                    _ => {}
                }
            }
        }
        go(m.tokens.clone(), &mut self.used);
    }
}
fn names<F: Fn(&mut Names)>(f: F) -> Names {
    let mut n = Names { bound: Default::default(), tries: false, used: Default::default(), assigned: Default::default() };
    f(&mut n);
    n
}

/// Substitution of variables by expressions, macros included. `bare` is used where the variable is a receiver, the base
/// of a field or an index, or under `*`.
struct Sub<'a> {
    map: &'a HashMap<String, (Expr, Option<Expr>)>,
}
impl Sub<'_> {
    fn hit(&self, e: &Expr) -> Option<&(Expr, Option<Expr>)> {
        if let Expr::Path(p) = e {
            if let Some(i) = p.path.get_ident() {
                return self.map.get(&i.to_string());
            }
        }
        None
    }
    fn base(&self, e: &mut Expr) {
        if let Some((_, Some(b))) = self.hit(e) {
            *e = b.clone();
        }
    }
    fn stream(&self, ts: TokenStream) -> TokenStream {
        ts.into_iter()
            .map(|t| match t {
                TT::Ident(i) if self.map.contains_key(&i.to_string()) => {
                    let (e, b) = &self.map[&i.to_string()];
                    // in a macro: `coord!{x: p.x}`; the bare form also fits behind a reference because of auto-deref
                    let e = b.as_ref().unwrap_or(e);
                    if let Expr::Path(q) = e { if let Some(x) = q.path.get_ident() { return TT::Ident(x.clone()); } }
                    TT::Group(Group::new(proc_macro2::Delimiter::Parenthesis, e.to_token_stream_()))
                }
                TT::Group(g) => TT::Group(Group::new(g.delimiter(), self.stream(g.stream()))),
                t => t,
            })
            .collect()
    }
}
trait Ts {
    fn to_token_stream_(&self) -> TokenStream;
}
impl Ts for Expr {
    fn to_token_stream_(&self) -> TokenStream {
        use quote::ToTokens;
        self.to_token_stream()
    }
}
impl VisitMut for Sub<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::MethodCall(m) => self.base(&mut m.receiver),
            Expr::Field(f) => self.base(&mut f.base),
            Expr::Index(f) => self.base(&mut f.expr),
            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => {
                if let Some((_, Some(b))) = self.hit(&u.expr) {
                    *e = b.clone();
                    return;
                }
            }
            _ => {}
        }
        if let Some((x, _)) = self.hit(e) {
            *e = x.clone();
            return;
        }
        visit_mut::visit_expr_mut(self, e)
    }
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
        f.colon_token.get_or_insert_with(Default::default); // `S { x }` -> `S { x: x }` so that x can be replaced
        visit_mut::visit_field_value_mut(self, f)
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        m.tokens = self.stream(m.tokens.clone());
    }
}

pub struct Inline<'a> {
    pub hs: &'a Helpers,
    pub file: String,
    pub local: HashMap<String, Helper>, // closures of the caller
    pub n: usize,
    pub done: BTreeSet<String>,
    pub depth: usize,
}
fn simple(e: &Expr) -> bool {
    match e {
        Expr::Path(p) => p.path.get_ident().is_some(),
        Expr::Field(f) => simple(&f.base),
        Expr::Paren(p) => simple(&p.expr),
        _ => false,
    }
}
fn idents(e: &Expr) -> BTreeSet<String> {
    names(|n| n.visit_expr(e)).used
}
impl Inline<'_> {
    fn find(&self, name: &str, method: bool) -> Option<Helper> {
        if !method {
            if let Some(h) = self.local.get(name) {
                return Some(h.clone());
            }
        }
        let v: Vec<&Helper> = self.hs.get(name)?.iter().filter(|h| h.method == method).collect();
        let same: Vec<&&Helper> = v.iter().filter(|h| h.file == self.file).collect();
        match (same.len(), v.len()) {
            (1, _) => Some((**same[0]).clone()),
            (0, 1) => Some(v[0].clone()),
            _ => None,
        }
    }
    fn expand(&mut self, name: &str, h: &Helper, recv: Option<Expr>, args: Vec<Expr>, under_try: bool) -> Option<Expr> {
        if args.len() != h.params.len() || self.depth > 3 {
            return None;
        }
        let hn = names(|n| n.visit_block(&h.body));
        if hn.tries && !under_try {
            return None;
        }
        let mut body = h.body.clone();
        let mut pre: Vec<Stmt> = vec![];
        let mut map: HashMap<String, (Expr, Option<Expr>)> = HashMap::new();
        let id = self.n;
        self.n += 1;
        if let Some(r) = recv {
            let me = matches!(&r, Expr::Path(p) if p.path.is_ident("self"));
            if !me {
                if simple(&r) && idents(&r).is_disjoint(&hn.bound) {
                    map.insert("self".into(), (r.clone(), Some(r)));
                } else {
                    let t = format!("__self{id}");
                    pre.push(parse_str(&format!("let {t} = &{};", toks(&r))).ok()?);
                    let x: Expr = parse_str(&t).ok()?;
                    map.insert("self".into(), (x.clone(), Some(x)));
                }
            }
        }
        for (k, ((p, m), a)) in h.params.iter().zip(args).enumerate() {
            let ok = idents(&a).is_disjoint(&hn.bound) && !m && !hn.assigned.contains(p) && !hn.bound.contains(p);
            let aname = if let Expr::Path(q) = &a { q.path.get_ident().map(|i| i.to_string()) } else { None };
            if aname.as_deref() == Some(p.as_str()) && ok {
                continue;
            }
            if matches!(a, Expr::Path(_)) && simple(&a) && ok && !h.mut_self {
                map.insert(p.clone(), (a.clone(), Some(a)));
                continue;
            }
            if let Expr::Reference(r) = &a {
                if simple(&r.expr) && ok {
                    let whole: Expr = parse_str(&format!("({})", toks(&a))).ok()?;
                    map.insert(p.clone(), (whole, Some((*r.expr).clone())));
                    continue;
                }
            }
            if matches!(a, Expr::Lit(_)) && ok {
                map.insert(p.clone(), (a.clone(), Some(a)));
                continue;
            }
            let t = format!("__arg{id}_{k}");
            pre.push(parse_str(&format!("let {}{t} = {};", if *m { "mut " } else { "" }, toks(&a))).ok()?);
            let x: Expr = parse_str(&t).ok()?;
            if hn.bound.contains(p) {
                // the helper rebinds the name: keep it
                pre.push(parse_str(&format!("let {}{p} = {t};", if *m { "mut " } else { "" })).ok()?);
            } else {
                map.insert(p.clone(), (x.clone(), Some(x)));
            }
        }
        Sub { map: &map }.visit_block_mut(&mut body);
        self.depth += 1;
        self.visit_block_mut(&mut body);
        self.depth -= 1;
        self.done.insert(name.to_string());
        pre.extend(body.stmts);
        if pre.len() == 1 {
            if let Stmt::Expr(e, None) = &pre[0] {
                return parse_str(&format!("({})", toks(e))).ok();
            }
        }
        Some(Expr::Block(ExprBlock { attrs: vec![], label: None, block: Block { brace_token: Default::default(), stmts: pre } }))
    }
    fn call(&mut self, e: &Expr, under_try: bool) -> Option<Expr> {
        match e {
            Expr::Call(c) => {
                let p = if let Expr::Path(p) = &*c.func { &p.path } else { return None };
                let name = p.segments.last()?.ident.to_string();
                let args: Vec<Expr> = c.args.iter().cloned().collect();
                if let Some(h) = self.find(&name, false) {
                    if p.segments.len() > 1 && self.local.contains_key(&name) {
                        return None;
                    }
                    return self.expand(&name, &h, None, args, under_try);
                }
                if p.segments.len() == 2 && !args.is_empty() {
                    if let Some(h) = self.find(&name, true) {
                        let r = match &args[0] {
                            Expr::Reference(r) => (*r.expr).clone(),
                            x => x.clone(),
                        };
                        return self.expand(&name, &h, Some(r), args[1..].to_vec(), under_try);
                    }
                }
                None
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                let h = self.find(&name, true)?;
                self.expand(&name, &h, Some((*m.receiver).clone()), m.args.iter().cloned().collect(), under_try)
            }
            _ => None,
        }
    }
}
impl VisitMut for Inline<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Try(t) = e {
            self.args(&mut t.expr);
            if let Some(x) = self.call(&t.expr, true) {
                *t.expr = x;
            }
            return;
        }
        visit_mut::visit_expr_mut(self, e);
        if let Some(x) = self.call(e, false) {
            *e = x;
        }
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        // `let f = |a, b| body;` that is only called
        let mut i = 0;
        while i < b.stmts.len() {
            if let Some((name, h)) = closure(&b.stmts[i], &self.file) {
                let rest = Block { brace_token: Default::default(), stmts: b.stmts[i + 1..].to_vec() };
                let hn = names(|n| n.visit_block(&h.body));
                let rn = names(|n| n.visit_block(&rest));
                let params: BTreeSet<String> = h.params.iter().map(|p| p.0.clone()).collect();
                let free: BTreeSet<String> = hn.used.iter().filter(|x| !params.contains(*x) && !hn.bound.contains(*x)).cloned().collect();
                if !hn.tries && hn.assigned.is_empty() && free.is_disjoint(&rn.bound) && free.is_disjoint(&rn.assigned) && !rn.bound.contains(&name) && only_called(&name, &rest) {
                    self.local.insert(name, h);
                    b.stmts.remove(i);
                    continue;
                }
            }
            i += 1;
        }
        visit_mut::visit_block_mut(self, b)
    }
}
impl Inline<'_> {
    fn args(&mut self, e: &mut Expr) {
        match e {
            Expr::Call(c) => c.args.iter_mut().for_each(|a| self.visit_expr_mut(a)),
            Expr::MethodCall(m) => {
                self.visit_expr_mut(&mut m.receiver);
                m.args.iter_mut().for_each(|a| self.visit_expr_mut(a))
            }
            _ => self.visit_expr_mut(e),
        }
    }
}
fn closure(s: &Stmt, file: &str) -> Option<(String, Helper)> {
    let l = if let Stmt::Local(l) = s { l } else { return None };
    let name = if let Pat::Ident(p) = &l.pat { p.ident.to_string() } else { return None };
    let c = match &l.init {
        Some(LocalInit { expr, diverge: None, .. }) => if let Expr::Closure(c) = &**expr { if c.capture.is_some() { return None } c } else { return None },
        _ => return None,
    };
    let mut params = vec![];
    for p in &c.inputs {
        let p = if let Pat::Type(t) = p { &*t.pat } else { p };
        match p {
            Pat::Ident(i) if i.by_ref.is_none() && i.subpat.is_none() => params.push((i.ident.to_string(), i.mutability.is_some())),
            _ => return None,
        }
    }
    let body = match &*c.body {
        Expr::Block(b) if b.label.is_none() => b.block.clone(),
        e => Block { brace_token: Default::default(), stmts: vec![Stmt::Expr(e.clone(), None)] },
    };
    Some((name, Helper { file: file.to_string(), method: false, mut_self: false, params, body: no_return(&body)? }))
}
/// every mention of the name is a direct call
fn only_called(name: &str, b: &Block) -> bool {
    struct V<'a> {
        name: &'a str,
        calls: usize,
        all: usize,
    }
    impl<'a> Visit<'a> for V<'_> {
        fn visit_expr_call(&mut self, c: &'a ExprCall) {
            if let Expr::Path(p) = &*c.func {
                if p.path.is_ident(self.name) {
                    self.calls += 1
                }
            }
            visit::visit_expr_call(self, c)
        }
        fn visit_expr_path(&mut self, p: &'a ExprPath) {
            if p.path.is_ident(self.name) {
                self.all += 1
            }
        }
        fn visit_macro(&mut self, m: &'a Macro) {
            if m.tokens.to_string().split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| w == self.name) {
                self.all += 1
            }
        }
    }
    let mut v = V { name, calls: 0, all: 0 };
    v.visit_block(b);
    v.calls == v.all
}
