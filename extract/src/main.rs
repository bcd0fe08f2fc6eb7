//! Mechanical extraction of functions and types from /repo/src for Verus.
//!
//! usage: qtextract CONFIG.json SRC_DIR  -> JSON array of items on stdout
//!
//! What is changed in the extracted text (everything else is printed back token by token):
//!  * attributes, doc comments, visibilities of fields (made pub), where clauses and type parameters are dropped;
//!    type arguments of the listed "mono" types are dropped and the listed type parameters renamed (monomorphisation
//!    to opaque types);
//!  * `for p in e {b}` (not over a range)  ->  loop over `qt_into(e)` / `qt_next()`;  `while let p = e {b}` -> loop+match
//!  * `coord!`, `vec!`, `unreachable!` macros expanded;
//!  * reference patterns `&p` in match arms -> match on the dereferenced place
//!  * `.iter()`, `.chain(..)`, `.sort_unstable_by(..)`, ... -> `.qt_iter()`, ... (listed in the config)
//!  * `x.map(|p| e)`, `x.and_then(|p| e)` with a closure literal -> match (Option or Result told by config per fn, default Option)
//!  * closures get the header given by the world's spec file
mod inline;
use quote::ToTokens;
use serde_json::{json, Value};
use std::collections::{BTreeSet, HashMap};
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

struct Cfg {
    helpers: inline::Helpers,
    mono: BTreeSet<String>,
    map: HashMap<String, String>,
    methods: HashMap<String, String>,
    macros: std::cell::RefCell<HashMap<String, (Vec<String>, proc_macro2::TokenStream)>>, // one-arm macro_rules! of the current file
    results: BTreeSet<String>, // functions of the crate that return a Result, whatever their owner
    traits: BTreeSet<String>, // traits with methods on a receiver, for `Trait::method(x)`
    kinds: HashMap<String, Vec<String>>, // fn key -> list of "Option"/"Result" for successive .map/.and_then
}

fn toks<X: ToTokens>(x: &X) -> String {
    x.to_token_stream().to_string()
}
fn nows(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

struct Mono<'a> {
    c: &'a Cfg,
}
impl VisitMut for Mono<'_> {
    fn visit_type_mut(&mut self, t: &mut Type) {
        // qualified mapping such as Self::Node
        let s = nows(&toks(t));
        if let Some(r) = self.c.map.get(&s) {
            *t = parse_str::<Type>(r).expect("map type");
            return;
        }
        visit_mut::visit_type_mut(self, t);
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        let s = nows(&toks(p));
        if let Some(r) = self.c.map.get(&s) {
            *p = parse_str::<Path>(r).expect("map path");
            return;
        }
        // crate:: prefixes
        while p.segments.len() > 1 && ["crate", "super", "self", "geo", "std_"].contains(&p.segments[0].ident.to_string().as_str()) {
            let keep: syn::punctuated::Punctuated<PathSegment, Token![::]> = p.segments.iter().skip(1).cloned().collect();
            p.segments = keep;
            p.leading_colon = None;
        }
        let first = p.segments[0].ident.to_string();
        if p.segments.len() > 1 {
            if let Some(r) = self.c.map.get(&first) {
                if let Ok(id) = parse_str::<Ident>(r) {
                    p.segments[0].ident = id;
                }
            }
        }
        let mono = &self.c.mono;
        for seg in p.segments.iter_mut() {
            if mono.contains(&seg.ident.to_string()) {
                if let PathArguments::AngleBracketed(a) = &mut seg.arguments {
                    let keep: syn::punctuated::Punctuated<GenericArgument, Token![,]> =
                        a.args.iter().filter(|g| matches!(g, GenericArgument::Lifetime(_))).cloned().collect();
                    if keep.is_empty() {
                        seg.arguments = PathArguments::None;
                    } else {
                        a.args = keep;
                        a.colon2_token = None;
                    }
                }
            }
        }
        visit_mut::visit_path_mut(self, p);
    }
    fn visit_generics_mut(&mut self, g: &mut Generics) {
        let keep: syn::punctuated::Punctuated<GenericParam, Token![,]> = g
            .params
            .iter()
            .filter(|p| matches!(p, GenericParam::Lifetime(_)))
            .cloned()
            .collect();
        g.params = keep;
        if g.params.is_empty() {
            g.lt_token = None;
            g.gt_token = None;
        }
        g.where_clause = None;
    }
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        a.clear();
    }
    fn visit_macro_mut(&mut self, _m: &mut Macro) {}
}

/// rewriting of expressions / statements
struct Rw<'a> {
    c: &'a Cfg,
    loops: usize,
    fresh: usize,
    closures: usize,
    kind_ix: usize,
    key: String,
    kinds_log: Vec<String>,
    results: BTreeSet<String>, // locals that are assigned Ok(..) or Err(..)
    calls: BTreeSet<String>,
    notes: BTreeSet<String>,
}
fn parse_fields(m: &Macro) -> Option<Vec<(String, Expr)>> {
    // coord! { x: e, y: e }
    let parser = |input: parse::ParseStream| -> Result<Vec<(String, Expr)>> {
        let mut v = vec![];
        while !input.is_empty() {
            let id: Ident = input.parse()?;
            input.parse::<Token![:]>()?;
            let e: Expr = input.parse()?;
            v.push((id.to_string(), e));
            if !input.is_empty() {
                input.parse::<Token![,]>()?;
            }
        }
        Ok(v)
    };
    parse::Parser::parse2(parser, m.tokens.clone()).ok()
}
fn parse_list(m: &Macro) -> Option<Vec<Expr>> {
    let parser = syn::punctuated::Punctuated::<Expr, Token![,]>::parse_terminated;
    parse::Parser::parse2(parser, m.tokens.clone()).ok().map(|p| p.into_iter().collect())
}
fn ex(s: &str) -> Expr {
    parse_str::<Expr>(s).unwrap_or_else(|e| panic!("cannot parse expr {s}: {e}"))
}
/// `( $x : expr , .. ) => { body }`, one arm only
fn one_arm(ts: &proc_macro2::TokenStream) -> Option<(Vec<String>, proc_macro2::TokenStream)> {
    use proc_macro2::TokenTree as TT;
    let v: Vec<TT> = ts.clone().into_iter().collect();
    let groups: Vec<_> = v.iter().filter_map(|t| if let TT::Group(g) = t { Some(g.clone()) } else { None }).collect();
    if groups.len() != 2 {
        return None;
    }
    let p = groups[0].stream().to_string();
    let mut names = vec![];
    for x in p.split(',').map(|x| x.trim()).filter(|x| !x.is_empty()) {
        let (n, k) = x.trim_start_matches('$').split_once(':')?;
        if k.trim() != "expr" {
            return None;
        }
        names.push(n.trim().to_string());
    }
    Some((names, groups[1].stream()))
}
fn subst_macro(ts: proc_macro2::TokenStream, map: &HashMap<String, Expr>) -> proc_macro2::TokenStream {
    use proc_macro2::{Group, TokenTree as TT};
    let mut out = proc_macro2::TokenStream::new();
    let mut it = ts.into_iter().peekable();
    while let Some(t) = it.next() {
        match t {
            TT::Punct(ref q) if q.as_char() == '$' => {
                if let Some(TT::Ident(i)) = it.peek().cloned() {
                    if let Some(e) = map.get(&i.to_string()) {
                        it.next();
                        let simple = matches!(e, Expr::Path(_) | Expr::Lit(_) | Expr::Field(_) | Expr::MethodCall(_) | Expr::Call(_));
                        if simple { out.extend(e.to_token_stream()) } else { out.extend([TT::Group(Group::new(proc_macro2::Delimiter::Parenthesis, e.to_token_stream()))]) }
                        continue;
                    }
                }
                out.extend([t]);
            }
            TT::Group(g) => out.extend([TT::Group(Group::new(g.delimiter(), subst_macro(g.stream(), map)))]),
            t => out.extend([t]),
        }
    }
    out
}
/// does pattern contain a reference pattern?
fn strip_ref(p: &Pat) -> Option<Pat> {
    match p {
        Pat::Reference(r) => Some((*r.pat).clone()),
        Pat::Paren(q) => strip_ref(&q.pat),
        _ => None,
    }
}
impl Rw<'_> {
    fn name(&mut self, b: &str) -> String {
        let n = self.fresh;
        self.fresh += 1;
        format!("__{b}{n}")
    }
    fn is_result(&self, recv: &Expr) -> bool {
        gives_result(recv, &self.c.results, &self.results)
    }
    fn next_kind(&mut self, recv: &Expr) -> String {
        let i = self.kind_ix;
        self.kind_ix += 1;
        let k = self.c.kinds.get(&self.key).and_then(|v| v.get(i)).cloned().unwrap_or_else(|| {
            if self.is_result(recv) { "Result".into() } else { "Option".into() }
        });
        self.kinds_log.push(k.clone());
        k
    }
    /// Some(&p) => b  -->  Some(__r) => match *__r { p => b, _ => other }
    fn while_let(&mut self, pat: &Pat, e: &Expr, body: &Block, label: &str) -> String {
        let n = self.loops;
        self.loops += 1;
        let mut body = body.clone();
        self.visit_block_mut(&mut body);
        if let Pat::TupleStruct(ts) = pat {
            if ts.elems.len() == 1 {
                if let Some(inner) = strip_ref(&ts.elems[0]) {
                    let r = self.name("r");
                    return format!(
                        "{label} loop {{ __qt_inv!({n}); match {} {{ {}({r}) => match *{r} {{ {} => {}, _ => break, }}, _ => break, }} }}",
                        toks(e), toks(&ts.path), toks(&inner), toks(&body)
                    );
                }
            }
        }
        format!("{label} loop {{ __qt_inv!({n}); match {} {{ {} => {}, _ => break, }} }}", toks(e), toks(pat), toks(&body))
    }
}
impl VisitMut for Rw<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Try(t) if matches!(&*t.expr, Expr::MethodCall(m) if try_each(m).is_some()) => {
                // `it.try_for_each(|p| b)?`
                let Expr::MethodCall(m) = &*t.expr else { unreachable!() };
                *e = ex(&format!("{{ {} }}", try_each(m).unwrap()));
                self.visit_expr_mut(e);
            }
            Expr::MethodCall(m) if matches!(m.args.first(), Some(Expr::Closure(c)) if c.attrs.iter().any(|a| a.path().is_ident("qt_tail"))) && try_each(m).is_some() => {
                // the same as the value of the function
                *e = ex(&format!("{{ {} Ok(()) }}", try_each(m).unwrap()));
                self.visit_expr_mut(e);
            }
            Expr::ForLoop(f) => {
                while let Expr::Paren(p) = &*f.expr {
                    f.expr = p.expr.clone();
                }
                if let Some(x) = fused(f) {
                    *e = x;
                    self.visit_expr_mut(e);
                    return;
                }
                let label = f.label.as_ref().map(toks).unwrap_or_default();
                let is_range = matches!(*f.expr, Expr::Range(_));
                self.visit_expr_mut(&mut f.expr);
                let n = self.loops;
                self.loops += 1;
                let mut body = f.body.clone();
                self.visit_block_mut(&mut body);
                let s = if is_range {
                    let b = toks(&body);
                    let inner = b.trim().strip_prefix('{').unwrap().strip_suffix('}').unwrap().to_string();
                    let pat = match &*f.pat { Pat::Wild(_) => self.name("w"), p => toks(p) };
                    format!("{label} for {} in {} {{ __qt_inv!({n}); {} }}", pat, toks(&f.expr), inner)
                } else {
                    let it = format!("__it{n}");
                    let (pat, body) = match strip_ref(&f.pat) {
                        Some(inner) => {
                            let r = self.name("r");
                            (r.clone(), format!("{{ let {} = *{r}; {} }}", toks(&inner), toks(&body)))
                        }
                        None => (toks(&f.pat), toks(&body)),
                    };
                    format!(
                        "{{ let mut {it} = ({}).qt_into(); {label} loop {{ __qt_inv!({n}); match {it}.qt_next() {{ Some({pat}) => {body} None => break, }} }} }}",
                        toks(&f.expr)
                    )
                };
                *e = ex(&s);
            }
            Expr::While(w) => {
                let label = w.label.as_ref().map(toks).unwrap_or_default();
                let w2 = w.clone();
                if let Expr::Let(l) = &*w2.cond {
                    let mut scr = (*l.expr).clone();
                    self.visit_expr_mut(&mut scr);
                    let s = self.while_let(&l.pat, &scr, &w2.body, &label);
                    *e = ex(&s);
                } else {
                    self.visit_expr_mut(&mut w.cond);
                    let n = self.loops;
                    self.loops += 1;
                    let mut body = w.body.clone();
                    self.visit_block_mut(&mut body);
                    let b = toks(&body);
                    let inner = b.trim().strip_prefix('{').unwrap().strip_suffix('}').unwrap().to_string();
                    let s = format!("{label} while {} {{ __qt_inv!({n}); {} }}", toks(&w.cond), inner);
                    *e = ex(&s);
                }
            }
            Expr::Loop(l) => {
                let label = l.label.as_ref().map(toks).unwrap_or_default();
                let n = self.loops;
                self.loops += 1;
                let mut body = l.body.clone();
                self.visit_block_mut(&mut body);
                let b = toks(&body);
                let inner = b.trim().strip_prefix('{').unwrap().strip_suffix('}').unwrap().to_string();
                *e = ex(&format!("{label} loop {{ __qt_inv!({n}); {inner} }}"));
            }
            Expr::Macro(m) => {
                let name = m.mac.path.segments.last().unwrap().ident.to_string();
                match name.as_str() {
                    "coord" => {
                        if let Some(mut v) = parse_fields(&m.mac) {
                            let mut s = String::from("Coord {");
                            for (k, x) in v.iter_mut() {
                                self.visit_expr_mut(x);
                                s += &format!(" {k}: {},", toks(x));
                            }
                            s += "}";
                            *e = ex(&s);
                        }
                    }
                    "vec" => {
                        if let Some(mut v) = parse_list(&m.mac) {
                            if v.is_empty() {
                                *e = ex("Vec::new()");
                            } else {
                                let nm = self.name("v");
                                let mut s = format!("{{ let mut {nm} = Vec::new();");
                                for x in v.iter_mut() {
                                    self.visit_expr_mut(x);
                                    s += &format!(" {nm}.push({});", toks(x));
                                }
                                s += &format!(" {nm} }}");
                                *e = ex(&s);
                            }
                        }
                    }
                    "unreachable" | "panic" | "todo" | "unimplemented" => {
                        *e = ex("qt_unreachable()");
                    }
                    "__qt_inv" => {}
                    nm if self.c.macros.borrow().contains_key(nm) => {
                        let (ps, body) = self.c.macros.borrow()[nm].clone();
                        if let Some(args) = parse_list(&m.mac) {
                            if args.len() == ps.len() {
                                let map: HashMap<String, Expr> = ps.into_iter().zip(args).collect();
                                let mut x: Expr = parse2(subst_macro(body, &map)).expect("macro body");
                                self.visit_expr_mut(&mut x);
                                *e = x;
                            }
                        }
                    }
                    other => {
                        self.notes.insert(format!("macro {other}!"));
                    }
                }
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                if let Some(x) = opt_closure(m, self.is_result(&m.receiver)) {
                    *e = x;
                    self.visit_expr_mut(e);
                    return;
                }
                if let Some(x) = iter_closure(m) {
                    *e = x;
                    self.visit_expr_mut(e);
                    return;
                }
                if (name == "map" || name == "and_then") && m.args.len() == 1 {
                    if let Expr::Closure(c) = &m.args[0] {
                        if c.inputs.len() == 1 && !leaves(c) {
                            let pat = toks(&c.inputs[0]);
                            let mut body = (*c.body).clone();
                            let mut recv = (*m.receiver).clone();
                            let k = self.next_kind(&recv);
                            self.visit_expr_mut(&mut recv);
                            self.visit_expr_mut(&mut body);
                            let (r, b) = (toks(&recv), toks(&body));
                            let s = match (k.as_str(), name.as_str()) {
                                ("Result", "map") => format!("match {r} {{ Ok({pat}) => Ok({b}), Err(__e) => Err(__e), }}"),
                                ("Result", _) => format!("match {r} {{ Ok({pat}) => ({b}), Err(__e) => Err(__e), }}"),
                                ("Option", "map") => format!("match {r} {{ Some({pat}) => Some({b}), None => None, }}"),
                                ("Option", _) => format!("match {r} {{ Some({pat}) => ({b}), None => None, }}"),
                                ("Iter", _) => {
                                    // leave as a method on the shim iterator
                                    let cid = self.closures;
                                    self.closures += 1;
                                    format!("({r}).qt_{name}(|{pat}| {{ __qt_clo!({cid}); {b} }})")
                                }
                                _ => panic!("kind"),
                            };
                            *e = ex(&s);
                            return;
                        }
                    }
                }
                self.calls.insert(name.clone());
                if let Some(r) = self.c.methods.get(&name) {
                    m.method = Ident::new(r, m.method.span());
                }
                m.turbofish = None;
                visit_mut::visit_expr_mut(self, e);
            }
            Expr::Match(mm) => {
                // `match r { &P(d) => .. }`  ->  `match *r { P(d) => .. }`
                if mm.arms.iter().any(|a| strip_ref(&a.pat).is_some()) && mm.arms.iter().all(|a| strip_ref(&a.pat).is_some() || matches!(a.pat, Pat::Wild(_))) {
                    for a in mm.arms.iter_mut() {
                        if let Some(p) = strip_ref(&a.pat) {
                            a.pat = p;
                        }
                    }
                    let s = toks(&mm.expr);
                    mm.expr = Box::new(ex(&format!("* ({s})")));
                }
                visit_mut::visit_expr_match_mut(self, mm);
            }
            Expr::Closure(c) => {
                let cid = self.closures;
                self.closures += 1;
                self.visit_expr_mut(&mut c.body);
                let b = toks(&c.body);
                let mut c2 = c.clone();
                c2.attrs.clear();
                *c2.body = ex(&format!("{{ __qt_clo!({cid}); {b} }}"));
                // params kept; header replaced later by the assembler
                *e = Expr::Closure(c2);
            }
            Expr::Call(c) => {
                // `Trait::method(x, ..)`  ->  `x.method(..)`
                if let (Expr::Path(p), true) = (&*c.func, !c.args.is_empty()) {
                    let k = p.path.segments.len();
                    if p.qself.is_none() && k >= 2 && self.c.traits.contains(&p.path.segments[k - 2].ident.to_string()) {
                        let m = p.path.segments[k - 1].ident.to_string();
                        let mut a: Vec<Expr> = c.args.iter().cloned().collect();
                        let r = match a.remove(0) {
                            Expr::Reference(r) => *r.expr,
                            x => x,
                        };
                        let rest: Vec<String> = a.iter().map(toks).collect();
                        let simple = matches!(r, Expr::Path(_) | Expr::Field(_) | Expr::MethodCall(_) | Expr::Call(_) | Expr::Index(_));
                        *e = ex(&if simple { format!("{}.{m}({})", toks(&r), rest.join(", ")) } else { format!("({}).{m}({})", toks(&r), rest.join(", ")) });
                        self.visit_expr_mut(e);
                        return;
                    }
                }
                if let Expr::Path(p) = &*c.func {
                    self.calls.insert(nows(&toks(&p.path)));
                }
                visit_mut::visit_expr_mut(self, e);
            }
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s {
            let name = m.mac.path.segments.last().unwrap().ident.to_string();
            if name == "__qt_inv" || name == "__qt_clo" {
                return;
            }
            let mut e = Expr::Macro(ExprMacro { attrs: vec![], mac: m.mac.clone() });
            self.visit_expr_mut(&mut e);
            *s = Stmt::Expr(e, m.semi_token);
            return;
        }
        // nested items (consts, fns) are left as they are
        visit_mut::visit_stmt_mut(self, s);
    }
}

struct Printed;
impl VisitMut for Printed {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Macro(m) = e {
            let name = m.mac.path.segments.last().unwrap().ident.to_string();
            if ["write", "writeln", "format"].contains(&name.as_str()) {
                if let Some(x) = printed(&m.mac, &name) {
                    *e = x;
                }
            }
        }
        visit_mut::visit_expr_mut(self, e)
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s {
            let mut e = Expr::Macro(ExprMacro { attrs: vec![], mac: m.mac.clone() });
            self.visit_expr_mut(&mut e);
            if !matches!(e, Expr::Macro(_)) {
                *s = Stmt::Expr(e, m.semi_token);
            }
            return;
        }
        visit_mut::visit_stmt_mut(self, s)
    }
}
/// `write!`, `writeln!` and `format!`: the arguments once, in order, then the pieces of the string one after the other
fn printed(m: &Macro, name: &str) -> Option<Expr> {
    let parser = |input: parse::ParseStream| -> Result<Vec<(Option<String>, Expr)>> {
        let mut v = vec![];
        while !input.is_empty() {
            let n = if input.peek(Ident) && input.peek2(Token![=]) && !input.peek2(Token![==]) {
                let i: Ident = input.parse()?;
                input.parse::<Token![=]>()?;
                Some(i.to_string())
            } else {
                None
            };
            v.push((n, input.parse()?));
            if !input.is_empty() {
                input.parse::<Token![,]>()?;
            }
        }
        Ok(v)
    };
    let mut v: Vec<(Option<String>, Expr)> = parse::Parser::parse2(parser, m.tokens.clone()).ok()?;
    let sink = if name == "format" {
        None
    } else if v.is_empty() {
        return None;
    } else {
        Some(v.remove(0).1)
    };
    let mut text = if v.is_empty() {
        if name != "writeln" {
            return None;
        }
        String::new()
    } else {
        match v.remove(0).1 {
            Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => s.value(),
            _ => return None,
        }
    };
    if name == "writeln" {
        text.push('\n');
    }
    // the pieces
    let cs: Vec<char> = text.chars().collect();
    let (mut steps, mut lit, mut i, mut next, mut args) = (vec![], String::new(), 0, 0, v.len());
    let mut names: Vec<(String, usize)> = v.iter().enumerate().filter_map(|(k, a)| a.0.clone().map(|n| (n, k))).collect();
    let mut exprs: Vec<Expr> = v.into_iter().map(|a| a.1).collect();
    let mut arg = |n: &str, next: &mut usize| -> Option<usize> {
        if n.is_empty() {
            *next += 1;
            return Some(*next - 1);
        }
        if let Ok(k) = n.parse::<usize>() {
            return Some(k);
        }
        if let Some((_, k)) = names.iter().find(|x| x.0 == n) {
            return Some(*k);
        }
        exprs.push(parse_str(n).ok()?);
        names.push((n.to_string(), args));
        args += 1;
        Some(args - 1)
    };
    let flush = |lit: &mut String, steps: &mut Vec<String>| {
        if !lit.is_empty() {
            steps.push(format!("qt_lit(__w, {lit:?})"));
            lit.clear();
        }
    };
    while i < cs.len() {
        match cs[i] {
            c @ ('{' | '}') if cs.get(i + 1) == Some(&c) => {
                lit.push(c);
                i += 1;
            }
            '}' => return None,
            '{' => {
                let n = cs[i..].iter().position(|c| *c == '}')?;
                let hole: String = cs[i + 1..i + n].iter().collect();
                i += n;
                let (who, how) = hole.split_once(':').unwrap_or((&hole, ""));
                let k = arg(who.trim(), &mut next)?;
                let (how, prec) = match how.split_once('.') {
                    None => (how, "None".to_string()),
                    Some((h, p)) => (h, format!("Some({})", match p.strip_suffix('$') {
                        Some(n) => format!("*__d{}", arg(n, &mut next)?),
                        None => p.parse::<usize>().ok()?.to_string(),
                    })),
                };
                flush(&mut lit, &mut steps);
                let (side, how) = match how.chars().next() {
                    Some(c @ ('<' | '>')) => (if c == '<' { "QtSide::Left" } else { "QtSide::Right" }, &how[1..]),
                    _ => ("QtSide::Own", how),
                };
                if how.is_empty() {
                    steps.push(format!("QtDisp::qt_fmt(__d{k}, __w, {prec})"));
                } else {
                    if how.starts_with('0') {
                        return None;
                    }
                    let w = match how.strip_suffix('$') {
                        Some(n) => format!("*__d{}", arg(n, &mut next)?),
                        None => how.parse::<usize>().ok()?.to_string(),
                    };
                    steps.push(format!("QtDisp::qt_pad(__d{k}, __w, {side}, {w}, {prec})"));
                }
            }
            c => lit.push(c),
        }
        i += 1;
    }
    flush(&mut lit, &mut steps);
    let mut chain = match steps.pop() {
        None => "qt_lit(__w, \"\")".to_string(),
        Some(x) => x,
    };
    while let Some(x) = steps.pop() {
        chain = format!("match {x} {{ Err(__e) => Err(__e), Ok(()) => {chain} }}");
    }
    let lets: String = exprs.iter().enumerate().map(|(k, x)| format!("let __d{k} = & ({});", toks(x))).collect();
    let s = match sink {
        Some(w) => {
            let mut w = &w;
            while let Expr::Paren(ExprParen { expr, .. }) | Expr::Reference(ExprReference { expr, .. }) | Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) = w {
                w = expr;
            }
            if !matches!(w, Expr::Path(_)) {
                return None;
            }
            format!("{{ {lets} {} }}", chain.replace("__w", &toks(w)))
        }
        None => format!("{{ {lets} let mut __own = Formatter::qt_own(); let __done = {chain}; qt_unfailing(__done, __own) }}", chain = chain.replace("__w", "(&mut __own)")),
    };
    parse_str(&s).ok()
}
/// closures whose value is the value of the function: leaving one early is leaving the function with that value
fn mark_tail(e: &mut Expr) {
    match e {
        Expr::Block(b) if b.label.is_none() => mark_tail_block(&mut b.block),
        Expr::Paren(p) => mark_tail(&mut p.expr),
        Expr::If(i) => {
            mark_tail_block(&mut i.then_branch);
            if let Some((_, x)) = &mut i.else_branch {
                mark_tail(x);
            }
        }
        Expr::Match(m) => m.arms.iter_mut().for_each(|a| mark_tail(&mut a.body)),
        Expr::Return(r) => {
            if let Some(x) = &mut r.expr {
                mark_tail(x);
            }
        }
        Expr::MethodCall(m) => {
            let from = match m.method.to_string().as_str() {
                "or_else" | "and_then" | "unwrap_or_else" | "map_or_else" | "try_for_each" => 0,
                "map_or" => 1,
                _ => return,
            };
            for a in m.args.iter_mut().skip(from) {
                if let Expr::Closure(c) = a {
                    c.attrs.push(syn::parse_quote!(#[qt_tail]));
                    mark_tail(&mut c.body);
                }
            }
        }
        _ => {}
    }
}
fn mark_tail_block(b: &mut Block) {
    if let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() {
        mark_tail(e);
    } else if let Some(Stmt::Expr(e @ Expr::Return(_), Some(_))) = b.stmts.last_mut() {
        mark_tail(e);
    }
}
fn leaves(c: &ExprClosure) -> bool {
    !c.attrs.iter().any(|a| a.path().is_ident("qt_tail")) && exits(&c.body)
}
/// does a closure body leave the closure early (there, that is not leaving the function)?
fn exits(e: &Expr) -> bool {
    struct V(bool);
    impl<'a> Visit<'a> for V {
        fn visit_expr_return(&mut self, _: &'a ExprReturn) {
            self.0 = true
        }
        fn visit_expr_try(&mut self, _: &'a ExprTry) {
            self.0 = true
        }
        fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
        fn visit_item(&mut self, _: &'a Item) {}
        fn visit_macro(&mut self, m: &'a Macro) {
            // what a macro does is not looked into, except where no control flow can hide
            let n = m.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
            if !["coord", "point", "vec", "matches", "unreachable", "panic", "todo", "unimplemented", "format", "write", "writeln", "debug_assert"].contains(&n.as_str()) {
                self.0 = true
            }
        }
    }
    let mut v = V(false);
    v.visit_expr(e);
    v.0
}
/// a closure of at most one argument as a match arm: the pattern (no `&`, no type) and the body
fn arm(c: &ExprClosure) -> (String, String) {
    let b = toks(&c.body);
    match c.inputs.first() {
        None => (String::new(), b),
        Some(Pat::Type(t)) if strip_ref(&t.pat).is_none() => (toks(&t.pat), b),
        Some(p) => match strip_ref(p) {
            Some(q) => ("__p".into(), format!("let {} = * __p ; {b}", toks(&q))),
            None => (toks(p), b),
        },
    }
}
fn names_of(e: &Expr) -> BTreeSet<String> {
    struct V(BTreeSet<String>);
    impl<'a> visit::Visit<'a> for V {
        fn visit_ident(&mut self, i: &'a Ident) {
            self.0.insert(i.to_string());
        }
        fn visit_macro(&mut self, m: &'a Macro) {
            self.0.extend(m.tokens.to_string().split(|c: char| !c.is_alphanumeric() && c != '_').map(String::from));
        }
    }
    let mut v = V(Default::default());
    v.visit_expr(e);
    v.0
}
/// a `for` over `map`, `filter` or `filter_map` of an iterator is a `for` over the iterator itself
fn fused(f: &ExprForLoop) -> Option<Expr> {
    let Expr::MethodCall(m) = &*f.expr else { return None };
    if m.method == "rev" && m.args.is_empty() {
        // numbers counted down
        let mut r = &*m.receiver;
        while let Expr::Paren(p) = r {
            r = &p.expr;
        }
        let (Expr::Range(g), Pat::Ident(_)) = (r, &*f.pat) else { return None };
        let (Some(a), Some(b), RangeLimits::HalfOpen(_)) = (&g.start, &g.end, &g.limits) else { return None };
        if !matches!((&**a, &**b), (Expr::Lit(_), Expr::Lit(_))) {
            return None;
        }
        let (i, a, b) = (toks(&f.pat), toks(a), toks(b));
        let label = f.label.as_ref().map(toks).unwrap_or_default();
        let body = toks(&f.body);
        return parse_str(&format!("{label} for {i} in {a} .. {b} {{ let {i} = {b} - 1 - ({i} - {a}) ; {body} }}")).ok();
    }
    let Some(Expr::Closure(c)) = m.args.first() else { return None };
    if m.args.len() != 1 || c.inputs.len() != 1 || leaves(c) {
        return None;
    }
    let label = f.label.as_ref().map(toks).unwrap_or_default();
    let (p, b) = arm(c);
    let (r, q) = (toks(&m.receiver), toks(&f.pat));
    let body = toks(&f.body);
    let s = match m.method.to_string().as_str() {
        "map" => format!("{label} for __x in {r} {{ let {q} = {{ let {p} = __x ; {b} }} ; {body} }}"),
        "filter" => {
            let (test, take) = match (&c.inputs[0], &*f.pat) {
                (Pat::Ident(_), _) => (format!("{{ let {p} = & __x ; {b} }}"), format!("let {q} = __x ;")),
                _ => return None,
            };
            format!("{label} for __x in {r} {{ if {test} {{ {take} {body} }} }}")
        }
        "filter_map" => format!("{label} for __x in {r} {{ match {{ let {p} = __x ; {b} }} {{ Some({q}) => {body} None => {{ }} }} }}"),
        _ => return None,
    };
    parse_str(&s).ok()
}
/// `try_for_each` whose failure is the failure of the function is a loop; a `return` would only end the closure
fn try_each(m: &ExprMethodCall) -> Option<String> {
    let (true, 1, Some(Expr::Closure(c))) = (m.method == "try_for_each", m.args.len(), m.args.first()) else { return None };
    struct V(bool);
    impl<'a> Visit<'a> for V {
        fn visit_expr_return(&mut self, _: &'a ExprReturn) {
            self.0 = true
        }
        fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    }
    let mut v = V(false);
    v.visit_expr(&c.body);
    if v.0 || c.inputs.len() != 1 {
        return None;
    }
    let p = match &c.inputs[0] { Pat::Type(t) => toks(&t.pat), p => toks(p) };
    Some(format!("for {p} in {} {{ ({})? ; }}", toks(&m.receiver), toks(&c.body)))
}
/// `for_each` and `fold` are loops
fn iter_closure(m: &ExprMethodCall) -> Option<Expr> {
    let r = toks(&m.receiver);
    let s = match (m.method.to_string().as_str(), m.args.len()) {
        ("for_each", 1) => match &m.args[0] {
            Expr::Closure(c) if c.inputs.len() == 1 && !leaves(c) => {
                let p = match &c.inputs[0] { Pat::Type(t) => toks(&t.pat), p => toks(p) };
                format!("for {p} in {r} {{ {} ; }}", toks(&c.body))
            }
            _ => return None,
        },
        // on anything but a Vec the loop does not type-check
        ("extend", 1) if matches!(&*m.receiver, Expr::Path(_) | Expr::Field(_)) => {
            format!("for __e in {} {{ {r} . push (__e) ; }}", toks(&m.args[0]))
        }
        ("fold", 2) => match &m.args[1] {
            Expr::Path(f) => {
                let c: Expr = parse_str(&format!("|acc_q, elem_q| {}(acc_q, elem_q)", toks(f))).ok()?;
                let mut m2 = m.clone();
                m2.args[1] = c;
                return iter_closure(&m2);
            }
            Expr::Closure(c) if c.inputs.len() == 2 && !leaves(c) => {
                let ps: Vec<String> = c.inputs.iter().map(|p| match p { Pat::Type(t) => toks(&t.pat), p => toks(p) }).collect();
                let acc = match &c.inputs[0] { Pat::Ident(p) if p.by_ref.is_none() => p.ident.to_string(), Pat::Type(t) => match &*t.pat { Pat::Ident(p) if p.by_ref.is_none() => p.ident.to_string(), _ => "__acc".into() }, _ => "__acc".into() };
                let hold = if acc == "__acc" { format!("let {} = __acc ;", ps[0]) } else { String::new() };
                // the source is looked up before the accumulator exists; a chain of adapters is left for the `for`
                if matches!(&*m.receiver, Expr::MethodCall(a) if ["map", "filter", "filter_map"].contains(&a.method.to_string().as_str())) && !names_of(&m.receiver).contains(&acc) {
                    format!("{{ let mut {acc} = {} ; for {} in {r} {{ {acc} = {{ {hold} {} }} ; }} {acc} }}", toks(&m.args[0]), ps[1], toks(&c.body))
                } else {
                    format!("{{ let __src = {r} ; let mut {acc} = {} ; for {} in __src {{ {acc} = {{ {hold} {} }} ; }} {acc} }}", toks(&m.args[0]), ps[1], toks(&c.body))
                }
            }
            _ => return None,
        },
        _ => return None,
    };
    parse_str(&s).ok()
}
/// closures that Option, Result and bool call at most once, written out: exactly what the method does
fn opt_closure(m: &ExprMethodCall, result: bool) -> Option<Expr> {
    let name = m.method.to_string();
    let clo = |i: usize, n: usize| match m.args.get(i) {
        Some(Expr::Closure(c)) if c.inputs.len() == n && !leaves(c) => Some(arm(c)),
        _ => None,
    };
    let r = toks(&m.receiver);
    let s = match (name.as_str(), m.args.len()) {
        ("is_some_and", 1) => {
            let (p, b) = clo(0, 1)?;
            format!("match {r} {{ Some({p}) => {{ {b} }} None => false, }}")
        }
        ("is_ok_and", 1) => {
            let (p, b) = clo(0, 1)?;
            format!("match {r} {{ Ok({p}) => {{ {b} }} Err(_) => false, }}")
        }
        ("is_none_or", 1) => {
            let (p, b) = clo(0, 1)?;
            format!("match {r} {{ Some({p}) => {{ {b} }} None => true, }}")
        }
        ("filter", 1) if matches!(&*m.receiver, Expr::MethodCall(x) if ["ok", "err", "pop", "get", "first", "as_ref"].contains(&x.method.to_string().as_str())) => {
            let (p, b) = clo(0, 1)?;
            format!("match {r} {{ Some(__x) => {{ if {{ let {p} = & __x ; {b} }} {{ Some(__x) }} else {{ None }} }} None => None, }}")
        }
        ("ok_or_else", 1) => {
            let (_, b) = clo(0, 0)?;
            format!("match {r} {{ Some(__x) => Ok(__x), None => Err({{ {b} }}), }}")
        }
        ("then", 1) => {
            let (_, b) = clo(0, 0)?;
            format!("(if {r} {{ Some({{ {b} }}) }} else {{ None }})")
        }
        ("then_some", 1) => format!("match ({r}, {}) {{ (__c, __x) => if __c {{ Some(__x) }} else {{ None }} }}", toks(&m.args[0])),
        ("map_or", 2) if result => {
            let (p, b) = clo(1, 1)?;
            format!("match ({r}, {}) {{ (Ok({p}), _) => {{ {b} }} (Err(_), __d) => __d, }}", toks(&m.args[0]))
        }
        ("map_or", 2) => {
            let (p, b) = clo(1, 1)?;
            format!("match ({r}, {}) {{ (Some({p}), _) => {{ {b} }} (None, __d) => __d, }}", toks(&m.args[0]))
        }
        ("map_or_else", 2) if result => {
            let (q, d) = clo(0, 1)?;
            let (p, b) = clo(1, 1)?;
            format!("match {r} {{ Ok({p}) => {{ {b} }} Err({q}) => {{ {d} }} }}")
        }
        ("map_or_else", 2) => {
            let (_, d) = clo(0, 0)?;
            let (p, b) = clo(1, 1)?;
            format!("match {r} {{ Some({p}) => {{ {b} }} None => {{ {d} }} }}")
        }
        ("map_err", 1) => {
            let (p, b) = clo(0, 1)?;
            format!("match {r} {{ Ok(__x) => Ok(__x), Err({p}) => Err({{ {b} }}), }}")
        }
        ("unwrap_or_else", 1) => match &m.args[0] {
            // on an Option the closure takes nothing, on a Result the error
            Expr::Closure(c) if c.inputs.is_empty() => {
                let (_, b) = clo(0, 0)?;
                format!("match {r} {{ Some(__x) => __x, None => {{ {b} }} }}")
            }
            _ => {
                let (p, b) = clo(0, 1)?;
                format!("match {r} {{ Ok(__x) => __x, Err({p}) => {{ {b} }} }}")
            }
        },
        ("or_else", 1) => match &m.args[0] {
            Expr::Closure(c) if c.inputs.is_empty() => {
                let (_, b) = clo(0, 0)?;
                format!("match {r} {{ Some(__x) => Some(__x), None => {{ {b} }} }}")
            }
            _ => {
                let (p, b) = clo(0, 1)?;
                format!("match {r} {{ Ok(__x) => Ok(__x), Err({p}) => {{ {b} }} }}")
            }
        },
        _ => return None,
    };
    parse_str(&s).ok()
}
fn is_okerr(e: &Expr) -> bool {
    if let Expr::Call(c) = e {
        if let Expr::Path(p) = &*c.func {
            return p.path.is_ident("Err") || p.path.is_ident("Ok");
        }
    }
    false
}
/// does an expression give a Result, by what it calls (functions of the crate, locals known to hold one)
fn gives_result(e: &Expr, fns: &BTreeSet<String>, locals: &BTreeSet<String>) -> bool {
    match e {
        Expr::Path(p) => p.path.get_ident().map_or(false, |i| locals.contains(&i.to_string())),
        Expr::Paren(p) => gives_result(&p.expr, fns, locals),
        Expr::MethodCall(m) => {
            let n = m.method.to_string();
            ["ok_or", "ok_or_else", "map_err"].contains(&n.as_str())
                || fns.contains(&n)
                || ["map", "and_then", "or_else", "as_ref", "as_mut"].contains(&n.as_str()) && gives_result(&m.receiver, fns, locals)
        }
        Expr::Call(m) => is_okerr(e) || fns.contains(nows(&toks(&m.func)).rsplit("::").next().unwrap()),
        _ => false,
    }
}
fn results_of(b: &Block, fns: &BTreeSet<String>) -> BTreeSet<String> {
    struct V<'f>(BTreeSet<String>, &'f BTreeSet<String>);
    impl<'a> visit::Visit<'a> for V<'_> {
        fn visit_local(&mut self, l: &'a Local) {
            let (pat, ty) = match &l.pat {
                Pat::Type(t) => (&*t.pat, nows(&toks(&t.ty)).starts_with("Result<")),
                p => (p, false),
            };
            if let (Pat::Ident(p), Some(i)) = (pat, &l.init) {
                if ty || gives_result(&i.expr, self.1, &self.0) {
                    self.0.insert(p.ident.to_string());
                }
            }
            visit::visit_local(self, l);
        }
        fn visit_expr_assign(&mut self, a: &'a ExprAssign) {
            if let Expr::Path(p) = &*a.left {
                if let Some(i) = p.path.get_ident() {
                    if gives_result(&a.right, self.1, &self.0) {
                        self.0.insert(i.to_string());
                    }
                }
            }
            visit::visit_expr_assign(self, a);
        }
    }
    let mut v = V(Default::default(), fns);
    visit::Visit::visit_block(&mut v, b);
    v.0
}
/// names bound in a body, in order, each with what it is bound to: the initialiser, or the pattern around it.
/// Only used to follow renamed locals in the hints (never in the code).
fn locals_of(b: &Block) -> Vec<(String, String)> {
    struct Names(Vec<String>);
    impl<'a> visit::Visit<'a> for Names {
        fn visit_pat_ident(&mut self, p: &'a PatIdent) {
            self.0.push(p.ident.to_string());
            visit::visit_pat_ident(self, p);
        }
    }
    struct V(Vec<(String, String)>);
    impl V {
        fn pat(&mut self, p: &Pat, what: String) {
            let mut n = Names(vec![]);
            visit::Visit::visit_pat(&mut n, p);
            let text: String = toks(p);
            for (i, x) in n.0.iter().enumerate() {
                let (mut ctx, mut word) = (String::new(), String::new());
                for c in text.chars().chain([' ']) {
                    if c.is_alphanumeric() || c == '_' {
                        word.push(c);
                        continue;
                    }
                    ctx += if n.0.contains(&word) { if word == *x { "@" } else { "_" } } else { &word };
                    ctx.push(c);
                    word.clear();
                }
                self.0.push((x.clone(), format!("{} {}= {}", i, ctx, what)));
            }
        }
    }
    impl<'a> visit::Visit<'a> for V {
        fn visit_local(&mut self, l: &'a Local) {
            self.pat(&l.pat, l.init.as_ref().map(|i| toks(&i.expr)).unwrap_or_default());
            visit::visit_local(self, l);
        }
        fn visit_arm(&mut self, a: &'a Arm) {
            self.pat(&a.pat, String::new());
            visit::visit_arm(self, a);
        }
        fn visit_expr_let(&mut self, l: &'a ExprLet) {
            self.pat(&l.pat, toks(&l.expr));
            visit::visit_expr_let(self, l);
        }
    }
    let mut v = V(vec![]);
    visit::Visit::visit_block(&mut v, b);
    v.0.retain(|(n, _)| n != "None" && n.chars().next().map(|c| c.is_lowercase() || c == '_').unwrap_or(false));
    v.0
}
/// `&` inside a pattern: the place is bound and read through instead. `P(&x) => b`  -->  `P(r) => { let x = *r; b }`
struct Unref(usize);
impl Unref {
    fn sure(p: &Pat) -> bool {
        match p {
            Pat::Ident(i) => i.subpat.is_none() && i.by_ref.is_none(),
            Pat::Wild(_) => true,
            Pat::Tuple(t) => t.elems.iter().all(Unref::sure),
            Pat::Paren(q) => Unref::sure(&q.pat),
            _ => false,
        }
    }
    fn walk(&mut self, p: &mut Pat, out: &mut Vec<Stmt>) {
        match p {
            Pat::Reference(r) if Unref::sure(&r.pat) => {
                let n = format!("__u{}", self.0);
                self.0 += 1;
                let inner = toks(&r.pat);
                out.push(syn::parse_str(&format!("let {inner} = * {n} ;")).unwrap());
                *p = Pat::Ident(PatIdent { attrs: vec![], by_ref: None, mutability: None, ident: Ident::new(&n, proc_macro2::Span::call_site()), subpat: None });
            }
            Pat::TupleStruct(t) => t.elems.iter_mut().for_each(|q| self.walk(q, out)),
            Pat::Tuple(t) => t.elems.iter_mut().for_each(|q| self.walk(q, out)),
            Pat::Struct(t) => t.fields.iter_mut().filter(|f| f.colon_token.is_some()).for_each(|f| self.walk(&mut f.pat, out)),
            Pat::Paren(q) => self.walk(&mut q.pat, out),
            _ => {}
        }
    }
}
/// `V(&P)` with a P that can fail: V and P
fn deep_ref(p: &Pat) -> Option<(String, Pat)> {
    match p {
        Pat::TupleStruct(t) if t.elems.len() == 1 => strip_ref(&t.elems[0]).filter(|q| !Unref::sure(q)).map(|q| (toks(&t.path), q)),
        Pat::Paren(q) => deep_ref(&q.pat),
        _ => None,
    }
}
fn pat_names(p: &Pat, out: &mut Vec<String>) {
    match p {
        Pat::Ident(i) if i.ident.to_string().starts_with(|c: char| c.is_lowercase() || c == '_') => out.push(i.ident.to_string()),
        Pat::Tuple(t) => t.elems.iter().for_each(|q| pat_names(q, out)),
        Pat::TupleStruct(t) => t.elems.iter().for_each(|q| pat_names(q, out)),
        Pat::Struct(t) => t.fields.iter().for_each(|f| pat_names(&f.pat, out)),
        Pat::Paren(q) => pat_names(&q.pat, out),
        Pat::Reference(q) => pat_names(&q.pat, out),
        _ => {}
    }
}
impl Unref {
    fn deep(&mut self, (v, p): (String, Pat), e: &str, yes: &str, no: &str) -> String {
        let n = format!("__u{}", self.0);
        self.0 += 1;
        format!("match {e} {{ {v} ({n}) => match * {n} {{ {} => {yes} , _ => {no} , }} , _ => {no} , }}", toks(&p))
    }
}
impl VisitMut for Unref {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            // `match e { V(&P) => a, _ => b }`, `if let V(&P) = e { a } else { b }`
            Expr::Match(m) if m.arms.len() == 2 && m.arms.iter().all(|a| a.guard.is_none()) && matches!(m.arms[1].pat, Pat::Wild(_)) => {
                if let Some(d) = deep_ref(&m.arms[0].pat) {
                    let x = self.deep(d, &toks(&m.expr), &toks(&m.arms[0].body), &toks(&m.arms[1].body));
                    *e = ex(&x);
                }
            }
            Expr::If(i) => {
                if let Expr::Let(l) = &*i.cond {
                    if let Some(d) = deep_ref(&l.pat) {
                        let no = i.else_branch.as_ref().map(|b| toks(&b.1)).unwrap_or("{ }".into());
                        let x = self.deep(d, &toks(&l.expr), &toks(&i.then_branch), &no);
                        *e = ex(&x);
                    }
                }
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_arm_mut(&mut self, a: &mut Arm) {
        visit_mut::visit_arm_mut(self, a);
        let mut st = vec![];
        if a.guard.is_none() && strip_ref(&a.pat).is_none() {
            self.walk(&mut a.pat, &mut st);
        }
        if !st.is_empty() {
            let b = toks(&a.body);
            let pre: Vec<String> = st.iter().map(toks).collect();
            *a.body = ex(&format!("{{ {} {b} }}", pre.join(" ")));
        }
    }
    fn visit_expr_if_mut(&mut self, e: &mut ExprIf) {
        visit_mut::visit_expr_if_mut(self, e);
        if let Expr::Let(l) = &mut *e.cond {
            if let Some(p) = strip_ref(&l.pat) {
                *l.pat = p;
                let s = toks(&l.expr);
                *l.expr = ex(&format!("* ({s})"));
            }
            let mut st = vec![];
            self.walk(&mut l.pat, &mut st);
            for (i, s) in st.into_iter().enumerate() {
                e.then_branch.stmts.insert(i, s);
            }
        }
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        let mut out = vec![];
        for mut s in std::mem::take(&mut b.stmts) {
            let mut st = vec![];
            // `let V(&P) = e else { .. };`
            if let Stmt::Local(Local { pat, init: Some(LocalInit { expr, diverge: Some((_, no)), .. }), .. }) = &s {
                if let Some(d) = deep_ref(pat) {
                    let mut ns = vec![];
                    pat_names(pat, &mut ns);
                    let t = if ns.len() == 1 { ns[0].clone() } else { format!("({})", ns.join(" , ")) };
                    let x = self.deep(d, &toks(expr), &t, &toks(no));
                    s = syn::parse_str(&format!("let {t} = {x} ;")).unwrap();
                }
            }
            if let Stmt::Local(l) = &mut s {
                if l.init.is_some() {
                    self.walk(&mut l.pat, &mut st);
                }
            }
            out.push(s);
            out.extend(st);
        }
        b.stmts = out;
    }
}
struct Ctx<'a> {
    c: &'a Cfg,
    out: Vec<Value>,
}
fn has_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| a.path().is_ident("cfg") && toks(&a.meta).contains("test"))
}
impl Ctx<'_> {
    fn do_fn(&mut self, file: &str, owner: &str, tr: &str, sig: &Signature, block: Option<&Block>) {
        let key = format!("{file}|{owner}|{tr}|{}", sig.ident);
        let orig = block.map(|b| toks(b)).unwrap_or_default();
        let mut rw = Rw { c: self.c, loops: 0, fresh: 0, closures: 0, kind_ix: 0, key: key.clone(), kinds_log: vec![], results: block.map(|b| results_of(b, &self.c.results)).unwrap_or_default(), calls: Default::default(), notes: Default::default() };
        let mut sig2 = sig.clone();
        let mut body = block.cloned();
        let mut inl = inline::Inline { hs: &self.c.helpers, file: file.to_string(), local: Default::default(), n: 0, done: Default::default(), depth: 0 };
        if let Some(b) = body.as_mut() {
            Printed.visit_block_mut(b);
            inl.visit_block_mut(b);
            Unref(0).visit_block_mut(b);
            mark_tail_block(b);
        }
        let inlined = inl.done;
        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let mut mono = Mono { c: self.c };
            mono.visit_signature_mut(&mut sig2);
            if let Some(b) = body.as_mut() {
                rw.visit_block_mut(b);
                let mut mono = Mono { c: self.c };
                mono.visit_block_mut(b);
            }
        }));
        if res.is_err() {
            self.out.push(json!({"kind":"fn","key":key,"error":"extraction failed"}));
            return;
        }
        let mut params = vec![];
        let mut recv = Value::Null;
        for a in sig2.inputs.iter() {
            match a {
                FnArg::Receiver(r) => recv = json!(toks(r)),
                FnArg::Typed(t) => params.push(json!({"pat": toks(&t.pat), "ty": toks(&t.ty)})),
            }
        }
        let ret = match &sig2.output {
            ReturnType::Default => Value::Null,
            ReturnType::Type(_, t) => json!(toks(t)),
        };
        self.out.push(json!({
            "kind":"fn","key":key,"name":sig.ident.to_string(),
            "generics": toks(&sig2.generics), "recv":recv,"params":params,"ret":ret,
            "body": body.as_ref().map(toks), "loops": rw.loops, "closures": rw.closures, "calls": rw.calls,
            "locals": body.as_ref().map(locals_of).unwrap_or_default(),
            "kinds": rw.kinds_log, "notes": rw.notes, "inlined": inlined, "orig": orig,
        }));
    }
    fn items(&mut self, file: &str, items: &[Item]) {
        for it in items {
            match it {
                Item::Fn(f) if !has_test(&f.attrs) => self.do_fn(file, "", "", &f.sig, Some(&f.block)),
                Item::Impl(im) if !has_test(&im.attrs) => {
                    let owner = nows(&toks(&im.self_ty));
                    let tr = im.trait_.as_ref().map(|(_, p, _)| nows(&toks(p))).unwrap_or_default();
                    for x in &im.items {
                        match x {
                            ImplItem::Fn(f) => self.do_fn(file, &owner, &tr, &f.sig, Some(&f.block)),
                            ImplItem::Type(t) => {
                                let mut ty = t.ty.clone();
                                Mono { c: self.c }.visit_type_mut(&mut ty);
                                self.out.push(json!({"kind":"assoc","key":format!("{file}|{owner}|{tr}|{}", t.ident),"text":toks(&ty)}));
                            }
                            _ => {}
                        }
                    }
                }
                Item::Trait(t) if !has_test(&t.attrs) => {
                    for x in &t.items {
                        if let TraitItem::Fn(f) = x {
                            self.do_fn(file, "trait", &t.ident.to_string(), &f.sig, f.default.as_ref());
                        }
                    }
                }
                Item::Struct(s) if !has_test(&s.attrs) => {
                    let mut s = s.clone();
                    Mono { c: self.c }.visit_item_struct_mut(&mut s);
                    s.attrs.clear();
                    s.vis = parse_str("pub").unwrap();
                    for f in s.fields.iter_mut() {
                        f.vis = parse_str("pub").unwrap();
                    }
                    self.out.push(json!({"kind":"type","key":format!("{file}|{}", s.ident),"text":toks(&s)}));
                }
                Item::Enum(s) if !has_test(&s.attrs) => {
                    let mut s = s.clone();
                    Mono { c: self.c }.visit_item_enum_mut(&mut s);
                    s.attrs.clear();
                    s.vis = parse_str("pub").unwrap();
                    self.out.push(json!({"kind":"type","key":format!("{file}|{}", s.ident),"text":toks(&s)}));
                }
                Item::Const(c) if !has_test(&c.attrs) => {
                    self.out.push(json!({"kind":"const","key":format!("{file}|{}", c.ident),"text":toks(&c)}));
                }
                Item::Macro(m) => {
                    let nm = m.mac.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
                    self.out.push(json!({"kind":"macro","key":format!("{file}|{nm}"),"text":toks(&m.mac.tokens)}));
                }
                Item::Mod(m) if !has_test(&m.attrs) => {
                    if let Some((_, its)) = &m.content {
                        self.items(file, its);
                    }
                }
                _ => {}
            }
        }
    }
}
fn unknown(rel: &str, items: &[Item], known: &BTreeSet<String>, out: &mut inline::Helpers) {
    let names: BTreeSet<&str> = known.iter().map(|k| k.rsplit('|').next().unwrap()).collect();
    let mut add = |owner: &str, tr: &str, sig: &Signature, b: Option<&Block>| {
        let key = format!("{rel}|{owner}|{tr}|{}", sig.ident);
        let n = sig.ident.to_string();
        if known.contains(&key) || names.contains(n.as_str()) {
            return;
        }
        let b = b.cloned().map(|mut b| {
            Printed.visit_block_mut(&mut b);
            b
        });
        if let Some(h) = b.as_ref().and_then(|b| inline::helper(rel, sig, b)) {
            out.entry(n).or_default().push(h);
        }
    };
    for it in items {
        match it {
            Item::Fn(f) if !has_test(&f.attrs) => add("", "", &f.sig, Some(&f.block)),
            Item::Impl(im) if !has_test(&im.attrs) => {
                let owner = nows(&toks(&im.self_ty));
                let tr = im.trait_.as_ref().map(|(_, p, _)| nows(&toks(p))).unwrap_or_default();
                for x in &im.items {
                    if let ImplItem::Fn(f) = x {
                        add(&owner, &tr, &f.sig, Some(&f.block));
                    }
                }
            }
            Item::Trait(t) if !has_test(&t.attrs) => {
                for x in &t.items {
                    if let TraitItem::Fn(f) = x {
                        add("trait", &t.ident.to_string(), &f.sig, f.default.as_ref());
                    }
                }
            }
            _ => {}
        }
    }
}
struct Rets<'a> {
    r: &'a mut BTreeSet<String>,
    o: &'a mut BTreeSet<String>,
}
impl<'a> visit::Visit<'a> for Rets<'_> {
    fn visit_signature(&mut self, s: &'a Signature) {
        let t = if let ReturnType::Type(_, t) = &s.output { nows(&toks(t)) } else { String::new() };
        let is = t.starts_with("Result<") || t.starts_with("std::result::Result<");
        if is { &mut self.r } else { &mut self.o }.insert(s.ident.to_string());
        visit::visit_signature(self, s);
    }
}
fn walk(d: &std::path::Path, out: &mut Vec<std::path::PathBuf>) {
    let mut v: Vec<_> = std::fs::read_dir(d).unwrap().map(|e| e.unwrap().path()).collect();
    v.sort();
    for p in v {
        if p.is_dir() {
            walk(&p, out)
        } else if p.extension().map(|e| e == "rs").unwrap_or(false) {
            out.push(p)
        }
    }
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let cv: Value = serde_json::from_str(&std::fs::read_to_string(&a[1]).unwrap()).unwrap();
    let strs = |v: &Value| -> Vec<String> { v.as_array().map(|x| x.iter().map(|s| s.as_str().unwrap().to_string()).collect()).unwrap_or_default() };
    let mp = |v: &Value| -> HashMap<String, String> {
        v.as_object().map(|x| x.iter().map(|(k, s)| (k.clone(), s.as_str().unwrap().to_string())).collect()).unwrap_or_default()
    };
    let cfg = Cfg {
        helpers: Default::default(),
        traits: Default::default(),
        results: Default::default(),
        mono: strs(&cv["mono"]).into_iter().collect(),
        map: mp(&cv["map"]),
        macros: Default::default(),
        methods: mp(&cv["methods"]),
        kinds: cv["kinds"].as_object().map(|x| x.iter().map(|(k, s)| (k.clone(), strs(s))).collect()).unwrap_or_default(),
    };
    let root = std::path::Path::new(&a[2]);
    let mut files = vec![];
    walk(root, &mut files);
    let mut cfg = cfg;
    cfg.traits.extend(["Iterator", "IntoIterator", "PartialOrd", "PartialEq", "Clone", "Display"].map(String::from));
    let mut others = BTreeSet::new();
    for f in &files {
        if let Ok(file) = parse_file(&std::fs::read_to_string(f).unwrap()) {
            let mut v = Rets { r: &mut cfg.results, o: &mut others };
            visit::Visit::visit_file(&mut v, &file);
            for it in &file.items {
                if let Item::Trait(t) = it {
                    if t.items.iter().any(|x| matches!(x, TraitItem::Fn(f) if f.sig.receiver().is_some())) {
                        cfg.traits.insert(t.ident.to_string());
                    }
                }
            }
        }
    }
    cfg.results.retain(|n| !others.contains(n));
    // functions that the contracts do not know: third argument, a JSON list of the known keys
    if let Some(k) = a.get(3) {
        let known: BTreeSet<String> = strs(&serde_json::from_str(&std::fs::read_to_string(k).unwrap()).unwrap()).into_iter().collect();
        for f in &files {
            let rel = f.strip_prefix(root).unwrap().to_string_lossy().to_string();
            if let Ok(file) = parse_file(&std::fs::read_to_string(f).unwrap()) {
                unknown(&rel, &file.items, &known, &mut cfg.helpers);
            }
        }
    }
    let cfg = cfg;
    let mut cx = Ctx { c: &cfg, out: vec![] };
    for f in files {
        let rel = f.strip_prefix(root).unwrap().to_string_lossy().to_string();
        let txt = std::fs::read_to_string(&f).unwrap();
        match parse_file(&txt) {
            Ok(file) => {
                cx.c.macros.borrow_mut().clear();
                for it in &file.items {
                    if let (Item::Macro(m), true) = (it, true) {
                        if let (Some(id), Some(a)) = (&m.ident, one_arm(&m.mac.tokens)) {
                            cx.c.macros.borrow_mut().insert(id.to_string(), a);
                        }
                    }
                }
                cx.items(&rel, &file.items)
            }
            Err(e) => cx.out.push(json!({"kind":"error","key":rel,"error":e.to_string()})),
        }
    }
    println!("{}", serde_json::to_string_pretty(&Value::Array(cx.out)).unwrap());
}
