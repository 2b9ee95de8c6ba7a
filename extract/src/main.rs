//! Mechanical extractor: copies named items out of the repository's source text into a
//! Verus template, splicing contracts, loop invariants and ghost code at structural
//! anchors (function signature, loop ordinal, closure ordinal).  The executable tokens are
//! the repository's; every rewrite this tool performs is listed in REWRITES below or in a
//! `subst`/`drop` line of the template, and reported in the JSON summary.
//!
//! usage: extract <repo-src-dir> <template> <out.rs> <summary.json> [--vacuity]
use proc_macro2::{Delimiter, Span, TokenStream, TokenTree};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::path::PathBuf;
use syn::spanned::Spanned;
use syn::visit::Visit;

#[derive(Default, Debug, Clone)]
struct Directive {
    kind: String, // fn | item | impl-consts | body
    file: String,
    path: Vec<String>,
    secs: Vec<(String, String)>, // (section name, text)
    line: usize,
}

fn die(msg: &str) -> ! {
    eprintln!("EXTRACT-ERROR: {}", msg);
    std::process::exit(3);
}

fn parse_directive(text: &str, line: usize) -> Directive {
    let mut d = Directive { line, ..Default::default() };
    let mut lines = text.lines();
    let head = lines.next().unwrap_or("").trim();
    let mut w = head.split_whitespace();
    d.kind = w.next().unwrap_or("").to_string();
    let target = w.next().unwrap_or("");
    let mut parts = target.split("::");
    d.file = parts.next().unwrap_or("").to_string();
    d.path = parts.map(|s| s.to_string()).collect();
    let mut cur: Option<(String, String)> = None;
    for l in lines {
        // a section header starts in column 0, "name: text"
        let is_head = l.chars().next().map(|c| c.is_ascii_alphabetic()).unwrap_or(false) && l.contains(':');
        if is_head {
            if let Some(c) = cur.take() {
                d.secs.push(c);
            }
            let i = l.find(':').unwrap();
            cur = Some((l[..i].trim().to_string(), l[i + 1..].trim().to_string()));
        } else if let Some(c) = cur.as_mut() {
            c.1.push('\n');
            c.1.push_str(l);
        }
    }
    if let Some(c) = cur.take() {
        d.secs.push(c);
    }
    d
}

impl Directive {
    fn get(&self, name: &str) -> Option<&str> {
        self.secs.iter().find(|(n, _)| n == name).map(|(_, t)| t.as_str())
    }
    fn all<'a>(&'a self, name: &'a str) -> impl Iterator<Item = &'a str> + 'a {
        self.secs.iter().filter(move |(n, _)| n == name).map(|(_, t)| t.as_str())
    }
}

struct Source {
    text: String,
    ast: syn::File,
}

fn br(s: Span) -> (usize, usize) {
    let r = s.byte_range();
    (r.start, r.end)
}

/// A function-like item found in the source.
struct Found<'a> {
    sig: &'a syn::Signature,
    block: &'a syn::Block,
    vis_start: usize,
    impl_header: Option<String>,
    has_vis: bool,
}

fn impl_self_name(i: &syn::ItemImpl) -> String {
    if let syn::Type::Path(p) = &*i.self_ty {
        p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default()
    } else {
        quote::ToTokens::to_token_stream(&i.self_ty).to_string()
    }
}

fn is_test_attr(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        let s = quote::ToTokens::to_token_stream(a).to_string();
        s.contains("cfg (test)") || s.contains("cfg(test)")
    })
}

fn find_fn<'a>(src: &'a Source, path: &[String]) -> Option<Found<'a>> {
    for item in &src.ast.items {
        match item {
            syn::Item::Fn(f) if path.len() == 1 && f.sig.ident == path[0] => {
                let has_vis = !matches!(f.vis, syn::Visibility::Inherited);
                let vs = if has_vis { br(f.vis.span()).0 } else { br(f.sig.span()).0 };
                return Some(Found { sig: &f.sig, block: &f.block, vis_start: vs, impl_header: None, has_vis });
            }
            syn::Item::Impl(i) if path.len() >= 2 => {
                if is_test_attr(&i.attrs) {
                    continue;
                }
                // path: Type::fn, or "<Trait>"::Type::fn
                let (tr, ty, fname) = if path.len() == 3 {
                    (Some(path[0].as_str()), path[1].as_str(), path[2].as_str())
                } else {
                    (None, path[0].as_str(), path[1].as_str())
                };
                let itr = i.trait_.as_ref().map(|(_, p, _)| quote::ToTokens::to_token_stream(p).to_string().replace(' ', ""));
                if impl_self_name(i) != ty {
                    continue;
                }
                match (tr, &itr) {
                    (None, None) => {}
                    (Some(t), Some(it)) if t == it || it.starts_with(&format!("{}<", t)) => {}
                    _ => continue,
                }
                for it in &i.items {
                    if let syn::ImplItem::Fn(f) = it {
                        if f.sig.ident == fname {
                            let has_vis = !matches!(f.vis, syn::Visibility::Inherited);
                            let vs = if has_vis { br(f.vis.span()).0 } else { br(f.sig.span()).0 };
                            let (is, _) = br(i.impl_token.span());
                            let (ie, _) = br(i.brace_token.span.open());
                            return Some(Found {
                                sig: &f.sig,
                                block: &f.block,
                                vis_start: vs,
                                impl_header: Some(src.text[is..ie].to_string()),
                                has_vis,
                            });
                        }
                    }
                }
            }
            _ => {}
        }
    }
    None
}

#[derive(Debug, Clone)]
struct Edit {
    start: usize,
    end: usize,
    text: String,
    ord: usize,
}

#[derive(Clone)]
enum LoopKind {
    While,
    Loop,
    For { expr_start: usize },
}

struct LoopInfo {
    kind: LoopKind,
    start: usize,
    body_open: usize,  // byte offset of '{'
    body_close: usize, // byte offset of '}'
    end: usize,
}

struct ClosureInfo {
    inputs: Vec<(usize, usize, bool, Option<String>)>, // span of each input, is-simple-ident, simple name
    or1: usize, // offset of first '|'
    or2_end: usize, // offset just after the second '|'
    body: (usize, usize),
    body_is_block: bool,
    /// a block that is nothing but one expression
    body_is_expr: bool,
    has_ret: bool,
    full: (usize, usize),
}

#[derive(Default)]
struct Collect {
    loops: Vec<LoopInfo>,
    closures: Vec<ClosureInfo>,
    calls: BTreeSet<String>,
    macros: BTreeSet<String>,
    macro_spans: Vec<(String, usize, usize)>,
    stmt_macro_spans: Vec<(String, usize, usize)>,
    ret_spans: Vec<(usize, usize, bool)>, // `return expr` : (start of return expr, end, has expr)
    lits: Vec<(usize, usize, Vec<u8>)>,   // string and byte-string literal expressions
    byte_pats: Vec<(usize, usize, Vec<Vec<u8>>, bool)>, // byte-string patterns in match arms (has guard)
    matches_macros: Vec<(usize, usize, (usize, usize), Vec<Vec<u8>>)>,
}

struct MatchesArgs {
    e: syn::Expr,
    p: syn::Pat,
}
impl syn::parse::Parse for MatchesArgs {
    fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {
        let e: syn::Expr = i.parse()?;
        i.parse::<syn::Token![,]>()?;
        let p = syn::Pat::parse_multi_with_leading_vert(i)?;
        Ok(MatchesArgs { e, p })
    }
}

fn byte_alts(p: &syn::Pat) -> Option<Vec<Vec<u8>>> {
    match p {
        syn::Pat::Lit(l) => match &l.lit {
            syn::Lit::ByteStr(b) => Some(vec![b.value()]),
            _ => None,
        },
        syn::Pat::Or(o) => {
            let mut v = vec![];
            for c in &o.cases {
                v.extend(byte_alts(c)?);
            }
            Some(v)
        }
        _ => None,
    }
}

fn bytes_lit(b: &[u8]) -> String {
    if b.is_empty() {
        return "empty_bytes()".into();
    }
    format!("&[{}]", b.iter().map(|x| format!("{}u8", x)).collect::<Vec<_>>().join(", "))
}

impl<'ast> Visit<'ast> for Collect {
    fn visit_expr_while(&mut self, n: &'ast syn::ExprWhile) {
        let s = n.body.brace_token.span;
        self.loops.push(LoopInfo { kind: LoopKind::While, start: br(n.span()).0, body_open: br(s.open()).0, body_close: br(s.close()).0, end: br(n.span()).1 });
        syn::visit::visit_expr_while(self, n);
    }
    fn visit_expr_loop(&mut self, n: &'ast syn::ExprLoop) {
        let s = n.body.brace_token.span;
        self.loops.push(LoopInfo { kind: LoopKind::Loop, start: br(n.span()).0, body_open: br(s.open()).0, body_close: br(s.close()).0, end: br(n.span()).1 });
        syn::visit::visit_expr_loop(self, n);
    }
    fn visit_expr_for_loop(&mut self, n: &'ast syn::ExprForLoop) {
        let s = n.body.brace_token.span;
        self.loops.push(LoopInfo { kind: LoopKind::For { expr_start: br(n.expr.span()).0 }, start: br(n.span()).0, body_open: br(s.open()).0, body_close: br(s.close()).0, end: br(n.span()).1 });
        syn::visit::visit_expr_for_loop(self, n);
    }
    fn visit_expr_closure(&mut self, n: &'ast syn::ExprClosure) {
        let mut inputs = vec![];
        for p in &n.inputs {
            let (a, b) = br(p.span());
            let (simple, name) = match p {
                syn::Pat::Ident(i) if i.by_ref.is_none() && i.subpat.is_none() && i.mutability.is_none() => (true, Some(i.ident.to_string())),
                syn::Pat::Type(t) => match &*t.pat {
                    syn::Pat::Ident(i) if i.mutability.is_none() => (true, Some(i.ident.to_string())),
                    _ => (false, None),
                },
                syn::Pat::Wild(_) => (false, None),
                _ => (false, None),
            };
            inputs.push((a, b, simple, name));
        }
        self.closures.push(ClosureInfo {
            inputs,
            or1: br(n.or1_token.span()).0,
            or2_end: br(n.or2_token.span()).1,
            body: br(n.body.span()),
            body_is_block: matches!(&*n.body, syn::Expr::Block(_)),
            body_is_expr: matches!(&*n.body, syn::Expr::Block(b) if b.label.is_none() && b.block.stmts.len() == 1 && matches!(&b.block.stmts[0], syn::Stmt::Expr(_, None))),
            has_ret: !matches!(n.output, syn::ReturnType::Default),
            full: br(n.span()),
        });
        syn::visit::visit_expr_closure(self, n);
    }
    fn visit_expr_call(&mut self, n: &'ast syn::ExprCall) {
        if let syn::Expr::Path(p) = &*n.func {
            self.calls.insert(p.path.segments.last().unwrap().ident.to_string());
        }
        syn::visit::visit_expr_call(self, n);
    }
    fn visit_expr_method_call(&mut self, n: &'ast syn::ExprMethodCall) {
        self.calls.insert(format!(".{}", n.method));
        syn::visit::visit_expr_method_call(self, n);
    }
    fn visit_stmt_macro(&mut self, n: &'ast syn::StmtMacro) {
        let name = n.mac.path.segments.last().unwrap().ident.to_string();
        self.stmt_macro_spans.push((name, br(n.span()).0, br(n.span()).1));
        syn::visit::visit_stmt_macro(self, n);
    }
    fn visit_expr_lit(&mut self, n: &'ast syn::ExprLit) {
        let (a, b) = br(n.span());
        match &n.lit {
            syn::Lit::Str(s) => self.lits.push((a, b, s.value().into_bytes())),
            syn::Lit::ByteStr(s) => self.lits.push((a, b, s.value())),
            _ => {}
        }
    }
    fn visit_arm(&mut self, n: &'ast syn::Arm) {
        if let Some(v) = byte_alts(&n.pat) {
            let (a, b) = br(n.pat.span());
            self.byte_pats.push((a, b, v, n.guard.is_some()));
        }
        syn::visit::visit_arm(self, n);
    }
    fn visit_macro(&mut self, n: &'ast syn::Macro) {
        let name = n.path.segments.last().unwrap().ident.to_string();
        if name == "matches" {
            if let Ok(m) = n.parse_body::<MatchesArgs>() {
                if let Some(v) = byte_alts(&m.p) {
                    self.matches_macros.push((br(n.span()).0, br(n.span()).1, br(m.e.span()), v));
                }
            }
        }
        self.macros.insert(name.clone());
        self.macro_spans.push((name, br(n.span()).0, br(n.span()).1));
        syn::visit::visit_macro(self, n);
    }
    fn visit_expr_return(&mut self, n: &'ast syn::ExprReturn) {
        self.ret_spans.push((br(n.span()).0, br(n.span()).1, n.expr.is_some()));
        syn::visit::visit_expr_return(self, n);
    }
}

fn flat(ts: TokenStream, out: &mut Vec<(String, usize, usize)>) {
    for t in ts {
        match t {
            TokenTree::Group(g) => {
                let (o, c) = match g.delimiter() {
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::Brace => ("{", "}"),
                    Delimiter::Bracket => ("[", "]"),
                    Delimiter::None => ("", ""),
                };
                let (a, b) = br(g.span_open());
                if !o.is_empty() {
                    out.push((o.to_string(), a, b));
                }
                flat(g.stream(), out);
                let (a, b) = br(g.span_close());
                if !c.is_empty() {
                    out.push((c.to_string(), a, b));
                }
            }
            other => {
                let (a, b) = br(other.span());
                out.push((other.to_string(), a, b));
            }
        }
    }
}

fn lex(s: &str) -> Vec<(String, usize, usize)> {
    let ts: TokenStream = match s.parse() {
        Ok(t) => t,
        Err(e) => die(&format!("cannot lex substitution `{}`: {}", s, e)),
    };
    let mut v = vec![];
    flat(ts, &mut v);
    v
}

/// Token-level substitution. A pattern token starting with `__ANY` matches one or more tokens,
/// non-greedily and delimiter-balanced; it is available in the replacement under its name.
fn token_subst(text: &str, pat: &str, rep: &str) -> (String, usize) {
    let ptoks: Vec<String> = lex(pat).into_iter().map(|t| t.0).collect();
    let toks = lex(text);
    let mut out = String::new();
    let mut pos = 0usize;
    let mut i = 0usize;
    let mut n = 0;
    while i < toks.len() {
        if let Some((len, mut caps)) = match_at(&toks, i, &ptoks) {
            let s = toks[i].1;
            let e = toks[i + len - 1].2;
            out.push_str(&text[pos..s]);
            let mut r = rep.to_string();
            caps.sort_by_key(|c| std::cmp::Reverse(c.0.len()));
            for (name, a, b) in caps {
                r = r.replace(&name, &text[a..b]);
            }
            out.push_str(&r);
            pos = e;
            i += len;
            n += 1;
        } else {
            i += 1;
        }
    }
    out.push_str(&text[pos..]);
    (out, n)
}

fn match_at(toks: &[(String, usize, usize)], at: usize, pat: &[String]) -> Option<(usize, Vec<(String, usize, usize)>)> {
    let mut i = at;
    let mut p = 0;
    while p < pat.len() {
        if pat[p].starts_with("__ANY") {
            let start = i;
            let mut depth = 0i32;
            let next = pat.get(p + 1);
            loop {
                if i >= toks.len() {
                    return None;
                }
                let t = toks[i].0.as_str();
                if depth == 0 && i > start && Some(&toks[i].0) == next {
                    // try to match the remainder
                    if let Some((l, mut caps)) = match_at(toks, i, &pat[p + 1..]) {
                        caps.push((pat[p].clone(), toks[start].1, toks[i - 1].2));
                        return Some((i + l - at, caps));
                    }
                }
                match t {
                    "(" | "[" | "{" => depth += 1,
                    ")" | "]" | "}" => {
                        depth -= 1;
                        if depth < 0 {
                            return None;
                        }
                    }
                    _ => {}
                }
                i += 1;
            }
        }
        if i >= toks.len() || toks[i].0 != pat[p] {
            return None;
        }
        i += 1;
        p += 1;
    }
    Some((i - at, vec![]))
}

/// `X.for_each(|p| body)` as a statement becomes `for p in X { body }` (same calls, same order).
struct ForEach {
    found: Option<(usize, usize, (usize, usize), (usize, usize), (usize, usize))>,
}
impl<'ast> Visit<'ast> for ForEach {
    fn visit_expr_method_call(&mut self, n: &'ast syn::ExprMethodCall) {
        if n.method == "for_each" && n.args.len() == 1 && self.found.is_none() {
            if let syn::Expr::Closure(c) = &n.args[0] {
                if c.inputs.len() == 1 {
                    let (a, b) = br(n.span());
                    self.found = Some((a, b, br(n.receiver.span()), br(c.inputs[0].span()), br(c.body.span())));
                    return;
                }
            }
        }
        syn::visit::visit_expr_method_call(self, n);
    }
}

struct Ctx {
    sources: BTreeMap<String, Source>,
    src_dir: PathBuf,
    vacuity: bool,
    fns: Vec<String>,   // json fragments
    items: Vec<String>, // json fragments
    rewrites: BTreeMap<String, usize>,
    global_subst: Vec<(String, String)>,
    drop_macros: Vec<String>,
    defaults: Vec<(String, String)>,
}

impl Ctx {
    fn load(&mut self, f: &str) {
        if self.sources.contains_key(f) {
            return;
        }
        let p = self.src_dir.join(f);
        let text = match std::fs::read_to_string(&p) {
            Ok(t) => t,
            Err(e) => die(&format!("cannot read {}: {}", p.display(), e)),
        };
        let ast = match syn::parse_file(&text) {
            Ok(a) => a,
            Err(e) => die(&format!("cannot parse {}: {}", f, e)),
        };
        self.sources.insert(f.to_string(), Source { text, ast });
    }
    fn note(&mut self, r: &str) {
        *self.rewrites.entry(r.to_string()).or_insert(0) += 1;
    }
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn apply(text: &str, base: usize, end: usize, mut edits: Vec<Edit>) -> String {
    edits.sort_by(|a, b| a.start.cmp(&b.start).then(a.ord.cmp(&b.ord)));
    let mut out = String::new();
    let mut pos = base;
    for e in edits {
        if e.start < pos {
            // nested inside an already replaced region: skip
            continue;
        }
        out.push_str(&text[pos..e.start]);
        out.push_str(&e.text);
        pos = e.end;
    }
    out.push_str(&text[pos..end]);
    out
}

/// nom's combinators written out: `alt((a, b))(i)`, `tuple((a, b))(i)`, `map(p, f)(i)`, `not/peek/opt/complete(p)(i)` and `self.p()(i)` become the
/// matches they stand for (nom 7: alt tries the next on Error only, tuple runs in order, ...); leaves `p(args)(i)` become `vxp_p(i, args)`
struct NomCalls {
    found: Option<(usize, usize, String)>,
    text: String,
    n: usize,
}
impl NomCalls {
    fn t(&self, s: Span) -> String {
        let (a, b) = br(s);
        self.text[a..b].to_string()
    }
    fn e(&mut self, p: &syn::Expr, i: &str) -> String {
        match p {
            syn::Expr::Call(c) => {
                let f = match &*c.func {
                    syn::Expr::Path(x) => x.path.segments.last().unwrap().ident.to_string(),
                    _ => die("nom: parser constructor is not a path"),
                };
                let parts = |e: &syn::Expr| -> Vec<syn::Expr> {
                    match e {
                        syn::Expr::Tuple(t) => t.elems.iter().cloned().collect(),
                        x => vec![x.clone()],
                    }
                };
                self.n += 1;
                let n = self.n;
                match f.as_str() {
                    "alt" => {
                        let v = parts(&c.args[0]);
                        let mut out = self.e(&v[v.len() - 1], i);
                        for q in v[..v.len() - 1].iter().rev() {
                            let a = self.e(q, i);
                            out = format!("(match {} {{ Err(NErr::Error(_)) => {}, __a{} => __a{} }})", a, out, n, n);
                        }
                        out
                    }
                    "tuple" => {
                        let v = parts(&c.args[0]);
                        let mut outs: Vec<String> = vec![];
                        let (mut head, mut tail) = (String::new(), String::new());
                        let mut at = i.to_string();
                        for (k, q) in v.iter().enumerate() {
                            let a = self.e(q, &at);
                            at = format!("__i{}_{}", n, k);
                            outs.push(format!("__o{}_{}", n, k));
                            head += &format!("(match {} {{ Err(__e) => Err(__e), Ok(({}, {})) => ", a, at, outs[k]);
                            tail += " })";
                        }
                        format!("{}Ok(({}, ({}))){}", head, at, outs.join(", "), tail)
                    }
                    "map" => {
                        let a = self.e(&c.args[0], i);
                        match &c.args[1] {
                            syn::Expr::Closure(cl) => {
                                let pat = match &cl.inputs[0] {
                                    syn::Pat::Type(t) => self.t(t.pat.span()),
                                    x => self.t(x.span()),
                                };
                                format!("(match {} {{ Err(__e) => Err(__e), Ok((__r{}, {})) => {{ let __m{} = {}; Ok((__r{}, __m{})) }} }})", a, n, pat, n, self.t(cl.body.span()), n, n)
                            }
                            g => format!("(match {} {{ Err(__e) => Err(__e), Ok((__r{}, __m{})) => Ok((__r{}, {}(__m{}))) }})", a, n, n, n, self.t(g.span()), n),
                        }
                    }
                    "not" => { let a = self.e(&c.args[0], i); format!("(match {} {{ Ok(_) => Err(NErr::Error(vx_nerr({}))), Err(NErr::Error(_)) => Ok(({}, ())), Err(__e) => Err(__e) }})", a, i, i) }
                    "peek" => { let a = self.e(&c.args[0], i); format!("(match {} {{ Ok((_, __o{})) => Ok(({}, __o{})), Err(__e) => Err(__e) }})", a, n, i, n) }
                    "opt" => { let a = self.e(&c.args[0], i); format!("(match {} {{ Ok((__r{}, __o{})) => Ok((__r{}, Some(__o{}))), Err(NErr::Error(_)) => Ok(({}, None)), Err(__e) => Err(__e) }})", a, n, n, n, n, i) }
                    "complete" => { let a = self.e(&c.args[0], i); format!("(match {} {{ Err(NErr::Incomplete(_)) => Err(NErr::Error(vx_nerr({}))), __a{} => __a{} }})", a, i, n, n) }
                    _ => {
                        let args: Vec<String> = c.args.iter().map(|a| match a {
                            syn::Expr::Lit(l) if matches!(l.lit, syn::Lit::Str(_)) => format!("b{}", self.t(a.span())),
                            a => self.t(a.span()),
                        }).collect();
                        format!("vxp_{}({}, {})", f, i, args.join(", "))
                    }
                }
            }
            syn::Expr::MethodCall(m) => {
                if !m.args.is_empty() { die("nom: parser method with arguments") }
                format!("{}.{}({})", self.t(m.receiver.span()), m.method, i)
            }
            syn::Expr::Path(_) => format!("{}({})", self.t(p.span()), i),
            syn::Expr::Paren(x) => self.e(&x.expr, i),
            _ => die("nom: unknown parser expression"),
        }
    }
}
impl<'a> Visit<'a> for NomCalls {
    fn visit_expr_call(&mut self, c: &'a syn::ExprCall) {
        if self.found.is_some() { return; }
        if c.args.len() == 1 && matches!(&*c.func, syn::Expr::Call(_) | syn::Expr::MethodCall(_)) {
            let i = self.t(c.args[0].span());
            let (a, b) = br(c.span());
            let t = self.e(&c.func, &i);
            self.found = Some((a, b, t));
            return;
        }
        syn::visit::visit_expr_call(self, c);
    }
}
struct SelfLits<'k> {
    keep: &'k [String],
    out: Vec<(usize, usize, String)>,
}
impl<'k, 'ast> Visit<'ast> for SelfLits<'k> {
    fn visit_expr_struct(&mut self, e: &'ast syn::ExprStruct) {
        if e.path.is_ident("Self") {
            for f in &e.fields {
                if let syn::Member::Named(n) = &f.member {
                    if !self.keep.contains(&n.to_string()) {
                        let (a, b) = br(f.span());
                        self.out.push((a, b, n.to_string()));
                    }
                }
            }
        }
        syn::visit::visit_expr_struct(self, e);
    }
}

fn emit_fn(ctx: &mut Ctx, d: &Directive) -> String {
    ctx.load(&d.file);
    let name = d.path.join("::");
    let mut pre_notes: Vec<String> = vec![];
    let mut owned: Option<Source> = None;
    if d.get("foreach").is_some() || d.get("pre").is_some() || d.get("presig").is_some() || d.get("fields").is_some() || d.get("nom").is_some() {
        let s0 = ctx.sources.get(&d.file).unwrap();
        let mut cur = s0.text.clone();
        for (kind, s) in d.secs.iter().filter(|(n, _)| n == "pre" || n == "presig") {
            let (a, b) = match s.split_once("=>>") {
                Some(x) => (x.0.trim(), x.1.trim()),
                None => die(&format!("bad pre in {}", name)),
            };
            let tmp = Source { ast: syn::parse_file(&cur).unwrap_or_else(|e| die(&format!("reparse {}: {}", name, e))), text: cur.clone() };
            let f = find_fn(&tmp, &d.path).unwrap_or_else(|| die(&format!("LOST-ANCHOR function {} not found in {}", name, d.file)));
            let (x, y) = if kind == "presig" {
                (br(f.sig.fn_token.span).0, br(f.block.brace_token.span.open()).0)
            } else {
                (br(f.block.brace_token.span.open()).0, br(f.block.brace_token.span.close()).1)
            };
            let (t, n) = token_subst(&cur[x..y], a, b);
            if n > 0 {
                pre_notes.push(format!("`{}` => `{}` (x{})", a, b, n));
                cur = format!("{}{}{}", &cur[..x], t, &cur[y..]);
            }
        }
        if d.get("nom").is_some() {
            // the parser is called with its input: `fn p(&self) -> impl Fn(&[u8]) -> R { move |input| body }` is read as `fn p(&self, input: &[u8]) -> R { body }`
            let mut n = 0;
            let mut first = true;
            loop {
                let tmp = Source { ast: syn::parse_file(&cur).unwrap_or_else(|e| die(&format!("reparse {}: {}", name, e))), text: cur.clone() };
                let f = find_fn(&tmp, &d.path).unwrap_or_else(|| die(&format!("LOST-ANCHOR function {} not found in {}", name, d.file)));
                if first {
                    first = false;
                    if let [syn::Stmt::Expr(syn::Expr::Closure(c), None)] = &f.block.stmts[..] {
                        let (x, y) = (br(f.block.brace_token.span.open()).0, br(f.block.brace_token.span.close()).1);
                        let b = br(c.body.span());
                        let t = if matches!(&*c.body, syn::Expr::Block(_)) { cur[b.0..b.1].to_string() } else { format!("{{ {} }}", &cur[b.0..b.1]) };
                        cur = format!("{}{}{}", &cur[..x], t, &cur[y..]);
                        pre_notes.push("returned parser closure read as a function of its input".into());
                        continue;
                    }
                }
                let mut v = NomCalls { found: None, text: cur.clone(), n: n * 100 };
                v.visit_block(f.block);
                match v.found {
                    None => break,
                    Some((a, b, t)) => { n += 1; cur = format!("{}{}{}", &cur[..a], t, &cur[b..]); }
                }
            }
            if n > 0 { pre_notes.push(format!("nom combinators written out as matches (x{})", n)); }
        }
        if let Some(keep) = d.get("fields") {
            // `Self { .. }` literals keep only the fields the unit's struct has
            let keep: Vec<String> = keep.split(|c: char| c == ',' || c.is_whitespace()).filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
            let tmp = Source { ast: syn::parse_file(&cur).unwrap_or_else(|e| die(&format!("reparse {}: {}", name, e))), text: cur.clone() };
            let f = find_fn(&tmp, &d.path).unwrap_or_else(|| die(&format!("LOST-ANCHOR function {} not found in {}", name, d.file)));
            let mut v = SelfLits { keep: &keep, out: vec![] };
            v.visit_block(f.block);
            v.out.sort();
            let mut dropped = vec![];
            for (a, b, n) in v.out.into_iter().rev() {
                dropped.push(n);
                let e = cur[b..].find(',').map(|i| b + i + 1).filter(|e| cur[b..*e - 1].trim().is_empty()).unwrap_or(b);
                cur = format!("{}{}", &cur[..a], &cur[e..]);
            }
            dropped.reverse();
            pre_notes.push(format!("fields not initialised in the unit: {}", dropped.join(", ")));
        }
        if d.get("foreach").is_some() {
            loop {
                let tmp = Source { ast: syn::parse_file(&cur).unwrap_or_else(|e| die(&format!("reparse {}: {}", name, e))), text: cur.clone() };
                let f = find_fn(&tmp, &d.path).unwrap_or_else(|| die(&format!("LOST-ANCHOR function {} not found in {}", name, d.file)));
                let mut v = ForEach { found: None };
                v.visit_block(f.block);
                match v.found {
                    None => break,
                    Some((a, b, r, p, body)) => {
                        cur = format!("{}for {} in {} {{ {} }}{}", &cur[..a], &cur[p.0..p.1], &cur[r.0..r.1], &cur[body.0..body.1], &cur[b..]);
                        pre_notes.push("iterator.for_each(closure) written as a for loop".into());
                    }
                }
            }
        }
        owned = Some(Source { ast: syn::parse_file(&cur).unwrap_or_else(|e| die(&format!("reparse {}: {}", name, e))), text: cur });
    }
    let src = match &owned {
        Some(s) => s,
        None => ctx.sources.get(&d.file).unwrap(),
    };
    let f = match find_fn(src, &d.path) {
        Some(f) => f,
        None => die(&format!("LOST-ANCHOR function {} not found in {}", name, d.file)),
    };
    let text = src.text.clone();
    let mut col = Collect::default();
    col.visit_block(f.block);
    let mut edits: Vec<Edit> = vec![];
    let mut ord = 0;
    let mut push = |edits: &mut Vec<Edit>, s: usize, e: usize, t: String| {
        ord += 1;
        edits.push(Edit { start: s, end: e, text: t, ord });
    };
    let (sig_start, sig_end) = (f.vis_start, br(f.sig.span()).1);
    let (block_open, block_close) = {
        let s = f.block.brace_token.span;
        (br(s.open()).0, br(s.close()).0)
    };
    let end = block_close + 1;
    let mut notes: Vec<String> = pre_notes;

    // `sig:` replaces the whole signature (only for listed signature-only differences)
    let spec = d.get("spec").unwrap_or("");
    if let Some(sig) = d.get("sig") {
        push(&mut edits, sig_start, sig_end, sig.to_string());
        notes.push(format!("signature of {} rewritten", name));
    } else if let Some(r) = d.get("ret") {
        match &f.sig.output {
            syn::ReturnType::Type(_, t) => {
                let (a, b) = br(t.span());
                push(&mut edits, a, b, format!("({}: {})", r, &text[a..b]));
            }
            syn::ReturnType::Default => {}
        }
    }
    // the contract
    push(&mut edits, block_open, block_open, format!("\n{}\n", spec));
    // fn start ghost code
    let mut start = String::new();
    if let Some(s) = d.get("hide") {
        start.push_str(&format!("\n{}\n", s));
    }
    let one_query = d.get("attr").map_or(false, |a| a.contains("loop_isolation(false)")) && !col.loops.is_empty();
    if ctx.vacuity && d.get("novacuity").is_none() && !one_query {
        start.push_str("\nproof { assert(false); /*VAC*/ }\n");
    }
    if let Some(s) = d.get("start") {
        start.push('\n');
        start.push_str(s);
        start.push('\n');
    }
    if !start.is_empty() {
        push(&mut edits, block_open + 1, block_open + 1, start);
    }
    // ghost code before the tail
    if let Some(s) = d.get("end") {
        let pos = match f.block.stmts.last() {
            Some(syn::Stmt::Expr(e, None)) => br(e.span()).0,
            _ => block_close,
        };
        push(&mut edits, pos, pos, format!("\n{}\n", s));
    }
    // bind the tail so that ghost code can follow it
    if let Some(s) = d.get("tail") {
        if let Some(syn::Stmt::Expr(e, None)) = f.block.stmts.last() {
            let (a, b) = br(e.span());
            push(&mut edits, a, a, "let __tail = ".to_string());
            push(&mut edits, b, b, format!(";\n{}\n__tail", s));
            notes.push("tail expression bound to a local so that ghost code can follow it".into());
        }
    }
    // loops
    let anyloop = d.secs.iter().filter(|(n, _)| n.starts_with("loop ")).count();
    for (i, l) in col.loops.iter().enumerate() {
        if let Some(t) = d.get(&format!("loop {}", i)) {
            push(&mut edits, l.body_open, l.body_open, format!("\n{}\n", t));
        }
        if let Some(t) = d.get(&format!("loop {} iter", i)) {
            if let LoopKind::For { expr_start } = l.kind {
                push(&mut edits, expr_start, expr_start, format!("{}: ", t.trim()));
            }
        }
        let mut st = String::new();
        if ctx.vacuity && d.get(&format!("loop {} novacuity", i)).is_none() {
            st.push_str("\nproof { assert(false); /*VAC*/ }\n");
        }
        if let Some(t) = d.get(&format!("loop {} start", i)) {
            st.push('\n');
            st.push_str(t);
            st.push('\n');
        }
        if !st.is_empty() {
            push(&mut edits, l.body_open + 1, l.body_open + 1, st);
        }
        if let Some(t) = d.get(&format!("loop {} end", i)) {
            push(&mut edits, l.body_close, l.body_close, format!("\n{}\n", t));
        }
        if let Some(t) = d.get(&format!("loop {} before", i)) {
            push(&mut edits, l.start, l.start, format!("\n{}\n", t));
        }
        if let Some(t) = d.get(&format!("loop {} after", i)) {
            push(&mut edits, l.end, l.end, format!("\n{}\n", t));
        }
    }
    let _ = anyloop;
    // closures
    for (i, c) in col.closures.iter().enumerate() {
        let mut lets = String::new();
        let typed = d.get(&format!("closure {} args", i));
        if let Some(t) = typed {
            push(&mut edits, c.or1, c.or2_end, format!("|{}|", t));
        }
        for (k, (a, b, simple, _)) in c.inputs.iter().enumerate() {
            if !simple {
                let pat = &text[*a..*b];
                if pat.trim() != "_" {
                    let p = match pat.find("):") {
                        _ if pat.starts_with("mut ") => pat.split(':').next().unwrap(),
                        Some(i) => &pat[..i + 1],
                        None => pat,
                    };
                    match p.strip_prefix('&') {
                        Some(q) => lets.push_str(&format!("let {} = *__a{}; ", q, k)),
                        None => lets.push_str(&format!("let {} = __a{}; ", p, k)),
                    }
                }
                if typed.is_none() {
                    push(&mut edits, *a, *b, format!("__a{}", k));
                }
                notes.push("closure parameter pattern moved into a let in the closure body".into());
            }
        }
        let auto;
        let mut cspec = d.get(&format!("closure {}", i));
        if (cspec.is_none() && d.get("closures") == Some("pure") && (!c.body_is_block || c.body_is_expr)) || cspec == Some("pure") {
            auto = if lets.is_empty() {
                format!("-> (__b: bool) ensures __b == ({})", &text[c.body.0..c.body.1])
            } else {
                format!("-> (__b: _) ensures equal(__b, ({{ {} {} }}))", lets, &text[c.body.0..c.body.1])
            };
            cspec = Some(auto.as_str());
        }
        if cspec.is_some() || !lets.is_empty() {
            let mut pre = String::new();
            if let Some(s) = cspec {
                pre.push_str(&format!(" {} ", s));
            }
            // a return type written in the source gives way to the named one of the contract
            let from = if c.has_ret && pre.trim_start().starts_with("->") { c.or2_end } else { c.body.0 };
            if c.body_is_block && lets.is_empty() {
                push(&mut edits, from, c.body.0, pre);
            } else {
                push(&mut edits, from, c.body.0, format!("{} {{ {}", pre, lets));
                push(&mut edits, c.body.1, c.body.1, " }".to_string());
            }
        }
        if let Some(s) = d.get(&format!("closure {} start", i)) {
            if c.body_is_block {
                push(&mut edits, c.body.0 + 1, c.body.0 + 1, format!("\n{}\n", s));
            }
        }
        if let Some(w) = d.get(&format!("closure {} wrap", i)) {
            push(&mut edits, c.full.0, c.full.0, format!("{}(", w.trim()));
            push(&mut edits, c.full.1, c.full.1, ")".to_string());
            notes.push(format!("closure passed through the identity function {}", w.trim()));
        }
    }
    // byte-string patterns become equality guards; string literals become byte arrays
    for (i, (a, b, alts, guard)) in col.byte_pats.iter().enumerate() {
        let cond = alts.iter().map(|v| format!("bytes_eq(__bp{}, {})", i, bytes_lit(v))).collect::<Vec<_>>().join(" || ");
        if !guard {
            push(&mut edits, *a, *b, format!("__bp{} if {}", i, cond));
            notes.push("byte-string match pattern turned into an equality guard".into());
        }
    }
    for (i, (a, b, (x, y), alts)) in col.matches_macros.iter().enumerate() {
        let cond = alts.iter().map(|v| format!("bytes_eq(__bm{}, {})", i, bytes_lit(v))).collect::<Vec<_>>().join(" || ");
        push(&mut edits, *a, *b, format!("{{ let __bm{} = {}; {} }}", i, &text[*x..*y], cond));
        notes.push("matches! on byte strings turned into equality tests".into());
    }
    if d.get("keepstr").is_none() {
        for (a, b, v) in &col.lits {
            push(&mut edits, *a, *b, bytes_lit(v));
            notes.push("string literal written as a byte array".into());
        }
    }
    // dropped statement macros (logging)
    for (n, a, b) in &col.stmt_macro_spans {
        if ctx.drop_macros.iter().any(|m| m == n) {
            push(&mut edits, *a, *b, String::new());
            notes.push(format!("statement macro {}! dropped", n));
        }
    }
    for (n, a, b) in &col.macro_spans {
        if ctx.drop_macros.iter().any(|m| m == n) && !col.stmt_macro_spans.iter().any(|(_, x, y)| a >= x && b <= y) {
            push(&mut edits, *a, *b, "()".to_string());
            notes.push(format!("expression macro {}! replaced by ()", n));
        }
    }
    let mut body = apply(&text, sig_start, end, edits);
    // doc comments / attributes inside the body are left alone
    let mut substs: Vec<(String, String)> = ctx.global_subst.clone();
    for s in d.all("subst") {
        let (a, b) = match s.split_once("=>>") {
            Some(x) => x,
            None => die(&format!("bad subst in {}", name)),
        };
        substs.push((a.trim().to_string(), b.trim().to_string()));
    }
    for (a, b) in &substs {
        let (t, n) = token_subst(&body, a, b);
        if n > 0 {
            body = t;
            notes.push(format!("`{}` => `{}` (x{})", a, b, n));
        }
    }
    let attrs = d.get("attr").unwrap_or("");
    let shape: Vec<String> = col.calls.iter().cloned().collect();
    let frag = format!(
        "{{\"file\":{},\"fn\":{},\"loops\":{},\"closures\":{},\"calls\":[{}],\"rewrites\":[{}],\"template_line\":{}}}",
        json_str(&d.file),
        json_str(&name),
        col.loops.len(),
        col.closures.len(),
        shape.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(","),
        notes.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(","),
        d.line
    );
    let hdr = f.impl_header.clone();
    let has_vis = f.has_vis;
    for n in &notes {
        ctx.note(n);
    }
    ctx.fns.push(frag);
    let is_trait_impl = hdr.as_ref().map(|h| h.contains(" for ")).unwrap_or(false);
    let vis = if !has_vis && d.get("sig").is_none() && !is_trait_impl { "pub " } else { "" };
    let mut out = String::new();
    let _ = writeln!(out, "//@@ FN {}::{}", d.file, name);
    match (hdr, d.get("noimpl")) {
        (Some(h), None) => {
            let h = d.get("impl").map(|s| s.to_string()).unwrap_or(h);
            let _ = write!(out, "{} {{\n{}\n{}{}\n{}\n}}\n", h, attrs, vis, body, d.get("extra").unwrap_or(""));
        }
        _ => {
            let _ = write!(out, "{}\n{}{}\n", attrs, vis, body);
        }
    }
    let _ = writeln!(out, "//@@ END {}", name);
    out
}

fn emit_item(ctx: &mut Ctx, d: &Directive) -> String {
    ctx.load(&d.file);
    let src = ctx.sources.get(&d.file).unwrap();
    let name = d.path.join("::");
    let text = &src.text;
    let strip = |attrs: &[syn::Attribute], span: Span| -> String {
        // drop doc comments and attributes
        let (mut a, b) = br(span);
        for at in attrs {
            let e = br(at.span()).1;
            if e > a {
                a = e;
            }
        }
        text[a..b].to_string()
    };
    let mut out = String::new();
    let mut found = false;
    for item in &src.ast.items {
        match item {
            syn::Item::Struct(s) if s.ident == d.path[0] => {
                found = true;
                let keep: Option<Vec<&str>> = d.get("fields").map(|f| f.split(|c: char| c == ',' || c.is_whitespace()).filter(|s| !s.is_empty()).collect());
                let mut fields = String::new();
                for f in &s.fields {
                    if let Some(id) = &f.ident {
                        if let Some(k) = &keep {
                            if !k.contains(&id.to_string().as_str()) {
                                continue;
                            }
                        }
                        let (a, b) = br(f.ty.span());
                        let mut ty = text[a..b].to_string();
                        for s in d.all("subst") {
                            if let Some((x, y)) = s.split_once("=>>") {
                                ty = token_subst(&ty, x.trim(), y.trim()).0;
                            }
                        }
                        fields.push_str(&format!("    pub {}: {},\n", id, ty));
                    }
                }
                let (ga, gb) = match (s.generics.lt_token, s.generics.gt_token) {
                    (Some(l), Some(g)) => (br(l.span()).0, br(g.span()).1),
                    _ => (0, 0),
                };
                out = format!("{}\npub struct {}{} {{\n{}{}}}\n", d.get("attr").unwrap_or(""), s.ident, &text[ga..gb], fields, d.get("extra").unwrap_or(""));
            }
            syn::Item::Enum(e) if e.ident == d.path[0] => {
                found = true;
                out = format!("{}\n{}\n", d.get("attr").unwrap_or(""), strip(&e.attrs, e.span()));
                // doc comments on variants are harmless comments
            }
            syn::Item::Static(s) if s.ident == d.path[0] => {
                found = true;
                let (a, b) = br(s.expr.span());
                let (c, e) = br(s.ty.span());
                let kw = d.get("as").unwrap_or("const");
                out = format!("{}\npub {} {}: {} {} = {};\n", d.get("attr").unwrap_or(""), kw, s.ident, &text[c..e], d.get("spec").unwrap_or(""), &text[a..b]);
            }
            syn::Item::Const(s) if s.ident == d.path[0] => {
                found = true;
                let (a, b) = br(s.expr.span());
                let (c, e) = br(s.ty.span());
                out = format!("{}\npub const {}: {} {} = {};\n", d.get("attr").unwrap_or(""), s.ident, &text[c..e], d.get("spec").unwrap_or(""), &text[a..b]);
            }
            syn::Item::Macro(m) if m.ident.as_ref().map(|i| i == &d.path[0]).unwrap_or(false) => {
                found = true;
                out = format!("{}\n", strip(&m.attrs, m.span()));
            }
            syn::Item::Type(t) if t.ident == d.path[0] => {
                found = true;
                out = format!("{}\n", strip(&t.attrs, t.span()));
                if !out.starts_with("pub") {
                    out = format!("pub {}", out.trim_start());
                }
            }
            syn::Item::Impl(i) if d.kind == "consts" && i.trait_.is_none() && impl_self_name(i) == d.path[0] => {
                let mut cs = String::new();
                for it in &i.items {
                    if let syn::ImplItem::Const(c) = it {
                        found = true;
                        let (a, b) = br(c.expr.span());
                        let (x, y) = br(c.ty.span());
                        cs.push_str(&format!("    pub const {}: {} = {};\n", c.ident, &text[x..y], &text[a..b]));
                    }
                }
                out = format!("pub struct {};\nimpl {} {{\n{}}}\n", d.path[0], d.path[0], cs);
            }
            _ => {}
        }
        if found && d.kind != "consts" {
            break;
        }
        if found && d.kind == "consts" {
            break;
        }
    }
    // for `consts`, the struct itself may come first; look only at impl
    if d.kind == "consts" {
        out.clear();
        found = false;
        for item in &src.ast.items {
            if let syn::Item::Impl(i) = item {
                if i.trait_.is_none() && impl_self_name(i) == d.path[0] {
                    let mut cs = String::new();
                    for it in &i.items {
                        if let syn::ImplItem::Const(c) = it {
                            found = true;
                            let (a, b) = br(c.expr.span());
                            let (x, y) = br(c.ty.span());
                            cs.push_str(&format!("    pub const {}: {} = {};\n", c.ident, &text[x..y], &text[a..b]));
                        }
                    }
                    if found {
                        out = format!("pub struct {};\nimpl {} {{\n{}}}\n", d.path[0], d.path[0], cs);
                        break;
                    }
                }
            }
        }
    }
    if !found {
        die(&format!("LOST-ANCHOR item {} not found in {}", name, d.file));
    }
    let mut body = out;
    for s in d.all("subst") {
        if let Some((x, y)) = s.split_once("=>>") {
            body = token_subst(&body, x.trim(), y.trim()).0;
        }
    }
    ctx.items.push(format!("{{\"file\":{},\"item\":{}}}", json_str(&d.file), json_str(&name)));
    format!("// ---- extracted item from src/{} : {}\n{}", d.file, name, body)
}

fn expand_includes(text: &str, dir: &std::path::Path) -> String {
    let mut out = String::new();
    for l in text.lines() {
        if let Some(f) = l.trim().strip_prefix("//@include ") {
            let p = dir.join(f.trim());
            let t = std::fs::read_to_string(&p).unwrap_or_else(|e| die(&format!("include {}: {}", p.display(), e)));
            out.push_str(&expand_includes(&t, dir));
        } else {
            out.push_str(l);
        }
        out.push('\n');
    }
    out
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 5 {
        die("usage: extract <src-dir> <template> <out.rs> <summary.json> [--vacuity]");
    }
    let tpath = PathBuf::from(&args[2]);
    let template = std::fs::read_to_string(&tpath).unwrap_or_else(|e| die(&format!("template: {}", e)));
    let template = expand_includes(&template, tpath.parent().unwrap());
    let mut ctx = Ctx {
        sources: BTreeMap::new(),
        src_dir: PathBuf::from(&args[1]),
        vacuity: args.iter().any(|a| a == "--vacuity"),
        fns: vec![],
        items: vec![],
        rewrites: BTreeMap::new(),
        global_subst: vec![],
        drop_macros: vec![],
        defaults: vec![],
    };
    let mut out = String::new();
    let mut rest = template.as_str();
    let mut line = 1;
    while let Some(i) = rest.find("/*@") {
        out.push_str(&rest[..i]);
        line += rest[..i].matches('\n').count();
        let j = match rest[i..].find("@*/") {
            Some(j) => i + j,
            None => die("unterminated directive"),
        };
        let text = &rest[i + 3..j];
        let d = parse_directive(text.trim_start(), line);
        match d.kind.as_str() {
            "fn" => {
                let mut d = d;
                d.secs.extend(ctx.defaults.iter().cloned());
                out.push_str(&emit_fn(&mut ctx, &d))
            }
            "item" | "consts" => out.push_str(&emit_item(&mut ctx, &d)),
            "config" => {
                for s in d.all("subst") {
                    if let Some((a, b)) = s.split_once("=>>") {
                        ctx.global_subst.push((a.trim().to_string(), b.trim().to_string()));
                    }
                }
                // `pre:`/`presig:` lines of a config apply to every function that follows
                ctx.defaults.extend(d.secs.iter().filter(|(n, _)| n == "pre" || n == "presig").cloned());
                for s in d.all("drop") {
                    ctx.drop_macros.extend(s.split_whitespace().map(|x| x.to_string()));
                }
            }
            k => die(&format!("unknown directive kind `{}` at template line {}", k, line)),
        }
        line += text.matches('\n').count();
        rest = &rest[j + 3..];
    }
    out.push_str(rest);
    if let Err(e) = std::fs::write(&args[3], &out) {
        die(&format!("write: {}", e));
    }
    let rw = ctx.rewrites.iter().map(|(k, v)| format!("{{\"rewrite\":{},\"count\":{}}}", json_str(k), v)).collect::<Vec<_>>().join(",");
    let s = format!("{{\"fns\":[{}],\"items\":[{}],\"rewrites\":[{}]}}\n", ctx.fns.join(","), ctx.items.join(","), rw);
    let _ = std::fs::write(&args[4], s);
}
