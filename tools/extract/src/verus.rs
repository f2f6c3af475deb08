use crate::{apply, Edit};
use quote::ToTokens;
use std::collections::BTreeMap;
use std::fs;
use std::path::{Path, PathBuf};
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

pub struct Src {
    pub rel: String,
    pub text: String,
    pub ast: syn::File,
}

fn load_all(repo: &Path) -> Result<Vec<Src>, String> {
    fn rec(root: &Path, d: &Path, out: &mut Vec<PathBuf>) -> Result<(), String> {
        let mut es: Vec<_> = fs::read_dir(d).map_err(|e| e.to_string())?.collect::<Result<Vec<_>, _>>().map_err(|e| e.to_string())?;
        es.sort_by_key(|e| e.path());
        for e in es {
            let p = e.path();
            if p.is_dir() {
                rec(root, &p, out)?;
            } else if p.extension().map(|x| x == "rs").unwrap_or(false) {
                out.push(p.strip_prefix(root).unwrap().to_path_buf());
            }
        }
        Ok(())
    }
    let mut files = vec![];
    rec(repo, &repo.join("src"), &mut files)?;
    let mut out = vec![];
    for f in files {
        let text = fs::read_to_string(repo.join(&f)).map_err(|e| e.to_string())?;
        match syn::parse_file(&text) {
            Ok(ast) => out.push(Src { rel: f.to_string_lossy().into_owned(), text, ast }),
            Err(e) => return Err(format!("cannot parse {}: {e}", f.display())),
        }
    }
    Ok(out)
}

fn norm(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

fn ty_str(t: &impl ToTokens) -> String {
    norm(&t.to_token_stream().to_string())
}

enum Found<'a> {
    Fn(&'a Src, &'a syn::ItemFn),
    Method(&'a Src, &'a syn::ItemImpl, &'a syn::ImplItemFn),
}

fn items<'a>(list: &'a [syn::Item], out: &mut Vec<&'a syn::Item>) {
    for i in list {
        if let syn::Item::Mod(m) = i {
            if let Some((_, l)) = &m.content {
                // test modules are not code that runs
                if !m.attrs.iter().any(|a| ty_str(a).contains("cfg(test)")) {
                    items(l, out);
                }
            }
        }
        out.push(i);
    }
}

fn find_in<'a>(s: &'a Src, path: &str) -> Vec<Found<'a>> {
    let mut list = vec![];
    items(&s.ast.items, &mut list);
    let mut r = vec![];
    if let Some((owner, name)) = path.rsplit_once("::") {
        let (tr, ty) = match owner.split_once(" for ") {
            Some((a, b)) => (Some(norm(a)), norm(b)),
            None => (None, norm(owner)),
        };
        for i in list {
            if let syn::Item::Impl(im) = i {
                let full = ty_str(&im.self_ty);
                if full != ty && full.split('<').next() != Some(ty.as_str()) {
                    continue;
                }
                let itr = im.trait_.as_ref().map(|t| ty_str(&t.1));
                if itr != tr {
                    continue;
                }
                for it in &im.items {
                    if let syn::ImplItem::Fn(f) = it {
                        if f.sig.ident == name {
                            r.push(Found::Method(s, im, f));
                        }
                    }
                }
            }
        }
    } else {
        for i in list {
            if let syn::Item::Fn(f) = i {
                if f.sig.ident == path {
                    r.push(Found::Fn(s, f));
                }
            }
        }
    }
    r
}

fn find_fn<'a>(all: &'a [Src], file: &str, path: &str) -> Result<Found<'a>, String> {
    for s in all.iter().filter(|s| s.rel == file) {
        let mut v = find_in(s, path);
        if v.len() == 1 {
            return Ok(v.remove(0));
        }
    }
    let mut v: Vec<_> = all.iter().flat_map(|s| find_in(s, path)).collect();
    if v.len() == 1 {
        Ok(v.remove(0))
    } else {
        Err(format!("anchor lost: {} candidates for function {path} (expected in {file})", v.len()))
    }
}

/// Byte range of an item without its attributes, visibility replaced by `pub`.
fn find_type<'a>(all: &'a [Src], file: &str, name: &str) -> Result<(&'a Src, &'a syn::Item), String> {
    let get = |s: &'a Src| -> Vec<&'a syn::Item> {
        let mut list = vec![];
        items(&s.ast.items, &mut list);
        list.into_iter()
            .filter(|i| match i {
                syn::Item::Struct(x) => x.ident == name,
                syn::Item::Enum(x) => x.ident == name,
                syn::Item::Const(x) => x.ident == name,
                syn::Item::Type(x) => x.ident == name,
                syn::Item::Trait(x) => x.ident == name,
                _ => false,
            })
            .collect()
    };
    for s in all.iter().filter(|s| s.rel == file) {
        let v = get(s);
        if v.len() == 1 {
            return Ok((s, v[0]));
        }
    }
    let v: Vec<_> = all.iter().flat_map(|s| get(s).into_iter().map(move |i| (s, i))).collect();
    if v.len() == 1 {
        Ok(v[0])
    } else {
        Err(format!("anchor lost: {} candidates for type {name} (expected in {file})", v.len()))
    }
}

#[derive(Default)]
struct FnSpec {
    ret: Option<String>,
    spec: String,
    loops: BTreeMap<usize, String>,
    loop_iter: BTreeMap<usize, String>,
    iterref: Vec<usize>,
    iterval: Vec<usize>,
    loop_start: BTreeMap<usize, String>,
    loop_end: BTreeMap<usize, String>,
    loop_before: BTreeMap<usize, String>,
    loop_after: BTreeMap<usize, String>,
    start: String,
    end: String,
    before: Vec<(String, String)>,
    after: Vec<(String, String)>,
    armstart: Vec<(String, String)>,
    attrs: Vec<String>,
    subst: Vec<(String, String)>,
    external: bool,
    /// a method of a trait implementation, emitted as a method of the type
    inherent: bool,
    /// one match arm per alternative of an or-pattern that binds
    splitor: bool,
    /// `for x in v` over `&mut Vec` by index
    itermut: Vec<usize>,
    nloops: Option<usize>,
    implitems: String,
    join: bool,
    tailarms: String,
    /// verify the arms of the largest match in this many separate copies of the function
    split: Option<usize>,
    partspec: String,
    /// arms to keep (identifiers in their patterns); the others are another property's
    only: Vec<String>,
}

const LOG_MACROS: &[&str] = &["debug", "info", "trace", "warn", "error", "println", "eprintln", "print", "eprint"];
const PANIC_MACROS: &[&str] = &["unreachable", "panic", "todo", "unimplemented"];

thread_local! { static RENAMES: std::cell::RefCell<Vec<(String, String)>> = Default::default(); }

thread_local! {
    /// the overlay defines `Shown` and `show`: `format!` is spelled out
    static FORMATS: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
/// `format!("a{x}b")` as pushes of characters and of shown variables, when it has only such holes
fn formatted(tokens: &proc_macro2::TokenStream) -> Option<String> {
    let lit: syn::LitStr = syn::parse2(tokens.clone()).ok()?;
    let text = lit.value();
    let mut out = String::from("{ let mut f__ = String::new(); ");
    let mut cs = text.chars();
    while let Some(c) = cs.next() {
        match c {
            '{' => {
                let mut name = String::new();
                loop {
                    match cs.next()? {
                        '}' => break,
                        c if c.is_alphanumeric() || c == '_' => name.push(c),
                        _ => return None,
                    }
                }
                if name.is_empty() || name.starts_with(|c: char| c.is_ascii_digit()) {
                    return None;
                }
                out.push_str(&format!("show(&mut f__, &{name}); "));
            }
            '}' => return None,
            c => out.push_str(&format!("push_char(&mut f__, '{}'); ", c.escape_default())),
        }
    }
    out.push_str("f__ }");
    Some(out)
}

struct BodyVisitor<'s> {
    text: &'s str,
    edits: Vec<Edit>,
    /// (header insertion point, iter pattern end / expr start, body open, body close, whole range)
    loops: Vec<LoopInfo>,
    stmts: Vec<(usize, usize, String)>,
    arms: Vec<(String, usize, bool, usize)>,
    counts: BTreeMap<&'static str, usize>,
    order: usize,
    tail_exprs: Vec<(usize, usize)>,
}

struct LoopInfo {
    pat: Option<(usize, usize, Vec<String>)>,
    expr_end: usize,
    inv_at: usize,
    iter_at: Option<usize>,
    ref_end: Option<usize>,
    body_open: usize,
    body_close: usize,
    start: usize,
    end: usize,
}

impl<'s> BodyVisitor<'s> {
    /// a `continue` that ends a branch, where nothing of the loop follows but the rest of this block
    fn tail_continues(&mut self, b: &syn::Block) {
        for (i, st) in b.stmts.iter().enumerate() {
            if let syn::Stmt::Expr(syn::Expr::If(f), _) = st {
                if let (None, Some(syn::Stmt::Expr(syn::Expr::Continue(c), semi))) = (&f.else_branch, f.then_branch.stmts.last()) {
                    if c.label.is_none() {
                        let cr = c.span().byte_range();
                        let ce = semi.map(|t| t.span().byte_range().end).unwrap_or(cr.end);
                        self.edit(cr.start, ce, "", "`if c { continue; } rest` -> `if c {} else { rest }`");
                        if i + 1 < b.stmts.len() {
                            let e = st.span().byte_range().end;
                            self.edit(e, e, " else {", "");
                            let close = b.brace_token.span.close().byte_range().start;
                            self.edit(close, close, "} ", "");
                        }
                    }
                }
            }
        }
        // what ends the block is in the same place
        match b.stmts.last() {
            Some(syn::Stmt::Expr(syn::Expr::Match(m), _)) => {
                for a in &m.arms {
                    if let syn::Expr::Block(x) = &*a.body {
                        self.tail_continues(&x.block);
                    }
                }
            }
            Some(syn::Stmt::Expr(syn::Expr::If(f), _)) => {
                let mut f = f;
                loop {
                    self.tail_continues(&f.then_branch);
                    match f.else_branch.as_ref().map(|(_, e)| &**e) {
                        Some(syn::Expr::If(g)) => f = g,
                        Some(syn::Expr::Block(x)) => { self.tail_continues(&x.block); break; }
                        _ => break,
                    }
                }
            }
            _ => {}
        }
    }
    fn edit(&mut self, start: usize, end: usize, text: impl Into<String>, kind: &'static str) {
        self.order += 1;
        self.edits.push(Edit { start, end, text: text.into(), order: self.order });
        if !kind.is_empty() {
            *self.counts.entry(kind).or_insert(0) += 1;
        }
    }
    fn macro_edit(&mut self, m: &syn::Macro, range: std::ops::Range<usize>, is_stmt: bool) -> bool {
        let name = m.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
        if LOG_MACROS.contains(&name.as_str()) {
            self.edit(range.start, range.end, if is_stmt { "" } else { "()" }, "log macro dropped");
            return true;
        }
        if PANIC_MACROS.contains(&name.as_str()) {
            self.edit(range.start, range.end, if is_stmt { "vpanic();" } else { "vpanic()" }, "panic macro -> obligation `false`");
            return true;
        }
        if name == "assert" || name == "debug_assert" {
            let toks: Vec<proc_macro2::TokenTree> = m.tokens.clone().into_iter().collect();
            let mut cond_end = None;
            for t in &toks {
                if let proc_macro2::TokenTree::Punct(p) = t {
                    if p.as_char() == ',' {
                        cond_end = Some(t.span().byte_range().start);
                        break;
                    }
                }
            }
            if let (Some(f), Some(l)) = (toks.first(), toks.last()) {
                let a = f.span().byte_range().start;
                let b = cond_end.unwrap_or(l.span().byte_range().end);
                let cond = self.text[a..b].to_string();
                self.edit(range.start, range.end, format!("vassert({cond}){}", if is_stmt { ";" } else { "" }), "assert! -> obligation");
                return true;
            }
        }
        if name == "assert_eq" {
            use syn::parse::Parser;
            let p = syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated;
            if let Ok(list) = p.parse2(m.tokens.clone()) {
                if list.len() >= 2 {
                    let (a, b) = (self.text[list[0].span().byte_range()].to_string(), self.text[list[1].span().byte_range()].to_string());
                    self.edit(range.start, range.end, format!("vassert(({a}) == ({b})){}", if is_stmt { ";" } else { "" }), "assert! -> obligation");
                    return true;
                }
            }
        }
        if name == "format" {
            match if FORMATS.with(|f| f.get()) { formatted(&m.tokens) } else { None } {
                Some(t) => self.edit(range.start, range.end, t, "format! of plain holes -> the characters and holes in turn"),
                None => self.edit(range.start, range.end, "vformat()", "format! -> arbitrary String"),
            }
            return true;
        }
        if name == "vec" {
            // visit the element expressions so that nested edits apply
            use syn::parse::Parser;
            let p = syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated;
            if let Ok(list) = p.parse2(m.tokens.clone()) {
                for e in list.iter() {
                    self.visit_expr(e);
                }
            }
        }
        false
    }
    fn loop_info(&mut self, whole: std::ops::Range<usize>, body: &syn::Block, iter_at: Option<usize>, ref_end: Option<usize>) {
        let o = body.brace_token.span.open().byte_range();
        let c = body.brace_token.span.close().byte_range();
        self.loops.push(LoopInfo { pat: None, expr_end: 0, inv_at: o.start, iter_at, ref_end, body_open: o.end, body_close: c.start, start: whole.start, end: whole.end });
    }
}

impl<'a, 's> Visit<'a> for BodyVisitor<'s> {
    fn visit_stmt(&mut self, s: &'a syn::Stmt) {
        let r = s.span().byte_range();
        let end = match s {
            syn::Stmt::Macro(m) => m.semi_token.map(|t| t.span().byte_range().end).unwrap_or(r.end),
            _ => r.end,
        };
        self.stmts.push((r.start, end, norm(&self.text[r.start..end])));
        if let syn::Stmt::Macro(m) = s {
            if self.macro_edit(&m.mac, r.start..end, true) {
                return;
            }
        }
        visit::visit_stmt(self, s);
    }
    fn visit_expr_macro(&mut self, m: &'a syn::ExprMacro) {
        let r = m.span().byte_range();
        self.macro_edit(&m.mac, r, false);
    }
    fn visit_expr_method_call(&mut self, m: &'a syn::ExprMethodCall) {
        visit::visit_expr_method_call(self, m);
        if (m.method == "clone") && m.args.is_empty() {
            let r = m.method.span().byte_range();
            self.edit(r.start, r.end, "to_owned", "clone() -> to_owned()");
        }
        let to = RENAMES.with(|x| x.borrow().iter().find(|(a, _)| m.method == a).map(|(_, b)| b.clone()));
        if let Some(to) = to {
            let r = m.method.span().byte_range();
            self.edit(r.start, r.end, to, "std method -> its wrapper with a contract");
        }
    }
    fn visit_expr_for_loop(&mut self, l: &'a syn::ExprForLoop) {
        let ref_end = match &*l.expr {
            syn::Expr::Reference(r) if r.mutability.is_none() => Some(r.span().byte_range().end),
            _ => None,
        };
        // `for (i, x) in e.enumerate()` -> a counter beside `for x in e` (what Enumerate does)
        if let (syn::Expr::MethodCall(m), syn::Pat::Tuple(t)) = (&*l.expr, &*l.pat) {
            if m.method == "enumerate" && m.args.is_empty() && t.elems.len() == 2 {
                if let syn::Pat::Ident(i) = &t.elems[0] {
                    let k = self.loops.len();
                    let (w, p, x) = (l.span().byte_range(), l.pat.span().byte_range(), t.elems[1].span().byte_range());
                    let body = l.body.brace_token.span.open().byte_range().end;
                    self.edit(w.start, w.start, format!("let mut __en{k}: usize = 0; "), "enumerate() -> counter");
                    self.edit(p.start, p.end, self.text[x].to_string(), "");
                    let at = m.dot_token.span.byte_range().start;
                    self.edit(at, m.span().byte_range().end, "", "");
                    self.edit(body, body, format!(" let {} = __en{k}; __en{k} = __en{k} + 1; ", i.ident), "");
                }
            }
        }
        // `if c { ..; continue; } rest` -> `if c { ..; } else { rest }` (for loops of the verifier have no `continue`)
        self.tail_continues(&l.body);
        self.loop_info(l.span().byte_range(), &l.body, Some(l.expr.span().byte_range().start), ref_end);
        let (p, e) = (l.pat.span().byte_range(), l.expr.span().byte_range().end);
        let parts = match &*l.pat {
            syn::Pat::Tuple(t) => t.elems.iter().map(|x| self.text[x.span().byte_range()].to_string()).collect(),
            _ => vec![],
        };
        let last = self.loops.last_mut().unwrap();
        last.pat = Some((p.start, p.end, parts));
        last.expr_end = e;
        visit::visit_expr_for_loop(self, l);
    }
    fn visit_expr_while(&mut self, l: &'a syn::ExprWhile) {
        self.loop_info(l.span().byte_range(), &l.body, None, None);
        visit::visit_expr_while(self, l);
    }
    fn visit_expr_loop(&mut self, l: &'a syn::ExprLoop) {
        self.loop_info(l.span().byte_range(), &l.body, None, None);
        visit::visit_expr_loop(self, l);
    }
    fn visit_arm(&mut self, a: &'a syn::Arm) {
        let pat = norm(&self.text[a.pat.span().byte_range()]);
        let b = a.body.span().byte_range();
        let block = matches!(&*a.body, syn::Expr::Block(_));
        self.arms.push((pat, b.start, block, b.end));
        visit::visit_arm(self, a);
    }
    fn visit_expr_closure(&mut self, c: &'a syn::ExprClosure) {
        visit::visit_expr_closure(self, c);
    }
    fn visit_item(&mut self, _i: &'a syn::Item) {}
}

struct MaxMatch<'a> {
    best: Option<&'a syn::ExprMatch>,
}
impl<'a> Visit<'a> for MaxMatch<'a> {
    fn visit_expr_match(&mut self, m: &'a syn::ExprMatch) {
        if self.best.map(|b| m.arms.len() > b.arms.len()).unwrap_or(true) {
            self.best = Some(m);
        }
        visit::visit_expr_match(self, m);
    }
}

/// With `//@split N`: the function itself is emitted with its contract only, and its body is
/// verified in N copies, copy k keeping every arm of the largest match whose index is k modulo N
/// and cutting the others off (`vskip()`, contract `ensures false`): together the copies cover
/// every path of the body.
fn emit_fn(found: &Found, sp: &FnSpec, report: &mut Vec<serde_json::Value>, file: &str, path: &str) -> Result<String, String> {
    let n = match sp.split {
        None => return emit_part(found, sp, report, file, path, None),
        Some(n) => n,
    };
    let mut out = emit_part(found, sp, report, file, path, Some((usize::MAX, n)))?;
    for k in 0..n {
        out.push_str(&format!("\n//#END\n//#FN {path} [match arms {k} mod {n}]\n"));
        out.push_str(&emit_part(found, sp, &mut vec![], file, path, Some((k, n)))?);
    }
    Ok(out)
}

fn emit_part(found: &Found, sp: &FnSpec, report: &mut Vec<serde_json::Value>, file: &str, path: &str, part: Option<(usize, usize)>) -> Result<String, String> {
    let external = sp.external || matches!(part, Some((usize::MAX, _)));
    let part = part.filter(|p| p.0 != usize::MAX);
    let (src, attrs_end, sig, block, vis_start) = match found {
        Found::Fn(s, f) => (*s, f.sig.span().byte_range().start, &f.sig, &*f.block, f.sig.span().byte_range().start),
        Found::Method(s, _, f) => (*s, f.sig.span().byte_range().start, &f.sig, &f.block, f.sig.span().byte_range().start),
    };
    let _ = vis_start;
    let text = &src.text;
    let open = block.brace_token.span.open().byte_range();
    let close = block.brace_token.span.close().byte_range();
    let mut v = BodyVisitor { text, edits: vec![], loops: vec![], stmts: vec![], arms: vec![], counts: BTreeMap::new(), order: 0, tail_exprs: vec![] };
    v.visit_block(block);
    let _ = &v.tail_exprs;
    if let Some(n) = sp.nloops {
        if v.loops.len() != n {
            return Err(format!("anchor lost: {path} has {} loops, contract written for {n}", v.loops.len()));
        }
    }
    // return type name
    if let (Some(name), syn::ReturnType::Type(_, t)) = (&sp.ret, &sig.output) {
        let r = t.span().byte_range();
        let ty = text[r.clone()].to_string();
        v.edit(r.start, r.end, format!("({name}: {ty})"), "");
    }
    let spec = if part.is_some() { format!("{}\n{}", sp.partspec, sp.spec) } else { sp.spec.clone() };
    if !spec.trim().is_empty() {
        v.edit(open.start, open.start, format!("\n{spec}\n"), "");
    }
    let mut dropped: Vec<std::ops::Range<usize>> = vec![];
    if let Some((k, n)) = part {
        let mut mm = MaxMatch { best: None };
        mm.visit_block(block);
        let m = mm.best.ok_or(format!("anchor lost: no match in {path}"))?;
        let mut i = 0;
        for a in m.arms.iter() {
            let pat = &text[a.pat.span().byte_range()];
            let words: Vec<&str> = pat.split(|c: char| !c.is_alphanumeric() && c != '_').collect();
            if !sp.only.is_empty() && !sp.only.iter().any(|o| words.contains(&o.as_str())) {
                dropped.push(a.body.span().byte_range());
                continue;
            }
            if i % n != k {
                dropped.push(a.body.span().byte_range());
            }
            i += 1;
        }
        let id = sig.ident.span().byte_range();
        v.edit(id.start, id.end, format!("{}__part{k}", sig.ident), "");
    }
    // `for x in &map` -> `for x in map.iter()` (what IntoIterator for a reference does)
    for k in &sp.iterref {
        let (st, en) = v.loops.get(*k).map(|l| (l.iter_at, l.ref_end)).ok_or(format!("anchor lost: {path} has no loop {k}"))?;
        if let (Some(st), Some(en)) = (st, en) {
            v.edit(st, st + 1, "", "`for .. in &m` -> `for .. in m.iter()`");
            v.edit(en, en, ".iter()", "");
        } else {
            // the iterated expression is itself a reference: name it first
            let l = v.loops.get(*k).unwrap();
            let (st, e, start) = (l.iter_at.ok_or(format!("anchor lost: loop {k} of {path} is not a for loop"))?, l.expr_end, l.start);
            let inner: Vec<_> = v.edits.iter().filter(|x| st <= x.start && x.end <= e).cloned().collect();
            let sub = apply(text, st, e, &inner);
            v.edits.retain(|x| !(st <= x.start && x.end <= e));
            v.edit(start, start, format!("let __s{k} = {}; ", sub.trim()), "");
            v.edit(st, e, format!(" __s{k}.iter() "), "`for .. in m` -> `for .. in m.iter()`");
        }
    }
    // `for x in set` -> `for r in set.iter() { let x = r.to_owned(); ..` (the elements, in the same order)
    for k in &sp.iterval {
        let l = v.loops.get(*k).ok_or(format!("anchor lost: {path} has no loop {k}"))?;
        if let (Some((a, b, parts)), e, open, st, start) = (l.pat.clone(), l.expr_end, l.body_open, l.iter_at, l.start) {
            let pat = text[a..b].to_string();
            v.edit(a, b, format!("__r{k}"), "`for x in s` (by value) -> `for r in s.iter()` with x a copy of r");
            let st = st.ok_or(format!("anchor lost: loop {k} of {path} is not a for loop"))?;
            let inner: Vec<_> = v.edits.iter().filter(|x| st <= x.start && x.end <= e).cloned().collect();
            let sub = apply(text, st, e, &inner);
            v.edits.retain(|x| !(st <= x.start && x.end <= e));
            v.edit(start, start, format!("let __s{k} = {}; ", sub.trim()), "");
            v.edit(st, e, format!(" __s{k}.iter() "), "");
            let bind = if parts.len() == 2 { format!(" let {} = __r{k}.0.to_owned(); let {} = __r{k}.1.to_owned(); ", parts[0], parts[1]) } else { format!(" let {pat} = __r{k}.to_owned(); ") };
            v.edit(open, open, bind, "");
        }
    }
    let get = |k: usize| -> Result<(usize, Option<usize>, usize, usize, usize, usize), String> {
        v.loops.get(k).map(|l| (l.inv_at, l.iter_at, l.body_open, l.body_close, l.start, l.end)).ok_or(format!("anchor lost: {path} has no loop {k}"))
    };
    let mut ins: Vec<(usize, String)> = vec![];
    for (k, t) in &sp.loops {
        ins.push((get(*k)?.0, format!("\n{t}\n")));
    }
    for (k, t) in &sp.loop_iter {
        let at = get(*k)?.1.ok_or(format!("anchor lost: loop {k} of {path} is not a for loop"))?;
        ins.push((at, format!("{t}: ")));
    }
    for (k, t) in &sp.loop_start {
        ins.push((get(*k)?.2, format!("\n{t}\n")));
    }
    for (k, t) in &sp.loop_end {
        ins.push((get(*k)?.3, format!("\n{t}\n")));
    }
    for (k, t) in &sp.loop_before {
        ins.push((get(*k)?.4, format!("\n{t}\n")));
    }
    for (k, t) in &sp.loop_after {
        ins.push((get(*k)?.5, format!("\n{t}\n")));
    }
    let pick = |pat: &str| -> (String, usize) {
        // "pattern ##k" selects the k-th match
        match pat.rsplit_once("##") {
            Some((p, k)) => (norm(p), k.trim().parse().unwrap_or(0)),
            None => (norm(pat), 0),
        }
    };
    for (pat, t) in &sp.before {
        let (n, k) = pick(pat);
        let m = v.stmts.iter().filter(|s| s.2.starts_with(&n)).nth(k).ok_or(format!("anchor lost: no statement `{pat}` in {path}"))?;
        ins.push((m.0, format!("\n{t}\n")));
    }
    for (pat, t) in &sp.after {
        let (n, k) = pick(pat);
        let m = v.stmts.iter().filter(|s| s.2.starts_with(&n)).nth(k).ok_or(format!("anchor lost: no statement `{pat}` in {path}"))?;
        ins.push((m.1, format!("\n{t}\n")));
    }
    let mut arm_ins: Vec<(usize, String)> = vec![];
    for (pat, t) in &sp.armstart {
        let (n, k) = pick(pat);
        let m = v.arms.iter().filter(|s| s.0.starts_with(&n)).nth(k).ok_or(format!("anchor lost: no match arm `{pat}` in {path}"))?;
        if m.2 {
            arm_ins.push((m.1 + 1, format!("\n{t}\n")));
        } else {
            arm_ins.push((m.1, format!("{{ {t} ")));
            arm_ins.push((m.3, " }".to_string()));
        }
    }
    ins.insert(0, (open.end, "/*BODY*/".to_string()));
    if !sp.start.is_empty() {
        ins.push((open.end, format!("\n{}\n", sp.start)));
    }
    if !sp.end.is_empty() {
        // before the tail expression when there is one, else before the closing brace
        let at = match block.stmts.last() {
            Some(syn::Stmt::Expr(e, None)) => e.span().byte_range().start,
            _ => close.start,
        };
        ins.push((at, format!("\n{}\n", sp.end)));
    }
    if !sp.tailarms.is_empty() {
        // every arm of the match the function ends in: `body` -> `{ let __r = body; <hint> __r }`
        if let Some(syn::Stmt::Expr(syn::Expr::Match(m), None)) = block.stmts.last() {
            for a in &m.arms {
                let r = a.body.span().byte_range();
                if dropped.contains(&r) {
                    continue;
                }
                arm_ins.push((r.start, "{ let __r = ".to_string()));
                arm_ins.push((r.end, format!("; {} __r }}", sp.tailarms)));
            }
        } else {
            return Err(format!("anchor lost: {path} does not end in a match"));
        }
    }
    ins.extend(arm_ins);
    for (at, t) in ins {
        v.edit(at, at, t, "");
    }
    v.edits.retain(|e| !dropped.iter().any(|d| d.start <= e.start && e.end <= d.end));
    let split_text = sp.split.is_some();
    for d in dropped {
        v.edit(d.start, d.end, "{ vskip() }", "");
    }
    let body = if external {
        let hdr = apply(text, attrs_end, open.start, &v.edits.iter().filter(|e| e.start <= open.start && e.end <= open.start).cloned().collect::<Vec<_>>());
        format!("{hdr}{{ unimplemented!() }}")
    } else {
        apply(text, attrs_end, close.end, &v.edits)
    };
    let mut body = body;
    for (a, b) in &sp.subst {
        body = match replace_loose(&body, a, b) {
            Some(t) => t,
            // in one slice of a split function the text may be in an arm that is cut off here
            None if split_text && replace_loose(&text[attrs_end..close.end], a, b).is_some() => body,
            None => return Err(format!("anchor lost: text `{a}` not found in {path}")),
        };
    }
    let mut s = String::new();
    let head = |s: &mut String| {
        for a in &sp.attrs {
            s.push_str(a);
            s.push('\n');
        }
        if external {
            s.push_str("#[verifier::external_body]\n");
        }
    };
    match found {
        Found::Fn(..) => {
            head(&mut s);
            s.push_str("pub ");
            s.push_str(&body);
        }
        Found::Method(sr, im, _) => {
            // the impl header up to its brace, verbatim
            let ib = im.brace_token.span.open().byte_range();
            let ist = im.impl_token.span().byte_range().start;
            if part.is_some() || sp.inherent {
                s.push_str(&format!("impl{} {} ", &sr.text[im.generics.span().byte_range()], &sr.text[im.self_ty.span().byte_range()]));
            } else {
                s.push_str(&sr.text[ist..ib.start]);
            }
            s.push_str("{\n");
            if part.is_none() {
                s.push_str(&sp.implitems);
            }
            head(&mut s);
            if im.trait_.is_none() || part.is_some() || sp.inherent {
                s.push_str("pub ");
            }
            s.push_str(&body);
            s.push_str("\n}");
        }
    }
    let lc = |b: usize| text[..b].matches('\n').count() + 1;
    report.push(serde_json::json!({
        "kind": if sp.external { "assumed-contract" } else { "function" }, "file": src.rel, "moved_from": if src.rel == file { serde_json::Value::Null } else { file.into() },
        "name": path, "lines": [lc(attrs_end), lc(close.start)],
        "edits": v.counts.iter().map(|(k, n)| format!("{k} x{n}")).chain(sp.inherent.then(|| "method of a trait implementation emitted as a method of the type".to_string())).collect::<Vec<_>>(),
        "reshaped": (if sp.splitor { vec!["or-patterns: one arm per alternative".to_string()] } else { vec![] }).into_iter().chain(sp.itermut.iter().map(|k| format!("loop {k} over `&mut Vec`: by index"))).collect::<Vec<_>>(),
        "substitutions": sp.subst.iter().map(|(a,b)| format!("`{a}` -> `{b}`")).collect::<Vec<_>>(),
    }));
    Ok(s)
}

fn strip_item(s: &Src, i: &syn::Item, opts: &[&str], report: &mut Vec<serde_json::Value>) -> String {
    struct A {
        edits: Vec<Edit>,
    }
    impl<'a> Visit<'a> for A {
        fn visit_attribute(&mut self, a: &'a syn::Attribute) {
            let r = a.span().byte_range();
            let n = self.edits.len();
            self.edits.push(Edit { start: r.start, end: r.end, text: "".into(), order: n });
        }
    }
    let mut a = A { edits: vec![] };
    let push = |a: &mut A, st: usize, en: usize, t: &str| {
        let n = a.edits.len();
        a.edits.push(Edit { start: st, end: en, text: t.into(), order: n });
    };
    let whole = i.span().byte_range();
    let (name, start) = match i {
        syn::Item::Struct(x) => {
            for f in x.fields.iter() {
                for at in &f.attrs {
                    a.visit_attribute(at);
                }
                let vs = match &f.ident {
                    Some(id) => id.span().byte_range().start,
                    None => f.ty.span().byte_range().start,
                };
                match &f.vis {
                    syn::Visibility::Public(_) => {}
                    syn::Visibility::Restricted(r) => push(&mut a, r.span().byte_range().start, r.span().byte_range().end, "pub"),
                    syn::Visibility::Inherited => push(&mut a, vs, vs, "pub "),
                }
            }
            (x.ident.to_string(), x.struct_token.span().byte_range().start)
        }
        syn::Item::Enum(x) => {
            for v in &x.variants {
                for at in &v.attrs {
                    a.visit_attribute(at);
                }
                for f in &v.fields {
                    for at in &f.attrs {
                        a.visit_attribute(at);
                    }
                }
            }
            (x.ident.to_string(), x.enum_token.span().byte_range().start)
        }
        syn::Item::Const(x) => (x.ident.to_string(), x.const_token.span().byte_range().start),
        syn::Item::Type(x) => (x.ident.to_string(), x.type_token.span().byte_range().start),
        syn::Item::Trait(x) => (x.ident.to_string(), x.trait_token.span().byte_range().start),
        _ => (String::new(), whole.start),
    };
    let body = apply(&s.text, start, whole.end, &a.edits);
    let mut out = String::new();
    if opts.contains(&"copy") {
        out.push_str("#[derive(Copy)]\n");
    }
    if opts.contains(&"external") {
        out.push_str("#[verifier::external_body]\n");
    }
    out.push_str("pub ");
    // the elided lifetime of a constant, spelled out
    out.push_str(&if matches!(i, syn::Item::Const(_)) { body.replacen(": &str", ": &'static str", 1) } else { body });
    out.push('\n');
    if opts.contains(&"clone") || opts.contains(&"copy") {
        out.push_str(&format!("impl Clone for {name} {{ #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self {{ unimplemented!() }} }}\n"));
    }
    if opts.contains(&"eq") {
        out.push_str(&format!(
            "impl PartialEq for {name} {{ #[verifier::external_body] fn eq(&self, o: &Self) -> bool {{ unimplemented!() }} }}\nimpl Eq for {name} {{}}\nimpl vstd::std_specs::cmp::PartialEqSpecImpl for {name} {{ open spec fn obeys_eq_spec() -> bool {{ true }} open spec fn eq_spec(&self, o: &Self) -> bool {{ *self == *o }} }}\n"
        ));
    }
    if opts.contains(&"hash") {
        out.push_str(&format!(
            "impl std::hash::Hash for {name} {{ #[verifier::external_body] fn hash<H: std::hash::Hasher>(&self, _h: &mut H) {{ unimplemented!() }} }}\npub broadcast axiom fn hash_model_{name}() ensures #[trigger] vstd::std_specs::hash::obeys_key_model::<{name}>();\nbroadcast use hash_model_{name};\n"
        ));
    }
    report.push(serde_json::json!({"kind": "type", "file": s.rel, "name": name, "trusted": opts}));
    out
}

pub fn run(repo: &Path, overlay: &Path, out: &Path, report_path: &Path) -> Result<(), String> {
    FORMATS.with(|f| f.set(included(overlay).is_ok_and(|t| t.contains("pub trait Shown"))));
    let all = load_all(repo)?;
    let mut report: Vec<serde_json::Value> = vec![];
    let mut result = String::new();
    expand(&all, overlay, &mut result, &mut report)?;
    // Verus takes one module-level `broadcast use`
    let (uses, rest): (Vec<&str>, Vec<&str>) = result.lines().partition(|l| l.starts_with("broadcast use "));
    if !uses.is_empty() {
        let u: Vec<&str> = uses.iter().map(|l| l["broadcast use ".len()..].trim_end_matches(';')).collect();
        let (ax, rest): (Vec<&str>, Vec<&str>) = rest.into_iter().partition(|l| l.starts_with("pub broadcast axiom fn ") || l.starts_with("pub uninterp spec fn "));
        result = format!("broadcast use {{ {} }};\npub mod key_models {{\nuse super::*;\n{}\n}}\npub use key_models::*;\n{}\n", u.join(", "), ax.join("\n"), rest.join("\n"));
    }
    let feature = if result.contains("std::alloc::Allocator") { "#![feature(allocator_api)]\n" } else { "" };
    let full = format!("// GENERATED by c2w-extract from /repo's current source. Do not edit.\n{feature}#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_parens, unused_assignments, non_snake_case, unreachable_code, unreachable_patterns, non_camel_case_types)]\nuse vstd::prelude::*;\nverus! {{\n{result}\n}} // verus!\nfn main() {{}}\n");
    fs::write(out, full).map_err(|e| e.to_string())?;
    fs::write(report_path, serde_json::to_string_pretty(&report).unwrap()).map_err(|e| e.to_string())?;
    Ok(())
}

/// the overlay's text with its includes in place
fn included(overlay: &Path) -> Result<String, String> {
    let mut out = String::new();
    for l in fs::read_to_string(overlay).map_err(|e| format!("{}: {e}", overlay.display()))?.lines() {
        match l.trim().strip_prefix("//@include ") {
            Some(rest) => out.push_str(&included(&overlay.parent().unwrap().join(rest.trim()))?),
            None => {
                out.push_str(l);
                out.push('\n');
            }
        }
    }
    Ok(out)
}

fn expand(all: &[Src], overlay: &Path, result: &mut String, report: &mut Vec<serde_json::Value>) -> Result<(), String> {
    let text = included(overlay)?;
    let lines: Vec<&str> = text.lines().collect();
    let mut i = 0;
    while i < lines.len() {
        let l = lines[i];
        let t = l.trim();
        if let Some(rest) = t.strip_prefix("//@rename ") {
            let w: Vec<&str> = rest.split_whitespace().collect();
            RENAMES.with(|x| x.borrow_mut().push((w[0].to_string(), w[1].to_string())));
            i += 1;
        } else if let Some(rest) = t.strip_prefix("//@type ").or(t.strip_prefix("//@const ")) {
            let w: Vec<&str> = rest.split_whitespace().collect();
            if w.len() < 2 {
                return Err(format!("bad directive: {l}"));
            }
            let (s, it) = find_type(all, w[0], w[1])?;
            result.push_str(&strip_item(s, it, &w[2..], report));
            result.push('\n');
            i += 1;
        } else if let Some(rest) = t.strip_prefix("//@fn ") {
            let (file, path) = rest.trim().split_once(' ').ok_or(format!("bad directive: {l}"))?;
            let path = path.trim();
            let mut sp = FnSpec::default();
            i += 1;
            // sections
            let mut cur: Option<String> = None;
            let mut buf = String::new();
            let flush = |cur: &Option<String>, buf: &mut String, sp: &mut FnSpec| -> Result<(), String> {
                if let Some(c) = cur {
                    let b = buf.trim_end().to_string();
                    let w: Vec<&str> = c.splitn(2, ' ').collect();
                    let arg = w.get(1).map(|s| s.trim().to_string()).unwrap_or_default();
                    match w[0] {
                        "spec" => sp.spec.push_str(&b),
                        "partspec" => sp.partspec.push_str(&b),
                        "tailarms" => sp.tailarms.push_str(&b),
                        "implitems" => sp.implitems.push_str(&format!("{b}\n")),
                        "start" => sp.start.push_str(&b),
                        "end_" => sp.end.push_str(&b),
                        "before" => sp.before.push((arg, b)),
                        "after" => sp.after.push((arg, b)),
                        "arm" => sp.armstart.push((arg, b)),
                        "loop" => {
                            let a: Vec<&str> = arg.split_whitespace().collect();
                            let k: usize = a[0].parse().map_err(|_| format!("bad loop index {arg}"))?;
                            match a.get(1).copied() {
                                None => sp.loops.insert(k, b),
                                Some("start") => sp.loop_start.insert(k, b),
                                Some("end") => sp.loop_end.insert(k, b),
                                Some("before") => sp.loop_before.insert(k, b),
                                Some("after") => sp.loop_after.insert(k, b),
                                Some(x) => return Err(format!("bad loop position {x}")),
                            };
                        }
                        x => return Err(format!("unknown section {x}")),
                    }
                }
                buf.clear();
                Ok(())
            };
            loop {
                if i >= lines.len() {
                    return Err(format!("unterminated //@fn {path}"));
                }
                let t = lines[i].trim();
                if t == "//@end" {
                    flush(&cur, &mut buf, &mut sp)?;
                    i += 1;
                    break;
                }
                if let Some(d) = t.strip_prefix("//@") {
                    flush(&cur, &mut buf, &mut sp)?;
                    cur = None;
                    let w: Vec<&str> = d.splitn(2, ' ').collect();
                    let arg = w.get(1).map(|s| s.trim().to_string()).unwrap_or_default();
                    match w[0] {
                        "ret" => sp.ret = Some(arg),
                        "only" => sp.only.extend(arg.split_whitespace().map(|x| x.to_string())),
                        "external" => sp.external = true,
                        "inherent" => sp.inherent = true,
                        "splitor" => sp.splitor = true,
                        "itermut" => sp.itermut.push(arg.parse().map_err(|_| "bad itermut".to_string())?),
                        "join" => sp.join = true,
                        "split" => sp.split = Some(arg.parse().map_err(|_| "bad split".to_string())?),
                        "nloops" => sp.nloops = Some(arg.parse().map_err(|_| "bad nloops".to_string())?),
                        "attr" => sp.attrs.push(arg),
                        "iterref" => sp.iterref.push(arg.parse().map_err(|_| "bad iterref".to_string())?),
                        "iterval" => sp.iterval.push(arg.parse().map_err(|_| "bad iterval".to_string())?),
                        "iter" => {
                            let a: Vec<&str> = arg.split_whitespace().collect();
                            sp.loop_iter.insert(a[0].parse().map_err(|_| "bad iter".to_string())?, a[1].to_string());
                        }
                        "subst" => {
                            let (a, b) = arg.split_once("=>").ok_or("bad subst")?;
                            sp.subst.push((a.trim().to_string(), b.trim().to_string()));
                        }
                        _ => cur = Some(d.to_string()),
                    }
                } else if cur.is_some() {
                    buf.push_str(lines[i]);
                    buf.push('\n');
                }
                i += 1;
            }
            let f = reshape(find_fn(all, file, path)?, &sp, path)?;
            let e = emit_fn(&f, &sp, report, file, path)?;
            let tail = "\n}\n//#END\n\n";
            if sp.join && result.ends_with(tail) {
                // another method of the same trait implementation: one impl block
                let n = result.len() - tail.len();
                result.truncate(n);
                let k = e.find("{\n").ok_or("join: not a method")? + 2;
                result.push_str(&format!("\n//#END\n//#FN {path}\n{}", &e[k..]));
            } else {
                result.push_str(&format!("//#FN {path}\n"));
                result.push_str(&e);
            }
            result.push_str("\n//#END\n\n");
        } else {
            result.push_str(l);
            result.push('\n');
            i += 1;
        }
    }
    Ok(())
}

/// replaces every occurrence of `a`, wherever the text breaks its lines
fn replace_loose(text: &str, a: &str, b: &str) -> Option<String> {
    let want: String = a.chars().filter(|c| !c.is_whitespace()).collect();
    let mut bare = String::new();
    let mut at = Vec::new();
    for (i, c) in text.char_indices().filter(|(_, c)| !c.is_whitespace()) {
        at.extend(std::iter::repeat(i).take(c.len_utf8()));
        bare.push(c);
    }
    let (mut out, mut from, mut seen) = (String::new(), 0, 0);
    while let Some(k) = bare[seen..].find(&want) {
        let k = seen + k;
        out.push_str(&text[from..at[k]]);
        out.push_str(b);
        seen = k + want.len();
        let last = at[seen - 1];
        from = last + text[last..].chars().next().map_or(0, char::len_utf8);
    }
    if seen == 0 {
        return None;
    }
    out.push_str(&text[from..]);
    Some(out)
}

struct OrArms {
    edits: Vec<(usize, usize, String)>,
    text: String,
}
impl<'a> Visit<'a> for OrArms {
    fn visit_arm(&mut self, a: &'a syn::Arm) {
        if let syn::Pat::Or(o) = &a.pat {
            let binds = format!("{}", o.to_token_stream()).contains(|c: char| c.is_lowercase());
            if binds && a.guard.is_none() {
                let (p, r) = (a.pat.span().byte_range(), a.span().byte_range());
                let rest = self.text[p.end..r.end].trim_end_matches(',').to_string();
                let arms: Vec<String> = o.cases.iter().map(|c| format!("{}{rest},", &self.text[c.span().byte_range()])).collect();
                self.edits.push((r.start, r.end, arms.join("\n")));
                return;
            }
        }
        visit::visit_arm(self, a);
    }
}
struct Fors {
    at: Vec<(usize, usize, usize, String, String)>,
    text: String,
}
impl<'a> Visit<'a> for Fors {
    fn visit_expr_for_loop(&mut self, l: &'a syn::ExprForLoop) {
        let (p, e) = (l.pat.span().byte_range(), l.expr.span().byte_range());
        self.at.push((p.start, e.end, l.body.brace_token.span.open().byte_range().end, self.text[p].to_string(), self.text[e].to_string()));
        visit::visit_expr_for_loop(self, l);
    }
    fn visit_expr_while(&mut self, l: &'a syn::ExprWhile) {
        self.at.push((0, 0, 0, String::new(), String::new()));
        visit::visit_expr_while(self, l);
    }
    fn visit_expr_loop(&mut self, l: &'a syn::ExprLoop) {
        self.at.push((0, 0, 0, String::new(), String::new()));
        visit::visit_expr_loop(self, l);
    }
}

/// the same function, in forms the verifier accepts: it does the same thing step by step
fn reshape<'a>(f: Found<'a>, sp: &FnSpec, path: &str) -> Result<Found<'a>, String> {
    let mut f = f;
    loop {
        let (src, block) = match &f {
            Found::Fn(s, f) => (*s, &*f.block),
            Found::Method(s, _, f) => (*s, &f.block),
        };
        let mut edits = vec![];
        if sp.splitor {
            let mut v = OrArms { edits: vec![], text: src.text.clone() };
            v.visit_block(block);
            edits = v.edits;
        }
        if edits.is_empty() {
            let mut v = Fors { at: vec![], text: src.text.clone() };
            v.visit_block(block);
            for k in &sp.itermut {
                let (a, b, o, pat, expr) = v.at.get(*k).cloned().ok_or(format!("anchor lost: {path} has no loop {k}"))?;
                if b == 0 {
                    return Err(format!("anchor lost: loop {k} of {path} is not a for loop"));
                }
                let new = format!("__m{k} in 0..__n{k}");
                if src.text[a..b].starts_with(&format!("__m{k} ")) {
                    continue;
                }
                let st = src.text[..a].rfind("for").unwrap_or(a);
                edits.push((st, st, format!("let __n{k} = {expr}.len(); ")));
                edits.push((a, b, new));
                edits.push((o, o, format!(" let {pat} = {expr}.get_mut(__m{k}).unwrap(); ")));
            }
        }
        if edits.is_empty() {
            return Ok(f);
        }
        edits.sort();
        let mut text = src.text.clone();
        for (a, b, t) in edits.into_iter().rev() {
            text.replace_range(a..b, &t);
        }
        let ast = syn::parse_file(&text).map_err(|e| format!("{path}: {e}"))?;
        let new: &'static Src = Box::leak(Box::new(Src { rel: src.rel.clone(), text, ast }));
        let mut v = find_in(new, path);
        if v.len() != 1 {
            return Err(format!("anchor lost: {path}"));
        }
        f = v.remove(0);
    }
}
