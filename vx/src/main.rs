//! vx: mechanical extraction of named items from /repo's current source into one Verus file.
//!
//! Usage: vx REPO UNIT_FILE OUT_RS OUT_MAP_JSON
//!
//! A unit file says which items are taken (`//@item`, `//@fn`) and what specification text is spliced
//! where (contracts, loop invariants, ghost code).  Executable text is never written here: it is sliced
//! out of /repo's files, and only the following edits are made to it (each counted in the map file):
//!   strip     attributes, doc comments, visibility, lifetimes named in `droplife`
//!   debug     debug_assert!/assert!/assert_eq!/panic!/format!/println! -> trusted prelude helpers (see macros())
//!   enumerate `for (i, x) in E.enumerate()` -> counter incremented at the top of the body
//!   zip       (//@opt zips) `for PAT in A.iter().zip(B.iter_mut())...` -> a loop over positions up to the shortest length
//!   splice    ghost text from the unit file
//!   rewrite   per-function textual rules `//@rewrite A ==> B` given in the unit file (listed in the evidence)
//! Exit 3 with a JSON reason on stdout when an item or an anchor is not found (never an alarm).
use proc_macro2::{LineColumn, Span};
use std::collections::BTreeMap;
use std::fs;
use syn::spanned::Spanned;
use syn::visit::Visit;

fn die(kind: &str, msg: String) -> ! {
    println!("{}", serde_json::json!({"status": kind, "reason": msg}));
    std::process::exit(3)
}

struct Src { text: String, lines: Vec<usize>, file: syn::File }
impl Src {
    fn load(p: &str) -> Src {
        let text = fs::read_to_string(p).unwrap_or_else(|e| die("missing-file", format!("{p}: {e}")));
        let mut lines = vec![0];
        for (i, b) in text.bytes().enumerate() { if b == b'\n' { lines.push(i + 1); } }
        let file = syn::parse_file(&text).unwrap_or_else(|e| die("parse-error", format!("{p}: {e}")));
        let s = Src { text, lines, file };
        match s.expand_simple_macros() { Some(text) => { let mut lines = vec![0]; for (i, b) in text.bytes().enumerate() { if b == b'\n' { lines.push(i + 1); } }
            match syn::parse_file(&text) { Ok(file) => Src { text, lines, file }, Err(_) => s } } None => s }
    }
    /// `NAME!(a, B);` in an impl or trait, for a one-armed macro_rules! of this file over identifiers: replaced by what it stands for
    fn expand_simple_macros(&self) -> Option<String> {
        use proc_macro2::TokenTree as T;
        let mut defs: Vec<(String, Vec<String>, String)> = vec![];
        for it in &self.file.items { if let syn::Item::Macro(m) = it { if let Some(id) = &m.ident {
            let ts: Vec<T> = m.mac.tokens.clone().into_iter().collect();
            if ts.len() < 4 || ts.len() > 5 { continue; }
            let (T::Group(pat), T::Group(body)) = (&ts[0], &ts[3]) else { continue };
            let mut params = vec![]; let mut ok = true;
            let pt: Vec<T> = pat.stream().into_iter().collect(); let mut i = 0;
            while i < pt.len() { match (&pt[i], pt.get(i + 1), pt.get(i + 2), pt.get(i + 3)) {
                (T::Punct(d), Some(T::Ident(n)), Some(T::Punct(c)), Some(T::Ident(k))) if d.as_char() == '$' && c.as_char() == ':' && k == "ident" => { params.push(n.to_string()); i += 4; if let Some(T::Punct(c)) = pt.get(i) { if c.as_char() == ',' { i += 1; } } }
                _ => { ok = false; break; } } }
            if !ok { continue; }
            let (a, b) = (self.off(body.span_open().end()), self.off(body.span_close().start()));
            let text = self.text[a..b].to_string();
            if text.contains("$(") { continue; }
            defs.push((id.to_string(), params, text));
        } } }
        if defs.is_empty() { return None; }
        let mut edits: Vec<(usize, usize, String)> = vec![];
        let mut one = |span: Span, mac: &syn::Macro| {
            let name = mac.path.segments.last().map(|x| x.ident.to_string()).unwrap_or_default();
            if let Some((_, params, text)) = defs.iter().find(|d| d.0 == name) {
                let args: Vec<String> = mac.tokens.clone().into_iter().filter_map(|t| if let T::Ident(i) = t { Some(i.to_string()) } else { None }).collect();
                if args.len() != params.len() { return; }
                let mut order: Vec<usize> = (0..params.len()).collect(); order.sort_by_key(|i| std::cmp::Reverse(params[*i].len()));
                let mut t = text.clone(); for i in order { t = t.replace(&format!("${}", params[i]), &args[i]); }
                let (a, b) = self.range(span); edits.push((a, b, t));
            } };
        for it in &self.file.items { match it {
            syn::Item::Impl(im) => for x in &im.items { if let syn::ImplItem::Macro(m) = x { one(m.span(), &m.mac); } },
            syn::Item::Trait(tr) => for x in &tr.items { if let syn::TraitItem::Macro(m) = x { one(m.span(), &m.mac); } },
            _ => {} } }
        if edits.is_empty() { return None; }
        edits.sort_by_key(|e| std::cmp::Reverse(e.0));
        let mut text = self.text.clone(); for (a, b, t) in edits { text.replace_range(a..b, &t); }
        Some(text)
    }
    fn off(&self, lc: LineColumn) -> usize {
        let s = self.lines[lc.line - 1];
        let line = &self.text[s..];
        s + line.char_indices().nth(lc.column).map(|x| x.0).unwrap_or(line.len())
    }
    fn range(&self, s: Span) -> (usize, usize) { (self.off(s.start()), self.off(s.end())) }
}

#[derive(Clone)]
struct Edit { at: usize, len: usize, prio: i32, text: String }

struct LoopInfo { kind: &'static str, start: usize, end: usize, expr_start: usize, expr_end: usize, pat: (usize, usize), body_open: usize, body_close: usize, has_label: bool, enum_pats: Option<(String, String, usize, usize)>, zip: Option<ZipInfo> }
/// `for PAT in A.iter().zip(B.iter_mut())..`: the counter's name, and for each leaf the pattern, the sequence, how it is taken, what is skipped
#[derive(Clone)]
struct ZipInfo { counter: Option<String>, leaves: Vec<(String, String, &'static str, Option<String>)> }
struct IfInfo { then_open: usize, then_close: usize, else_open: Option<usize>, start: usize, end: usize, cond: (usize, usize) }
struct LetInfo { name: String, end: usize, start: usize, set_init: Option<usize> }
struct ClosInfo { start: usize, in1: usize, out: usize, body: (usize, usize), is_block: bool }
struct MacInfo { name: String, start: usize, end: usize, args: Vec<(usize, usize)> }
struct ArmInfo { start: usize, body: (usize, usize), is_block: bool }
struct ChainInfo { names: String, links: Vec<(String, Vec<(usize, usize)>)>, recv: (usize, usize), end: usize }
/// `BASE[INDEX]`
struct IdxInfo { base: (usize, usize), idx: (usize, usize), end: usize, is_ref: bool }
struct CallInfo { name: String, start: usize, end: usize }

/// `&x` in a pattern: where, the name, the binding's scope, whether that scope is a block, whether it is a closure parameter
struct RefPat { lo: usize, hi: usize, name: String, scope: (usize, usize), block: bool, clos: bool }
struct Collect<'a> { s: &'a Src, loops: Vec<LoopInfo>, ifs: Vec<IfInfo>, lets: Vec<LetInfo>, clos: Vec<ClosInfo>, macs: Vec<MacInfo>, strip: Vec<(usize, usize)>, arms: Vec<ArmInfo>, calls: Vec<CallInfo>, refs: Vec<RefPat>, chains: Vec<ChainInfo>, conts: Vec<(usize, usize, usize, usize)>, idxs: Vec<IdxInfo> }
impl<'a> Collect<'a> {
    fn attrs(&mut self, a: &[syn::Attribute]) { for x in a { let r = self.s.range(x.span()); self.strip.push(r); } }
}
// `&x` inside a pattern: (range, x)
fn ref_pats(s: &Src, p: &syn::Pat, out: &mut Vec<(usize, usize, String)>) {
    match p {
        syn::Pat::Reference(r) => match &*r.pat { syn::Pat::Ident(i) if r.mutability.is_none() && i.by_ref.is_none() && i.subpat.is_none() => { let (a, b) = s.range(p.span()); out.push((a, b, s.text[s.range(i.span()).0..b].to_string())) } _ => {} },
        syn::Pat::Tuple(t) => for e in &t.elems { ref_pats(s, e, out) },
        syn::Pat::TupleStruct(t) => for e in &t.elems { ref_pats(s, e, out) },
        syn::Pat::Struct(t) => for e in &t.fields { ref_pats(s, &e.pat, out) },
        syn::Pat::Paren(t) => ref_pats(s, &t.pat, out),
        syn::Pat::Type(t) => ref_pats(s, &t.pat, out),
        _ => {}
    }
}
fn zip_info(s: &Src, pat: &syn::Pat, ex: &syn::Expr) -> Option<ZipInfo> {
    let txt = |sp: proc_macro2::Span| { let (a, b) = s.range(sp); s.text[a..b].to_string() };
    fn leaf(e: &syn::Expr, s: &Src) -> Option<(String, &'static str, Option<String>)> {
        let txt = |sp: proc_macro2::Span| { let (a, b) = s.range(sp); s.text[a..b].to_string() };
        match e {
            syn::Expr::MethodCall(m) if m.method == "iter" && m.args.is_empty() => Some((txt(m.receiver.span()), "ref", None)),
            syn::Expr::MethodCall(m) if m.method == "iter_mut" && m.args.is_empty() => Some((txt(m.receiver.span()), "mut", None)),
            syn::Expr::MethodCall(m) if m.method == "into_iter" && m.args.is_empty() => Some((txt(m.receiver.span()), "own", None)),
            syn::Expr::MethodCall(m) if m.method == "skip" && m.args.len() == 1 => { let (x, k, n) = leaf(&m.receiver, s)?; if n.is_some() || k != "ref" { return None; } Some((x, k, Some(txt(m.args[0].span())))) }
            syn::Expr::Reference(r) if r.mutability.is_none() => Some((txt(r.expr.span()), "ref", None)),
            syn::Expr::Path(_) => Some((txt(e.span()), "ref", None)),
            _ => None,
        }
    }
    fn walk(p: &syn::Pat, e: &syn::Expr, s: &Src, out: &mut Vec<(String, String, &'static str, Option<String>)>) -> Option<()> {
        let txt = |sp: proc_macro2::Span| { let (a, b) = s.range(sp); s.text[a..b].to_string() };
        if let syn::Expr::MethodCall(m) = e { if m.method == "zip" && m.args.len() == 1 {
            if let syn::Pat::Tuple(t) = p { if t.elems.len() == 2 { walk(&t.elems[0], &m.receiver, s, out)?; return walk(&t.elems[1], &m.args[0], s, out); } }
            return None;
        } }
        let (x, k, n) = leaf(e, s)?; out.push((txt(p.span()), x, k, n)); Some(())
    }
    let (mut counter, mut pat, mut ex) = (None, pat, ex);
    if let (syn::Expr::MethodCall(m), syn::Pat::Tuple(t)) = (ex, pat) { if m.method == "enumerate" && m.args.is_empty() && t.elems.len() == 2 { counter = Some(txt(t.elems[0].span())); pat = &t.elems[1]; ex = &m.receiver; } }
    match ex { syn::Expr::MethodCall(m) if m.method == "zip" => {} _ => return None }
    let mut leaves = vec![]; walk(pat, ex, s, &mut leaves)?;
    Some(ZipInfo { counter, leaves })
}
fn ref_name(n: &str) -> String { format!("vx_r_{}", n.trim_start_matches("mut ").trim()) }
fn pat_name(p: &syn::Pat) -> String {
    match p { syn::Pat::Ident(i) => i.ident.to_string(), syn::Pat::Type(t) => pat_name(&t.pat), _ => "_".into() }
}
impl<'a> Visit<'a> for Collect<'a> {
    fn visit_attribute(&mut self, a: &'a syn::Attribute) { let r = self.s.range(a.span()); self.strip.push(r); }
    fn visit_expr_for_loop(&mut self, e: &'a syn::ExprForLoop) {
        let (start, end) = self.s.range(e.span());
        let (es, ee) = self.s.range(e.expr.span());
        let (bo, bc) = self.s.range(e.body.span());
        let mut enum_pats = None;
        let mut rp = vec![]; ref_pats(self.s, &e.pat, &mut rp);
        for (a, b, n) in rp { self.refs.push(RefPat { lo: a, hi: b, name: n, scope: (bo, bc), block: true, clos: false }); }
        if let (syn::Expr::MethodCall(m), syn::Pat::Tuple(t)) = (&*e.expr, &*e.pat) {
            if m.method == "enumerate" && m.args.is_empty() && t.elems.len() == 2 {
                let (a0, a1) = self.s.range(t.elems[0].span()); let (b0, b1) = self.s.range(t.elems[1].span());
                let (_, recv_end) = self.s.range(m.receiver.span());
                enum_pats = Some((self.s.text[a0..a1].to_string(), self.s.text[b0..b1].to_string(), recv_end, ee));
            }
        }
        self.loops.push(LoopInfo { kind: "for", start, end, expr_start: es, expr_end: ee, pat: self.s.range(e.pat.span()), body_open: bo, body_close: bc - 1, has_label: e.label.is_some(), enum_pats, zip: zip_info(self.s, &e.pat, &e.expr) });
        for st in &e.body.stmts {
            if let syn::Stmt::Expr(syn::Expr::If(i), _) = st {
                if let (None, Some(syn::Stmt::Expr(syn::Expr::Continue(k), _))) = (&i.else_branch, i.then_branch.stmts.last()) {
                    if k.label.is_none() { let (a, b) = self.s.range(i.then_branch.stmts.last().unwrap().span()); self.conts.push((a, b, self.s.range(i.span()).1, bc - 1)); }
                }
            }
        }
        syn::visit::visit_expr_for_loop(self, e);
    }
    fn visit_expr_while(&mut self, e: &'a syn::ExprWhile) {
        let (start, end) = self.s.range(e.span()); let (bo, bc) = self.s.range(e.body.span()); let (es, ee) = self.s.range(e.cond.span());
        if let syn::Expr::Let(l) = &*e.cond { let mut rp = vec![]; ref_pats(self.s, &l.pat, &mut rp); for (a, b, n) in rp { self.refs.push(RefPat { lo: a, hi: b, name: n, scope: (bo, bc), block: true, clos: false }); } }
        let kind = if matches!(&*e.cond, syn::Expr::Let(_)) { "whilelet" } else { "while" };
        self.loops.push(LoopInfo { kind, start, end, expr_start: es, expr_end: ee, pat: (0, 0), body_open: bo, body_close: bc - 1, has_label: e.label.is_some(), enum_pats: None, zip: None });
        syn::visit::visit_expr_while(self, e);
    }
    fn visit_expr_loop(&mut self, e: &'a syn::ExprLoop) {
        let (start, end) = self.s.range(e.span()); let (bo, bc) = self.s.range(e.body.span());
        self.loops.push(LoopInfo { kind: "loop", start, end, expr_start: bo, expr_end: bo, pat: (0, 0), body_open: bo, body_close: bc - 1, has_label: e.label.is_some(), enum_pats: None, zip: None });
        syn::visit::visit_expr_loop(self, e);
    }
    fn visit_expr_if(&mut self, e: &'a syn::ExprIf) {
        let (start, end) = self.s.range(e.span()); let (bo, bc) = self.s.range(e.then_branch.span());
        if let syn::Expr::Let(l) = &*e.cond { let mut rp = vec![]; ref_pats(self.s, &l.pat, &mut rp); for (a, b, n) in rp { self.refs.push(RefPat { lo: a, hi: b, name: n, scope: (bo, bc), block: true, clos: false }); } }
        let eo = e.else_branch.as_ref().and_then(|(_, b)| if let syn::Expr::Block(b) = &**b { Some(self.s.range(b.span()).0) } else { None });
        self.ifs.push(IfInfo { then_open: bo, then_close: bc - 1, else_open: eo, start, end, cond: self.s.range(e.cond.span()) });
        syn::visit::visit_expr_if(self, e);
    }
    fn visit_local(&mut self, l: &'a syn::Local) {
        let (start, end) = self.s.range(l.span());
        // where the initialiser of a `let x: HashSet<..> = ..` ends
        let set_init = match (&l.pat, &l.init) { (syn::Pat::Type(t), Some(i)) => { let (a, b) = self.s.range(t.ty.span()); if self.s.text[a..b].starts_with("HashSet") { Some(self.s.range(i.expr.span()).1) } else { None } } _ => None };
        self.lets.push(LetInfo { name: pat_name(&l.pat), start, end, set_init });
        // `let (a, b) = ..`: also under the name `(a`
        if let syn::Pat::Tuple(t) = &l.pat { if let Some(p) = t.elems.first() { self.lets.push(LetInfo { name: format!("({}", pat_name(p)), start, end, set_init: None }); } }
        syn::visit::visit_local(self, l);
    }
    fn visit_expr_closure(&mut self, c: &'a syn::ExprClosure) {
        let (start, _) = self.s.range(c.span());
        let (in1, _) = self.s.range(c.or1_token.span()); let (_, out) = self.s.range(c.or2_token.span());
        let b = self.s.range(c.body.span());
        let mut rp = vec![]; for p in &c.inputs { ref_pats(self.s, p, &mut rp); }
        for (x, y, n) in rp { self.refs.push(RefPat { lo: x, hi: y, name: n, scope: b, block: matches!(&*c.body, syn::Expr::Block(_)), clos: true }); }
        self.clos.push(ClosInfo { start, in1: in1 + 1, out, body: b, is_block: matches!(&*c.body, syn::Expr::Block(_)) });
        syn::visit::visit_expr_closure(self, c);
    }
    fn visit_arm(&mut self, a: &'a syn::Arm) {
        let (start, _) = self.s.range(a.span()); let b = self.s.range(a.body.span());
        let mut rp = vec![]; ref_pats(self.s, &a.pat, &mut rp);
if a.guard.is_none() { for (x, y, n) in rp { self.refs.push(RefPat { lo: x, hi: y, name: n, scope: b, block: matches!(&*a.body, syn::Expr::Block(_)), clos: false }); } }
        self.arms.push(ArmInfo { start, body: b, is_block: matches!(&*a.body, syn::Expr::Block(_)) });
        syn::visit::visit_arm(self, a);
    }
    fn visit_expr_method_call(&mut self, m: &'a syn::ExprMethodCall) {
        let (start, end) = self.s.range(m.span());
        self.calls.push(CallInfo { name: m.method.to_string(), start, end });
        // the chain of method calls that ends here: R.m1(..).m2(..)
        let mut links = vec![]; let mut cur = m;
        loop {
            let args: Vec<(usize, usize)> = cur.args.iter().map(|a| self.s.range(a.span())).collect();
            links.insert(0, (cur.method.to_string(), args));
            let r = self.s.range(cur.receiver.span());
            self.chains.push(ChainInfo { names: links.iter().map(|l: &(String, Vec<(usize, usize)>)| l.0.clone()).collect::<Vec<_>>().join(","), links: links.clone(), recv: r, end });
            match &*cur.receiver { syn::Expr::MethodCall(x) => cur = x, _ => break }
        }
        syn::visit::visit_expr_method_call(self, m);
    }
    fn visit_expr_index(&mut self, x: &'a syn::ExprIndex) {
        self.idxs.push(IdxInfo { base: self.s.range(x.expr.span()), idx: self.s.range(x.index.span()), end: self.s.range(x.span()).1, is_ref: matches!(&*x.index, syn::Expr::Reference(_)) });
        syn::visit::visit_expr_index(self, x);
    }
    fn visit_expr_macro(&mut self, m: &'a syn::ExprMacro) { let r = self.s.range(m.span()); self.mac_v(&m.mac, r); }
    fn visit_stmt_macro(&mut self, m: &'a syn::StmtMacro) { for a in &m.attrs { self.visit_attribute(a); } let r = self.s.range(m.mac.span()); self.mac_v(&m.mac, r); }
}
impl<'a> Collect<'a> {
    fn mac_v(&mut self, m: &'a syn::Macro, full: (usize, usize)) {
        // parsed argument expressions have spans in the same file
        let name = m.path.segments.last().unwrap().ident.to_string();
        let mut args = vec![];
        let parse = syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated;
        if let Ok(p) = syn::parse::Parser::parse2(parse, m.tokens.clone()) {
            for e in p.iter() { args.push(self.s.range(e.span())); }
            // collect nested structure (closures, ifs) of the arguments
            let p: &'static _ = Box::leak(Box::new(p));
            let mut c = Collect { s: unsafe { std::mem::transmute::<&Src, &'static Src>(self.s) }, loops: vec![], ifs: vec![], lets: vec![], clos: vec![], macs: vec![], strip: vec![], arms: vec![], calls: vec![], refs: vec![], chains: vec![], conts: vec![], idxs: vec![] };
            for e in p.iter() { c.visit_expr(e); }
            self.loops.append(&mut c.loops); self.ifs.append(&mut c.ifs); self.clos.append(&mut c.clos); self.macs.append(&mut c.macs); self.calls.append(&mut c.calls); self.refs.append(&mut c.refs); self.chains.append(&mut c.chains); self.idxs.append(&mut c.idxs);
        }
        self.macs.push(MacInfo { name, start: full.0, end: full.1, args });
    }
}

enum Found<'a> { Free(&'a syn::ItemFn), Method(&'a syn::ItemImpl, &'a syn::ImplItemFn), Other(&'a syn::Item), TraitM(&'a syn::ItemTrait, &'a syn::TraitItemFn) }

fn ty_ident(t: &syn::Type) -> String {
    match t { syn::Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(), syn::Type::Reference(r) => ty_ident(&r.elem), syn::Type::Slice(s) => format!("[{}]", ty_ident(&s.elem)), _ => "?".into() }
}
fn norm(s: &str) -> String { s.chars().filter(|c| !c.is_whitespace()).collect() }

fn items<'a>(its: &'a [syn::Item], modpath: &[&str]) -> Option<&'a [syn::Item]> {
    if modpath.is_empty() { return Some(its); }
    for i in its { if let syn::Item::Mod(m) = i { if m.ident == modpath[0] { if let Some((_, c)) = &m.content { return items(c, &modpath[1..]); } } } }
    None
}

/// path: `[mod::]* (name | Type::name | Type<Trait>::name)`, kinds: fn/struct/enum/const/type/trait
fn find<'a>(s: &'a Src, kind: &str, path: &str) -> Option<Found<'a>> {
    let path = path.trim();
    // optional "impl-header-substring" filter: `Type::name @ substring`
    let (path, filt) = match path.split_once(" @ ") { Some((a, b)) => (a.trim(), Some(norm(b))), None => (path, None) };
    let parts: Vec<&str> = path.split("::").collect();
    let name = *parts.last().unwrap();
    for split in (0..parts.len()).rev() {
        let its = match items(&s.file.items, &parts[..split]) { Some(x) => x, None => continue };
        let rest = &parts[split..];
        if rest.len() == 1 {
            for i in its {
                match (kind, i) {
                    ("fn", syn::Item::Fn(f)) if f.sig.ident == name => return Some(Found::Free(f)),
                    ("struct", syn::Item::Struct(x)) if x.ident == name => return Some(Found::Other(i)),
                    ("enum", syn::Item::Enum(x)) if x.ident == name => return Some(Found::Other(i)),
                    ("const", syn::Item::Const(x)) if x.ident == name => return Some(Found::Other(i)),
                    ("type", syn::Item::Type(x)) if x.ident == name => return Some(Found::Other(i)),
                    ("trait", syn::Item::Trait(x)) if x.ident == name => return Some(Found::Other(i)),
                    _ => {}
                }
            }
        } else if rest.len() == 2 && kind == "fn" {
            for i in its {
                if let syn::Item::Impl(im) = i {
                    if ty_ident(&im.self_ty) != rest[0] { continue; }
                    if let Some(f) = &filt {
                        let (a, _) = s.range(im.impl_token.span()); let b = s.range(im.brace_token.span.open()).0;
                        if !norm(&s.text[a..b]).contains(f.as_str()) { continue; }
                    }
                    for m in &im.items { if let syn::ImplItem::Fn(f) = m { if f.sig.ident == name { return Some(Found::Method(im, f)); } } }
                }
                if let syn::Item::Trait(t) = i { if t.ident == rest[0] { for m in &t.items { if let syn::TraitItem::Fn(f) = m { if f.sig.ident == name { return Some(Found::TraitM(t, f)); } } } } }
            }
        }
    }
    None
}

fn apply(s: &Src, lo: usize, hi: usize, edits: &mut Vec<Edit>) -> String {
    edits.retain(|e| e.at >= lo && e.at + e.len <= hi);
    edits.sort_by(|a, b| a.at.cmp(&b.at).then(a.prio.cmp(&b.prio)));
    // nested replacements: a replacement swallows edits strictly inside it, unless it is marked as a pure deletion pair
    let mut out = String::new(); let mut p = lo;
    for e in edits.iter() {
        if e.at < p { if e.len == 0 || e.at + e.len <= p { continue; } die("overlap", format!("overlapping edits near {:?}", &s.text[e.at..(e.at + 20).min(s.text.len())])); }
        out.push_str(&s.text[p..e.at]); out.push_str(&e.text); p = e.at + e.len;
    }
    out.push_str(&s.text[p..hi]);
    out
}

/// replaces every occurrence of `pat` (compared without regard to white space) by `rep`
fn ws_replace(text: &str, pat: &str, rep: &str) -> Option<String> {
    let p: Vec<char> = pat.chars().filter(|c| !c.is_whitespace()).collect();
    let t: Vec<(usize, char)> = text.char_indices().filter(|(_, c)| !c.is_whitespace()).collect();
    if p.is_empty() { return None; }
    let mut out = String::new(); let mut last = 0; let mut i = 0; let mut hit = false;
    while i + p.len() <= t.len() {
        if (0..p.len()).all(|k| t[i + k].1 == p[k]) {
            let (a, e) = (t[i].0, t[i + p.len() - 1]);
            out.push_str(&text[last..a]); out.push_str(rep); last = e.0 + e.1.len_utf8(); i += p.len(); hit = true;
        } else { i += 1; }
    }
    out.push_str(&text[last..]);
    if hit { Some(out) } else { None }
}

#[derive(Default, Clone)]
struct FnUnit { path: String, rename: Option<String>, ret: Option<String>, spec: String, attrs: String, loops: BTreeMap<usize, String>, iters: BTreeMap<usize, String>, at: Vec<(String, String)>, rewrites: Vec<(String, String)>, kinds: Option<Vec<String>>, closures: BTreeMap<usize, (String, String, String)>, header: Option<String>, opts: Vec<String>, external: bool, sig: Option<String>, noenum: bool }

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() != 5 { eprintln!("usage: vx REPO UNIT OUT MAP"); std::process::exit(2); }
    let (repo, unit, outp, mapp) = (&a[1], &a[2], &a[3], &a[4]);
    let udir = std::path::Path::new(unit).parent().unwrap().to_path_buf();
    fn expand(udir: &std::path::Path, text: &str, out: &mut Vec<String>) {
        for l in text.lines() {
            if let Some(f) = l.trim().strip_prefix("//@include ") {
                let p = udir.join(f.trim());
                let t = fs::read_to_string(&p).unwrap_or_else(|e| die("unit-error", format!("{}: {e}", p.display())));
                expand(udir, &t, out);
            } else { out.push(l.to_string()); }
        }
    }
    let mut ulines = vec![];
    expand(&udir, &fs::read_to_string(unit).unwrap_or_else(|e| die("unit-error", format!("{unit}: {e}"))), &mut ulines);

    let mut srcs: BTreeMap<String, Src> = BTreeMap::new();
    let mut head = String::new(); // outside verus!{}
    let mut body = String::new();
    let mut map = vec![]; // (out function name, repo path, file)
    let mut stats: BTreeMap<String, usize> = BTreeMap::new();
    let mut rewrites_used: Vec<String> = vec![];
    let mut cur_file = String::new();
    let canary = std::env::var("VX_CANARY").is_ok();
    let mut canaries: Vec<serde_json::Value> = vec![];
    let mut i = 0;
    macro_rules! src { ($f:expr) => {{ let f: String = $f.clone(); if !srcs.contains_key(&f) { srcs.insert(f.clone(), Src::load(&format!("{repo}/{f}"))); } &srcs[&f] }} }
    while i < ulines.len() {
        let l = ulines[i].clone(); let t = l.trim();
        if let Some(f) = t.strip_prefix("//@file ") { cur_file = f.trim().to_string(); i += 1; continue; }
        if t == "//@head" { i += 1; while ulines[i].trim() != "//@endhead" { head.push_str(&ulines[i]); head.push('\n'); i += 1; } i += 1; continue; }
        if let Some(x) = t.strip_prefix("//@item ") {
            // //@item struct Name [derive=A,B] [rewrite...]
            let mut w = x.split_whitespace(); let kind = w.next().unwrap().to_string(); let name = w.next().unwrap().to_string();
            let mut pre = String::new(); let mut rws: Vec<(String, String)> = vec![]; let mut keepattr = false; let mut keepvis = false;
            i += 1;
            while i < ulines.len() && ulines[i].trim().starts_with("//@+") {
                let t = ulines[i].trim();
                if let Some(p) = t.strip_prefix("//@+pre ") { pre.push_str(p); pre.push('\n'); }
                else if let Some(p) = t.strip_prefix("//@+rewrite ") { let (x, y) = p.split_once("==>").unwrap(); rws.push((x.trim().into(), y.trim().into())); }
                else if t == "//@+keepattr" { keepattr = true; }
                else if t == "//@+keepvis" { keepvis = true; }
                i += 1;
            }
            let s = src!(cur_file);
            let Some(Found::Other(it)) = find(s, &kind, &name) else { die("item-missing", format!("{kind} {name} in {cur_file}")) };
            let (lo, hi) = s.range(it.span());
            let mut edits = vec![];
            struct Strip<'a> { s: &'a Src, r: Vec<(usize, usize)>, keepattr: bool, keepvis: bool }
            impl<'a, 'b> Visit<'b> for Strip<'a> {
                fn visit_attribute(&mut self, a: &'b syn::Attribute) { if !self.keepattr { let r = self.s.range(a.span()); self.r.push(r); } }
                fn visit_visibility(&mut self, v: &'b syn::Visibility) { if !self.keepvis && !matches!(v, syn::Visibility::Inherited) { let r = self.s.range(v.span()); self.r.push(r); } }
            }
            let mut st = Strip { s, r: vec![], keepattr, keepvis }; st.visit_item(it);
            for (x, y) in st.r { edits.push(Edit { at: x, len: y - x, prio: 0, text: String::new() }); *stats.entry("strip".into()).or_default() += 1; }
            let mut text = apply(s, lo, hi, &mut edits);
            for (x, y) in rws { if text.contains(&x) { text = text.replace(&x, &y); rewrites_used.push(format!("{name}: {x} ==> {y}")); } }
            body.push_str(&format!("// ---- {kind} {name} from {cur_file}\n{pre}{}\n", text.trim_start()));
            map.push(serde_json::json!({"item": format!("{kind} {name}"), "file": cur_file}));
            continue;
        }
        if let Some(x) = t.strip_prefix("//@fn ") {
            let mut u = FnUnit { path: x.trim().to_string(), ..Default::default() };
            i += 1;
            #[derive(Clone)] enum Dst { None, Spec, Loop(usize), At(String), Clos(usize), Attr }
            let mut dst = Dst::None;
            loop {
                if i >= ulines.len() { die("unit-error", format!("unterminated //@fn {}", u.path)); }
                let l = ulines[i].clone(); let t = l.trim().to_string(); i += 1;
                if t == "//@endfn" { break; }
                if let Some(d) = t.strip_prefix("//@") {
                    let (cmd, arg) = d.split_once(' ').unwrap_or((d, "")); let arg = arg.trim();
                    match cmd {
                        "ret" => u.ret = Some(arg.to_string()),
                        "rename" => u.rename = Some(arg.to_string()),
                        "header" => u.header = Some(arg.to_string()),
                        "sig" => u.sig = Some(arg.to_string()),
                        "kinds" => u.kinds = Some(arg.split(',').map(|x| x.trim().to_string()).filter(|x| !x.is_empty()).collect()),
                        "noenum" => u.noenum = true,
                        "spec" => dst = Dst::Spec,
                        "attrs" => dst = Dst::Attr,
                        "loop" => { let mut w = arg.split_whitespace(); let n: usize = w.next().unwrap().parse().unwrap(); if let Some(it) = w.next() { u.iters.insert(n, it.to_string()); } u.loops.entry(n).or_default(); dst = Dst::Loop(n); }
                        "at" => { u.at.push((arg.to_string(), String::new())); dst = Dst::At(arg.to_string()); }
                        "closure" => { // //@closure K | params | ret
                            let w: Vec<&str> = arg.split('|').map(|x| x.trim()).collect();
                            let n: usize = w[0].parse().unwrap(); u.closures.insert(n, (w[1].to_string(), w[2].to_string(), String::new())); dst = Dst::Clos(n); }
                        "rewrite" => { let (x, y) = arg.split_once("==>").unwrap(); u.rewrites.push((x.trim().into(), y.trim().into())); dst = Dst::None; }
                        "opt" => u.opts.push(arg.to_string()),
                        "external" => u.external = true,
                        _ => die("unit-error", format!("unknown directive {t}")),
                    }
                    continue;
                }
                match &dst {
                    Dst::Spec => { u.spec.push_str(&l); u.spec.push('\n'); }
                    Dst::Attr => { u.attrs.push_str(&l); u.attrs.push('\n'); }
                    Dst::Loop(n) => { let e = u.loops.get_mut(n).unwrap(); e.push_str(&l); e.push('\n'); }
                    Dst::At(_) => { let e = u.at.last_mut().unwrap(); e.1.push_str(&l); e.1.push('\n'); }
                    Dst::Clos(n) => { let e = u.closures.get_mut(n).unwrap(); e.2.push_str(&l); e.2.push('\n'); }
                    Dst::None => if !t.is_empty() { die("unit-error", format!("stray line in fn {}: {t}", u.path)) },
                }
            }
            let s = src!(cur_file);
            let (sig, block, imp, tr, vis): (&syn::Signature, &syn::Block, Option<&syn::ItemImpl>, Option<&syn::ItemTrait>, Option<&syn::Visibility>) = match find(s, "fn", &u.path) {
                Some(Found::Free(f)) => (&f.sig, &f.block, None, None, Some(&f.vis)),
                Some(Found::Method(im, f)) => (&f.sig, &f.block, Some(im), None, Some(&f.vis)),
                Some(Found::TraitM(t, f)) => match &f.default { Some(b) => (&f.sig, b, None, Some(t), None), None => die("item-missing", format!("trait fn {} has no body", u.path)) },
                _ => die("item-missing", format!("fn {} in {cur_file}", u.path)),
            };
            let _ = vis;
            let (lo, _) = s.range(sig.span()); let (bo, bhi) = s.range(block.span()); let bc = bhi - 1;
            let mut c = Collect { s, loops: vec![], ifs: vec![], lets: vec![], clos: vec![], macs: vec![], strip: vec![], arms: vec![], calls: vec![], refs: vec![], chains: vec![], conts: vec![], idxs: vec![] };
            c.visit_block(block);
            c.loops.sort_by_key(|l| l.start); c.ifs.sort_by_key(|l| l.start); c.clos.sort_by_key(|l| l.start); c.macs.sort_by_key(|l| l.start); c.arms.sort_by_key(|l| l.start);
            c.calls.sort_by_key(|l| l.end);
            let kinds: Vec<String> = c.loops.iter().map(|l| l.kind.to_string()).collect();
            if let Some(k) = &u.kinds { if *k != kinds { die("anchor-lost", format!("{}: loop structure changed: expected {:?}, found {:?}", u.path, k, kinds)); } }
            let mut edits: Vec<Edit> = vec![];
            let ins = |edits: &mut Vec<Edit>, at: usize, prio: i32, text: &str| edits.push(Edit { at, len: 0, prio, text: text.to_string() });
            for (x, y) in &c.strip { edits.push(Edit { at: *x, len: y - x, prio: 0, text: String::new() }); *stats.entry("strip".into()).or_default() += 1; }
            // macros
            for m in &c.macs {
                let arg = |k: usize| s.text[m.args[k].0..m.args[k].1].to_string();
                let rep = match m.name.as_str() {
                    "debug_assert" | "assert" => Some(("vx_assert(".to_string(), 1)),
                    "assert_eq" | "debug_assert_eq" => Some(("EQ".to_string(), 2)),
                    "assert_ne" | "debug_assert_ne" => Some(("NE".to_string(), 2)),
                    "panic" | "unreachable" | "unimplemented" | "todo" => { edits.push(Edit { at: m.start, len: m.end - m.start, prio: 0, text: "vx_panic()".into() }); *stats.entry("panic-macro".into()).or_default() += 1; None }
                    "format" => { edits.push(Edit { at: m.start, len: m.end - m.start, prio: 0, text: "vx_fmt()".into() }); *stats.entry("format-macro".into()).or_default() += 1; None }
                    "println" | "print" | "eprintln" => { edits.push(Edit { at: m.start, len: m.end - m.start, prio: 0, text: "vx_print()".into() }); *stats.entry("print-macro".into()).or_default() += 1; None }
                    _ => None,
                };
                if let Some((r, n)) = rep {
                    if m.args.len() < n { die("unsupported", format!("macro {} with {} args", m.name, m.args.len())); }
                    *stats.entry("assert-macro".into()).or_default() += 1;
                    // keep the argument text in place (so nested edits apply); drop the message
                    let last = m.args[n - 1].1;
                    let pre = match r.as_str() { "EQ" | "NE" => "vx_assert((", _ => "vx_assert(" };
                    edits.push(Edit { at: m.start, len: m.args[0].0 - m.start, prio: 0, text: pre.into() });
                    if n == 2 { let op = if r == "EQ" { ") == (" } else { ") != (" }; edits.push(Edit { at: m.args[0].1, len: m.args[1].0 - m.args[0].1, prio: 0, text: op.into() }); edits.push(Edit { at: last, len: m.end - last, prio: 0, text: "))".into() }); }
                    else { edits.push(Edit { at: last, len: m.end - last, prio: 0, text: ")".into() }); }
                    let _ = arg;
                }
            }
            // `&x` patterns become `vx_r_x` with `let x = *vx_r_x;` at the start of the scope (x is Copy there)
            for r in &c.refs {
                *stats.entry("ref-pattern".into()).or_default() += 1;
                let given = r.clos && u.closures.iter().any(|(k, (p, _, _))| p != "=" && c.clos.get(*k).map_or(false, |cl| cl.in1 <= r.lo && r.hi <= cl.out));
                let zips = u.opts.iter().any(|o| o == "zips"); let in_enum = c.loops.iter().any(|l| (!u.noenum && l.enum_pats.is_some() || zips && l.zip.is_some()) && l.pat.0 <= r.lo && r.hi <= l.pat.1);
                let b = format!(" let {} = *{};", r.name, ref_name(&r.name));
                if !given && !in_enum { edits.push(Edit { at: r.lo, len: r.hi - r.lo, prio: 0, text: ref_name(&r.name) }); }
                if r.block { ins(&mut edits, r.scope.0 + 1, -3, &b); } else { ins(&mut edits, r.scope.0, 20, &format!("{{{b} ")); ins(&mut edits, r.scope.1, 30, " }"); }
            }
            // iterator chains named by //@opt chain a,b,c become calls of the function vx_a_b_c of the unit
            let wanted: Vec<String> = u.opts.iter().filter_map(|o| o.strip_prefix("chain ").map(|x| x.trim().to_string())).collect();
            for ch in &c.chains {
                if !wanted.contains(&ch.names) || c.chains.iter().any(|o| (o.recv == ch.recv && o.end > ch.end || o.end == ch.end && o.recv.0 == ch.recv.0 && o.recv.1 < ch.recv.1) && wanted.contains(&o.names)) { continue; }
                *stats.entry("iterator-chain".into()).or_default() += 1;
                let by = if ch.names.starts_with("entry,") { "&mut " } else if ch.names.starts_with("keys,") || ch.names.starts_with("values,") { "&" } else { "" };
                let set = if u.opts.iter().any(|o| o == "setchains") && c.lets.iter().any(|l| l.set_init == Some(ch.end)) { "_set" } else { "" };
                ins(&mut edits, ch.recv.0, -30, &format!("vx_{}{set}({by}", ch.names.replace(',', "_")));
                let mut pos = ch.recv.1; let mut lead = if ch.names == "iter" || ch.names.starts_with("iter,") { ".vx_slice()" } else { "" };
                for (_, args) in &ch.links {
                    if let (Some(f), Some(l)) = (args.first(), args.last()) {
                        edits.push(Edit { at: pos, len: f.0 - pos, prio: 100, text: format!("{lead}, ") }); lead = ""; pos = l.1;
                    }
                }
                edits.push(Edit { at: pos, len: ch.end - pos, prio: 100, text: format!("{lead})") });
            }
            // M[&k] reads a map: `(*M.vx_at(&k))`; also M[k] for the receivers named by //@opt mapindex M
            let maps: Vec<String> = u.opts.iter().filter_map(|o| o.strip_prefix("mapindex ")).flat_map(|x| x.split(',').map(|y| norm(y)).collect::<Vec<_>>()).collect();
            for x in &c.idxs {
                if !(x.is_ref || maps.contains(&norm(&s.text[x.base.0..x.base.1]))) { continue; }
                *stats.entry("map-index".into()).or_default() += 1;
                ins(&mut edits, x.base.0, -31, "(*");
                edits.push(Edit { at: x.base.1, len: x.idx.0 - x.base.1, prio: 0, text: ".vx_at(".into() });
                edits.push(Edit { at: x.idx.1, len: x.end - x.idx.1, prio: 0, text: "))".into() });
            }
            // //@opt iterover K: the K-th loop runs over a set or map by reference (`for x in e`, `for x in &e`): spelled `e.iter()`
            for o in u.opts.iter().filter_map(|o| o.strip_prefix("iterover ")) {
                let Some(l) = o.trim().parse::<usize>().ok().and_then(|k| c.loops.get(k)) else { continue };
                let e = s.text[l.expr_start..l.expr_end].trim().trim_start_matches('&');
                if l.kind == "for" && e.chars().all(|ch| ch.is_alphanumeric() || ch == '_' || ch == '.') { *stats.entry("set-iteration".into()).or_default() += 1; ins(&mut edits, l.expr_end, -1, ".iter()"); if s.text[l.expr_start..].starts_with('&') { edits.push(Edit { at: l.expr_start, len: 1, prio: 0, text: String::new() }); } }
            }
            // `if c { ..; continue; } rest` in the body of a for loop is `if c { ..; } else { rest }`
            let ranged = |k: usize| u.opts.iter().any(|o| *o == format!("rangewhile {k}"));
            for (a, b, ie, bc) in &c.conts {
                if c.loops.iter().enumerate().any(|(k, l)| l.body_close == *bc && ranged(k)) { continue; }
                *stats.entry("continue".into()).or_default() += 1;
                edits.push(Edit { at: *a, len: b - a, prio: 0, text: String::new() });
                ins(&mut edits, *ie, 5, " else {"); ins(&mut edits, *bc, -5, " }");
            }
            // loops
            for (k, l) in c.loops.iter().enumerate() {
                let zip = if u.opts.iter().any(|o| o == "zips") { l.zip.as_ref() } else { None };
                // a zipped loop runs by position up to the shortest length
                if let Some(z) = zip {
                    *stats.entry("zip".into()).or_default() += 1;
                    if l.has_label { die("unsupported", format!("{}: labelled zip loop", u.path)); }
                    let (mut pre, mut lets, mut n) = (String::new(), String::new(), String::new());
                    for (j, (p, x, kind, skip)) in z.leaves.iter().enumerate() {
                        let v = format!("vx_z{k}_{j}");
                        let p = match c.refs.iter().find(|r| r.lo >= l.pat.0 && r.hi <= l.pat.1 && s.text[r.lo..r.hi] == *p) { Some(r) => ref_name(&r.name), None => p.clone() };
                        match (*kind, skip) {
                            ("ref", None) => { pre += &format!("let {v} = {x}.vx_slice(); "); if p != "_" { lets += &format!(" let {p} = &{v}[vx_z{k}];"); } let m = format!("{v}.len()"); n = if n.is_empty() { m } else { format!("vx_min({n}, {m})") }; }
                            ("ref", Some(d)) => { pre += &format!("let {v} = {x}.vx_slice(); "); if p != "_" { lets += &format!(" let {p} = &{v}[vx_z{k} + {d}];"); } let m = format!("vx_less({v}.len(), {d})"); n = if n.is_empty() { m } else { format!("vx_min({n}, {m})") }; }
                            (_, None) => { let how = if *kind == "mut" { format!("&mut {x}[vx_z{k}]") } else { format!("vx_take(&mut {x}, vx_z{k})") }; lets += &format!(" let {p} = {how};"); let m = format!("{x}.len()"); n = if n.is_empty() { m } else { format!("vx_min({n}, {m})") }; }
                            _ => die("unsupported", format!("{}: zip", u.path)),
                        }
                    }
                    if let Some(cn) = &z.counter { if cn != "_" { lets = format!(" let {cn} = vx_z{k};{lets}"); } }
                    ins(&mut edits, l.start, 5, &format!("{pre}let vx_z{k}_n = {n}; "));
                    edits.push(Edit { at: l.pat.0, len: l.pat.1 - l.pat.0, prio: 0, text: format!("vx_z{k}") });
                    edits.push(Edit { at: l.expr_start, len: l.expr_end - l.expr_start, prio: 0, text: format!("0..vx_z{k}_n") });
                    ins(&mut edits, l.body_open + 1, -6, &lets);
                }
                if let (Some((ip, xp, recv_end, ee)), false, true) = (&l.enum_pats, u.noenum, zip.is_none()) {
                    *stats.entry("enumerate".into()).or_default() += 1;
                    ins(&mut edits, l.start, 5, &format!("let mut vx_i{k}: usize = 0; "));
                    let xp = if let Some(r) = c.refs.iter().find(|r| r.lo >= l.pat.0 && r.hi <= l.pat.1 && s.text[r.lo..r.hi] == **xp) { ref_name(&r.name) } else { xp.clone() };
                    edits.push(Edit { at: l.pat.0, len: l.pat.1 - l.pat.0, prio: 0, text: xp });
                    edits.push(Edit { at: *recv_end, len: ee - recv_end, prio: 0, text: String::new() });
                    let b = if ip == "_" { String::new() } else { format!(" let {ip} = vx_i{k};") };
                    ins(&mut edits, l.body_open + 1, -5, &format!("{b} vx_i{k} = vx_i{k} + 1;"));
                    if l.has_label { die("unsupported", format!("{}: labelled enumerate loop", u.path)); }
                }
                // `for x in e.iter_mut()`, `for x in &mut e`: by position, `for k in 0..e.len() { let x = &mut e[k]; .. }`
                let ex = s.text[l.expr_start..l.expr_end].trim();
                let recv = ex.strip_suffix(".iter_mut()").or_else(|| ex.strip_prefix("&mut ")).map(|e| e.trim().to_string());
                let by_iter = u.iters.contains_key(&k) && u.loops.get(&k).is_some_and(|t| t.contains("final(") || t.contains("*(#[trigger]") || t.contains("*it.seq()")); // the specification speaks of the references the iterator gives
                if let (Some(e), "for", true) = (recv.filter(|_| zip.is_none() && !by_iter), l.kind, s.text[l.pat.0..l.pat.1].chars().all(|ch| ch.is_alphanumeric() || ch == '_')) {
                    if e.chars().all(|ch| ch.is_alphanumeric() || ch == '_' || ch == '.') {
                        *stats.entry("iter-mut".into()).or_default() += 1;
                        let x = s.text[l.pat.0..l.pat.1].to_string();
                        edits.push(Edit { at: l.pat.0, len: l.pat.1 - l.pat.0, prio: 0, text: format!("vx_m{k}") });
                        edits.push(Edit { at: l.expr_start, len: l.expr_end - l.expr_start, prio: 0, text: format!("0..{e}.len()") });
                        ins(&mut edits, l.body_open + 1, 4, &format!(" let {x} = &mut {e}[vx_m{k}];"));
                    }
                }
                // `for (i, x) in e.iter_mut().enumerate().take(a).skip(b)`: by position, from b up to a or the length
                let flat: String = ex.chars().filter(|ch| !ch.is_whitespace()).collect();
                if let Some((e, a, b)) = flat.split_once(".iter_mut().enumerate().take(").and_then(|(e, r)| { let (a, b) = r.strip_suffix(')')?.rsplit_once(").skip(")?; Some((e.to_string(), a.to_string(), b.to_string())) }) {
                    let pat = s.text[l.pat.0..l.pat.1].trim().trim_start_matches('(').trim_end_matches(')').split(',').map(|x| x.trim().to_string()).collect::<Vec<_>>();
                    if l.kind == "for" && pat.len() == 2 && pat.iter().all(|x| x.chars().all(|ch| ch.is_alphanumeric() || ch == '_')) && e.chars().all(|ch| ch.is_alphanumeric() || ch == '_' || ch == '.') {
                        *stats.entry("iter-mut".into()).or_default() += 1;
                        edits.push(Edit { at: l.pat.0, len: l.pat.1 - l.pat.0, prio: 0, text: format!("vx_m{k}") });
                        edits.push(Edit { at: l.expr_start, len: l.expr_end - l.expr_start, prio: 0, text: format!("({b})..vx_upto({a}, {e}.len())") });
                        ins(&mut edits, l.body_open + 1, 4, &format!(" let {} = vx_m{k}; let {} = &mut {e}[vx_m{k}];", pat[0], pat[1]));
                    }
                }
                // //@opt rangewhile K: the K-th loop, `for i in a..b`, is `let mut w = a; while w < b { let i = w; w += 1; .. }` (b found once)
                if ranged(k) && l.kind == "for" {
                    let Some((a, b)) = ex.split_once("..").filter(|(_, b)| !b.starts_with('=') && !b.is_empty()) else { die("unsupported", format!("{}: loop {k} is not over a range", u.path)) };
                    if l.has_label { die("unsupported", format!("{}: labelled range loop", u.path)); }
                    *stats.entry("range-while".into()).or_default() += 1;
                    edits.push(Edit { at: l.start, len: l.body_open - l.start, prio: 0, text: format!("let vx_wn{k} = {b}; let mut vx_w{k} = {a}; while vx_w{k} < vx_wn{k} ") });
                    ins(&mut edits, l.body_open + 1, -10, &format!(" let {} = vx_w{k}; vx_w{k} = vx_w{k} + 1;", &s.text[l.pat.0..l.pat.1]));
                }
                if let Some(it) = u.iters.get(&k) { ins(&mut edits, l.expr_start, -40, &format!("{it}: ")); }
                if let Some(t) = u.loops.get(&k) { ins(&mut edits, l.body_open, 0, &format!("\n{t}")); *stats.entry("splice".into()).or_default() += 1; }
            }
            for k in u.loops.keys() { if *k >= c.loops.len() { die("anchor-lost", format!("{}: loop {k} not found", u.path)); } }
            for (k, (params, ret, spec)) in &u.closures {
                let Some(cl) = c.clos.get(*k) else { die("anchor-lost", format!("{}: closure {k} not found", u.path)) };
                *stats.entry("splice".into()).or_default() += 1;
                if params != "=" { edits.push(Edit { at: cl.in1, len: cl.out - 1 - cl.in1, prio: 0, text: params.clone() }); }
                ins(&mut edits, cl.out, 0, &format!(" -> ({ret})\n{spec}{}", if cl.is_block { " " } else { " { " }));
                if !cl.is_block { ins(&mut edits, cl.body.1, 50, " }"); }
            }
            for (pos, text) in &u.at {
                *stats.entry("splice".into()).or_default() += 1;
                let w: Vec<&str> = pos.split_whitespace().collect();
                let text = &format!("\n{text}");
                let lost = || -> ! { die("anchor-lost", format!("{}: anchor `{pos}` not found", u.path)) };
                match w[0] {
                    "body_start" => {
                        // `hide(..);` headers must stay first, before a canary
                        let (h, t): (Vec<&str>, Vec<&str>) = text.lines().partition(|l| l.trim_start().starts_with("hide("));
                        if !h.is_empty() { ins(&mut edits, bo + 1, -30, &format!("\n{}", h.join("\n"))); }
                        ins(&mut edits, bo + 1, 0, &t.join("\n"))
                    }
                    "body_end" => {
                        // before the tail expression, else before the closing brace
                        let at = match block.stmts.last() { Some(syn::Stmt::Expr(e, None)) if !matches!(e, syn::Expr::ForLoop(_) | syn::Expr::While(_)) => s.range(e.span()).0, Some(syn::Stmt::Macro(m)) if m.semi_token.is_none() => s.range(m.span()).0, _ => bc };
                        ins(&mut edits, at, -10, text)
                    }
                    "tail" => {
                        // the tail expression E becomes `let vx_r = E; <text> vx_r`
                        let at = match block.stmts.last() { Some(syn::Stmt::Expr(e, None)) => s.range(e.span()).0, Some(syn::Stmt::Macro(m)) if m.semi_token.is_none() => s.range(m.span()).0, _ => lost() };
                        *stats.entry("tail-binding".into()).or_default() += 1;
                        ins(&mut edits, at, -40, "let vx_r = "); ins(&mut edits, bc, 1, &format!(";\n{text}\nvx_r\n"));
                    }
                    "body_close" => ins(&mut edits, bc, 0, text),
                    "loop" => { let k: usize = w[1].parse().unwrap(); let Some(l) = c.loops.get(k) else { lost() }; match w[2] { "top" => ins(&mut edits, l.body_open + 1, -9, text), "start" => ins(&mut edits, l.body_open + 1, 0, text), "end" => ins(&mut edits, l.body_close, 0, text), _ => lost() } }
                    "before" if w[1] == "loop" => { let k: usize = w[2].parse().unwrap(); let Some(l) = c.loops.get(k) else { lost() }; ins(&mut edits, l.start, -10, text) }
                    "after" if w[1] == "loop" => { let k: usize = w[2].parse().unwrap(); let Some(l) = c.loops.get(k) else { lost() }; ins(&mut edits, l.end, 10, text) }
                    "after" if w[1] == "let" => { let k: usize = w.get(3).map(|x| x.parse().unwrap()).unwrap_or(0); let Some(l) = c.lets.iter().filter(|l| l.name == w[2]).nth(k) else { lost() }; ins(&mut edits, l.end, 10, text) }
                    "before" if w[1] == "let" => { let k: usize = w.get(3).map(|x| x.parse().unwrap()).unwrap_or(0); let Some(l) = c.lets.iter().filter(|l| l.name == w[2]).nth(k) else { lost() }; ins(&mut edits, l.start, -10, text) }
                    "before" if w[1] == "if" => { let k: usize = w[2].parse().unwrap(); let Some(l) = c.ifs.get(k) else { lost() }; ins(&mut edits, l.start, -10, text) }
                    "after" if w[1] == "if" => { let k: usize = w[2].parse().unwrap(); let Some(l) = c.ifs.get(k) else { lost() }; ins(&mut edits, l.end, 10, text) }
                    "if" => { let k: usize = w[1].parse().unwrap(); let Some(l) = c.ifs.get(k) else { lost() }; let _ = l.cond; match w[2] { "then" => ins(&mut edits, l.then_open + 1, 0, text), "thenend" => ins(&mut edits, l.then_close, 0, text), "else" => { let Some(e) = l.else_open else { lost() }; ins(&mut edits, e + 1, 0, text) }, _ => lost() } }
                    "arm" => { let k: usize = w[1].parse().unwrap(); let Some(l) = c.arms.get(k) else { lost() }; if l.is_block { ins(&mut edits, l.body.0 + 1, 0, text) } else { ins(&mut edits, l.body.0, -10, &format!("{{ {text} ")); ins(&mut edits, l.body.1, 40, " }"); } }
                    // before/after the statement containing the k-th call of method NAME
                    "before" | "after" if w[1] == "call" => {
                        let k: usize = w.get(3).map(|x| x.parse().unwrap()).unwrap_or(0);
                        let Some(cl) = c.calls.iter().filter(|x| x.name == w[2]).nth(k) else { lost() };
                        struct Stm<'x> { s: &'x Src, at: usize, best: Option<(usize, usize)> }
                        impl<'x, 'b> Visit<'b> for Stm<'x> { fn visit_stmt(&mut self, st: &'b syn::Stmt) { let (a, b) = self.s.range(st.span()); if a <= self.at && self.at < b { self.best = Some((a, b)); } syn::visit::visit_stmt(self, st); } }
                        let mut f = Stm { s, at: cl.end - 1, best: None }; f.visit_block(block); let _ = cl.start;
                        let Some((a, b)) = f.best else { lost() };
                        if w[0] == "before" { ins(&mut edits, a, -10, text) } else { ins(&mut edits, b, 10, text) }
                    }
                    "before" | "after" if w[1] == "stmt" => { let k: i64 = w[2].parse().unwrap(); let n = block.stmts.len() as i64; let k = if k < 0 { n + k } else { k }; let Some(st) = block.stmts.get(k as usize) else { lost() }; let (a, b) = s.range(st.span()); if w[0] == "before" { ins(&mut edits, a, -10, text) } else { ins(&mut edits, b, 10, text) } }
                    _ => die("unit-error", format!("bad anchor {pos}")),
                }
            }
            if canary && !u.opts.iter().any(|o| o == "nocanary") {
                ins(&mut edits, bo + 1, -20, &format!(" proof {{ if vx_canary({}) {{ assert(false); }} }} ", canaries.len()));
                canaries.push(serde_json::json!({"id": canaries.len(), "fn": u.path, "at": "entry"}));
                for (k, l) in c.loops.iter().enumerate() {
                    if u.opts.iter().any(|o| *o == format!("nocanary {k}")) { continue; }
                    ins(&mut edits, l.body_open + 1, -4, &format!(" proof {{ if vx_canary({}) {{ assert(false); }} }} ", canaries.len()));
                    canaries.push(serde_json::json!({"id": canaries.len(), "fn": u.path, "at": format!("loop {k}")}));
                }
            }
            // signature
            if let Some(nm) = &u.rename { let (x, y) = s.range(sig.ident.span()); edits.push(Edit { at: x, len: y - x, prio: 0, text: nm.clone() }); }
            if let Some(r) = &u.ret {
                match &sig.output {
                    syn::ReturnType::Type(_, ty) => { let (x, y) = s.range(ty.span()); ins(&mut edits, x, 0, &format!("({r}: ")); ins(&mut edits, y, -1, ")"); }
                    syn::ReturnType::Default => {}
                }
            }
            let fulltext;
            if let Some(sg) = &u.sig {
                let b = apply(s, bo, bhi, &mut edits);
                fulltext = format!("{sg}\n{}{b}", u.spec);
            } else {
                ins(&mut edits, bo, -1, &format!("\n{}", u.spec));
                fulltext = apply(s, lo, bhi, &mut edits);
            }
            let mut fulltext = fulltext;
            if u.external { // keep the signature and contract only: body trusted
                die("unit-error", "external not implemented".into());
            }
            for (x, y) in &u.rewrites { if let Some(t) = ws_replace(&fulltext, x, y) { fulltext = t; rewrites_used.push(format!("{}: {x} ==> {y}", u.path)); } }
            let outname = u.rename.clone().unwrap_or(sig.ident.to_string());
            let startline = body.matches('\n').count();
            body.push_str(&format!("// ---- fn {} from {cur_file}\n", u.path));
            let hdr = if let Some(h) = &u.header { Some(h.clone()) } else if let Some(im) = imp {
                let (x, _) = s.range(im.impl_token.span()); let y = s.range(im.brace_token.span.open()).0;
                Some(s.text[x..y].trim().to_string())
            } else { None };
            let _ = tr;
            match hdr {
                Some(h) if h != "-" => body.push_str(&format!("{h} {{\n{}{fulltext}\n}}\n", u.attrs)),
                _ => body.push_str(&format!("{}{fulltext}\n", u.attrs)),
            }
            let endline = body.matches('\n').count();
            map.push(serde_json::json!({"fn": outname, "path": u.path, "file": cur_file, "line": sig.ident.span().start().line, "out_lo": startline, "out_hi": endline, "loops": kinds.len()}));
            continue;
        }
        body.push_str(&l); body.push('\n'); i += 1;
    }
    let header = format!("{head}#[allow(unused_imports)] use vstd::prelude::*;\nverus! {{\n{}", if canary { "uninterp spec fn vx_canary(k: int) -> bool;\n" } else { "" });
    let shift = header.matches('\n').count();
    for m in map.iter_mut() { for k in ["out_lo", "out_hi"] { if let Some(v) = m.get(k).and_then(|v| v.as_u64()) { m[k] = serde_json::json!(v as usize + shift); } } }
    let out = format!("{header}{body}}}\n");
    fs::write(outp, out).unwrap();
    fs::write(mapp, serde_json::to_string_pretty(&serde_json::json!({"functions": map, "edits": stats, "rewrites": rewrites_used, "canaries": canaries})).unwrap()).unwrap();
    println!("{}", serde_json::json!({"status": "ok"}));
}
