//! Rewrites a source tree so that one binary holds every mutant of it: `mutate SRC OUT SKIP` reads SRC/**/*.rs and
//! writes the same tree to OUT with a switch at each site, and the list of mutants to OUT/mutants.txt. The number in
//! the environment variable MUTANT selects one. Ids in the file SKIP are left out (they do not compile).
use proc_macro2::Span;
use quote::{quote, ToTokens};
use std::collections::HashSet;
use std::path::{Path, PathBuf};
use syn::visit_mut::{self, VisitMut};
use syn::*;

struct M {
    file: String,
    next: u32,
    skip: HashSet<u32>,
    list: Vec<String>,
    inside: bool,
}

impl M {
    fn id(&mut self, at: Span, what: String) -> Option<u32> {
        let n = self.next;
        self.next += 1;
        if self.skip.contains(&n) {
            return None;
        }
        self.list.push(format!("{n}\t{}:{}\t{what}", self.file, at.start().line));
        Some(n)
    }
    fn boolean(&mut self, at: Span, text: &str, e: Expr, more: Vec<(String, Expr)>) -> Expr {
        let mut arms = quote!();
        for (what, alt) in [("true".to_string(), parse_quote!(true)), ("false".to_string(), parse_quote!(false))].into_iter().chain(more) {
            if let Some(n) = self.id(at, format!("{text}  =>  {what}")) {
                arms = quote!(#arms #n => #alt,);
            }
        }
        if arms.is_empty() {
            return e;
        }
        parse_quote!((match crate::mu::get() { #arms _ => #e }))
    }
    fn either(&mut self, at: Span, text: &str, e: Expr, more: Vec<(String, Expr)>) -> Expr {
        let mut arms = quote!();
        for (what, alt) in more {
            if let Some(n) = self.id(at, format!("{text}  =>  {what}")) {
                arms = quote!(#arms #n => #alt,);
            }
        }
        if arms.is_empty() {
            return e;
        }
        parse_quote!((match crate::mu::get() { #arms _ => #e }))
    }
}

fn has_let(e: &Expr) -> bool {
    match e {
        Expr::Let(_) => true,
        Expr::Binary(b) => has_let(&b.left) || has_let(&b.right),
        Expr::Paren(p) => has_let(&p.expr),
        _ => false,
    }
}

fn exits(e: &Expr) -> bool {
    matches!(e, Expr::Return(_) | Expr::Break(_) | Expr::Continue(_))
}

impl VisitMut for M {
    fn visit_item_fn_mut(&mut self, f: &mut ItemFn) {
        if f.sig.constness.is_some() {
            return;
        }
        let was = std::mem::replace(&mut self.inside, true);
        visit_mut::visit_block_mut(self, &mut f.block);
        self.inside = was;
    }
    fn visit_impl_item_fn_mut(&mut self, f: &mut ImplItemFn) {
        if f.sig.constness.is_some() {
            return;
        }
        let was = std::mem::replace(&mut self.inside, true);
        visit_mut::visit_block_mut(self, &mut f.block);
        self.inside = was;
    }
    fn visit_item_mod_mut(&mut self, m: &mut ItemMod) {
        if m.attrs.iter().any(|a| a.to_token_stream().to_string().contains("test")) {
            return;
        }
        visit_mut::visit_item_mod_mut(self, m);
    }
    fn visit_pat_mut(&mut self, _: &mut Pat) {}
    fn visit_type_mut(&mut self, _: &mut Type) {}
    fn visit_attribute_mut(&mut self, _: &mut Attribute) {}
    fn visit_expr_repeat_mut(&mut self, e: &mut ExprRepeat) {
        self.visit_expr_mut(&mut e.expr);
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        let n = b.stmts.len();
        for (i, s) in b.stmts.iter_mut().enumerate() {
            let Stmt::Expr(e, semi) = s else { continue };
            if exits(e) || (semi.is_none() && i + 1 == n) {
                continue;
            }
            let text: String = quote!(#e).to_string().chars().take(70).collect();
            let at = syn::spanned::Spanned::span(&*e);
            if let Some(id) = self.id(at, format!("{text}  =>  nothing")) {
                let e2 = e.clone();
                *s = parse_quote!(if crate::mu::get() != #id { #e2; });
            }
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if !self.inside {
            visit_mut::visit_expr_mut(self, e);
            return;
        }
        let text: String = quote!(#e).to_string().chars().take(70).collect();
        let at = syn::spanned::Spanned::span(&*e);
        match e {
            Expr::Let(l) => {
                self.visit_expr_mut(&mut l.expr);
                return;
            }
            Expr::If(i) if !has_let(&i.cond) && !matches!(*i.cond, Expr::Binary(_)) => {
                visit_mut::visit_expr_mut(self, e);
                if let Expr::If(i) = e {
                    let c = (*i.cond).clone();
                    *i.cond = self.boolean(at, &format!("if {}", text.chars().take(40).collect::<String>()), c, vec![]);
                }
                return;
            }
            _ => {}
        }
        let orig = e.clone();
        visit_mut::visit_expr_mut(self, e);
        match &orig {
            Expr::Binary(b) if !has_let(&orig) => {
                let (l, r) = (&b.left, &b.right);
                let new = e.clone();
                let (nl, nr) = match &new {
                    Expr::Binary(n) => ((*n.left).clone(), (*n.right).clone()),
                    _ => unreachable!(),
                };
                let _ = (&nl, &nr);
                match b.op {
                    BinOp::Lt(_) => *e = self.boolean(at, &text, new, vec![("<=".into(), parse_quote!((#l <= #r)))]),
                    BinOp::Le(_) => *e = self.boolean(at, &text, new, vec![("<".into(), parse_quote!((#l < #r)))]),
                    BinOp::Gt(_) => *e = self.boolean(at, &text, new, vec![(">=".into(), parse_quote!((#l >= #r)))]),
                    BinOp::Ge(_) => *e = self.boolean(at, &text, new, vec![(">".into(), parse_quote!((#l > #r)))]),
                    BinOp::Eq(_) | BinOp::Ne(_) => *e = self.boolean(at, &text, new, vec![]),
                    BinOp::And(_) => *e = self.either(at, &text, new, vec![("||".into(), parse_quote!((#l || #r)))]),
                    BinOp::Or(_) => *e = self.either(at, &text, new, vec![("&&".into(), parse_quote!((#l && #r)))]),
                    BinOp::Add(_) => *e = self.either(at, &text, new, vec![("first only".into(), parse_quote!((#l))), ("second only".into(), parse_quote!((#r)))]),
                    BinOp::Sub(_) => *e = self.either(at, &text, new, vec![("first only".into(), parse_quote!((#l)))]),
                    BinOp::BitAnd(_) | BinOp::BitOr(_) | BinOp::Shl(_) | BinOp::Shr(_) => {
                        *e = self.either(at, &text, new, vec![("first only".into(), parse_quote!((#l)))])
                    }
                    _ => {}
                }
            }
            Expr::Unary(u) if matches!(u.op, UnOp::Not(_)) => {
                let inner = &u.expr;
                let new = e.clone();
                *e = self.either(at, &text, new, vec![("without !".into(), parse_quote!((#inner)))]);
            }
            Expr::Lit(ExprLit { lit: Lit::Bool(b), .. }) => {
                let not = !b.value;
                let new = e.clone();
                *e = self.either(at, &text, new, vec![(format!("{not}"), parse_quote!(#not))]);
            }
            Expr::Lit(ExprLit { lit: Lit::Int(i), .. }) => {
                let i = i.clone();
                let new = e.clone();
                *e = self.either(at, &text, new, vec![("+1".into(), parse_quote!((#i + 1)))]);
            }
            _ => {}
        }
    }
}

fn walk(dir: &Path, out: &mut Vec<PathBuf>) {
    let mut v: Vec<_> = std::fs::read_dir(dir).unwrap().map(|e| e.unwrap().path()).collect();
    v.sort();
    for p in v {
        if p.is_dir() {
            if p.file_name().unwrap() != "tests" {
                walk(&p, out);
            }
        } else if p.extension().is_some_and(|e| e == "rs") {
            out.push(p);
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (src, out) = (PathBuf::from(&a[1]), PathBuf::from(&a[2]));
    let skip = std::fs::read_to_string(&a[3]).unwrap_or_default().split_whitespace().map(|s| s.parse().unwrap()).collect();
    let mut files = vec![];
    walk(&src, &mut files);
    let mut m = M { file: String::new(), next: 1, skip, list: vec![], inside: false };
    for f in files {
        let rel = f.strip_prefix(&src).unwrap();
        let mut file = parse_file(&std::fs::read_to_string(&f).unwrap()).unwrap();
        m.file = rel.display().to_string();
        m.visit_file_mut(&mut file);
        let mut text = quote!(#file).to_string();
        if rel == Path::new("lib.rs") {
            text.push_str("\npub mod mu { static M: std::sync::LazyLock<u32> = std::sync::LazyLock::new(|| std::env::var(\"MUTANT\").ok().and_then(|s| s.parse().ok()).unwrap_or(0)); #[inline] pub fn get() -> u32 { *M } }");
        }
        let to = out.join(rel);
        std::fs::create_dir_all(to.parent().unwrap()).unwrap();
        std::fs::write(&to, text).unwrap();
    }
    std::fs::write(out.join("mutants.txt"), m.list.join("\n") + "\n").unwrap();
    println!("{} mutants", m.list.len());
}
