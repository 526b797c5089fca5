//! The compiler's side of the proc_macro bridge: token streams with line/column spans.
use proc_macro::bridge::{self, server::Server, DelimSpan, Diagnostic, ExpnGlobals, LitKind};
use proc_macro::Delimiter;
use std::ops::{Bound, Range};
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Span {
    pub sl: u32,
    pub sc: u32,
    pub el: u32,
    pub ec: u32,
}
pub type Sym = Rc<str>;
pub type TT = bridge::TokenTree<TS, Span, Sym>;

#[derive(Clone, Default)]
pub struct TS(pub Rc<Vec<TT>>);

pub struct Srv {
    pub file: String,
    pub call: Span,
    pub env: Vec<(String, String)>,
}

fn span(s: proc_macro2::Span) -> Span {
    let (a, b) = (s.start(), s.end());
    Span { sl: a.line as u32, sc: a.column as u32 + 1, el: b.line as u32, ec: b.column as u32 + 1 }
}

/// text of a literal -> kind, symbol, suffix
fn lit(t: &str) -> (LitKind, String, Option<String>) {
    fn raw(t: &str) -> (u8, String, Option<String>) {
        let n = t.bytes().take_while(|b| *b == b'#').count();
        let body = &t[n + 1..];
        let end = body.rfind(&format!("\"{}", "#".repeat(n))).unwrap();
        let suf = &body[end + 1 + n..];
        (n as u8, body[..end].to_string(), (!suf.is_empty()).then(|| suf.to_string()))
    }
    fn quoted(t: &str, q: char) -> (String, Option<String>) {
        let body = &t[1..];
        let end = body.rfind(q).unwrap();
        let suf = &body[end + 1..];
        (body[..end].to_string(), (!suf.is_empty()).then(|| suf.to_string()))
    }
    let b = t.as_bytes();
    match b[0] {
        b'"' => {
            let (s, f) = quoted(t, '"');
            (LitKind::Str, s, f)
        }
        b'\'' => {
            let (s, f) = quoted(t, '\'');
            (LitKind::Char, s, f)
        }
        b'r' => {
            let (n, s, f) = raw(&t[1..]);
            (LitKind::StrRaw(n), s, f)
        }
        b'b' if b[1] == b'\'' => {
            let (s, f) = quoted(&t[1..], '\'');
            (LitKind::Byte, s, f)
        }
        b'b' if b[1] == b'"' => {
            let (s, f) = quoted(&t[1..], '"');
            (LitKind::ByteStr, s, f)
        }
        b'b' => {
            let (n, s, f) = raw(&t[2..]);
            (LitKind::ByteStrRaw(n), s, f)
        }
        b'c' if b[1] == b'"' => {
            let (s, f) = quoted(&t[1..], '"');
            (LitKind::CStr, s, f)
        }
        b'c' => {
            let (n, s, f) = raw(&t[2..]);
            (LitKind::CStrRaw(n), s, f)
        }
        _ => {
            let hex = t.starts_with("0x") || t.starts_with("0b") || t.starts_with("0o");
            let sufs = ["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize", "f32", "f64"];
            let suf = sufs.iter().find(|s| t.ends_with(**s) && !(hex && s.starts_with('f'))).map(|s| s.to_string());
            let body = match &suf {
                Some(s) => &t[..t.len() - s.len()],
                None => t,
            };
            let float = !hex && (body.contains('.') || body.contains(['e', 'E']) || suf.as_deref().is_some_and(|s| s.starts_with('f')));
            (if float { LitKind::Float } else { LitKind::Integer }, body.to_string(), suf)
        }
    }
}

pub fn conv(ts: proc_macro2::TokenStream, at: Option<Span>) -> TS {
    let f = |s: proc_macro2::Span| at.unwrap_or_else(|| span(s));
    let mut out = vec![];
    for t in ts {
        out.push(match t {
            proc_macro2::TokenTree::Group(g) => TT::Group(bridge::Group {
                delimiter: match g.delimiter() {
                    proc_macro2::Delimiter::Parenthesis => Delimiter::Parenthesis,
                    proc_macro2::Delimiter::Brace => Delimiter::Brace,
                    proc_macro2::Delimiter::Bracket => Delimiter::Bracket,
                    proc_macro2::Delimiter::None => Delimiter::None,
                },
                stream: Some(conv(g.stream(), at)),
                span: DelimSpan { open: f(g.span_open()), close: f(g.span_close()), entire: f(g.span()) },
            }),
            proc_macro2::TokenTree::Punct(p) => TT::Punct(bridge::Punct {
                ch: p.as_char() as u8,
                joint: p.spacing() == proc_macro2::Spacing::Joint,
                span: f(p.span()),
            }),
            proc_macro2::TokenTree::Ident(i) => {
                let s = i.to_string();
                let is_raw = s.starts_with("r#");
                TT::Ident(bridge::Ident { sym: s.trim_start_matches("r#").into(), is_raw, span: f(i.span()) })
            }
            proc_macro2::TokenTree::Literal(l) => {
                let (kind, s, suf) = lit(&l.to_string());
                TT::Literal(bridge::Literal { kind, symbol: s.as_str().into(), suffix: suf.map(|x| x.as_str().into()), span: f(l.span()) })
            }
        });
    }
    TS(Rc::new(out))
}

pub fn parse(text: &str) -> Option<TS> {
    text.parse::<proc_macro2::TokenStream>().ok().map(|t| conv(t, None))
}

/// the macro calls of a request: an attribute and an item, or every attributed item of a source text
pub fn requests(r: &serde_json::Value) -> Option<Vec<(TS, TS)>> {
    use quote::ToTokens;
    if let Some(src) = r["src"].as_str() {
        let f = syn::parse_file(src).ok()?;
        let mut out = vec![];
        for mut i in f.items {
            let attrs = match &mut i {
                syn::Item::Fn(x) => &mut x.attrs,
                syn::Item::Impl(x) => &mut x.attrs,
                syn::Item::Mod(x) => &mut x.attrs,
                syn::Item::Trait(x) => &mut x.attrs,
                syn::Item::Const(x) => &mut x.attrs,
                syn::Item::Static(x) => &mut x.attrs,
                _ => continue,
            };
            let Some(k) = attrs.iter().position(|a| a.path().segments.last().is_some_and(|s| s.ident == "hooq")) else { continue };
            let a = attrs.remove(k);
            let a = match a.meta {
                syn::Meta::List(l) => l.tokens,
                _ => Default::default(),
            };
            out.push((conv(a, None), conv(i.to_token_stream(), None)));
        }
        return Some(out);
    }
    Some(vec![(parse(r["attr"].as_str()?)?, parse(r["item"].as_str()?)?)])
}

fn lit_text(l: &bridge::Literal<Span, Sym>) -> String {
    let s = &l.symbol;
    let h = |n: u8| "#".repeat(n as usize);
    let mut o = match l.kind {
        LitKind::Byte => format!("b'{s}'"),
        LitKind::Char => format!("'{s}'"),
        LitKind::Integer | LitKind::Float | LitKind::ErrWithGuar => s.to_string(),
        LitKind::Str => format!("\"{s}\""),
        LitKind::StrRaw(n) => format!("r{}\"{s}\"{}", h(n), h(n)),
        LitKind::ByteStr => format!("b\"{s}\""),
        LitKind::ByteStrRaw(n) => format!("br{}\"{s}\"{}", h(n), h(n)),
        LitKind::CStr => format!("c\"{s}\""),
        LitKind::CStrRaw(n) => format!("cr{}\"{s}\"{}", h(n), h(n)),
    };
    if let Some(x) = &l.suffix {
        o.push_str(x);
    }
    o
}

/// text of a stream, and a digest of the spans of its tokens
pub fn show(ts: &TS, o: &mut String, spans: &mut u64) {
    shows(ts, o, spans, &mut vec![])
}

/// also where the compile errors point: start and end of each
pub fn shows(ts: &TS, o: &mut String, spans: &mut u64, errs: &mut Vec<[u32; 4]>) {
    fn mixs(h: &mut u64, s: Span) {
        for x in [s.sl, s.sc, s.el, s.ec] {
            *h = (*h ^ x as u64).wrapping_mul(0x100000001b3).rotate_left(17);
        }
    }
    let mut glue = true;
    let mut at: Option<Span> = None;
    for t in ts.0.iter() {
        if let Some(a) = at {
            if let TT::Group(g) = t {
                errs.push([a.sl, a.sc, g.span.entire.el, g.span.entire.ec]);
            }
            if !matches!(t, TT::Punct(_)) {
                at = None;
            }
        }
        if let TT::Ident(i) = t {
            if &*i.sym == "compile_error" {
                at = Some(i.span);
            }
        }
        if !glue {
            o.push(' ');
        }
        glue = false;
        match t {
            TT::Group(g) => {
                let (a, b) = match g.delimiter {
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::Brace => ("{", "}"),
                    Delimiter::Bracket => ("[", "]"),
                    Delimiter::None => ("", ""),
                };
                o.push_str(a);
                mixs(spans, g.span.entire);
                if let Some(s) = &g.stream {
                    shows(s, o, spans, errs);
                }
                o.push_str(b);
            }
            TT::Punct(p) => {
                o.push(p.ch as char);
                mixs(spans, p.span);
                glue = p.joint;
            }
            TT::Ident(i) => {
                if i.is_raw {
                    o.push_str("r#");
                }
                o.push_str(&i.sym);
                mixs(spans, i.span);
            }
            TT::Literal(l) => {
                o.push_str(&lit_text(l));
                mixs(spans, l.span);
            }
        }
    }
}

impl Server for Srv {
    type TokenStream = TS;
    type Span = Span;
    type Symbol = Sym;

    fn globals(&mut self) -> ExpnGlobals<Span> {
        ExpnGlobals { def_site: self.call, call_site: self.call, mixed_site: self.call }
    }
    fn intern_symbol(ident: &str) -> Sym {
        ident.into()
    }
    fn with_symbol_string(symbol: &Sym, f: impl FnOnce(&str)) {
        f(symbol)
    }
    fn injected_env_var(&mut self, var: &str) -> Option<String> {
        self.env.iter().find(|e| e.0 == var).map(|e| e.1.clone())
    }
    fn track_env_var(&mut self, _: &str, _: Option<&str>) {}
    fn track_path(&mut self, _: &str) {}
    fn literal_from_str(&mut self, s: &str) -> Result<bridge::Literal<Span, Sym>, String> {
        let _g = crate::sim::bridge();
        let l: proc_macro2::Literal = s.parse().map_err(|_| "not a literal".to_string())?;
        let (kind, t, suf) = lit(&l.to_string());
        Ok(bridge::Literal { kind, symbol: t.as_str().into(), suffix: suf.map(|x| x.as_str().into()), span: self.call })
    }
    fn emit_diagnostic(&mut self, _: Diagnostic<Span>) {}
    fn ts_drop(&mut self, _: TS) {}
    fn ts_clone(&mut self, s: &TS) -> TS {
        let _g = crate::sim::bridge();
        s.clone()
    }
    fn ts_is_empty(&mut self, s: &TS) -> bool {
        let _g = crate::sim::bridge();
        s.0.is_empty()
    }
    fn ts_expand_expr(&mut self, _: &TS) -> Result<TS, ()> {
        Err(())
    }
    fn ts_from_str(&mut self, src: &str) -> Result<TS, String> {
        let _g = crate::sim::bridge();
        src.parse::<proc_macro2::TokenStream>().map(|t| conv(t, Some(self.call))).map_err(|e| e.to_string())
    }
    fn ts_to_string(&mut self, s: &TS) -> String {
        let _g = crate::sim::bridge();
        let mut o = String::new();
        show(s, &mut o, &mut 0);
        o
    }
    fn ts_from_token_tree(&mut self, t: TT) -> TS {
        let _g = crate::sim::bridge();
        TS(Rc::new(vec![t]))
    }
    fn ts_concat_trees(&mut self, base: Option<TS>, trees: Vec<TT>) -> TS {
        let _g = crate::sim::bridge();
        let mut v = base.map(|b| (*b.0).clone()).unwrap_or_default();
        v.extend(trees);
        TS(Rc::new(v))
    }
    fn ts_concat_streams(&mut self, base: Option<TS>, streams: Vec<TS>) -> TS {
        let _g = crate::sim::bridge();
        let mut v = base.map(|b| (*b.0).clone()).unwrap_or_default();
        for s in streams {
            v.extend(s.0.iter().cloned());
        }
        TS(Rc::new(v))
    }
    fn ts_into_trees(&mut self, s: TS) -> Vec<TT> {
        let _g = crate::sim::bridge();
        (*s.0).clone()
    }
    fn span_debug(&mut self, s: Span) -> String {
        format!("{s:?}")
    }
    fn span_parent(&mut self, _: Span) -> Option<Span> {
        None
    }
    fn span_source(&mut self, s: Span) -> Span {
        s
    }
    fn span_byte_range(&mut self, s: Span) -> Range<usize> {
        (s.sl as usize * 1000 + s.sc as usize)..(s.el as usize * 1000 + s.ec as usize)
    }
    fn span_start(&mut self, s: Span) -> Span {
        Span { el: s.sl, ec: s.sc, ..s }
    }
    fn span_end(&mut self, s: Span) -> Span {
        Span { sl: s.el, sc: s.ec, ..s }
    }
    fn span_line(&mut self, s: Span) -> usize {
        let _g = crate::sim::bridge();
        s.sl as usize
    }
    fn span_column(&mut self, s: Span) -> usize {
        s.sc as usize
    }
    fn span_file(&mut self, _: Span) -> String {
        let _g = crate::sim::bridge();
        self.file.clone()
    }
    fn span_local_file(&mut self, _: Span) -> Option<String> {
        Some(self.file.clone())
    }
    fn span_join(&mut self, a: Span, b: Span) -> Option<Span> {
        let _g = crate::sim::bridge();
        let (s, e) = ((a.sl, a.sc).min((b.sl, b.sc)), (a.el, a.ec).max((b.el, b.ec)));
        Some(Span { sl: s.0, sc: s.1, el: e.0, ec: e.1 })
    }
    fn span_subspan(&mut self, _: Span, _: Bound<usize>, _: Bound<usize>) -> Option<Span> {
        None
    }
    fn span_resolved_at(&mut self, s: Span, _: Span) -> Span {
        s
    }
    fn span_source_text(&mut self, _: Span) -> Option<String> {
        None
    }
    fn span_save_span(&mut self, _: Span) -> usize {
        0
    }
    fn span_recover_proc_macro_span(&mut self, _: usize) -> Span {
        self.call
    }
    fn symbol_normalize_and_validate_ident(&mut self, s: &str) -> Result<Sym, ()> {
        let _g = crate::sim::bridge();
        let mut c = s.chars();
        let ok = c.next().is_some_and(|c| c == '_' || c.is_alphabetic()) && c.all(|c| c == '_' || c.is_alphanumeric());
        if ok { Ok(s.into()) } else { Err(()) }
    }
}
