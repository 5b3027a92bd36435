//! Conformance of a parser type with a reference grammar, over every input up to a length.
use crate::spec::*;
use crate::src::Src;
use crate::vp;
use nommy::{bytes, text, Buffer, IntoBuf, Parse, Vec1};
use std::cell::Cell;

/// An input item that can be made symbolic.
pub trait Item: Clone + PartialEq {
    fn sym(domain: usize) -> Self;
    fn ch(&self) -> char;
    /// the item that stands for an ASCII char
    fn of(c: u8) -> Self;
}
impl Item for char {
    fn sym(domain: usize) -> char {
        if domain == 0 { vp::any_char() } else { vp::char_in(0, 0x7f) }
    }
    fn ch(&self) -> char { *self }
    fn of(c: u8) -> char { c as char }
}
impl Item for u8 {
    fn sym(_: usize) -> u8 { vp::byte() }
    fn ch(&self) -> char { *self as char }
    fn of(c: u8) -> u8 { c }
}

/// A flat record of a parsed value, in the format the reference recogniser writes.
pub trait Log {
    fn log(self, o: &mut Vec<u32>);
}
impl Log for char { fn log(self, o: &mut Vec<u32>) { o.push(self as u32) } }
impl Log for u8 { fn log(self, o: &mut Vec<u32>) { o.push(self as u32) } }
impl Log for usize {
    fn log(self, o: &mut Vec<u32>) {
        o.push(M_NUM);
        o.push(self as u32);
        o.push((self >> 32) as u32);
    }
}
impl Log for String {
    fn log(self, o: &mut Vec<u32>) {
        o.push(M_STR);
        for c in self.chars() { o.push(c as u32) }
        o.push(M_END);
    }
}
macro_rules! log_unit { ($($t:ty),*) => { $( impl Log for $t { fn log(self, o: &mut Vec<u32>) { o.push(M_UNIT) } } )* } }
log_unit!(text::LineEnding, text::Space, text::WhiteSpace);
impl<const X: &'static str> Log for text::Tag<X> { fn log(self, o: &mut Vec<u32>) { o.push(M_UNIT) } }
impl<const X: &'static [u8]> Log for bytes::Tag<X> { fn log(self, o: &mut Vec<u32>) { o.push(M_UNIT) } }
impl<const X: &'static str> Log for text::OneOf<X> { fn log(self, o: &mut Vec<u32>) { let c: char = self.into(); c.log(o) } }
impl<const X: &'static [u8]> Log for bytes::OneOf<X> { fn log(self, o: &mut Vec<u32>) { let c: u8 = self.into(); c.log(o) } }
impl<const X: &'static str> Log for text::AnyOf<X> { fn log(self, o: &mut Vec<u32>) { String::from(self).log(o) } }
impl<const X: &'static str> Log for text::AnyOf1<X> { fn log(self, o: &mut Vec<u32>) { String::from(self).log(o) } }
impl<const X: &'static str> Log for text::WhileNot1<X> { fn log(self, o: &mut Vec<u32>) { String::from(self).log(o) } }
impl<const X: &'static [u8]> Log for bytes::AnyOf1<X> {
    fn log(self, o: &mut Vec<u32>) {
        let v: Vec<u8> = self.into();
        o.push(M_STR);
        let mut i = 0;
        while i < v.len() { o.push(v[i] as u32); i += 1; }
        o.push(M_END);
    }
}
impl<P: Log> Log for Option<P> {
    fn log(self, o: &mut Vec<u32>) {
        match self {
            Some(p) => { o.push(M_SOME); p.log(o) }
            None => o.push(M_NONE),
        }
    }
}
impl<P: Log> Log for Vec<P> {
    fn log(self, o: &mut Vec<u32>) {
        o.push(M_LIST);
        for p in self { p.log(o) }
        o.push(M_END);
    }
}
impl<P: Log> Log for Vec1<P> { fn log(self, o: &mut Vec<u32>) { Vec::from(self).log(o) } }
impl<P: Log, const N: usize> Log for [P; N] {
    fn log(self, o: &mut Vec<u32>) {
        o.push(M_LIST);
        for p in std::array::IntoIter::new(self) { p.log(o) }
        o.push(M_END);
    }
}
impl<P: Log> Log for Box<P> { fn log(self, o: &mut Vec<u32>) { (*self).log(o) } }

pub fn same(a: &[u32], b: &[u32]) -> bool {
    if a.len() != b.len() { return false; }
    let mut r = true;
    let mut i = 0;
    while i < a.len() { r &= a[i] == b[i]; i += 1; }
    r
}

pub fn syms<T: Item>(n: usize, domain: usize) -> Vec<T> {
    let mut v = Vec::with_capacity(n);
    let mut i = 0;
    while i < n { v.push(T::sym(domain)); i += 1; }
    v
}
/// The input of a harness: any items up to a length, or, if param 5 is not 0, any text of the form
/// a u^k b w^k with k = param 5, where a is at most one item, u 1..=n items, b at most n and w at most param 6;
/// or, if param 7 is not 0 either, repeated text number param 7, k times, with up to n items put in at the
/// beginning, before, in or after the repeated part, or at the end.
pub fn input<T: Item>(extra: usize) -> Vec<T> {
    let (most, domain, k) = (vp::param(0), vp::param(2), vp::param(5));
    if k == 0 {
        let n = vp::pick(vp::param(3) as u64, most as u64);
        return syms(n + extra, domain);
    }
    if vp::param(7) != 0 {
        let (head, unit, tail) = REPEATED[vp::param(7)];
        let mut at = vp::pick(if head.is_empty() { 1 } else { 0 }, if tail.is_empty() { 3 } else { 4 });
        if most == 0 { at = 4; }
        let w = syms::<T>(vp::pick(0, most as u64), domain);
        let mut v = syms::<T>(extra, domain);
        if at == 0 { append(&mut v, &w); }
        sample(&mut v, head);
        if at == 1 { append(&mut v, &w); }
        let mut i = 0;
        while i < k {
            if at == 2 && i == k / 2 { append(&mut v, &w); }
            sample(&mut v, unit);
            i += 1;
        }
        if at == 3 { append(&mut v, &w); }
        sample(&mut v, tail);
        if at == 4 { append(&mut v, &w); }
        return v;
    }
    let a = syms::<T>(vp::pick(0, 1) + extra, domain);
    let u = syms::<T>(vp::pick(1, most as u64), domain);
    let b = syms::<T>(vp::pick(0, most as u64), domain);
    let w = syms::<T>(vp::pick(0, vp::param(6) as u64), domain);
    let mut v = Vec::with_capacity(a.len() + b.len() + k * (u.len() + w.len()));
    append(&mut v, &a);
    let mut i = 0;
    while i < k { append(&mut v, &u); i += 1; }
    append(&mut v, &b);
    i = 0;
    while i < k { append(&mut v, &w); i += 1; }
    v
}
fn sample<T: Item>(v: &mut Vec<T>, s: &str) {
    let mut i = 0;
    while i < s.len() { v.push(T::of(s.as_bytes()[i])); i += 1; }
}
/// beginning, repeated part and end of texts
const REPEATED: [(&str, &str, &str); 17] = [
    ("", "", ""),
    ("", "a", ""),
    ("", "a,", "b"),
    ("(", "a", ")"),
    ("(", "a,", "b)"),
    ("", "aba-", "ab"),
    ("\0", "\x01,", "\x01"),
    ("=", "1,", "1;"),
    ("", "1,", "0"),
    ("", "ab,", "a"),
    ("", "a , ", "b"),
    ("( ", "a , ", "b )"),
    ("(", "a ", ")"),
    ("structx{", "y:z,", "}"),
    ("a:", "b,", "c\n"),
    ("enumx{", "y,", "}"),
    ("", "ab", ""),
];
fn append<T: Item>(v: &mut Vec<T>, d: &[T]) {
    let mut i = 0;
    while i < d.len() { v.push(d[i].clone()); i += 1; }
}
pub fn as_chars<T: Item>(d: &[T]) -> Vec<char> {
    let mut v = Vec::with_capacity(d.len());
    let mut i = 0;
    while i < d.len() { v.push(d[i].ch()); i += 1; }
    v
}
/// everything that is left of `b` is `d`, and then nothing
pub fn left<T: Item>(b: &mut impl Iterator<Item = T>, d: &[T], msg: &'static str) {
    let mut ok = true;
    let mut i = 0;
    while i < d.len() {
        match b.next() {
            Some(c) => ok &= c == d[i],
            None => { vp::check(false, msg); return; }
        }
        i += 1;
    }
    vp::check(ok, msg);
    vp::check(b.next().is_none(), msg);
}
/// how many items are left
pub fn drain<T>(b: &mut impl Iterator<Item = T>) -> usize {
    let mut n = 0;
    while b.next().is_some() { n += 1; }
    n
}
/// outcome of a parse, as a log
pub struct Out { pub ok: bool, pub log: Vec<u32> }
pub fn out<P: Log>(r: nommy::eyre::Result<P>) -> Out {
    let mut log = Vec::new();
    match r {
        Ok(p) => { p.log(&mut log); Out { ok: true, log } }
        Err(_) => Out { ok: false, log },
    }
}
impl Out {
    pub fn observe(&self) {
        vp::observe(self.ok as u64);
        let mut i = 0;
        while i < self.log.len() { vp::observe(self.log[i] as u64); i += 1; }
    }
}

pub const PARSE: usize = 0;
pub const PEEK: usize = 1;
pub const PULLS: usize = 2;
pub const CTX: usize = 3;
pub const LEAK: usize = 4;
pub const TOTAL: usize = 5;
pub const CTXPEEK: usize = 6;

// covers
pub const C_OK: u32 = 1;
pub const C_ERR: u32 = 2;
pub const C_LEFT: u32 = 3;

/// params: 0 longest input, 1 mode, 2 domain, 3 shortest input, 5 and 6 see `input`
pub fn conf<P: Parse<T> + Log, T: Item>(g: &G) {
    modes::<P, T>(g, &input::<T>)
}
/// The texts that differ from a sample in one place: up to param 7 items are taken out there, and up to
/// param 0 put in (param 5 is 1 and says only that the text is long).
pub fn near<P: Parse<char> + Log>(g: &G, sample: &str) {
    modes::<P, char>(g, &|extra| {
        let mut s = Vec::new();
        for c in sample.chars() { s.push(c); }
        let at = vp::pick(0, s.len() as u64);
        let left = (s.len() - at) as u64;
        let out = vp::pick(0, if left < vp::param(7) as u64 { left } else { vp::param(7) as u64 });
        let mut v = syms::<char>(extra, vp::param(2));
        append(&mut v, &s[..at]);
        append(&mut v, &syms::<char>(vp::pick(0, vp::param(0) as u64), vp::param(2)));
        append(&mut v, &s[at + out..]);
        v
    })
}
fn modes<P: Parse<T> + Log, T: Item>(g: &G, input: &dyn Fn(usize) -> Vec<T>) {
    match vp::param(1) {
        PARSE => parse::<P, T>(g, &input(0)),
        PEEK => peek::<P, T>(&input(0)),
        PULLS => pulls::<P, T>(g, &input(0)),
        CTX => ctx::<P, T>(&input(1)),
        TOTAL => total::<P, T>(&input(0)),
        CTXPEEK => ctxpeek::<P, T>(&input(1)),
        _ => {
            drop(nommy::eyre::eyre!("warm up"));
            let before = vp::live();
            leak::<P, T>(&input(0));
            vp::check(vp::live() == before, "every allocation is released");
        }
    }
}

fn parse<P: Parse<T> + Log, T: Item>(g: &G, d: &[T]) {
    let pulls = Cell::new(0);
    let mut b = Src { d, i: 0, pulls: &pulls }.into_buf();
    let r = out(P::parse(&mut b));
    r.observe();
    let cs = as_chars(d);
    let mut want = Vec::new();
    let w = Ctx::new(&cs).run(g, 0, &mut want);
    vp::check(r.ok == w.is_ok(), "accepts exactly what its grammar accepts");
    if let Ok(end) = w {
        vp::cover(C_OK);
        if end < d.len() { vp::cover(C_LEFT); }
        vp::check(same(&r.log, &want), "the value is the one the grammar describes");
        left(&mut b, &d[end..], "consumes exactly the match");
    } else {
        vp::cover(C_ERR);
    }
}

fn peek<P: Parse<T> + Log, T: Item>(d: &[T]) {
    let pulls = Cell::new(0);
    let mut b = Src { d, i: 0, pulls: &pulls }.into_buf();
    let ok = P::parse(&mut b).is_ok();
    let rest = drain(&mut b);
    let end = d.len() - rest;
    let pulls = Cell::new(0);
    let mut b = Src { d, i: 0, pulls: &pulls }.into_buf();
    {
        let mut c = b.cursor();
        let seen = P::peek(&mut c);
        vp::observe(seen as u64);
        vp::check(seen == ok, "peek is true exactly when parse succeeds");
        if seen {
            vp::cover(C_OK);
            vp::check(c.position() == end, "peek advances a cursor by what parse consumes");
            left(&mut c, &d[end..], "after peek the cursor continues after the match");
            if end < d.len() { vp::cover(C_LEFT); }
        } else {
            vp::cover(C_ERR);
        }
    }
    // peeking directly on a buffer advances it the same way
    if vp::param(4) == 0 {
        left(&mut b, d, "peeking through a cursor leaves the buffer alone");
    } else {
        let seen = P::peek(&mut b);
        vp::check(seen == ok, "peek on a buffer is true exactly when parse succeeds");
        if seen { left(&mut b, &d[end..], "peek on a buffer consumes exactly the match"); }
    }
}

fn pulls<P: Parse<T> + Log, T: Item>(g: &G, d: &[T]) {
    let cs = as_chars(d);
    let mut c = Ctx::new(&cs);
    let mut want = Vec::new();
    let w = c.run(g, 0, &mut want);
    let pulls = Cell::new(0);
    let mut b = Src { d, i: 0, pulls: &pulls }.into_buf();
    vp::check(pulls.get() == 0, "building a buffer reads nothing");
    let ok = P::parse(&mut b).is_ok();
    vp::observe(pulls.get() as u64);
    vp::check(pulls.get() <= c.look, "parse reads no further than the grammar needs");
    if ok { vp::cover(C_OK) } else { vp::cover(C_ERR) }
    if c.look < d.len() { vp::cover(C_LEFT); }
    if let Ok(end) = w { vp::check(!ok || pulls.get() >= end, "what was consumed was read"); }
    let pulls = Cell::new(0);
    let mut b = Src { d, i: 0, pulls: &pulls }.into_buf();
    P::peek(&mut b);
    // (peek does not convert, so it may go on where a failing conversion ends a parse)
    vp::check(c.conv || pulls.get() <= c.look, "peek reads no further than the grammar needs");
}

/// d[0] is an extra item in front of the text
fn ctx<P: Parse<T> + Log, T: Item>(d: &[T]) {
    let text = &d[1..];
    let pulls = Cell::new(0);
    let mut b = Src { d: text, i: 0, pulls: &pulls }.into_buf();
    let base = out(P::parse(&mut b));
    base.observe();
    let end = text.len() - drain(&mut b);
    if base.ok {
        vp::cover(C_OK);
        if end < text.len() { vp::cover(C_LEFT); }
    } else {
        vp::cover(C_ERR);
    }
    let how = vp::pick(0, 4);
    vp::cover(10 + how as u32);
    let pulls = Cell::new(0);
    let agree = |r: &Out| vp::check(r.ok == base.ok && same(&r.log, &base.log), "the result does not depend on how the input is buffered");
    match how {
        0 => {
            let mut b = Src { d: text, i: 0, pulls: &pulls }.into_buf();
            {
                let mut c = b.cursor();
                let r = out(P::parse(&mut c));
                agree(&r);
                if r.ok { left(&mut c, &text[end..], "a parse on a cursor consumes the same") }
            }
            left(&mut b, text, "a parse on a cursor leaves the buffer alone");
        }
        1 => {
            let mut b = Src { d: text, i: 0, pulls: &pulls }.into_buf();
            let mut c = b.cursor();
            let r = out(P::parse(&mut c));
            agree(&r);
            let pos = c.position();
            if r.ok {
                b.fast_forward(pos);
                left(&mut b, &text[end..], "fast-forwarding by the cursor's position consumes the same");
            }
        }
        2 => {
            let mut b = Src { d, i: 0, pulls: &pulls }.into_buf();
            {
                let mut c = b.cursor();
                c.next();
                {
                    let mut k = c.cursor();
                    let r = out(P::parse(&mut k));
                    agree(&r);
                    if r.ok { left(&mut k, &text[end..], "a parse on a nested cursor consumes the same") }
                }
                left(&mut c, text, "a parse on a nested cursor leaves its parent alone");
            }
            left(&mut b, d, "a parse on a nested cursor leaves the buffer alone");
        }
        3 => {
            let mut b = Src { d, i: 0, pulls: &pulls }.into_buf();
            // (of a long text, the ends and the middle)
            let k = if vp::param(5) == 0 { vp::pick(0, d.len() as u64) } else { vp::pick(0, 2) * (d.len() / 2) };
            b.peek_ahead(k);
            b.next();
            let r = out(P::parse(&mut b));
            agree(&r);
            if r.ok { left(&mut b, &text[end..], "a parse on a partly read buffer consumes the same") }
        }
        _ => {
            let mut b = Src { d, i: 0, pulls: &pulls }.into_buf();
            let mut c = b.cursor();
            c.next();
            let r = out(P::parse(&mut c));
            agree(&r);
            if r.ok { left(&mut c, &text[end..], "a parse on an advanced cursor consumes the same") }
        }
    }
}

/// d[0] is an extra item in front of the text
fn ctxpeek<P: Parse<T> + Log, T: Item>(d: &[T]) {
    let text = &d[1..];
    let pulls = Cell::new(0);
    let mut b = Src { d: text, i: 0, pulls: &pulls }.into_buf();
    let base = P::peek(&mut b);
    let end = text.len() - drain(&mut b);
    vp::observe(base as u64);
    if base {
        vp::cover(C_OK);
        vp::observe(end as u64);
        if end < text.len() { vp::cover(C_LEFT); }
    } else {
        vp::cover(C_ERR);
    }
    let how = vp::pick(0, 3);
    vp::cover(10 + how as u32);
    let same = "the result of a peek does not depend on how the input is buffered";
    let moves = "a peek moves by the same amount however the input is buffered";
    let mut b = Src { d: if how == 0 { text } else { d }, i: 0, pulls: &pulls }.into_buf();
    match how {
        0 => {
            let mut c = b.cursor();
            vp::check(P::peek(&mut c) == base, same);
            if base {
                vp::check(c.position() == end, moves);
                left(&mut c, &text[end..], moves);
            }
        }
        1 => {
            let mut c = b.cursor();
            c.next();
            vp::check(P::peek(&mut c) == base, same);
            if base {
                vp::check(c.position() == end + 1, moves);
                left(&mut c, &text[end..], moves);
            }
        }
        2 => {
            {
                let mut c = b.cursor();
                c.next();
                {
                    let mut k = c.cursor();
                    vp::check(P::peek(&mut k) == base, same);
                    if base {
                        vp::check(k.position() == end, moves);
                        left(&mut k, &text[end..], moves);
                    }
                }
                left(&mut c, text, "a peek on a nested cursor leaves its parent alone");
            }
            left(&mut b, d, "a peek on a nested cursor leaves the buffer alone");
        }
        _ => {
            // (of a long text, the ends and the middle)
            let k = if vp::param(5) == 0 { vp::pick(0, d.len() as u64) } else { vp::pick(0, 2) * (d.len() / 2) };
            b.peek_ahead(k);
            b.next();
            vp::check(P::peek(&mut b) == base, same);
            if base { left(&mut b, &text[end..], moves) }
        }
    }
}

fn leak<P: Parse<T> + Log, T: Item>(d: &[T]) {
    let pulls = Cell::new(0);
    let mut b = Src { d, i: 0, pulls: &pulls }.into_buf();
    match P::parse(&mut b) {
        Ok(_) => vp::cover(C_OK),
        Err(_) => vp::cover(C_ERR),
    }
    let mut b = Src { d, i: 0, pulls: &pulls }.into_buf();
    let mut c = b.cursor();
    P::peek(&mut c);
}

/// every call returns
fn total<P: Parse<T> + Log, T: Item>(d: &[T]) {
    let pulls = Cell::new(0);
    let mut b = Src { d, i: 0, pulls: &pulls }.into_buf();
    let r = P::parse(&mut b);
    if r.is_ok() { vp::cover(C_OK) } else { vp::cover(C_ERR) }
    // the rest of the input is still usable
    let r = P::parse(&mut b.cursor());
    vp::observe(r.is_ok() as u64);
    P::peek(&mut b.cursor());
    vp::observe(drain(&mut b) as u64);
    let mut b = Src { d, i: 0, pulls: &pulls }.into_buf();
    let seen = P::peek(&mut b.cursor());
    vp::observe(seen as u64);
    P::peek(&mut b);
    vp::observe(drain(&mut b) as u64);
}

/// Harness functions, and the table the replay runner finds them in.
#[macro_export]
macro_rules! harnesses {
    ($($name:ident => $body:expr;)*) => {
        $( #[no_mangle] pub fn $name() { $body } )*
        pub const TABLE: &[(&str, fn())] = &[$((stringify!($name), $name as fn())),*];
    };
}
