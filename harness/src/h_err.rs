//! What an error says.
use crate::conf::*;
use crate::spec::*;
use crate::src::Src;
use crate::types::*;
use crate::vp;
use crate::spec::G::*;
use nommy::{bytes, text::*, IntoBuf, Parse, Vec1};
use std::cell::Cell;

/// params: 0 longest input, 1 -, 2 domain, 3 shortest input, 5 and 6 see `input`
fn err<P: Parse<T> + Log, T: Item>(g: &G, name: fn(u32) -> &'static str) {
    let d = input::<T>(0);
    let cs = as_chars(&d);
    let mut want = Vec::new();
    let mut c = Ctx::new(&cs);
    let w = c.run(g, 0, &mut want);
    let pulls = Cell::new(0);
    let mut b = Src { d: &d, i: 0, pulls: &pulls }.into_buf();
    vp::real_format(true);
    let r = P::parse(&mut b);
    vp::check(r.is_ok() == w.is_ok(), "an error is reported exactly when the text does not match");
    match r {
        Ok(_) => vp::cover(C_OK),
        Err(e) => {
            let want = name(c.fail);
            if want.len() > 0 {
                vp::cover(100 + c.fail);
                let s = e.to_string();
                vp::check(s.len() == want.len() && s.as_bytes() == want.as_bytes(), "the error names the part that could not be parsed");
            }
        }
    }
    vp::real_format(false);
}

fn is_text(e: &(dyn std::error::Error + 'static), want: &[u8]) -> bool {
    let s = e.to_string();
    let s = s.as_bytes();
    if s.len() != want.len() { return false; }
    let mut r = true;
    let mut i = 0;
    while i < s.len() { r &= s[i] == want[i]; i += 1; }
    r
}
/// What the error says, and what each of its causes says, down to the leaf parser.
/// `name` tells the words for a part of a derived type, given the parts that lead to it (two digits each).
/// params: 0 longest input, 1 (1: only the outermost part is of interest; 2: by parse_terminated), 2 domain (no wider than ASCII), 3 shortest input, 5 and 6 see `input`
pub fn why<P: Parse<T> + Log, T: Item>(g: &G, kind: Kind, name: fn(u32) -> &'static str) {
    let d = input::<T>(0);
    let cs = as_chars(&d);
    let mut want = Vec::new();
    let mut c = Ctx::new(&cs);
    c.say = Some(kind);
    let w = c.run(g, 0, &mut want);
    let pulls = Cell::new(0);
    let src = Src { d: &d, i: 0, pulls: &pulls };
    let mut w = w.ok();
    vp::real_format(true);
    let r = if vp::param(1) == 2 {
        if w.is_some() && w != Some(d.len()) {
            c.why.clear();
            c.why.push(Why::Text(b"input was not parsed completely".to_vec()));
            w = None;
            vp::cover(C_LEFT);
        }
        nommy::parse_terminated::<P, _>(src)
    } else {
        P::parse(&mut src.into_buf())
    };
    vp::check(r.is_ok() == w.is_some(), "an error is reported exactly when the text does not match");
    match r {
        Ok(_) => vp::cover(C_OK),
        Err(e) => {
            let mut path = 0;
            let mut i = 0;
            for e in e.chain() {
                vp::check(i < c.why.len(), "an error has no more causes than there are");
                let ok = match &c.why[i] {
                    Why::Part(p) => {
                        path = path * 100 + p;
                        is_text(e, name(path).as_bytes())
                    }
                    Why::Text(t) => is_text(e, t),
                };
                vp::check(ok, "an error says what was expected and what was found");
                i += 1;
                if vp::param(1) == 1 { break; }
            }
            vp::check(i == c.why.len() || vp::param(1) == 1, "an error leads to its cause");
            vp::cover(100 + i as u32);
        }
    }
    vp::real_format(false);
}
fn none(_: u32) -> &'static str { "?" }
static DIGITS: G = Any1("0123456789");
static AB: G = Lit("ab");
static ONE: G = One("ab");
static NOT: G = Not1(",");
macro_rules! leaf {
    ($p:ty, char, $g:expr) => {{ static GR: G = $g; why::<$p, char>(&GR, Kind::Chars, none) }};
    ($p:ty, u8, $g:expr) => {{ static GR: G = $g; why::<$p, u8>(&GR, Kind::Bytes, none) }};
}
crate::harnesses! {
    h_why_tag => leaf!(Tag<"ab">, char, Lit("ab"));
    h_why_tag_one => leaf!(Tag<"(">, char, Lit("("));
    h_why_tag_quote => leaf!(Tag<"\"'\\\n">, char, Lit("\"'\\\n"));
    h_why_btag => leaf!(bytes::Tag<b"a\xff">, u8, Lit("a\u{ff}"));
    h_why_one => leaf!(OneOf<"ab\n'">, char, One("ab\n'"));
    h_why_bone => leaf!(bytes::OneOf<b"a\xff">, u8, One("a\u{ff}"));
    h_why_any1 => leaf!(AnyOf1<"ab">, char, Any1("ab"));
    h_why_bany1 => leaf!(bytes::AnyOf1<b"ab">, u8, Any1("ab"));
    h_why_not => leaf!(WhileNot1<",">, char, Not1(","));
    h_why_eol => leaf!(LineEnding, char, Eol);
    h_why_space => leaf!(Space, char, Sp);
    h_why_ws => leaf!(WhiteSpace, char, Ws);
    h_why_arr => leaf!([Tag<"ab">; 3], char, Rep(3, &AB));
    h_why_arr_arr => leaf!([[OneOf<"ab">; 2]; 2], char, Rep(2, &Rep(2, &ONE)));
    h_why_barr => leaf!([bytes::Tag<b"a">; 2], u8, Rep(2, &Lit("a")));
    h_why_vec1 => leaf!(Vec1<Tag<"ab">>, char, Many1(&AB));
    h_why_box => leaf!(Box<[AnyOf1<"0123456789">; 1]>, char, Rep(1, &DIGITS));
    h_why_vec1_arr => leaf!(Vec1<[WhileNot1<",">; 2]>, char, Many1(&Rep(2, &NOT)));
    h_why_outer => why::<Outer, char>(&OUTER, Kind::Chars, |p| match p {
        11 => "failed to parse field `head`",
        1110 => "failed to parse prefix for field `elem0`",
        20 => "failed to parse prefix for field `rest`",
        22 => "failed to parse suffix for field `rest`",
        _ => "?",
    });
    h_why_tuple => why::<Tuple, char>(&TUPLE, Kind::Chars, |p| match p {
        11 => "failed to parse field `elem0`",
        20 => "failed to parse prefix for field `elem1`",
        21 => "failed to parse field `elem1`",
        32 => "failed to parse suffix for field `elem2`",
        _ => "?",
    });
    h_why_number => why::<Number, char>(&NUMBER, Kind::Chars, |p| match p {
        10 => "failed to parse prefix for field `n`",
        11 => "failed to parse field `n`",
        21 => "failed to parse field `unit`",
        _ => "?",
    });
    h_why_packet => why::<Packet, u8>(&PACKET, Kind::Bytes, |p| match p {
        PREFIX => "failed to parse prefix for struct `Packet`",
        11 => "failed to parse field `kind`",
        22 => "failed to parse suffix for field `body`",
        _ => "?",
    });
    h_why_two_inner => why::<TwoInner, char>(&TWO_INNER, Kind::Chars, |p| match p {
        10 => "failed to parse prefix for field `elem0`",
        _ => "?",
    });
    h_why_parens2 => why::<Parens2, char>(&PARENS2, Kind::Chars, |p| match p {
        PREFIX => "failed to parse prefix for struct `Parens`",
        SUFFIX => "failed to parse suffix for struct `Parens`",
        11 => "failed to parse field `inner`",
        1101 => "failed to parse prefix for struct `Parens`",
        1102 => "failed to parse suffix for struct `Parens`",
        1111 => "failed to parse field `inner`",
        _ => "?",
    });
    h_why_wrapped => why::<Wrapped, char>(&WRAPPED, Kind::Chars, |p| match p {
        PREFIX => "failed to parse prefix for enum `Wrapped`",
        SUFFIX => "failed to parse suffix for enum `Wrapped`",
        VARIANTS => "no variants of Wrapped could be parsed",
        _ => "?",
    });
    h_err_named => err::<Named, char>(&NAMED, |p| match p {
        PREFIX => "failed to parse prefix for struct `Named`",
        SUFFIX => "failed to parse suffix for struct `Named`",
        11 => "failed to parse field `name`",
        20 => "failed to parse prefix for field `val`",
        22 => "failed to parse suffix for field `val`",
        _ => "?",
    });
    h_err_tuple => err::<Tuple, char>(&TUPLE, |p| match p {
        11 => "failed to parse field `elem0`",
        20 => "failed to parse prefix for field `elem1`",
        21 => "failed to parse field `elem1`",
        32 => "failed to parse suffix for field `elem2`",
        _ => "?",
    });
    h_err_unit => err::<Unit, char>(&UNIT, |p| match p {
        PREFIX => "failed to parse prefix for struct `Unit`",
        SUFFIX => "failed to parse suffix for struct `Unit`",
        _ => "?",
    });
    h_err_number => err::<Number, char>(&NUMBER, |p| match p {
        10 => "failed to parse prefix for field `n`",
        11 => "failed to parse field `n`",
        13 => "",
        21 => "failed to parse field `unit`",
        _ => "?",
    });
    h_err_packet => err::<Packet, u8>(&PACKET, |p| match p {
        PREFIX => "failed to parse prefix for struct `Packet`",
        11 => "failed to parse field `kind`",
        22 => "failed to parse suffix for field `body`",
        _ => "?",
    });
    h_err_list => err::<ListSep, char>(&LIST_SEP, |p| match p {
        PREFIX => "failed to parse prefix for struct `ListSep`",
        SUFFIX => "failed to parse suffix for struct `ListSep`",
        _ => "?",
    });
    h_err_numbers => err::<Numbers, char>(&NUMBERS, |p| match p {
        10 => "failed to parse prefix for field `l`",
        12 => "failed to parse suffix for field `l`",
        13 => "",
        _ => "?",
    });
    h_err_wrapped => err::<Wrapped, char>(&WRAPPED, |p| match p {
        PREFIX => "failed to parse prefix for enum `Wrapped`",
        SUFFIX => "failed to parse suffix for enum `Wrapped`",
        VARIANTS => "no variants of Wrapped could be parsed",
        _ => "?",
    });
    h_err_shapes => err::<Shapes, char>(&SHAPES, |p| match p {
        VARIANTS => "no variants of Shapes could be parsed",
        _ => "?",
    });
    h_err_outer => err::<Outer, char>(&OUTER, |p| match p {
        11 => "failed to parse field `head`",
        20 => "failed to parse prefix for field `rest`",
        22 => "failed to parse suffix for field `rest`",
        _ => "?",
    });
}
