//! nommy::vec::parse_vec and its separated variants.
use crate::conf::*;
use crate::spec::Trail::*;
use crate::spec::*;
use crate::src::Src;
use crate::vp;
use nommy::{bytes, text::*, vec::*, Buffer, IntoBuf, Parse};
use std::cell::Cell;
use std::convert::TryInto;

#[derive(Clone, Copy, PartialEq)]
pub enum Kind { Plain, Sep, Yes, Maybe }

fn call<P, Q, S, I, T, B>(k: Kind, max: usize, b: &mut B) -> Out
where
    P: Parse<T> + TryInto<Q>,
    <P as TryInto<Q>>::Error: std::error::Error + Send + Sync + 'static,
    S: Parse<T>,
    I: Parse<T>,
    B: Buffer<T>,
    Q: Log,
{
    out(match k {
        Kind::Plain => parse_vec::<P, Q, I, T, B>(max, b),
        Kind::Sep => parse_vec_seperated_by::<P, Q, S, I, T, B>(max, b),
        Kind::Yes => parse_vec_seperated_by_trailing::<P, Q, S, I, T, B>(max, b),
        Kind::Maybe => parse_vec_seperated_by_maybe_trailing::<P, Q, S, I, T, B>(max, b),
    })
}

/// params: 0 longest input, 1 mode, 2 domain, 3 shortest input, 4 maximum: k - 1 to that much more, one by one, or anything above,
/// 5 (k), 6 and 7 see `input` (if 7 is not 0, the maximum is k or 2^64-1)
pub fn list<P, Q, S, I, T>(k: Kind, item: &G, sep: &'static G, ign: &'static G)
where
    P: Parse<T> + TryInto<Q>,
    <P as TryInto<Q>>::Error: std::error::Error + Send + Sync + 'static,
    S: Parse<T>,
    I: Parse<T>,
    T: Item,
    Q: Log,
{
    let most = vp::param(4);
    let m = vp::pick(0, most as u64 + 1);
    let base = if vp::param(5) == 0 { 0 } else { vp::param(5) - 1 };
    let max = if vp::param(7) != 0 {
        if vp::pick(0, 1) == 0 { base + 1 } else { u64::MAX as usize }
    } else if m > most { vp::int((base + m) as u64, u64::MAX) as usize } else { base + m };
    let mode = vp::param(1);
    if mode == LEAK { drop(nommy::eyre::eyre!("warm up")); }
    let before = vp::live();
    {
        let d = input::<T>(0);
        let n = d.len();
        let cs = as_chars(&d);
        let l = L { sep: if k == Kind::Plain { None } else { Some(sep) }, trail: match k { Kind::Yes => Yes, Kind::Maybe => Maybe, _ => No } };
        let mut want = Vec::new();
        let mut c = Ctx::new(&cs);
        let w = if max == 0 {
            want.push(M_LIST);
            want.push(M_END);
            Ok(0)
        } else {
            c.list(&[ign], item, &l, max, 0, &mut want)
        };
        let pulls = Cell::new(0);
        let mut b = Src { d: &d, i: 0, pulls: &pulls }.into_buf();
        let r = if mode == CTX {
            let mut cur = b.cursor();
            let r = call::<P, Q, S, I, T, _>(k, max, &mut cur);
            if let Ok(end) = w { left(&mut cur, &d[end..], "the list leaves everything it did not take"); }
            r
        } else {
            call::<P, Q, S, I, T, _>(k, max, &mut b)
        };
        r.observe();
        match w {
            Ok(end) => {
                vp::cover(C_OK);
                if end < n { vp::cover(C_LEFT); }
                vp::check(r.ok, "a list without a failing conversion is a success");
                vp::check(same(&r.log, &want), "the elements are those of the text, in order, up to the maximum");
                if mode == PULLS { vp::check(pulls.get() <= c.look, "the list reads no further than it needs"); }
                if mode != CTX { left(&mut b, &d[end..], "the list leaves everything it did not take"); }
            }
            Err(_) => {
                vp::cover(C_ERR);
                vp::check(!r.ok, "a failing conversion fails the list");
            }
        }
        if mode == CTX { left(&mut b, &d, "a list read through a cursor leaves the buffer alone"); }
    }
    if mode == LEAK { vp::check(vp::live() == before, "every allocation is released"); }
}

type Letter = OneOf<"ab">;
static LETTER: G = G::One("ab");
type Word = AnyOf1<"ab">;
static WORD: G = G::Any1("ab");
type Digits = AnyOf1<"01+">;
static NUM: G = G::Num("01+");
static COMMA: G = G::Lit(",");
static SP: G = G::Lit(" ");
// the separator begins like an element, and the ignored text like the separator
type Odd = Tag<"ab">;
static ODD: G = G::Lit("ab");
static ODD_SEP: G = G::Lit("a-");
static ODD_IGN: G = G::Lit("a_");
static WS: G = G::Ws;

crate::harnesses! {
    h_list_fn_plain => list::<Letter, char, Tag<",">, Tag<" ">, char>(Kind::Plain, &LETTER, &COMMA, &SP);
    h_list_fn_sep => list::<Letter, char, Tag<",">, Tag<" ">, char>(Kind::Sep, &LETTER, &COMMA, &SP);
    h_list_fn_yes => list::<Letter, char, Tag<",">, Tag<" ">, char>(Kind::Yes, &LETTER, &COMMA, &SP);
    h_list_fn_maybe => list::<Letter, char, Tag<",">, Tag<" ">, char>(Kind::Maybe, &LETTER, &COMMA, &SP);
    h_word_plain => list::<Word, String, Tag<",">, WhiteSpace, char>(Kind::Plain, &WORD, &COMMA, &WS);
    h_word_sep => list::<Word, String, Tag<",">, WhiteSpace, char>(Kind::Sep, &WORD, &COMMA, &WS);
    h_word_yes => list::<Word, String, Tag<",">, WhiteSpace, char>(Kind::Yes, &WORD, &COMMA, &WS);
    h_word_maybe => list::<Word, String, Tag<",">, WhiteSpace, char>(Kind::Maybe, &WORD, &COMMA, &WS);
    h_num_plain => list::<Digits, usize, Tag<",">, Tag<" ">, char>(Kind::Plain, &NUM, &COMMA, &SP);
    h_num_sep => list::<Digits, usize, Tag<",">, Tag<" ">, char>(Kind::Sep, &NUM, &COMMA, &SP);
    h_num_yes => list::<Digits, usize, Tag<",">, Tag<" ">, char>(Kind::Yes, &NUM, &COMMA, &SP);
    h_num_maybe => list::<Digits, usize, Tag<",">, Tag<" ">, char>(Kind::Maybe, &NUM, &COMMA, &SP);
    h_odd_plain => list::<Odd, Odd, Tag<"a-">, Tag<"a_">, char>(Kind::Plain, &ODD, &ODD_SEP, &ODD_IGN);
    h_odd_sep => list::<Odd, Odd, Tag<"a-">, Tag<"a_">, char>(Kind::Sep, &ODD, &ODD_SEP, &ODD_IGN);
    h_odd_yes => list::<Odd, Odd, Tag<"a-">, Tag<"a_">, char>(Kind::Yes, &ODD, &ODD_SEP, &ODD_IGN);
    h_odd_maybe => list::<Odd, Odd, Tag<"a-">, Tag<"a_">, char>(Kind::Maybe, &ODD, &ODD_SEP, &ODD_IGN);
    h_blist_sep => list::<bytes::OneOf<b"ab">, u8, bytes::Tag<b",">, bytes::Tag<b" ">, u8>(Kind::Sep, &LETTER, &COMMA, &SP);
    h_blist_maybe => list::<bytes::OneOf<b"ab">, u8, bytes::Tag<b",">, bytes::Tag<b" ">, u8>(Kind::Maybe, &LETTER, &COMMA, &SP);
}
