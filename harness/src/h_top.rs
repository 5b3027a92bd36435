//! parse and parse_terminated.
use crate::conf::*;
use crate::spec::*;
use crate::src::Src;
use crate::types::*;
use crate::vp;
use nommy::{bytes, parse, parse_terminated, text::*, Parse, Vec1};
use std::cell::Cell;

/// params: 0 longest input, 1 -, 2 domain, 3 shortest input, 5 and 6 see `input`
fn top<P: Parse<T> + Log, T: Item>(g: &G) {
    let d = input::<T>(0);
    let n = d.len();
    let cs = as_chars(&d);
    let mut want = Vec::new();
    let mut c = Ctx::new(&cs);
    let w = c.run(g, 0, &mut want);
    let (ok, end) = match w { Ok(e) => (true, e), Err(_) => (false, 0) };

    let r = out(parse::<P, _>(d.clone()));
    r.observe();
    vp::check(r.ok == ok, "parse succeeds exactly when a prefix of the input matches");
    if ok { vp::check(same(&r.log, &want), "parse returns the value of the match"); }

    let pulls = Cell::new(0);
    let r = out(parse_terminated::<P, _>(Src { d: &d, i: 0, pulls: &pulls }));
    r.observe();
    vp::check(r.ok == (ok && end == n), "parse_terminated succeeds exactly when the whole input matches");
    if r.ok { vp::check(same(&r.log, &want), "parse_terminated returns the value of the match"); }
    let most = if end + 1 > c.look { end + 1 } else { c.look };
    vp::check(pulls.get() <= most, "parse_terminated reads at most one item beyond the match");
    if ok { if end == n { vp::cover(C_OK) } else { vp::cover(C_LEFT) } } else { vp::cover(C_ERR) }
}
macro_rules! go { ($p:ty, $t:ty, $g:expr) => {{ static GR: G = $g; top::<$p, $t>(&GR) }} }
static AB: G = G::Lit("ab");
crate::harnesses! {
    h_top_tag => go!(Tag<"ab">, char, G::Lit("ab"));
    h_top_vec => go!(Vec<Tag<"ab">>, char, G::Many(&AB));
    h_top_vec1 => go!(Vec1<Tag<"ab">>, char, G::Many1(&AB));
    h_top_opt => go!(Option<Tag<"ab">>, char, G::Opt(&AB));
    h_top_not => go!(WhileNot1<"x">, char, G::Not1("x"));
    h_top_any => go!(AnyOf<"ab">, char, G::Any("ab"));
    h_top_eol => go!(LineEnding, char, G::Eol);
    h_top_bytes => go!(bytes::AnyOf1<b"\x00\xff">, u8, G::Any1("\u{0}\u{ff}"));
    h_top_struct => top::<Gaps, char>(&GAPS);
    h_top_list => top::<ListMaybe, char>(&LIST_MAYBE);
    h_top_enum => top::<Choice, char>(&CHOICE);
    h_top_exp => top::<Exp, char>(&EXP);
}
