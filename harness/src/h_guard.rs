//! Repeating, making optional or ignoring what can match nothing: stopped by a panic in debug builds, exactly then.
use crate::conf::*;
use crate::spec::Trail::*;
use crate::spec::G::{self, *};
use crate::spec::*;
use crate::src::Src;
use crate::vp;
use nommy::{bytes, text::*, Buffer, IntoBuf, Parse, Vec1};
use std::cell::Cell;

macro_rules! go { ($p:ty, $t:ty, $g:expr) => {{ static GR: G = $g; guard::<$p, $t>(&GR) }} }

/// params: 0 longest input, 2 domain, 3 shortest input, 5 and 6 see `input`
fn guard<P: Parse<T>, T: Item>(g: &G) {
    let d = input::<T>(0);
    let cs = as_chars(&d);
    let mut c = Ctx::new(&cs);
    let w = c.run(g, 0, &mut Vec::new());
    vp::cover(if c.stuck { 4 } else if w.is_ok() { C_OK } else { C_ERR });
    let how = vp::pick(0, 3);
    vp::cover(10 + how as u32);
    if c.stuck && !cfg!(debug_assertions) {
        return; // the guards are for debug builds only
    }
    vp::allow_panic(c.stuck);
    let pulls = Cell::new(0);
    let mut b = Src { d: &d, i: 0, pulls: &pulls }.into_buf();
    let ok = match how {
        0 => P::parse(&mut b).is_ok(),
        1 => P::peek(&mut b),
        2 => P::parse(&mut b.cursor().cursor()).is_ok(),
        _ => P::peek(&mut b.cursor().cursor()),
    };
    vp::allow_panic(false);
    vp::check(!c.stuck, "a parser that matched nothing is not repeated, made optional or ignored without a panic");
    vp::check(ok == w.is_ok(), "accepts exactly what its grammar accepts");
    vp::observe(ok as u64);
}

static SPS: G = Any(" ");
static A: G = Lit("a");
static B: G = Lit("b");
static OA: G = Opt(&A);
static OB: G = Opt(&B);

/// ignores a run that may be empty
#[derive(Parse)]
#[nommy(ignore = Tag<"#">, ignore = AnyOf<" ">)]
pub struct Blanks(Tag<"a">, Tag<"b">);
static BLANKS: G = Seq(&S { ign: &[&Lit("#"), &SPS], pre: None, fields: &[f(&A), f(&B)], suf: None });

/// may match nothing
#[derive(Parse)]
pub struct Maybe { #[allow(dead_code)] a: Option<Tag<"a">>, #[allow(dead_code)] b: Option<Tag<"b">> }
static MAYBE: G = Seq(&S { ign: &[], pre: None, fields: &[f(&OA), f(&OB)], suf: None });

/// the first variant gets stuck when it is reached
#[derive(Parse)]
pub enum Trap { #[allow(dead_code)] Runs(Tag<"a">, Vec<AnyOf<"x">>), Pair(#[allow(dead_code)] Tag<"bc">), Void }
static TRAP: G = Alt(&crate::spec::A {
    ign: &[], pre: None, suf: None,
    vars: &[
        &S { ign: &[], pre: None, fields: &[f(&A), f(&Many(&Any("x")))], suf: None },
        &S { ign: &[], pre: None, fields: &[f(&Lit("bc"))], suf: None },
        &S { ign: &[], pre: None, fields: &[], suf: None },
    ],
});

/// a list whose ignored text may be empty
#[derive(Parse)]
#[nommy(ignore = AnyOf<"-">, parse_type = char)]
pub struct Listed(#[nommy(inner_parser = Tag<"a">, seperated_by = Tag<",">, trailing = "maybe")] #[allow(dead_code)] Vec<Tag<"a">>);
static LISTED: G = Seq(&S { ign: &[&Any("-")], pre: None, fields: &[F { pre: None, p: &A, suf: None, list: Some(L { sep: Some(&Lit(",")), trail: Maybe }) }], suf: None });

crate::harnesses! {
    h_guard_vec_opt => go!(Vec<Option<Tag<"ab">>>, char, Many(&Opt(&Lit("ab"))));
    h_guard_vec_run => go!(Vec<AnyOf<"ab\u{e9}">>, char, Many(&Any("ab\u{e9}")));
    h_guard_vec_empty => go!(Vec<Tag<"">>, char, Many(&Lit("")));
    h_guard_vec_vec => go!(Vec<Vec<OneOf<"ab">>>, char, Many(&Many(&One("ab"))));
    h_guard_vec_arr => go!(Vec<[Option<Tag<"a">>; 2]>, char, Many(&Rep(2, &OA)));
    h_guard_vec_box => go!(Vec<Box<AnyOf<"ab">>>, char, Many(&Any("ab")));
    h_guard_vec_maybe => go!(Vec<Maybe>, char, Many(&MAYBE));
    h_guard_vec_trap => go!(Vec<Trap>, char, Many(&TRAP));
    h_guard_vec1_opt => go!(Vec1<Option<Tag<"ab">>>, char, Many1(&Opt(&Lit("ab"))));
    h_guard_vec1_run => go!(Vec1<AnyOf<"ab">>, char, Many1(&Any("ab")));
    h_guard_vec1_maybe => go!(Vec1<Maybe>, char, Many1(&MAYBE));
    h_guard_opt_run => go!(Option<AnyOf<"ab">>, char, Opt(&Any("ab")));
    h_guard_opt_opt => go!(Option<Option<Tag<"ab">>>, char, Opt(&Opt(&Lit("ab"))));
    h_guard_opt_vec => go!(Option<Vec<Tag<"ab">>>, char, Opt(&Many(&Lit("ab"))));
    h_guard_opt_maybe => go!(Option<Maybe>, char, Opt(&MAYBE));
    h_guard_opt_trap => go!(Option<Trap>, char, Opt(&TRAP));
    h_guard_arr => go!([Option<AnyOf<"ab">>; 2], char, Rep(2, &Opt(&Any("ab"))));
    h_guard_blanks => guard::<Blanks, char>(&BLANKS);
    h_guard_listed => guard::<Listed, char>(&LISTED);
    h_guard_bytes => go!(Vec<Option<bytes::Tag<b"ab">>>, u8, Many(&Opt(&Lit("ab"))));
    h_guard_opt_bytes => go!(Option<Vec<bytes::OneOf<b"ab">>>, u8, Opt(&Many(&One("ab"))));
}
