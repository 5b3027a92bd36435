//! Parsers whose tags, sets, separators and ignored texts are themselves symbolic.
use crate::conf::{conf, Log};
use crate::h_vec::{list, Kind};
use crate::pats::*;
use crate::spec::Trail::*;
use crate::spec::G::*;
use crate::spec::*;
use crate::vp::{pattern as p, pattern_bytes as pb};
use nommy::{bytes, text::*, Parse, Vec1};

macro_rules! go { ($p:ty, $t:ty, $g:expr) => {{ static GR: G = $g; conf::<$p, $t>(&GR) }} }
macro_rules! log_fields {
    ($t:ident ( $($f:tt),* )) => {
        impl Log for $t {
            fn log(self, o: &mut Vec<u32>) { o.push(M_SEQ); $( self.$f.log(o); )* o.push(M_END); }
        }
    };
}

static GP1: G = Lit(P1);
static GQ1: G = Lit(Q1);
static GR1: G = Lit(R1);
static GS1: G = Lit(S1);
static GI1: G = Lit(I1);
static GI2: G = Lit(I2);
static GP2: G = Lit(P2);
static GQ2: G = Lit(Q2);
static OS1: G = One(S1);
static OP2: G = One(P2);
static AP2: G = Any1(P2);

/// struct and field fixes
#[derive(Parse)]
#[nommy(prefix = Tag<P1>, suffix = Tag<Q1>)]
pub struct SFix(#[nommy(prefix = Tag<R1>)] Option<Tag<S1>>, #[nommy(suffix = Tag<S1>)] Vec<OneOf<I1>>);
log_fields!(SFix(0, 1));
static SFIX: G = Seq(&S {
    ign: &[],
    pre: Some(&GP1),
    fields: &[F { pre: Some(&GR1), p: &Opt(&GS1), suf: None, list: None }, F { pre: None, p: &Many(&One(I1)), suf: Some(&GS1), list: None }],
    suf: Some(&GQ1),
});

/// ignored texts between them
#[derive(Parse)]
#[nommy(parse_type = char, prefix = Tag<P1>, ignore = Tag<I1>, suffix = Tag<Q1>)]
pub struct SIgn(#[nommy(prefix = Tag<R1>, suffix = Tag<S1>)] Option<Tag<P2>>);
log_fields!(SIgn(0));
static SIGN: G = Seq(&S {
    ign: &[&GI1],
    pre: Some(&GP1),
    fields: &[F { pre: Some(&GR1), p: &Opt(&GP2), suf: Some(&GS1), list: None }],
    suf: Some(&GQ1),
});

/// two ignored texts, one of them longer
#[derive(Parse)]
#[nommy(parse_type = char, ignore = Tag<I2>, ignore = Tag<I1>)]
pub struct STwo(Tag<P1>, Option<Tag<Q1>>, Tag<R1>);
log_fields!(STwo(0, 1, 2));
static STWO: G = Seq(&S { ign: &[&GI2, &GI1], pre: None, fields: &[f(&GP1), f(&Opt(&GQ1)), f(&GR1)], suf: None });

macro_rules! listed {
    ($t:ident, $g:ident, ($($attr:tt)*), $trail:expr) => {
        #[derive(Parse)]
        #[nommy(parse_type = char, ignore = Tag<I1>)]
        pub struct $t(#[nommy(inner_parser = Tag<P1>, seperated_by = Tag<S1> $($attr)*)] Vec<Tag<P1>>, #[nommy(prefix = Tag<Q1>)] Option<Tag<R1>>);
        log_fields!($t(0, 1));
        static $g: G = Seq(&S {
            ign: &[&GI1],
            pre: None,
            fields: &[F { pre: None, p: &GP1, suf: None, list: Some(L { sep: Some(&GS1), trail: $trail }) },
                      F { pre: Some(&GQ1), p: &Opt(&GR1), suf: None, list: None }],
            suf: None,
        });
    };
}
listed!(SListNo, SLIST_NO, (), No);
listed!(SListYes, SLIST_YES, (, trailing = "yes"), Yes);
listed!(SListMaybe, SLIST_MAYBE, (, trailing = "maybe"), Maybe);

/// alternatives that may begin alike, with common fixes
#[derive(Parse)]
#[nommy(parse_type = char, prefix = Tag<P1>, suffix = Tag<Q1>, ignore = Tag<I1>)]
pub enum SAlt {
    #[nommy(prefix = Tag<R1>)]
    One(Tag<S1>),
    Two(Tag<P2>),
    #[nommy(suffix = Tag<Q1>)]
    Three(Tag<Q2>, Option<Tag<R1>>),
}
impl Log for SAlt {
    fn log(self, o: &mut Vec<u32>) {
        match self {
            SAlt::One(x) => { o.push(M_VAR); x.log(o) }
            SAlt::Two(x) => { o.push(M_VAR + 1); x.log(o) }
            SAlt::Three(x, y) => { o.push(M_VAR + 2); x.log(o); y.log(o) }
        }
        o.push(M_END);
    }
}
static SALT: G = Alt(&A {
    ign: &[&GI1],
    pre: Some(&GP1),
    vars: &[
        &S { ign: &[&GI1], pre: Some(&GR1), fields: &[f(&GS1)], suf: None },
        &S { ign: &[&GI1], pre: None, fields: &[f(&GP2)], suf: None },
        &S { ign: &[&GI1], pre: None, fields: &[f(&GQ2), f(&Opt(&GR1))], suf: Some(&GQ1) },
    ],
    suf: Some(&GQ1),
});

/// recursive, with symbolic brackets
#[derive(Parse)]
#[nommy(parse_type = char, prefix = Tag<P1>, suffix = Tag<Q1>)]
pub struct STree(Vec<STree>, Option<Tag<R1>>);
log_fields!(STree(0, 1));
static STREE: G = Seq(&S { ign: &[], pre: Some(&GP1), fields: &[f(&Many(&STREE)), f(&Opt(&GR1))], suf: Some(&GQ1) });

crate::harnesses! {
    h_sym_tag1 => { p(P1); go!(Tag<P1>, char, Lit(P1)) };
    h_sym_tag2 => { p(P2); go!(Tag<P2>, char, Lit(P2)) };
    h_sym_tag4 => { p(P4); go!(Tag<P4>, char, Lit(P4)) };
    h_sym_tag_wide1 => { p(W1); go!(Tag<W1>, char, Lit(W1)) };
    h_sym_tag_wide2 => { p(W2); go!(Tag<W2>, char, Lit(W2)) };
    h_sym_tag_wide4 => { p(W4); go!(Tag<W4>, char, Lit(W4)) };
    h_sym_tag_wide_x => { p(X2); go!(Tag<X2>, char, Lit(X2)) };
    h_sym_btag => { pb(B1); go!(bytes::Tag<B1>, u8, LitB(B1)) };
    h_sym_btag4 => { pb(B4); go!(bytes::Tag<B4>, u8, LitB(B4)) };
    h_sym_bone1 => { pb(B3); go!(bytes::OneOf<B3>, u8, OneB(B3)) };
    h_sym_bone => { pb(B2); go!(bytes::OneOf<B2>, u8, OneB(B2)) };
    h_sym_bany => { pb(B2); go!(bytes::AnyOf1<B2>, u8, Any1B(B2)) };
    h_sym_one1 => { p(P1); go!(OneOf<P1>, char, One(P1)) };
    h_sym_one => { p(P3); go!(OneOf<P3>, char, One(P3)) };
    h_sym_one_wide => { p(W4); go!(OneOf<W4>, char, One(W4)) };
    h_sym_any => { p(P2); go!(AnyOf<P2>, char, Any(P2)) };
    h_sym_any_wide => { p(W2); go!(AnyOf<W2>, char, Any(W2)) };
    h_sym_any1 => { p(P3); go!(AnyOf1<P3>, char, Any1(P3)) };
    h_sym_any1_wide => { p(X2); go!(AnyOf1<X2>, char, Any1(X2)) };
    h_sym_not1 => { p(P1); go!(WhileNot1<P1>, char, Not1(P1)) };
    h_sym_not => { p(P2); go!(WhileNot1<P2>, char, Not1(P2)) };
    h_sym_not_wide => { p(W2); go!(WhileNot1<W2>, char, Not1(W2)) };
    h_sym_opt => { p(P2); go!(Option<Tag<P2>>, char, Opt(&GP2)) };
    h_sym_vec => { p(P2); go!(Vec<Tag<P2>>, char, Many(&GP2)) };
    h_sym_vec1 => { p(P2); go!(Vec1<Box<OneOf<P2>>>, char, Many1(&OP2)) };
    h_sym_arr => { p(P2); go!([Tag<P2>; 2], char, Rep(2, &GP2)) };
    h_sym_fix => { p(P1); p(Q1); p(R1); p(S1); p(I1); conf::<SFix, char>(&SFIX) };
    h_sym_ign => { p(P1); p(Q1); p(R1); p(S1); p(I1); p(P2); conf::<SIgn, char>(&SIGN) };
    h_sym_two => { p(P1); p(Q1); p(R1); p(I1); p(I2); conf::<STwo, char>(&STWO) };
    h_sym_list_no => { p(P1); p(Q1); p(R1); p(S1); p(I1); conf::<SListNo, char>(&SLIST_NO) };
    h_sym_list_yes => { p(P1); p(Q1); p(R1); p(S1); p(I1); conf::<SListYes, char>(&SLIST_YES) };
    h_sym_list_maybe => { p(P1); p(Q1); p(R1); p(S1); p(I1); conf::<SListMaybe, char>(&SLIST_MAYBE) };
    h_sym_alt => { p(P1); p(Q1); p(R1); p(S1); p(I1); p(P2); p(Q2); conf::<SAlt, char>(&SALT) };
    h_sym_tree => { p(P1); p(Q1); p(R1); conf::<STree, char>(&STREE) };
    h_symfn_plain => { p(S1); p(I1); list::<OneOf<S1>, char, Tag<P1>, Tag<I1>, char>(Kind::Plain, &OS1, &GP1, &GI1) };
    h_symfn_sep => { p(S1); p(P1); p(I1); list::<OneOf<S1>, char, Tag<P1>, Tag<I1>, char>(Kind::Sep, &OS1, &GP1, &GI1) };
    h_symfn_yes => { p(S1); p(P1); p(I1); list::<OneOf<S1>, char, Tag<P1>, Tag<I1>, char>(Kind::Yes, &OS1, &GP1, &GI1) };
    h_symfn_maybe => { p(S1); p(P1); p(I1); list::<OneOf<S1>, char, Tag<P1>, Tag<I1>, char>(Kind::Maybe, &OS1, &GP1, &GI1) };
    h_symfn_long_sep => { p(P2); p(Q2); p(I1); list::<Tag<P2>, Tag<P2>, Tag<Q2>, Tag<I1>, char>(Kind::Sep, &GP2, &GQ2, &GI1) };
    h_symfn_long_yes => { p(P2); p(Q2); p(I1); list::<Tag<P2>, Tag<P2>, Tag<Q2>, Tag<I1>, char>(Kind::Yes, &GP2, &GQ2, &GI1) };
    h_symfn_long_maybe => { p(P2); p(Q2); p(I1); list::<Tag<P2>, Tag<P2>, Tag<Q2>, Tag<I1>, char>(Kind::Maybe, &GP2, &GQ2, &GI1) };
    h_symfn_word_maybe => { p(P2); p(S1); p(I1); list::<AnyOf1<P2>, String, Tag<S1>, Tag<I1>, char>(Kind::Maybe, &AP2, &GS1, &GI1) };
}
