//! Built-in parsers and combinators against their grammars.
use crate::conf::conf;
use crate::spec::G::{self, *};
use nommy::{bytes, text::*, Vec1};

type Digits = AnyOf1<"0123456789">;

static DIGITS: G = Any1("0123456789");
static ONE: G = One("ab\u{e9}");
static TAB: G = Lit("ab");

macro_rules! go { ($p:ty, $t:ty, $g:expr) => {{ static GR: G = $g; conf::<$p, $t>(&GR) }} }

/// the stub for `str::contains(char)` against the function itself
/// params: 0 which set
fn contains() {
    let sets = ["ab\u{e9}", "0123456789", "\u{20ac}x\u{1f600}", "a", "", "\u{e9}\u{e8}\u{20ac}\u{1f600}"];
    let set = sets[crate::vp::param(0)];
    let c = crate::vp::any_char();
    let stub = set.contains(c);
    crate::vp::real_contains(true);
    let real = set.contains(c);
    crate::vp::real_contains(false);
    crate::vp::check(stub == real, "str::contains(char) is membership");
    crate::vp::observe(real as u64);
    crate::vp::cover(1 + real as u32);
}

/// What a repetition holds, through each of its accessors. params: as `conf`
fn views() {
    use crate::conf::input;
    use nommy::Parse;
    let d = input::<char>(0);
    let pulls = std::cell::Cell::new(0);
    let mut b = nommy::IntoBuf::into_buf(crate::src::Src { d: &d, i: 0, pulls: &pulls });
    let mut n = 0;
    while n < d.len() && (d[n] == 'a' || d[n] == '\u{e9}') { n += 1; }
    match Vec1::<OneOf<"a\u{e9}">>::parse(&mut b) {
        Err(_) => {
            crate::vp::check(n == 0, "fails only without a first match");
            crate::vp::cover(2);
        }
        Ok(mut v) => {
            crate::vp::check(n > 0 && v.as_ref().len() == n, "as_ref shows every match");
            let mut i = 0;
            while i < n {
                crate::vp::check(char::from(v.as_ref()[i].clone()) == d[i], "as_ref shows the matches in order");
                crate::vp::check((v.as_ref()[i] == v.as_ref()[0]) == (d[i] == d[0]), "matches are equal when their items are");
                i += 1;
            }
            let c = v.clone();
            crate::vp::check(c == v, "a copy is equal");
            let x = v.as_ref()[0].clone();
            v.as_mut().push(x);
            crate::vp::check(c != v, "what is changed through as_mut is changed");
            let l: Vec<OneOf<"a\u{e9}">> = v.into();
            crate::vp::check(l.len() == n + 1 && char::from(l[n].clone()) == d[0], "converting to a Vec keeps everything");
            crate::vp::check(char::from(l[n - 1].clone()) == d[n - 1], "converting to a Vec keeps everything");
            crate::vp::cover(1);
        }
    }
}

const T300: &str = concat!("aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa",
    "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa",
    "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaX");
const B300: &[u8] = T300.as_bytes();

crate::harnesses! {
    h_tag_300 => go!(Tag<T300>, char, Lit(T300));
    h_btag_300 => go!(bytes::Tag<B300>, u8, Lit(T300));
    h_arr300 => go!([OneOf<"ab">; 300], char, Rep(300, &One("ab")));
    h_barr300 => go!([bytes::OneOf<b"ab\xe9">; 300], u8, Rep(300, &ONE));
    h_views => views();
    h_contains => contains();
    h_tag_empty => go!(Tag<"">, char, Lit(""));
    h_tag_long => go!(Tag<"function">, char, Lit("function"));
    h_one_of_empty => go!(OneOf<"">, char, One(""));
    h_one_of_big => go!(OneOf<"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-\u{e9}\u{3b1}\u{20ac}">, char, One("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-\u{e9}\u{3b1}\u{20ac}"));
    h_any_of_empty => go!(AnyOf<"">, char, Any(""));
    h_any_of1_big => go!(AnyOf1<"abcdefghijklmnopqrstuvwxyz_\u{e9}\u{3b1}">, char, Any1("abcdefghijklmnopqrstuvwxyz_\u{e9}\u{3b1}"));
    h_while_not_empty => go!(WhileNot1<"">, char, Not1(""));
    h_while_not_wide => go!(WhileNot1<"\u{20ac}\u{1f600}">, char, Not1("\u{20ac}\u{1f600}"));
    h_btag_empty => go!(bytes::Tag<b"">, u8, Lit(""));
    h_btag_long => go!(bytes::Tag<b"\x7fELF\x02\x01">, u8, Lit("\u{7f}ELF\u{2}\u{1}"));
    h_bone_of_big => go!(bytes::OneOf<b"abcdefghijklmnopqrstuvwxyz0123456789\x80\x81\xc3\xfe">, u8, One("abcdefghijklmnopqrstuvwxyz0123456789\u{80}\u{81}\u{c3}\u{fe}"));
    h_bone_of_empty => go!(bytes::OneOf<b"">, u8, One(""));
    h_tag_40 => go!(Tag<"0123456789abcdefghij0123456789abcdefghiX">, char, Lit("0123456789abcdefghij0123456789abcdefghiX"));
    h_btag_40 => go!(bytes::Tag<b"0123456789abcdefghij0123456789abcdefghiX">, u8, Lit("0123456789abcdefghij0123456789abcdefghiX"));
    h_arr40 => go!([OneOf<"ab\u{e9}">; 40], char, Rep(40, &ONE));
    h_barr40 => go!([bytes::OneOf<b"ab\xe9">; 40], u8, Rep(40, &ONE));
    h_opt_vec1 => go!(Option<Vec1<Tag<"ab">>>, char, Opt(&Many1(&TAB)));
    h_opt_not => go!(Option<WhileNot1<",">>, char, Opt(&Not1(",")));
    h_opt_btag => go!(Option<bytes::Tag<b"ab">>, u8, Opt(&TAB));
    h_box_vec => go!(Box<Vec<Box<Tag<"ab">>>>, char, Many(&TAB));
    h_arr5_tag => go!([Tag<"ab">; 5], char, Rep(5, &TAB));
    h_arr_arr => go!([[OneOf<"ab\u{e9}">; 2]; 2], char, Rep(2, &Rep(2, &ONE)));
    h_vec_vec1_tag => go!(Vec<Vec1<Tag<"ab">>>, char, Many(&Many1(&TAB)));
    h_vec_not => go!(Vec<WhileNot1<",">>, char, Many(&Not1(",")));
    h_tag_one => go!(Tag<"(">, char, Lit("("));
    h_tag_word => go!(Tag<"null">, char, Lit("null"));
    h_tag_rep => go!(Tag<"aab">, char, Lit("aab"));
    h_tag_two_byte => go!(Tag<"\u{e9}a">, char, Lit("\u{e9}a"));
    h_tag_wide => go!(Tag<"\u{20ac}\u{1f600}">, char, Lit("\u{20ac}\u{1f600}"));
    h_btag => go!(bytes::Tag<b"GET">, u8, Lit("GET"));
    h_btag_hi => go!(bytes::Tag<b"\x00\xff">, u8, Lit("\u{0}\u{ff}"));
    h_one_of => go!(OneOf<"ab\u{e9}">, char, One("ab\u{e9}"));
    h_one_of_wide => go!(OneOf<"\u{20ac}x\u{1f600}">, char, One("\u{20ac}x\u{1f600}"));
    h_bone_of => go!(bytes::OneOf<b"\x00a\xff">, u8, One("\u{0}a\u{ff}"));
    h_any_of => go!(AnyOf<"ab\u{e9}">, char, Any("ab\u{e9}"));
    h_any_of1 => go!(AnyOf1<"ab\u{e9}">, char, Any1("ab\u{e9}"));
    h_any_of1_wide => go!(AnyOf1<"\u{20ac}\u{1f600}">, char, Any1("\u{20ac}\u{1f600}"));
    h_bany_of1 => go!(bytes::AnyOf1<b"\x00a\xff">, u8, Any1("\u{0}a\u{ff}"));
    h_while_not => go!(WhileNot1<"\"\u{e9}">, char, Not1("\"\u{e9}"));
    h_while_not_one => go!(WhileNot1<"\n">, char, Not1("\n"));
    h_eol => go!(LineEnding, char, Eol);
    h_space => go!(Space, char, Sp);
    h_ws => go!(WhiteSpace, char, Ws);

    h_opt_tag => go!(Option<Tag<"ab">>, char, Opt(&TAB));
    h_opt_one => go!(Option<OneOf<"ab\u{e9}">>, char, Opt(&ONE));
    h_opt_eol => go!(Option<LineEnding>, char, Opt(&Eol));
    h_opt_digits => go!(Option<Digits>, char, Opt(&DIGITS));
    h_opt_arr => go!(Option<[OneOf<"ab\u{e9}">; 2]>, char, Opt(&Rep(2, &ONE)));
    h_box_tag => go!(Box<Tag<"ab">>, char, Lit("ab"));
    h_box_opt => go!(Box<Option<Box<Digits>>>, char, Opt(&DIGITS));
    h_vec_tag => go!(Vec<Tag<"ab">>, char, Many(&TAB));
    h_vec_one => go!(Vec<OneOf<"ab\u{e9}">>, char, Many(&ONE));
    h_vec_ws => go!(Vec<WhiteSpace>, char, Many(&Ws));
    h_vec_eol => go!(Vec<LineEnding>, char, Many(&Eol));
    h_vec1_tag => go!(Vec1<Tag<"ab">>, char, Many1(&TAB));
    h_vec1_ws => go!(Vec1<WhiteSpace>, char, Many1(&Ws));
    h_bvec_tag => go!(Vec<bytes::Tag<b"ab">>, u8, Many(&TAB));
    h_bvec1_one => go!(Vec1<bytes::OneOf<b"ab\xe9">>, u8, Many1(&ONE));
    h_arr0 => go!([Tag<"ab">; 0], char, Rep(0, &TAB));
    h_arr2_tag => go!([Tag<"ab">; 2], char, Rep(2, &TAB));
    h_arr3_one => go!([OneOf<"ab\u{e9}">; 3], char, Rep(3, &ONE));
    h_arr2_eol => go!([LineEnding; 2], char, Rep(2, &Eol));
    h_arr2_digits => go!([Option<Digits>; 2], char, Rep(2, &Opt(&DIGITS)));
    h_barr2 => go!([bytes::OneOf<b"ab\xe9">; 2], u8, Rep(2, &ONE));
    h_arr_of_vec1 => go!([Vec1<OneOf<"ab\u{e9}">>; 1], char, Rep(1, &Many1(&ONE)));
    h_vec_arr => go!(Vec<[OneOf<"ab\u{e9}">; 2]>, char, Many(&Rep(2, &ONE)));
    h_vec_vec1 => go!(Vec<Vec1<WhiteSpace>>, char, Many(&Many1(&Ws)));
    h_vec1_box_arr => go!(Vec1<Box<[Space; 2]>>, char, Many1(&Rep(2, &Sp)));
}
