//! Derived parsers covering the attribute surface, each with its reference grammar (a static of the
//! same name in upper case) and its log.
use crate::conf::Log;
use crate::spec::Trail::*;
use crate::spec::G::*;
use crate::spec::*;
use nommy::{bytes, text::*, Buffer, Parse, Vec1};

macro_rules! log_as {
    ($t:ident { $($f:ident),* }) => {
        impl Log for $t {
            fn log(self, o: &mut Vec<u32>) { o.push(M_SEQ); $( self.$f.log(o); )* o.push(M_END); }
        }
    };
    ($t:ident ( $($f:tt),* )) => {
        impl Log for $t {
            fn log(self, o: &mut Vec<u32>) { o.push(M_SEQ); $( self.$f.log(o); )* o.push(M_END); }
        }
    };
}
fn var(o: &mut Vec<u32>, i: u32) { o.push(M_VAR + i) }

static A: G = Lit("a");
static B: G = Lit("b");
static C: G = Lit("c");
static X: G = Lit("x");
static COMMA: G = Lit(",");
static AB1: G = Any1("ab");
static SP: G = Lit(" ");
static DASH: G = Lit("-");
static OPEN: G = Lit("(");
static CLOSE: G = Lit(")");

// ---------------------------------------------------------------- structs

/// everything a named struct can carry, generic over the input type
#[derive(Parse)]
#[nommy(prefix = Tag<"<">, suffix = Tag<">">)]
#[nommy(ignore = Tag<" ">)]
pub struct Named {
    #[nommy(parser = AnyOf1<"ab">)]
    name: String,
    #[nommy(prefix = Tag<":">, suffix = Tag<";">)]
    val: Option<Tag<"x">>,
}
log_as!(Named { name, val });
pub static NAMED: G = Seq(&S {
    ign: &[&SP],
    pre: Some(&Lit("<")),
    fields: &[f(&AB1), F { pre: Some(&Lit(":")), p: &Opt(&X), suf: Some(&Lit(";")), list: None }],
    suf: Some(&Lit(">")),
});

/// a tuple struct without ignores
#[derive(Parse)]
pub struct Tuple(
    Tag<"a">,
    #[nommy(prefix = Tag<"-">, parser = OneOf<"xy">)] char,
    #[nommy(suffix = Tag<"b">)] Vec<Tag<"c">>,
);
log_as!(Tuple(0, 1, 2));
pub static TUPLE: G = Seq(&S {
    ign: &[],
    pre: None,
    fields: &[f(&A), F { pre: Some(&DASH), p: &One("xy"), suf: None, list: None }, F { pre: None, p: &Many(&C), suf: Some(&B), list: None }],
    suf: None,
});

/// a unit struct with both fixes, fixed to char
#[derive(Parse)]
#[nommy(parse_type = char, prefix = Tag<"ab">, suffix = Tag<"c">, ignore = WhiteSpace)]
pub struct Unit;
impl Log for Unit { fn log(self, o: &mut Vec<u32>) { o.push(M_SEQ); o.push(M_END) } }
pub static UNIT: G = Seq(&S { ign: &[&Ws], pre: Some(&Lit("ab")), fields: &[], suf: Some(&C) });

/// two ignored types, one of them several characters long
#[derive(Parse)]
#[nommy(ignore = Tag<" ">, ignore = Tag<"#b">, parse_type = char)]
pub struct TwoIgnores {
    x: Tag<"a">,
    #[nommy(suffix = Tag<"-">)]
    y: Option<Tag<"b">>,
}
log_as!(TwoIgnores { x, y });
pub static TWO_IGNORES: G = Seq(&S {
    ign: &[&SP, &Lit("#b")],
    pre: None,
    fields: &[f(&A), F { pre: None, p: &Opt(&B), suf: Some(&DASH), list: None }],
    suf: None,
});

/// an optional suffix, a prefix that is itself a repetition
#[derive(Parse)]
#[nommy(prefix = Vec1<Tag<"-">>, suffix = Option<Tag<",">>)]
pub struct Fixes {
    #[nommy(prefix = Option<Tag<"a">>, parser = AnyOf1<"ab">)]
    x: String,
}
log_as!(Fixes { x });
pub static FIXES: G = Seq(&S {
    ign: &[],
    pre: Some(&Many1(&DASH)),
    fields: &[F { pre: Some(&Opt(&A)), p: &AB1, suf: None, list: None }],
    suf: Some(&Opt(&COMMA)),
});

/// a number: the conversion can fail
#[derive(Parse)]
#[nommy(ignore = Tag<" ">)]
pub struct Number {
    #[nommy(prefix = Tag<"#">, parser = AnyOf1<"0123456789+">)]
    n: usize,
    #[nommy(parser = OneOf<"km">)]
    unit: char,
}
log_as!(Number { n, unit });
pub static NUMBER: G = Seq(&S {
    ign: &[&SP],
    pre: None,
    fields: &[F { pre: Some(&Lit("#")), p: &Num("0123456789+"), suf: None, list: None }, f(&One("km"))],
    suf: None,
});

/// over bytes
#[derive(Parse)]
#[nommy(parse_type = u8, ignore = bytes::Tag<b"\x00">, prefix = bytes::Tag<b"\xff\xfe">)]
pub struct Packet {
    kind: bytes::OneOf<b"\x01\x02">,
    #[nommy(suffix = bytes::Tag<b"\xff">)]
    body: Option<bytes::AnyOf1<b"ab">>,
}
log_as!(Packet { kind, body });
pub static PACKET: G = Seq(&S {
    ign: &[&Lit("\u{0}")],
    pre: Some(&Lit("\u{ff}\u{fe}")),
    fields: &[f(&One("\u{1}\u{2}")), F { pre: None, p: &Opt(&AB1), suf: Some(&Lit("\u{ff}")), list: None }],
    suf: None,
});

/// generic in a parser
#[derive(Parse)]
#[nommy(prefix = Tag<"(">, suffix = Tag<")">, ignore = Tag<" ">)]
pub struct Parens<P> {
    inner: P,
}
impl<P: Log> Log for Parens<P> {
    fn log(self, o: &mut Vec<u32>) { o.push(M_SEQ); self.inner.log(o); o.push(M_END) }
}
pub type ParensTag = Parens<Vec<Tag<"ab">>>;
pub static PARENS: G = Seq(&S { ign: &[&SP], pre: Some(&OPEN), fields: &[f(&Many(&Lit("ab")))], suf: Some(&CLOSE) });
pub type Parens2 = Parens<Parens<Tag<"a">>>;
pub static PARENS2: G = Seq(&S {
    ign: &[&SP],
    pre: Some(&OPEN),
    fields: &[f(&Seq(&S { ign: &[&SP], pre: Some(&OPEN), fields: &[f(&A)], suf: Some(&CLOSE) }))],
    suf: Some(&CLOSE),
});

/// nothing at all
#[derive(Parse)]
pub struct Empty;
impl Log for Empty { fn log(self, o: &mut Vec<u32>) { o.push(M_SEQ); o.push(M_END) } }
pub static EMPTY: G = Seq(&S { ign: &[], pre: None, fields: &[], suf: None });

/// structs nested in containers; the inner ignore differs from the outer one
#[derive(Parse)]
#[nommy(ignore = Tag<" ">)]
pub struct Outer {
    head: Box<Inner>,
    #[nommy(prefix = Tag<"(">, suffix = Tag<")">)]
    rest: Vec<Inner>,
}
#[derive(Parse)]
#[nommy(ignore = Tag<"_">)]
pub struct Inner(#[nommy(prefix = Tag<"a">)] Option<Tag<"b">>);
log_as!(Outer { head, rest });
log_as!(Inner(0));
static INNER: G = Seq(&S { ign: &[&Lit("_")], pre: None, fields: &[F { pre: Some(&A), p: &Opt(&B), suf: None, list: None }], suf: None });
pub static OUTER: G = Seq(&S {
    ign: &[&SP],
    pre: None,
    fields: &[f(&INNER), F { pre: Some(&OPEN), p: &Many(&INNER), suf: Some(&CLOSE), list: None }],
    suf: None,
});
pub type OptNamed = Option<Unit>;
pub static OPT_UNIT: G = Opt(&UNIT);
pub type TwoInner = [Inner; 2];
pub static TWO_INNER: G = Rep(2, &INNER);

/// fields whose order and identity matter: same parser, different positions
#[derive(Parse)]
pub struct Order {
    #[nommy(parser = OneOf<"xyz">)]
    z: char,
    #[nommy(parser = OneOf<"xyz">)]
    a: char,
    #[nommy(parser = OneOf<"xyz">)]
    m: char,
}
impl Log for Order {
    fn log(self, o: &mut Vec<u32>) { o.push(M_SEQ); self.z.log(o); self.a.log(o); self.m.log(o); o.push(M_END) }
}
pub static ORDER: G = Seq(&S { ign: &[], pre: None, fields: &[f(&One("xyz")), f(&One("xyz")), f(&One("xyz"))], suf: None });

/// ignores only: every gap may hold ignored text, the front may not
#[derive(Parse)]
#[nommy(ignore = WhiteSpace)]
pub struct Gaps {
    a: Tag<"a">,
    b: Option<Tag<"b">>,
    #[nommy(prefix = Tag<"(">, suffix = Tag<")">)]
    c: Tag<"c">,
}
log_as!(Gaps { a, b, c });
pub static GAPS: G = Seq(&S {
    ign: &[&Ws],
    pre: None,
    fields: &[f(&A), f(&Opt(&B)), F { pre: Some(&OPEN), p: &C, suf: Some(&CLOSE), list: None }],
    suf: None,
});

/// the ignored type is itself derived
#[derive(Parse)]
#[nommy(prefix = Tag<"/*">, suffix = Tag<"*/">)]
pub struct Comment;
#[derive(Parse)]
#[nommy(ignore = Comment, ignore = Space)]
pub struct Commented {
    a: Tag<"a">,
    b: Tag<"b">,
}
log_as!(Commented { a, b });
static COMMENT: G = Seq(&S { ign: &[], pre: Some(&Lit("/*")), fields: &[], suf: Some(&Lit("*/")) });
pub static COMMENTED: G = Seq(&S { ign: &[&COMMENT, &Sp], pre: None, fields: &[f(&A), f(&B)], suf: None });

// ---------------------------------------------------------------- lists

#[derive(Parse)]
#[nommy(ignore = Tag<" ">, prefix = Tag<"(">, suffix = Tag<")">)]
pub struct ListPlain {
    #[nommy(inner_parser = OneOf<"ab">)]
    l: Vec<char>,
}
log_as!(ListPlain { l });
pub static LIST_PLAIN: G = Seq(&S {
    ign: &[&SP],
    pre: Some(&OPEN),
    fields: &[F { pre: None, p: &One("ab"), suf: None, list: Some(L { sep: None, trail: No }) }],
    suf: Some(&CLOSE),
});

#[derive(Parse)]
#[nommy(parse_type = char)]
#[nommy(ignore = Tag<" ">, prefix = Tag<"(">, suffix = Tag<")">)]
pub struct ListSep {
    #[nommy(inner_parser = OneOf<"ab">, seperated_by = Tag<",">)]
    l: Vec<char>,
}
log_as!(ListSep { l });
pub static LIST_SEP: G = Seq(&S {
    ign: &[&SP],
    pre: Some(&OPEN),
    fields: &[F { pre: None, p: &One("ab"), suf: None, list: Some(L { sep: Some(&COMMA), trail: No }) }],
    suf: Some(&CLOSE),
});

#[derive(Parse)]
#[nommy(parse_type = char)]
#[nommy(ignore = Tag<" ">, prefix = Tag<"(">, suffix = Tag<")">)]
pub struct ListNo {
    #[nommy(inner_parser = OneOf<"ab">)]
    #[nommy(seperated_by = Tag<",">, trailing = "no")]
    l: Vec<char>,
}
log_as!(ListNo { l });

#[derive(Parse)]
#[nommy(parse_type = char)]
#[nommy(ignore = Tag<" ">, prefix = Tag<"(">, suffix = Tag<")">)]
pub struct ListYes {
    #[nommy(inner_parser = OneOf<"ab">, seperated_by = Tag<",">, trailing = "yes")]
    l: Vec<char>,
}
log_as!(ListYes { l });
pub static LIST_YES: G = Seq(&S {
    ign: &[&SP],
    pre: Some(&OPEN),
    fields: &[F { pre: None, p: &One("ab"), suf: None, list: Some(L { sep: Some(&COMMA), trail: Yes }) }],
    suf: Some(&CLOSE),
});

#[derive(Parse)]
#[nommy(parse_type = char)]
#[nommy(ignore = Tag<" ">, prefix = Tag<"(">, suffix = Tag<")">)]
pub struct ListMaybe {
    #[nommy(inner_parser = OneOf<"ab">, seperated_by = Tag<",">, trailing = "maybe")]
    l: Vec<char>,
}
log_as!(ListMaybe { l });
pub static LIST_MAYBE: G = Seq(&S {
    ign: &[&SP],
    pre: Some(&OPEN),
    fields: &[F { pre: None, p: &One("ab"), suf: None, list: Some(L { sep: Some(&COMMA), trail: Maybe }) }],
    suf: Some(&CLOSE),
});

/// open ended: whatever the list leaves is what the caller sees
#[derive(Parse)]
#[nommy(parse_type = char)]
pub struct Open {
    #[nommy(inner_parser = Tag<"ab">, seperated_by = Tag<"a-">)]
    l: Vec<Tag<"ab">>,
}
log_as!(Open { l });
pub static OPEN_SEP: G = Seq(&S {
    ign: &[],
    pre: None,
    fields: &[F { pre: None, p: &Lit("ab"), suf: None, list: Some(L { sep: Some(&Lit("a-")), trail: No }) }],
    suf: None,
});
#[derive(Parse)]
#[nommy(parse_type = char)]
pub struct OpenYes(#[nommy(inner_parser = Tag<"ab">, seperated_by = Tag<"a-">, trailing = "yes")] Vec<Tag<"ab">>);
log_as!(OpenYes(0));
pub static OPEN_YES: G = Seq(&S {
    ign: &[],
    pre: None,
    fields: &[F { pre: None, p: &Lit("ab"), suf: None, list: Some(L { sep: Some(&Lit("a-")), trail: Yes }) }],
    suf: None,
});
#[derive(Parse)]
#[nommy(parse_type = char)]
pub struct OpenMaybe(#[nommy(inner_parser = Tag<"ab">, seperated_by = Tag<"a-">, trailing = "maybe")] Vec<Tag<"ab">>);
log_as!(OpenMaybe(0));
pub static OPEN_MAYBE: G = Seq(&S {
    ign: &[],
    pre: None,
    fields: &[F { pre: None, p: &Lit("ab"), suf: None, list: Some(L { sep: Some(&Lit("a-")), trail: Maybe }) }],
    suf: None,
});

/// a list of conversions that can fail, between two other fields
#[derive(Parse)]
#[nommy(parse_type = char)]
#[nommy(ignore = Tag<" ">)]
pub struct Numbers {
    #[nommy(prefix = Tag<"=">, inner_parser = AnyOf1<"01+">, seperated_by = Tag<",">, suffix = Tag<";">)]
    l: Vec<usize>,
    end: Option<Tag<"x">>,
}
log_as!(Numbers { l, end });
pub static NUMBERS: G = Seq(&S {
    ign: &[&SP],
    pre: None,
    fields: &[F { pre: Some(&Lit("=")), p: &Num("01+"), suf: Some(&Lit(";")), list: Some(L { sep: Some(&COMMA), trail: No }) }, f(&Opt(&X))],
    suf: None,
});

/// a list as a middle field, followed by a field it must not swallow, without separators
#[derive(Parse)]
#[nommy(ignore = Tag<" ">, parse_type = char)]
pub struct Middle(
    Tag<"(">,
    #[nommy(inner_parser = Tag<"a">)] Vec<Tag<"a">>,
    Tag<"ab">,
);
log_as!(Middle(0, 1, 2));
pub static MIDDLE: G = Seq(&S {
    ign: &[&SP],
    pre: None,
    fields: &[f(&OPEN), F { pre: None, p: &A, suf: None, list: Some(L { sep: None, trail: No }) }, f(&Lit("ab"))],
    suf: None,
});

/// byte lists
#[derive(Parse)]
#[nommy(parse_type = u8)]
pub struct ByteList(
    #[nommy(prefix = bytes::Tag<b"\x00">, inner_parser = bytes::OneOf<b"\x01\xff">, seperated_by = bytes::Tag<b",">, trailing = "maybe")] Vec<u8>,
);
log_as!(ByteList(0));
pub static BYTE_LIST: G = Seq(&S {
    ign: &[],
    pre: None,
    fields: &[F { pre: Some(&Lit("\u{0}")), p: &One("\u{1}\u{ff}"), suf: None, list: Some(L { sep: Some(&COMMA), trail: Maybe }) }],
    suf: None,
});

// ---------------------------------------------------------------- enums

/// variants of every shape; each one is a prefix of, or overlaps with, a later one
#[derive(Parse)]
pub enum Shapes {
    #[nommy(prefix = Tag<"ab">, suffix = Tag<"c">)]
    Unit,
    Tuple(Tag<"a">, #[nommy(parser = OneOf<"bx">)] char),
    #[nommy(prefix = Tag<"a">)]
    Named {
        x: Option<Tag<"-">>,
        #[nommy(prefix = Tag<"(">)]
        y: Tag<"b">,
    },
    Last(#[nommy(suffix = Tag<"-">)] Vec<Tag<"a">>),
}
impl Log for Shapes {
    fn log(self, o: &mut Vec<u32>) {
        match self {
            Shapes::Unit => var(o, 0),
            Shapes::Tuple(a, b) => { var(o, 1); a.log(o); b.log(o) }
            Shapes::Named { x, y } => { var(o, 2); x.log(o); y.log(o) }
            Shapes::Last(a) => { var(o, 3); a.log(o) }
        }
        o.push(M_END);
    }
}
static SHAPES_V: [&S; 4] = [
    &S { ign: &[], pre: Some(&Lit("ab")), fields: &[], suf: Some(&C) },
    &S { ign: &[], pre: None, fields: &[f(&A), f(&One("bx"))], suf: None },
    &S { ign: &[], pre: Some(&A), fields: &[f(&Opt(&DASH)), F { pre: Some(&OPEN), p: &B, suf: None, list: None }], suf: None },
    &S { ign: &[], pre: None, fields: &[F { pre: None, p: &Many(&A), suf: Some(&DASH), list: None }], suf: None },
];
pub static SHAPES: G = Alt(&crate::spec::A { ign: &[], pre: None, vars: &SHAPES_V, suf: None });

/// outer prefix, suffix and ignore; variants inherit the ignore and add to it
#[derive(Parse)]
#[nommy(ignore = Tag<" ">, prefix = Tag<"(">, suffix = Tag<")">)]
pub enum Wrapped {
    #[nommy(ignore = Tag<"#">)]
    Pair(Tag<"a">, Tag<"b">),
    Word(#[nommy(parser = AnyOf1<"ab">)] String),
    #[nommy(prefix = Tag<"x">)]
    Unit,
}
impl Log for Wrapped {
    fn log(self, o: &mut Vec<u32>) {
        match self {
            Wrapped::Pair(a, b) => { var(o, 0); a.log(o); b.log(o) }
            Wrapped::Word(s) => { var(o, 1); s.log(o) }
            Wrapped::Unit => var(o, 2),
        }
        o.push(M_END);
    }
}
static WRAPPED_V: [&S; 3] = [
    &S { ign: &[&Lit("#"), &SP], pre: None, fields: &[f(&A), f(&B)], suf: None },
    &S { ign: &[&SP], pre: None, fields: &[f(&AB1)], suf: None },
    &S { ign: &[&SP], pre: Some(&X), fields: &[], suf: None },
];
pub static WRAPPED: G = Alt(&crate::spec::A { ign: &[&SP], pre: Some(&OPEN), vars: &WRAPPED_V, suf: Some(&CLOSE) });

/// an earlier variant that fails after reading a lot must leave nothing behind
#[derive(Parse)]
#[nommy(parse_type = char)]
pub enum Backtrack {
    Long([OneOf<"ab">; 3], Tag<"!">),
    #[nommy(suffix = Tag<"?">)]
    Mid(#[nommy(parser = AnyOf1<"ab">)] String),
    Num(#[nommy(parser = AnyOf1<"ab1">)] usize),
    Short(OneOf<"ab">),
}
impl Log for Backtrack {
    fn log(self, o: &mut Vec<u32>) {
        match self {
            Backtrack::Long(a, b) => { var(o, 0); a.log(o); b.log(o) }
            Backtrack::Mid(s) => { var(o, 1); s.log(o) }
            Backtrack::Num(s) => { var(o, 2); s.log(o) }
            Backtrack::Short(s) => { var(o, 3); s.log(o) }
        }
        o.push(M_END);
    }
}
static BACKTRACK_V: [&S; 4] = [
    &S { ign: &[], pre: None, fields: &[f(&Rep(3, &One("ab"))), f(&Lit("!"))], suf: None },
    &S { ign: &[], pre: None, fields: &[f(&AB1)], suf: Some(&Lit("?")) },
    &S { ign: &[], pre: None, fields: &[f(&Num("ab1"))], suf: None },
    &S { ign: &[], pre: None, fields: &[f(&One("ab"))], suf: None },
];
pub static BACKTRACK: G = Alt(&crate::spec::A { ign: &[], pre: None, vars: &BACKTRACK_V, suf: None });

/// the same without conversions (peek does not convert)
#[derive(Parse)]
pub enum Choice {
    Long([OneOf<"ab">; 3], Tag<"!">),
    #[nommy(suffix = Tag<"?">)]
    Mid(#[nommy(parser = AnyOf1<"ab">)] String),
    Short(OneOf<"ab">),
}
impl Log for Choice {
    fn log(self, o: &mut Vec<u32>) {
        match self {
            Choice::Long(a, b) => { var(o, 0); a.log(o); b.log(o) }
            Choice::Mid(s) => { var(o, 1); s.log(o) }
            Choice::Short(s) => { var(o, 2); s.log(o) }
        }
        o.push(M_END);
    }
}
static CHOICE_V: [&S; 3] = [
    &S { ign: &[], pre: None, fields: &[f(&Rep(3, &One("ab"))), f(&Lit("!"))], suf: None },
    &S { ign: &[], pre: None, fields: &[f(&AB1)], suf: Some(&Lit("?")) },
    &S { ign: &[], pre: None, fields: &[f(&One("ab"))], suf: None },
];
pub static CHOICE: G = Alt(&crate::spec::A { ign: &[], pre: None, vars: &CHOICE_V, suf: None });

/// first match wins although a later variant would match more
#[derive(Parse)]
#[nommy(suffix = Option<Tag<",">>)]
pub enum First {
    A(Tag<"a">),
    AB(Tag<"ab">),
    B(Tag<"b">),
    #[nommy(prefix = Tag<"">)]
    Nothing,
}
impl Log for First {
    fn log(self, o: &mut Vec<u32>) {
        match self {
            First::A(a) => { var(o, 0); a.log(o) }
            First::AB(a) => { var(o, 1); a.log(o) }
            First::B(a) => { var(o, 2); a.log(o) }
            First::Nothing => var(o, 3),
        }
        o.push(M_END);
    }
}
static FIRST_V: [&S; 4] = [
    &S { ign: &[], pre: None, fields: &[f(&A)], suf: None },
    &S { ign: &[], pre: None, fields: &[f(&Lit("ab"))], suf: None },
    &S { ign: &[], pre: None, fields: &[f(&B)], suf: None },
    &S { ign: &[], pre: Some(&Lit("")), fields: &[], suf: None },
];
pub static FIRST: G = Alt(&crate::spec::A { ign: &[], pre: None, vars: &FIRST_V, suf: Some(&Opt(&COMMA)) });

/// a list inside a variant, with the enum's own ignore
#[derive(Parse)]
#[nommy(ignore = Tag<" ">, parse_type = char)]
pub enum Lists {
    #[nommy(prefix = Tag<"(">, suffix = Tag<")">)]
    Sep(#[nommy(inner_parser = OneOf<"ab">, seperated_by = Tag<",">)] Vec<char>),
    #[nommy(prefix = Tag<"(">, suffix = Tag<"-">)]
    Plain { #[nommy(inner_parser = OneOf<"ab">)] l: Vec<char> },
}
impl Log for Lists {
    fn log(self, o: &mut Vec<u32>) {
        match self {
            Lists::Sep(a) => { var(o, 0); a.log(o) }
            Lists::Plain { l } => { var(o, 1); l.log(o) }
        }
        o.push(M_END);
    }
}
static LISTS_V: [&S; 2] = [
    &S { ign: &[&SP], pre: Some(&OPEN), fields: &[F { pre: None, p: &One("ab"), suf: None, list: Some(L { sep: Some(&COMMA), trail: No }) }], suf: Some(&CLOSE) },
    &S { ign: &[&SP], pre: Some(&OPEN), fields: &[F { pre: None, p: &One("ab"), suf: None, list: Some(L { sep: None, trail: No }) }], suf: Some(&DASH) },
];
pub static LISTS: G = Alt(&crate::spec::A { ign: &[&SP], pre: None, vars: &LISTS_V, suf: None });

/// generic enum
#[derive(Parse)]
pub enum Either<P, Q> {
    #[nommy(prefix = Tag<"-">)]
    Left(P),
    Right { q: Q },
}
impl<P: Log, Q: Log> Log for Either<P, Q> {
    fn log(self, o: &mut Vec<u32>) {
        match self {
            Either::Left(a) => { var(o, 0); a.log(o) }
            Either::Right { q } => { var(o, 1); q.log(o) }
        }
        o.push(M_END);
    }
}
pub type EitherAB = Either<Vec1<Tag<"a">>, Either<Tag<"b">, Tag<"-">>>;
static EITHER_IN_V: [&S; 2] = [
    &S { ign: &[], pre: Some(&DASH), fields: &[f(&B)], suf: None },
    &S { ign: &[], pre: None, fields: &[f(&DASH)], suf: None },
];
static EITHER_V: [&S; 2] = [
    &S { ign: &[], pre: Some(&DASH), fields: &[f(&Many1(&A))], suf: None },
    &S { ign: &[], pre: None, fields: &[f(&Alt(&crate::spec::A { ign: &[], pre: None, vars: &EITHER_IN_V, suf: None }))], suf: None },
];
pub static EITHER: G = Alt(&crate::spec::A { ign: &[], pre: None, vars: &EITHER_V, suf: None });

/// byte enum
#[derive(Parse)]
#[nommy(parse_type = u8)]
pub enum Opcode {
    #[nommy(prefix = bytes::Tag<b"\x80\x00">)]
    Nop,
    #[nommy(prefix = bytes::Tag<b"\x80">)]
    Push(bytes::OneOf<b"\x00\x01\xff">),
    Data(bytes::AnyOf1<b"\x00\xff">),
}
impl Log for Opcode {
    fn log(self, o: &mut Vec<u32>) {
        match self {
            Opcode::Nop => var(o, 0),
            Opcode::Push(a) => { var(o, 1); a.log(o) }
            Opcode::Data(a) => { var(o, 2); a.log(o) }
        }
        o.push(M_END);
    }
}
static OPCODE_V: [&S; 3] = [
    &S { ign: &[], pre: Some(&Lit("\u{80}\u{0}")), fields: &[], suf: None },
    &S { ign: &[], pre: Some(&Lit("\u{80}")), fields: &[f(&One("\u{0}\u{1}\u{ff}"))], suf: None },
    &S { ign: &[], pre: None, fields: &[f(&Any1("\u{0}\u{ff}"))], suf: None },
];
pub static OPCODE: G = Alt(&crate::spec::A { ign: &[], pre: None, vars: &OPCODE_V, suf: None });

// ---------------------------------------------------------------- recursion

/// s-expressions
#[derive(Parse)]
#[nommy(ignore = Tag<" ">, parse_type = char)]
pub enum Exp {
    #[nommy(prefix = Tag<"(">, suffix = Tag<")">)]
    List(Vec<Exp>),
    Atom(#[nommy(parser = AnyOf1<"ab">)] String),
}
impl Log for Exp {
    fn log(self, o: &mut Vec<u32>) {
        match self {
            Exp::List(a) => { var(o, 0); a.log(o) }
            Exp::Atom(a) => { var(o, 1); a.log(o) }
        }
        o.push(M_END);
    }
}
static EXP_MANY: G = Many(&EXP);
static EXP_LIST: S = S { ign: &[&SP], pre: Some(&OPEN), fields: &[f(&EXP_MANY)], suf: Some(&CLOSE) };
static EXP_ATOM: S = S { ign: &[&SP], pre: None, fields: &[f(&AB1)], suf: None };
static EXP_V: [&S; 2] = [&EXP_LIST, &EXP_ATOM];
static EXP_A: crate::spec::A = crate::spec::A { ign: &[&SP], pre: None, vars: &EXP_V, suf: None };
pub static EXP: G = Alt(&EXP_A);

/// right recursion through a box
#[derive(Parse)]
#[nommy(parse_type = char)]
pub struct Chain {
    #[nommy(parser = OneOf<"ab">)]
    head: char,
    #[nommy(prefix = Option<Tag<"-">>)]
    tail: Option<Box<Chain>>,
}
log_as!(Chain { head, tail });
static CHAIN_OPT: G = Opt(&CHAIN);
static CHAIN_DASH: G = Opt(&DASH);
static CHAIN_F: [F; 2] = [f(&One("ab")), F { pre: Some(&CHAIN_DASH), p: &CHAIN_OPT, suf: None, list: None }];
static CHAIN_S: S = S { ign: &[], pre: None, fields: &CHAIN_F, suf: None };
pub static CHAIN: G = Seq(&CHAIN_S);

/// mutual recursion with a separated list and a hand-written parser, as in a JSON grammar
#[derive(Parse)]
#[nommy(ignore = Tag<" ">, parse_type = char)]
pub enum Json {
    #[nommy(prefix = Tag<"nil">)]
    Nil,
    #[nommy(prefix = Tag<"[">, suffix = Tag<"]">)]
    List(#[nommy(inner_parser = Json, seperated_by = Tag<",">)] Vec<Json>),
    #[nommy(prefix = Tag<"{">, suffix = Tag<"}">)]
    Object(#[nommy(inner_parser = Field, seperated_by = Tag<",">)] Vec<Field>),
    Str(#[nommy(parser = Quote)] String),
}
#[derive(Parse)]
#[nommy(ignore = Tag<" ">, parse_type = char)]
pub struct Field {
    #[nommy(parser = Quote, suffix = Tag<":">)]
    name: String,
    value: Json,
}
impl Log for Json {
    fn log(self, o: &mut Vec<u32>) {
        match self {
            Json::Nil => var(o, 0),
            Json::List(a) => { var(o, 1); a.log(o) }
            Json::Object(a) => { var(o, 2); a.log(o) }
            Json::Str(a) => { var(o, 3); a.log(o) }
        }
        o.push(M_END);
    }
}
log_as!(Field { name, value });
static JSON_NIL: S = S { ign: &[&SP], pre: Some(&Lit("nil")), fields: &[], suf: None };
static JSON_LIST_F: [F; 1] = [F { pre: None, p: &JSON, suf: None, list: Some(L { sep: Some(&COMMA), trail: No }) }];
static JSON_LIST: S = S { ign: &[&SP], pre: Some(&Lit("[")), fields: &JSON_LIST_F, suf: Some(&Lit("]")) };
static JSON_OBJ_F: [F; 1] = [F { pre: None, p: &FIELD, suf: None, list: Some(L { sep: Some(&COMMA), trail: No }) }];
static JSON_OBJ: S = S { ign: &[&SP], pre: Some(&Lit("{")), fields: &JSON_OBJ_F, suf: Some(&Lit("}")) };
static JSON_STR: S = S { ign: &[&SP], pre: None, fields: &[f(&Quoted('"'))], suf: None };
static JSON_V: [&S; 4] = [&JSON_NIL, &JSON_LIST, &JSON_OBJ, &JSON_STR];
static JSON_A: crate::spec::A = crate::spec::A { ign: &[&SP], pre: None, vars: &JSON_V, suf: None };
pub static JSON: G = Alt(&JSON_A);
static FIELD_F: [F; 2] = [F { pre: None, p: &Quoted('"'), suf: Some(&Lit(":")), list: None }, f(&JSON)];
static FIELD_S: S = S { ign: &[&SP], pre: None, fields: &FIELD_F, suf: None };
pub static FIELD: G = Seq(&FIELD_S);

/// a user's parser, with the default peek
pub struct Quote(String);
impl Parse<char> for Quote {
    fn parse(input: &mut impl Buffer<char>) -> nommy::eyre::Result<Self> {
        if input.next() != Some('"') { return Err(nommy::eyre::eyre!("no quote")); }
        let mut s = String::new();
        loop {
            match input.next() {
                Some('"') => return Ok(Quote(s)),
                Some(c) => s.push(c),
                None => return Err(nommy::eyre::eyre!("no closing quote")),
            }
        }
    }
}
impl From<Quote> for String { fn from(q: Quote) -> String { q.0 } }
impl Log for Quote { fn log(self, o: &mut Vec<u32>) { self.0.log(o) } }

