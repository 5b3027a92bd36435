//! The grammars the documentation and the examples show, on free texts and (`near`) on texts that
//! differ from a sample in one place.
use crate::conf::{conf, near, Log};
use crate::spec::*;
use crate::spec::G::*;
use nommy::{text::*, Buffer, Parse, Vec1};
use std::str::FromStr;

macro_rules! log_as {
    ($t:ident { $($f:ident),* }) => {
        impl Log for $t {
            fn log(self, o: &mut Vec<u32>) { o.push(M_SEQ); $( self.$f.log(o); )* o.push(M_END); }
        }
    };
}
const LETTERS: &str = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ";
type Letters = AnyOf1<"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ">;
static WORD: G = Any1(LETTERS);
static COMMA: G = Lit(",");
static WS: [&G; 1] = [&Ws];

// ---------------------------------------------------------------- the README's struct, and its relatives

#[derive(Parse)]
#[nommy(prefix = Tag<"struct">)]
#[nommy(ignore = WhiteSpace)]
pub struct StructNamed {
    #[nommy(parser = Letters)]
    name: String,

    #[nommy(prefix = Tag<"{">, suffix = Tag<"}">)]
    fields: Vec<NamedField>,
}
log_as!(StructNamed { name, fields });
#[derive(Parse)]
#[nommy(suffix = Tag<",">)]
#[nommy(ignore = WhiteSpace)]
pub struct NamedField {
    #[nommy(parser = Letters)]
    name: String,

    #[nommy(prefix = Tag<":">, parser = Letters)]
    ty: String,
}
log_as!(NamedField { name, ty });
static NAMED_FIELD: G = Seq(&S { ign: &WS, pre: None, fields: &[f(&WORD), F { pre: Some(&Lit(":")), p: &WORD, suf: None, list: None }], suf: Some(&COMMA) });
static NAMED_FIELDS: F = F { pre: Some(&Lit("{")), p: &Many(&NAMED_FIELD), suf: Some(&Lit("}")), list: None };
pub static STRUCT_NAMED: G = Seq(&S { ign: &WS, pre: Some(&Lit("struct")), fields: &[f(&WORD), F { pre: Some(&Lit("{")), p: &Many(&NAMED_FIELD), suf: Some(&Lit("}")), list: None }], suf: None });

#[derive(Parse)]
#[nommy(suffix = Option<Tag<",">>)]
#[nommy(ignore = WhiteSpace)]
pub struct UnnamedField {
    #[nommy(parser = Letters)]
    ty: String,
}
log_as!(UnnamedField { ty });
static UNNAMED_FIELD: G = Seq(&S { ign: &WS, pre: None, fields: &[f(&WORD)], suf: Some(&Opt(&COMMA)) });

#[derive(Parse)]
#[nommy(prefix = Tag<"enum">)]
#[nommy(ignore = WhiteSpace)]
pub struct Enum {
    #[nommy(parser = Letters)]
    name: String,

    #[nommy(prefix = Tag<"{">, suffix = Tag<"}">)]
    variants: Vec<Variant>,
}
log_as!(Enum { name, variants });
#[derive(Parse)]
#[nommy(ignore = WhiteSpace)]
pub struct Variant {
    #[nommy(parser = Letters)]
    name: String,

    ty: VariantType,
}
log_as!(Variant { name, ty });
#[derive(Parse)]
pub enum VariantType {
    #[nommy(ignore = WhiteSpace)]
    Struct(#[nommy(prefix = Tag<"{">, suffix = Tag<"}">)] Vec<NamedField>),

    #[nommy(suffix = Tag<",">)]
    #[nommy(ignore = WhiteSpace)]
    Tuple(#[nommy(prefix = Tag<"(">, suffix = Tag<")">)] Vec<UnnamedField>),

    #[nommy(suffix = Tag<",">)]
    #[nommy(ignore = WhiteSpace)]
    Unit,
}
impl Log for VariantType {
    fn log(self, o: &mut Vec<u32>) {
        match self {
            VariantType::Struct(a) => { o.push(M_VAR); a.log(o) }
            VariantType::Tuple(a) => { o.push(M_VAR + 1); a.log(o) }
            VariantType::Unit => o.push(M_VAR + 2),
        }
        o.push(M_END);
    }
}
static VARIANT_TYPES: [&S; 3] = [
    &S { ign: &WS, pre: None, fields: &[F { pre: Some(&Lit("{")), p: &Many(&NAMED_FIELD), suf: Some(&Lit("}")), list: None }], suf: None },
    &S { ign: &WS, pre: None, fields: &[F { pre: Some(&Lit("(")), p: &Many(&UNNAMED_FIELD), suf: Some(&Lit(")")), list: None }], suf: Some(&COMMA) },
    &S { ign: &WS, pre: None, fields: &[], suf: Some(&COMMA) },
];
static VARIANT: G = Seq(&S { ign: &WS, pre: None, fields: &[f(&WORD), f(&Alt(&A { ign: &[], pre: None, vars: &VARIANT_TYPES, suf: None }))], suf: None });
pub static ENUM: G = Seq(&S { ign: &WS, pre: Some(&Lit("enum")), fields: &[f(&WORD), F { pre: Some(&Lit("{")), p: &Many(&VARIANT), suf: Some(&Lit("}")), list: None }], suf: None });

// ---------------------------------------------------------------- lisp (numbers as text)

type Ident = WhileNot1<" \t\r\n)">;
#[derive(Parse)]
#[nommy(ignore = WhiteSpace)]
#[nommy(parse_type = char)]
pub enum Exp {
    #[nommy(prefix = Tag<"(">, suffix = Tag<")">)]
    SExp(Vec<Exp>),
    Number(#[nommy(parser = Number)] (String, String)),
    Symbol(#[nommy(parser = Ident)] String),
}
impl Log for Exp {
    fn log(self, o: &mut Vec<u32>) {
        match self {
            Exp::SExp(a) => { o.push(M_VAR); a.log(o) }
            Exp::Number((a, b)) => {
                o.push(M_VAR + 1);
                o.push(M_SEQ);
                a.log(o);
                if b.is_empty() { o.push(M_NONE) } else { o.push(M_SOME); o.push(M_SEQ); b.log(o); o.push(M_END) }
                o.push(M_END);
            }
            Exp::Symbol(a) => { o.push(M_VAR + 2); a.log(o) }
        }
        o.push(M_END);
    }
}
type Integer = AnyOf1<"0123456789">;
#[derive(Parse)]
pub struct Number {
    #[nommy(parser = Integer)]
    integer: String,
    decimal: Option<Decimal>,
}
#[derive(Parse)]
#[nommy(prefix = Tag<".">)]
pub struct Decimal(#[nommy(parser = Integer)] String);
impl From<Number> for (String, String) {
    fn from(n: Number) -> Self {
        match n.decimal {
            Some(d) => (n.integer, d.0),
            None => (n.integer, String::new()),
        }
    }
}
static DIGITS: G = Any1("0123456789");
static DECIMAL: G = Seq(&S { ign: &[], pre: Some(&Lit(".")), fields: &[f(&DIGITS)], suf: None });
static LISP_NUMBER: G = Seq(&S { ign: &[], pre: None, fields: &[f(&DIGITS), f(&Opt(&DECIMAL))], suf: None });
static LISP_MANY: G = Many(&LISP);
static LISP_SEXP: S = S { ign: &WS, pre: Some(&Lit("(")), fields: &[f(&LISP_MANY)], suf: Some(&Lit(")")) };
static LISP_NUM: S = S { ign: &WS, pre: None, fields: &[f(&LISP_NUMBER)], suf: None };
static LISP_SYM: S = S { ign: &WS, pre: None, fields: &[f(&Not1(" \t\r\n)"))], suf: None };
static LISP_V: [&S; 3] = [&LISP_SEXP, &LISP_NUM, &LISP_SYM];
static LISP_A: A = A { ign: &WS, pre: None, vars: &LISP_V, suf: None };
pub static LISP: G = Alt(&LISP_A);

// ---------------------------------------------------------------- xml

const ENDING_TAG1: &'static str = ">";
const ENDING_TAG: &'static str = "/>";
type Name = AnyOf1<"abcdefghijklmnopqrstuvwxyz-_">;

#[derive(Parse)]
#[nommy(ignore = WhiteSpace)]
#[nommy(parse_type = char)]
#[nommy(prefix = Tag<"<">, suffix = Tag<ENDING_TAG>)]
pub struct XML {
    #[nommy(parser = Name)]
    name: String,

    attributes: Vec<Attribute>,

    children: Children,
}
log_as!(XML { name, attributes, children });
#[derive(Parse)]
#[nommy(ignore = WhiteSpace)]
#[nommy(parse_type = char)]
pub enum Children {
    #[nommy(prefix = Tag<ENDING_TAG1>, suffix = Tag<"<">)]
    Some(Vec1<XML>),
    None,
}
impl Log for Children {
    fn log(self, o: &mut Vec<u32>) {
        match self {
            Children::Some(a) => { o.push(M_VAR); a.log(o) }
            Children::None => o.push(M_VAR + 1),
        }
        o.push(M_END);
    }
}
#[derive(Parse)]
#[nommy(ignore = WhiteSpace)]
#[nommy(parse_type = char)]
pub struct Attribute {
    #[nommy(parser = Name)]
    #[nommy(suffix = Tag<"=">)]
    name: String,

    #[nommy(parser = Name)]
    #[nommy(prefix = Tag<"\"">, suffix = Tag<"\"">)]
    value: String,
}
log_as!(Attribute { name, value });
static NAME: G = Any1("abcdefghijklmnopqrstuvwxyz-_");
static ATTRIBUTE: G = Seq(&S {
    ign: &WS,
    pre: None,
    fields: &[F { pre: None, p: &NAME, suf: Some(&Lit("=")), list: None }, F { pre: Some(&Lit("\"")), p: &NAME, suf: Some(&Lit("\"")), list: None }],
    suf: None,
});
static XML_MANY: G = Many1(&XML_G);
static CHILDREN_SOME: S = S { ign: &WS, pre: Some(&Lit(">")), fields: &[f(&XML_MANY)], suf: Some(&Lit("<")) };
static CHILDREN_NONE: S = S { ign: &WS, pre: None, fields: &[], suf: None };
static CHILDREN_V: [&S; 2] = [&CHILDREN_SOME, &CHILDREN_NONE];
static CHILDREN_A: A = A { ign: &WS, pre: None, vars: &CHILDREN_V, suf: None };
static CHILDREN: G = Alt(&CHILDREN_A);
static XML_F: [F; 3] = [f(&NAME), f(&Many(&ATTRIBUTE)), f(&CHILDREN)];
static XML_S: S = S { ign: &WS, pre: Some(&Lit("<")), fields: &XML_F, suf: Some(&Lit("/>")) };
pub static XML_G: G = Seq(&XML_S);

// ---------------------------------------------------------------- http

type Letters2 = AnyOf1<"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ-_">;
type Path = AnyOf1<"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ/%-_+1234567890">;
type Digits = AnyOf1<"0123456789">;

pub struct Version(usize);
impl Parse<char> for Version {
    fn parse(input: &mut impl Buffer<char>) -> nommy::eyre::Result<Self> {
        let digits = Digits::parse(input)?;
        let string: String = digits.into();
        let u = usize::from_str(&string)?;
        Ok(Version(u))
    }

    fn peek(input: &mut impl Buffer<char>) -> bool {
        Digits::peek(input)
    }
}
impl Into<usize> for Version {
    fn into(self) -> usize {
        self.0
    }
}
#[derive(Parse)]
pub struct HTTP {
    #[nommy(parser = Letters2)]
    method: String,

    #[nommy(parser = Path)]
    #[nommy(prefix = Tag<" ">, suffix = Tag<" ">)]
    path: String,

    #[nommy(prefix = Tag<"HTTP/">)]
    #[nommy(parser = Version)]
    version_major: usize,
    #[nommy(prefix = Tag<".">)]
    #[nommy(parser = Version)]
    version_minor: usize,

    headers: Vec<Header>,
}
log_as!(HTTP { method, path, version_major, version_minor, headers });
#[derive(Parse)]
#[nommy(ignore = Space)]
#[nommy(prefix = Tag<"\n">)]
pub struct Header {
    #[nommy(parser = Letters2)]
    name: String,

    #[nommy(prefix = Tag<":">)]
    #[nommy(inner_parser = HeaderValue)]
    values: Vec<String>,
}
log_as!(Header { name, values });
#[derive(Parse)]
#[nommy(ignore = Space)]
#[nommy(suffix = Option<Tag<",">>)]
pub struct HeaderValue {
    #[nommy(parser = WhileNot1<",\n">)]
    value: String,
}
impl Into<String> for HeaderValue {
    fn into(self) -> String {
        self.value
    }
}
static LETTERS2: G = Any1("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ-_");
static PATH: G = Any1("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ/%-_+1234567890");
static VERSION: G = Num("0123456789");
/// (a struct of one part, converted into it)
static HEADER_VALUE: G = Bare(&S { ign: &[&Sp], pre: None, fields: &[f(&Not1(",\n"))], suf: Some(&Opt(&COMMA)) });
static HEADER: G = Seq(&S {
    ign: &[&Sp],
    pre: Some(&Lit("\n")),
    fields: &[f(&LETTERS2), F { pre: Some(&Lit(":")), p: &HEADER_VALUE, suf: None, list: Some(L { sep: None, trail: Trail::No }) }],
    suf: None,
});
pub static HTTP_G: G = Seq(&S {
    ign: &[],
    pre: None,
    fields: &[
        f(&LETTERS2),
        F { pre: Some(&Lit(" ")), p: &PATH, suf: Some(&Lit(" ")), list: None },
        F { pre: Some(&Lit("HTTP/")), p: &VERSION, suf: None, list: None },
        F { pre: Some(&Lit(".")), p: &VERSION, suf: None, list: None },
        f(&Many(&HEADER)),
    ],
    suf: None,
});

crate::harnesses! {
    h_free_struct => conf::<StructNamed, char>(&STRUCT_NAMED);
    h_free_field => conf::<NamedField, char>(&NAMED_FIELD);
    h_free_variant => conf::<Variant, char>(&VARIANT);
    h_free_lisp => conf::<Exp, char>(&LISP);
    h_free_xml => conf::<XML, char>(&XML_G);
    h_free_attribute => conf::<Attribute, char>(&ATTRIBUTE);
    h_free_header => conf::<Header, char>(&HEADER);
    h_near_struct => near::<StructNamed>(&STRUCT_NAMED, "struct A { b: C,\n\td: E, }\n;");
    h_near_enum => near::<Enum>(&ENUM, "enum A {B(C, D),\nE{f: G,}\r\nH , }");
    h_near_lisp => near::<Exp>(&LISP, "(+ 4 (*  3 5.5)\t() x)\n)");
    h_near_xml => near::<XML>(&XML_G, "<a b=\"c\" d = \"e\" >\n<f /> <g/></>");
    h_near_http => near::<HTTP>(&HTTP_G, "GET /a HTTP/1.1\nH: a b,c\nX-Y:  d \n\n");
}
