//! Generated by tools/gen.py: do not edit.
#![allow(clippy::all)]
use crate::conf::{conf, Log};
use crate::h_err::why;
use crate::spec::G::*;
use crate::spec::Trail::*;
use crate::spec::*;
use nommy::{text::*, Parse, Vec1};

#[derive(Parse)]
#[nommy(ignore = Tag<" -">, suffix = OneOf<"(a">, prefix = OneOf<"(a">)]
pub struct G00 { f0: Tag<"ab">, #[nommy(parser = WhileNot1<",;)x ">)] f1: String }
impl Log for G00 { fn log(self, o: &mut Vec<u32>) { o.push(M_SEQ); self.f0.log(o); self.f1.log(o); o.push(M_END) } }
static G00_G: G = Seq(&S { ign: &[&Lit(" -")], pre: Some(&One("(a")), fields: &[F { pre: None, p: &Lit("ab"), suf: None, list: None }, F { pre: None, p: &Not1(",;)x "), suf: None, list: None }], suf: Some(&One("(a")) });
#[derive(Parse)]
#[nommy(suffix = Tag<",">, parse_type = char, prefix = Tag<"(">, ignore = Tag<" -">)]
pub struct G01 { #[nommy(inner_parser = OneOf<"ab">, seperated_by = Tag<",">)] #[nommy(prefix = OneOf<"(a">)] f0: Vec<char>, #[nommy(suffix = Tag<"(">, inner_parser = OneOf<"ab">, seperated_by = Tag<",">, trailing = "no")] f1: Vec<char>, f2: Option<Tag<"x">> }
impl Log for G01 { fn log(self, o: &mut Vec<u32>) { o.push(M_SEQ); self.f0.log(o); self.f1.log(o); self.f2.log(o); o.push(M_END) } }
static G01_G: G = Seq(&S { ign: &[&Lit(" -")], pre: Some(&Lit("(")), fields: &[F { pre: Some(&One("(a")), p: &One("ab"), suf: None, list: Some(L { sep: Some(&Lit(",")), trail: No }) }, F { pre: None, p: &One("ab"), suf: Some(&Lit("(")), list: Some(L { sep: Some(&Lit(",")), trail: No }) }, F { pre: None, p: &Opt(&Lit("x")), suf: None, list: None }], suf: Some(&Lit(",")) });
#[derive(Parse)]
#[nommy(suffix = OneOf<"(a">, ignore = Tag<" -">, parse_type = char)]
pub struct G02 (#[nommy(suffix = Tag<",">)] Vec1<Tag<"b">>, Tag<"ab">, #[nommy(suffix = OneOf<"(a">)] Tag<"ab">);
impl Log for G02 { fn log(self, o: &mut Vec<u32>) { o.push(M_SEQ); self.0.log(o); self.1.log(o); self.2.log(o); o.push(M_END) } }
static G02_G: G = Seq(&S { ign: &[&Lit(" -")], pre: None, fields: &[F { pre: None, p: &Many1(&Lit("b")), suf: Some(&Lit(",")), list: None }, F { pre: None, p: &Lit("ab"), suf: None, list: None }, F { pre: None, p: &Lit("ab"), suf: Some(&One("(a")), list: None }], suf: Some(&One("(a")) });
#[derive(Parse)]
#[nommy(parse_type = char, ignore = Tag<"x">, prefix = Tag<";">)]
pub struct G03 { #[nommy(suffix = Option<Tag<"x">>)] f0: Vec1<Tag<"b">>, #[nommy(parser = OneOf<"ab">, prefix = Tag<";">)] f1: char }
impl Log for G03 { fn log(self, o: &mut Vec<u32>) { o.push(M_SEQ); self.f0.log(o); self.f1.log(o); o.push(M_END) } }
static G03_G: G = Seq(&S { ign: &[&Lit("x")], pre: Some(&Lit(";")), fields: &[F { pre: None, p: &Many1(&Lit("b")), suf: Some(&Opt(&Lit("x"))), list: None }, F { pre: Some(&Lit(";")), p: &One("ab"), suf: None, list: None }], suf: None });
#[derive(Parse)]
#[nommy(parse_type = char, suffix = Tag<"(">)]
pub struct G04 (#[nommy(parser = AnyOf1<"ab">, prefix = Tag<",">)] String);
impl Log for G04 { fn log(self, o: &mut Vec<u32>) { o.push(M_SEQ); self.0.log(o); o.push(M_END) } }
static G04_G: G = Seq(&S { ign: &[], pre: None, fields: &[F { pre: Some(&Lit(",")), p: &Any1("ab"), suf: None, list: None }], suf: Some(&Lit("(")) });
#[derive(Parse)]
#[nommy(ignore = Tag<" -">, parse_type = char, prefix = Tag<";">)]
pub struct G05 (#[nommy(inner_parser = OneOf<"ab">, seperated_by = Tag<",">, suffix = OneOf<"(a">)] Vec<char>, #[nommy(inner_parser = OneOf<"ab">, seperated_by = Tag<",">, trailing = "yes", suffix = Tag<",">)] Vec<char>);
impl Log for G05 { fn log(self, o: &mut Vec<u32>) { o.push(M_SEQ); self.0.log(o); self.1.log(o); o.push(M_END) } }
static G05_G: G = Seq(&S { ign: &[&Lit(" -")], pre: Some(&Lit(";")), fields: &[F { pre: None, p: &One("ab"), suf: Some(&One("(a")), list: Some(L { sep: Some(&Lit(",")), trail: No }) }, F { pre: None, p: &One("ab"), suf: Some(&Lit(",")), list: Some(L { sep: Some(&Lit(",")), trail: Yes }) }], suf: None });
#[derive(Parse)]
#[nommy(parse_type = char, ignore = Tag<" -">, suffix = Tag<";">, prefix = Tag<",">)]
pub struct G06 { #[nommy(suffix = Option<Tag<"x">>)] #[nommy(prefix = Tag<"(">, parser = OneOf<"ab">)] f0: char, #[nommy(suffix = OneOf<"(a">)] f1: Option<Tag<"x">> }
impl Log for G06 { fn log(self, o: &mut Vec<u32>) { o.push(M_SEQ); self.f0.log(o); self.f1.log(o); o.push(M_END) } }
static G06_G: G = Seq(&S { ign: &[&Lit(" -")], pre: Some(&Lit(",")), fields: &[F { pre: Some(&Lit("(")), p: &One("ab"), suf: Some(&Opt(&Lit("x"))), list: None }, F { pre: None, p: &Opt(&Lit("x")), suf: Some(&One("(a")), list: None }], suf: Some(&Lit(";")) });
#[derive(Parse)]
#[nommy(parse_type = char, prefix = OneOf<"(a">, ignore = Tag<"x">, suffix = OneOf<"(a">, ignore = Tag<" ">)]
pub struct G07 ;
impl Log for G07 { fn log(self, o: &mut Vec<u32>) { o.push(M_SEQ); o.push(M_END) } }
static G07_G: G = Seq(&S { ign: &[&Lit("x"), &Lit(" ")], pre: Some(&One("(a")), fields: &[], suf: Some(&One("(a")) });
#[derive(Parse)]
#[nommy(ignore = WhiteSpace, parse_type = char, prefix = Tag<";">)]
pub struct G08 { #[nommy(suffix = Tag<"(">, prefix = Tag<"(">)] f0: Vec1<Tag<"b">> }
impl Log for G08 { fn log(self, o: &mut Vec<u32>) { o.push(M_SEQ); self.f0.log(o); o.push(M_END) } }
static G08_G: G = Seq(&S { ign: &[&Ws], pre: Some(&Lit(";")), fields: &[F { pre: Some(&Lit("(")), p: &Many1(&Lit("b")), suf: Some(&Lit("(")), list: None }], suf: None });
#[derive(Parse)]
#[nommy(ignore = WhiteSpace, suffix = Tag<";">, parse_type = char, prefix = Tag<",">)]
pub struct G09 ;
impl Log for G09 { fn log(self, o: &mut Vec<u32>) { o.push(M_SEQ); o.push(M_END) } }
static G09_G: G = Seq(&S { ign: &[&Ws], pre: Some(&Lit(",")), fields: &[], suf: Some(&Lit(";")) });
#[derive(Parse)]
#[nommy(prefix = Tag<"(">, ignore = Tag<" ">, parse_type = char, ignore = Vec1<Tag<"_">>)]
pub struct G10 { #[nommy(parser = WhileNot1<",;)x ">)] #[nommy(suffix = Option<Tag<"x">>, prefix = Tag<";">)] f0: String, #[nommy(suffix = Option<Tag<"x">>)] #[nommy(inner_parser = OneOf<"ab">)] f1: Vec<char> }
impl Log for G10 { fn log(self, o: &mut Vec<u32>) { o.push(M_SEQ); self.f0.log(o); self.f1.log(o); o.push(M_END) } }
static G10_G: G = Seq(&S { ign: &[&Lit(" "), &Many1(&Lit("_"))], pre: Some(&Lit("(")), fields: &[F { pre: Some(&Lit(";")), p: &Not1(",;)x "), suf: Some(&Opt(&Lit("x"))), list: None }, F { pre: None, p: &One("ab"), suf: Some(&Opt(&Lit("x"))), list: Some(L { sep: None, trail: No }) }], suf: None });
#[derive(Parse)]
#[nommy(suffix = OneOf<"(a">)]
pub struct G11 (#[nommy(inner_parser = OneOf<"ab">)] Vec<char>, #[nommy(prefix = Tag<";">, suffix = Tag<"(">)] Vec1<Tag<"b">>);
impl Log for G11 { fn log(self, o: &mut Vec<u32>) { o.push(M_SEQ); self.0.log(o); self.1.log(o); o.push(M_END) } }
static G11_G: G = Seq(&S { ign: &[], pre: None, fields: &[F { pre: None, p: &One("ab"), suf: None, list: Some(L { sep: None, trail: No }) }, F { pre: Some(&Lit(";")), p: &Many1(&Lit("b")), suf: Some(&Lit("(")), list: None }], suf: Some(&One("(a")) });
#[derive(Parse)]
#[nommy(prefix = OneOf<"(a">, suffix = Tag<",">, parse_type = char)]
pub struct G12 (#[nommy(suffix = Tag<";">)] #[nommy(parser = AnyOf1<"ab">)] String, #[nommy(prefix = Option<Tag<"x">>)] Box<Tag<"b">>);
impl Log for G12 { fn log(self, o: &mut Vec<u32>) { o.push(M_SEQ); self.0.log(o); self.1.log(o); o.push(M_END) } }
static G12_G: G = Seq(&S { ign: &[], pre: Some(&One("(a")), fields: &[F { pre: None, p: &Any1("ab"), suf: Some(&Lit(";")), list: None }, F { pre: Some(&Opt(&Lit("x"))), p: &Lit("b"), suf: None, list: None }], suf: Some(&Lit(",")) });
#[derive(Parse)]
#[nommy(ignore = Tag<" -">, parse_type = char, prefix = Tag<",">)]
pub struct G13 ;
impl Log for G13 { fn log(self, o: &mut Vec<u32>) { o.push(M_SEQ); o.push(M_END) } }
static G13_G: G = Seq(&S { ign: &[&Lit(" -")], pre: Some(&Lit(",")), fields: &[], suf: None });
#[derive(Parse)]
#[nommy(parse_type = char, prefix = Tag<"(">, ignore = Tag<"x">)]
pub struct G14 ;
impl Log for G14 { fn log(self, o: &mut Vec<u32>) { o.push(M_SEQ); o.push(M_END) } }
static G14_G: G = Seq(&S { ign: &[&Lit("x")], pre: Some(&Lit("(")), fields: &[], suf: None });
#[derive(Parse)]
#[nommy(ignore = Tag<" -">, parse_type = char)]
pub struct G15 (Tag<"ab">, #[nommy(prefix = Tag<";">)] [OneOf<"ab">; 2]);
impl Log for G15 { fn log(self, o: &mut Vec<u32>) { o.push(M_SEQ); self.0.log(o); self.1.log(o); o.push(M_END) } }
static G15_G: G = Seq(&S { ign: &[&Lit(" -")], pre: None, fields: &[F { pre: None, p: &Lit("ab"), suf: None, list: None }, F { pre: Some(&Lit(";")), p: &Rep(2, &One("ab")), suf: None, list: None }], suf: None });
#[derive(Parse)]
#[nommy(prefix = OneOf<"(a">, parse_type = char)]
pub struct G16 (#[nommy(suffix = Tag<";">)] Box<Tag<"b">>, #[nommy(prefix = Tag<";">)] #[nommy(inner_parser = OneOf<"ab">, seperated_by = Tag<",">)] Vec<char>, #[nommy(suffix = OneOf<"(a">, prefix = Tag<";">)] Option<Tag<"x">>);
impl Log for G16 { fn log(self, o: &mut Vec<u32>) { o.push(M_SEQ); self.0.log(o); self.1.log(o); self.2.log(o); o.push(M_END) } }
static G16_G: G = Seq(&S { ign: &[], pre: Some(&One("(a")), fields: &[F { pre: None, p: &Lit("b"), suf: Some(&Lit(";")), list: None }, F { pre: Some(&Lit(";")), p: &One("ab"), suf: None, list: Some(L { sep: Some(&Lit(",")), trail: No }) }, F { pre: Some(&Lit(";")), p: &Opt(&Lit("x")), suf: Some(&One("(a")), list: None }], suf: None });
#[derive(Parse)]
#[nommy(suffix = Tag<",">, prefix = Tag<"(">, ignore = WhiteSpace)]
pub struct G17 (#[nommy(prefix = Option<Tag<"x">>, suffix = Tag<"(">, parser = OneOf<"ab">)] char);
impl Log for G17 { fn log(self, o: &mut Vec<u32>) { o.push(M_SEQ); self.0.log(o); o.push(M_END) } }
static G17_G: G = Seq(&S { ign: &[&Ws], pre: Some(&Lit("(")), fields: &[F { pre: Some(&Opt(&Lit("x"))), p: &One("ab"), suf: Some(&Lit("(")), list: None }], suf: Some(&Lit(",")) });
#[derive(Parse)]
#[nommy(suffix = Tag<";">, ignore = Tag<"x">, prefix = Option<Tag<"x">>, ignore = Tag<" -">, parse_type = char)]
pub struct G18 { #[nommy(inner_parser = OneOf<"ab">, seperated_by = Tag<",">, trailing = "no")] f0: Vec<char> }
impl Log for G18 { fn log(self, o: &mut Vec<u32>) { o.push(M_SEQ); self.f0.log(o); o.push(M_END) } }
static G18_G: G = Seq(&S { ign: &[&Lit("x"), &Lit(" -")], pre: Some(&Opt(&Lit("x"))), fields: &[F { pre: None, p: &One("ab"), suf: None, list: Some(L { sep: Some(&Lit(",")), trail: No }) }], suf: Some(&Lit(";")) });
#[derive(Parse)]
#[nommy(prefix = OneOf<"(a">, parse_type = char, ignore = Vec1<Tag<"_">>, ignore = WhiteSpace)]
pub struct G19 { #[nommy(suffix = Tag<";">)] #[nommy(parser = WhileNot1<",;)x ">)] f0: String, #[nommy(prefix = Tag<",">, suffix = Tag<"(">, inner_parser = OneOf<"ab">, seperated_by = Tag<",">, trailing = "maybe")] f1: Vec<char> }
impl Log for G19 { fn log(self, o: &mut Vec<u32>) { o.push(M_SEQ); self.f0.log(o); self.f1.log(o); o.push(M_END) } }
static G19_G: G = Seq(&S { ign: &[&Many1(&Lit("_")), &Ws], pre: Some(&One("(a")), fields: &[F { pre: None, p: &Not1(",;)x "), suf: Some(&Lit(";")), list: None }, F { pre: Some(&Lit(",")), p: &One("ab"), suf: Some(&Lit("(")), list: Some(L { sep: Some(&Lit(",")), trail: Maybe }) }], suf: None });
#[derive(Parse)]
#[nommy(prefix = Tag<"(">, ignore = Tag<" ">, ignore = WhiteSpace, parse_type = char)]
pub struct G20 (#[nommy(suffix = Tag<",">, prefix = Tag<",">)] Vec1<Tag<"b">>, #[nommy(inner_parser = OneOf<"ab">, seperated_by = Tag<",">)] #[nommy(prefix = Option<Tag<"x">>)] Vec<char>);
impl Log for G20 { fn log(self, o: &mut Vec<u32>) { o.push(M_SEQ); self.0.log(o); self.1.log(o); o.push(M_END) } }
static G20_G: G = Seq(&S { ign: &[&Lit(" "), &Ws], pre: Some(&Lit("(")), fields: &[F { pre: Some(&Lit(",")), p: &Many1(&Lit("b")), suf: Some(&Lit(",")), list: None }, F { pre: Some(&Opt(&Lit("x"))), p: &One("ab"), suf: None, list: Some(L { sep: Some(&Lit(",")), trail: No }) }], suf: None });
#[derive(Parse)]
#[nommy(suffix = Option<Tag<"x">>, parse_type = char)]
pub struct G21 { #[nommy(prefix = Tag<";">, inner_parser = OneOf<"ab">, seperated_by = Tag<",">, trailing = "yes")] f0: Vec<char>, #[nommy(suffix = Tag<"(">, prefix = Tag<";">, inner_parser = OneOf<"ab">)] f1: Vec<char>, #[nommy(inner_parser = OneOf<"ab">, seperated_by = Tag<",">, trailing = "no")] #[nommy(suffix = Tag<"(">)] f2: Vec<char> }
impl Log for G21 { fn log(self, o: &mut Vec<u32>) { o.push(M_SEQ); self.f0.log(o); self.f1.log(o); self.f2.log(o); o.push(M_END) } }
static G21_G: G = Seq(&S { ign: &[], pre: None, fields: &[F { pre: Some(&Lit(";")), p: &One("ab"), suf: None, list: Some(L { sep: Some(&Lit(",")), trail: Yes }) }, F { pre: Some(&Lit(";")), p: &One("ab"), suf: Some(&Lit("(")), list: Some(L { sep: None, trail: No }) }, F { pre: None, p: &One("ab"), suf: Some(&Lit("(")), list: Some(L { sep: Some(&Lit(",")), trail: No }) }], suf: Some(&Opt(&Lit("x"))) });
#[derive(Parse)]
#[nommy(ignore = Tag<" -">, suffix = Tag<";">, ignore = WhiteSpace, prefix = OneOf<"(a">)]
pub struct G22 ;
impl Log for G22 { fn log(self, o: &mut Vec<u32>) { o.push(M_SEQ); o.push(M_END) } }
static G22_G: G = Seq(&S { ign: &[&Lit(" -"), &Ws], pre: Some(&One("(a")), fields: &[], suf: Some(&Lit(";")) });
#[derive(Parse)]
#[nommy(parse_type = char, suffix = Tag<";">)]
pub struct G23 { #[nommy(inner_parser = OneOf<"ab">, seperated_by = Tag<",">, trailing = "no")] f0: Vec<char>, f1: Option<Tag<"x">>, f2: Option<Tag<"x">> }
impl Log for G23 { fn log(self, o: &mut Vec<u32>) { o.push(M_SEQ); self.f0.log(o); self.f1.log(o); self.f2.log(o); o.push(M_END) } }
static G23_G: G = Seq(&S { ign: &[], pre: None, fields: &[F { pre: None, p: &One("ab"), suf: None, list: Some(L { sep: Some(&Lit(",")), trail: No }) }, F { pre: None, p: &Opt(&Lit("x")), suf: None, list: None }, F { pre: None, p: &Opt(&Lit("x")), suf: None, list: None }], suf: Some(&Lit(";")) });
#[derive(Parse)]
pub struct G24 { #[nommy(prefix = Option<Tag<"x">>, suffix = Tag<",">)] f0: Tag<"a">, #[nommy(prefix = Tag<";">)] f1: Option<Tag<"x">> }
impl Log for G24 { fn log(self, o: &mut Vec<u32>) { o.push(M_SEQ); self.f0.log(o); self.f1.log(o); o.push(M_END) } }
static G24_G: G = Seq(&S { ign: &[], pre: None, fields: &[F { pre: Some(&Opt(&Lit("x"))), p: &Lit("a"), suf: Some(&Lit(",")), list: None }, F { pre: Some(&Lit(";")), p: &Opt(&Lit("x")), suf: None, list: None }], suf: None });
#[derive(Parse)]
#[nommy(ignore = Tag<" -">, ignore = Tag<" ">)]
pub struct G25 (#[nommy(suffix = Tag<",">)] [OneOf<"ab">; 2]);
impl Log for G25 { fn log(self, o: &mut Vec<u32>) { o.push(M_SEQ); self.0.log(o); o.push(M_END) } }
static G25_G: G = Seq(&S { ign: &[&Lit(" -"), &Lit(" ")], pre: None, fields: &[F { pre: None, p: &Rep(2, &One("ab")), suf: Some(&Lit(",")), list: None }], suf: None });
#[derive(Parse)]
#[nommy(parse_type = char, ignore = Tag<" ">, prefix = Tag<";">, suffix = Tag<";">)]
pub struct G26 { #[nommy(inner_parser = OneOf<"ab">, seperated_by = Tag<",">, trailing = "yes")] #[nommy(prefix = OneOf<"(a">)] f0: Vec<char>, f1: Tag<"a">, #[nommy(prefix = Option<Tag<"x">>)] f2: Tag<"ab">, #[nommy(prefix = Option<Tag<"x">>)] f3: Tag<"ab">, #[nommy(suffix = Tag<"(">)] f4: Vec<Tag<"a">> }
impl Log for G26 { fn log(self, o: &mut Vec<u32>) { o.push(M_SEQ); self.f0.log(o); self.f1.log(o); self.f2.log(o); self.f3.log(o); self.f4.log(o); o.push(M_END) } }
static G26_G: G = Seq(&S { ign: &[&Lit(" ")], pre: Some(&Lit(";")), fields: &[F { pre: Some(&One("(a")), p: &One("ab"), suf: None, list: Some(L { sep: Some(&Lit(",")), trail: Yes }) }, F { pre: None, p: &Lit("a"), suf: None, list: None }, F { pre: Some(&Opt(&Lit("x"))), p: &Lit("ab"), suf: None, list: None }, F { pre: Some(&Opt(&Lit("x"))), p: &Lit("ab"), suf: None, list: None }, F { pre: None, p: &Many(&Lit("a")), suf: Some(&Lit("(")), list: None }], suf: Some(&Lit(";")) });
#[derive(Parse)]
#[nommy(prefix = OneOf<"(a">)]
pub struct G27 (#[nommy(prefix = Tag<"(">)] #[nommy(suffix = Tag<",">)] [OneOf<"ab">; 2], #[nommy(inner_parser = OneOf<"ab">, suffix = Tag<";">)] Vec<char>, #[nommy(inner_parser = OneOf<"ab">)] #[nommy(prefix = Tag<"(">, suffix = Tag<"(">)] Vec<char>, #[nommy(prefix = Option<Tag<"x">>, suffix = Tag<";">)] Vec<Tag<"a">>, #[nommy(prefix = Tag<",">, parser = AnyOf1<"ab">)] String);
impl Log for G27 { fn log(self, o: &mut Vec<u32>) { o.push(M_SEQ); self.0.log(o); self.1.log(o); self.2.log(o); self.3.log(o); self.4.log(o); o.push(M_END) } }
static G27_G: G = Seq(&S { ign: &[], pre: Some(&One("(a")), fields: &[F { pre: Some(&Lit("(")), p: &Rep(2, &One("ab")), suf: Some(&Lit(",")), list: None }, F { pre: None, p: &One("ab"), suf: Some(&Lit(";")), list: Some(L { sep: None, trail: No }) }, F { pre: Some(&Lit("(")), p: &One("ab"), suf: Some(&Lit("(")), list: Some(L { sep: None, trail: No }) }, F { pre: Some(&Opt(&Lit("x"))), p: &Many(&Lit("a")), suf: Some(&Lit(";")), list: None }, F { pre: Some(&Lit(",")), p: &Any1("ab"), suf: None, list: None }], suf: None });
#[derive(Parse)]
#[nommy(parse_type = char, ignore = WhiteSpace)]
pub enum E00 {
    #[nommy(ignore = Tag<" ">)] V0(#[nommy(prefix = Tag<"(">)] Box<Tag<"b">>),
    #[nommy(suffix = Tag<"(">, prefix = OneOf<"(a">)] V1(#[nommy(prefix = Tag<",">, suffix = Option<Tag<"x">>)] Vec<Tag<"a">>),
}
impl Log for E00 {
    fn log(self, o: &mut Vec<u32>) {
        match self {
            E00::V0(f0) => { o.push(M_VAR + 0); f0.log(o); }
            E00::V1(f0) => { o.push(M_VAR + 1); f0.log(o); }
        }
        o.push(M_END)
    }
}
static E00_G: G = Alt(&A { ign: &[&Ws], pre: None, vars: &[
    &S { ign: &[&Lit(" "), &Ws], pre: None, fields: &[F { pre: Some(&Lit("(")), p: &Lit("b"), suf: None, list: None }], suf: None },
    &S { ign: &[&Ws], pre: Some(&One("(a")), fields: &[F { pre: Some(&Lit(",")), p: &Many(&Lit("a")), suf: Some(&Opt(&Lit("x"))), list: None }], suf: Some(&Lit("(")) },
], suf: None });
#[derive(Parse)]
#[nommy(prefix = Tag<";">, suffix = Option<Tag<"x">>, ignore = Vec1<Tag<"_">>)]
pub enum E01 {
    #[nommy(ignore = WhiteSpace, prefix = Tag<"(">)] V0,
    #[nommy(suffix = Tag<",">, prefix = Tag<";">, ignore = Tag<" ">)] V1(Tag<"a">, #[nommy(prefix = Tag<"(">)] Tag<"a">),
}
impl Log for E01 {
    fn log(self, o: &mut Vec<u32>) {
        match self {
            E01::V0 => { o.push(M_VAR + 0); }
            E01::V1(f0, f1) => { o.push(M_VAR + 1); f0.log(o); f1.log(o); }
        }
        o.push(M_END)
    }
}
static E01_G: G = Alt(&A { ign: &[&Many1(&Lit("_"))], pre: Some(&Lit(";")), vars: &[
    &S { ign: &[&Ws, &Many1(&Lit("_"))], pre: Some(&Lit("(")), fields: &[], suf: None },
    &S { ign: &[&Lit(" "), &Many1(&Lit("_"))], pre: Some(&Lit(";")), fields: &[F { pre: None, p: &Lit("a"), suf: None, list: None }, F { pre: Some(&Lit("(")), p: &Lit("a"), suf: None, list: None }], suf: Some(&Lit(",")) },
], suf: Some(&Opt(&Lit("x"))) });
#[derive(Parse)]
#[nommy(prefix = Tag<"(">, parse_type = char, suffix = Tag<",">, ignore = Tag<" -">)]
pub enum E02 {
    #[nommy(suffix = OneOf<"(a">, prefix = Tag<"(">)] V0(#[nommy(suffix = Tag<",">)] Box<Tag<"b">>),
    #[nommy(suffix = Option<Tag<"x">>, prefix = OneOf<"(a">)] V1,
    #[nommy(prefix = Tag<";">)] V2 { #[nommy(inner_parser = OneOf<"ab">, seperated_by = Tag<",">)] #[nommy(prefix = Tag<",">)] f0: Vec<char>, #[nommy(prefix = Tag<"(">)] f1: Tag<"a"> },
}
impl Log for E02 {
    fn log(self, o: &mut Vec<u32>) {
        match self {
            E02::V0(f0) => { o.push(M_VAR + 0); f0.log(o); }
            E02::V1 => { o.push(M_VAR + 1); }
            E02::V2 { f0, f1 } => { o.push(M_VAR + 2); f0.log(o); f1.log(o); }
        }
        o.push(M_END)
    }
}
static E02_G: G = Alt(&A { ign: &[&Lit(" -")], pre: Some(&Lit("(")), vars: &[
    &S { ign: &[&Lit(" -")], pre: Some(&Lit("(")), fields: &[F { pre: None, p: &Lit("b"), suf: Some(&Lit(",")), list: None }], suf: Some(&One("(a")) },
    &S { ign: &[&Lit(" -")], pre: Some(&One("(a")), fields: &[], suf: Some(&Opt(&Lit("x"))) },
    &S { ign: &[&Lit(" -")], pre: Some(&Lit(";")), fields: &[F { pre: Some(&Lit(",")), p: &One("ab"), suf: None, list: Some(L { sep: Some(&Lit(",")), trail: No }) }, F { pre: Some(&Lit("(")), p: &Lit("a"), suf: None, list: None }], suf: None },
], suf: Some(&Lit(",")) });
#[derive(Parse)]
#[nommy(parse_type = char, suffix = OneOf<"(a">)]
pub enum E03 {
    #[nommy(prefix = Tag<"(">)] V0,
    #[nommy(prefix = OneOf<"(a">, suffix = Tag<";">)] V1,
}
impl Log for E03 {
    fn log(self, o: &mut Vec<u32>) {
        match self {
            E03::V0 => { o.push(M_VAR + 0); }
            E03::V1 => { o.push(M_VAR + 1); }
        }
        o.push(M_END)
    }
}
static E03_G: G = Alt(&A { ign: &[], pre: None, vars: &[
    &S { ign: &[], pre: Some(&Lit("(")), fields: &[], suf: None },
    &S { ign: &[], pre: Some(&One("(a")), fields: &[], suf: Some(&Lit(";")) },
], suf: Some(&One("(a")) });
#[derive(Parse)]
#[nommy(suffix = Option<Tag<"x">>, prefix = Tag<"(">, ignore = WhiteSpace, parse_type = char)]
pub enum E04 {
    #[nommy(suffix = Option<Tag<"x">>)] V0 { #[nommy(parser = AnyOf1<"ab">)] #[nommy(suffix = OneOf<"(a">)] f0: String },
    #[nommy(suffix = Tag<"(">)] V1(#[nommy(suffix = Tag<"(">, prefix = Tag<";">)] Tag<"a">),
}
impl Log for E04 {
    fn log(self, o: &mut Vec<u32>) {
        match self {
            E04::V0 { f0 } => { o.push(M_VAR + 0); f0.log(o); }
            E04::V1(f0) => { o.push(M_VAR + 1); f0.log(o); }
        }
        o.push(M_END)
    }
}
static E04_G: G = Alt(&A { ign: &[&Ws], pre: Some(&Lit("(")), vars: &[
    &S { ign: &[&Ws], pre: None, fields: &[F { pre: None, p: &Any1("ab"), suf: Some(&One("(a")), list: None }], suf: Some(&Opt(&Lit("x"))) },
    &S { ign: &[&Ws], pre: None, fields: &[F { pre: Some(&Lit(";")), p: &Lit("a"), suf: Some(&Lit("(")), list: None }], suf: Some(&Lit("(")) },
], suf: Some(&Opt(&Lit("x"))) });
#[derive(Parse)]
#[nommy(prefix = OneOf<"(a">, suffix = Tag<"(">, parse_type = char, ignore = WhiteSpace)]
pub enum E05 {
    #[nommy(suffix = Tag<";">, prefix = OneOf<"(a">)] V0 { #[nommy(suffix = Tag<";">)] #[nommy(inner_parser = OneOf<"ab">, seperated_by = Tag<",">, trailing = "yes")] f0: Vec<char>, #[nommy(inner_parser = OneOf<"ab">, suffix = Option<Tag<"x">>)] f1: Vec<char> },
    #[nommy(prefix = Tag<",">, suffix = Tag<";">)] V1 { #[nommy(suffix = Tag<",">, inner_parser = OneOf<"ab">, seperated_by = Tag<",">, trailing = "yes", prefix = OneOf<"(a">)] f0: Vec<char>, #[nommy(suffix = Tag<"(">, inner_parser = OneOf<"ab">, seperated_by = Tag<",">, trailing = "maybe")] f1: Vec<char> },
}
impl Log for E05 {
    fn log(self, o: &mut Vec<u32>) {
        match self {
            E05::V0 { f0, f1 } => { o.push(M_VAR + 0); f0.log(o); f1.log(o); }
            E05::V1 { f0, f1 } => { o.push(M_VAR + 1); f0.log(o); f1.log(o); }
        }
        o.push(M_END)
    }
}
static E05_G: G = Alt(&A { ign: &[&Ws], pre: Some(&One("(a")), vars: &[
    &S { ign: &[&Ws], pre: Some(&One("(a")), fields: &[F { pre: None, p: &One("ab"), suf: Some(&Lit(";")), list: Some(L { sep: Some(&Lit(",")), trail: Yes }) }, F { pre: None, p: &One("ab"), suf: Some(&Opt(&Lit("x"))), list: Some(L { sep: None, trail: No }) }], suf: Some(&Lit(";")) },
    &S { ign: &[&Ws], pre: Some(&Lit(",")), fields: &[F { pre: Some(&One("(a")), p: &One("ab"), suf: Some(&Lit(",")), list: Some(L { sep: Some(&Lit(",")), trail: Yes }) }, F { pre: None, p: &One("ab"), suf: Some(&Lit("(")), list: Some(L { sep: Some(&Lit(",")), trail: Maybe }) }], suf: Some(&Lit(";")) },
], suf: Some(&Lit("(")) });
#[derive(Parse)]
#[nommy(ignore = Tag<" ">, suffix = Tag<";">)]
pub enum E06 {
    #[nommy(suffix = Tag<"(">, ignore = WhiteSpace)] V0 { #[nommy(parser = OneOf<"ab">, prefix = Option<Tag<"x">>, suffix = OneOf<"(a">)] f0: char, #[nommy(suffix = Tag<",">, parser = WhileNot1<",;)x ">)] f1: String },
    #[nommy(prefix = Tag<"(">)] V1,
}
impl Log for E06 {
    fn log(self, o: &mut Vec<u32>) {
        match self {
            E06::V0 { f0, f1 } => { o.push(M_VAR + 0); f0.log(o); f1.log(o); }
            E06::V1 => { o.push(M_VAR + 1); }
        }
        o.push(M_END)
    }
}
static E06_G: G = Alt(&A { ign: &[&Lit(" ")], pre: None, vars: &[
    &S { ign: &[&Ws, &Lit(" ")], pre: None, fields: &[F { pre: Some(&Opt(&Lit("x"))), p: &One("ab"), suf: Some(&One("(a")), list: None }, F { pre: None, p: &Not1(",;)x "), suf: Some(&Lit(",")), list: None }], suf: Some(&Lit("(")) },
    &S { ign: &[&Lit(" ")], pre: Some(&Lit("(")), fields: &[], suf: None },
], suf: Some(&Lit(";")) });
#[derive(Parse)]
#[nommy(ignore = Tag<"x">, prefix = OneOf<"(a">)]
pub enum E07 {
    #[nommy(prefix = Tag<"(">, suffix = Tag<";">)] V0,
    #[nommy(ignore = Tag<" ">, suffix = OneOf<"(a">)] V1 { #[nommy(prefix = OneOf<"(a">, parser = OneOf<"ab">)] f0: char, #[nommy(prefix = Tag<",">, parser = OneOf<"ab">, suffix = Option<Tag<"x">>)] f1: char },
    V2(#[nommy(inner_parser = OneOf<"ab">, prefix = Tag<",">, suffix = Tag<";">)] Vec<char>),
}
impl Log for E07 {
    fn log(self, o: &mut Vec<u32>) {
        match self {
            E07::V0 => { o.push(M_VAR + 0); }
            E07::V1 { f0, f1 } => { o.push(M_VAR + 1); f0.log(o); f1.log(o); }
            E07::V2(f0) => { o.push(M_VAR + 2); f0.log(o); }
        }
        o.push(M_END)
    }
}
static E07_G: G = Alt(&A { ign: &[&Lit("x")], pre: Some(&One("(a")), vars: &[
    &S { ign: &[&Lit("x")], pre: Some(&Lit("(")), fields: &[], suf: Some(&Lit(";")) },
    &S { ign: &[&Lit(" "), &Lit("x")], pre: None, fields: &[F { pre: Some(&One("(a")), p: &One("ab"), suf: None, list: None }, F { pre: Some(&Lit(",")), p: &One("ab"), suf: Some(&Opt(&Lit("x"))), list: None }], suf: Some(&One("(a")) },
    &S { ign: &[&Lit("x")], pre: None, fields: &[F { pre: Some(&Lit(",")), p: &One("ab"), suf: Some(&Lit(";")), list: Some(L { sep: None, trail: No }) }], suf: None },
], suf: None });
#[derive(Parse)]
#[nommy(prefix = Option<Tag<"x">>, ignore = Tag<"x">, suffix = Tag<",">)]
pub enum E08 {
    #[nommy(suffix = Tag<",">)] V0 { #[nommy(prefix = Tag<"(">)] #[nommy(suffix = Tag<";">)] f0: Option<Tag<"x">> },
    #[nommy(ignore = Vec1<Tag<"_">>, prefix = Tag<",">)] V1 { f0: Tag<"a"> },
    #[nommy(prefix = Tag<";">)] V2 { f0: Box<Tag<"b">> },
}
impl Log for E08 {
    fn log(self, o: &mut Vec<u32>) {
        match self {
            E08::V0 { f0 } => { o.push(M_VAR + 0); f0.log(o); }
            E08::V1 { f0 } => { o.push(M_VAR + 1); f0.log(o); }
            E08::V2 { f0 } => { o.push(M_VAR + 2); f0.log(o); }
        }
        o.push(M_END)
    }
}
static E08_G: G = Alt(&A { ign: &[&Lit("x")], pre: Some(&Opt(&Lit("x"))), vars: &[
    &S { ign: &[&Lit("x")], pre: None, fields: &[F { pre: Some(&Lit("(")), p: &Opt(&Lit("x")), suf: Some(&Lit(";")), list: None }], suf: Some(&Lit(",")) },
    &S { ign: &[&Many1(&Lit("_")), &Lit("x")], pre: Some(&Lit(",")), fields: &[F { pre: None, p: &Lit("a"), suf: None, list: None }], suf: None },
    &S { ign: &[&Lit("x")], pre: Some(&Lit(";")), fields: &[F { pre: None, p: &Lit("b"), suf: None, list: None }], suf: None },
], suf: Some(&Lit(",")) });
#[derive(Parse)]
#[nommy(prefix = OneOf<"(a">, suffix = Tag<",">)]
pub enum E09 {
    V0 { #[nommy(inner_parser = OneOf<"ab">, suffix = Tag<",">)] f0: Vec<char> },
    #[nommy(prefix = Tag<"(">)] V1,
    #[nommy(prefix = OneOf<"(a">, suffix = OneOf<"(a">)] V2(Vec1<Tag<"b">>, Tag<"a">),
}
impl Log for E09 {
    fn log(self, o: &mut Vec<u32>) {
        match self {
            E09::V0 { f0 } => { o.push(M_VAR + 0); f0.log(o); }
            E09::V1 => { o.push(M_VAR + 1); }
            E09::V2(f0, f1) => { o.push(M_VAR + 2); f0.log(o); f1.log(o); }
        }
        o.push(M_END)
    }
}
static E09_G: G = Alt(&A { ign: &[], pre: Some(&One("(a")), vars: &[
    &S { ign: &[], pre: None, fields: &[F { pre: None, p: &One("ab"), suf: Some(&Lit(",")), list: Some(L { sep: None, trail: No }) }], suf: None },
    &S { ign: &[], pre: Some(&Lit("(")), fields: &[], suf: None },
    &S { ign: &[], pre: Some(&One("(a")), fields: &[F { pre: None, p: &Many1(&Lit("b")), suf: None, list: None }, F { pre: None, p: &Lit("a"), suf: None, list: None }], suf: Some(&One("(a")) },
], suf: Some(&Lit(",")) });
#[derive(Parse)]
#[nommy(parse_type = char, ignore = Tag<" -">, suffix = Tag<"(">, prefix = Tag<",">)]
pub enum E10 {
    #[nommy(suffix = Tag<"(">)] V0 { #[nommy(suffix = Tag<";">)] #[nommy(prefix = Tag<",">)] f0: Option<Tag<"x">> },
    #[nommy(suffix = Tag<";">)] V1(#[nommy(inner_parser = OneOf<"ab">, seperated_by = Tag<",">, trailing = "no")] #[nommy(prefix = Tag<",">, suffix = OneOf<"(a">)] Vec<char>),
}
impl Log for E10 {
    fn log(self, o: &mut Vec<u32>) {
        match self {
            E10::V0 { f0 } => { o.push(M_VAR + 0); f0.log(o); }
            E10::V1(f0) => { o.push(M_VAR + 1); f0.log(o); }
        }
        o.push(M_END)
    }
}
static E10_G: G = Alt(&A { ign: &[&Lit(" -")], pre: Some(&Lit(",")), vars: &[
    &S { ign: &[&Lit(" -")], pre: None, fields: &[F { pre: Some(&Lit(",")), p: &Opt(&Lit("x")), suf: Some(&Lit(";")), list: None }], suf: Some(&Lit("(")) },
    &S { ign: &[&Lit(" -")], pre: None, fields: &[F { pre: Some(&Lit(",")), p: &One("ab"), suf: Some(&One("(a")), list: Some(L { sep: Some(&Lit(",")), trail: No }) }], suf: Some(&Lit(";")) },
], suf: Some(&Lit("(")) });
#[derive(Parse)]
#[nommy(ignore = Tag<"x">, parse_type = char, suffix = OneOf<"(a">, prefix = Tag<";">)]
pub enum E11 {
    #[nommy(prefix = OneOf<"(a">)] V0(#[nommy(suffix = Tag<";">, prefix = Option<Tag<"x">>, inner_parser = OneOf<"ab">, seperated_by = Tag<",">, trailing = "no")] Vec<char>, #[nommy(prefix = Tag<";">, suffix = Tag<";">)] Vec<Tag<"a">>),
    #[nommy(ignore = Vec1<Tag<"_">>)] V1 { #[nommy(prefix = Tag<";">)] #[nommy(suffix = Option<Tag<"x">>)] f0: Box<Tag<"b">> },
    #[nommy(suffix = Tag<";">)] V2(#[nommy(suffix = Tag<",">)] #[nommy(inner_parser = OneOf<"ab">, seperated_by = Tag<",">, trailing = "no", prefix = Tag<",">)] Vec<char>, #[nommy(suffix = Option<Tag<"x">>, prefix = Tag<";">)] Box<Tag<"b">>),
}
impl Log for E11 {
    fn log(self, o: &mut Vec<u32>) {
        match self {
            E11::V0(f0, f1) => { o.push(M_VAR + 0); f0.log(o); f1.log(o); }
            E11::V1 { f0 } => { o.push(M_VAR + 1); f0.log(o); }
            E11::V2(f0, f1) => { o.push(M_VAR + 2); f0.log(o); f1.log(o); }
        }
        o.push(M_END)
    }
}
static E11_G: G = Alt(&A { ign: &[&Lit("x")], pre: Some(&Lit(";")), vars: &[
    &S { ign: &[&Lit("x")], pre: Some(&One("(a")), fields: &[F { pre: Some(&Opt(&Lit("x"))), p: &One("ab"), suf: Some(&Lit(";")), list: Some(L { sep: Some(&Lit(",")), trail: No }) }, F { pre: Some(&Lit(";")), p: &Many(&Lit("a")), suf: Some(&Lit(";")), list: None }], suf: None },
    &S { ign: &[&Many1(&Lit("_")), &Lit("x")], pre: None, fields: &[F { pre: Some(&Lit(";")), p: &Lit("b"), suf: Some(&Opt(&Lit("x"))), list: None }], suf: None },
    &S { ign: &[&Lit("x")], pre: None, fields: &[F { pre: Some(&Lit(",")), p: &One("ab"), suf: Some(&Lit(",")), list: Some(L { sep: Some(&Lit(",")), trail: No }) }, F { pre: Some(&Lit(";")), p: &Lit("b"), suf: Some(&Opt(&Lit("x"))), list: None }], suf: Some(&Lit(";")) },
], suf: Some(&One("(a")) });
#[derive(Parse)]
#[nommy(parse_type = char, ignore = Tag<" ">, prefix = Tag<",">, suffix = OneOf<"(a">)]
pub enum E12 {
    #[nommy(prefix = Tag<";">)] V0(#[nommy(inner_parser = OneOf<"ab">, seperated_by = Tag<",">, trailing = "no", suffix = Tag<";">)] Vec<char>),
    #[nommy(ignore = Vec1<Tag<"_">>)] V1 { #[nommy(suffix = Option<Tag<"x">>, prefix = Tag<";">, inner_parser = OneOf<"ab">)] f0: Vec<char> },
    #[nommy(prefix = Tag<",">)] V2,
}
impl Log for E12 {
    fn log(self, o: &mut Vec<u32>) {
        match self {
            E12::V0(f0) => { o.push(M_VAR + 0); f0.log(o); }
            E12::V1 { f0 } => { o.push(M_VAR + 1); f0.log(o); }
            E12::V2 => { o.push(M_VAR + 2); }
        }
        o.push(M_END)
    }
}
static E12_G: G = Alt(&A { ign: &[&Lit(" ")], pre: Some(&Lit(",")), vars: &[
    &S { ign: &[&Lit(" ")], pre: Some(&Lit(";")), fields: &[F { pre: None, p: &One("ab"), suf: Some(&Lit(";")), list: Some(L { sep: Some(&Lit(",")), trail: No }) }], suf: None },
    &S { ign: &[&Many1(&Lit("_")), &Lit(" ")], pre: None, fields: &[F { pre: Some(&Lit(";")), p: &One("ab"), suf: Some(&Opt(&Lit("x"))), list: Some(L { sep: None, trail: No }) }], suf: None },
    &S { ign: &[&Lit(" ")], pre: Some(&Lit(",")), fields: &[], suf: None },
], suf: Some(&One("(a")) });
#[derive(Parse)]
#[nommy(prefix = Tag<"(">, ignore = Tag<" -">, suffix = Option<Tag<"x">>)]
pub enum E13 {
    #[nommy(prefix = Tag<",">, suffix = Option<Tag<"x">>)] V0,
    #[nommy(ignore = WhiteSpace, prefix = Option<Tag<"x">>)] V1(#[nommy(prefix = Option<Tag<"x">>, inner_parser = OneOf<"ab">)] Vec<char>),
}
impl Log for E13 {
    fn log(self, o: &mut Vec<u32>) {
        match self {
            E13::V0 => { o.push(M_VAR + 0); }
            E13::V1(f0) => { o.push(M_VAR + 1); f0.log(o); }
        }
        o.push(M_END)
    }
}
static E13_G: G = Alt(&A { ign: &[&Lit(" -")], pre: Some(&Lit("(")), vars: &[
    &S { ign: &[&Lit(" -")], pre: Some(&Lit(",")), fields: &[], suf: Some(&Opt(&Lit("x"))) },
    &S { ign: &[&Ws, &Lit(" -")], pre: Some(&Opt(&Lit("x"))), fields: &[F { pre: Some(&Opt(&Lit("x"))), p: &One("ab"), suf: None, list: Some(L { sep: None, trail: No }) }], suf: None },
], suf: Some(&Opt(&Lit("x"))) });
#[derive(Parse)]
#[nommy(parse_type = char, ignore = Vec1<Tag<"_">>, prefix = Tag<",">, suffix = Tag<",">)]
pub enum E14 {
    #[nommy(prefix = Tag<"(">)] V0,
    #[nommy(prefix = Tag<",">)] V1,
    V2 { #[nommy(prefix = Tag<";">, inner_parser = OneOf<"ab">, seperated_by = Tag<",">)] f0: Vec<char>, #[nommy(suffix = Tag<"(">, inner_parser = OneOf<"ab">, seperated_by = Tag<",">, trailing = "maybe")] f1: Vec<char> },
}
impl Log for E14 {
    fn log(self, o: &mut Vec<u32>) {
        match self {
            E14::V0 => { o.push(M_VAR + 0); }
            E14::V1 => { o.push(M_VAR + 1); }
            E14::V2 { f0, f1 } => { o.push(M_VAR + 2); f0.log(o); f1.log(o); }
        }
        o.push(M_END)
    }
}
static E14_G: G = Alt(&A { ign: &[&Many1(&Lit("_"))], pre: Some(&Lit(",")), vars: &[
    &S { ign: &[&Many1(&Lit("_"))], pre: Some(&Lit("(")), fields: &[], suf: None },
    &S { ign: &[&Many1(&Lit("_"))], pre: Some(&Lit(",")), fields: &[], suf: None },
    &S { ign: &[&Many1(&Lit("_"))], pre: None, fields: &[F { pre: Some(&Lit(";")), p: &One("ab"), suf: None, list: Some(L { sep: Some(&Lit(",")), trail: No }) }, F { pre: None, p: &One("ab"), suf: Some(&Lit("(")), list: Some(L { sep: Some(&Lit(",")), trail: Maybe }) }], suf: None },
], suf: Some(&Lit(",")) });
#[derive(Parse)]
#[nommy(suffix = OneOf<"(a">, parse_type = char, ignore = WhiteSpace)]
pub enum E15 {
    #[nommy(prefix = Option<Tag<"x">>, suffix = Tag<",">)] V0(#[nommy(prefix = Option<Tag<"x">>, suffix = Tag<";">)] Option<Tag<"x">>),
    #[nommy(prefix = Tag<",">)] V1,
    #[nommy(prefix = Option<Tag<"x">>, suffix = OneOf<"(a">, ignore = Tag<" ">)] V2 { #[nommy(inner_parser = OneOf<"ab">, seperated_by = Tag<",">, trailing = "yes", prefix = Option<Tag<"x">>)] f0: Vec<char> },
}
impl Log for E15 {
    fn log(self, o: &mut Vec<u32>) {
        match self {
            E15::V0(f0) => { o.push(M_VAR + 0); f0.log(o); }
            E15::V1 => { o.push(M_VAR + 1); }
            E15::V2 { f0 } => { o.push(M_VAR + 2); f0.log(o); }
        }
        o.push(M_END)
    }
}
static E15_G: G = Alt(&A { ign: &[&Ws], pre: None, vars: &[
    &S { ign: &[&Ws], pre: Some(&Opt(&Lit("x"))), fields: &[F { pre: Some(&Opt(&Lit("x"))), p: &Opt(&Lit("x")), suf: Some(&Lit(";")), list: None }], suf: Some(&Lit(",")) },
    &S { ign: &[&Ws], pre: Some(&Lit(",")), fields: &[], suf: None },
    &S { ign: &[&Lit(" "), &Ws], pre: Some(&Opt(&Lit("x"))), fields: &[F { pre: Some(&Opt(&Lit("x"))), p: &One("ab"), suf: None, list: Some(L { sep: Some(&Lit(",")), trail: Yes }) }], suf: Some(&One("(a")) },
], suf: Some(&One("(a")) });
#[derive(Parse)]
#[nommy(parse_type = char, suffix = OneOf<"(a">, prefix = Tag<",">, ignore = Tag<"x">)]
pub struct N00 { #[nommy(prefix = Option<Tag<"x">>)] f0: G17 }
impl Log for N00 { fn log(self, o: &mut Vec<u32>) { o.push(M_SEQ); self.f0.log(o); o.push(M_END) } }
static N00_G: G = Seq(&S { ign: &[&Lit("x")], pre: Some(&Lit(",")), fields: &[F { pre: Some(&Opt(&Lit("x"))), p: &G17_G, suf: None, list: None }], suf: Some(&One("(a")) });
#[derive(Parse)]
#[nommy(ignore = Vec1<Tag<"_">>, parse_type = char)]
pub struct N01 (#[nommy(prefix = Tag<"(">)] G01);
impl Log for N01 { fn log(self, o: &mut Vec<u32>) { o.push(M_SEQ); self.0.log(o); o.push(M_END) } }
static N01_G: G = Seq(&S { ign: &[&Many1(&Lit("_"))], pre: None, fields: &[F { pre: Some(&Lit("(")), p: &G01_G, suf: None, list: None }], suf: None });
#[derive(Parse)]
#[nommy(parse_type = char)]
pub struct N02 (Vec1<G09>, Option<G18>);
impl Log for N02 { fn log(self, o: &mut Vec<u32>) { o.push(M_SEQ); self.0.log(o); self.1.log(o); o.push(M_END) } }
static N02_G: G = Seq(&S { ign: &[], pre: None, fields: &[F { pre: None, p: &Many1(&G09_G), suf: None, list: None }, F { pre: None, p: &Opt(&G18_G), suf: None, list: None }], suf: None });
#[derive(Parse)]
#[nommy(ignore = Tag<" ">, suffix = OneOf<"(a">, prefix = Option<Tag<"x">>, parse_type = char)]
pub struct N03 (#[nommy(prefix = Tag<";">, suffix = OneOf<"(a">)] [G19; 2]);
impl Log for N03 { fn log(self, o: &mut Vec<u32>) { o.push(M_SEQ); self.0.log(o); o.push(M_END) } }
static N03_G: G = Seq(&S { ign: &[&Lit(" ")], pre: Some(&Opt(&Lit("x"))), fields: &[F { pre: Some(&Lit(";")), p: &Rep(2, &G19_G), suf: Some(&One("(a")), list: None }], suf: Some(&One("(a")) });
#[derive(Parse)]
#[nommy(ignore = Tag<" -">, suffix = Tag<";">, parse_type = char)]
pub struct N04 (#[nommy(prefix = Tag<",">, suffix = Tag<";">)] G07);
impl Log for N04 { fn log(self, o: &mut Vec<u32>) { o.push(M_SEQ); self.0.log(o); o.push(M_END) } }
static N04_G: G = Seq(&S { ign: &[&Lit(" -")], pre: None, fields: &[F { pre: Some(&Lit(",")), p: &G07_G, suf: Some(&Lit(";")), list: None }], suf: Some(&Lit(";")) });
#[derive(Parse)]
#[nommy(parse_type = char, ignore = Tag<" -">, prefix = Option<Tag<"x">>)]
pub struct N05 (#[nommy(suffix = Tag<";">)] Vec<G05>);
impl Log for N05 { fn log(self, o: &mut Vec<u32>) { o.push(M_SEQ); self.0.log(o); o.push(M_END) } }
static N05_G: G = Seq(&S { ign: &[&Lit(" -")], pre: Some(&Opt(&Lit("x"))), fields: &[F { pre: None, p: &Many(&G05_G), suf: Some(&Lit(";")), list: None }], suf: None });
#[derive(Parse)]
#[nommy(parse_type = char, ignore = Tag<" ">, suffix = Option<Tag<"x">>, prefix = Tag<";">)]
pub struct N06 (#[nommy(prefix = Option<Tag<"x">>, suffix = Option<Tag<"x">>)] Vec<G26>, #[nommy(prefix = Tag<";">, inner_parser = G19)] Vec<G19>);
impl Log for N06 { fn log(self, o: &mut Vec<u32>) { o.push(M_SEQ); self.0.log(o); self.1.log(o); o.push(M_END) } }
static N06_G: G = Seq(&S { ign: &[&Lit(" ")], pre: Some(&Lit(";")), fields: &[F { pre: Some(&Opt(&Lit("x"))), p: &Many(&G26_G), suf: Some(&Opt(&Lit("x"))), list: None }, F { pre: Some(&Lit(";")), p: &G19_G, suf: None, list: Some(L { sep: None, trail: No }) }], suf: Some(&Opt(&Lit("x"))) });
#[derive(Parse)]
#[nommy(parse_type = char, prefix = OneOf<"(a">, suffix = OneOf<"(a">)]
pub struct N07 (#[nommy(prefix = Tag<",">, suffix = OneOf<"(a">, inner_parser = G21, seperated_by = Tag<",">, trailing = "no")] Vec<G21>, #[nommy(prefix = Option<Tag<"x">>, inner_parser = G00, seperated_by = Tag<",">, trailing = "maybe")] Vec<G00>);
impl Log for N07 { fn log(self, o: &mut Vec<u32>) { o.push(M_SEQ); self.0.log(o); self.1.log(o); o.push(M_END) } }
static N07_G: G = Seq(&S { ign: &[], pre: Some(&One("(a")), fields: &[F { pre: Some(&Lit(",")), p: &G21_G, suf: Some(&One("(a")), list: Some(L { sep: Some(&Lit(",")), trail: No }) }, F { pre: Some(&Opt(&Lit("x"))), p: &G00_G, suf: None, list: Some(L { sep: Some(&Lit(",")), trail: Maybe }) }], suf: Some(&One("(a")) });
#[derive(Parse)]
#[nommy(prefix = Tag<";">, parse_type = char, suffix = Tag<"(">)]
pub struct N08 (#[nommy(prefix = Tag<";">)] Vec1<G12>);
impl Log for N08 { fn log(self, o: &mut Vec<u32>) { o.push(M_SEQ); self.0.log(o); o.push(M_END) } }
static N08_G: G = Seq(&S { ign: &[], pre: Some(&Lit(";")), fields: &[F { pre: Some(&Lit(";")), p: &Many1(&G12_G), suf: None, list: None }], suf: Some(&Lit("(")) });
#[derive(Parse)]
#[nommy(parse_type = char, suffix = Tag<";">, ignore = Tag<" -">)]
pub struct N09 (#[nommy(prefix = Option<Tag<"x">>, suffix = OneOf<"(a">)] Vec1<G08>, Box<G07>);
impl Log for N09 { fn log(self, o: &mut Vec<u32>) { o.push(M_SEQ); self.0.log(o); self.1.log(o); o.push(M_END) } }
static N09_G: G = Seq(&S { ign: &[&Lit(" -")], pre: None, fields: &[F { pre: Some(&Opt(&Lit("x"))), p: &Many1(&G08_G), suf: Some(&One("(a")), list: None }, F { pre: None, p: &G07_G, suf: None, list: None }], suf: Some(&Lit(";")) });
#[derive(Parse)]
#[nommy(suffix = Tag<",">, parse_type = char, ignore = Tag<"x">)]
pub struct N10 { #[nommy(suffix = OneOf<"(a">)] f0: G09, #[nommy(prefix = Option<Tag<"x">>)] f1: Vec<G17> }
impl Log for N10 { fn log(self, o: &mut Vec<u32>) { o.push(M_SEQ); self.f0.log(o); self.f1.log(o); o.push(M_END) } }
static N10_G: G = Seq(&S { ign: &[&Lit("x")], pre: None, fields: &[F { pre: None, p: &G09_G, suf: Some(&One("(a")), list: None }, F { pre: Some(&Opt(&Lit("x"))), p: &Many(&G17_G), suf: None, list: None }], suf: Some(&Lit(",")) });
#[derive(Parse)]
#[nommy(parse_type = char, prefix = Tag<",">, suffix = Tag<",">, ignore = WhiteSpace)]
pub struct N11 { #[nommy(suffix = Tag<"(">)] f0: Vec1<G15>, #[nommy(prefix = Tag<";">)] f1: [G02; 2] }
impl Log for N11 { fn log(self, o: &mut Vec<u32>) { o.push(M_SEQ); self.f0.log(o); self.f1.log(o); o.push(M_END) } }
static N11_G: G = Seq(&S { ign: &[&Ws], pre: Some(&Lit(",")), fields: &[F { pre: None, p: &Many1(&G15_G), suf: Some(&Lit("(")), list: None }, F { pre: Some(&Lit(";")), p: &Rep(2, &G02_G), suf: None, list: None }], suf: Some(&Lit(",")) });
#[derive(Parse)]
#[nommy(parse_type = char, suffix = Option<Tag<"x">>)]
pub struct N12 (#[nommy(suffix = Tag<"(">)] G11);
impl Log for N12 { fn log(self, o: &mut Vec<u32>) { o.push(M_SEQ); self.0.log(o); o.push(M_END) } }
static N12_G: G = Seq(&S { ign: &[], pre: None, fields: &[F { pre: None, p: &G11_G, suf: Some(&Lit("(")), list: None }], suf: Some(&Opt(&Lit("x"))) });
#[derive(Parse)]
#[nommy(ignore = Tag<" -">, prefix = Tag<"(">, parse_type = char, suffix = Option<Tag<"x">>)]
pub struct N13 { #[nommy(prefix = Tag<";">, suffix = Tag<";">, inner_parser = G03, seperated_by = Tag<",">, trailing = "yes")] f0: Vec<G03>, f1: G09 }
impl Log for N13 { fn log(self, o: &mut Vec<u32>) { o.push(M_SEQ); self.f0.log(o); self.f1.log(o); o.push(M_END) } }
static N13_G: G = Seq(&S { ign: &[&Lit(" -")], pre: Some(&Lit("(")), fields: &[F { pre: Some(&Lit(";")), p: &G03_G, suf: Some(&Lit(";")), list: Some(L { sep: Some(&Lit(",")), trail: Yes }) }, F { pre: None, p: &G09_G, suf: None, list: None }], suf: Some(&Opt(&Lit("x"))) });
#[derive(Parse)]
#[nommy(ignore = Tag<"x">, prefix = Option<Tag<"x">>, parse_type = char)]
pub struct N14 (Vec<G16>);
impl Log for N14 { fn log(self, o: &mut Vec<u32>) { o.push(M_SEQ); self.0.log(o); o.push(M_END) } }
static N14_G: G = Seq(&S { ign: &[&Lit("x")], pre: Some(&Opt(&Lit("x"))), fields: &[F { pre: None, p: &Many(&G16_G), suf: None, list: None }], suf: None });
#[derive(Parse)]
#[nommy(parse_type = char, suffix = Tag<";">, prefix = OneOf<"(a">)]
pub struct N15 (#[nommy(prefix = Tag<"(">, suffix = Option<Tag<"x">>)] Vec<G05>, #[nommy(prefix = Tag<"(">, suffix = Tag<"(">)] [G20; 2]);
impl Log for N15 { fn log(self, o: &mut Vec<u32>) { o.push(M_SEQ); self.0.log(o); self.1.log(o); o.push(M_END) } }
static N15_G: G = Seq(&S { ign: &[], pre: Some(&One("(a")), fields: &[F { pre: Some(&Lit("(")), p: &Many(&G05_G), suf: Some(&Opt(&Lit("x"))), list: None }, F { pre: Some(&Lit("(")), p: &Rep(2, &G20_G), suf: Some(&Lit("(")), list: None }], suf: Some(&Lit(";")) });
#[derive(Parse)]
#[nommy(ignore = Vec1<Tag<"_">>, suffix = OneOf<"(a">, parse_type = char, prefix = Tag<"(">)]
pub struct N16 (#[nommy(prefix = Tag<",">, suffix = Tag<"(">, inner_parser = G01, seperated_by = Tag<",">, trailing = "maybe")] Vec<G01>);
impl Log for N16 { fn log(self, o: &mut Vec<u32>) { o.push(M_SEQ); self.0.log(o); o.push(M_END) } }
static N16_G: G = Seq(&S { ign: &[&Many1(&Lit("_"))], pre: Some(&Lit("(")), fields: &[F { pre: Some(&Lit(",")), p: &G01_G, suf: Some(&Lit("(")), list: Some(L { sep: Some(&Lit(",")), trail: Maybe }) }], suf: Some(&One("(a")) });
#[derive(Parse)]
#[nommy(ignore = Tag<" ">, parse_type = char)]
pub struct N17 { #[nommy(prefix = Tag<";">)] f0: [G05; 2] }
impl Log for N17 { fn log(self, o: &mut Vec<u32>) { o.push(M_SEQ); self.f0.log(o); o.push(M_END) } }
static N17_G: G = Seq(&S { ign: &[&Lit(" ")], pre: None, fields: &[F { pre: Some(&Lit(";")), p: &Rep(2, &G05_G), suf: None, list: None }], suf: None });
#[derive(Parse)]
#[nommy(prefix = Tag<";">, suffix = OneOf<"(a">, parse_type = char, ignore = Tag<" -">)]
pub struct N18 (#[nommy(prefix = Tag<"(">, suffix = Tag<";">)] Vec1<E07>);
impl Log for N18 { fn log(self, o: &mut Vec<u32>) { o.push(M_SEQ); self.0.log(o); o.push(M_END) } }
static N18_G: G = Seq(&S { ign: &[&Lit(" -")], pre: Some(&Lit(";")), fields: &[F { pre: Some(&Lit("(")), p: &Many1(&E07_G), suf: Some(&Lit(";")), list: None }], suf: Some(&One("(a")) });
#[derive(Parse)]
#[nommy(parse_type = char, prefix = Tag<";">, suffix = OneOf<"(a">)]
pub struct N19 { f0: Box<E05>, #[nommy(prefix = Tag<";">)] f1: Box<E01> }
impl Log for N19 { fn log(self, o: &mut Vec<u32>) { o.push(M_SEQ); self.f0.log(o); self.f1.log(o); o.push(M_END) } }
static N19_G: G = Seq(&S { ign: &[], pre: Some(&Lit(";")), fields: &[F { pre: None, p: &E05_G, suf: None, list: None }, F { pre: Some(&Lit(";")), p: &E01_G, suf: None, list: None }], suf: Some(&One("(a")) });
#[derive(Parse)]
#[nommy(parse_type = char, ignore = WhiteSpace)]
pub struct N20 (#[nommy(prefix = OneOf<"(a">, suffix = Tag<"(">)] Box<N03>);
impl Log for N20 { fn log(self, o: &mut Vec<u32>) { o.push(M_SEQ); self.0.log(o); o.push(M_END) } }
static N20_G: G = Seq(&S { ign: &[&Ws], pre: None, fields: &[F { pre: Some(&One("(a")), p: &N03_G, suf: Some(&Lit("(")), list: None }], suf: None });
#[derive(Parse)]
#[nommy(parse_type = char, prefix = Tag<"(">)]
pub struct N21 (#[nommy(prefix = Tag<",">, suffix = OneOf<"(a">)] Vec<N18>, #[nommy(prefix = Option<Tag<"x">>, suffix = Tag<";">)] N04);
impl Log for N21 { fn log(self, o: &mut Vec<u32>) { o.push(M_SEQ); self.0.log(o); self.1.log(o); o.push(M_END) } }
static N21_G: G = Seq(&S { ign: &[], pre: Some(&Lit("(")), fields: &[F { pre: Some(&Lit(",")), p: &Many(&N18_G), suf: Some(&One("(a")), list: None }, F { pre: Some(&Opt(&Lit("x"))), p: &N04_G, suf: Some(&Lit(";")), list: None }], suf: None });
#[derive(Parse)]
#[nommy(parse_type = char, prefix = Option<Tag<"x">>, suffix = Option<Tag<"x">>, ignore = Tag<"x">)]
pub struct N22 (N05);
impl Log for N22 { fn log(self, o: &mut Vec<u32>) { o.push(M_SEQ); self.0.log(o); o.push(M_END) } }
static N22_G: G = Seq(&S { ign: &[&Lit("x")], pre: Some(&Opt(&Lit("x"))), fields: &[F { pre: None, p: &N05_G, suf: None, list: None }], suf: Some(&Opt(&Lit("x"))) });
#[derive(Parse)]
#[nommy(parse_type = char, ignore = Tag<" ">, prefix = Tag<"(">, suffix = OneOf<"(a">)]
pub struct N23 (#[nommy(suffix = Tag<"(">)] N15, Option<N06>);
impl Log for N23 { fn log(self, o: &mut Vec<u32>) { o.push(M_SEQ); self.0.log(o); self.1.log(o); o.push(M_END) } }
static N23_G: G = Seq(&S { ign: &[&Lit(" ")], pre: Some(&Lit("(")), fields: &[F { pre: None, p: &N15_G, suf: Some(&Lit("(")), list: None }, F { pre: None, p: &Opt(&N06_G), suf: None, list: None }], suf: Some(&One("(a")) });
#[derive(Parse)]
#[nommy(parse_type = char, prefix = Box<Tag<",">>, ignore = Tag<" ">, ignore = Tag<" ">)]
pub struct C00 (#[nommy(prefix = Tag<"aa">, suffix = Box<Tag<",">>)] Tag<"aa">, #[nommy(suffix = Tag<"aa">)] Box<Tag<",">>);
impl Log for C00 { fn log(self, o: &mut Vec<u32>) { o.push(M_SEQ); self.0.log(o); self.1.log(o); o.push(M_END) } }
static C00_G: G = Seq(&S { ign: &[&Lit(" "), &Lit(" ")], pre: Some(&Lit(",")), fields: &[F { pre: Some(&Lit("aa")), p: &Lit("aa"), suf: Some(&Lit(",")), list: None }, F { pre: None, p: &Lit(","), suf: Some(&Lit("aa")), list: None }], suf: None });
#[derive(Parse)]
#[nommy(ignore = Box<Tag<",">>, prefix = Option<Tag<"a">>)]
pub struct C01 { f0: Option<Tag<"a">> }
impl Log for C01 { fn log(self, o: &mut Vec<u32>) { o.push(M_SEQ); self.f0.log(o); o.push(M_END) } }
static C01_G: G = Seq(&S { ign: &[&Lit(",")], pre: Some(&Opt(&Lit("a"))), fields: &[F { pre: None, p: &Opt(&Lit("a")), suf: None, list: None }], suf: None });
#[derive(Parse)]
#[nommy(prefix = Option<Tag<"a">>, ignore = Tag<"aa">, parse_type = char, suffix = Tag<"aa">)]
pub struct C02 { #[nommy(prefix = Tag<"aa">, suffix = Tag<"aa">)] f0: Option<Tag<"a">> }
impl Log for C02 { fn log(self, o: &mut Vec<u32>) { o.push(M_SEQ); self.f0.log(o); o.push(M_END) } }
static C02_G: G = Seq(&S { ign: &[&Lit("aa")], pre: Some(&Opt(&Lit("a"))), fields: &[F { pre: Some(&Lit("aa")), p: &Opt(&Lit("a")), suf: Some(&Lit("aa")), list: None }], suf: Some(&Lit("aa")) });
#[derive(Parse)]
#[nommy(suffix = Tag<",">)]
pub struct C03 { #[nommy(prefix = Tag<",">)] f0: Tag<","> }
impl Log for C03 { fn log(self, o: &mut Vec<u32>) { o.push(M_SEQ); self.f0.log(o); o.push(M_END) } }
static C03_G: G = Seq(&S { ign: &[], pre: None, fields: &[F { pre: Some(&Lit(",")), p: &Lit(","), suf: None, list: None }], suf: Some(&Lit(",")) });
#[derive(Parse)]
#[nommy(suffix = Tag<",">, ignore = Tag<" ">, prefix = Tag<",">, parse_type = char, ignore = Tag<" ">)]
pub struct C04 { #[nommy(prefix = Tag<",">, suffix = Tag<",">)] f0: Tag<","> }
impl Log for C04 { fn log(self, o: &mut Vec<u32>) { o.push(M_SEQ); self.f0.log(o); o.push(M_END) } }
static C04_G: G = Seq(&S { ign: &[&Lit(" "), &Lit(" ")], pre: Some(&Lit(",")), fields: &[F { pre: Some(&Lit(",")), p: &Lit(","), suf: Some(&Lit(",")), list: None }], suf: Some(&Lit(",")) });
#[derive(Parse)]
#[nommy(parse_type = char, suffix = Tag<",">, prefix = Tag<",">)]
pub struct C05 { #[nommy(prefix = Tag<",">)] f0: Tag<",">, #[nommy(prefix = Tag<",">, suffix = Tag<",">)] f1: Tag<","> }
impl Log for C05 { fn log(self, o: &mut Vec<u32>) { o.push(M_SEQ); self.f0.log(o); self.f1.log(o); o.push(M_END) } }
static C05_G: G = Seq(&S { ign: &[], pre: Some(&Lit(",")), fields: &[F { pre: Some(&Lit(",")), p: &Lit(","), suf: None, list: None }, F { pre: Some(&Lit(",")), p: &Lit(","), suf: Some(&Lit(",")), list: None }], suf: Some(&Lit(",")) });
#[derive(Parse)]
#[nommy(prefix = Tag<"aa">, parse_type = char, suffix = Box<Tag<",">>)]
pub struct C06 { f0: Box<Tag<",">> }
impl Log for C06 { fn log(self, o: &mut Vec<u32>) { o.push(M_SEQ); self.f0.log(o); o.push(M_END) } }
static C06_G: G = Seq(&S { ign: &[], pre: Some(&Lit("aa")), fields: &[F { pre: None, p: &Lit(","), suf: None, list: None }], suf: Some(&Lit(",")) });
#[derive(Parse)]
pub struct C07 (#[nommy(prefix = Tag<"a">, suffix = Box<Tag<",">>)] Box<Tag<",">>, #[nommy(prefix = Tag<"a">, suffix = Box<Tag<",">>)] Tag<"a">);
impl Log for C07 { fn log(self, o: &mut Vec<u32>) { o.push(M_SEQ); self.0.log(o); self.1.log(o); o.push(M_END) } }
static C07_G: G = Seq(&S { ign: &[], pre: None, fields: &[F { pre: Some(&Lit("a")), p: &Lit(","), suf: Some(&Lit(",")), list: None }, F { pre: Some(&Lit("a")), p: &Lit("a"), suf: Some(&Lit(",")), list: None }], suf: None });
#[derive(Parse)]
#[nommy(parse_type = char, prefix = Box<Tag<",">>)]
pub struct C08 (Box<Tag<",">>, #[nommy(prefix = Box<Tag<",">>)] Box<Tag<",">>);
impl Log for C08 { fn log(self, o: &mut Vec<u32>) { o.push(M_SEQ); self.0.log(o); self.1.log(o); o.push(M_END) } }
static C08_G: G = Seq(&S { ign: &[], pre: Some(&Lit(",")), fields: &[F { pre: None, p: &Lit(","), suf: None, list: None }, F { pre: Some(&Lit(",")), p: &Lit(","), suf: None, list: None }], suf: None });
#[derive(Parse)]
#[nommy(parse_type = char, suffix = Tag<"aa">, prefix = Tag<"aa">)]
pub struct C09 (#[nommy(prefix = Tag<"aa">)] Tag<"aa">, Tag<"aa">, #[nommy(suffix = Tag<"aa">)] Tag<"aa">);
impl Log for C09 { fn log(self, o: &mut Vec<u32>) { o.push(M_SEQ); self.0.log(o); self.1.log(o); self.2.log(o); o.push(M_END) } }
static C09_G: G = Seq(&S { ign: &[], pre: Some(&Lit("aa")), fields: &[F { pre: Some(&Lit("aa")), p: &Lit("aa"), suf: None, list: None }, F { pre: None, p: &Lit("aa"), suf: None, list: None }, F { pre: None, p: &Lit("aa"), suf: Some(&Lit("aa")), list: None }], suf: Some(&Lit("aa")) });
#[derive(Parse)]
#[nommy(suffix = Option<Tag<"a">>, prefix = Option<Tag<"a">>)]
pub struct C10 { #[nommy(prefix = Option<Tag<"a">>)] f0: Option<Tag<"a">>, #[nommy(prefix = Option<Tag<"a">>, suffix = Box<Tag<",">>)] f1: Box<Tag<",">> }
impl Log for C10 { fn log(self, o: &mut Vec<u32>) { o.push(M_SEQ); self.f0.log(o); self.f1.log(o); o.push(M_END) } }
static C10_G: G = Seq(&S { ign: &[], pre: Some(&Opt(&Lit("a"))), fields: &[F { pre: Some(&Opt(&Lit("a"))), p: &Opt(&Lit("a")), suf: None, list: None }, F { pre: Some(&Opt(&Lit("a"))), p: &Lit(","), suf: Some(&Lit(",")), list: None }], suf: Some(&Opt(&Lit("a"))) });
#[derive(Parse)]
#[nommy(parse_type = char, ignore = Tag<" ">)]
pub struct C11 (#[nommy(suffix = Option<Tag<"a">>)] Option<Tag<"a">>);
impl Log for C11 { fn log(self, o: &mut Vec<u32>) { o.push(M_SEQ); self.0.log(o); o.push(M_END) } }
static C11_G: G = Seq(&S { ign: &[&Lit(" ")], pre: None, fields: &[F { pre: None, p: &Opt(&Lit("a")), suf: Some(&Opt(&Lit("a"))), list: None }], suf: None });
#[derive(Parse)]
pub struct C12 { #[nommy(suffix = Option<Tag<"a">>)] f0: Option<Tag<"a">>, #[nommy(prefix = Option<Tag<"a">>)] f1: Option<Tag<"a">> }
impl Log for C12 { fn log(self, o: &mut Vec<u32>) { o.push(M_SEQ); self.f0.log(o); self.f1.log(o); o.push(M_END) } }
static C12_G: G = Seq(&S { ign: &[], pre: None, fields: &[F { pre: None, p: &Opt(&Lit("a")), suf: Some(&Opt(&Lit("a"))), list: None }, F { pre: Some(&Opt(&Lit("a"))), p: &Opt(&Lit("a")), suf: None, list: None }], suf: None });
#[derive(Parse)]
#[nommy(ignore = Tag<" ">, prefix = Tag<"a">, ignore = Tag<" ">)]
pub struct C13 (#[nommy(prefix = Tag<"aa">)] Tag<"a">);
impl Log for C13 { fn log(self, o: &mut Vec<u32>) { o.push(M_SEQ); self.0.log(o); o.push(M_END) } }
static C13_G: G = Seq(&S { ign: &[&Lit(" "), &Lit(" ")], pre: Some(&Lit("a")), fields: &[F { pre: Some(&Lit("aa")), p: &Lit("a"), suf: None, list: None }], suf: None });
#[derive(Parse)]
#[nommy(parse_type = char, prefix = OneOf<"a,">, ignore = Tag<" ">, ignore = Tag<" ">)]
pub struct C14 { #[nommy(prefix = OneOf<"a,">)] f0: Option<Tag<"a">> }
impl Log for C14 { fn log(self, o: &mut Vec<u32>) { o.push(M_SEQ); self.f0.log(o); o.push(M_END) } }
static C14_G: G = Seq(&S { ign: &[&Lit(" "), &Lit(" ")], pre: Some(&One("a,")), fields: &[F { pre: Some(&One("a,")), p: &Opt(&Lit("a")), suf: None, list: None }], suf: None });
#[derive(Parse)]
#[nommy(prefix = Box<Tag<",">>, suffix = Box<Tag<",">>, ignore = Tag<" ">, parse_type = char)]
pub struct C15 (#[nommy(prefix = Box<Tag<",">>)] Box<Tag<",">>, #[nommy(prefix = Tag<"aa">, suffix = Tag<"aa">)] Tag<"aa">);
impl Log for C15 { fn log(self, o: &mut Vec<u32>) { o.push(M_SEQ); self.0.log(o); self.1.log(o); o.push(M_END) } }
static C15_G: G = Seq(&S { ign: &[&Lit(" ")], pre: Some(&Lit(",")), fields: &[F { pre: Some(&Lit(",")), p: &Lit(","), suf: None, list: None }, F { pre: Some(&Lit("aa")), p: &Lit("aa"), suf: Some(&Lit("aa")), list: None }], suf: Some(&Lit(",")) });
#[derive(Parse)]
#[nommy(prefix = Tag<",">)]
pub struct C16 (OneOf<"a,">, #[nommy(prefix = OneOf<"a,">)] Tag<",">);
impl Log for C16 { fn log(self, o: &mut Vec<u32>) { o.push(M_SEQ); self.0.log(o); self.1.log(o); o.push(M_END) } }
static C16_G: G = Seq(&S { ign: &[], pre: Some(&Lit(",")), fields: &[F { pre: None, p: &One("a,"), suf: None, list: None }, F { pre: Some(&One("a,")), p: &Lit(","), suf: None, list: None }], suf: None });
#[derive(Parse)]
#[nommy(ignore = Tag<" ">, suffix = Tag<"a">, ignore = Tag<" ">)]
pub struct C17 { #[nommy(prefix = Tag<"a">, suffix = Tag<"a">)] f0: Tag<"a">, f1: Tag<"a">, #[nommy(suffix = Tag<"a">)] f2: Tag<"a"> }
impl Log for C17 { fn log(self, o: &mut Vec<u32>) { o.push(M_SEQ); self.f0.log(o); self.f1.log(o); self.f2.log(o); o.push(M_END) } }
static C17_G: G = Seq(&S { ign: &[&Lit(" "), &Lit(" ")], pre: None, fields: &[F { pre: Some(&Lit("a")), p: &Lit("a"), suf: Some(&Lit("a")), list: None }, F { pre: None, p: &Lit("a"), suf: None, list: None }, F { pre: None, p: &Lit("a"), suf: Some(&Lit("a")), list: None }], suf: Some(&Lit("a")) });
#[derive(Parse)]
pub struct C18 { f0: Box<Tag<",">>, #[nommy(prefix = Tag<"aa">)] f1: Box<Tag<",">> }
impl Log for C18 { fn log(self, o: &mut Vec<u32>) { o.push(M_SEQ); self.f0.log(o); self.f1.log(o); o.push(M_END) } }
static C18_G: G = Seq(&S { ign: &[], pre: None, fields: &[F { pre: None, p: &Lit(","), suf: None, list: None }, F { pre: Some(&Lit("aa")), p: &Lit(","), suf: None, list: None }], suf: None });
#[derive(Parse)]
#[nommy(suffix = Vec1<Tag<"a">>, parse_type = char, prefix = OneOf<"a,">)]
pub struct C19 { #[nommy(prefix = OneOf<"a,">, suffix = Vec1<Tag<"a">>)] f0: Vec1<Tag<"a">>, f1: Vec1<Tag<"a">> }
impl Log for C19 { fn log(self, o: &mut Vec<u32>) { o.push(M_SEQ); self.f0.log(o); self.f1.log(o); o.push(M_END) } }
static C19_G: G = Seq(&S { ign: &[], pre: Some(&One("a,")), fields: &[F { pre: Some(&One("a,")), p: &Many1(&Lit("a")), suf: Some(&Many1(&Lit("a"))), list: None }, F { pre: None, p: &Many1(&Lit("a")), suf: None, list: None }], suf: Some(&Many1(&Lit("a"))) });
#[derive(Parse)]
#[nommy(ignore = Tag<" ">, ignore = Tag<" ">, prefix = Tag<"a">)]
pub struct C20 { #[nommy(prefix = Tag<",">, suffix = Tag<",">)] f0: Tag<"a"> }
impl Log for C20 { fn log(self, o: &mut Vec<u32>) { o.push(M_SEQ); self.f0.log(o); o.push(M_END) } }
static C20_G: G = Seq(&S { ign: &[&Lit(" "), &Lit(" ")], pre: Some(&Lit("a")), fields: &[F { pre: Some(&Lit(",")), p: &Lit("a"), suf: Some(&Lit(",")), list: None }], suf: None });
#[derive(Parse)]
#[nommy(prefix = OneOf<"a,">, suffix = OneOf<"a,">)]
pub struct C21 (#[nommy(suffix = OneOf<"a,">)] Option<Tag<"a">>);
impl Log for C21 { fn log(self, o: &mut Vec<u32>) { o.push(M_SEQ); self.0.log(o); o.push(M_END) } }
static C21_G: G = Seq(&S { ign: &[], pre: Some(&One("a,")), fields: &[F { pre: None, p: &Opt(&Lit("a")), suf: Some(&One("a,")), list: None }], suf: Some(&One("a,")) });
#[derive(Parse)]
#[nommy(prefix = Tag<"a">, parse_type = char, suffix = Vec1<Tag<"a">>, ignore = Tag<"a">)]
pub struct C22 { #[nommy(prefix = Tag<"a">)] f0: Tag<"a">, #[nommy(suffix = Tag<"a">)] f1: Vec1<Tag<"a">>, #[nommy(suffix = Vec1<Tag<"a">>)] f2: Vec1<Tag<"a">> }
impl Log for C22 { fn log(self, o: &mut Vec<u32>) { o.push(M_SEQ); self.f0.log(o); self.f1.log(o); self.f2.log(o); o.push(M_END) } }
static C22_G: G = Seq(&S { ign: &[&Lit("a")], pre: Some(&Lit("a")), fields: &[F { pre: Some(&Lit("a")), p: &Lit("a"), suf: None, list: None }, F { pre: None, p: &Many1(&Lit("a")), suf: Some(&Lit("a")), list: None }, F { pre: None, p: &Many1(&Lit("a")), suf: Some(&Many1(&Lit("a"))), list: None }], suf: Some(&Many1(&Lit("a"))) });
#[derive(Parse)]
#[nommy(ignore = Tag<" ">, ignore = Tag<" ">, prefix = Tag<"aa">)]
pub struct C23 (#[nommy(prefix = Vec1<Tag<"a">>, suffix = Vec1<Tag<"a">>)] Tag<"aa">, #[nommy(prefix = Tag<"aa">, suffix = Vec1<Tag<"a">>)] Tag<"aa">);
impl Log for C23 { fn log(self, o: &mut Vec<u32>) { o.push(M_SEQ); self.0.log(o); self.1.log(o); o.push(M_END) } }
static C23_G: G = Seq(&S { ign: &[&Lit(" "), &Lit(" ")], pre: Some(&Lit("aa")), fields: &[F { pre: Some(&Many1(&Lit("a"))), p: &Lit("aa"), suf: Some(&Many1(&Lit("a"))), list: None }, F { pre: Some(&Lit("aa")), p: &Lit("aa"), suf: Some(&Many1(&Lit("a"))), list: None }], suf: None });
#[derive(Parse)]
#[nommy(suffix = Tag<"aa">, prefix = Tag<"aa">, ignore = Tag<" ">)]
pub enum C24 {
    #[nommy(suffix = Box<Tag<",">>)] V0(#[nommy(prefix = Box<Tag<",">>, suffix = Tag<"aa">)] Tag<"aa">, #[nommy(prefix = Tag<"aa">, suffix = Box<Tag<",">>)] Box<Tag<",">>),
    #[nommy(suffix = Box<Tag<",">>, ignore = Box<Tag<",">>)] V1(#[nommy(prefix = Box<Tag<",">>)] Box<Tag<",">>),
    #[nommy(ignore = Tag<"aa">, prefix = Box<Tag<",">>)] V2(#[nommy(prefix = Tag<"aa">)] Box<Tag<",">>),
    #[nommy(ignore = Box<Tag<",">>, suffix = Tag<"aa">, prefix = Tag<"aa">)] V3(#[nommy(suffix = Tag<"aa">)] Tag<"aa">),
}
impl Log for C24 {
    fn log(self, o: &mut Vec<u32>) {
        match self {
            C24::V0(f0, f1) => { o.push(M_VAR + 0); f0.log(o); f1.log(o); }
            C24::V1(f0) => { o.push(M_VAR + 1); f0.log(o); }
            C24::V2(f0) => { o.push(M_VAR + 2); f0.log(o); }
            C24::V3(f0) => { o.push(M_VAR + 3); f0.log(o); }
        }
        o.push(M_END)
    }
}
static C24_G: G = Alt(&A { ign: &[&Lit(" ")], pre: Some(&Lit("aa")), vars: &[
    &S { ign: &[&Lit(" ")], pre: None, fields: &[F { pre: Some(&Lit(",")), p: &Lit("aa"), suf: Some(&Lit("aa")), list: None }, F { pre: Some(&Lit("aa")), p: &Lit(","), suf: Some(&Lit(",")), list: None }], suf: Some(&Lit(",")) },
    &S { ign: &[&Lit(","), &Lit(" ")], pre: None, fields: &[F { pre: Some(&Lit(",")), p: &Lit(","), suf: None, list: None }], suf: Some(&Lit(",")) },
    &S { ign: &[&Lit("aa"), &Lit(" ")], pre: Some(&Lit(",")), fields: &[F { pre: Some(&Lit("aa")), p: &Lit(","), suf: None, list: None }], suf: None },
    &S { ign: &[&Lit(","), &Lit(" ")], pre: Some(&Lit("aa")), fields: &[F { pre: None, p: &Lit("aa"), suf: Some(&Lit("aa")), list: None }], suf: Some(&Lit("aa")) },
], suf: Some(&Lit("aa")) });
#[derive(Parse)]
#[nommy(parse_type = char, prefix = Tag<"a">)]
pub enum C25 {
    V0(#[nommy(prefix = Tag<"aa">, suffix = Tag<"a">)] Tag<"a">, #[nommy(suffix = Tag<"aa">)] Tag<"a">),
    #[nommy(suffix = Tag<"a">, prefix = Tag<"a">)] V1(#[nommy(prefix = Tag<"aa">, suffix = Tag<"aa">)] Tag<"aa">, #[nommy(prefix = Tag<"a">)] Tag<"a">),
}
impl Log for C25 {
    fn log(self, o: &mut Vec<u32>) {
        match self {
            C25::V0(f0, f1) => { o.push(M_VAR + 0); f0.log(o); f1.log(o); }
            C25::V1(f0, f1) => { o.push(M_VAR + 1); f0.log(o); f1.log(o); }
        }
        o.push(M_END)
    }
}
static C25_G: G = Alt(&A { ign: &[], pre: Some(&Lit("a")), vars: &[
    &S { ign: &[], pre: None, fields: &[F { pre: Some(&Lit("aa")), p: &Lit("a"), suf: Some(&Lit("a")), list: None }, F { pre: None, p: &Lit("a"), suf: Some(&Lit("aa")), list: None }], suf: None },
    &S { ign: &[], pre: Some(&Lit("a")), fields: &[F { pre: Some(&Lit("aa")), p: &Lit("aa"), suf: Some(&Lit("aa")), list: None }, F { pre: Some(&Lit("a")), p: &Lit("a"), suf: None, list: None }], suf: Some(&Lit("a")) },
], suf: None });
#[derive(Parse)]
#[nommy(parse_type = char, ignore = Tag<",">, suffix = Tag<",">)]
pub enum C26 {
    #[nommy(suffix = Vec1<Tag<"a">>, prefix = Vec1<Tag<"a">>)] V0(#[nommy(prefix = Tag<",">, suffix = Tag<",">)] Tag<",">),
    V1(Tag<",">),
    #[nommy(prefix = Vec1<Tag<"a">>)] V2(#[nommy(prefix = Tag<",">, suffix = Vec1<Tag<"a">>)] Vec1<Tag<"a">>),
    #[nommy(suffix = Vec1<Tag<"a">>, prefix = Vec1<Tag<"a">>)] V3(Tag<",">, #[nommy(prefix = Tag<",">)] Vec1<Tag<"a">>),
}
impl Log for C26 {
    fn log(self, o: &mut Vec<u32>) {
        match self {
            C26::V0(f0) => { o.push(M_VAR + 0); f0.log(o); }
            C26::V1(f0) => { o.push(M_VAR + 1); f0.log(o); }
            C26::V2(f0) => { o.push(M_VAR + 2); f0.log(o); }
            C26::V3(f0, f1) => { o.push(M_VAR + 3); f0.log(o); f1.log(o); }
        }
        o.push(M_END)
    }
}
static C26_G: G = Alt(&A { ign: &[&Lit(",")], pre: None, vars: &[
    &S { ign: &[&Lit(",")], pre: Some(&Many1(&Lit("a"))), fields: &[F { pre: Some(&Lit(",")), p: &Lit(","), suf: Some(&Lit(",")), list: None }], suf: Some(&Many1(&Lit("a"))) },
    &S { ign: &[&Lit(",")], pre: None, fields: &[F { pre: None, p: &Lit(","), suf: None, list: None }], suf: None },
    &S { ign: &[&Lit(",")], pre: Some(&Many1(&Lit("a"))), fields: &[F { pre: Some(&Lit(",")), p: &Many1(&Lit("a")), suf: Some(&Many1(&Lit("a"))), list: None }], suf: None },
    &S { ign: &[&Lit(",")], pre: Some(&Many1(&Lit("a"))), fields: &[F { pre: None, p: &Lit(","), suf: None, list: None }, F { pre: Some(&Lit(",")), p: &Many1(&Lit("a")), suf: None, list: None }], suf: Some(&Many1(&Lit("a"))) },
], suf: Some(&Lit(",")) });
#[derive(Parse)]
pub enum C27 {
    #[nommy(ignore = Tag<",">)] V0(Tag<",">, #[nommy(prefix = Tag<",">, suffix = Tag<",">)] Tag<",">),
    #[nommy(suffix = Tag<",">, prefix = Tag<",">, ignore = Tag<",">)] V1(Tag<",">),
    #[nommy(prefix = Tag<",">, suffix = Tag<",">)] V2(#[nommy(prefix = Tag<",">)] Tag<",">),
}
impl Log for C27 {
    fn log(self, o: &mut Vec<u32>) {
        match self {
            C27::V0(f0, f1) => { o.push(M_VAR + 0); f0.log(o); f1.log(o); }
            C27::V1(f0) => { o.push(M_VAR + 1); f0.log(o); }
            C27::V2(f0) => { o.push(M_VAR + 2); f0.log(o); }
        }
        o.push(M_END)
    }
}
static C27_G: G = Alt(&A { ign: &[], pre: None, vars: &[
    &S { ign: &[&Lit(",")], pre: None, fields: &[F { pre: None, p: &Lit(","), suf: None, list: None }, F { pre: Some(&Lit(",")), p: &Lit(","), suf: Some(&Lit(",")), list: None }], suf: None },
    &S { ign: &[&Lit(",")], pre: Some(&Lit(",")), fields: &[F { pre: None, p: &Lit(","), suf: None, list: None }], suf: Some(&Lit(",")) },
    &S { ign: &[], pre: Some(&Lit(",")), fields: &[F { pre: Some(&Lit(",")), p: &Lit(","), suf: None, list: None }], suf: Some(&Lit(",")) },
], suf: None });
#[derive(Parse)]
#[nommy(ignore = Vec1<Tag<"a">>, prefix = Box<Tag<",">>)]
pub enum C28 {
    #[nommy(prefix = Box<Tag<",">>)] V0(#[nommy(prefix = Vec1<Tag<"a">>)] Box<Tag<",">>, #[nommy(prefix = Box<Tag<",">>, suffix = Vec1<Tag<"a">>)] Vec1<Tag<"a">>),
    #[nommy(suffix = Vec1<Tag<"a">>)] V1(#[nommy(suffix = Box<Tag<",">>)] Box<Tag<",">>),
    V2(#[nommy(suffix = Box<Tag<",">>)] Box<Tag<",">>),
    #[nommy(suffix = Vec1<Tag<"a">>)] V3(#[nommy(prefix = Box<Tag<",">>)] Box<Tag<",">>),
}
impl Log for C28 {
    fn log(self, o: &mut Vec<u32>) {
        match self {
            C28::V0(f0, f1) => { o.push(M_VAR + 0); f0.log(o); f1.log(o); }
            C28::V1(f0) => { o.push(M_VAR + 1); f0.log(o); }
            C28::V2(f0) => { o.push(M_VAR + 2); f0.log(o); }
            C28::V3(f0) => { o.push(M_VAR + 3); f0.log(o); }
        }
        o.push(M_END)
    }
}
static C28_G: G = Alt(&A { ign: &[&Many1(&Lit("a"))], pre: Some(&Lit(",")), vars: &[
    &S { ign: &[&Many1(&Lit("a"))], pre: Some(&Lit(",")), fields: &[F { pre: Some(&Many1(&Lit("a"))), p: &Lit(","), suf: None, list: None }, F { pre: Some(&Lit(",")), p: &Many1(&Lit("a")), suf: Some(&Many1(&Lit("a"))), list: None }], suf: None },
    &S { ign: &[&Many1(&Lit("a"))], pre: None, fields: &[F { pre: None, p: &Lit(","), suf: Some(&Lit(",")), list: None }], suf: Some(&Many1(&Lit("a"))) },
    &S { ign: &[&Many1(&Lit("a"))], pre: None, fields: &[F { pre: None, p: &Lit(","), suf: Some(&Lit(",")), list: None }], suf: None },
    &S { ign: &[&Many1(&Lit("a"))], pre: None, fields: &[F { pre: Some(&Lit(",")), p: &Lit(","), suf: None, list: None }], suf: Some(&Many1(&Lit("a"))) },
], suf: None });
#[derive(Parse)]
#[nommy(prefix = Tag<"a">, parse_type = char, suffix = Box<Tag<",">>)]
pub enum C29 {
    #[nommy(suffix = Box<Tag<",">>, prefix = Box<Tag<",">>)] V0(#[nommy(prefix = Tag<"a">, suffix = Tag<"a">)] Tag<"a">),
    #[nommy(suffix = Tag<"a">, prefix = Tag<"a">)] V1(#[nommy(prefix = Tag<"a">, suffix = Tag<"a">)] Box<Tag<",">>, #[nommy(prefix = Box<Tag<",">>, suffix = Box<Tag<",">>)] Tag<"a">),
    #[nommy(ignore = Tag<"a">, suffix = Box<Tag<",">>, prefix = Tag<"a">)] V2(#[nommy(suffix = Box<Tag<",">>)] Box<Tag<",">>),
}
impl Log for C29 {
    fn log(self, o: &mut Vec<u32>) {
        match self {
            C29::V0(f0) => { o.push(M_VAR + 0); f0.log(o); }
            C29::V1(f0, f1) => { o.push(M_VAR + 1); f0.log(o); f1.log(o); }
            C29::V2(f0) => { o.push(M_VAR + 2); f0.log(o); }
        }
        o.push(M_END)
    }
}
static C29_G: G = Alt(&A { ign: &[], pre: Some(&Lit("a")), vars: &[
    &S { ign: &[], pre: Some(&Lit(",")), fields: &[F { pre: Some(&Lit("a")), p: &Lit("a"), suf: Some(&Lit("a")), list: None }], suf: Some(&Lit(",")) },
    &S { ign: &[], pre: Some(&Lit("a")), fields: &[F { pre: Some(&Lit("a")), p: &Lit(","), suf: Some(&Lit("a")), list: None }, F { pre: Some(&Lit(",")), p: &Lit("a"), suf: Some(&Lit(",")), list: None }], suf: Some(&Lit("a")) },
    &S { ign: &[&Lit("a")], pre: Some(&Lit("a")), fields: &[F { pre: None, p: &Lit(","), suf: Some(&Lit(",")), list: None }], suf: Some(&Lit(",")) },
], suf: Some(&Lit(",")) });
#[derive(Parse)]
#[nommy(suffix = Option<Tag<"a">>, ignore = OneOf<"a,">, prefix = OneOf<"a,">, parse_type = char)]
pub enum C30 {
    V0(#[nommy(prefix = Option<Tag<"a">>)] OneOf<"a,">, #[nommy(prefix = Option<Tag<"a">>, suffix = Option<Tag<"a">>)] Option<Tag<"a">>),
    #[nommy(suffix = Option<Tag<"a">>, prefix = Option<Tag<"a">>)] V1(Option<Tag<"a">>),
    #[nommy(ignore = OneOf<"a,">, prefix = Option<Tag<"a">>, suffix = OneOf<"a,">)] V2(#[nommy(prefix = OneOf<"a,">)] OneOf<"a,">),
    #[nommy(suffix = OneOf<"a,">)] V3(#[nommy(suffix = OneOf<"a,">)] OneOf<"a,">, #[nommy(prefix = Option<Tag<"a">>)] Option<Tag<"a">>),
}
impl Log for C30 {
    fn log(self, o: &mut Vec<u32>) {
        match self {
            C30::V0(f0, f1) => { o.push(M_VAR + 0); f0.log(o); f1.log(o); }
            C30::V1(f0) => { o.push(M_VAR + 1); f0.log(o); }
            C30::V2(f0) => { o.push(M_VAR + 2); f0.log(o); }
            C30::V3(f0, f1) => { o.push(M_VAR + 3); f0.log(o); f1.log(o); }
        }
        o.push(M_END)
    }
}
static C30_G: G = Alt(&A { ign: &[&One("a,")], pre: Some(&One("a,")), vars: &[
    &S { ign: &[&One("a,")], pre: None, fields: &[F { pre: Some(&Opt(&Lit("a"))), p: &One("a,"), suf: None, list: None }, F { pre: Some(&Opt(&Lit("a"))), p: &Opt(&Lit("a")), suf: Some(&Opt(&Lit("a"))), list: None }], suf: None },
    &S { ign: &[&One("a,")], pre: Some(&Opt(&Lit("a"))), fields: &[F { pre: None, p: &Opt(&Lit("a")), suf: None, list: None }], suf: Some(&Opt(&Lit("a"))) },
    &S { ign: &[&One("a,"), &One("a,")], pre: Some(&Opt(&Lit("a"))), fields: &[F { pre: Some(&One("a,")), p: &One("a,"), suf: None, list: None }], suf: Some(&One("a,")) },
    &S { ign: &[&One("a,")], pre: None, fields: &[F { pre: None, p: &One("a,"), suf: Some(&One("a,")), list: None }, F { pre: Some(&Opt(&Lit("a"))), p: &Opt(&Lit("a")), suf: None, list: None }], suf: Some(&One("a,")) },
], suf: Some(&Opt(&Lit("a"))) });
#[derive(Parse)]
#[nommy(prefix = OneOf<"a,">, suffix = Tag<"aa">, ignore = Tag<" ">)]
pub enum C31 {
    #[nommy(ignore = OneOf<"a,">)] V0(#[nommy(prefix = Tag<"aa">, suffix = Tag<"aa">)] Tag<"aa">),
    #[nommy(suffix = Tag<"aa">, prefix = Tag<"aa">)] V1(#[nommy(prefix = OneOf<"a,">, suffix = Tag<"aa">)] Tag<"aa">, Tag<"aa">),
}
impl Log for C31 {
    fn log(self, o: &mut Vec<u32>) {
        match self {
            C31::V0(f0) => { o.push(M_VAR + 0); f0.log(o); }
            C31::V1(f0, f1) => { o.push(M_VAR + 1); f0.log(o); f1.log(o); }
        }
        o.push(M_END)
    }
}
static C31_G: G = Alt(&A { ign: &[&Lit(" ")], pre: Some(&One("a,")), vars: &[
    &S { ign: &[&One("a,"), &Lit(" ")], pre: None, fields: &[F { pre: Some(&Lit("aa")), p: &Lit("aa"), suf: Some(&Lit("aa")), list: None }], suf: None },
    &S { ign: &[&Lit(" ")], pre: Some(&Lit("aa")), fields: &[F { pre: Some(&One("a,")), p: &Lit("aa"), suf: Some(&Lit("aa")), list: None }, F { pre: None, p: &Lit("aa"), suf: None, list: None }], suf: Some(&Lit("aa")) },
], suf: Some(&Lit("aa")) });
#[derive(Parse)]
#[nommy(suffix = Option<Tag<"a">>)]
pub enum C32 {
    #[nommy(prefix = Tag<"a">)] V0(#[nommy(prefix = Tag<"a">, suffix = Option<Tag<"a">>)] Option<Tag<"a">>, #[nommy(prefix = Tag<"a">, suffix = Option<Tag<"a">>)] Tag<"a">),
    #[nommy(suffix = Tag<"a">, prefix = Option<Tag<"a">>)] V1(Option<Tag<"a">>, #[nommy(prefix = Option<Tag<"a">>)] Tag<"a">),
    #[nommy(prefix = Tag<"a">, suffix = Option<Tag<"a">>)] V2(#[nommy(prefix = Option<Tag<"a">>)] Option<Tag<"a">>),
}
impl Log for C32 {
    fn log(self, o: &mut Vec<u32>) {
        match self {
            C32::V0(f0, f1) => { o.push(M_VAR + 0); f0.log(o); f1.log(o); }
            C32::V1(f0, f1) => { o.push(M_VAR + 1); f0.log(o); f1.log(o); }
            C32::V2(f0) => { o.push(M_VAR + 2); f0.log(o); }
        }
        o.push(M_END)
    }
}
static C32_G: G = Alt(&A { ign: &[], pre: None, vars: &[
    &S { ign: &[], pre: Some(&Lit("a")), fields: &[F { pre: Some(&Lit("a")), p: &Opt(&Lit("a")), suf: Some(&Opt(&Lit("a"))), list: None }, F { pre: Some(&Lit("a")), p: &Lit("a"), suf: Some(&Opt(&Lit("a"))), list: None }], suf: None },
    &S { ign: &[], pre: Some(&Opt(&Lit("a"))), fields: &[F { pre: None, p: &Opt(&Lit("a")), suf: None, list: None }, F { pre: Some(&Opt(&Lit("a"))), p: &Lit("a"), suf: None, list: None }], suf: Some(&Lit("a")) },
    &S { ign: &[], pre: Some(&Lit("a")), fields: &[F { pre: Some(&Opt(&Lit("a"))), p: &Opt(&Lit("a")), suf: None, list: None }], suf: Some(&Opt(&Lit("a"))) },
], suf: Some(&Opt(&Lit("a"))) });
#[derive(Parse)]
#[nommy(parse_type = char, ignore = Tag<" ">, suffix = Tag<"a">, ignore = Tag<" ">, prefix = Tag<"a">)]
pub enum C33 {
    V0(#[nommy(prefix = Tag<"aa">, suffix = Tag<"a">)] Tag<"a">),
    #[nommy(ignore = Tag<"a">, suffix = Tag<"aa">, prefix = Tag<"a">)] V1(#[nommy(prefix = Tag<"a">)] Tag<"aa">, #[nommy(prefix = Tag<"a">, suffix = Tag<"aa">)] Tag<"a">),
    #[nommy(suffix = Tag<"a">)] V2(#[nommy(prefix = Tag<"a">, suffix = Tag<"a">)] Tag<"aa">, #[nommy(prefix = Tag<"aa">, suffix = Tag<"a">)] Tag<"aa">),
}
impl Log for C33 {
    fn log(self, o: &mut Vec<u32>) {
        match self {
            C33::V0(f0) => { o.push(M_VAR + 0); f0.log(o); }
            C33::V1(f0, f1) => { o.push(M_VAR + 1); f0.log(o); f1.log(o); }
            C33::V2(f0, f1) => { o.push(M_VAR + 2); f0.log(o); f1.log(o); }
        }
        o.push(M_END)
    }
}
static C33_G: G = Alt(&A { ign: &[&Lit(" "), &Lit(" ")], pre: Some(&Lit("a")), vars: &[
    &S { ign: &[&Lit(" "), &Lit(" ")], pre: None, fields: &[F { pre: Some(&Lit("aa")), p: &Lit("a"), suf: Some(&Lit("a")), list: None }], suf: None },
    &S { ign: &[&Lit("a"), &Lit(" "), &Lit(" ")], pre: Some(&Lit("a")), fields: &[F { pre: Some(&Lit("a")), p: &Lit("aa"), suf: None, list: None }, F { pre: Some(&Lit("a")), p: &Lit("a"), suf: Some(&Lit("aa")), list: None }], suf: Some(&Lit("aa")) },
    &S { ign: &[&Lit(" "), &Lit(" ")], pre: None, fields: &[F { pre: Some(&Lit("a")), p: &Lit("aa"), suf: Some(&Lit("a")), list: None }, F { pre: Some(&Lit("aa")), p: &Lit("aa"), suf: Some(&Lit("a")), list: None }], suf: Some(&Lit("a")) },
], suf: Some(&Lit("a")) });
#[derive(Parse)]
#[nommy(suffix = OneOf<"a,">, ignore = Tag<" ">, prefix = OneOf<"a,">)]
pub enum C34 {
    #[nommy(suffix = Box<Tag<",">>, prefix = OneOf<"a,">)] V0(#[nommy(prefix = Box<Tag<",">>)] OneOf<"a,">),
    #[nommy(suffix = OneOf<"a,">)] V1(#[nommy(suffix = Box<Tag<",">>)] Box<Tag<",">>),
    #[nommy(suffix = Box<Tag<",">>, ignore = Box<Tag<",">>)] V2(#[nommy(prefix = OneOf<"a,">, suffix = OneOf<"a,">)] Box<Tag<",">>),
    #[nommy(prefix = Box<Tag<",">>, ignore = Box<Tag<",">>, suffix = Box<Tag<",">>)] V3(#[nommy(prefix = Box<Tag<",">>)] Box<Tag<",">>, #[nommy(prefix = OneOf<"a,">)] OneOf<"a,">),
}
impl Log for C34 {
    fn log(self, o: &mut Vec<u32>) {
        match self {
            C34::V0(f0) => { o.push(M_VAR + 0); f0.log(o); }
            C34::V1(f0) => { o.push(M_VAR + 1); f0.log(o); }
            C34::V2(f0) => { o.push(M_VAR + 2); f0.log(o); }
            C34::V3(f0, f1) => { o.push(M_VAR + 3); f0.log(o); f1.log(o); }
        }
        o.push(M_END)
    }
}
static C34_G: G = Alt(&A { ign: &[&Lit(" ")], pre: Some(&One("a,")), vars: &[
    &S { ign: &[&Lit(" ")], pre: Some(&One("a,")), fields: &[F { pre: Some(&Lit(",")), p: &One("a,"), suf: None, list: None }], suf: Some(&Lit(",")) },
    &S { ign: &[&Lit(" ")], pre: None, fields: &[F { pre: None, p: &Lit(","), suf: Some(&Lit(",")), list: None }], suf: Some(&One("a,")) },
    &S { ign: &[&Lit(","), &Lit(" ")], pre: None, fields: &[F { pre: Some(&One("a,")), p: &Lit(","), suf: Some(&One("a,")), list: None }], suf: Some(&Lit(",")) },
    &S { ign: &[&Lit(","), &Lit(" ")], pre: Some(&Lit(",")), fields: &[F { pre: Some(&Lit(",")), p: &Lit(","), suf: None, list: None }, F { pre: Some(&One("a,")), p: &One("a,"), suf: None, list: None }], suf: Some(&Lit(",")) },
], suf: Some(&One("a,")) });
#[derive(Parse)]
#[nommy(prefix = Option<Tag<"a">>, ignore = Tag<" ">, ignore = Tag<" ">, parse_type = char, suffix = Tag<",">)]
pub enum C35 {
    #[nommy(suffix = Option<Tag<"a">>, ignore = Tag<",">)] V0(#[nommy(prefix = Option<Tag<"a">>, suffix = Tag<",">)] Tag<",">),
    #[nommy(suffix = Tag<",">, prefix = Option<Tag<"a">>)] V1(#[nommy(suffix = Option<Tag<"a">>)] Option<Tag<"a">>),
    #[nommy(ignore = Tag<",">, prefix = Tag<",">, suffix = Option<Tag<"a">>)] V2(#[nommy(prefix = Option<Tag<"a">>, suffix = Option<Tag<"a">>)] Tag<",">),
}
impl Log for C35 {
    fn log(self, o: &mut Vec<u32>) {
        match self {
            C35::V0(f0) => { o.push(M_VAR + 0); f0.log(o); }
            C35::V1(f0) => { o.push(M_VAR + 1); f0.log(o); }
            C35::V2(f0) => { o.push(M_VAR + 2); f0.log(o); }
        }
        o.push(M_END)
    }
}
static C35_G: G = Alt(&A { ign: &[&Lit(" "), &Lit(" ")], pre: Some(&Opt(&Lit("a"))), vars: &[
    &S { ign: &[&Lit(","), &Lit(" "), &Lit(" ")], pre: None, fields: &[F { pre: Some(&Opt(&Lit("a"))), p: &Lit(","), suf: Some(&Lit(",")), list: None }], suf: Some(&Opt(&Lit("a"))) },
    &S { ign: &[&Lit(" "), &Lit(" ")], pre: Some(&Opt(&Lit("a"))), fields: &[F { pre: None, p: &Opt(&Lit("a")), suf: Some(&Opt(&Lit("a"))), list: None }], suf: Some(&Lit(",")) },
    &S { ign: &[&Lit(","), &Lit(" "), &Lit(" ")], pre: Some(&Lit(",")), fields: &[F { pre: Some(&Opt(&Lit("a"))), p: &Lit(","), suf: Some(&Opt(&Lit("a"))), list: None }], suf: Some(&Opt(&Lit("a"))) },
], suf: Some(&Lit(",")) });
#[derive(Parse)]
pub struct W00 (Tag<"a">, Tag<"b">, Tag<"c">, Tag<"d">, Tag<"e">, Tag<"f">, Tag<"g">, Tag<"h">, Tag<"i">, Tag<"j">, Tag<"k">, Tag<"l">, Tag<"m">);
impl Log for W00 { fn log(self, o: &mut Vec<u32>) { o.push(M_SEQ); self.0.log(o); self.1.log(o); self.2.log(o); self.3.log(o); self.4.log(o); self.5.log(o); self.6.log(o); self.7.log(o); self.8.log(o); self.9.log(o); self.10.log(o); self.11.log(o); self.12.log(o); o.push(M_END) } }
static W00_G: G = Seq(&S { ign: &[], pre: None, fields: &[F { pre: None, p: &Lit("a"), suf: None, list: None }, F { pre: None, p: &Lit("b"), suf: None, list: None }, F { pre: None, p: &Lit("c"), suf: None, list: None }, F { pre: None, p: &Lit("d"), suf: None, list: None }, F { pre: None, p: &Lit("e"), suf: None, list: None }, F { pre: None, p: &Lit("f"), suf: None, list: None }, F { pre: None, p: &Lit("g"), suf: None, list: None }, F { pre: None, p: &Lit("h"), suf: None, list: None }, F { pre: None, p: &Lit("i"), suf: None, list: None }, F { pre: None, p: &Lit("j"), suf: None, list: None }, F { pre: None, p: &Lit("k"), suf: None, list: None }, F { pre: None, p: &Lit("l"), suf: None, list: None }, F { pre: None, p: &Lit("m"), suf: None, list: None }], suf: None });
#[derive(Parse)]
#[nommy(prefix = Tag<"<">, suffix = Tag<">">, parse_type = char, ignore = Tag<" ">)]
pub struct W01 { f0: Tag<"a">, #[nommy(prefix = Tag<"1">, suffix = Tag<";">)] f1: Tag<"b">, #[nommy(suffix = Tag<";">)] f2: Tag<"c">, #[nommy(prefix = Tag<"3">)] f3: Tag<"d">, #[nommy(suffix = Tag<";">)] f4: Tag<"e">, #[nommy(prefix = Tag<"5">, suffix = Tag<";">)] f5: Tag<"f">, f6: Tag<"g">, #[nommy(prefix = Tag<"7">, suffix = Tag<";">)] f7: Tag<"h">, #[nommy(suffix = Tag<";">)] f8: Tag<"i">, #[nommy(prefix = Tag<"9">)] f9: Tag<"j">, #[nommy(suffix = Tag<";">)] f10: Tag<"k">, #[nommy(prefix = Tag<"1">, suffix = Tag<";">)] f11: Tag<"l">, f12: Tag<"m"> }
impl Log for W01 { fn log(self, o: &mut Vec<u32>) { o.push(M_SEQ); self.f0.log(o); self.f1.log(o); self.f2.log(o); self.f3.log(o); self.f4.log(o); self.f5.log(o); self.f6.log(o); self.f7.log(o); self.f8.log(o); self.f9.log(o); self.f10.log(o); self.f11.log(o); self.f12.log(o); o.push(M_END) } }
static W01_G: G = Seq(&S { ign: &[&Lit(" ")], pre: Some(&Lit("<")), fields: &[F { pre: None, p: &Lit("a"), suf: None, list: None }, F { pre: Some(&Lit("1")), p: &Lit("b"), suf: Some(&Lit(";")), list: None }, F { pre: None, p: &Lit("c"), suf: Some(&Lit(";")), list: None }, F { pre: Some(&Lit("3")), p: &Lit("d"), suf: None, list: None }, F { pre: None, p: &Lit("e"), suf: Some(&Lit(";")), list: None }, F { pre: Some(&Lit("5")), p: &Lit("f"), suf: Some(&Lit(";")), list: None }, F { pre: None, p: &Lit("g"), suf: None, list: None }, F { pre: Some(&Lit("7")), p: &Lit("h"), suf: Some(&Lit(";")), list: None }, F { pre: None, p: &Lit("i"), suf: Some(&Lit(";")), list: None }, F { pre: Some(&Lit("9")), p: &Lit("j"), suf: None, list: None }, F { pre: None, p: &Lit("k"), suf: Some(&Lit(";")), list: None }, F { pre: Some(&Lit("1")), p: &Lit("l"), suf: Some(&Lit(";")), list: None }, F { pre: None, p: &Lit("m"), suf: None, list: None }], suf: Some(&Lit(">")) });
#[derive(Parse)]
pub struct W02 { #[nommy(parser = OneOf<"ab">)] f0: char, #[nommy(parser = OneOf<"ab">)] f1: char, #[nommy(parser = OneOf<"ab">)] f2: char, #[nommy(parser = OneOf<"ab">)] f3: char, #[nommy(parser = OneOf<"ab">)] f4: char, #[nommy(parser = OneOf<"ab">)] f5: char, #[nommy(parser = OneOf<"ab">)] f6: char, #[nommy(parser = OneOf<"ab">)] f7: char, #[nommy(parser = OneOf<"ab">)] f8: char, #[nommy(parser = OneOf<"ab">)] f9: char, #[nommy(parser = OneOf<"ab">)] f10: char, #[nommy(parser = OneOf<"ab">)] f11: char, #[nommy(parser = OneOf<"ab">)] f12: char }
impl Log for W02 { fn log(self, o: &mut Vec<u32>) { o.push(M_SEQ); self.f0.log(o); self.f1.log(o); self.f2.log(o); self.f3.log(o); self.f4.log(o); self.f5.log(o); self.f6.log(o); self.f7.log(o); self.f8.log(o); self.f9.log(o); self.f10.log(o); self.f11.log(o); self.f12.log(o); o.push(M_END) } }
static W02_G: G = Seq(&S { ign: &[], pre: None, fields: &[F { pre: None, p: &One("ab"), suf: None, list: None }, F { pre: None, p: &One("ab"), suf: None, list: None }, F { pre: None, p: &One("ab"), suf: None, list: None }, F { pre: None, p: &One("ab"), suf: None, list: None }, F { pre: None, p: &One("ab"), suf: None, list: None }, F { pre: None, p: &One("ab"), suf: None, list: None }, F { pre: None, p: &One("ab"), suf: None, list: None }, F { pre: None, p: &One("ab"), suf: None, list: None }, F { pre: None, p: &One("ab"), suf: None, list: None }, F { pre: None, p: &One("ab"), suf: None, list: None }, F { pre: None, p: &One("ab"), suf: None, list: None }, F { pre: None, p: &One("ab"), suf: None, list: None }, F { pre: None, p: &One("ab"), suf: None, list: None }], suf: None });
#[derive(Parse)]
#[nommy(ignore = Tag<"1">, ignore = Tag<"2">, parse_type = char, ignore = Tag<"3">, ignore = Tag<"4">, ignore = Tag<"5">, ignore = Tag<"6">, ignore = Tag<"- ">)]
pub struct W03 (Tag<"a">, Tag<"b">);
impl Log for W03 { fn log(self, o: &mut Vec<u32>) { o.push(M_SEQ); self.0.log(o); self.1.log(o); o.push(M_END) } }
static W03_G: G = Seq(&S { ign: &[&Lit("1"), &Lit("2"), &Lit("3"), &Lit("4"), &Lit("5"), &Lit("6"), &Lit("- ")], pre: None, fields: &[F { pre: None, p: &Lit("a"), suf: None, list: None }, F { pre: None, p: &Lit("b"), suf: None, list: None }], suf: None });
#[derive(Parse)]
pub struct W04 (#[nommy(prefix = Tag<"=">, suffix = Tag<"=">)] Tag<"a">, #[nommy(prefix = Tag<"=">, suffix = Tag<"=">)] Tag<"a">, #[nommy(prefix = Tag<"=">, suffix = Tag<"=">)] Tag<"a">, #[nommy(prefix = Tag<"=">, suffix = Tag<"=">)] Tag<"a">, #[nommy(prefix = Tag<"=">, suffix = Tag<"=">)] Tag<"a">);
impl Log for W04 { fn log(self, o: &mut Vec<u32>) { o.push(M_SEQ); self.0.log(o); self.1.log(o); self.2.log(o); self.3.log(o); self.4.log(o); o.push(M_END) } }
static W04_G: G = Seq(&S { ign: &[], pre: None, fields: &[F { pre: Some(&Lit("=")), p: &Lit("a"), suf: Some(&Lit("=")), list: None }, F { pre: Some(&Lit("=")), p: &Lit("a"), suf: Some(&Lit("=")), list: None }, F { pre: Some(&Lit("=")), p: &Lit("a"), suf: Some(&Lit("=")), list: None }, F { pre: Some(&Lit("=")), p: &Lit("a"), suf: Some(&Lit("=")), list: None }, F { pre: Some(&Lit("=")), p: &Lit("a"), suf: Some(&Lit("=")), list: None }], suf: None });
#[derive(Parse)]
#[nommy(parse_type = char)]
pub enum W05 {
    V0(Tag<"a">),
    V1(Tag<"b">),
    V2(Tag<"c">),
    V3(Tag<"d">),
    V4(Tag<"e">),
    V5(Tag<"f">),
    V6(Tag<"g">),
    V7(Tag<"h">),
    V8(Tag<"i">),
    V9(Tag<"j">),
    V10(Tag<"k">),
    V11(Tag<"l">),
    V12(Tag<"m">),
}
impl Log for W05 {
    fn log(self, o: &mut Vec<u32>) {
        match self {
            W05::V0(f0) => { o.push(M_VAR + 0); f0.log(o); }
            W05::V1(f0) => { o.push(M_VAR + 1); f0.log(o); }
            W05::V2(f0) => { o.push(M_VAR + 2); f0.log(o); }
            W05::V3(f0) => { o.push(M_VAR + 3); f0.log(o); }
            W05::V4(f0) => { o.push(M_VAR + 4); f0.log(o); }
            W05::V5(f0) => { o.push(M_VAR + 5); f0.log(o); }
            W05::V6(f0) => { o.push(M_VAR + 6); f0.log(o); }
            W05::V7(f0) => { o.push(M_VAR + 7); f0.log(o); }
            W05::V8(f0) => { o.push(M_VAR + 8); f0.log(o); }
            W05::V9(f0) => { o.push(M_VAR + 9); f0.log(o); }
            W05::V10(f0) => { o.push(M_VAR + 10); f0.log(o); }
            W05::V11(f0) => { o.push(M_VAR + 11); f0.log(o); }
            W05::V12(f0) => { o.push(M_VAR + 12); f0.log(o); }
        }
        o.push(M_END)
    }
}
static W05_G: G = Alt(&A { ign: &[], pre: None, vars: &[
    &S { ign: &[], pre: None, fields: &[F { pre: None, p: &Lit("a"), suf: None, list: None }], suf: None },
    &S { ign: &[], pre: None, fields: &[F { pre: None, p: &Lit("b"), suf: None, list: None }], suf: None },
    &S { ign: &[], pre: None, fields: &[F { pre: None, p: &Lit("c"), suf: None, list: None }], suf: None },
    &S { ign: &[], pre: None, fields: &[F { pre: None, p: &Lit("d"), suf: None, list: None }], suf: None },
    &S { ign: &[], pre: None, fields: &[F { pre: None, p: &Lit("e"), suf: None, list: None }], suf: None },
    &S { ign: &[], pre: None, fields: &[F { pre: None, p: &Lit("f"), suf: None, list: None }], suf: None },
    &S { ign: &[], pre: None, fields: &[F { pre: None, p: &Lit("g"), suf: None, list: None }], suf: None },
    &S { ign: &[], pre: None, fields: &[F { pre: None, p: &Lit("h"), suf: None, list: None }], suf: None },
    &S { ign: &[], pre: None, fields: &[F { pre: None, p: &Lit("i"), suf: None, list: None }], suf: None },
    &S { ign: &[], pre: None, fields: &[F { pre: None, p: &Lit("j"), suf: None, list: None }], suf: None },
    &S { ign: &[], pre: None, fields: &[F { pre: None, p: &Lit("k"), suf: None, list: None }], suf: None },
    &S { ign: &[], pre: None, fields: &[F { pre: None, p: &Lit("l"), suf: None, list: None }], suf: None },
    &S { ign: &[], pre: None, fields: &[F { pre: None, p: &Lit("m"), suf: None, list: None }], suf: None },
], suf: None });
#[derive(Parse)]
#[nommy(ignore = Tag<" ">, suffix = Tag<")">, prefix = Tag<"(">)]
pub enum W06 {
    #[nommy(prefix = Tag<"a">)] V0,
    #[nommy(prefix = Tag<"b">, suffix = Tag<";">)] V1(Tag<"a">),
    #[nommy(prefix = Tag<"c">)] V2(Tag<"a">),
    #[nommy(suffix = Tag<";">, prefix = Tag<"d">)] V3,
    #[nommy(prefix = Tag<"e">)] V4(Tag<"a">),
    #[nommy(prefix = Tag<"f">, suffix = Tag<";">)] V5(Tag<"a">),
    #[nommy(prefix = Tag<"g">)] V6,
    #[nommy(prefix = Tag<"h">, suffix = Tag<";">)] V7(Tag<"a">),
    #[nommy(prefix = Tag<"i">)] V8(Tag<"a">),
    #[nommy(suffix = Tag<";">, prefix = Tag<"j">)] V9,
    #[nommy(prefix = Tag<"k">)] V10(Tag<"a">),
    #[nommy(suffix = Tag<";">, prefix = Tag<"l">)] V11(Tag<"a">),
    #[nommy(prefix = Tag<"m">)] V12,
}
impl Log for W06 {
    fn log(self, o: &mut Vec<u32>) {
        match self {
            W06::V0 => { o.push(M_VAR + 0); }
            W06::V1(f0) => { o.push(M_VAR + 1); f0.log(o); }
            W06::V2(f0) => { o.push(M_VAR + 2); f0.log(o); }
            W06::V3 => { o.push(M_VAR + 3); }
            W06::V4(f0) => { o.push(M_VAR + 4); f0.log(o); }
            W06::V5(f0) => { o.push(M_VAR + 5); f0.log(o); }
            W06::V6 => { o.push(M_VAR + 6); }
            W06::V7(f0) => { o.push(M_VAR + 7); f0.log(o); }
            W06::V8(f0) => { o.push(M_VAR + 8); f0.log(o); }
            W06::V9 => { o.push(M_VAR + 9); }
            W06::V10(f0) => { o.push(M_VAR + 10); f0.log(o); }
            W06::V11(f0) => { o.push(M_VAR + 11); f0.log(o); }
            W06::V12 => { o.push(M_VAR + 12); }
        }
        o.push(M_END)
    }
}
static W06_G: G = Alt(&A { ign: &[&Lit(" ")], pre: Some(&Lit("(")), vars: &[
    &S { ign: &[&Lit(" ")], pre: Some(&Lit("a")), fields: &[], suf: None },
    &S { ign: &[&Lit(" ")], pre: Some(&Lit("b")), fields: &[F { pre: None, p: &Lit("a"), suf: None, list: None }], suf: Some(&Lit(";")) },
    &S { ign: &[&Lit(" ")], pre: Some(&Lit("c")), fields: &[F { pre: None, p: &Lit("a"), suf: None, list: None }], suf: None },
    &S { ign: &[&Lit(" ")], pre: Some(&Lit("d")), fields: &[], suf: Some(&Lit(";")) },
    &S { ign: &[&Lit(" ")], pre: Some(&Lit("e")), fields: &[F { pre: None, p: &Lit("a"), suf: None, list: None }], suf: None },
    &S { ign: &[&Lit(" ")], pre: Some(&Lit("f")), fields: &[F { pre: None, p: &Lit("a"), suf: None, list: None }], suf: Some(&Lit(";")) },
    &S { ign: &[&Lit(" ")], pre: Some(&Lit("g")), fields: &[], suf: None },
    &S { ign: &[&Lit(" ")], pre: Some(&Lit("h")), fields: &[F { pre: None, p: &Lit("a"), suf: None, list: None }], suf: Some(&Lit(";")) },
    &S { ign: &[&Lit(" ")], pre: Some(&Lit("i")), fields: &[F { pre: None, p: &Lit("a"), suf: None, list: None }], suf: None },
    &S { ign: &[&Lit(" ")], pre: Some(&Lit("j")), fields: &[], suf: Some(&Lit(";")) },
    &S { ign: &[&Lit(" ")], pre: Some(&Lit("k")), fields: &[F { pre: None, p: &Lit("a"), suf: None, list: None }], suf: None },
    &S { ign: &[&Lit(" ")], pre: Some(&Lit("l")), fields: &[F { pre: None, p: &Lit("a"), suf: None, list: None }], suf: Some(&Lit(";")) },
    &S { ign: &[&Lit(" ")], pre: Some(&Lit("m")), fields: &[], suf: None },
], suf: Some(&Lit(")")) });
#[derive(Parse)]
pub enum W07 {
    #[nommy(suffix = Tag<"b">)] V0([Tag<"a">; 1]),
    #[nommy(suffix = Tag<"c">)] V1([Tag<"a">; 2]),
    #[nommy(suffix = Tag<"d">)] V2([Tag<"a">; 3]),
    #[nommy(suffix = Tag<"e">)] V3([Tag<"a">; 1]),
    #[nommy(suffix = Tag<"f">)] V4([Tag<"a">; 2]),
    #[nommy(suffix = Tag<"g">)] V5([Tag<"a">; 3]),
    #[nommy(suffix = Tag<"h">)] V6([Tag<"a">; 1]),
    #[nommy(suffix = Tag<"i">)] V7([Tag<"a">; 2]),
    #[nommy(suffix = Tag<"j">)] V8([Tag<"a">; 3]),
}
impl Log for W07 {
    fn log(self, o: &mut Vec<u32>) {
        match self {
            W07::V0(f0) => { o.push(M_VAR + 0); f0.log(o); }
            W07::V1(f0) => { o.push(M_VAR + 1); f0.log(o); }
            W07::V2(f0) => { o.push(M_VAR + 2); f0.log(o); }
            W07::V3(f0) => { o.push(M_VAR + 3); f0.log(o); }
            W07::V4(f0) => { o.push(M_VAR + 4); f0.log(o); }
            W07::V5(f0) => { o.push(M_VAR + 5); f0.log(o); }
            W07::V6(f0) => { o.push(M_VAR + 6); f0.log(o); }
            W07::V7(f0) => { o.push(M_VAR + 7); f0.log(o); }
            W07::V8(f0) => { o.push(M_VAR + 8); f0.log(o); }
        }
        o.push(M_END)
    }
}
static W07_G: G = Alt(&A { ign: &[], pre: None, vars: &[
    &S { ign: &[], pre: None, fields: &[F { pre: None, p: &Rep(1, &Lit("a")), suf: None, list: None }], suf: Some(&Lit("b")) },
    &S { ign: &[], pre: None, fields: &[F { pre: None, p: &Rep(2, &Lit("a")), suf: None, list: None }], suf: Some(&Lit("c")) },
    &S { ign: &[], pre: None, fields: &[F { pre: None, p: &Rep(3, &Lit("a")), suf: None, list: None }], suf: Some(&Lit("d")) },
    &S { ign: &[], pre: None, fields: &[F { pre: None, p: &Rep(1, &Lit("a")), suf: None, list: None }], suf: Some(&Lit("e")) },
    &S { ign: &[], pre: None, fields: &[F { pre: None, p: &Rep(2, &Lit("a")), suf: None, list: None }], suf: Some(&Lit("f")) },
    &S { ign: &[], pre: None, fields: &[F { pre: None, p: &Rep(3, &Lit("a")), suf: None, list: None }], suf: Some(&Lit("g")) },
    &S { ign: &[], pre: None, fields: &[F { pre: None, p: &Rep(1, &Lit("a")), suf: None, list: None }], suf: Some(&Lit("h")) },
    &S { ign: &[], pre: None, fields: &[F { pre: None, p: &Rep(2, &Lit("a")), suf: None, list: None }], suf: Some(&Lit("i")) },
    &S { ign: &[], pre: None, fields: &[F { pre: None, p: &Rep(3, &Lit("a")), suf: None, list: None }], suf: Some(&Lit("j")) },
], suf: None });
#[derive(Parse)]
#[nommy(ignore = Tag<"1">, ignore = Tag<"2">)]
pub enum W08 {
    #[nommy(ignore = Tag<"3">, ignore = Tag<"4">)] V0(Tag<"a">, Tag<"a">),
    #[nommy(ignore = Tag<"3">, ignore = Tag<"5">)] V1(Tag<"a">, Tag<"b">),
    #[nommy(ignore = Tag<"3">, ignore = Tag<"6">)] V2(Tag<"a">, Tag<"c">),
    #[nommy(ignore = Tag<"3">, ignore = Tag<"7">)] V3(Tag<"a">, Tag<"d">),
    #[nommy(ignore = Tag<"3">, ignore = Tag<"8">)] V4(Tag<"a">, Tag<"e">),
}
impl Log for W08 {
    fn log(self, o: &mut Vec<u32>) {
        match self {
            W08::V0(f0, f1) => { o.push(M_VAR + 0); f0.log(o); f1.log(o); }
            W08::V1(f0, f1) => { o.push(M_VAR + 1); f0.log(o); f1.log(o); }
            W08::V2(f0, f1) => { o.push(M_VAR + 2); f0.log(o); f1.log(o); }
            W08::V3(f0, f1) => { o.push(M_VAR + 3); f0.log(o); f1.log(o); }
            W08::V4(f0, f1) => { o.push(M_VAR + 4); f0.log(o); f1.log(o); }
        }
        o.push(M_END)
    }
}
static W08_G: G = Alt(&A { ign: &[&Lit("1"), &Lit("2")], pre: None, vars: &[
    &S { ign: &[&Lit("3"), &Lit("4"), &Lit("1"), &Lit("2")], pre: None, fields: &[F { pre: None, p: &Lit("a"), suf: None, list: None }, F { pre: None, p: &Lit("a"), suf: None, list: None }], suf: None },
    &S { ign: &[&Lit("3"), &Lit("5"), &Lit("1"), &Lit("2")], pre: None, fields: &[F { pre: None, p: &Lit("a"), suf: None, list: None }, F { pre: None, p: &Lit("b"), suf: None, list: None }], suf: None },
    &S { ign: &[&Lit("3"), &Lit("6"), &Lit("1"), &Lit("2")], pre: None, fields: &[F { pre: None, p: &Lit("a"), suf: None, list: None }, F { pre: None, p: &Lit("c"), suf: None, list: None }], suf: None },
    &S { ign: &[&Lit("3"), &Lit("7"), &Lit("1"), &Lit("2")], pre: None, fields: &[F { pre: None, p: &Lit("a"), suf: None, list: None }, F { pre: None, p: &Lit("d"), suf: None, list: None }], suf: None },
    &S { ign: &[&Lit("3"), &Lit("8"), &Lit("1"), &Lit("2")], pre: None, fields: &[F { pre: None, p: &Lit("a"), suf: None, list: None }, F { pre: None, p: &Lit("e"), suf: None, list: None }], suf: None },
], suf: None });
crate::harnesses! {
    h_gen_s00 => conf::<G00, char>(&G00_G);
    h_gen_s01 => conf::<G01, char>(&G01_G);
    h_gen_s02 => conf::<G02, char>(&G02_G);
    h_gen_s03 => conf::<G03, char>(&G03_G);
    h_gen_s04 => conf::<G04, char>(&G04_G);
    h_gen_s05 => conf::<G05, char>(&G05_G);
    h_gen_s06 => conf::<G06, char>(&G06_G);
    h_gen_s07 => conf::<G07, char>(&G07_G);
    h_gen_s08 => conf::<G08, char>(&G08_G);
    h_gen_s09 => conf::<G09, char>(&G09_G);
    h_gen_s10 => conf::<G10, char>(&G10_G);
    h_gen_s11 => conf::<G11, char>(&G11_G);
    h_gen_s12 => conf::<G12, char>(&G12_G);
    h_gen_s13 => conf::<G13, char>(&G13_G);
    h_gen_s14 => conf::<G14, char>(&G14_G);
    h_gen_s15 => conf::<G15, char>(&G15_G);
    h_gen_s16 => conf::<G16, char>(&G16_G);
    h_gen_s17 => conf::<G17, char>(&G17_G);
    h_gen_s18 => conf::<G18, char>(&G18_G);
    h_gen_s19 => conf::<G19, char>(&G19_G);
    h_gen_s20 => conf::<G20, char>(&G20_G);
    h_gen_s21 => conf::<G21, char>(&G21_G);
    h_gen_s22 => conf::<G22, char>(&G22_G);
    h_gen_s23 => conf::<G23, char>(&G23_G);
    h_gen_s24 => conf::<G24, char>(&G24_G);
    h_gen_s25 => conf::<G25, char>(&G25_G);
    h_gen_s26 => conf::<G26, char>(&G26_G);
    h_gen_s27 => conf::<G27, char>(&G27_G);
    h_gen_e00 => conf::<E00, char>(&E00_G);
    h_gen_e01 => conf::<E01, char>(&E01_G);
    h_gen_e02 => conf::<E02, char>(&E02_G);
    h_gen_e03 => conf::<E03, char>(&E03_G);
    h_gen_e04 => conf::<E04, char>(&E04_G);
    h_gen_e05 => conf::<E05, char>(&E05_G);
    h_gen_e06 => conf::<E06, char>(&E06_G);
    h_gen_e07 => conf::<E07, char>(&E07_G);
    h_gen_e08 => conf::<E08, char>(&E08_G);
    h_gen_e09 => conf::<E09, char>(&E09_G);
    h_gen_e10 => conf::<E10, char>(&E10_G);
    h_gen_e11 => conf::<E11, char>(&E11_G);
    h_gen_e12 => conf::<E12, char>(&E12_G);
    h_gen_e13 => conf::<E13, char>(&E13_G);
    h_gen_e14 => conf::<E14, char>(&E14_G);
    h_gen_e15 => conf::<E15, char>(&E15_G);
    h_gen_n00 => conf::<N00, char>(&N00_G);
    h_gen_n01 => conf::<N01, char>(&N01_G);
    h_gen_n02 => conf::<N02, char>(&N02_G);
    h_gen_n03 => conf::<N03, char>(&N03_G);
    h_gen_n04 => conf::<N04, char>(&N04_G);
    h_gen_n05 => conf::<N05, char>(&N05_G);
    h_gen_n06 => conf::<N06, char>(&N06_G);
    h_gen_n07 => conf::<N07, char>(&N07_G);
    h_gen_n08 => conf::<N08, char>(&N08_G);
    h_gen_n09 => conf::<N09, char>(&N09_G);
    h_gen_n10 => conf::<N10, char>(&N10_G);
    h_gen_n11 => conf::<N11, char>(&N11_G);
    h_gen_n12 => conf::<N12, char>(&N12_G);
    h_gen_n13 => conf::<N13, char>(&N13_G);
    h_gen_n14 => conf::<N14, char>(&N14_G);
    h_gen_n15 => conf::<N15, char>(&N15_G);
    h_gen_n16 => conf::<N16, char>(&N16_G);
    h_gen_n17 => conf::<N17, char>(&N17_G);
    h_gen_n18 => conf::<N18, char>(&N18_G);
    h_gen_n19 => conf::<N19, char>(&N19_G);
    h_gen_n20 => conf::<N20, char>(&N20_G);
    h_gen_n21 => conf::<N21, char>(&N21_G);
    h_gen_n22 => conf::<N22, char>(&N22_G);
    h_gen_n23 => conf::<N23, char>(&N23_G);
    h_gen_c00 => conf::<C00, char>(&C00_G);
    h_gen_c01 => conf::<C01, char>(&C01_G);
    h_gen_c02 => conf::<C02, char>(&C02_G);
    h_gen_c03 => conf::<C03, char>(&C03_G);
    h_gen_c04 => conf::<C04, char>(&C04_G);
    h_gen_c05 => conf::<C05, char>(&C05_G);
    h_gen_c06 => conf::<C06, char>(&C06_G);
    h_gen_c07 => conf::<C07, char>(&C07_G);
    h_gen_c08 => conf::<C08, char>(&C08_G);
    h_gen_c09 => conf::<C09, char>(&C09_G);
    h_gen_c10 => conf::<C10, char>(&C10_G);
    h_gen_c11 => conf::<C11, char>(&C11_G);
    h_gen_c12 => conf::<C12, char>(&C12_G);
    h_gen_c13 => conf::<C13, char>(&C13_G);
    h_gen_c14 => conf::<C14, char>(&C14_G);
    h_gen_c15 => conf::<C15, char>(&C15_G);
    h_gen_c16 => conf::<C16, char>(&C16_G);
    h_gen_c17 => conf::<C17, char>(&C17_G);
    h_gen_c18 => conf::<C18, char>(&C18_G);
    h_gen_c19 => conf::<C19, char>(&C19_G);
    h_gen_c20 => conf::<C20, char>(&C20_G);
    h_gen_c21 => conf::<C21, char>(&C21_G);
    h_gen_c22 => conf::<C22, char>(&C22_G);
    h_gen_c23 => conf::<C23, char>(&C23_G);
    h_gen_c24 => conf::<C24, char>(&C24_G);
    h_gen_c25 => conf::<C25, char>(&C25_G);
    h_gen_c26 => conf::<C26, char>(&C26_G);
    h_gen_c27 => conf::<C27, char>(&C27_G);
    h_gen_c28 => conf::<C28, char>(&C28_G);
    h_gen_c29 => conf::<C29, char>(&C29_G);
    h_gen_c30 => conf::<C30, char>(&C30_G);
    h_gen_c31 => conf::<C31, char>(&C31_G);
    h_gen_c32 => conf::<C32, char>(&C32_G);
    h_gen_c33 => conf::<C33, char>(&C33_G);
    h_gen_c34 => conf::<C34, char>(&C34_G);
    h_gen_c35 => conf::<C35, char>(&C35_G);
    h_gen_w00 => conf::<W00, char>(&W00_G);
    h_gen_w01 => conf::<W01, char>(&W01_G);
    h_gen_w02 => conf::<W02, char>(&W02_G);
    h_gen_w03 => conf::<W03, char>(&W03_G);
    h_gen_w04 => conf::<W04, char>(&W04_G);
    h_gen_w05 => conf::<W05, char>(&W05_G);
    h_gen_w06 => conf::<W06, char>(&W06_G);
    h_gen_w07 => conf::<W07, char>(&W07_G);
    h_gen_w08 => conf::<W08, char>(&W08_G);
    h_why_c00 => why::<C00, char>(&C00_G, Kind::Chars, |p| match p {
        1 => "failed to parse prefix for struct `C00`",
        10 => "failed to parse prefix for field `elem0`",
        12 => "failed to parse suffix for field `elem0`",
        11 => "failed to parse field `elem0`",
        22 => "failed to parse suffix for field `elem1`",
        21 => "failed to parse field `elem1`",
        _ => "?",
    });
    h_why_c01 => why::<C01, char>(&C01_G, Kind::Chars, |p| match p {
        1 => "failed to parse prefix for struct `C01`",
        11 => "failed to parse field `f0`",
        _ => "?",
    });
    h_why_c02 => why::<C02, char>(&C02_G, Kind::Chars, |p| match p {
        1 => "failed to parse prefix for struct `C02`",
        2 => "failed to parse suffix for struct `C02`",
        10 => "failed to parse prefix for field `f0`",
        12 => "failed to parse suffix for field `f0`",
        11 => "failed to parse field `f0`",
        _ => "?",
    });
    h_why_c03 => why::<C03, char>(&C03_G, Kind::Chars, |p| match p {
        2 => "failed to parse suffix for struct `C03`",
        10 => "failed to parse prefix for field `f0`",
        11 => "failed to parse field `f0`",
        _ => "?",
    });
    h_why_c04 => why::<C04, char>(&C04_G, Kind::Chars, |p| match p {
        1 => "failed to parse prefix for struct `C04`",
        2 => "failed to parse suffix for struct `C04`",
        10 => "failed to parse prefix for field `f0`",
        12 => "failed to parse suffix for field `f0`",
        11 => "failed to parse field `f0`",
        _ => "?",
    });
    h_why_c05 => why::<C05, char>(&C05_G, Kind::Chars, |p| match p {
        1 => "failed to parse prefix for struct `C05`",
        2 => "failed to parse suffix for struct `C05`",
        10 => "failed to parse prefix for field `f0`",
        11 => "failed to parse field `f0`",
        20 => "failed to parse prefix for field `f1`",
        22 => "failed to parse suffix for field `f1`",
        21 => "failed to parse field `f1`",
        _ => "?",
    });
    h_why_c06 => why::<C06, char>(&C06_G, Kind::Chars, |p| match p {
        1 => "failed to parse prefix for struct `C06`",
        2 => "failed to parse suffix for struct `C06`",
        11 => "failed to parse field `f0`",
        _ => "?",
    });
    h_why_c07 => why::<C07, char>(&C07_G, Kind::Chars, |p| match p {
        10 => "failed to parse prefix for field `elem0`",
        12 => "failed to parse suffix for field `elem0`",
        11 => "failed to parse field `elem0`",
        20 => "failed to parse prefix for field `elem1`",
        22 => "failed to parse suffix for field `elem1`",
        21 => "failed to parse field `elem1`",
        _ => "?",
    });
    h_why_c08 => why::<C08, char>(&C08_G, Kind::Chars, |p| match p {
        1 => "failed to parse prefix for struct `C08`",
        11 => "failed to parse field `elem0`",
        20 => "failed to parse prefix for field `elem1`",
        21 => "failed to parse field `elem1`",
        _ => "?",
    });
    h_why_c09 => why::<C09, char>(&C09_G, Kind::Chars, |p| match p {
        1 => "failed to parse prefix for struct `C09`",
        2 => "failed to parse suffix for struct `C09`",
        10 => "failed to parse prefix for field `elem0`",
        11 => "failed to parse field `elem0`",
        21 => "failed to parse field `elem1`",
        32 => "failed to parse suffix for field `elem2`",
        31 => "failed to parse field `elem2`",
        _ => "?",
    });
    h_why_c10 => why::<C10, char>(&C10_G, Kind::Chars, |p| match p {
        1 => "failed to parse prefix for struct `C10`",
        2 => "failed to parse suffix for struct `C10`",
        10 => "failed to parse prefix for field `f0`",
        11 => "failed to parse field `f0`",
        20 => "failed to parse prefix for field `f1`",
        22 => "failed to parse suffix for field `f1`",
        21 => "failed to parse field `f1`",
        _ => "?",
    });
    h_why_c11 => why::<C11, char>(&C11_G, Kind::Chars, |p| match p {
        12 => "failed to parse suffix for field `elem0`",
        11 => "failed to parse field `elem0`",
        _ => "?",
    });
    h_why_c12 => why::<C12, char>(&C12_G, Kind::Chars, |p| match p {
        12 => "failed to parse suffix for field `f0`",
        11 => "failed to parse field `f0`",
        20 => "failed to parse prefix for field `f1`",
        21 => "failed to parse field `f1`",
        _ => "?",
    });
    h_why_c13 => why::<C13, char>(&C13_G, Kind::Chars, |p| match p {
        1 => "failed to parse prefix for struct `C13`",
        10 => "failed to parse prefix for field `elem0`",
        11 => "failed to parse field `elem0`",
        _ => "?",
    });
    h_why_c14 => why::<C14, char>(&C14_G, Kind::Chars, |p| match p {
        1 => "failed to parse prefix for struct `C14`",
        10 => "failed to parse prefix for field `f0`",
        11 => "failed to parse field `f0`",
        _ => "?",
    });
    h_why_c15 => why::<C15, char>(&C15_G, Kind::Chars, |p| match p {
        1 => "failed to parse prefix for struct `C15`",
        2 => "failed to parse suffix for struct `C15`",
        10 => "failed to parse prefix for field `elem0`",
        11 => "failed to parse field `elem0`",
        20 => "failed to parse prefix for field `elem1`",
        22 => "failed to parse suffix for field `elem1`",
        21 => "failed to parse field `elem1`",
        _ => "?",
    });
    h_why_c16 => why::<C16, char>(&C16_G, Kind::Chars, |p| match p {
        1 => "failed to parse prefix for struct `C16`",
        11 => "failed to parse field `elem0`",
        20 => "failed to parse prefix for field `elem1`",
        21 => "failed to parse field `elem1`",
        _ => "?",
    });
    h_why_c17 => why::<C17, char>(&C17_G, Kind::Chars, |p| match p {
        2 => "failed to parse suffix for struct `C17`",
        10 => "failed to parse prefix for field `f0`",
        12 => "failed to parse suffix for field `f0`",
        11 => "failed to parse field `f0`",
        21 => "failed to parse field `f1`",
        32 => "failed to parse suffix for field `f2`",
        31 => "failed to parse field `f2`",
        _ => "?",
    });
    h_why_c18 => why::<C18, char>(&C18_G, Kind::Chars, |p| match p {
        11 => "failed to parse field `f0`",
        20 => "failed to parse prefix for field `f1`",
        21 => "failed to parse field `f1`",
        _ => "?",
    });
    h_why_c19 => why::<C19, char>(&C19_G, Kind::Chars, |p| match p {
        1 => "failed to parse prefix for struct `C19`",
        2 => "failed to parse suffix for struct `C19`",
        10 => "failed to parse prefix for field `f0`",
        12 => "failed to parse suffix for field `f0`",
        11 => "failed to parse field `f0`",
        21 => "failed to parse field `f1`",
        _ => "?",
    });
    h_why_c20 => why::<C20, char>(&C20_G, Kind::Chars, |p| match p {
        1 => "failed to parse prefix for struct `C20`",
        10 => "failed to parse prefix for field `f0`",
        12 => "failed to parse suffix for field `f0`",
        11 => "failed to parse field `f0`",
        _ => "?",
    });
    h_why_c21 => why::<C21, char>(&C21_G, Kind::Chars, |p| match p {
        1 => "failed to parse prefix for struct `C21`",
        2 => "failed to parse suffix for struct `C21`",
        12 => "failed to parse suffix for field `elem0`",
        11 => "failed to parse field `elem0`",
        _ => "?",
    });
    h_why_c22 => why::<C22, char>(&C22_G, Kind::Chars, |p| match p {
        1 => "failed to parse prefix for struct `C22`",
        2 => "failed to parse suffix for struct `C22`",
        10 => "failed to parse prefix for field `f0`",
        11 => "failed to parse field `f0`",
        22 => "failed to parse suffix for field `f1`",
        21 => "failed to parse field `f1`",
        32 => "failed to parse suffix for field `f2`",
        31 => "failed to parse field `f2`",
        _ => "?",
    });
    h_why_c23 => why::<C23, char>(&C23_G, Kind::Chars, |p| match p {
        1 => "failed to parse prefix for struct `C23`",
        10 => "failed to parse prefix for field `elem0`",
        12 => "failed to parse suffix for field `elem0`",
        11 => "failed to parse field `elem0`",
        20 => "failed to parse prefix for field `elem1`",
        22 => "failed to parse suffix for field `elem1`",
        21 => "failed to parse field `elem1`",
        _ => "?",
    });
    h_why_c24 => why::<C24, char>(&C24_G, Kind::Chars, |p| match p {
        1 => "failed to parse prefix for enum `C24`",
        2 => "failed to parse suffix for enum `C24`",
        3 => "no variants of C24 could be parsed",
        _ => "?",
    });
    h_why_c25 => why::<C25, char>(&C25_G, Kind::Chars, |p| match p {
        1 => "failed to parse prefix for enum `C25`",
        3 => "no variants of C25 could be parsed",
        _ => "?",
    });
    h_why_c26 => why::<C26, char>(&C26_G, Kind::Chars, |p| match p {
        2 => "failed to parse suffix for enum `C26`",
        3 => "no variants of C26 could be parsed",
        _ => "?",
    });
    h_why_c27 => why::<C27, char>(&C27_G, Kind::Chars, |p| match p {
        3 => "no variants of C27 could be parsed",
        _ => "?",
    });
    h_why_c28 => why::<C28, char>(&C28_G, Kind::Chars, |p| match p {
        1 => "failed to parse prefix for enum `C28`",
        3 => "no variants of C28 could be parsed",
        _ => "?",
    });
    h_why_c29 => why::<C29, char>(&C29_G, Kind::Chars, |p| match p {
        1 => "failed to parse prefix for enum `C29`",
        2 => "failed to parse suffix for enum `C29`",
        3 => "no variants of C29 could be parsed",
        _ => "?",
    });
    h_why_c30 => why::<C30, char>(&C30_G, Kind::Chars, |p| match p {
        1 => "failed to parse prefix for enum `C30`",
        2 => "failed to parse suffix for enum `C30`",
        3 => "no variants of C30 could be parsed",
        _ => "?",
    });
    h_why_c31 => why::<C31, char>(&C31_G, Kind::Chars, |p| match p {
        1 => "failed to parse prefix for enum `C31`",
        2 => "failed to parse suffix for enum `C31`",
        3 => "no variants of C31 could be parsed",
        _ => "?",
    });
    h_why_c32 => why::<C32, char>(&C32_G, Kind::Chars, |p| match p {
        2 => "failed to parse suffix for enum `C32`",
        3 => "no variants of C32 could be parsed",
        _ => "?",
    });
    h_why_c33 => why::<C33, char>(&C33_G, Kind::Chars, |p| match p {
        1 => "failed to parse prefix for enum `C33`",
        2 => "failed to parse suffix for enum `C33`",
        3 => "no variants of C33 could be parsed",
        _ => "?",
    });
    h_why_c34 => why::<C34, char>(&C34_G, Kind::Chars, |p| match p {
        1 => "failed to parse prefix for enum `C34`",
        2 => "failed to parse suffix for enum `C34`",
        3 => "no variants of C34 could be parsed",
        _ => "?",
    });
    h_why_c35 => why::<C35, char>(&C35_G, Kind::Chars, |p| match p {
        1 => "failed to parse prefix for enum `C35`",
        2 => "failed to parse suffix for enum `C35`",
        3 => "no variants of C35 could be parsed",
        _ => "?",
    });
    h_why_e00 => why::<E00, char>(&E00_G, Kind::Chars, |p| match p {
        3 => "no variants of E00 could be parsed",
        _ => "?",
    });
    h_why_e01 => why::<E01, char>(&E01_G, Kind::Chars, |p| match p {
        1 => "failed to parse prefix for enum `E01`",
        2 => "failed to parse suffix for enum `E01`",
        3 => "no variants of E01 could be parsed",
        _ => "?",
    });
    h_why_e02 => why::<E02, char>(&E02_G, Kind::Chars, |p| match p {
        1 => "failed to parse prefix for enum `E02`",
        2 => "failed to parse suffix for enum `E02`",
        3 => "no variants of E02 could be parsed",
        _ => "?",
    });
    h_why_e03 => why::<E03, char>(&E03_G, Kind::Chars, |p| match p {
        2 => "failed to parse suffix for enum `E03`",
        3 => "no variants of E03 could be parsed",
        _ => "?",
    });
    h_why_e04 => why::<E04, char>(&E04_G, Kind::Chars, |p| match p {
        1 => "failed to parse prefix for enum `E04`",
        2 => "failed to parse suffix for enum `E04`",
        3 => "no variants of E04 could be parsed",
        _ => "?",
    });
    h_why_e05 => why::<E05, char>(&E05_G, Kind::Chars, |p| match p {
        1 => "failed to parse prefix for enum `E05`",
        2 => "failed to parse suffix for enum `E05`",
        3 => "no variants of E05 could be parsed",
        _ => "?",
    });
    h_why_e06 => why::<E06, char>(&E06_G, Kind::Chars, |p| match p {
        2 => "failed to parse suffix for enum `E06`",
        3 => "no variants of E06 could be parsed",
        _ => "?",
    });
    h_why_e07 => why::<E07, char>(&E07_G, Kind::Chars, |p| match p {
        1 => "failed to parse prefix for enum `E07`",
        3 => "no variants of E07 could be parsed",
        _ => "?",
    });
    h_why_e08 => why::<E08, char>(&E08_G, Kind::Chars, |p| match p {
        1 => "failed to parse prefix for enum `E08`",
        2 => "failed to parse suffix for enum `E08`",
        3 => "no variants of E08 could be parsed",
        _ => "?",
    });
    h_why_e09 => why::<E09, char>(&E09_G, Kind::Chars, |p| match p {
        1 => "failed to parse prefix for enum `E09`",
        2 => "failed to parse suffix for enum `E09`",
        3 => "no variants of E09 could be parsed",
        _ => "?",
    });
    h_why_e10 => why::<E10, char>(&E10_G, Kind::Chars, |p| match p {
        1 => "failed to parse prefix for enum `E10`",
        2 => "failed to parse suffix for enum `E10`",
        3 => "no variants of E10 could be parsed",
        _ => "?",
    });
    h_why_e11 => why::<E11, char>(&E11_G, Kind::Chars, |p| match p {
        1 => "failed to parse prefix for enum `E11`",
        2 => "failed to parse suffix for enum `E11`",
        3 => "no variants of E11 could be parsed",
        _ => "?",
    });
    h_why_e12 => why::<E12, char>(&E12_G, Kind::Chars, |p| match p {
        1 => "failed to parse prefix for enum `E12`",
        2 => "failed to parse suffix for enum `E12`",
        3 => "no variants of E12 could be parsed",
        _ => "?",
    });
    h_why_e13 => why::<E13, char>(&E13_G, Kind::Chars, |p| match p {
        1 => "failed to parse prefix for enum `E13`",
        2 => "failed to parse suffix for enum `E13`",
        3 => "no variants of E13 could be parsed",
        _ => "?",
    });
    h_why_e14 => why::<E14, char>(&E14_G, Kind::Chars, |p| match p {
        1 => "failed to parse prefix for enum `E14`",
        2 => "failed to parse suffix for enum `E14`",
        3 => "no variants of E14 could be parsed",
        _ => "?",
    });
    h_why_e15 => why::<E15, char>(&E15_G, Kind::Chars, |p| match p {
        2 => "failed to parse suffix for enum `E15`",
        3 => "no variants of E15 could be parsed",
        _ => "?",
    });
    h_why_s00 => why::<G00, char>(&G00_G, Kind::Chars, |p| match p {
        1 => "failed to parse prefix for struct `G00`",
        2 => "failed to parse suffix for struct `G00`",
        11 => "failed to parse field `f0`",
        21 => "failed to parse field `f1`",
        _ => "?",
    });
    h_why_s01 => why::<G01, char>(&G01_G, Kind::Chars, |p| match p {
        1 => "failed to parse prefix for struct `G01`",
        2 => "failed to parse suffix for struct `G01`",
        10 => "failed to parse prefix for field `f0`",
        11 => "failed to parse field `f0`",
        22 => "failed to parse suffix for field `f1`",
        21 => "failed to parse field `f1`",
        31 => "failed to parse field `f2`",
        _ => "?",
    });
    h_why_s02 => why::<G02, char>(&G02_G, Kind::Chars, |p| match p {
        2 => "failed to parse suffix for struct `G02`",
        12 => "failed to parse suffix for field `elem0`",
        11 => "failed to parse field `elem0`",
        21 => "failed to parse field `elem1`",
        32 => "failed to parse suffix for field `elem2`",
        31 => "failed to parse field `elem2`",
        _ => "?",
    });
    h_why_s03 => why::<G03, char>(&G03_G, Kind::Chars, |p| match p {
        1 => "failed to parse prefix for struct `G03`",
        12 => "failed to parse suffix for field `f0`",
        11 => "failed to parse field `f0`",
        20 => "failed to parse prefix for field `f1`",
        21 => "failed to parse field `f1`",
        _ => "?",
    });
    h_why_s04 => why::<G04, char>(&G04_G, Kind::Chars, |p| match p {
        2 => "failed to parse suffix for struct `G04`",
        10 => "failed to parse prefix for field `elem0`",
        11 => "failed to parse field `elem0`",
        _ => "?",
    });
    h_why_s05 => why::<G05, char>(&G05_G, Kind::Chars, |p| match p {
        1 => "failed to parse prefix for struct `G05`",
        12 => "failed to parse suffix for field `elem0`",
        11 => "failed to parse field `elem0`",
        22 => "failed to parse suffix for field `elem1`",
        21 => "failed to parse field `elem1`",
        _ => "?",
    });
    h_why_s06 => why::<G06, char>(&G06_G, Kind::Chars, |p| match p {
        1 => "failed to parse prefix for struct `G06`",
        2 => "failed to parse suffix for struct `G06`",
        10 => "failed to parse prefix for field `f0`",
        12 => "failed to parse suffix for field `f0`",
        11 => "failed to parse field `f0`",
        22 => "failed to parse suffix for field `f1`",
        21 => "failed to parse field `f1`",
        _ => "?",
    });
    h_why_s07 => why::<G07, char>(&G07_G, Kind::Chars, |p| match p {
        1 => "failed to parse prefix for struct `G07`",
        2 => "failed to parse suffix for struct `G07`",
        _ => "?",
    });
    h_why_s08 => why::<G08, char>(&G08_G, Kind::Chars, |p| match p {
        1 => "failed to parse prefix for struct `G08`",
        10 => "failed to parse prefix for field `f0`",
        12 => "failed to parse suffix for field `f0`",
        11 => "failed to parse field `f0`",
        _ => "?",
    });
    h_why_s09 => why::<G09, char>(&G09_G, Kind::Chars, |p| match p {
        1 => "failed to parse prefix for struct `G09`",
        2 => "failed to parse suffix for struct `G09`",
        _ => "?",
    });
    h_why_s10 => why::<G10, char>(&G10_G, Kind::Chars, |p| match p {
        1 => "failed to parse prefix for struct `G10`",
        10 => "failed to parse prefix for field `f0`",
        12 => "failed to parse suffix for field `f0`",
        11 => "failed to parse field `f0`",
        22 => "failed to parse suffix for field `f1`",
        21 => "failed to parse field `f1`",
        _ => "?",
    });
    h_why_s11 => why::<G11, char>(&G11_G, Kind::Chars, |p| match p {
        2 => "failed to parse suffix for struct `G11`",
        11 => "failed to parse field `elem0`",
        20 => "failed to parse prefix for field `elem1`",
        22 => "failed to parse suffix for field `elem1`",
        21 => "failed to parse field `elem1`",
        _ => "?",
    });
    h_why_s12 => why::<G12, char>(&G12_G, Kind::Chars, |p| match p {
        1 => "failed to parse prefix for struct `G12`",
        2 => "failed to parse suffix for struct `G12`",
        12 => "failed to parse suffix for field `elem0`",
        11 => "failed to parse field `elem0`",
        20 => "failed to parse prefix for field `elem1`",
        21 => "failed to parse field `elem1`",
        _ => "?",
    });
    h_why_s13 => why::<G13, char>(&G13_G, Kind::Chars, |p| match p {
        1 => "failed to parse prefix for struct `G13`",
        _ => "?",
    });
    h_why_s14 => why::<G14, char>(&G14_G, Kind::Chars, |p| match p {
        1 => "failed to parse prefix for struct `G14`",
        _ => "?",
    });
    h_why_s15 => why::<G15, char>(&G15_G, Kind::Chars, |p| match p {
        11 => "failed to parse field `elem0`",
        20 => "failed to parse prefix for field `elem1`",
        21 => "failed to parse field `elem1`",
        _ => "?",
    });
    h_why_s16 => why::<G16, char>(&G16_G, Kind::Chars, |p| match p {
        1 => "failed to parse prefix for struct `G16`",
        12 => "failed to parse suffix for field `elem0`",
        11 => "failed to parse field `elem0`",
        20 => "failed to parse prefix for field `elem1`",
        21 => "failed to parse field `elem1`",
        30 => "failed to parse prefix for field `elem2`",
        32 => "failed to parse suffix for field `elem2`",
        31 => "failed to parse field `elem2`",
        _ => "?",
    });
    h_why_s17 => why::<G17, char>(&G17_G, Kind::Chars, |p| match p {
        1 => "failed to parse prefix for struct `G17`",
        2 => "failed to parse suffix for struct `G17`",
        10 => "failed to parse prefix for field `elem0`",
        12 => "failed to parse suffix for field `elem0`",
        11 => "failed to parse field `elem0`",
        _ => "?",
    });
    h_why_s18 => why::<G18, char>(&G18_G, Kind::Chars, |p| match p {
        1 => "failed to parse prefix for struct `G18`",
        2 => "failed to parse suffix for struct `G18`",
        11 => "failed to parse field `f0`",
        _ => "?",
    });
    h_why_s19 => why::<G19, char>(&G19_G, Kind::Chars, |p| match p {
        1 => "failed to parse prefix for struct `G19`",
        12 => "failed to parse suffix for field `f0`",
        11 => "failed to parse field `f0`",
        20 => "failed to parse prefix for field `f1`",
        22 => "failed to parse suffix for field `f1`",
        21 => "failed to parse field `f1`",
        _ => "?",
    });
    h_why_s20 => why::<G20, char>(&G20_G, Kind::Chars, |p| match p {
        1 => "failed to parse prefix for struct `G20`",
        10 => "failed to parse prefix for field `elem0`",
        12 => "failed to parse suffix for field `elem0`",
        11 => "failed to parse field `elem0`",
        20 => "failed to parse prefix for field `elem1`",
        21 => "failed to parse field `elem1`",
        _ => "?",
    });
    h_why_s21 => why::<G21, char>(&G21_G, Kind::Chars, |p| match p {
        2 => "failed to parse suffix for struct `G21`",
        10 => "failed to parse prefix for field `f0`",
        11 => "failed to parse field `f0`",
        20 => "failed to parse prefix for field `f1`",
        22 => "failed to parse suffix for field `f1`",
        21 => "failed to parse field `f1`",
        32 => "failed to parse suffix for field `f2`",
        31 => "failed to parse field `f2`",
        _ => "?",
    });
    h_why_s22 => why::<G22, char>(&G22_G, Kind::Chars, |p| match p {
        1 => "failed to parse prefix for struct `G22`",
        2 => "failed to parse suffix for struct `G22`",
        _ => "?",
    });
    h_why_s23 => why::<G23, char>(&G23_G, Kind::Chars, |p| match p {
        2 => "failed to parse suffix for struct `G23`",
        11 => "failed to parse field `f0`",
        21 => "failed to parse field `f1`",
        31 => "failed to parse field `f2`",
        _ => "?",
    });
    h_why_s24 => why::<G24, char>(&G24_G, Kind::Chars, |p| match p {
        10 => "failed to parse prefix for field `f0`",
        12 => "failed to parse suffix for field `f0`",
        11 => "failed to parse field `f0`",
        20 => "failed to parse prefix for field `f1`",
        21 => "failed to parse field `f1`",
        _ => "?",
    });
    h_why_s25 => why::<G25, char>(&G25_G, Kind::Chars, |p| match p {
        12 => "failed to parse suffix for field `elem0`",
        11 => "failed to parse field `elem0`",
        _ => "?",
    });
    h_why_s26 => why::<G26, char>(&G26_G, Kind::Chars, |p| match p {
        1 => "failed to parse prefix for struct `G26`",
        2 => "failed to parse suffix for struct `G26`",
        10 => "failed to parse prefix for field `f0`",
        11 => "failed to parse field `f0`",
        21 => "failed to parse field `f1`",
        30 => "failed to parse prefix for field `f2`",
        31 => "failed to parse field `f2`",
        40 => "failed to parse prefix for field `f3`",
        41 => "failed to parse field `f3`",
        52 => "failed to parse suffix for field `f4`",
        51 => "failed to parse field `f4`",
        _ => "?",
    });
    h_why_s27 => why::<G27, char>(&G27_G, Kind::Chars, |p| match p {
        1 => "failed to parse prefix for struct `G27`",
        10 => "failed to parse prefix for field `elem0`",
        12 => "failed to parse suffix for field `elem0`",
        11 => "failed to parse field `elem0`",
        22 => "failed to parse suffix for field `elem1`",
        21 => "failed to parse field `elem1`",
        30 => "failed to parse prefix for field `elem2`",
        32 => "failed to parse suffix for field `elem2`",
        31 => "failed to parse field `elem2`",
        40 => "failed to parse prefix for field `elem3`",
        42 => "failed to parse suffix for field `elem3`",
        41 => "failed to parse field `elem3`",
        50 => "failed to parse prefix for field `elem4`",
        51 => "failed to parse field `elem4`",
        _ => "?",
    });
    h_why_n00 => why::<N00, char>(&N00_G, Kind::Chars, |p| match p {
        1 => "failed to parse prefix for struct `N00`",
        2 => "failed to parse suffix for struct `N00`",
        10 => "failed to parse prefix for field `f0`",
        11 => "failed to parse field `f0`",
        1101 => "failed to parse prefix for struct `G17`",
        1102 => "failed to parse suffix for struct `G17`",
        1110 => "failed to parse prefix for field `elem0`",
        1112 => "failed to parse suffix for field `elem0`",
        1111 => "failed to parse field `elem0`",
        _ => "?",
    });
    h_why_n01 => why::<N01, char>(&N01_G, Kind::Chars, |p| match p {
        10 => "failed to parse prefix for field `elem0`",
        11 => "failed to parse field `elem0`",
        1101 => "failed to parse prefix for struct `G01`",
        1102 => "failed to parse suffix for struct `G01`",
        1110 => "failed to parse prefix for field `f0`",
        1111 => "failed to parse field `f0`",
        1122 => "failed to parse suffix for field `f1`",
        1121 => "failed to parse field `f1`",
        1131 => "failed to parse field `f2`",
        _ => "?",
    });
    h_why_n02 => why::<N02, char>(&N02_G, Kind::Chars, |p| match p {
        11 => "failed to parse field `elem0`",
        1101 => "failed to parse prefix for struct `G09`",
        1102 => "failed to parse suffix for struct `G09`",
        21 => "failed to parse field `elem1`",
        _ => "?",
    });
    h_why_n03 => why::<N03, char>(&N03_G, Kind::Chars, |p| match p {
        1 => "failed to parse prefix for struct `N03`",
        2 => "failed to parse suffix for struct `N03`",
        10 => "failed to parse prefix for field `elem0`",
        12 => "failed to parse suffix for field `elem0`",
        11 => "failed to parse field `elem0`",
        1101 => "failed to parse prefix for struct `G19`",
        1112 => "failed to parse suffix for field `f0`",
        1111 => "failed to parse field `f0`",
        1120 => "failed to parse prefix for field `f1`",
        1122 => "failed to parse suffix for field `f1`",
        1121 => "failed to parse field `f1`",
        _ => "?",
    });
    h_why_n04 => why::<N04, char>(&N04_G, Kind::Chars, |p| match p {
        2 => "failed to parse suffix for struct `N04`",
        10 => "failed to parse prefix for field `elem0`",
        12 => "failed to parse suffix for field `elem0`",
        11 => "failed to parse field `elem0`",
        1101 => "failed to parse prefix for struct `G07`",
        1102 => "failed to parse suffix for struct `G07`",
        _ => "?",
    });
    h_why_n05 => why::<N05, char>(&N05_G, Kind::Chars, |p| match p {
        1 => "failed to parse prefix for struct `N05`",
        12 => "failed to parse suffix for field `elem0`",
        11 => "failed to parse field `elem0`",
        _ => "?",
    });
    h_why_n06 => why::<N06, char>(&N06_G, Kind::Chars, |p| match p {
        1 => "failed to parse prefix for struct `N06`",
        2 => "failed to parse suffix for struct `N06`",
        10 => "failed to parse prefix for field `elem0`",
        12 => "failed to parse suffix for field `elem0`",
        11 => "failed to parse field `elem0`",
        20 => "failed to parse prefix for field `elem1`",
        21 => "failed to parse field `elem1`",
        _ => "?",
    });
    h_why_n07 => why::<N07, char>(&N07_G, Kind::Chars, |p| match p {
        1 => "failed to parse prefix for struct `N07`",
        2 => "failed to parse suffix for struct `N07`",
        10 => "failed to parse prefix for field `elem0`",
        12 => "failed to parse suffix for field `elem0`",
        11 => "failed to parse field `elem0`",
        20 => "failed to parse prefix for field `elem1`",
        21 => "failed to parse field `elem1`",
        _ => "?",
    });
    h_why_n08 => why::<N08, char>(&N08_G, Kind::Chars, |p| match p {
        1 => "failed to parse prefix for struct `N08`",
        2 => "failed to parse suffix for struct `N08`",
        10 => "failed to parse prefix for field `elem0`",
        11 => "failed to parse field `elem0`",
        1101 => "failed to parse prefix for struct `G12`",
        1102 => "failed to parse suffix for struct `G12`",
        1112 => "failed to parse suffix for field `elem0`",
        1111 => "failed to parse field `elem0`",
        1120 => "failed to parse prefix for field `elem1`",
        1121 => "failed to parse field `elem1`",
        _ => "?",
    });
    h_why_n09 => why::<N09, char>(&N09_G, Kind::Chars, |p| match p {
        2 => "failed to parse suffix for struct `N09`",
        10 => "failed to parse prefix for field `elem0`",
        12 => "failed to parse suffix for field `elem0`",
        11 => "failed to parse field `elem0`",
        1101 => "failed to parse prefix for struct `G08`",
        1110 => "failed to parse prefix for field `f0`",
        1112 => "failed to parse suffix for field `f0`",
        1111 => "failed to parse field `f0`",
        21 => "failed to parse field `elem1`",
        2101 => "failed to parse prefix for struct `G07`",
        2102 => "failed to parse suffix for struct `G07`",
        _ => "?",
    });
    h_why_n10 => why::<N10, char>(&N10_G, Kind::Chars, |p| match p {
        2 => "failed to parse suffix for struct `N10`",
        12 => "failed to parse suffix for field `f0`",
        11 => "failed to parse field `f0`",
        1101 => "failed to parse prefix for struct `G09`",
        1102 => "failed to parse suffix for struct `G09`",
        20 => "failed to parse prefix for field `f1`",
        21 => "failed to parse field `f1`",
        _ => "?",
    });
    h_why_n11 => why::<N11, char>(&N11_G, Kind::Chars, |p| match p {
        1 => "failed to parse prefix for struct `N11`",
        2 => "failed to parse suffix for struct `N11`",
        12 => "failed to parse suffix for field `f0`",
        11 => "failed to parse field `f0`",
        1111 => "failed to parse field `elem0`",
        1120 => "failed to parse prefix for field `elem1`",
        1121 => "failed to parse field `elem1`",
        20 => "failed to parse prefix for field `f1`",
        21 => "failed to parse field `f1`",
        2102 => "failed to parse suffix for struct `G02`",
        2112 => "failed to parse suffix for field `elem0`",
        2111 => "failed to parse field `elem0`",
        2121 => "failed to parse field `elem1`",
        2132 => "failed to parse suffix for field `elem2`",
        2131 => "failed to parse field `elem2`",
        _ => "?",
    });
    h_why_n12 => why::<N12, char>(&N12_G, Kind::Chars, |p| match p {
        2 => "failed to parse suffix for struct `N12`",
        12 => "failed to parse suffix for field `elem0`",
        11 => "failed to parse field `elem0`",
        1102 => "failed to parse suffix for struct `G11`",
        1111 => "failed to parse field `elem0`",
        1120 => "failed to parse prefix for field `elem1`",
        1122 => "failed to parse suffix for field `elem1`",
        1121 => "failed to parse field `elem1`",
        _ => "?",
    });
    h_why_n13 => why::<N13, char>(&N13_G, Kind::Chars, |p| match p {
        1 => "failed to parse prefix for struct `N13`",
        2 => "failed to parse suffix for struct `N13`",
        10 => "failed to parse prefix for field `f0`",
        12 => "failed to parse suffix for field `f0`",
        11 => "failed to parse field `f0`",
        21 => "failed to parse field `f1`",
        2101 => "failed to parse prefix for struct `G09`",
        2102 => "failed to parse suffix for struct `G09`",
        _ => "?",
    });
    h_why_n14 => why::<N14, char>(&N14_G, Kind::Chars, |p| match p {
        1 => "failed to parse prefix for struct `N14`",
        11 => "failed to parse field `elem0`",
        _ => "?",
    });
    h_why_n15 => why::<N15, char>(&N15_G, Kind::Chars, |p| match p {
        1 => "failed to parse prefix for struct `N15`",
        2 => "failed to parse suffix for struct `N15`",
        10 => "failed to parse prefix for field `elem0`",
        12 => "failed to parse suffix for field `elem0`",
        11 => "failed to parse field `elem0`",
        20 => "failed to parse prefix for field `elem1`",
        22 => "failed to parse suffix for field `elem1`",
        21 => "failed to parse field `elem1`",
        2101 => "failed to parse prefix for struct `G20`",
        2110 => "failed to parse prefix for field `elem0`",
        2112 => "failed to parse suffix for field `elem0`",
        2111 => "failed to parse field `elem0`",
        2120 => "failed to parse prefix for field `elem1`",
        2121 => "failed to parse field `elem1`",
        _ => "?",
    });
    h_why_n16 => why::<N16, char>(&N16_G, Kind::Chars, |p| match p {
        1 => "failed to parse prefix for struct `N16`",
        2 => "failed to parse suffix for struct `N16`",
        10 => "failed to parse prefix for field `elem0`",
        12 => "failed to parse suffix for field `elem0`",
        11 => "failed to parse field `elem0`",
        _ => "?",
    });
    h_why_n17 => why::<N17, char>(&N17_G, Kind::Chars, |p| match p {
        10 => "failed to parse prefix for field `f0`",
        11 => "failed to parse field `f0`",
        1101 => "failed to parse prefix for struct `G05`",
        1112 => "failed to parse suffix for field `elem0`",
        1111 => "failed to parse field `elem0`",
        1122 => "failed to parse suffix for field `elem1`",
        1121 => "failed to parse field `elem1`",
        _ => "?",
    });
    h_why_n18 => why::<N18, char>(&N18_G, Kind::Chars, |p| match p {
        1 => "failed to parse prefix for struct `N18`",
        2 => "failed to parse suffix for struct `N18`",
        10 => "failed to parse prefix for field `elem0`",
        12 => "failed to parse suffix for field `elem0`",
        11 => "failed to parse field `elem0`",
        1101 => "failed to parse prefix for enum `E07`",
        1103 => "no variants of E07 could be parsed",
        _ => "?",
    });
    h_why_n19 => why::<N19, char>(&N19_G, Kind::Chars, |p| match p {
        1 => "failed to parse prefix for struct `N19`",
        2 => "failed to parse suffix for struct `N19`",
        11 => "failed to parse field `f0`",
        1101 => "failed to parse prefix for enum `E05`",
        1102 => "failed to parse suffix for enum `E05`",
        1103 => "no variants of E05 could be parsed",
        20 => "failed to parse prefix for field `f1`",
        21 => "failed to parse field `f1`",
        2101 => "failed to parse prefix for enum `E01`",
        2102 => "failed to parse suffix for enum `E01`",
        2103 => "no variants of E01 could be parsed",
        _ => "?",
    });
    h_why_n20 => why::<N20, char>(&N20_G, Kind::Chars, |p| match p {
        10 => "failed to parse prefix for field `elem0`",
        12 => "failed to parse suffix for field `elem0`",
        11 => "failed to parse field `elem0`",
        1101 => "failed to parse prefix for struct `N03`",
        1102 => "failed to parse suffix for struct `N03`",
        1110 => "failed to parse prefix for field `elem0`",
        1112 => "failed to parse suffix for field `elem0`",
        1111 => "failed to parse field `elem0`",
        111101 => "failed to parse prefix for struct `G19`",
        111112 => "failed to parse suffix for field `f0`",
        111111 => "failed to parse field `f0`",
        111120 => "failed to parse prefix for field `f1`",
        111122 => "failed to parse suffix for field `f1`",
        111121 => "failed to parse field `f1`",
        _ => "?",
    });
    h_why_n21 => why::<N21, char>(&N21_G, Kind::Chars, |p| match p {
        1 => "failed to parse prefix for struct `N21`",
        10 => "failed to parse prefix for field `elem0`",
        12 => "failed to parse suffix for field `elem0`",
        11 => "failed to parse field `elem0`",
        20 => "failed to parse prefix for field `elem1`",
        22 => "failed to parse suffix for field `elem1`",
        21 => "failed to parse field `elem1`",
        2102 => "failed to parse suffix for struct `N04`",
        2110 => "failed to parse prefix for field `elem0`",
        2112 => "failed to parse suffix for field `elem0`",
        2111 => "failed to parse field `elem0`",
        211101 => "failed to parse prefix for struct `G07`",
        211102 => "failed to parse suffix for struct `G07`",
        _ => "?",
    });
    h_why_n22 => why::<N22, char>(&N22_G, Kind::Chars, |p| match p {
        1 => "failed to parse prefix for struct `N22`",
        2 => "failed to parse suffix for struct `N22`",
        11 => "failed to parse field `elem0`",
        1101 => "failed to parse prefix for struct `N05`",
        1112 => "failed to parse suffix for field `elem0`",
        1111 => "failed to parse field `elem0`",
        _ => "?",
    });
    h_why_n23 => why::<N23, char>(&N23_G, Kind::Chars, |p| match p {
        1 => "failed to parse prefix for struct `N23`",
        2 => "failed to parse suffix for struct `N23`",
        12 => "failed to parse suffix for field `elem0`",
        11 => "failed to parse field `elem0`",
        1101 => "failed to parse prefix for struct `N15`",
        1102 => "failed to parse suffix for struct `N15`",
        1110 => "failed to parse prefix for field `elem0`",
        1112 => "failed to parse suffix for field `elem0`",
        1111 => "failed to parse field `elem0`",
        1120 => "failed to parse prefix for field `elem1`",
        1122 => "failed to parse suffix for field `elem1`",
        1121 => "failed to parse field `elem1`",
        112101 => "failed to parse prefix for struct `G20`",
        112110 => "failed to parse prefix for field `elem0`",
        112112 => "failed to parse suffix for field `elem0`",
        112111 => "failed to parse field `elem0`",
        112120 => "failed to parse prefix for field `elem1`",
        112121 => "failed to parse field `elem1`",
        21 => "failed to parse field `elem1`",
        _ => "?",
    });
    h_why_w00 => why::<W00, char>(&W00_G, Kind::Chars, |p| match p {
        11 => "failed to parse field `elem0`",
        21 => "failed to parse field `elem1`",
        31 => "failed to parse field `elem2`",
        41 => "failed to parse field `elem3`",
        51 => "failed to parse field `elem4`",
        61 => "failed to parse field `elem5`",
        71 => "failed to parse field `elem6`",
        81 => "failed to parse field `elem7`",
        91 => "failed to parse field `elem8`",
        101 => "failed to parse field `elem9`",
        111 => "failed to parse field `elem10`",
        121 => "failed to parse field `elem11`",
        131 => "failed to parse field `elem12`",
        _ => "?",
    });
    h_why_w01 => why::<W01, char>(&W01_G, Kind::Chars, |p| match p {
        1 => "failed to parse prefix for struct `W01`",
        2 => "failed to parse suffix for struct `W01`",
        11 => "failed to parse field `f0`",
        20 => "failed to parse prefix for field `f1`",
        22 => "failed to parse suffix for field `f1`",
        21 => "failed to parse field `f1`",
        32 => "failed to parse suffix for field `f2`",
        31 => "failed to parse field `f2`",
        40 => "failed to parse prefix for field `f3`",
        41 => "failed to parse field `f3`",
        52 => "failed to parse suffix for field `f4`",
        51 => "failed to parse field `f4`",
        60 => "failed to parse prefix for field `f5`",
        62 => "failed to parse suffix for field `f5`",
        61 => "failed to parse field `f5`",
        71 => "failed to parse field `f6`",
        80 => "failed to parse prefix for field `f7`",
        82 => "failed to parse suffix for field `f7`",
        81 => "failed to parse field `f7`",
        92 => "failed to parse suffix for field `f8`",
        91 => "failed to parse field `f8`",
        100 => "failed to parse prefix for field `f9`",
        101 => "failed to parse field `f9`",
        112 => "failed to parse suffix for field `f10`",
        111 => "failed to parse field `f10`",
        120 => "failed to parse prefix for field `f11`",
        122 => "failed to parse suffix for field `f11`",
        121 => "failed to parse field `f11`",
        131 => "failed to parse field `f12`",
        _ => "?",
    });
    h_why_w02 => why::<W02, char>(&W02_G, Kind::Chars, |p| match p {
        11 => "failed to parse field `f0`",
        21 => "failed to parse field `f1`",
        31 => "failed to parse field `f2`",
        41 => "failed to parse field `f3`",
        51 => "failed to parse field `f4`",
        61 => "failed to parse field `f5`",
        71 => "failed to parse field `f6`",
        81 => "failed to parse field `f7`",
        91 => "failed to parse field `f8`",
        101 => "failed to parse field `f9`",
        111 => "failed to parse field `f10`",
        121 => "failed to parse field `f11`",
        131 => "failed to parse field `f12`",
        _ => "?",
    });
    h_why_w03 => why::<W03, char>(&W03_G, Kind::Chars, |p| match p {
        11 => "failed to parse field `elem0`",
        21 => "failed to parse field `elem1`",
        _ => "?",
    });
    h_why_w04 => why::<W04, char>(&W04_G, Kind::Chars, |p| match p {
        10 => "failed to parse prefix for field `elem0`",
        12 => "failed to parse suffix for field `elem0`",
        11 => "failed to parse field `elem0`",
        20 => "failed to parse prefix for field `elem1`",
        22 => "failed to parse suffix for field `elem1`",
        21 => "failed to parse field `elem1`",
        30 => "failed to parse prefix for field `elem2`",
        32 => "failed to parse suffix for field `elem2`",
        31 => "failed to parse field `elem2`",
        40 => "failed to parse prefix for field `elem3`",
        42 => "failed to parse suffix for field `elem3`",
        41 => "failed to parse field `elem3`",
        50 => "failed to parse prefix for field `elem4`",
        52 => "failed to parse suffix for field `elem4`",
        51 => "failed to parse field `elem4`",
        _ => "?",
    });
    h_why_w05 => why::<W05, char>(&W05_G, Kind::Chars, |p| match p {
        3 => "no variants of W05 could be parsed",
        _ => "?",
    });
    h_why_w06 => why::<W06, char>(&W06_G, Kind::Chars, |p| match p {
        1 => "failed to parse prefix for enum `W06`",
        2 => "failed to parse suffix for enum `W06`",
        3 => "no variants of W06 could be parsed",
        _ => "?",
    });
    h_why_w07 => why::<W07, char>(&W07_G, Kind::Chars, |p| match p {
        3 => "no variants of W07 could be parsed",
        _ => "?",
    });
    h_why_w08 => why::<W08, char>(&W08_G, Kind::Chars, |p| match p {
        3 => "no variants of W08 could be parsed",
        _ => "?",
    });
}
