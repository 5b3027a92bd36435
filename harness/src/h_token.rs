//! Parsers over item types other than char and u8: a user's token enum, and items that own heap memory.
use crate::conf::*;
use crate::spec::Trail::*;
use crate::spec::G::{self, *};
use crate::spec::*;
use crate::vp;
use nommy::{eyre, Buffer, Parse, Vec1};

#[derive(Clone, PartialEq)]
pub enum Tok { Open, Close, Comma, Gap, Name(u8) }
impl Item for Tok {
    fn sym(_: usize) -> Tok {
        match vp::pick(0, 4) {
            0 => Tok::Open,
            1 => Tok::Close,
            2 => Tok::Comma,
            3 => Tok::Gap,
            _ => Tok::Name(vp::byte() & 0x7f),
        }
    }
    // names map to chars above the ASCII punctuation used for the rest
    fn ch(&self) -> char {
        match self {
            Tok::Open => '(',
            Tok::Close => ')',
            Tok::Comma => ',',
            Tok::Gap => ' ',
            Tok::Name(b) => (0x80 + (*b & 0x7f)) as char,
        }
    }
    fn of(c: u8) -> Tok {
        match c {
            b'(' => Tok::Open,
            b')' => Tok::Close,
            b',' => Tok::Comma,
            b' ' => Tok::Gap,
            c => Tok::Name(c & 0x7f),
        }
    }
}
/// exactly one token, with the default `peek`
pub struct Is<const C: char>;
impl<const C: char> Parse<Tok> for Is<C> {
    fn parse(input: &mut impl Buffer<Tok>) -> eyre::Result<Self> {
        match input.next() {
            Some(t) if t.ch() == C => Ok(Self),
            _ => Err(eyre::eyre!("another token")),
        }
    }
}
impl<const C: char> Log for Is<C> { fn log(self, o: &mut Vec<u32>) { o.push(M_UNIT) } }
/// a name below 2, with the default `peek`
pub struct Name(u8);
impl Parse<Tok> for Name {
    fn parse(input: &mut impl Buffer<Tok>) -> eyre::Result<Self> {
        match input.next() {
            Some(Tok::Name(n)) if n < 2 => Ok(Name(n)),
            _ => Err(eyre::eyre!("not a name")),
        }
    }
}
impl Log for Name { fn log(self, o: &mut Vec<u32>) { o.push(0x80 + self.0 as u32) } }
impl From<Name> for u8 { fn from(n: Name) -> u8 { n.0 } }

#[derive(Parse)]
#[nommy(parse_type = Tok, ignore = Is<' '>, prefix = Is<'('>, suffix = Is<')'>)]
pub struct Call {
    head: Name,
    #[nommy(inner_parser = Name, seperated_by = Is<','>, trailing = "maybe")]
    args: Vec<Name>,
}
impl Log for Call { fn log(self, o: &mut Vec<u32>) { o.push(M_SEQ); self.head.log(o); self.args.log(o); o.push(M_END) } }
#[derive(Parse)]
#[nommy(parse_type = Tok)]
pub enum Node {
    Pair([Name; 2]),
    Call(Box<Call>),
    Names(Vec1<Name>, Option<Is<','>>),
}
impl Log for Node {
    fn log(self, o: &mut Vec<u32>) {
        match self {
            Node::Pair(a) => { o.push(M_VAR); a.log(o) }
            Node::Call(c) => { o.push(M_VAR + 1); c.log(o) }
            Node::Names(v, t) => { o.push(M_VAR + 2); v.log(o); t.log(o) }
        }
        o.push(M_END)
    }
}
static NAME: G = One("\u{80}\u{81}");
static COMMA: G = Lit(",");
static SP: G = Lit(" ");
static OPEN: G = Lit("(");
static CLOSE: G = Lit(")");
static CALL: G = Seq(&S {
    ign: &[&SP],
    pre: Some(&OPEN),
    fields: &[f(&NAME), F { pre: None, p: &NAME, suf: None, list: Some(L { sep: Some(&COMMA), trail: Maybe }) }],
    suf: Some(&CLOSE),
});
static TWO: G = Rep(2, &NAME);
static NAMES: G = Many1(&NAME);
static COMMA_OPT: G = Opt(&COMMA);
static NODE: G = Alt(&A {
    ign: &[],
    pre: None,
    vars: &[
        &S { ign: &[], pre: None, fields: &[f(&TWO)], suf: None },
        &S { ign: &[], pre: None, fields: &[f(&CALL)], suf: None },
        &S { ign: &[], pre: None, fields: &[f(&NAMES), f(&COMMA_OPT)], suf: None },
    ],
    suf: None,
});

/// an item that owns memory
#[derive(Clone, PartialEq)]
pub struct Heap(Box<u8>);
impl Item for Heap {
    fn sym(_: usize) -> Heap { Heap(Box::new(vp::byte())) }
    fn ch(&self) -> char { *self.0 as char }
    fn of(c: u8) -> Heap { Heap(Box::new(c)) }
}
pub struct Low(Heap);
impl Parse<Heap> for Low {
    fn parse(input: &mut impl Buffer<Heap>) -> eyre::Result<Self> {
        match input.next() {
            Some(h) => if *h.0 < 2 { Ok(Low(h)) } else { Err(eyre::eyre!("high")) },
            None => Err(eyre::eyre!("end")),
        }
    }
    fn peek(input: &mut impl Buffer<Heap>) -> bool {
        let r = match input.peek_ahead(0) { Some(h) => *h.0 < 2, None => false };
        if r { input.fast_forward(1) }
        r
    }
}
impl Log for Low { fn log(self, o: &mut Vec<u32>) { o.push(*(self.0).0 as u32) } }
static LOW: G = One("\u{0}\u{1}");
static LOW2: G = Rep(2, &LOW);
static LOWS: G = Many(&LOW2);

crate::harnesses! {
    h_tok_call => conf::<Call, Tok>(&CALL);
    h_tok_node => conf::<Node, Tok>(&NODE);
    h_tok_vec => conf::<Vec<Name>, Tok>(&Many(&NAME));
    h_heap_vec => conf::<Vec<Low>, Heap>(&Many(&LOW));
    h_heap_opt => conf::<Option<Low>, Heap>(&Opt(&LOW));
    h_heap_pairs => conf::<Vec<[Low; 2]>, Heap>(&LOWS);
}
