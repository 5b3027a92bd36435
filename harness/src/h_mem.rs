//! Heap-owning elements and conversions.
use crate::conf::*;
use crate::spec::G::{self, *};
use crate::spec::*;
use crate::vp;
use nommy::{text::*, Parse, Vec1};
use std::convert::TryFrom;

/// an element that owns memory, and fails after having allocated
pub struct Own(Box<u32>, String);
impl Parse<char> for Own {
    fn parse(input: &mut impl nommy::Buffer<char>) -> nommy::eyre::Result<Self> {
        let b = Box::new(7);
        let mut s = String::from("x");
        match input.next() {
            Some('a') => Ok(Own(b, s)),
            Some('b') => match input.next() {
                Some('c') => {
                    s.push('c');
                    Ok(Own(b, s))
                }
                _ => Err(nommy::eyre::eyre!("b without c")),
            },
            _ => Err(nommy::eyre::eyre!("neither")),
        }
    }
}
impl Log for Own { fn log(self, o: &mut Vec<u32>) { o.push(*self.0); o.push(self.1.len() as u32) } }

#[derive(Parse)]
#[nommy(parse_type = char)]
pub struct Owner {
    a: Own,
    #[nommy(prefix = Tag<"-">)]
    b: Vec<Own>,
    #[nommy(prefix = Tag<"-">, inner_parser = Own, seperated_by = Tag<",">, trailing = "yes")]
    c: Vec<Own>,
    d: Option<[Box<Own>; 2]>,
}
impl Log for Owner { fn log(self, o: &mut Vec<u32>) { self.a.log(o); self.b.log(o); self.c.log(o); self.d.log(o) } }
#[derive(Parse)]
#[nommy(parse_type = char)]
pub enum Owns {
    Two([Own; 2], Tag<"-">),
    Many(Vec1<Own>, Tag<"!">),
    One { own: Own },
}
impl Log for Owns {
    fn log(self, o: &mut Vec<u32>) {
        match self {
            Owns::Two(a, _) => a.log(o),
            Owns::Many(a, _) => a.log(o),
            Owns::One { own } => own.log(o),
        }
    }
}

/// digits after a fixed beginning: value or error, never a panic
/// params: 0 number of free digits, 1 which beginning
fn to_usize() {
    let head = ["", "0000000000000000000000", "1844674407370955", "18446744073709551615", "+", "9999999999999999999"][vp::param(1)];
    let n = vp::pick(0, vp::param(0) as u64);
    let mut d: Vec<char> = Vec::with_capacity(n + 24);
    for c in head.chars() { d.push(c) }
    let mut i = 0;
    while i < n { d.push(vp::char_in(0x30, 0x39)); i += 1; }
    let r = nommy::parse::<AnyOf1<"0123456789+">, _>(d.clone());
    match r {
        Err(_) => vp::check(d.len() == 0, "a run of digits is accepted"),
        Ok(p) => {
            let want = number(&d).ok();
            match (usize::try_from(p), want) {
                (Ok(v), Some(w)) => { vp::cover(1); vp::check(v as u64 == w, "the number is the value of its digits") }
                (Err(_), None) => vp::cover(2),
                (Ok(_), None) => vp::check(false, "a number that does not fit is an error"),
                (Err(_), Some(_)) => vp::check(false, "a number that fits is converted"),
            }
        }
    }
}

static NOTHING: G = Lit("");
macro_rules! leaks { ($t:ty) => { conf::<$t, char>(&NOTHING) } }
crate::harnesses! {
    h_own => leaks!(Own);
    h_own_opt => leaks!(Option<Own>);
    h_own_vec => leaks!(Vec<Own>);
    h_own_vec1 => leaks!(Vec1<Own>);
    h_own_arr => leaks!([Own; 3]);
    h_own_box_arr => leaks!(Box<[Box<Own>; 2]>);
    h_own_vec_arr => leaks!(Vec<[Own; 2]>);
    h_own_struct => leaks!(Owner);
    h_own_enum => leaks!(Owns);
    h_to_usize => to_usize();
}
