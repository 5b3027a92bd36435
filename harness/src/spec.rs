//! Reference semantics, independent of nommy: a grammar as data and a recogniser over a slice.
//! `run` returns the position after the match; the matched value goes to `out` as a flat log.

pub enum G {
    /// one item of the set
    One(&'static str),
    /// exactly these items
    Lit(&'static str),
    /// the longest run (possibly empty / non-empty) of items of the set
    Any(&'static str),
    Any1(&'static str),
    /// the longest non-empty run of items outside the set
    Not1(&'static str),
    /// over bytes
    OneB(&'static [u8]),
    LitB(&'static [u8]),
    Any1B(&'static [u8]),
    Eol,
    Sp,
    Ws,
    Opt(&'static G),
    Many(&'static G),
    Many1(&'static G),
    Rep(usize, &'static G),
    Seq(&'static S),
    /// a struct of one field, given as that field's value
    Bare(&'static S),
    Alt(&'static A),
    /// non-empty digit run read as usize; the conversion may fail
    Num(&'static str),
    /// like Any1, logged as bytes read as chars
    Quoted(char),
}
/// The parts of a derived struct or variant; the ignored grammars are skipped, repeatedly, after
/// every part (prefix, field prefix, field, field suffix, suffix).
pub struct S { pub ign: &'static [&'static G], pub pre: Option<&'static G>, pub fields: &'static [F], pub suf: Option<&'static G> }
pub struct A { pub ign: &'static [&'static G], pub pre: Option<&'static G>, pub vars: &'static [&'static S], pub suf: Option<&'static G> }
pub struct F { pub pre: Option<&'static G>, pub p: &'static G, pub suf: Option<&'static G>, pub list: Option<L> }
pub struct L { pub sep: Option<&'static G>, pub trail: Trail }
#[derive(Clone, Copy, PartialEq)]
pub enum Trail { No, Yes, Maybe }

/// a field with no attributes
pub const fn f(p: &'static G) -> F { F { pre: None, p, suf: None, list: None } }

#[derive(Clone, Copy, PartialEq)]
pub enum Stop {
    Miss,
    /// the text matched but its conversion failed: aborts a list instead of ending it
    Conv,
}
pub type Res = Result<usize, Stop>;

// Parts of a derived type, for `Ctx::fail`
pub const NOTHING: u32 = 0;
pub const PREFIX: u32 = 1;
pub const SUFFIX: u32 = 2;
pub const VARIANTS: u32 = 3;
/// 10*(field+1) + one of these
pub const F_PREFIX: u32 = 0;
pub const F_VALUE: u32 = 1;
pub const F_SUFFIX: u32 = 2;
pub const F_CONV: u32 = 3;

pub struct Ctx<'a> {
    pub d: &'a [char],
    /// one past the furthest item that may be examined
    pub look: usize,
    /// the part of the outermost derived type at which it failed
    pub fail: u32,
    /// a conversion failed somewhere
    pub conv: bool,
    /// something was repeated, made optional or ignored that matched without reading anything (documented to panic)
    pub stuck: bool,
    depth: u32,
    /// record in `why` what an error should say (the items are bytes / ASCII chars)
    pub say: Option<Kind>,
    /// outermost first
    pub why: Vec<Why>,
}
#[derive(Clone, Copy, PartialEq)]
pub enum Kind { Chars, Bytes }
pub enum Why { Part(u32), Text(Vec<u8>) }

/// as `{:?}` writes it
fn quoted(d: &[char], q: char, o: &mut Vec<u8>) {
    o.push(q as u8);
    let mut i = 0;
    while i < d.len() {
        let c = d[i];
        let e = match c {
            '\t' => 't',
            '\n' => 'n',
            '\r' => 'r',
            '\\' => '\\',
            _ if c == q => q,
            _ => '\0',
        };
        if e != '\0' {
            o.push(b'\\');
            o.push(e as u8);
        } else if (c as u32) < 0x20 || c as u32 == 0x7f {
            put("\\u{", o);
            if c as u32 >= 0x10 { o.push(b'0' + (c as u32 >> 4) as u8); }
            let l = (c as u32 & 15) as u8;
            o.push(if l < 10 { b'0' + l } else { b'a' - 10 + l });
            o.push(b'}');
        } else {
            o.push(c as u8);
        }
        i += 1;
    }
    o.push(q as u8);
}
fn put(s: &str, o: &mut Vec<u8>) {
    let b = s.as_bytes();
    let mut i = 0;
    while i < b.len() {
        o.push(b[i]);
        i += 1;
    }
}
fn decimal(v: u32, o: &mut Vec<u8>) {
    if v >= 100 { o.push(b'0' + (v / 100) as u8); }
    if v >= 10 { o.push(b'0' + (v / 10 % 10) as u8); }
    o.push(b'0' + (v % 10) as u8);
}
fn shown(k: Kind, d: &[char], o: &mut Vec<u8>) {
    if k == Kind::Chars {
        return quoted(d, '"', o);
    }
    o.push(b'[');
    let mut i = 0;
    while i < d.len() {
        if i > 0 { put(", ", o); }
        decimal(d[i] as u32, o);
        i += 1;
    }
    o.push(b']');
}
fn chars(s: &str) -> Vec<char> {
    let mut v = Vec::new();
    for c in s.chars() { v.push(c); }
    v
}

pub fn in_set(set: &str, c: char) -> bool {
    let mut r = false;
    for s in set.chars() {
        r |= s == c;
    }
    r
}
fn in_bytes(set: &[u8], c: char) -> bool {
    let mut r = false;
    let mut i = 0;
    while i < set.len() {
        r |= set[i] as u32 == c as u32;
        i += 1;
    }
    r
}
pub fn count(s: &str) -> usize {
    let mut n = 0;
    for _ in s.chars() {
        n += 1;
    }
    n
}

// log markers (outside the char range)
pub const M_UNIT: u32 = 0x200000;
pub const M_STR: u32 = 0x200001;
pub const M_END: u32 = 0x200002;
pub const M_LIST: u32 = 0x200003;
pub const M_SOME: u32 = 0x200004;
pub const M_NONE: u32 = 0x200005;
pub const M_SEQ: u32 = 0x200006;
pub const M_NUM: u32 = 0x200007;
pub const M_VAR: u32 = 0x210000;

impl<'a> Ctx<'a> {
    pub fn new(d: &'a [char]) -> Self {
        Ctx { d, look: 0, fail: NOTHING, conv: false, stuck: false, depth: 0, say: None, why: Vec::new() }
    }
    fn at(&mut self, i: usize) -> Option<char> {
        if i < self.d.len() {
            if i + 1 > self.look {
                self.look = i + 1;
            }
            Some(self.d[i])
        } else {
            None
        }
    }
    fn touch(&mut self, end: usize) {
        let e = if end > self.d.len() { self.d.len() } else { end };
        if e > self.look {
            self.look = e;
        }
    }
    fn set(&mut self, i: usize, set: &str) -> bool {
        match self.at(i) {
            Some(c) => in_set(set, c),
            None => false,
        }
    }
    fn is(&mut self, i: usize, k: char) -> bool {
        match self.at(i) {
            Some(c) => c == k,
            None => false,
        }
    }
    pub fn run(&mut self, g: &G, p: usize, o: &mut Vec<u32>) -> Res {
        let mark = o.len();
        let r = self.go(g, p, o);
        if r.is_err() {
            o.truncate(mark);
        }
        r
    }
    /// match without recording a value
    fn skip(&mut self, g: &G, p: usize, o: &mut Vec<u32>) -> Res {
        let mark = o.len();
        let r = self.go(g, p, o);
        o.truncate(mark);
        r
    }
    /// skip ignored grammars for as long as one of them matches
    fn ignore(&mut self, ign: &[&'static G], p: usize, o: &mut Vec<u32>) -> usize {
        let mut q = p;
        'again: loop {
            let mut i = 0;
            while i < ign.len() {
                if let Ok(r) = self.skip(ign[i], q, o) {
                    if r == q {
                        self.stuck = true;
                        return q;
                    }
                    q = r;
                    continue 'again;
                }
                i += 1;
            }
            return q;
        }
    }
    /// a repeated element with optional separators; `max` elements at most
    pub fn list(&mut self, ign: &[&'static G], g: &G, l: &L, max: usize, p: usize, o: &mut Vec<u32>) -> Res {
        o.push(M_LIST);
        let mut q = p; // end of what has been consumed
        let mut at = p; // where the next element would start
        let mut n = 0;
        while n < max {
            let mark = o.len();
            let e = match self.run(g, at, o) {
                Ok(e) => e,
                Err(Stop::Miss) => break,
                Err(Stop::Conv) => return Err(Stop::Conv),
            };
            n += 1;
            match (l.trail, l.sep) {
                (_, None) => {
                    q = e;
                    if n < max {
                        at = self.ignore(ign, e, o);
                    }
                }
                (Trail::No, Some(sep)) => {
                    q = e;
                    if n == max {
                        break;
                    }
                    let w = self.ignore(ign, e, o);
                    match self.skip(sep, w, o) {
                        Ok(s) => at = self.ignore(ign, s, o),
                        Err(_) => break,
                    }
                }
                (Trail::Yes, Some(sep)) => {
                    let w = self.ignore(ign, e, o);
                    match self.skip(sep, w, o) {
                        Ok(s) => {
                            at = self.ignore(ign, s, o);
                            q = at;
                        }
                        Err(_) => {
                            o.truncate(mark);
                            break;
                        }
                    }
                }
                (Trail::Maybe, Some(sep)) => {
                    q = self.ignore(ign, e, o);
                    match self.skip(sep, q, o) {
                        Ok(s) => {
                            at = self.ignore(ign, s, o);
                            q = at;
                        }
                        Err(_) => break,
                    }
                }
            }
        }
        o.push(M_END);
        Ok(q)
    }
    /// a leaf parser does not match at `p`
    #[inline(never)]
    fn explain(&mut self, g: &G, p: usize) {
        let k = match self.say { Some(k) => k, None => return };
        let mut t = Vec::new();
        match g {
            G::Lit(s) => {
                let want = chars(s);
                put("failed to parse tag ", &mut t);
                shown(k, &want, &mut t);
                put(", found ", &mut t);
                let e = if p + want.len() < self.d.len() { p + want.len() } else { self.d.len() };
                shown(k, &self.d[p..e], &mut t);
            }
            G::One(s) => {
                put("error parsing one of ", &mut t);
                shown(k, &chars(s), &mut t);
                if p < self.d.len() {
                    put(", found ", &mut t);
                    if k == Kind::Chars { quoted(&self.d[p..p + 1], '\'', &mut t) } else { decimal(self.d[p] as u32, &mut t) }
                } else {
                    put(", reached EOF", &mut t);
                }
            }
            G::Any1(_) | G::Not1(_) | G::Num(_) => put("no characters found", &mut t),
            G::Eol => put("could not parse line ending", &mut t),
            G::Sp => put("could not parse space", &mut t),
            G::Ws => put("could not parse whitespace", &mut t),
            _ => put("?", &mut t),
        }
        self.why.clear();
        self.why.push(Why::Text(t));
    }
    fn failed(&mut self, part: u32) -> Res {
        if self.depth == 1 {
            self.fail = part;
        }
        if self.say.is_some() {
            if part < 10 || part % 10 != F_VALUE && part % 10 != F_CONV {
                self.why.clear(); // a prefix, a suffix or the variants: nothing is said about the cause
            }
            if part < 10 || part % 10 != F_CONV {
                self.why.insert(0, Why::Part(part));
            }
        }
        Err(Stop::Miss)
    }
    fn seq(&mut self, s: &S, p: usize, o: &mut Vec<u32>) -> Res {
        let mut q = p;
        if let Some(g) = s.pre {
            match self.skip(g, q, o) {
                Ok(r) => q = self.ignore(s.ign, r, o),
                Err(_) => return self.failed(PREFIX),
            }
        }
        let mut i = 0;
        while i < s.fields.len() {
            let fl = &s.fields[i];
            let name = 10 * (i as u32 + 1);
            if let Some(g) = fl.pre {
                match self.skip(g, q, o) {
                    Ok(r) => q = self.ignore(s.ign, r, o),
                    Err(_) => return self.failed(name + F_PREFIX),
                }
            }
            let r = match &fl.list {
                Some(l) => self.list(s.ign, fl.p, l, usize::MAX, q, o),
                None => self.run(fl.p, q, o),
            };
            match r {
                Ok(r) => q = self.ignore(s.ign, r, o),
                Err(Stop::Miss) => return self.failed(name + F_VALUE),
                Err(Stop::Conv) => return self.failed(name + F_CONV),
            }
            if let Some(g) = fl.suf {
                match self.skip(g, q, o) {
                    Ok(r) => q = self.ignore(s.ign, r, o),
                    Err(_) => return self.failed(name + F_SUFFIX),
                }
            }
            i += 1;
        }
        if let Some(g) = s.suf {
            match self.skip(g, q, o) {
                Ok(r) => q = self.ignore(s.ign, r, o),
                Err(_) => return self.failed(SUFFIX),
            }
        }
        Ok(q)
    }
    fn alt(&mut self, a: &A, p: usize, o: &mut Vec<u32>) -> Res {
        let mut q = p;
        if let Some(g) = a.pre {
            match self.skip(g, q, o) {
                Ok(r) => q = self.ignore(a.ign, r, o),
                Err(_) => return self.failed(PREFIX),
            }
        }
        let mut i = 0;
        let mut hit = false;
        while i < a.vars.len() && !hit {
            let mark = o.len();
            o.push(M_VAR + i as u32);
            self.depth += 1;
            match self.seq(a.vars[i], q, o) {
                Ok(r) => {
                    q = r;
                    hit = true;
                }
                Err(_) => o.truncate(mark),
            }
            self.depth -= 1;
            i += 1;
        }
        if !hit {
            return self.failed(VARIANTS);
        }
        o.push(M_END);
        if let Some(g) = a.suf {
            match self.skip(g, q, o) {
                Ok(r) => q = self.ignore(a.ign, r, o),
                Err(_) => return self.failed(SUFFIX),
            }
        }
        Ok(q)
    }
    fn go(&mut self, g: &G, p: usize, o: &mut Vec<u32>) -> Res {
        let r = self.go_(g, p, o);
        if let (Err(Stop::Miss), G::Lit(_) | G::One(_) | G::Any1(_) | G::Not1(_) | G::Num(_) | G::Eol | G::Sp | G::Ws) = (&r, g) {
            self.explain(g, p);
        }
        r
    }
    fn go_(&mut self, g: &G, p: usize, o: &mut Vec<u32>) -> Res {
        match g {
            G::One(s) => {
                if self.set(p, s) {
                    o.push(self.d[p] as u32);
                    Ok(p + 1)
                } else {
                    Err(Stop::Miss)
                }
            }
            G::Lit(s) => {
                self.touch(p + count(s));
                let mut q = p;
                for c in s.chars() {
                    if !self.is(q, c) {
                        return Err(Stop::Miss);
                    }
                    q += 1;
                }
                o.push(M_UNIT);
                Ok(q)
            }
            G::OneB(s) => match self.at(p) {
                Some(c) if in_bytes(s, c) => {
                    o.push(c as u32);
                    Ok(p + 1)
                }
                _ => Err(Stop::Miss),
            },
            G::LitB(s) => {
                self.touch(p + s.len());
                let mut i = 0;
                while i < s.len() {
                    match self.at(p + i) {
                        Some(c) if c as u32 == s[i] as u32 => {}
                        _ => return Err(Stop::Miss),
                    }
                    i += 1;
                }
                o.push(M_UNIT);
                Ok(p + i)
            }
            G::Any1B(s) => {
                let mut q = p;
                o.push(M_STR);
                while let Some(c) = self.at(q) {
                    if !in_bytes(s, c) {
                        break;
                    }
                    o.push(c as u32);
                    q += 1;
                }
                o.push(M_END);
                if q == p { Err(Stop::Miss) } else { Ok(q) }
            }
            G::Any(s) | G::Any1(s) => {
                let mut q = p;
                o.push(M_STR);
                while self.set(q, s) {
                    o.push(self.d[q] as u32);
                    q += 1;
                }
                o.push(M_END);
                if q == p && !matches!(g, G::Any(_)) {
                    return Err(Stop::Miss);
                }
                Ok(q)
            }
            G::Num(s) => {
                let mut q = p;
                while self.set(q, s) {
                    q += 1;
                }
                if q == p {
                    return Err(Stop::Miss);
                }
                match number(&self.d[p..q]) {
                    Err(why) => {
                        self.conv = true;
                        if self.say.is_some() {
                            let mut t = Vec::new();
                            put(why, &mut t);
                            self.why.clear();
                            self.why.push(Why::Text(t));
                        }
                        Err(Stop::Conv)
                    }
                    Ok(v) => {
                        o.push(M_NUM);
                        o.push(v as u32);
                        o.push((v >> 32) as u32);
                        Ok(q)
                    }
                }
            }
            G::Not1(s) => {
                let mut q = p;
                o.push(M_STR);
                while let Some(c) = self.at(q) {
                    if in_set(s, c) {
                        break;
                    }
                    o.push(c as u32);
                    q += 1;
                }
                o.push(M_END);
                if q == p {
                    Err(Stop::Miss)
                } else {
                    Ok(q)
                }
            }
            G::Quoted(k) => {
                if !self.is(p, *k) {
                    return Err(Stop::Miss);
                }
                let mut q = p + 1;
                o.push(M_STR);
                loop {
                    match self.at(q) {
                        None => return Err(Stop::Miss),
                        Some(c) => {
                            q += 1;
                            if c == *k {
                                break;
                            }
                            o.push(c as u32);
                        }
                    }
                }
                o.push(M_END);
                Ok(q)
            }
            G::Sp => {
                o.push(M_UNIT);
                if self.set(p, " \t") {
                    Ok(p + 1)
                } else {
                    Err(Stop::Miss)
                }
            }
            G::Eol | G::Ws => {
                o.push(M_UNIT);
                if self.set(p, if let G::Ws = g { " \t\n" } else { "\n" }) {
                    return Ok(p + 1);
                }
                if self.is(p, '\r') && self.is(p + 1, '\n') {
                    return Ok(p + 2);
                }
                Err(Stop::Miss)
            }
            G::Opt(g) => {
                o.push(M_SOME);
                match self.run(g, p, o) {
                    Ok(q) => {
                        self.stuck |= q == p;
                        Ok(q)
                    }
                    Err(_) => {
                        o.pop();
                        o.push(M_NONE);
                        Ok(p)
                    }
                }
            }
            G::Many(e) | G::Many1(e) => {
                o.push(M_LIST);
                let mut q = p;
                let mut n = 0;
                while let Ok(r) = self.run(e, q, o) {
                    if r == q && (n > 0 || matches!(g, G::Many(_))) {
                        self.stuck = true;
                        break;
                    }
                    q = r;
                    n += 1;
                }
                o.push(M_END);
                if n == 0 && !matches!(g, G::Many(_)) {
                    return Err(Stop::Miss);
                }
                Ok(q)
            }
            G::Rep(k, e) => {
                o.push(M_LIST);
                let mut q = p;
                let mut n = 0;
                while n < *k {
                    match self.run(e, q, o) {
                        Ok(r) => q = r,
                        Err(x) => {
                            if self.say.is_some() {
                                let mut t = Vec::new();
                                put("could not parse element ", &mut t);
                                decimal(n as u32, &mut t);
                                self.why.insert(0, Why::Text(t));
                            }
                            return Err(x);
                        }
                    }
                    n += 1;
                }
                o.push(M_END);
                Ok(q)
            }
            G::Seq(s) => {
                o.push(M_SEQ);
                self.depth += 1;
                let r = self.seq(s, p, o);
                self.depth -= 1;
                let q = r?;
                o.push(M_END);
                Ok(q)
            }
            G::Bare(s) => {
                self.depth += 1;
                let r = self.seq(s, p, o);
                self.depth -= 1;
                r
            }
            G::Alt(a) => {
                self.depth += 1;
                let r = self.alt(a, p, o);
                self.depth -= 1;
                r
            }
        }
    }
}

/// decimal value, if it is one and fits
pub fn number(d: &[char]) -> Result<u64, &'static str> {
    let mut v: u64 = 0;
    let mut i = 0;
    while i < d.len() {
        let c = d[i] as u32;
        if c < 0x30 || c > 0x39 {
            // `str::parse` also accepts one leading '+' before at least one digit
            if i == 0 && c == 0x2b && d.len() > 1 {
                i += 1;
                continue;
            }
            return Err("invalid digit found in string");
        }
        let k = (c - 0x30) as u64;
        if v > u64::MAX / 10 {
            return Err("number too large to fit in target type");
        }
        v *= 10;
        if v > u64::MAX - k {
            return Err("number too large to fit in target type");
        }
        v += k;
        i += 1;
    }
    Ok(v)
}
