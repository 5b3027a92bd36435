//! Buf and Cursor against a sequence with a position.
use crate::conf::{left, syms};
use crate::src::Src;
use crate::vp;
use nommy::{Buf, Buffer, Cursor, IntoBuf};
use std::cell::Cell;

const NEXT: usize = 0;
const PEEK: usize = 1;
const FORWARD: usize = 2;
const CURSOR: usize = 3;
const RESET: usize = 4;

struct Model<'a> {
    d: &'a [char],
    /// one past the furthest item asked for
    far: usize,
    pulls: &'a Cell<usize>,
    arg: u64,
    /// sizes and arguments are multiples of this
    scale: usize,
}
impl<'a> Model<'a> {
    fn ask(&mut self, end: usize) {
        let e = if end > self.d.len() { self.d.len() } else { end };
        if e > self.far { self.far = e; }
    }
    fn get(&mut self, i: usize) -> Option<char> {
        self.ask(i + 1);
        if i < self.d.len() { Some(self.d[i]) } else { None }
    }
    fn demand(&self) { vp::check(self.pulls.get() <= self.far, "nothing is read before it is asked for"); }
}
fn scale() -> usize { if vp::param(4) == 0 { 1 } else { vp::param(4) } }
fn eq(a: Option<char>, b: Option<char>) -> bool {
    match (a, b) {
        (Some(a), Some(b)) => a == b,
        (None, None) => true,
        _ => false,
    }
}

/// `base`: where the cursor started, in the source
fn on_cursor<'s, B: Buffer<char>>(c: &mut Cursor<char, B>, m: &mut Model<'s>, base: usize, steps: usize, depth: usize)
where
    B: Buffer<char, CursorBase = B>,
{
    let mut at = 0; // items this cursor has moved by
    let mut exact = true; // no move went past the end
    let mut s = 0;
    while s < steps {
        let op = vp::pick(0, RESET as u64);
        match op {
            NEXT => {
                let want = m.get(base + at);
                vp::check(eq(c.next(), want), "a cursor reads the items in order");
                if want.is_some() { at += 1 } else { exact = false }
                vp::cover(20);
            }
            PEEK => {
                let i = vp::pick(0, m.arg) * m.scale;
                let want = m.get(base + at + i);
                vp::check(eq(c.peek_ahead(i), want), "peek_ahead on a cursor sees the item that far ahead");
                vp::cover(21);
            }
            FORWARD => {
                let n = vp::pick(0, m.arg) * m.scale;
                c.fast_forward(n);
                at += n;
                if base + at > m.d.len() { exact = false }
                vp::cover(22);
            }
            CURSOR => {
                if depth > 0 {
                    let mut k = c.cursor();
                    vp::check(k.position() == 0, "a new cursor is at position 0");
                    on_cursor(&mut k, m, base + at, steps - s - 1, depth - 1);
                    drop(k);
                    vp::cover(23);
                    // the parent goes on where it was
                    if exact { vp::check(Cursor::position(c) == at, "a cursor's position counts the items it has moved by"); }
                    let want = m.get(base + at);
                    vp::check(eq(c.peek_ahead(0), want), "reads through a child cursor do not move its parent");
                    m.demand();
                }
                return;
            }
            _ => {
                vp::check(c.reset_internal(), "reset returns true");
                at = 0;
                exact = base <= m.d.len();
                vp::cover(24);
            }
        }
        if exact { vp::check(Cursor::position(c) == at, "a cursor's position counts the items it has moved by"); }
        m.demand();
        s += 1;
    }
    let want = m.get(base + at);
    vp::check(eq(c.next(), want), "a cursor reads the items in order");
    m.demand();
}

fn on_buf<I: Iterator<Item = char>>(b: &mut Buf<I>, m: &mut Model, steps: usize, depth: usize) {
    let mut at = 0;
    let mut s = 0;
    while s < steps {
        match vp::pick(0, CURSOR as u64) {
            NEXT => {
                let want = m.get(at);
                vp::check(eq(b.next(), want), "a buffer yields the items in order");
                if want.is_some() { at += 1 }
                vp::cover(10);
            }
            PEEK => {
                let i = vp::pick(0, m.arg) * m.scale;
                let want = m.get(at + i);
                vp::check(eq(b.peek_ahead(i), want), "peek_ahead sees the item that far ahead");
                vp::cover(11);
            }
            FORWARD => {
                let n = vp::pick(0, m.arg) * m.scale;
                m.ask(at + n);
                b.fast_forward(n);
                at = if at + n > m.d.len() { m.d.len() } else { at + n };
                vp::cover(12);
            }
            _ => {
                let mut c = b.cursor();
                vp::check(c.position() == 0, "a new cursor is at position 0");
                on_cursor(&mut c, m, at, depth, depth);
                vp::cover(13);
            }
        }
        m.demand();
        s += 1;
    }
    left(b, &m.d[at..], "a buffer yields exactly the rest of its source");
}

/// params: 0 longest source, 1 operations on the buffer, 2 operations (and nesting) on a cursor, 3 largest argument, 4 what sizes and arguments are multiples of (0: 1)
fn history() {
    let n = vp::pick(0, vp::param(0) as u64) * scale();
    let d = syms::<char>(n, 0);
    let pulls = Cell::new(0);
    let mut b = Src { d: &d, i: 0, pulls: &pulls }.into_buf();
    vp::check(pulls.get() == 0, "building a buffer reads nothing");
    let mut m = Model { d: &d, far: 0, pulls: &pulls, arg: vp::param(3) as u64, scale: scale() };
    on_buf(&mut b, &mut m, vp::param(1), vp::param(2));
}

/// A cursor history alone, on a buffer that is already partly read.
/// params: 0 longest source, 1 operations, 2 nesting, 3 largest argument, 4 what sizes and arguments are multiples of (0: 1)
fn cursor_history() {
    let n = vp::pick(0, vp::param(0) as u64) * scale();
    let d = syms::<char>(n, 0);
    let pulls = Cell::new(0);
    let mut b = Src { d: &d, i: 0, pulls: &pulls }.into_buf();
    let mut m = Model { d: &d, far: 0, pulls: &pulls, arg: vp::param(3) as u64, scale: scale() };
    let start = vp::pick(0, 1);
    if start == 1 {
        let k = vp::pick(0, (n / m.scale) as u64) * m.scale;
        let want = m.get(k);
        vp::check(eq(b.peek_ahead(k), want), "peek_ahead sees the item that far ahead");
        let want = m.get(0);
        vp::check(eq(b.next(), want), "a buffer yields the items in order");
    }
    let at = if start < n { start } else { n };
    {
        let mut c = b.cursor();
        on_cursor(&mut c, &mut m, at, vp::param(1), vp::param(2));
    }
    left(&mut b, &d[at..], "cursors leave the buffer alone");
}

/// Big queues: fill by peeking, consume some, fill again, then jump; the queue wraps around.
/// params: 0 source length, 1 step width of the choices
fn wrap() {
    let n = vp::param(0);
    let step = vp::param(1);
    let d = syms::<char>(n, 0);
    let pulls = Cell::new(0);
    let mut b = Src { d: &d, i: 0, pulls: &pulls }.into_buf();
    let some = |hi: usize| vp::pick(0, (hi / step) as u64) * step;
    let k = some(n);
    let w = if k < n { Some(d[k]) } else { None };
    vp::check(eq(b.peek_ahead(k), w), "peek_ahead sees the item that far ahead");
    let j = some(n);
    let mut i = 0;
    while i < j { vp::check(eq(b.next(), Some(d[i])), "a buffer yields the items in order"); i += 1; }
    let k = some(n - j);
    let w = if j + k < n { Some(d[j + k]) } else { None };
    vp::check(eq(b.peek_ahead(k), w), "peek_ahead sees the item that far ahead");
    let f = some(n - j + step);
    b.fast_forward(f);
    let at = if j + f > n { n } else { j + f };
    let w = if at + 1 < n { Some(d[at + 1]) } else { None };
    vp::check(eq(b.cursor().peek_ahead(1), w), "a cursor starts where its buffer is");
    left(&mut b, &d[at..], "a buffer yields exactly the rest of its source");
    vp::cover(1);
}

/// Arguments of any size: peek_ahead and fast_forward far past the end.
/// params: 0 longest source, 1 (1: arguments up to 20 past the end only)
fn huge() {
    let n = vp::pick(0, vp::param(0) as u64);
    let d = syms::<char>(n, 0);
    let pulls = Cell::new(0);
    let mut b = Src { d: &d, i: 0, pulls: &pulls }.into_buf();
    let have = vp::pick(0, n as u64);
    if have > 0 { b.peek_ahead(have - 1); }
    let x = vp::int(0, if vp::param(1) == 1 { n as u64 + 20 } else { u64::MAX - 8 }) as usize;
    match vp::pick(0, 6) {
        0 => {
            let got = b.peek_ahead(x);
            if x >= n {
                vp::check(got.is_none(), "nothing lies past the end");
                vp::cover(1);
            } else {
                vp::check(got.is_some(), "peek_ahead sees the item that far ahead");
                vp::cover(2);
            }
            left(&mut b, &d, "peeking consumes nothing");
        }
        1 => {
            b.fast_forward(x);
            if x >= n {
                vp::check(b.next().is_none(), "a jump past the end leaves nothing");
                vp::cover(3);
            } else {
                let rest = crate::conf::drain(&mut b);
                vp::check(rest == n - x, "a jump consumes that many items");
                vp::cover(4);
            }
        }
        2 => {
            {
                let mut c = b.cursor();
                c.fast_forward(x);
                let got = c.next();
                vp::check(got.is_some() == (x < n), "a cursor jumps over that many items");
                vp::cover(5);
            }
            left(&mut b, &d, "cursors leave the buffer alone");
        }
        5 => {
            let mut c = b.cursor();
            let got = c.peek_ahead(x);
            vp::check(got.is_some() == (x < n), "peek_ahead on a cursor sees the item that far ahead");
            vp::check(c.position() == 0, "peeking does not move a cursor");
            vp::cover(6);
        }
        3 => {
            {
                let mut c = b.cursor();
                c.fast_forward(x);
                let got = c.peek_ahead(1);
                vp::check(got.is_some() == (x < n && x + 1 < n), "peek_ahead on a moved cursor counts from where it is");
                vp::check(c.position() == x, "a cursor knows how far it is");
            }
            left(&mut b, &d, "cursors leave the buffer alone");
            vp::cover(7);
        }
        4 => {
            {
                let mut c = b.cursor();
                c.fast_forward(x);
                {
                    let mut k = c.cursor();
                    vp::check(k.position() == 0, "a nested cursor counts from its own beginning");
                    vp::check(k.peek_ahead(0).is_some() == (x < n), "a nested cursor starts where its parent is");
                    let got = k.next();
                    vp::check(got.is_some() == (x < n), "a nested cursor reads on from its parent");
                }
                vp::check(c.position() == x, "a nested cursor leaves its parent alone");
            }
            left(&mut b, &d, "cursors leave the buffer alone");
            vp::cover(8);
        }
        _ => {
            let mut c = b.cursor();
            {
                let mut k = c.cursor();
                k.fast_forward(x);
                let got = k.next();
                vp::check(got.is_some() == (x < n), "a nested cursor jumps over that many items");
            }
            vp::check(c.next().is_some() == (n > 0), "a nested cursor leaves its parent alone");
            vp::cover(9);
        }
    }
}

/// an item that knows how many of its kind are alive
struct Tok<'a> { id: usize, live: &'a Cell<usize> }
impl<'a> Clone for Tok<'a> { fn clone(&self) -> Self { self.live.set(self.live.get() + 1); Tok { id: self.id, live: self.live } } }
impl<'a> Drop for Tok<'a> { fn drop(&mut self) { self.live.set(self.live.get() - 1) } }
struct TokSrc<'a> { i: usize, n: usize, live: &'a Cell<usize> }
impl<'a> Iterator for TokSrc<'a> {
    type Item = Tok<'a>;
    fn next(&mut self) -> Option<Tok<'a>> {
        if self.i == self.n { return None; }
        self.i += 1;
        self.live.set(self.live.get() + 1);
        Some(Tok { id: self.i - 1, live: self.live })
    }
}
/// Items are held only between being looked at and being consumed.
/// params: 0 longest source, 1 operations, 2 -, 3 largest argument, 4 what sizes and arguments are multiples of (0: 1)
fn held() {
    let n = vp::pick(0, vp::param(0) as u64) * scale();
    let before = vp::live();
    let live = Cell::new(0);
    {
        let mut b = TokSrc { i: 0, n, live: &live }.into_buf();
        let (mut at, mut far) = (0, 0);
        let clip = |x: usize| if x > n { n } else { x };
        let mut s = 0;
        while s < vp::param(1) {
            match vp::pick(0, 3) {
                0 => {
                    let t = b.next();
                    vp::check(t.as_ref().map(|t| t.id) == if at < n { Some(at) } else { None }, "a buffer yields the items in order");
                    at = clip(at + 1);
                }
                1 => {
                    let i = vp::pick(0, vp::param(3) as u64) * scale();
                    b.peek_ahead(i);
                    far = if clip(at + i + 1) > far { clip(at + i + 1) } else { far };
                }
                2 => {
                    let k = vp::pick(0, vp::param(3) as u64) * scale();
                    b.fast_forward(k);
                    at = clip(at + k);
                }
                _ => {
                    let mut c = b.cursor();
                    c.next();
                    c.cursor().next();
                    far = if clip(at + 2) > far { clip(at + 2) } else { far };
                }
            }
            let most = if far > at { far - at } else { 0 };
            vp::check(live.get() <= most, "an item that was consumed, or never looked at, is not kept");
            s += 1;
        }
        vp::cover(1);
    }
    vp::check(live.get() == 0, "every item is dropped exactly once");
    vp::check(vp::live() == before, "every allocation is released");
}

/// a source that knows how much is left
struct Sized_<'a>(Src<'a, char>);
impl<'a> Iterator for Sized_<'a> {
    type Item = char;
    fn next(&mut self) -> Option<char> { self.0.next() }
    fn size_hint(&self) -> (usize, Option<usize>) { let k = self.0.d.len() - self.0.i; (k, Some(k)) }
}
/// `it` goes on with `d`
fn adaptors<I: Iterator<Item = char>>(it: &mut I, d: &[char], arg: u64) {
    let (lo, hi) = it.size_hint();
    vp::check(lo <= d.len(), "size_hint promises no more than there is");
    vp::check(match hi { Some(h) => h >= d.len(), None => true }, "size_hint allows for all there is");
    let k = vp::pick(0, arg);
    let at = |i: usize| if i < d.len() { Some(d[i]) } else { None };
    match vp::pick(0, 8) {
        0 => {
            vp::check(eq(it.nth(k), at(k)), "nth is the item that far ahead");
            if k < d.len() { left(it, &d[k + 1..], "nth consumes the items up to its own"); }
            vp::cover(1);
        }
        1 => {
            let mut i = 0;
            for c in it.by_ref().take(k) { vp::check(eq(Some(c), at(i)), "take yields the next items"); i += 1; }
            vp::check(i == k || i == d.len(), "take yields that many items");
            left(it, &d[i..], "take leaves the others");
            vp::cover(2);
        }
        2 => {
            vp::check(eq(it.by_ref().skip(k).next(), at(k)), "skip passes over that many items");
            vp::cover(3);
        }
        3 => {
            vp::check(it.by_ref().count() == d.len(), "count counts what is left");
            vp::cover(4);
        }
        4 => {
            vp::check(eq(it.by_ref().last(), if d.is_empty() { None } else { at(d.len() - 1) }), "last is the last item");
            vp::cover(5);
        }
        5 => {
            let v: Vec<char> = it.by_ref().collect();
            left(&mut v.into_iter(), d, "collect yields everything that is left");
            vp::cover(6);
        }
        6 => {
            let n = it.by_ref().fold(0, |i, c| { vp::check(eq(Some(c), at(i)), "fold visits the items in order"); i + 1 });
            vp::check(n == d.len(), "fold visits every item");
            vp::cover(7);
        }
        7 => {
            let mut i = 0;
            let f = it.by_ref().find(|c| { vp::check(eq(Some(*c), at(i)), "find visits the items in order"); i += 1; i > k });
            vp::check(eq(f, at(k)), "find ends at the item found");
            if k < d.len() { left(it, &d[k + 1..], "find consumes the items up to the one found"); }
            vp::cover(8);
        }
        _ => {
            let mut i = 0;
            for c in it.by_ref().step_by(k + 1) { vp::check(eq(Some(c), at(i)), "step_by visits every so many items"); i += k + 1; }
            vp::check(i >= d.len(), "step_by goes on to the end");
            vp::cover(9);
        }
    }
}
/// Buffers and cursors as iterators: the methods of Iterator agree with reading item by item.
/// params: 0 longest source, 1 largest argument, 2 cursors (0: the buffer; else how deeply nested)
fn iter() {
    let n = vp::pick(0, vp::param(0) as u64);
    let arg = vp::param(1) as u64;
    let d = syms::<char>(n, 0);
    let pulls = Cell::new(0);
    let mut b = Sized_(Src { d: &d, i: 0, pulls: &pulls }).into_buf();
    let have = vp::pick(0, n as u64);
    if have > 0 { b.peek_ahead(have - 1); }
    let at = vp::pick(0, if n < 2 { n as u64 } else { 2 });
    b.fast_forward(at);
    match vp::param(2) {
        0 => adaptors(&mut b, &d[at..], arg),
        k => {
            {
                let mut c = b.cursor();
                let j = vp::pick(0, 1);
                let mut i = 0;
                while i < j { c.next(); i += 1; }
                let at = if at + j < n { at + j } else { n };
                if k == 1 || at + 1 > n {
                    adaptors(&mut c, &d[at..], arg)
                } else {
                    let mut c = c.cursor();
                    c.fast_forward(1);
                    adaptors(&mut c, &d[at + 1..], arg)
                }
            }
            left(&mut b, &d[at..], "cursors leave the buffer alone");
        }
    }
}

crate::harnesses! {
    h_iter => iter();
    h_history => history();
    h_cursor_history => cursor_history();
    h_wrap => wrap();
    h_huge => huge();
    h_held => held();
}
