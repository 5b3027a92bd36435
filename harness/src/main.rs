//! Runs harness functions natively on given inputs: replays counterexamples, and validates traces.
//! Each line of the file named by the first argument is `entry|params|inputs` (comma separated);
//! for each one a line `index status|observations` is printed.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};

struct Counting;
static LIVE: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(1, SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(1, SeqCst); System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { System.realloc(p, l, n) }
}
#[global_allocator]
static ALLOC: Counting = Counting;

struct State { index: usize, params: Vec<u64>, input: Vec<u64>, at: usize, seen: Vec<u64> }
static mut S: Option<State> = None;
static mut ALLOWED: bool = false;
fn s() -> &'static mut State { unsafe { S.as_mut().unwrap() } }

fn finish(status: &str) {
    let st = s();
    let v: Vec<String> = st.seen.iter().map(|v| v.to_string()).collect();
    println!("{} {}|{}", st.index, status, v.join(","));
}
fn stop(status: &str) -> ! {
    finish(status);
    std::process::exit(1)
}
fn take() -> u64 {
    let st = s();
    if st.at == st.input.len() { stop("short: more inputs were asked for than given") }
    st.at += 1;
    st.input[st.at - 1]
}
#[no_mangle]
pub extern "C" fn vp_sym(_: u32, lo: u64, hi: u64) -> u64 {
    let v = take();
    if v < lo || v > hi { stop("range: an input is outside its range") }
    v
}
#[no_mangle]
pub extern "C" fn vp_sym_char() -> u32 {
    let v = take() as u32;
    if std::char::from_u32(v).is_none() { stop("range: an input is not a char") }
    v
}
#[no_mangle]
pub extern "C" fn vp_assume(b: bool) { if !b { stop("assume: an assumption is false") } }
#[no_mangle]
pub extern "C" fn vp_assert(b: bool, p: *const u8, n: usize) {
    if !b { stop(&format!("assert: {}", String::from_utf8_lossy(unsafe { std::slice::from_raw_parts(p, n) }))) }
}
#[no_mangle]
pub extern "C" fn vp_observe(v: u64) {
    let st = s();
    if st.seen.len() < st.seen.capacity() { st.seen.push(v) }
}
#[no_mangle]
pub extern "C" fn vp_cover(_: u32) {}
#[no_mangle]
pub extern "C" fn vp_live() -> u64 { LIVE.load(SeqCst) as u64 }
#[no_mangle]
pub extern "C" fn vp_param(i: u32) -> u64 { s().params.get(i as usize).copied().unwrap_or(0) }
#[no_mangle]
pub extern "C" fn vp_concrete(v: u64) -> u64 { v }
#[no_mangle]
pub extern "C" fn vp_allow_panic(b: bool) { unsafe { ALLOWED = b } }
#[no_mangle]
pub extern "C" fn vp_real_format(_: bool) {}
#[no_mangle]
pub extern "C" fn vp_real_contains(_: bool) {}
#[no_mangle]
pub extern "C" fn vp_pattern(p: *const u8, n: usize, text: bool) {
    // replays are built with the texts they need (pats.rs)
    let b = unsafe { std::slice::from_raw_parts(p, n) };
    let have: Vec<u64> = if text { std::str::from_utf8(b).unwrap().chars().map(|c| c as u64).collect() } else { b.iter().map(|&c| c as u64).collect() };
    for c in have {
        if take() != c { stop("pattern: this text needs its own build") }
    }
}

fn main() {
    let file = std::env::args().nth(1).expect("usage: vprun FILE");
    let text = std::fs::read_to_string(file).expect("readable");
    let table = vph::table();
    std::panic::set_hook(Box::new(|i| {
        if unsafe { ALLOWED } {
            println!("{} stopped as it should|", s().index);
            std::process::exit(0)
        }
        println!("{} panic: {}|", s().index, i.to_string().replace('\n', " "));
        std::process::exit(1)
    }));
    for (index, line) in text.lines().enumerate() {
        if line.starts_with('#') { continue }
        let mut f = line.split('|');
        let entry = f.next().unwrap();
        let nums = |t: &str| t.split(',').filter(|t| !t.is_empty()).map(|t| t.parse().unwrap()).collect::<Vec<u64>>();
        let params = nums(f.next().unwrap());
        let input = nums(f.next().unwrap());
        let run = table.iter().find(|e| e.0 == entry).expect("known entry").1;
        unsafe { S = Some(State { index, params, input, at: 0, seen: Vec::with_capacity(1 << 20) }) }
        run();
        let extra = s().at < s().input.len();
        finish(if extra { "ok, inputs left over" } else { "ok" });
    }
}
