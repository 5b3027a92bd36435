//! Interface to the symbolic executor (or, natively, to the replay runner in main.rs).
extern "C" {
    fn vp_sym(width: u32, lo: u64, hi: u64) -> u64;
    fn vp_sym_char() -> u32;
    fn vp_assume(b: bool);
    fn vp_assert(b: bool, p: *const u8, n: usize);
    fn vp_observe(v: u64);
    fn vp_cover(id: u32);
    fn vp_live() -> u64;
    fn vp_param(i: u32) -> u64;
    fn vp_concrete(v: u64) -> u64;
    fn vp_allow_panic(b: bool);
    fn vp_real_format(b: bool);
    fn vp_real_contains(b: bool);
    fn vp_pattern(p: *const u8, n: usize, text: bool);
}
/// Symbolic integer in lo..=hi.
#[inline(never)]
pub fn int(lo: u64, hi: u64) -> u64 { unsafe { vp_sym(64, lo, hi) } }
/// Symbolic integer whose value is fixed per path (one path per value).
pub fn pick(lo: u64, hi: u64) -> usize { unsafe { vp_concrete(vp_sym(64, lo, hi)) as usize } }
pub fn byte() -> u8 { unsafe { vp_sym(8, 0, 255) as u8 } }
pub fn flag() -> bool { unsafe { vp_sym(8, 0, 1) as u8 == 1 } }
/// Any Unicode scalar value.
pub fn any_char() -> char { unsafe { std::mem::transmute(vp_sym_char()) } }
/// Any scalar value in lo..=hi (the range must not straddle the surrogates).
pub fn char_in(lo: u32, hi: u32) -> char { unsafe { std::mem::transmute(vp_sym(32, lo as u64, hi as u64) as u32) } }
pub fn assume(b: bool) { unsafe { vp_assume(b) } }
pub fn check(b: bool, m: &'static str) { unsafe { vp_assert(b, m.as_ptr(), m.len()) } }
pub fn observe(v: u64) { unsafe { vp_observe(v) } }
pub fn cover(id: u32) { unsafe { vp_cover(id) } }
pub fn live() -> u64 { unsafe { vp_live() } }
pub fn param(i: u32) -> usize { unsafe { vp_param(i) as usize } }
pub fn allow_panic(b: bool) { unsafe { vp_allow_panic(b) } }
/// run alloc::fmt::format itself instead of the stub
pub fn real_format(b: bool) { unsafe { vp_real_format(b) } }
/// run `str::contains(char)` itself instead of the stub
pub fn real_contains(b: bool) { unsafe { vp_real_contains(b) } }
/// Makes this constant, wherever it is used, any text whose characters have the same UTF-8 lengths (see pats.rs).
/// To be called before anything else.
pub fn pattern(s: &'static str) { unsafe { vp_pattern(s.as_ptr(), s.len(), true) } }
/// Makes this constant, wherever it is used, any bytes.
pub fn pattern_bytes(s: &'static [u8]) { unsafe { vp_pattern(s.as_ptr(), s.len(), false) } }

/// Stands in for alloc::fmt::format on error paths (see DESIGN.md, stubs).
#[no_mangle]
pub fn vp_format_stub(_: std::fmt::Arguments) -> String { String::new() }
