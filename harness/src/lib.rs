#![allow(incomplete_features)]
#![feature(const_generics)]
pub mod conf;
pub mod h_builtin;
pub mod h_derive;
pub mod h_vec;
pub mod h_buffer;
pub mod h_token;
pub mod gen;
pub mod h_top;
pub mod h_mem;
pub mod h_sample;
pub mod h_err;
pub mod h_guard;
pub mod h_sym;
pub mod pats;
pub mod spec;
pub mod src;
pub mod types;
pub mod vp;
pub fn table() -> Vec<(&'static str, fn())> {
    let mut v = Vec::new();
    v.extend_from_slice(h_builtin::TABLE);
    v.extend_from_slice(h_derive::TABLE);
    v.extend_from_slice(h_vec::TABLE);
    v.extend_from_slice(h_buffer::TABLE);
    v.extend_from_slice(h_top::TABLE);
    v.extend_from_slice(gen::TABLE);
    v.extend_from_slice(h_token::TABLE);
    v.extend_from_slice(h_mem::TABLE);
    v.extend_from_slice(h_sample::TABLE);
    v.extend_from_slice(h_err::TABLE);
    v.extend_from_slice(h_guard::TABLE);
    v.extend_from_slice(h_sym::TABLE);
    v
}
