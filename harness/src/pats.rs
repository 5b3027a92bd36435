//! Texts that the executor makes symbolic (vp::pattern): what they say here only fixes the UTF-8 length of their
//! characters, and must occur nowhere else. A counterexample is replayed with this file rewritten to its texts.
pub const P1: &str = "\u{1e}";
pub const Q1: &str = "\u{1c}";
pub const R1: &str = "\u{1d}";
pub const S1: &str = "\u{1a}";
pub const I1: &str = "\u{1b}";
pub const P2: &str = "\u{1e}\u{1c}";
pub const Q2: &str = "\u{1c}\u{1e}";
pub const I2: &str = "\u{1c}\u{1d}";
pub const P3: &str = "\u{1e}\u{1c}\u{1d}";
pub const P4: &str = "\u{1e}\u{1d}\u{1c}\u{1a}";
pub const W1: &str = "\u{7f0}";
pub const W2: &str = "\u{ff1}\u{7f1}";
pub const W4: &str = "\u{1e}\u{7f2}\u{ff2}\u{10ff2}";
pub const X2: &str = "\u{10ff3}\u{1e}";
pub const B1: &[u8] = b"\x1e\x91";
pub const B2: &[u8] = b"\x1c\x92\x93";
pub const B3: &[u8] = b"\x94";
pub const B4: &[u8] = b"\x95\x1d\x96\x97";
