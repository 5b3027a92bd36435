//! Derived parsers against their grammars.
use crate::conf::conf;
use crate::types::*;
crate::harnesses! {
    h_named => conf::<Named, char>(&NAMED);
    h_tuple => conf::<Tuple, char>(&TUPLE);
    h_unit => conf::<Unit, char>(&UNIT);
    h_two_ignores => conf::<TwoIgnores, char>(&TWO_IGNORES);
    h_fixes => conf::<Fixes, char>(&FIXES);
    h_number => conf::<Number, char>(&NUMBER);
    h_packet => conf::<Packet, u8>(&PACKET);
    h_parens => conf::<ParensTag, char>(&PARENS);
    h_parens2 => conf::<Parens2, char>(&PARENS2);
    h_empty => conf::<Empty, char>(&EMPTY);
    h_outer => conf::<Outer, char>(&OUTER);
    h_opt_unit => conf::<OptNamed, char>(&OPT_UNIT);
    h_two_inner => conf::<TwoInner, char>(&TWO_INNER);
    h_order => conf::<Order, char>(&ORDER);
    h_gaps => conf::<Gaps, char>(&GAPS);
    h_commented => conf::<Commented, char>(&COMMENTED);
    h_list_plain => conf::<ListPlain, char>(&LIST_PLAIN);
    h_list_sep => conf::<ListSep, char>(&LIST_SEP);
    h_list_no => conf::<ListNo, char>(&LIST_SEP);
    h_list_yes => conf::<ListYes, char>(&LIST_YES);
    h_list_maybe => conf::<ListMaybe, char>(&LIST_MAYBE);
    h_open => conf::<Open, char>(&OPEN_SEP);
    h_open_yes => conf::<OpenYes, char>(&OPEN_YES);
    h_open_maybe => conf::<OpenMaybe, char>(&OPEN_MAYBE);
    h_numbers => conf::<Numbers, char>(&NUMBERS);
    h_middle => conf::<Middle, char>(&MIDDLE);
    h_byte_list => conf::<ByteList, u8>(&BYTE_LIST);
    h_shapes => conf::<Shapes, char>(&SHAPES);
    h_wrapped => conf::<Wrapped, char>(&WRAPPED);
    h_backtrack => conf::<Backtrack, char>(&BACKTRACK);
    h_choice => conf::<Choice, char>(&CHOICE);
    h_first => conf::<First, char>(&FIRST);
    h_lists => conf::<Lists, char>(&LISTS);
    h_either => conf::<EitherAB, char>(&EITHER);
    h_opcode => conf::<Opcode, u8>(&OPCODE);
    h_exp => conf::<Exp, char>(&EXP);
    h_chain => conf::<Chain, char>(&CHAIN);
    h_json => conf::<Json, char>(&JSON);
    h_json_field => conf::<Field, char>(&FIELD);
}
