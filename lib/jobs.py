"""Which harness runs decide which property. A family is one harness with a ladder of growing bounds;
tune.json (written by tools/tune.py) records how long each rung takes and which covers it reaches."""
import os, re

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PARSE, PEEK, PULLS, CTX, LEAK, TOTAL, CTXPEEK = range(7)
MODE = ["parse", "peek", "pulls", "ctx", "leak", "total", "ctxpeek"]
LENGTHS = [1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 16, 24, 32, 48, 64]
UNI, ASCII = 0, 1


def entries(mod):
    """the harness names of a harness module, in order"""
    text = open(os.path.join(VERIF, "harness/src", mod + ".rs")).read()
    text = text[text.rindex("harnesses!"):]
    return re.findall(r"^\s*(h_\w+) =>", text, re.M)


class Fam:
    """key, harness, ladder of parameter lists (growing bounds), what the bound means"""
    def __init__(self, key, entry, ladder, bound, show=None):
        self.key, self.entry, self.ladder, self.text, self.show = key, entry, ladder, bound, show

    @staticmethod
    def steps(params):
        """instructions after which a path counts as one that does not end"""
        return 5_000_000 + ((60_000 if len(params) > 7 else 20_000) * params[5] if len(params) > 6 else 0)

    def bound(self, params):
        """`show`: the parameters the text speaks of"""
        n = self.text.count("%") - self.text.count("%%")
        return self.text % tuple(params[i] for i in (self.show or range(n)))


def conf(entry, mode, domain, lens=None, on_buf=0):
    ls = lens or LENGTHS
    what = "input up to %d " + ("items (any value of the item type)" if domain == UNI else "items (chars: ASCII only)")
    if mode in (CTX, CTXPEEK):
        what += ", one more in front"
    return Fam("%s.%s.%s%s" % (entry, MODE[mode], "uni" if domain == UNI else "ascii", ".buf" if on_buf else ""),
               entry, [[n, mode, domain, 0, on_buf] for n in ls], what)


LISTS = [(1, 2), (2, 2), (3, 2), (4, 2), (5, 2), (5, 3), (6, 3), (7, 3), (8, 3), (8, 4), (9, 4), (10, 4), (12, 4)]


def lst(entry, mode, domain):
    return Fam("%s.%s.%s" % (entry, MODE[mode], "uni" if domain == UNI else "ascii"), entry,
               [[n, mode, domain, 0, m] for n, m in LISTS], "input up to %d items, every maximum from 0 to 2^64-1", (0,))


LONG = [(1, 8), (1, 20), (1, 70), (2, 20), (2, 70), (2, 140), (2, 300), (3, 100)]
NEST = [(1, 3), (1, 5), (1, 8), (1, 12), (2, 5), (2, 8)]
DEEP = [(1, 10), (1, 20), (1, 40), (1, 70), (1, 140)]
BIG300 = [(1, 70), (1, 150), (1, 299)]  # for parsers of 300 items
LONGTEXT = "every text a u^k b%s: a at most 1 item, u 1..%%d items, b at most as many, k = %%d, chars: ASCII only"


def long(names, mode, domain=ASCII, nest=False, ladder=LONG, tag=".long"):
    """texts with a long periodic part"""
    w = 1 if nest else 0
    return [Fam("%s.%s.%s%s" % (e, MODE[mode], "uni" if domain == UNI or e in BYTES else "ascii", tag), e,
                [[n, mode, UNI if e in BYTES else domain, 0, 0, k, w] for n, k in ladder],
                LONGTEXT % (" w^k" if nest else ""), (0, 5)) for e in names]


def far(names, mode, domain=ASCII):
    """much longer ones"""
    return long(names, mode, domain, False, [(1, k) for k in (400, 1000, 2500, 5000, 10000, 20000, 70000)], ".far")


def deep(names, mode):
    """nesting: a u^k b w^k"""
    return long(names, mode, ASCII, True, NEST) + long(names, mode, ASCII, True, DEEP, ".deep")


def big300(names, mode):
    return long(names, mode, ladder=BIG300)


def long_lst(names, mode):
    return [Fam("%s.%s.%s.long" % (e, MODE[mode], "uni" if e in BYTES else "ascii"), e,
                [[n, mode, UNI if e in BYTES else ASCII, 0, m, k, 0] for n, k, m in [(1, 8, 2), (1, 20, 2), (1, 70, 2), (2, 20, 2), (2, 70, 2), (2, 140, 2)]],
                (LONGTEXT % "") + "; every maximum from k-1 to 2^64-1", (0, 5)) for e in names]


def near(names, mode):
    """texts next to a sample"""
    return [Fam("%s.%s" % (e, MODE[mode]), e, [[n, mode, ASCII, 0, 0, 1, 0, k] for n, k in [(1, 0), (1, 1), (1, 2), (2, 1), (2, 2), (3, 2), (3, 4), (4, 4)]],
                "the sample text with, at any place, up to %d chars (ASCII) put in and up to %d taken out", (0, 7)) for e in names]


REPEATED = ["", "a^k", "(a,)^k b", "( a^k )", "( (a,)^k b )", "(aba-)^k ab", "\\0 (\\x01,)^k \\x01", "= (1,)^k 1;", "(1,)^k 0", "(ab,)^k a",
            "('a , ')^k b", "'( ' ('a , ')^k 'b )'", "( ('a ')^k )", "structx{ (y:z,)^k }", "a: (b,)^k c LF", "enumx{ (y,)^k }", "(ab)^k"]
REPS = {"h_any_of1": 1, "h_while_not": 1, "h_vec_tag": 16,
        "h_list_plain": 3, "h_list_sep": 4, "h_list_no": 4, "h_list_yes": 4, "h_list_maybe": 11, "h_open": 5, "h_open_yes": 5, "h_open_maybe": 5, "h_byte_list": 6, "h_numbers": 7,
        "h_list_fn_plain": 1, "h_list_fn_sep": 2, "h_list_fn_yes": 10, "h_list_fn_maybe": 2, "h_num_plain": 8, "h_num_sep": 8, "h_num_yes": 8, "h_num_maybe": 8,
        "h_word_sep": 9, "h_word_maybe": 10, "h_odd_sep": 5, "h_odd_yes": 5, "h_odd_maybe": 5, "h_blist_sep": 2, "h_blist_maybe": 2,
        "h_exp": 12, "h_free_lisp": 12, "h_free_struct": 13, "h_free_header": 14}


def reps(names, mode):
    """a text that repeats itself, with something put in"""
    return [Fam("%s.%s.reps" % (e, MODE[mode]), e,
                [[1, mode, UNI if e in BYTES else ASCII, 0, 0, k, 0, REPS[e]] for k in (50, 200, 400, 700, 1500, 3000, 6000, 12000, 25000, 70000)],
                "%s with up to %%d %s put in at the beginning, before, in or after the repeated part, or at the end; k = %%d%s" % (
                    REPEATED[REPS[e]].replace("%", "%%"), "items" if e in BYTES else "ASCII chars",
                    "; maxima k and 2^64-1" if e in LISTFN else ""), (0, 5)) for e in names]


def simple(entry, domain):
    return Fam("%s.%s" % (entry, "uni" if domain == UNI else "ascii"), entry,
               [[n, 0, domain, 0] for n in LENGTHS], "input up to %d items")


def first(entry, domain):
    """only the outermost part of an error"""
    return Fam("%s.first.%s" % (entry, "uni" if domain == UNI else "ascii"), entry,
               [[n, 1, domain, 0] for n in LENGTHS], "input up to %d items", (0,))


def terminated(e, domain):
    """the errors of parse_terminated"""
    return Fam("%s.terminated.%s" % (e, "uni" if domain == UNI else "ascii"), e,
               [[n, 2, domain, 0] for n in LENGTHS], "input up to %d items", (0,))


def simple_long(e):
    return Fam("%s.long" % e, e, [[n, 0, UNI if e in BYTES else ASCII, 0, 0, k, 0] for n, k in LONG], LONGTEXT % "", (0, 5))


def fixed(entry, ladder, bound, tag="", show=None):
    return Fam(entry + tag, entry, ladder, bound, show)


BYTES = {"h_btag", "h_btag_40", "h_barr40", "h_btag_300", "h_barr300", "h_btag_hi", "h_bone_of", "h_bany_of1", "h_bvec_tag", "h_bvec1_one", "h_barr2", "h_packet", "h_byte_list",
         "h_opcode", "h_err_packet", "h_btag_empty", "h_btag_long", "h_bone_of_big", "h_bone_of_empty", "h_opt_btag", "h_top_bytes", "h_blist_sep", "h_blist_maybe",
         "h_sym_btag", "h_sym_btag4", "h_sym_bone1", "h_sym_bone", "h_sym_bany",
         "h_guard_bytes", "h_guard_opt_bytes", "h_why_btag", "h_why_bone", "h_why_bany1", "h_why_barr", "h_why_packet"} | set(entries("h_token"))
CONVERTING = {"h_number", "h_numbers", "h_backtrack"}  # peek does not convert, by design

GUARD = entries("h_guard")

BUILTIN = [e for e in entries("h_builtin") if e not in ("h_contains", "h_views") and not e.endswith("300")]
TAGS = [e for e in BUILTIN if e.startswith("h_tag")]
BYTEP = [e for e in BUILTIN if e.startswith(("h_btag", "h_bone", "h_bany"))]
CLASSES = [e for e in BUILTIN if e.startswith(("h_one_of", "h_any_of", "h_while_not"))]
DERIVED = entries("h_derive")
LISTFN = entries("h_vec")
TOP = entries("h_top")
ERR = [e for e in entries("h_err") if e.startswith("h_err")]
WHY = [e for e in entries("h_err") if e.startswith("h_why")]
OWN = [e for e in entries("h_mem") if e.startswith("h_own")]
GEN = [e for e in entries("gen") if e.startswith("h_gen_")]
GEN_WHY = [e for e in entries("gen") if e.startswith("h_why_")]
GEN_S = [e for e in GEN if e.startswith("h_gen_s")]
GEN_E = [e for e in GEN if e.startswith("h_gen_e")]
GEN_N = [e for e in GEN if e.startswith("h_gen_n")]
GEN_C = [e for e in GEN if e.startswith("h_gen_c")]  # parts that coincide: 24 structs, 12 enums
GEN_W = [e for e in GEN if e.startswith("h_gen_w")]  # many parts: 5 structs, 4 enums
TOKEN = entries("h_token")


def both(names, mode, wide=True):
    """with every Unicode scalar value, and (deeper, as strings then grow one byte a char) with ASCII"""
    out = []
    for e in names:
        if e in BYTES:
            out.append(conf(e, mode, UNI))
        else:
            if wide:
                out.append(conf(e, mode, UNI))
            out.append(conf(e, mode, ASCII))
    return out


def narrow(names, mode):
    return both(names, mode, False)


STRUCTS = ["h_named", "h_tuple", "h_unit", "h_two_ignores", "h_fixes", "h_number", "h_packet", "h_parens", "h_parens2", "h_empty",
           "h_outer", "h_opt_unit", "h_two_inner", "h_order", "h_gaps", "h_commented", "h_middle", "h_tok_call"]
LIST_FIELDS = ["h_list_plain", "h_list_sep", "h_list_no", "h_list_yes", "h_list_maybe", "h_open", "h_open_yes", "h_open_maybe",
               "h_numbers", "h_middle", "h_byte_list", "h_lists"]
ENUMS = ["h_shapes", "h_wrapped", "h_backtrack", "h_choice", "h_first", "h_lists", "h_either", "h_opcode", "h_tok_node"]
RECURSIVE = ["h_exp", "h_chain", "h_json", "h_json_field"]
IGNORES = ["h_named", "h_unit", "h_two_ignores", "h_number", "h_packet", "h_parens2", "h_outer", "h_two_inner", "h_gaps", "h_commented",
           "h_list_plain", "h_list_sep", "h_list_yes", "h_list_maybe", "h_middle", "h_wrapped", "h_lists", "h_exp", "h_json"]
HIST = [fixed("h_history", [[2, 2, 1, 2], [3, 2, 1, 3], [4, 2, 1, 4], [5, 3, 1, 4], [6, 3, 1, 5], [8, 3, 1, 7]], "source up to %d items; %d buffer operations, cursors of %d operations each; arguments up to %d", ".short"),
        fixed("h_history", [[2, 3, 1, 1], [3, 3, 1, 2], [4, 3, 1, 3], [3, 4, 1, 2], [4, 4, 1, 2], [4, 4, 1, 3]], "source up to %d items; %d buffer operations, cursors of %d operations each; arguments up to %d", ".long"),
        fixed("h_history", [[1, 2, 2, 1], [2, 2, 2, 1], [3, 2, 2, 2], [4, 2, 2, 3], [3, 3, 2, 1]], "source up to %d items; %d buffer operations, cursors of %d operations (and nesting) each; arguments up to %d", ".nested"),
        fixed("h_history", [[2, 4, 0, 1], [3, 4, 0, 2], [4, 5, 0, 2], [4, 5, 0, 3], [5, 5, 0, 4]], "source up to %d items; %d buffer operations, cursors of %d operations each; arguments up to %d", ".flat")]
CURS = [fixed("h_cursor_history", [[2, 3, 1, 1], [2, 3, 2, 2], [3, 3, 2, 3], [3, 4, 2, 2], [4, 4, 2, 3], [3, 5, 2, 2]], "source up to %d items, partly read; %d cursor operations, nested up to %d deep; arguments up to %d"),
        fixed("h_cursor_history", [[1, 4, 3, 1], [2, 4, 3, 1], [2, 5, 3, 1], [3, 5, 4, 1], [3, 6, 3, 1]], "source up to %d items, partly read; %d cursor operations, nested up to %d deep; arguments up to %d", ".deep")]
WRAP = [fixed("h_wrap", [[6, 1], [9, 1], [12, 2], [20, 3], [24, 3], [40, 4], [60, 4], [100, 6]], "source of %d items; amounts in steps of %d"),
        fixed("h_wrap", [[32, 16], [64, 16], [150, 50], [300, 75], [600, 150], [1000, 250], [2000, 400], [5000, 1000], [10000, 2500]], "source of %d items; amounts in steps of %d", ".big")]
BIG = "in multiples of %d: source up to %d, %d operations, cursors of %d, arguments up to %d"
HISTBIG = [fixed("h_history", [[2, 2, 1, 1, 20], [2, 3, 1, 1, 20], [2, 3, 1, 2, 50], [2, 3, 1, 2, 100], [3, 3, 1, 3, 100], [3, 3, 1, 3, 400]], BIG, ".big", (4, 0, 1, 2, 3))]
CURSBIG = [fixed("h_cursor_history", [[1, 2, 1, 1, 20], [2, 2, 1, 2, 20], [2, 3, 2, 1, 50], [2, 3, 2, 2, 50], [2, 3, 2, 2, 100], [3, 3, 2, 3, 100], [3, 3, 2, 3, 400]], "in multiples of %d: source up to %d, %d operations, nested up to %d, arguments up to %d", ".big", (4, 0, 1, 2, 3))]
HUGE = [fixed("h_huge", [[2, 1]] + [[n, 0] for n in (2, 3, 4, 6, 8, 12, 16)], "source up to %d items; arguments any 64-bit value up to 2^64-9 (or if the next number is 1, up to 20 past the end): %d")]
ITER = [fixed("h_iter", [[n, n, c] for n in (2, 3, 4, 5, 6, 8, 10, 12)], "source up to %%d items, numbers up to %%d; %s" % w, ".%d" % c, (0, 1)) for c, w in enumerate(["buffer", "cursor", "nested cursor"])]
HELD = [fixed("h_held", [[2, 2, 0, 2], [3, 3, 0, 2], [4, 3, 0, 4], [4, 4, 0, 3], [5, 4, 0, 4], [5, 5, 0, 4]], "source up to %d items; %d operations; arguments up to %d", "", (0, 1, 3)),
        fixed("h_held", [[1, 2, 0, 1, 20], [2, 2, 0, 2, 20], [2, 3, 0, 2, 50], [3, 3, 0, 2, 50], [3, 4, 0, 2, 50], [4, 4, 0, 3, 100], [4, 4, 0, 4, 400]], "source up to %d, %d operations, arguments up to %d, all in multiples of %d items", ".big", (0, 1, 3, 4))]
USIZE = [fixed("h_to_usize", [[n, h] for n in (1, 2, 3, 4, 5, 6)], "up to %d free digits after fixed beginning %d", ".%d" % h) for h in range(6)]

# parsers whose tags and sets are symbolic too
SYM = entries("h_sym")
SYM_TAGS = [e for e in SYM if e.startswith("h_sym_tag")]
SYM_BYTES = [e for e in SYM if e.startswith("h_sym_b")]
SYM_SETS = [e for e in SYM if e.startswith(("h_sym_one", "h_sym_any", "h_sym_not"))]
SYM_COMB = ["h_sym_opt", "h_sym_vec", "h_sym_vec1", "h_sym_arr"]
SYM_LISTS = ["h_sym_list_no", "h_sym_list_yes", "h_sym_list_maybe"]
SYM_STRUCTS = ["h_sym_fix", "h_sym_ign", "h_sym_two"]
SYM_DERIVED = SYM_STRUCTS + SYM_LISTS + ["h_sym_alt", "h_sym_tree"]
SYM_FN = [e for e in SYM if e.startswith("h_symfn")]

CONTAINS = [fixed("h_contains", [[n]], "every scalar value; set number %d", ".%d" % n) for n in range(6)]

LONG_CLASSES = ["h_any_of", "h_any_of1", "h_while_not", "h_while_not_one"]
LONG_VECS = ["h_vec_tag", "h_vec_one", "h_vec_ws", "h_vec1_tag", "h_vec1_ws", "h_bvec_tag", "h_bvec1_one", "h_vec_arr", "h_vec_vec1", "h_vec1_box_arr", "h_box_vec", "h_vec_not"]
LONG_ARRS = ["h_arr40", "h_barr40", "h_arr2_digits", "h_arr_of_vec1"]
LONG_LISTS = ["h_list_plain", "h_list_sep", "h_list_yes", "h_list_maybe", "h_open", "h_open_yes", "h_open_maybe", "h_byte_list"]
LONG_SEQS = ["h_fixes", "h_parens", "h_outer", "h_tuple", "h_gaps", "h_unit", "h_two_ignores"]
LONG_ALTS = ["h_shapes", "h_wrapped", "h_backtrack", "h_lists", "h_choice"]
LONG_FN = ["h_list_fn_plain", "h_list_fn_sep", "h_list_fn_yes", "h_list_fn_maybe", "h_blist_sep", "h_blist_maybe"]
FREE = [e for e in entries("h_sample") if e.startswith("h_free")]
NEAR = [e for e in entries("h_sample") if e.startswith("h_near")]
FREE_REC = ["h_free_lisp", "h_free_xml"]
NEAR_REC = ["h_near_lisp", "h_near_xml"]
TERM = ["h_why_tag", "h_why_any1", "h_why_bany1", "h_why_vec1", "h_why_outer", "h_why_number", "h_why_packet", "h_why_wrapped", "h_why_parens2"]
REPS_FIELDS = ["h_list_plain", "h_list_sep", "h_list_no", "h_list_yes", "h_list_maybe", "h_open", "h_open_yes", "h_open_maybe", "h_byte_list"]
REPS_FN = [e for e in REPS if e in LISTFN]
PROPS = {
    "C01": HIST + WRAP + HUGE
         + HISTBIG + ITER[:1],
    "C02": CURS + HIST[2:3] + HIST[:1] + HUGE
         + CURSBIG + HISTBIG + ITER[1:],
    "C03": narrow(BUILTIN + DERIVED + TOKEN[:2], PULLS) + [lst(e, PULLS, ASCII) for e in LISTFN] + HIST[:1]
         + narrow(SYM_LISTS + ["h_sym_ign", "h_sym_alt", "h_sym_tag2", "h_sym_not", "h_sym_vec"], PULLS) + [lst(e, PULLS, ASCII) for e in SYM_FN[:4]]
         + long(LONG_CLASSES + LONG_VECS[:4] + LONG_LISTS[:4], PULLS) + long_lst(LONG_FN[:4], PULLS) + HISTBIG
         + near(NEAR, PULLS)
         + far(["h_any_of1", "h_while_not", "h_vec_tag"], PULLS)
         + reps(["h_list_sep", "h_list_fn_plain", "h_list_fn_sep"], PULLS),
    "C04": HELD + narrow(["h_heap_vec", "h_heap_opt", "h_heap_pairs"], LEAK)
         + long(["h_heap_vec"], LEAK, UNI),
    "C05": both(TAGS, PARSE) + both(TAGS, PEEK)
         + both(SYM_TAGS, PARSE) + both(SYM_TAGS, PEEK, False)
         + big300(["h_tag_300"], PARSE) + big300(["h_tag_300"], PEEK),
    "C06": both(BYTEP, PARSE) + both(BYTEP, PEEK)
         + both(SYM_BYTES, PARSE) + both(SYM_BYTES, PEEK)
         + long(["h_bany_of1"], PARSE) + long(["h_bany_of1"], PEEK)
         + big300(["h_btag_300"], PARSE) + big300(["h_btag_300"], PEEK)
         + far(["h_bany_of1"], PARSE) + far(["h_bany_of1"], PEEK),
    "C07": both(CLASSES, PARSE) + both(CLASSES, PEEK) + CONTAINS
         + both(SYM_SETS, PARSE) + both(SYM_SETS, PEEK)
         + long(LONG_CLASSES, PARSE) + long(LONG_CLASSES, PEEK) + long(["h_any_of1_wide", "h_while_not_wide"], PARSE, UNI)
         + far(LONG_CLASSES, PARSE) + far(LONG_CLASSES, PEEK),
    "C08": both(["h_eol", "h_space", "h_ws"], PARSE) + both(["h_eol", "h_space", "h_ws"], PEEK) + both(["h_vec_ws", "h_vec_eol", "h_arr2_eol"], PARSE)
         + long(["h_vec_ws", "h_vec_eol", "h_vec1_ws"], PARSE)
         + far(["h_vec_ws"], PARSE),
    "C09": both([e for e in BUILTIN if "_opt" in e or "_box" in e], PARSE) + narrow(["h_opt_unit", "h_heap_opt"], PARSE)
         + narrow([e for e in BUILTIN if "_opt" in e or "_box" in e], PEEK) + narrow([e for e in BUILTIN if "_opt" in e or "_box" in e], CTX)
         + both(["h_sym_opt"], PARSE) + narrow(["h_sym_opt"], CTX)
         + long(["h_opt_digits", "h_opt_vec1", "h_box_vec", "h_opt_not"], PARSE) + long(["h_opt_digits", "h_opt_vec1", "h_box_vec"], PEEK)
         + far(["h_opt_digits", "h_box_vec"], PARSE),
    "C10": both([e for e in BUILTIN if "vec" in e], PARSE) + narrow([e for e in BUILTIN if "vec" in e], PEEK)
         + narrow([e for e in BUILTIN if "vec" in e], CTX) + narrow(["h_tok_vec", "h_heap_vec", "h_heap_pairs"], PARSE)
         + narrow(["h_sym_vec", "h_sym_vec1"], PARSE) + narrow(["h_sym_vec", "h_sym_vec1"], PEEK)
         + long(LONG_VECS, PARSE) + long(LONG_VECS, PEEK) + long(["h_heap_vec"], PARSE, UNI)
         + [simple("h_views", UNI)]
         + far(LONG_VECS, PARSE) + far(LONG_VECS[:6], PEEK),
    "C11": both([e for e in BUILTIN if "arr" in e], PARSE) + narrow([e for e in BUILTIN if "arr" in e], PEEK)
         + narrow(["h_own_arr", "h_own_box_arr", "h_own_vec_arr"], LEAK) + narrow(["h_heap_pairs"], PARSE)
         + narrow(["h_sym_arr"], PARSE) + narrow(["h_sym_arr"], PEEK)
         + big300(["h_arr300", "h_barr300"], PARSE) + big300(["h_arr300", "h_barr300"], PEEK)
         + long(LONG_ARRS, PARSE) + long(LONG_ARRS, PEEK) + long(["h_own_arr", "h_own_vec_arr"], LEAK),
    "C12": both(BUILTIN, PEEK, False) + [conf(e, PEEK, UNI if e in BYTES else ASCII, on_buf=1) for e in BUILTIN] + narrow(TOKEN + OWN, PEEK)
         + narrow(SYM_TAGS + SYM_BYTES + SYM_SETS + SYM_COMB, PEEK)
         + long(LONG_CLASSES + LONG_VECS + LONG_ARRS + ["h_bany_of1", "h_opt_digits", "h_opt_vec1"], PEEK)
         + far(["h_any_of1", "h_while_not", "h_vec_tag", "h_vec1_tag"], PEEK),
    "C13": narrow([e for e in DERIVED + GEN if e not in CONVERTING], PEEK)
         + [conf(e, PEEK, UNI if e in BYTES else ASCII, on_buf=1) for e in ENUMS + LIST_FIELDS if e not in CONVERTING]
         + narrow(SYM_DERIVED, PEEK)
         + long(LONG_LISTS + LONG_SEQS + LONG_ALTS[:2], PEEK)
         + narrow(FREE, PEEK) + near(NEAR, PEEK)
         + far(["h_list_sep", "h_fixes", "h_parens"], PEEK)
         + reps(REPS_FIELDS + ["h_free_struct", "h_free_header"], PEEK),
    "C14": narrow(STRUCTS, PARSE) + narrow(GEN_S + GEN_N + GEN_C[:24] + GEN_W[:5], PARSE)
         + narrow(SYM_STRUCTS, PARSE)
         + long(LONG_SEQS, PARSE)
         + narrow(["h_free_struct", "h_free_field", "h_free_attribute", "h_free_header"], PARSE) + near(["h_near_struct", "h_near_http"], PARSE)
         + far(["h_fixes", "h_parens", "h_outer"], PARSE)
         + reps(["h_free_struct"], PARSE),
    "C15": narrow(ENUMS, PARSE) + narrow(GEN_E + GEN_N + GEN_C[24:] + GEN_W[5:], PARSE)
         + narrow(["h_sym_alt"], PARSE)
         + long(LONG_ALTS, PARSE)
         + narrow(["h_free_variant"], PARSE) + near(["h_near_enum"], PARSE)
         + far(["h_shapes", "h_choice"], PARSE),
    "C16": narrow(LIST_FIELDS, PARSE) + narrow(GEN_S + GEN_E + GEN_N, PARSE)
         + narrow(SYM_LISTS, PARSE)
         + long(LONG_LISTS + ["h_middle", "h_numbers", "h_lists"], PARSE)
         + narrow(["h_free_header"], PARSE) + near(["h_near_http"], PARSE)
         + far(LONG_LISTS, PARSE)
         + reps(REPS_FIELDS + ["h_numbers", "h_free_header"], PARSE),
    "C17": [lst(e, m, UNI if e in BYTES else ASCII) for e in LISTFN for m in (PARSE, CTX)]
         + [lst(e, m, ASCII) for e in SYM_FN for m in (PARSE, CTX)]
         + long_lst(LONG_FN, PARSE) + long_lst(LONG_FN, CTX)
         + reps(REPS_FN, PARSE) + reps(["h_list_fn_plain", "h_list_fn_sep", "h_list_fn_yes", "h_list_fn_maybe"], CTX),
    "C18": narrow(IGNORES, PARSE) + narrow(GEN, PARSE) + narrow(["h_gaps", "h_commented", "h_list_plain", "h_wrapped", "h_exp"], PEEK)
         + narrow(["h_sym_ign", "h_sym_two", "h_sym_alt"] + SYM_LISTS, PARSE)
         + long(["h_gaps", "h_unit", "h_two_ignores", "h_list_plain", "h_list_sep", "h_list_yes", "h_list_maybe", "h_commented", "h_wrapped"], PARSE)
         + narrow(["h_free_field", "h_free_variant", "h_free_header"], PARSE) + near(NEAR, PARSE)
         + far(["h_unit", "h_gaps", "h_list_plain"], PARSE)
         + reps(["h_list_maybe", "h_list_plain", "h_exp", "h_free_lisp"], PARSE),
    "C19": [simple(e, UNI if e in BYTES else ASCII) for e in TOP]
         + [simple_long(e) for e in TOP if e != "h_top_exp"],
    "C20": USIZE + narrow(["h_number", "h_numbers", "h_backtrack", "h_order", "h_choice", "h_gen_s00"], PARSE)
         + [lst(e, PARSE, ASCII) for e in LISTFN if e.startswith(("h_num", "h_word"))]
         + long(["h_number", "h_numbers"], PARSE) + long_lst(["h_num_plain", "h_num_sep", "h_num_yes", "h_num_maybe"], PARSE)
         + reps([e for e in REPS if e.startswith("h_num")], PARSE),
    "C21": narrow(BUILTIN + DERIVED + OWN + TOKEN, LEAK) + [lst(e, LEAK, ASCII) for e in LISTFN if e.startswith(("h_num", "h_word"))] + HELD
         + long(["h_own_vec", "h_own_vec1", "h_own_struct", "h_own_enum"] + LONG_LISTS[:4] + LONG_ARRS[:1] + LONG_CLASSES[:3], LEAK) + long_lst(["h_word_plain", "h_word_sep", "h_word_yes", "h_word_maybe", "h_num_sep"], LEAK)
         + near(NEAR, LEAK)
         + far(["h_own_vec", "h_list_sep"], LEAK)
         + reps(["h_list_sep", "h_word_sep", "h_free_struct"], LEAK),
    "C22": [conf(e, TOTAL, UNI) for e in BUILTIN if e not in BYTES] + narrow(BUILTIN + DERIVED + GEN_N + TOKEN, TOTAL)
         + narrow(SYM_DERIVED + SYM_COMB + ["h_sym_not", "h_sym_any"], TOTAL)
         + long(LONG_CLASSES + LONG_VECS + LONG_LISTS + LONG_SEQS[:3] + LONG_ALTS[:2], TOTAL) + deep(RECURSIVE, TOTAL)
         + near(NEAR, TOTAL)
         + far(["h_any_of1", "h_while_not", "h_vec_tag", "h_vec1_tag", "h_list_sep"], TOTAL)
         + reps(["h_list_sep", "h_open_maybe", "h_exp", "h_free_struct"], TOTAL),
    "C23": narrow([e for e in BUILTIN + DERIVED + GEN_N if e not in RECURSIVE], CTX) + narrow(TOKEN, CTX)
         + narrow(SYM_DERIVED + SYM_COMB, CTX)
         + narrow([e for e in BUILTIN + DERIVED + GEN_N + TOKEN if e not in RECURSIVE], CTXPEEK)
         + long(LONG_CLASSES + LONG_VECS[:6] + LONG_LISTS + LONG_SEQS[:4] + LONG_ALTS[:2], CTX)
         + near(["h_near_struct", "h_near_enum", "h_near_http"], CTX)
         + far(["h_vec_tag", "h_any_of1", "h_list_sep"], CTX)
         + reps(["h_list_sep", "h_open_maybe"], CTX),
    "C24": narrow(RECURSIVE, PARSE) + narrow(RECURSIVE, PEEK) + narrow(RECURSIVE, CTX)
         + narrow(["h_sym_tree"], PARSE) + narrow(["h_sym_tree"], PEEK) + narrow(["h_sym_tree"], CTX)
         + deep(RECURSIVE, PARSE) + deep(RECURSIVE, PEEK) + deep(RECURSIVE, CTX)
         + narrow(FREE_REC, PARSE) + narrow(FREE_REC, PEEK) + near(NEAR_REC, PARSE) + near(NEAR_REC, PEEK) + near(NEAR_REC, CTX)
         + reps(["h_exp", "h_free_lisp"], PARSE) + reps(["h_exp", "h_free_lisp"], PEEK),
    "C25": [simple(e, UNI if e in BYTES else ASCII) for e in ERR]
         + [simple_long(e) for e in ERR]
         + [first(e, ASCII) for e in GEN_WHY],
    "C26": [simple(e, UNI if e in BYTES else ASCII) for e in WHY + GEN_WHY]
         + [terminated(e, UNI if e in BYTES else ASCII) for e in TERM]
         + [simple_long(e) for e in WHY if e != "h_why_btag"],  # its messages print every value of two bytes
    "C27": [simple(e, UNI) for e in GUARD] + [simple_long(e) for e in GUARD],
}


def all_families():
    fams = {}
    for p in PROPS.values():
        for f in p:
            fams[f.key] = f
    return fams


if __name__ == "__main__":
    print({k: len(v) for k, v in PROPS.items()}, len(all_families()))
