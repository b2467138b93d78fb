#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one list below (run after editing it)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from vlib.props import PROPS

S = "src/"
def P(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = dict(files=[S + f for f in files], mechanism=[dict(name=n, where=S + w) for n, w in mech])
    if state: a["state"] = [dict(name=n, meaning=m, where=S + w) for n, m, w in state]
    a["observe_at"] = observe or ["return values and memory of the exported extern \"C\" functions"]
    a["hook_needed"] = None
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a)

LIST = [
P("P01", "R_TRIG and F_TRIG fire on exactly the scans on which the input changes",
  "In every sequence of calls on one instance, R_TRIG sets Q exactly on the calls where CLK is TRUE and was FALSE on the previous call, and F_TRIG exactly on those where CLK is FALSE and was TRUE on the previous call. A fresh instance behaves as if CLK had been FALSE before, and the call changes nothing but Q and the instance's private memory.",
  ["histories", "inputs"], "every call sequence on an instance, hence every state of its memory and every input",
  "The tests feed a few fixed CLK sequences; missed or doubled edges only show on particular histories.",
  ["flanks.rs", "utils.rs"], [("R_TRIG", "flanks.rs"), ("F_TRIG", "flanks.rs"), ("Signal::rising_edge/falling_edge", "utils.rs")],
  [("internal", "the input of the previous call", "flanks.rs")]),
P("P02", "SR and RS latch with the stated dominance in every history",
  "After each call, SR's output is TRUE if SET is TRUE, otherwise FALSE if RESET is TRUE, otherwise what it was; RS's output is FALSE if RESET is TRUE, otherwise TRUE if SET is TRUE, otherwise what it was. The inputs are left untouched.",
  ["histories", "inputs"], "every previous output and every SET/RESET combination, hence every call sequence",
  "The tests run fixed sequences through the ST compiler; dominance errors show only on simultaneous SET and RESET with a particular previous output.",
  ["bistable_functionblocks.rs"], [("SR", "bistable_functionblocks.rs"), ("RS", "bistable_functionblocks.rs")],
  [("output", "the latched value", "bistable_functionblocks.rs")]),
P("P03", "CTU counts each rising edge of CU once, saturates, and R clears it",
  "On every call of CTU or a typed variant, R sets CV to 0; otherwise CV rises by one exactly when CU is TRUE and was FALSE when last looked at, unless CV is already the type's maximum. Q is always CV >= PV, and CV never overflows.",
  ["histories", "inputs"], "every counter state, PV, CV and input of every counter type, hence every call sequence",
  "Tests count a handful of edges; the saturation bound of the 64-bit types and edges hidden under R are out of their reach.",
  ["counters.rs", "utils.rs"], [("ctu", "counters.rs"), ("CTUParams::update_q/reset/inc/r_edge", "counters.rs")],
  [("cv", "current count", "counters.rs"), ("internal", "edge memory of CU", "counters.rs")]),
P("P04", "CTD counts each rising edge of CD down once, saturates, and LD loads PV",
  "On every call of CTD or a typed variant, LD sets CV to PV; otherwise CV falls by one exactly when CD is TRUE and was FALSE when last looked at, unless CV is already the type's minimum. Q is always CV <= 0, and CV never underflows.",
  ["histories", "inputs"], "every counter state, PV, CV and input of every counter type, hence every call sequence",
  "Tests count a handful of edges; underflow at the type's minimum and edges hidden under LD are out of their reach.",
  ["counters.rs", "utils.rs"], [("ctd", "counters.rs"), ("CTDParams::update_q/load/dec/ld_edge", "counters.rs")],
  [("cv", "current count", "counters.rs")]),
P("P05", "CTUD counts up and down with R over LD over edges, and saturates",
  "On every call of CTUD or a typed variant, R sets CV to 0, else LD sets it to PV, else a rising edge on exactly one of CU and CD moves CV by one in that direction unless the type's bound is reached, and simultaneous edges leave CV alone. QU is always CV >= PV and QD always CV <= 0.",
  ["histories", "inputs"], "every counter state and input of every counter type, hence every call sequence",
  "The input space (four control inputs, two edge memories, two values) is sampled at a few points; simultaneous edges at a type bound are not.",
  ["counters.rs", "utils.rs"], [("ctud", "counters.rs"), ("CTUDParams", "counters.rs")],
  [("cv", "current count", "counters.rs"), ("internal_up/internal_down", "edge memories", "counters.rs")]),
P("P06", "TP emits one pulse of length PT per trigger and ET never exceeds PT",
  "A rising edge of IN while idle starts a pulse: Q stays TRUE for as long as the elapsed time is within PT whatever IN does, and is FALSE afterwards until the next rising edge; a fresh instance is idle. ET is 0 at the start, follows the elapsed time, never exceeds PT, and falls back to 0 once the pulse is over and IN is FALSE; no call panics.",
  ["histories", "schedules", "inputs"], "every call history on zero-initialised memory, every PT >= 0, every non-decreasing clock",
  "Tests step a mock clock through a few fixed histories; re-triggering and IN falling at other moments, and the clock moving inside a call, are not reached.",
  ["timers.rs", "utils.rs"], [("TP", "timers.rs"), ("TimerParams::update_elapsed_time", "timers.rs")],
  [("start_time/running", "when the current pulse began", "timers.rs"), ("input_edge", "previous IN", "timers.rs")]),
P("P07", "TON delays the rising edge by PT and drops at once with IN",
  "Q is TRUE exactly when IN has been TRUE without interruption since a rising edge longer than PT ago, as measured at the calls. ET is the smaller of PT and the time since that edge while IN is TRUE and 0 while IN is FALSE, and ET and Q of one call never contradict each other.",
  ["histories", "schedules", "inputs"], "every call history on zero-initialised memory, every PT >= 0, every non-decreasing clock",
  "Tests step a mock clock through a few fixed histories; the real clock moves between two readings in one call, which no mock shows.",
  ["timers.rs", "utils.rs"], [("TON", "timers.rs"), ("TimerParams", "timers.rs")],
  [("start_time/running", "when the delay began", "timers.rs")]),
P("P08", "TOF holds Q for PT after IN falls and follows IN at once when it rises",
  "Q is TRUE while IN is TRUE, and after IN falls it stays TRUE for as long as the elapsed time is within PT, then FALSE; an instance whose IN was never TRUE keeps Q FALSE. ET is 0 while IN is TRUE and the smaller of PT and the time since the falling edge afterwards.",
  ["histories", "schedules", "inputs"], "every call history on zero-initialised memory, every PT >= 0, every non-decreasing clock",
  "Tests step a mock clock through a few fixed histories on Default-initialised memory, which is not the zeroed memory a PLC program provides.",
  ["timers.rs", "utils.rs"], [("TOF", "timers.rs"), ("TimerParams", "timers.rs")],
  [("start_time/running", "when IN fell", "timers.rs")]),
P("P09", "SHL and SHR shift by any amount, filling with zeros",
  "For every operand and every shift count, SHL and SHR of BYTE, WORD, DWORD and LWORD return the operand shifted by that count with zeros shifted in, which is 0 once the count reaches the operand's width; no count panics or wraps around.",
  ["inputs"], "all operands of all four widths and all 2^32 counts",
  "Tests shift a few constants by small counts; counts at and beyond the width behave differently in debug and release builds.",
  ["bit_shift_functions.rs"], [("SHL__*/SHR__*", "bit_shift_functions.rs")]),
P("P10", "ROL and ROR rotate losslessly by any amount",
  "For every operand and count, ROL moves each bit up by count modulo the operand's width and ROR moves it down, so each undoes the other and no bit is lost.",
  ["inputs"], "all operands of all four widths and all 2^32 counts",
  "Tests rotate a few constants by small counts.",
  ["bit_shift_functions.rs"], [("ROL__*/ROR__*", "bit_shift_functions.rs")]),
P("P11", "Endianness conversions swap or keep bytes exactly and invert each other",
  "TO_BIG_ENDIAN reverses the operand's bytes and TO_LITTLE_ENDIAN keeps them (on this little-endian target), the FROM functions undo what a peer of the other order did as documented, and for every type and value the conversion is a bijection on bit patterns, including NaN payloads of REAL and LREAL.",
  ["inputs"], "every value of every one of the fifteen types",
  "Tests convert one constant per type; a swap of the wrong width or a numeric instead of bitwise move agrees on many constants.",
  ["endianness_conversion_functions.rs"], [("TO_BIG_ENDIAN__*, TO_LITTLE_ENDIAN__*, FROM_*", "endianness_conversion_functions.rs")]),
P("P12", "IS_VALID and IS_VALID_BCD classify every bit pattern correctly",
  "IS_VALID is TRUE exactly for the REAL and LREAL bit patterns that are neither NaN nor infinite. IS_VALID_BCD is TRUE exactly when every 4-bit digit of the operand is at most 9.",
  ["inputs"], "every bit pattern of REAL, LREAL, BYTE, WORD, DWORD and LWORD",
  "Tests check a few constants; a digit position left out only shows on operands wrong in that digit alone.",
  ["validation_functions.rs"], [("is_valid_bcd", "validation_functions.rs"), ("IS_VALID__REAL/LREAL", "validation_functions.rs")]),
P("P13", "MAX, MIN and LIMIT select the extreme and the clamped value",
  "MAX and MIN of any non-empty argument list return an element of the list that no element exceeds (falls below), ignoring NaN elements of REAL and LREAL when a number is present, and reject a null list. LIMIT returns IN clamped to MN and MX: MN if IN is less than MN, otherwise MX if IN is greater than MX, otherwise IN.",
  ["inputs"], "every list length and content, every type; every MN, IN, MX including NaN and MN > MX",
  "Tests use lists of a few constants for a few types; position-dependent and NaN behaviour is not reached.",
  ["types.rs"], [("define_order_type!/define_float_type!", "types.rs"), ("limit", "types.rs")]),
P("P14", "REAL/DWORD and LREAL/LWORD conversions are bit-exact and mutually inverse",
  "DWORD_TO_REAL, REAL_TO_DWORD, LWORD_TO_LREAL and LREAL_TO_LWORD reinterpret the 32 or 64 bits unchanged, for every bit pattern including NaNs, infinities, subnormals and signed zero.",
  ["inputs"], "all 2^32 and 2^64 bit patterns",
  "Tests convert one or two constants; a numeric conversion agrees with the bitwise one on 0.",
  ["bit_num_conversion.rs"], [("DWORD_TO_REAL etc.", "bit_num_conversion.rs")]),
P("P15", "CHAR_TO_WCHAR and WCHAR_TO_CHAR agree with Unicode and round-trip",
  "CHAR_TO_WCHAR maps every CHAR to the UTF-16 unit of the same code point. WCHAR_TO_CHAR yields the first byte of the UTF-8 form of the unit, with the replacement character standing for a lone surrogate, so every 7-bit character converts back to itself.",
  ["inputs"], "all 256 CHAR and all 65536 WCHAR values",
  "Tests convert a single letter each way.",
  ["string_conversion.rs"], [("WCHAR_TO_CHAR", "string_conversion.rs"), ("CHAR_TO_WCHAR", "string_conversion.rs")]),
P("P16", "Elementary functions and constants are the ones their names say",
  "For every argument, SQRT, LN, LOG, EXP, SIN, COS, TAN, ASIN, ACOS, ATAN, ATAN2 and EXPT in REAL and LREAL return what the platform's function of that name and precision returns for those operands in that order, and the exported constants hold pi, its fractions and e in their type's precision. No argument panics.",
  ["inputs"], "every bit pattern of every operand",
  "Tests evaluate one argument per function with a tolerance; swapped operands, a wrong precision or a special-cased argument can agree there.",
  ["arithmetic_functions.rs"], [("SQRT__* .. ATAN2__*, EXPT__*", "arithmetic_functions.rs"), ("PI_LREAL .. E_LREAL", "arithmetic_functions.rs")]),
P("P17", "ROUND rounds to the nearest integer, halves away from zero",
  "For every finite argument ROUND returns an integral value of the argument's sign that is nearest to it, choosing the one farther from zero on a tie; NaN, infinities and integral arguments are returned as they are.",
  ["inputs"], "every bit pattern of REAL and LREAL",
  "Tests round two constants; ties, negative values and magnitudes beyond the mantissa differ between plausible implementations.",
  ["numerical_functions.rs"], [("ROUND__REAL/ROUND__LREAL", "numerical_functions.rs")]),
P("P18", "TIME, DATE, TOD and DT addition and subtraction is exact or rejected",
  "ADD_TIME, ADD_TOD_TIME, ADD_DT_TIME, SUB_TIME, SUB_DATE_DATE, SUB_TOD_TIME, SUB_TOD_TOD, SUB_DT_TIME and SUB_DT_DT return the mathematically exact sum or difference of their nanosecond operands, in the documented order. When the exact result does not fit 64 bits the call is rejected with a panic and never returns a wrong value.",
  ["inputs"], "all pairs of 64-bit operands",
  "Tests add a few dates and one overflow; the overflow boundary and negative operands are 2^128 pairs.",
  ["date_time_numeric_functions.rs"], [("ADD_*, SUB_*", "date_time_numeric_functions.rs"), ("add_datetime_time, sub_datetimes, sub_datetime_duration", "date_time_numeric_functions.rs")]),
P("P19", "TIME times and divided by integers is exact or rejected",
  "MUL and DIV of TIME and LTIME with every integer type return the exact product, or the quotient truncated towards zero. Overflow and division by zero are rejected with a panic; no operand gives a wrong value (a ULINT operand of 2^63 or more may be rejected instead).",
  ["inputs"], "all 64-bit times and all values of the eight integer types, in all three naming families",
  "Tests multiply a few constants per type; sign and overflow boundaries are not covered for most of the 48 functions.",
  ["date_time_numeric_functions.rs"], [("checked_mul/div_time_*_int", "date_time_numeric_functions.rs")]),
P("P20", "TIME times and divided by REAL and LREAL keeps sign and scale or is rejected",
  "MUL and DIV of TIME and LTIME with REAL and LREAL return the magnitude the platform's duration arithmetic gives for the magnitudes in that precision, negated exactly when one operand is negative. A result that is not finite or whose magnitude exceeds 2^63 - 1 ns (and division by zero) is rejected with a panic.",
  ["inputs"], "all 64-bit times and all bit patterns of the factor",
  "Tests multiply a few constants; signs, NaN, infinities and the overflow boundary are sampled at most once.",
  ["date_time_numeric_functions.rs"], [("checked_mul_time_with_f32/f64, checked_div_time_by_f32/f64", "date_time_numeric_functions.rs")]),
P("P21", "CONCAT_DATE, CONCAT_TOD and CONCAT_DATE_TOD build the instant named or reject",
  "For every integer type, CONCAT_DATE and CONCAT_TOD return the nanoseconds of exactly the date or time of day their arguments name, and panic when the arguments name none (or one not representable). CONCAT_DATE_TOD returns midnight of the DATE's day plus the time of day of its second operand.",
  ["inputs"], "all argument tuples of all the integer types, valid and invalid",
  "Tests build a few valid dates; arguments outside the calendar, at the representable limits, or beyond 32 bits are sampled once or not at all.",
  ["date_time_extra_functions.rs"], [("concat_date", "date_time_extra_functions.rs"), ("concat_tod", "date_time_extra_functions.rs"), ("CONCAT_DATE_TOD", "date_time_extra_functions.rs")]),
P("P22", "SPLIT_DATE/TOD/DT, DAY_OF_WEEK and DT_TO_DATE/TOD decompose every instant",
  "For every instant, before and after 1970, each output receives the proleptic Gregorian UTC field of its name and the call returns 0, a year that does not fit the output type is rejected with a panic, and the weekday counts from Sunday = 0. DATE_AND_TIME_TO_DATE is the midnight at or before the instant (rejected with a panic when 64 bits cannot hold it) and DATE_AND_TIME_TO_TIME_OF_DAY the rest, and concatenating the split fields gives the instant back to the millisecond.",
  ["inputs"], "all 2^64 instants, all output types",
  "Tests split a few dates; leap years, negative instants and swapped outputs on symmetric values are not reached.",
  ["date_time_extra_functions.rs", "date_time_conversion.rs"], [("SPLIT_*", "date_time_extra_functions.rs"), ("DAY_OF_WEEK", "date_time_extra_functions.rs"), ("DATE_AND_TIME_TO_*", "date_time_conversion.rs")]),
P("P23", "LEFT, RIGHT and MID return exactly the requested characters or reject",
  "For every well-formed STRING and WSTRING, LEFT, RIGHT and MID write the requested run of characters, never splitting one, followed by a terminator, and nothing else. A negative or too large length, or a position outside the string, is rejected with a panic.",
  ["inputs"], "all well-formed strings of any length and all 32-bit lengths and positions",
  "Tests use a few strings; characters of other encoded lengths, boundary lengths and negative arguments combine into an unbounded space.",
  ["string_functions.rs"], [("LEFT_EXT__*, RIGHT_EXT__*, MID_EXT__*", "string_functions.rs")]),
P("P24", "INSERT, DELETE and REPLACE edit exactly the addressed characters or reject",
  "For every well-formed STRING and WSTRING, the result is the base string with the second string inserted after the given character, the given run of characters deleted, or that run replaced, followed by a terminator, and nothing else is written. A position or count that is negative or outside the base string is rejected with a panic.",
  ["inputs"], "all well-formed strings of any length and all 32-bit positions and counts",
  "Tests edit a few strings at a few positions; negative counts and boundary positions are not reached.",
  ["string_functions.rs"], [("INSERT_EXT__*, DELETE_EXT__*, REPLACE_EXT__*", "string_functions.rs")]),
P("P25", "LEN counts characters and FIND returns the first occurrence, one-based",
  "LEN returns the number of characters before the terminator of a well-formed STRING or WSTRING. FIND returns the one-based character position of the first occurrence of the second string in the first, and 0 when there is none or either string is empty.",
  ["inputs"], "all well-formed strings of any length",
  "Tests search a few strings; repeated prefixes and multi-byte characters before the match are not explored.",
  ["string_functions.rs"], [("LEN__*, FIND__*", "string_functions.rs"), ("get_null_terminated_len", "string_functions.rs")]),
P("P26", "CONCAT joins all its arguments in order",
  "For every number of well-formed STRING or WSTRING arguments, CONCAT writes their characters one after another in argument order, followed by a terminator, and nothing else. A null destination or argument list is rejected with a panic.",
  ["inputs"], "every argument count, and all strings of any length",
  "Tests join a few strings; the number and content of the arguments are unbounded.",
  ["string_functions.rs"], [("CONCAT_EXT__*, CONCAT__*", "string_functions.rs")]),
P("P27", "String comparisons hold exactly when every neighbouring pair is ordered",
  "GT, GE, EQ, LE and LT over any two or more STRING or WSTRING arguments return TRUE exactly when each argument stands in that relation to the next in code-unit order, and NE exactly when its two arguments differ. Fewer than two arguments are rejected with a panic.",
  ["inputs"], "every argument count, and all strings of any length, including prefixes of one another and empty ones",
  "Tests compare a few strings; a violated pair at another position, prefixes and non-ASCII units are not reached.",
  ["string_functions.rs"], [("compare", "string_functions.rs"), ("GT__* .. LT__*, NE__*", "string_functions.rs")]),
P("P28", "String reading and writing stays inside the terminated string and is lossless",
  "Reading a string looks at no unit beyond its first terminator and treats a null pointer as empty; writing characters puts down exactly their encoded units and one terminator, in order, leaves everything else alone and ends at the terminator. Decoding what was written gives the same characters back.",
  ["inputs"], "all buffers and strings of any length",
  "Tests use zero-filled oversized buffers, which hide reads and writes beyond the terminator.",
  ["string_functions.rs"], [("get_null_terminated_len, ptr_to_slice", "string_functions.rs"), ("CharsEncoder::encode, CharsDecoder::decode", "string_functions.rs")]),
P("P29", "STRING/WSTRING conversions preserve every character and terminate the result",
  "STRING_TO_WSTRING and WSTRING_TO_STRING write the same sequence of characters in the other encoding, with the replacement character for each unpaired surrogate, followed by a terminator, whatever the destination held before. A well-formed string converted there and back is unchanged.",
  ["inputs"], "all STRINGs and WSTRINGs of any length, any prior content of the destination",
  "Tests convert a few strings into zeroed buffers; surrogates and stale buffer content are not combined.",
  ["string_conversion.rs", "string_functions.rs"], [("WSTRING_TO_STRING_EXT", "string_conversion.rs"), ("STRING_TO_WSTRING_EXT", "string_conversion.rs")]),
P("P30", "Number-to-STRING conversions give the exact documented text, terminated",
  "BYTE, LWORD and LINT convert to their decimal text; REAL and LREAL to the value rounded to six decimals, or in scientific notation with six decimals when the magnitude reaches 1e6 (REAL) or 1e14 (LREAL). The text is terminated whatever the destination held before, fits the default string, and no value panics.",
  ["inputs"], "all values of BYTE, LWORD, LINT, REAL and LREAL, any prior content of the destination",
  "Tests convert a few values into zeroed buffers; large negative magnitudes and stale buffer content are not reached.",
  ["extra_functions.rs"], [("BYTE_/LWORD_/LINT_/LREAL_/REAL_TO_STRING_EXT", "extra_functions.rs")]),
P("P31", "STRING-to-number conversions return the denoted value or reject",
  "STRING_TO_LINT and STRING_TO_DINT return the value the text denotes: after an optional prefix an optional sign and then digits, in base 16 (prefix 16#, 0x or 0X), 8 (8#), 2 (2#, 0b or 0B) or, without a prefix, 10; STRING_TO_REAL and STRING_TO_LREAL return the nearest number. Any other text, and any value outside the result type, is rejected with a panic.",
  ["inputs"], "all strings of any length",
  "Tests parse a few literals; range boundaries, signs, and malformed texts are an unbounded space.",
  ["extra_functions.rs"], [("string_to_int", "extra_functions.rs"), ("string_to_float", "extra_functions.rs")]),
P("P32", "Time-to-STRING conversions name the exact instant or duration, terminated",
  "DATE, TOD and DT convert to the calendar date and UTC time of day of the instant in the documented format; TIME converts to its non-zero components from days down to nanoseconds, which add up to the duration, with a minus sign in front of a negative duration. The text is terminated whatever the destination held before, and no value panics.",
  ["inputs"], "all 64-bit times, any prior content of the destination",
  "Tests convert one value each into zeroed buffers; zero and negative durations and stale buffer content are not reached.",
  ["extra_functions.rs"], [("TIME_TO_STRING_EXT, parse_timestamp", "extra_functions.rs"), ("DT_/DATE_/TOD_TO_STRING_EXT", "extra_functions.rs")]),
P("P33", "TIME() returns the nanoseconds since local midnight",
  "TIME() returns the number of nanoseconds the local clock shows past midnight, taken from one reading of the clock, for every time of day.",
  ["inputs"], "every reading of the local clock",
  "Tests check a few mock readings with a fixed sub-second part.",
  ["extra_functions.rs"], [("TIME", "extra_functions.rs")]),
P("P34", "The ST function bodies and declarations match the exported implementations",
  "Every ST declaration shipped with the library names an exported implementation with the same parameters, and the functions written in ST themselves (selectors, overload dispatch) compute what their documentation says.",
  ["programs", "inputs"], "every ST program using the library and every argument",
  "The integration tests need the rusty compiler, which is not available here.",
  ["lib.rs"], [("iec61131-st/*.st", "../iec61131-st")]),
P("P35", "Elementary functions are accurate to the platform's stated error",
  "SQRT is correctly rounded and the other elementary functions return results within the usual error of the platform's mathematical library for every argument.",
  ["inputs"], "every bit pattern of every operand",
  "Tests check one value each with a tolerance.",
  ["arithmetic_functions.rs"], [("SQRT__* .. EXPT__*", "arithmetic_functions.rs")]),
]
NOT_APPLICABLE = {
 "P34": "The bodies are IEC 61131-3 ST text compiled by rusty (a git dependency on LLVM, absent offline): no deductive verifier here accepts ST, and a hand translation would be a model.",
 "P35": "The arithmetic is libm/compiler-intrinsic code outside the crate and outside the reach of Verus and Kani contracts; P16 proves that each function forwards to the right one with the right operands.",
}
NOTE_KANI = ("Kani function contracts on the exported functions of the compiled crate itself, all inputs, no bound; trusts rustc's lowering, Kani/CBMC and CaDiCaL. "
             "A native evaluation of the same contracts replays counterexamples.")
NOTE_VERUS = ("Verus contracts on the function text extracted from /repo on every run (what the extraction drops: DESIGN.md), all inputs, all iterations; trusts Verus/Z3, "
              "the extraction and the stated contracts on std and chrono, which the native evaluation of the same contracts samples.")

def main():
    with open(f"{ROOT}/properties.jsonl", "w") as f:
        for p in LIST:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    checks, na = [], []
    for p in LIST:
        i = p["id"]
        if i in PROPS:
            c = PROPS[i]
            eng = [e for e in ("kani", "verus") if c.get(e)]
            note = c.get("note") or " ".join({"kani": NOTE_KANI, "verus": NOTE_VERUS}[e] for e in eng)
            checks.append(dict(property=i, quick_cmd=f"./check {i} quick", thorough_cmd=f"./check {i} thorough",
                technique="deductive contract verification: " + " and ".join({"kani": "Kani function contracts (CBMC) on the compiled crate", "verus": "Verus contracts on mechanically extracted source"}[e] for e in eng),
                level=c.get("level", "proof"), level_note=note))
        else:
            na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, "Contracts for these functions are not built yet; the check is in progress (DESIGN.md).")))
    m = dict(version=1, setup_cmd="./setup", hooks=dict(guard="none", enable="no hooks: /repo is built unmodified; the feature mock_time it already has gives the native replay of the timers a clock", source_commits=[]),
             checks=checks, not_applicable=na,
             notes="Repairs of genuine defects are 'fix:' commits in /repo, listed in known_findings.txt.")
    json.dump(m, open(f"{ROOT}/MANIFEST.json", "w"), indent=1)
    import jsonschema
    for path, obj in (("MANIFEST", m),):
        jsonschema.validate(obj, json.load(open("/root/.vp/MANIFEST.schema.json")))
    sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p in LIST: jsonschema.validate(p, sch)
main()
