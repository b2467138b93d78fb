reg! {
    "p01" p01_edges: edges, edge_histories;
    "p02" p02_bistable: bistable, bistable_histories;
    "p03" p03_counters: ctu_int, ctu_dint, ctu_udint, ctu_lint, ctu_ulint, ctd_int, ctd_dint, ctd_udint, ctd_lint, ctd_ulint,
        ctud_int, ctud_dint, ctud_udint, ctud_lint, ctud_ulint,
        ctu_hist_int, ctu_hist_dint, ctu_hist_udint, ctu_hist_lint, ctu_hist_ulint, ctd_hist_int, ctd_hist_dint, ctd_hist_udint, ctd_hist_lint, ctd_hist_ulint, ctud_hist_int, ctud_hist_dint, ctud_hist_udint, ctud_hist_lint, ctud_hist_ulint;
    "p09" p09_bits: shift_byte, shift_word, shift_dword, shift_lword, rotate_byte, rotate_word, rotate_dword, rotate_lword;
    "p11" p11_endian: int, dint, lint, uint, udint, ulint, word, dword, lword, wchar, date, tod, dt, real32, lreal;
    "p06" p06_timers: step_tp, step_ton, step_tof, hist_tp, hist_ton, hist_tof, long_tp, long_ton, long_tof;
    "p12" p12_valid: floats, bcd_digits;
    "p13" p13_select: limits, lists, float_limits, float_lists;
    "p14" p14_bits: casts, inverse;
    "p15" p15_chars: chars, round_trip;
    "p17" p17_round: round;
    "p16" p16_math: reals, lreals, constants;
    "p18" p18_time_sum: sums;
    "p19" p19_time_int: mul, div, div_big, mul_big;
    "p20" p20_time_real: mul_real, mul_lreal, div_real, div_lreal;
    "p21" p21_concat_time: dates, tods, joined;
    "p22" p22_split_time: split, parts;
    "p33" p33_clock: clock;
    "p23" p23_runs: string, wstring;
    "p24" p24_edits: string, wstring;
    "p25" p25_find: string, wstring;
    "p26" p26_concat: string, wstring;
    "p27" p27_compare: string, wstring, few_string, few_wstring;
    "p28" p28_memory: string, wstring, ill_formed;
    "p29" p29_convert: convert;
    "p30" p30_text: texts;
    "p31" p31_parse: whole, reals, noise;
    "p32" p32_times: texts;
}
