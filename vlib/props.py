"""Which contracts decide which property."""


def K(feature, *prefixes, mock=False, bounded=(), timeout=120, search=None, lazy=()):
    """prefixes: Kani harnesses; search: native targets (default the same); lazy: harnesses run only in the thorough tier
    and to decide whether a failed step harness starts from a reachable state."""
    return dict(feature=feature, prefixes=list(prefixes), mock=mock, bounded=list(bounded), timeout=timeout,
                search=search or list(prefixes), lazy=list(lazy))


TIMER = ["PT >= 0 and the clock stays below 4e9 s (126 years of uptime)", "std::time::Instant::now is stubbed by an arbitrary non-decreasing clock"]

def V(spec, feature, *search, **kw):
    """A property decided by Verus contracts (verus/specs/<spec>.py); feature/search: the same contracts natively."""
    return dict(verus=dict(spec=spec, **kw), native=dict(feature=feature, search=list(search)))


PROPS = {
    "P01": dict(kani=K("p01", "p01_edges::")),
    "P02": dict(kani=K("p02", "p02_bistable::")),
    "P03": dict(kani=K("p03", "p03_counters::ctu_")),
    "P04": dict(kani=K("p03", "p03_counters::ctd_")),
    "P05": dict(kani=K("p03", "p03_counters::ctud_")),
    "P06": dict(kani=K("p06", "p06_timers::step_tp::", search=["p06_timers::hist_tp::", "p06_timers::long_tp::"], lazy=["p06_timers::hist_tp::"], mock=True, bounded=["::hist_"]),
                confirm=dict(state_harness="::step_"), assumptions=TIMER),
    "P07": dict(kani=K("p06", "p06_timers::step_ton::", search=["p06_timers::hist_ton::", "p06_timers::long_ton::"], lazy=["p06_timers::hist_ton::"], mock=True, bounded=["::hist_"]),
                confirm=dict(state_harness="::step_"), assumptions=TIMER),
    "P08": dict(kani=K("p06", "p06_timers::step_tof::", search=["p06_timers::hist_tof::", "p06_timers::long_tof::"], lazy=["p06_timers::hist_tof::"], mock=True, bounded=["::hist_"]),
                confirm=dict(state_harness="::step_"), assumptions=TIMER),
    "P09": dict(kani=K("p09", "p09_bits::shift_")),
    "P10": dict(kani=K("p09", "p09_bits::rotate_")),
    "P11": dict(kani=K("p11", "p11_endian::")),
    "P12": dict(kani=K("p12", "p12_valid::")),
    "P13": dict(kani=K("p13", "p13_select::", bounded=["lists::"], timeout=300), verus=dict(spec="p13")),
    "P14": dict(kani=K("p14", "p14_bits::")),
    "P15": dict(kani=K("p15", "p15_chars::")),
    "P17": dict(kani=K("p17", "p17_round::")),
    "P16": dict(kani=K("p16", "p16_math::"), assumptions=["the platform's elementary functions are uninterpreted (any deterministic function of their operands' values; NaN operands not told apart)"]),
    "P18": V("p18", "p18", "p18_time_sum::"),
    "P19": V("p19", "p19", "p19_time_int::"),
    "P20": V("p20", "p20", "p20_time_real::"),
    "P21": V("p21", "p21", "p21_concat_time::"),
    "P22": V("p22", "p22", "p22_split_time::"),
    "P23": V("p23", "p23", "p23_runs::"),
    "P24": V("p24", "p24", "p24_edits::"),
    "P25": V("p25", "p25", "p25_find::"),
    "P26": V("p26", "p26", "p26_concat::"),
    "P27": V("p27", "p27", "p27_compare::"),
    "P28": V("p28", "p28", "p28_memory::"),
    "P29": V("p29", "p29", "p29_convert::"),
    "P30": V("p30", "p30", "p30_text::"),
    "P31": V("p31", "p31", "p31_parse::"),
    "P32": V("p32", "p32", "p32_times::"),
    "P33": V("p33", "p33", "p33_clock::"),
}
