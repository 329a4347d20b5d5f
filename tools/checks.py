"""What each check runs: (harness, variant, None) parts, evidence level, notes."""
SEQ = "bounded exhaustive enumeration of operation sequences (stateless and state-merged) on the real code against a reference model"
INP = "bounded exhaustive enumeration of inputs on the real code against an exact oracle"
SCH = "stateless model checking: all thread interleavings up to a preemption bound under a controlled scheduler with race detection"
SEQ_NOTE = ("Every behaviour within the listed bounds is executed on the real code (ASAN, assertions on) and compared with a "
            "reference model; assumes a non-decreasing clock and trusts the model, libprotobuf and the compiler.")
CLIENT_NOTE = ("Every behaviour within the listed bounds is executed on the real client (ASAN) next to a reference client over a second set "
               "of the same aggregators; transports, timer and clock are the explored environment.")
INP_NOTE = "Every case of the listed finite alphabets is executed on the real code (ASAN); values outside the alphabets are not covered."
SCH_NOTE = ("Every interleaving of the listed programs up to the preemption bound at every synchronisation operation; "
            "data races are detected by vector clocks on every explored schedule; assumes sequential consistency otherwise.")
NOT_APPLICABLE = {}
MC = "model_checking"


def seq(h):
    """First level of every scenario under the address sanitizer, all levels without."""
    return [(h, "seq", "first"), (h, "fast", None)]


CHECKS = {
    "C01": dict(parts=seq("c01_conserve"), level=MC, technique=SEQ, note=SEQ_NOTE),
    "C02": dict(parts=seq("c02_merge"), level=MC, technique=SEQ, note=SEQ_NOTE),
    "C03": dict(parts=seq("c03_routing"), level=MC, technique=SEQ, note=SEQ_NOTE),
    "C04": dict(parts=seq("c04_limits"), level=MC, technique=SEQ, note=SEQ_NOTE),
    "C05": dict(parts=seq("c05_timing"), level=MC, technique=SEQ, note=SEQ_NOTE,
                assumptions=["flush intervals convert to whole microseconds (k/1000.0*1e6 is exact)"]),
    "C06": dict(parts=seq("c06_answers"), level=MC, technique=SEQ, note=SEQ_NOTE),
    "C07": dict(parts=seq("c07_refresh"), level=MC, technique=SEQ, note=SEQ_NOTE),
    "C08": dict(parts=seq("c08_usage"), level=MC, technique=SEQ, note=SEQ_NOTE),
    "C09": dict(parts=seq("c09_identity"), level="exploration", technique=INP, note=INP_NOTE,
                rule="every ordered pair of requests over the name/label/metric alphabets (decided by grouping), one step per "
                     "request or behavioural pair; non-trivial = alphabets with both shared and separate pairs"),
    "C10": dict(parts=seq("c10_quota_one"), level=MC, technique=SEQ, note=SEQ_NOTE),
    "C11": dict(parts=seq("c11_quota_charge"), level=MC, technique=SEQ, note=SEQ_NOTE),
    "C12": dict(parts=seq("c12_quota_timing"), level=MC, technique=SEQ, note=SEQ_NOTE),
    "C13": dict(parts=seq("c13_quota_capacity"), level=MC, technique=SEQ, note=SEQ_NOTE),
    "C14": dict(parts=seq("c14_lru"), level=MC, technique=SEQ, note=SEQ_NOTE),
    "C15": dict(parts=seq("c15_pins"), level=MC, technique=SEQ, note=SEQ_NOTE),
    "C16": dict(parts=seq("c16_samples"), level="exploration", technique=INP, note=INP_NOTE,
                rule="every sample of the boundary alphabet of every layout, every sample sequence and every parameter "
                     "combination; non-trivial = distinct (layout, bucket) pairs hit"),
    "C17": dict(parts=seq("c17_dmerge"), level="exploration", technique=INP, note=INP_NOTE,
                rule="every pair of sample multisets and of bucket definitions; non-trivial = distinct merged distributions"),
    "C18": dict(parts=seq("c18_money"), level="exploration", technique=INP, note=INP_NOTE,
                rule="every pair of amounts over a boundary alphabet of units and nanos (one case per addition, three "
                     "calling variants each); non-trivial = distinct sums/saturations observed"),
    "C19": dict(parts=seq("c19_complete"), level=MC, technique=SEQ, note=CLIENT_NOTE),
    "C20": dict(parts=seq("c20_stats"), level=MC, technique=SEQ, note=CLIENT_NOTE),
    "C21": dict(parts=[("c21_sched", "sched", None)], level=MC, technique=SCH, note=SCH_NOTE),
    "C22": dict(parts=[("c22_sched", "sched", None)], level=MC, technique=SCH, note=SCH_NOTE),
    "C23": dict(parts=[("c23_sched", "sched", None)], level=MC, technique=SCH, note=SCH_NOTE),
    "C24": dict(parts=[("c24_sched", "sched", None)], level=MC, technique=SCH, note=SCH_NOTE),
    "C25": dict(parts=[("c25_sched", "sched", None)], level=MC, technique=SCH, note=SCH_NOTE),
    "C26": dict(parts=seq("c26_shutdown") + [("c26_sched", "sched", None)], level=MC, technique=SCH + "; and " + SEQ, note=SCH_NOTE + " " + CLIENT_NOTE),
    "C27": dict(parts=seq("c27_timer"), level=MC, technique=SEQ, note=CLIENT_NOTE),
    "C28": dict(parts=seq("c28_reentry") + [("c28_sched", "sched", None)], level=MC, technique=SEQ + "; and " + SCH, note=CLIENT_NOTE + " " + SCH_NOTE),
    "C29": dict(parts=seq("c29_transport"), level=MC, technique=SEQ, note=CLIENT_NOTE),
    "C30": dict(parts=[("c30_sched", "sched", None)], cap=150, level=MC, technique=SCH, note=SCH_NOTE),
    "C31": dict(parts=seq("c31_options"), level=MC, technique=INP,
                note="Every listed configuration is built and each of its limits measured on the real client (ASAN) from outside, with the "
                     "clock as explored environment; option values outside the listed ones are not covered.",
                assumptions=["a check flush interval of INT_MAX ms is left out: the minimum expiration, one more, does not fit"]),
    "C32": dict(parts=seq("c32_memory"), level=MC, technique=SEQ,
                note="Every listed script is played on the real client with counted heap blocks (operator new and delete of the whole program); "
                     "memory obtained otherwise is not counted.",
                assumptions=["a transport completes every call it was given"]),
    "C33": dict(parts=seq("c33_md5"), level="exploration", technique=INP, note=INP_NOTE,
                rule="every length, cut, content and overload of the listed alphabets; non-trivial = distinct digests compared"),
}
