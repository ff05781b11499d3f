"""What each check runs: library build variant, harness and arguments."""
LEVEL = {}
TECH = {}
NOTE = {}
NA = {}
def lang(p, **kw):
    """quick bounds with AddressSanitizer and UBSan; larger bounds without"""
    return [dict(variant="asan", harness=p, extra=["hbshim.c"], args=["--tier", "quick"], **kw),
            dict(variant="fast", harness=p, extra=["hbshim.c"], tiers=("thorough",), **kw)]
QUICKASAN = ":detect_stack_use_after_return=0:malloc_context_size=4"
def obj(p, shim="objshim.c", **kw):
    return [dict(variant="asan", harness=p, extra=[shim], args=["--tier", "quick"], asan=QUICKASAN, **kw),
            dict(variant="fast", harness=p, extra=[shim], tiers=("thorough",), **kw)]
MDBWRAP = ["-Wl,--wrap=mdb_" + f for f in ("env_create", "env_open", "env_set_mapsize", "dbi_open", "get", "put", "del", "cursor_open", "cursor_get", "cursor_put", "cursor_del", "drop", "stat", "txn_begin", "txn_commit", "txn_abort")]
OOMWRAP = ["-Wl,--wrap=" + f for f in ("_talloc_array _talloc_zero talloc_named_const talloc_strdup talloc_strdup_append talloc_strdup_append_buffer talloc_strndup talloc_strndup_append_buffer talloc_vasprintf talloc_vasprintf_append talloc_vasprintf_append_buffer malloc calloc realloc _talloc_realloc_array talloc_asprintf talloc_asprintf_append talloc_asprintf_append_buffer mmap json_tokener_new json_tokener_parse_ex json_tokener_get_error yaml_parser_initialize yaml_parser_load").split()]
def oom(variant, **kw):
    return dict(variant=variant, harness="p20.cc", extra=["oomshim.c", "oomwrap.c"], ldflags=OOMWRAP, asan=QUICKASAN, **kw)
PARTS = {
    "P01": lang("p01.cc"),
    "P02": lang("p02.cc"),
    "P03": lang("p03.cc"),
    "P04": lang("p04.cc"),
    "P05": lang("p05.cc"),
    "P06": lang("p06.cc"),
    "P07": lang("p07.cc"),
    "P08": lang("p08.cc"),
    "P09": lang("p09.cc"),
    "P10": lang("p10.cc"),
    "P15": lang("p15.cc") + [dict(variant="fast", harness="p15.cc", extra=["hbshim.c"], args=["--tier", "quick"], tiers=("quick",))],
    "P11": obj("p11.cc"),
    "P12": obj("p12.cc"),
    "P13": obj("p13.cc"),
    "P14": obj("p14.cc"),
    "P16": obj("p16.cc"),
    "P17": [dict(variant="sched", harness="p17.cc", args=["--tier", "quick"], tiers=("quick",)), dict(variant="sched", harness="p17.cc", tiers=("thorough",))],
    "P18": obj("p18.cc", ldflags=MDBWRAP),
    "P19": lang("p19.cc"),
    "P20": [oom("asan", args=["--tier", "quick"]), oom("fast", tiers=("thorough",))],
    "P24": [dict(variant="asan", harness="p24.cc", extra=["clishim.c", "hbshim.c"], cli="asan", args=["--tier", "quick"], tiers=("quick",), asan=QUICKASAN), dict(variant="fast", harness="p24.cc", extra=["clishim.c", "hbshim.c"], cli="fast", tiers=("thorough",))],
    "P22": [dict(variant="asan", harness="p22.cc", extra=["datashim.c", "hbshim.c"], args=["--tier", "quick"], asan=QUICKASAN), dict(variant="fast", harness="p22.cc", extra=["datashim.c", "hbshim.c"], tiers=("thorough",))],
    "P23": lang("p23.cc"),
    "P27": obj("p27.cc", shim="pldshim.c"),
    "P21": obj("p21.cc", shim="seqshim.c"),
    "P25": [dict(variant="asan", harness="p25.cc", extra=["anyshim.c"], args=["--tier", "quick"], tiers=("quick",), asan=QUICKASAN), dict(variant="asan", harness="p25.cc", extra=["anyshim.c"], tiers=("thorough",), asan=QUICKASAN)],
    "P26": [dict(variant="sched", harness="p26.cc", extra=["thrshim.c"], args=["--tier", "quick"], tiers=("quick",)), dict(variant="sched", harness="p26.cc", extra=["thrshim.c"], tiers=("thorough",))],
}
LEVEL.update({p: "model_checking" for p in ("P11", "P12", "P13", "P14", "P16", "P17", "P18", "P19", "P20", "P21", "P26", "P27")})
TECH.update({p: "model checking: exhaustive enumeration of bounded programs, contexts and options, each executed on the real code in lockstep with an executable reference model" for p in ("P01", "P02", "P03", "P04", "P05", "P06", "P07", "P08", "P09", "P10", "P15", "P23", "P24", "P22")})
TECH.update({p: "explicit-state model checking: breadth-first search over the reachable states of the real code, every operation sequence to a depth, in lockstep with a reference model" for p in ("P11", "P12", "P13", "P14", "P16", "P21", "P27")})
TECH.update({"P17": "stateless model checking of the real code: every interleaving of memory operations of processes up to a preemption bound, and every crash point, under a controlled scheduler",
    "P18": "model checking of the real code: every operation history to a depth, every fault, crash and damage point, every interleaving of two processes' transactions, against a reference model",
    "P19": "model checking: every sequence of renderings, resets and collections to a depth, in lockstep with uncached rendering",
    "P20": "exhaustive fault exploration of the real code: every allocation point of every bounded program and operation history fails in turn",
    "P25": "exhaustive enumeration of bounded byte strings and piece sequences through every stage of the real code under memory and termination monitors",
    "P26": "stateless model checking of the real code: every interleaving of threads up to a preemption bound under a controlled scheduler, with happens-before race detection over all shared memory"})
