"""Which units, obligation kinds and replay harness belong to which property."""
import importlib

MODULES = ["u_blocks", "u_conc", "u_bytes", "u_mapped", "u_work"]

# property -> (obligation tags that belong to it, replay harness key, failure categories of the harness that belong to it)
PROPS = {
    "C01": (("core", "mem", "stack"), "sb", ("stack", "crash")),
    "C02": (("core", "mem", "copy"), "sb", ("copy", "crash", "stack", "life")),
    "C03": (("core", "mem", "block"), "sb+cb", ("mem", "life", "crash")),
    "C04": (("core", "mem", "queue"), "cb", ("queue", "crash")),
    "C05": (("core", "mem", "copy"), "cb", ("copy", "crash", "queue", "life")),
    "C06": (("core", "seq"), "sbv", ("seq", "life", "crash")),
    "C07": (("core", "stab", "life"), "sbv", ("stab", "life", "crash")),
    "C08": (("core", "seq"), "sbd", ("seq", "life", "crash")),
    "C09": (("core", "stab", "life"), "sbd", ("stab", "life", "crash")),
    "C10": (("core", "iter"), "sbv+sbd", ("iter", "life", "crash")),
    "C11": (("core", "copy"), "sbv+sbd", ("copy", "life", "crash")),
    "C12": (("core", "smap"), "mv", ("map", "life", "crash")),
    "C13": (("core", "sdel"), "mv", ("del", "life", "crash")),
    "C14": (("core", "dmap"), "dmv", ("map", "life", "crash")),
    "C15": (("core", "ddel"), "dmv", ("del", "life", "crash")),
    "C16": (("core", "lin", "race"), "sq", ("lin", "race", "life", "crash", "hang")),
    "C17": (("core", "lin", "race"), "bq", ("lin", "race", "life", "crash", "hang")),
    "C18": (("core", "wake"), "bq+bpq", ("wake", "hang")),
    "C19": (("core", "lin", "race"), "bpq", ("lin", "race", "life", "crash", "hang")),
    "C20": (("core", "lin", "wake", "race"), "al", ("lin", "race", "wake", "life", "crash", "hang")),
    "C21": (("core", "sched"), "wq", ("map", "life", "crash", "hang")),
    "C22": (("core", "block"), "wb", ("map", "life", "crash", "hang")),
    "C24": (("core", "mapfind"), "fn", ("map", "life", "crash")),
    "C23": (("core", "race"), "sq+bq+bpq+al", ("race",)),
}

DEFAULT_NOTE = ("Every obligation generated from the current headers is discharged by z3 for all inputs and histories, with no bound on "
                "loops or sizes; block size exponents are instantiated (see evidence 'instances'). Trusted: clang's front end, the "
                "obligation generator and memory model in /verif/vc, z3. Assumed: element operations and allocation do not throw; "
                "contracts of library functions listed in the evidence.")
NOTES = {}
NOT_APPLICABLE = {}

HARNESS = {
    "sbv": ("blocks.cpp", ["KIND=0"], 60),
    "sbd": ("blocks.cpp", ["KIND=1"], 60),
    "sb": ("bytes.cpp", ["KIND=0"], 40),
    "cb": ("bytes.cpp", ["KIND=1"], 40),
    "sq": ("conc.cpp", ["KIND=0"], 12),
    "bq": ("conc.cpp", ["KIND=1"], 12),
    "bpq": ("conc.cpp", ["KIND=2"], 12),
    "al": ("conc.cpp", ["KIND=3"], 12),
    "mv": ("mapped.cpp", ["KIND=0"], 60),
    "dmv": ("mapped.cpp", ["KIND=1"], 60),
    "wq": ("work.cpp", ["KIND=0", "_GLIBCXX_ASSERTIONS"], 40),
    "wb": ("work.cpp", ["KIND=1"], 40),
    "fn": ("mapped.cpp", ["KIND=2"], 20),
}


def units():
    out = []
    for m in MODULES:
        mod = importlib.import_module(m)
        for u in mod.units():
            u.defs = getattr(mod, "DEFS", default_defs)
            out.append(u)
    return out


def default_defs(drv, variant):
    return ["VN=%d" % variant]
