"""Which contracts, labels and search components decide which property."""
import re


def name(rx):
    r = re.compile(rx)
    return lambda n: bool(r.search(n))


ACCT = re.compile(r"(size equals|count equals|total blocks equals|high watermark|is returned upstream)")


def safety(fn, lab):
    return not ACCT.search(lab) or "returned upstream only" in lab


def functional(fn, lab):
    return not LOCK.search(lab)


def everything(fn, lab):
    return True


LOCK = re.compile(r"(mutex|every lock taken|the lock is released)")


def locks(fn, lab):
    return bool(LOCK.search(lab))


# property -> specs [(module, function filter, label filter)], drivers [(kind, component, rounds quick, rounds thorough)]
PROPS = {
    "P01": dict(specs=[("quickpool", None, safety)], drivers=[("core", "quickpool", 2000, 60000)]),
    "P02": dict(specs=[("quickpool", None, everything)], drivers=[("core", "quickpool_acct", 2000, 60000)]),
    "P03": dict(specs=[("dynpool", None, everything)], drivers=[("core", "dynpool_acct", 2000, 60000)]),
    "P04": dict(specs=[("fixedpool", None, everything)], drivers=[("core", "fixedpool", 1000, 60000)]),
    "P05": dict(specs=[("fmpool", None, everything)], drivers=[("util", "fmpool", 2000, 60000)]),
    "P06": dict(specs=[("mixed", None, everything)], drivers=[("core", "mixed", 1000, 40000)]),
    "P07": dict(specs=[("wrappers", name("mono"), everything)], drivers=[("core", "monotonic", 2000, 60000)]),
    "P08": dict(specs=[("slot", None, everything)], drivers=[("core", "slot", 2000, 60000)]),
    "P09": dict(specs=[("wrappers", name("limiter"), everything)], drivers=[("core", "limiter", 2000, 60000)]),
    "P10": dict(specs=[("aligned", None, everything)], drivers=[("core", "aligned", 1000, 30000)]),
    "P11": dict(specs=[("front", name("stats_"), everything), ("wrappers", name("pass_"), everything)], drivers=[("core", "stack", 1000, 30000)]),
    "P12": dict(specs=[("allocmap", None, functional)], drivers=[("util", "allocmap", 80, 3000), ("util", "judy", 1000, 30000)]),
    "P13": dict(specs=[("names", None, functional)], drivers=[("core", "names", 100, 700)]),
    "P14": dict(specs=[("ops", None, everything), ("registry", None, everything)], drivers=[("core", "ops", 1000, 30000)]),
    "P15": dict(specs=[("front", name("front_(do_|ctor_)?(named_)?(de)?alloc"), locks), ("allocmap", None, locks)], drivers=[("core", "threads", 60, 2000)]),
    "P16": dict(specs=[("front", name("front_"), functional)], drivers=[("core", "zero", 1000, 30000)]),
    "P17": dict(specs=[("memmap", None, everything)], drivers=[("util", "memorymap", 1000, 40000)]),
    "P18": dict(specs=[("queries", None, everything)], drivers=[("core", "overlap", 1000, 30000)]),
    "P20": dict(specs=[("heur", None, everything)], drivers=[("core", "heur", 1000, 8000)]),
    "P19": dict(specs=[("resources", None, everything)], drivers=[("core", "resources", 300, 10000)]),
    "P21": dict(specs=[("typed", None, everything)], drivers=[("core", "typed", 1000, 30000)]),
    "P22": dict(specs=[("diag", None, everything)], drivers=[("util", "obuf", 1000, 20000), ("util", "relfrag", 1000, 20000), ("util", "ffs", 1000, 20000)]),
}
