"""Which engine runs decide each property."""
import os


class Ctx:
    def __init__(self, **kw):
        self.__dict__.update(kw)


def map_job(ctx, extra=(), san=False, prop=None, defs=()):
    d = os.path.join(ctx.out, "-".join(["san" if san else "map"] + [x.strip("-") for x in defs]))
    exe = os.path.join(d, "map_mc")
    if not os.path.exists(exe):
        ctx.build_dhara(d, "map_mc", san, defs)
    base = [exe, "--prop", prop or ctx.prop] + list(extra) + (["--thorough"] if ctx.tier == "thorough" else [])
    lim = "700" if ctx.tier == "quick" else "7200"
    return dict(cmd=base + ["--limit", lim, "--out", ctx.out], replay=lambda p: base + ["--replay", p])


def engine_job(ctx, engine, extra=(), san=False, prop=None):
    d = os.path.join(ctx.out, engine + ("-san" if san else ""))
    exe = os.path.join(d, engine)
    if not os.path.exists(exe):
        ctx.build_dhara(d, engine, san)
    base = [exe, "--prop", prop or ctx.prop] + list(extra) + (["--thorough"] if ctx.tier == "thorough" else [])
    lim = "700" if ctx.tier == "quick" else "7200"
    return dict(cmd=base + ["--limit", lim, "--out", ctx.out], replay=lambda p: base + ["--replay", p])


def engines(*names):
    def f(ctx):
        for n in names:
            yield map_job(ctx) if n == "map" else engine_job(ctx, n)
    return f


def simple(*extras):
    def f(ctx):
        for e in (extras or ((),)):
            yield map_job(ctx, e)
    return f


JOBS = {"C%02d" % i: simple() for i in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 26, 27)}


def c16(ctx):
    yield map_job(ctx)
    yield map_job(ctx, ("--big",))
    yield engine_job(ctx, "resume_mc")


JOBS["C16"] = c16
for _i in ("C03", "C04", "C14", "C15"):
    JOBS[_i] = simple((), ("--big",))


def c12(ctx):
    yield map_job(ctx)
    yield map_job(ctx, ("--big",), defs=("-DMSECT=208",))


JOBS["C12"] = c12
def c25(ctx):
    yield map_job(ctx)
    yield map_job(ctx, san=True)
    yield map_job(ctx, ("--big",), san=True)
    yield engine_job(ctx, "journal_mc", san=True)
    yield engine_job(ctx, "resume_mc", san=True)


JOBS["C25"] = c25


def ecc_job(ctx, san=False, extra=()):
    d = os.path.join(ctx.out, "ecc-san" if san else "ecc")
    exe = os.path.join(d, "ecc_mc")
    if not os.path.exists(exe):
        os.makedirs(d, exist_ok=True)
        ctx.build_ecc(d, "ecc_mc", san)
    base = [exe, "--prop", ctx.prop] + list(extra) + (["--thorough"] if ctx.tier == "thorough" else [])
    lim = "700" if ctx.tier == "quick" else "7200"
    return dict(cmd=base + ["--limit", lim, "--out", ctx.out], replay=lambda p: base + ["--replay", p])


def ecc(ctx):
    yield ecc_job(ctx)


def c37(ctx):
    yield ecc_job(ctx, san=True)
    yield ecc_job(ctx)


for _i in ("C30", "C31", "C32", "C33", "C34", "C35"):
    JOBS[_i] = ecc
JOBS["C37"] = c37


def c36(ctx):
    base = ["python3", os.path.join(ctx.here, "tools", "ecc_tools.py"), os.path.join(ctx.out, "tools"), ctx.repo, ctx.MC, ctx.tier]
    yield dict(cmd=base, replay=lambda p: base + [p])


JOBS["C36"] = c36


def c38(ctx):
    d = os.path.join(ctx.out, "e2e")
    exe = ctx.build_e2e(d, "e2e_mc")
    base = [exe, "--prop", ctx.prop] + (["--thorough"] if ctx.tier == "thorough" else [])
    yield dict(cmd=base + ["--limit", "700" if ctx.tier == "quick" else "7200", "--out", ctx.out], replay=lambda p: base + ["--replay", p])


JOBS["C38"] = c38
JOBS["C23"] = engines("two_mc")
JOBS["C22"] = engines("map", "resume_mc")
JOBS["C21"] = engines("resume_mc")
JOBS["C24"] = engines("resume_mc", "map")

for _i in ("C17", "C18", "C19", "C20"):
    JOBS[_i] = engines("journal_mc")
JOBS["C08"] = engines("map", "journal_mc")
JOBS["C10"] = engines("map", "journal_mc")
JOBS["C27"] = engines("map", "journal_mc")

LEVEL = {}
SETUP_SOURCES = [("map_mc.cpp", "-DMSECT=208"), ("map_mc.cpp", ""), ("journal_mc.cpp", ""), ("resume_mc.cpp", ""), ("two_mc.cpp", ""), ("ecc_mc.cpp", ""), ("ecc_mc.cpp", "san"), ("e2e_mc.cpp", "")] + [(x, "san") for x in ("map_mc.cpp", "journal_mc.cpp", "resume_mc.cpp")]

SUM = ("states", "transitions", "executions", "crash_points", "mounts", "fault_runs", "read_fault_runs", "start_states",
       "known_finding_hits", "map_full_refusals", "leaves", "pruned_other_property", "cases", "recovery_steps", "journal_full_refusals", "closures_cut_at_the_state_limit", "closures_complete_within_lap_limit")
MAX = ("max_nand_calls_in_one_op", "max_nand_calls_in_one_mount", "max_queue_length")


def coverage(prop, results, samples):
    c = dict(states=0, transitions=0, traces_validated_against_impl=0)
    for r in results:
        for k in SUM:
            if k in r:
                c[k] = c.get(k, 0) + r[k]
        for k in MAX:
            if k in r:
                c[k] = max(c.get(k, 0), r[k])
        for k, v in r.items():
            if k not in SUM and k not in MAX and k not in ("engine", "wall", "capped"):
                c[k] = v
    # every explored execution is an execution of the real code
    c["traces_validated_against_impl"] = c.pop("executions", 0)
    c["exhaustive"] = not any(r.get("capped") for r in results)
    c["samples"] = samples[:6] or ["none"]
    return c


def assumptions(prop):
    return ["flash behaves as the emulator in mc/emu.hpp (single-threaded driver, failures confined to the failing block, "
            "power loss leaves the page or block being written readable, unreadable or unwritten)",
            "states are merged on equal 128-bit-mixed 64-bit hashes of the complete state",
            "bounds: geometries, sector sets, depths and deviation counts as in mc/map_modes.hpp and DESIGN.md"]

NA = {}
TECH = {"map": "stateless model checking of the real map code: exhaustive operation sequences x fault/crash placements to a bound, with a reference model",
        "journal": "explicit-state model checking of the real journal code: breadth-first closure with crash and fault placements from every state"}
KIND = {i: "journal" for i in ("C17", "C18", "C19", "C20")}
TECH["resume"] = "explicit enumeration on the real mount code: every head position, bad-block pattern, epoch and power-loss point of generated chips, against an independent encoder and decoder of the layout"
KIND.update({i: "resume" for i in ("C21", "C22", "C24")})
TECH["two"] = "stateless model checking with a controlled scheduler: every schedule of two maps with a bounded number of context switches at flash-driver calls, run on the real code and compared with solo runs"
TECH["mem"] = "the same exhaustive explorations executed with address and undefined-behaviour instrumentation, exact-size buffers, guard bytes and two differently painted stacks"
TECH["ecc"] = "exhaustive enumeration of chunk lengths, data and error patterns on the real ECC code, within stated bounds, plus exhaustive search of a model (parity-check columns taken from and bound to the code) where the patterns are too many"
TECH["tools"] = "exhaustive enumeration of polynomials: the shipped tools run on each, output compared with an independent computation and with the library"
TECH["e2e"] = "exhaustive bit-flip enumeration: every stored bit of every page of generated images flipped, the whole map scenario re-run on the real code and compared observation by observation"
KIND.update({i: "ecc" for i in ("C30", "C31", "C32", "C33", "C34", "C35", "C37")})
KIND.update({"C23": "two", "C25": "mem", "C36": "tools", "C38": "e2e"})


def technique(i):
    return TECH[KIND.get(i, "map")]


def note(i):
    return ("Exhaustive within the stated bounds (geometries, operation alphabet, depth, number of faults/crashes, start states), on the "
            "implementation itself under a flash emulator; trusts the emulator and the reference model; says nothing beyond the bounds.")
