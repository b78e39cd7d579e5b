"""Which contracts decide which property."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vk
from vk import Unit, SRC, VERIF

CHECKS = {}
def check(pid, level="proof", **k):
    CHECKS[pid] = dict(level=level, **k)

from loops import blank
def rewrite_index(text, array, func):
    """array[e] -> (*func(e)), bracket matched, outside declarations"""
    out, i = [], 0
    pat = re.compile(r"\b%s\s*\[" % array)
    while True:
        m = pat.search(text, i)
        if not m: out.append(text[i:]); return "".join(out)
        d, e = 1, m.end()
        while d: d += text[e] == "["; d -= text[e] == "]"; e += 1
        out += [text[i:m.start()], "(*%s(%s))" % (func, text[m.end():e-1])]
        i = e

def rename_def(text, name, new):
    """the definition (not the calls) of a function renamed"""
    from loops import body
    a, _ = body(text, name)
    i = [m.start() for m in re.finditer(r"\b%s\s*\(" % name, blank(text)[:a])][-1]
    return text[:i] + new + text[i + len(name):]

def prep_cpu2030(u, bdir):
    t = open(SRC + "/model2030/cpu2030.c").read()
    t = rewrite_index(t, "ros_2030", "vk_ros")
    open(bdir + "/gen/cpu2030_x.c", "w").write('#line 1 "%s/model2030/cpu2030.c"\n' % SRC + t)

check("C01", units=[Unit("alu", "c01.c", "cycle_2030", prep=prep_cpu2030, safety=False)])
check("C02", units=[Unit("transfer", "c02.c", "cycle_2030", prep=prep_cpu2030, safety=False)])
check("C03", units=[Unit("next", "c03.c", "cycle_2030", prep=prep_cpu2030, safety=False)])
check("C04", units=[Unit("mem64k", "c04.c", "cycle_2030", prep=prep_cpu2030),
                    Unit("mem8k", "c04.c", "cycle_2030", prep=prep_cpu2030, defs=["VK_MEM=8192"]),
                    Unit("mem16k", "c04.c", "cycle_2030", prep=prep_cpu2030, defs=["VK_MEM=16384"], quick=False),
                    Unit("mem32k", "c04.c", "cycle_2030", prep=prep_cpu2030, defs=["VK_MEM=32768"], quick=False)])
check("C05", units=[Unit("share64k", "c05.c", "cycle_2030", prep=prep_cpu2030),
                    Unit("share8k", "c05.c", "cycle_2030", prep=prep_cpu2030, defs=["VK_MEM=8192"])])
check("C06", units=[Unit("console64k", "c06.c", "cycle_2030", prep=prep_cpu2030),
                    Unit("console8k", "c06.c", "cycle_2030", prep=prep_cpu2030, defs=["VK_MEM=8192"])])
def ev_units(n, quick, bound):
    return [Unit(nm + str(n), "c20.c", fn, bounded=bound, defs=["VK_N=%d" % n] + df, unwind=(n + 3, n + 6), quick=quick)
            for nm, fn, df in (("add", "add_event", ["VK_OP=0"]), ("cancel", "cancel_event", ["VK_OP=1"]), ("advance", "advance", ["VK_OP=2"]),
                               ("advance_add", "advance", ["VK_OP=2", "VK_CBOP=1"]), ("advance_cancel", "advance", ["VK_OP=2", "VK_CBOP=2"]))]
check("C20", level="other", units=ev_units(3, True, "queues of up to 3 pending events") + ev_units(5, False, "queues of up to 5 pending events"),
    explain="bounded stand-in: the contracts of add_event, cancel_event and advance are checked for every queue of the stated length with every delay, device and callback; queue length is the only bound")
def conf_units(n, quick):
    return [Unit(nm + str(n), "c21.c", fn, defs=["VK_N=%d" % n, "VK_OP=%d" % op], unwind=(n + 2, 1030), quick=quick,
                 native=["-D__NO_CTYPE"], uf=False,
                 bounded=("lines of up to %d characters" % n) if op < 4 else "values of up to 9 characters")
            for op, (nm, fn) in enumerate((("model", "get_model"), ("addr", "get_addr"), ("string", "get_string"), ("option", "get_option"),
                                           ("integer", "get_integer"), ("index", "get_index"))) if quick or op < 4]
check("C21", level="other", units=conf_units(10, True) + [Unit("long%d" % n, "c21l.c", "get_string", functions=["get_option", "get_model", "get_addr", "get_string"],
    defs=["VK_LEN=%d" % n], uf=False, unwind=(n + 14, n + 20), keep=["in_ch"], native=["-D__NO_CTYPE"], flags=["--max-field-sensitivity-array-size", "3000"],
    bounded="one repeated character, field-limit lengths") for n in (18, 19, 20, 21)] +
    [Unit("long1024", "c21l.c", "get_string", defs=["VK_LEN=1024"], uf=False, unwind=(1038, 1044), keep=["in_ch"], native=["-D__NO_CTYPE"],
    flags=["--max-field-sensitivity-array-size", "3000"], bounded="one repeated character, field-limit lengths", quick=False)],
    explain="bounded stand-in: contracts of the configuration parser checked for every line of the stated length; line length is the only bound")
def dev_units(prop):
    return [Unit("d%d" % d, "dev.c", "model%d_dev" % d, defs=["VK_DEV=%d" % d, "VK_PROP=%d" % prop], uf=False, keep=["init_string"]) for d in (1442, 2415, 1052)]
for _p in (13, 14, 15): check("C%d" % _p, units=dev_units(_p))

def prep_cpu2050(u, bdir):
    t = open(SRC + "/model2050/cpu2050.c").read()
    t = rewrite_index(t, "ros_2050", "vk_ros")
    open(bdir + "/gen/cpu2050_x.c", "w").write('#line 1 "%s/model2050/cpu2050.c"\n' % SRC + t)
def u50(name, src, **k):
    k.setdefault("safety", False)
    return Unit(name, src, "cycle_2050", prep=prep_cpu2050, keep=["tr_interloc"], **k)
check("C07", units=[u50("adder", "c07.c")])
check("C08", units=[u50("shifter", "c08.c")])
check("C09", units=[u50("mover", "c09.c")])
check("C10", units=[u50("mem64k", "c10.c", safety=True), u50("mem256k", "c10.c", safety=True, defs=["VK_MEM=262144"]), u50("mem512k", "c10.c", safety=True, defs=["VK_MEM=524288"], quick=False)])
check("C11", units=[u50("next", "c11.c")])
check("C12", units=[*[u50(n, "c12.c", defs=["VK_PART=%d" % i]) for i, n in enumerate(("transfer", "status", "control"))]])

check("C16", units=[Unit(n, "c16.c", fn, defs=["VK_OP=%d" % i], uf=False, native=["-D__NO_CTYPE"], unwind=(12, 200))
    for i, (n, fn) in enumerate((("read", "read_callback"), ("punch", "write_callback"), ("feed", "feed_callback"), ("stop", "device_stop"), ("command", "device_cmd")))])
def u17(name, part, unwind, *defs, **k):
    return Unit(name, "c17.c", "print_line", defs=["VK_PART=%d" % part, *defs], uf=False, native=["-D__NO_CTYPE"], unwind=unwind,
                flags=["--max-field-sensitivity-array-size", "60"] + k.pop("flags", []), **k)
# the carriage line by line (the form position is case-split), the line text by its length
check("C17", units=[u17("text%d" % h, 0, (122, 122), "VK_ROW=64", "VK_LO=%d" % l, "VK_HI=%d" % h, safety=False, flags=["--sat-solver", "cadical"]) for l, h in ((101, 120), (81, 100), (61, 80), (31, 60), (0, 30))] +
    [u17("graphics", 2, (122, 122))] + [u17("row%d" % i, 1, (70, 122), "VK_COL=2", "VK_ROW=%d" % i) for i in range(66)] +
    [u17("bounds", 3, (122, 122), "VK_ROW=64", flags=["--sat-solver", "cadical"])] )
check("C18", units=[Unit(n, "c18.c", fn, defs=["VK_OP=%d" % i], uf=False, keep=["init_string"])
    for i, (n, fn) in enumerate((("step", "tape_callback"), ("done", "done_callback"), ("rewind", "model2415_rewind_callback")))] +
    [Unit("command%d" % k, "c18.c", "device_cmd", defs=["VK_OP=3", "VK_UNIT=%d" % k], uf=False, keep=["init_string"]) for k in range(6)])
BYTES = ("tape_read_byte", "tape_peek_byte", "tape_write_byte", "tape_readbk_byte", "tape_write_prev")
def prep_tape(u, bdir):
    """tape.c with the definitions (not the calls) of the functions a record harness replaces by their contracts renamed"""
    for out, names in (("tape_b.c", BYTES), ("tape_f.c", BYTES + ("tape_read_frame",))):
        t = open(SRC + "/device/tape.c").read()
        for n in names:
            t = rename_def(t, n, "real_" + n)
        open(bdir + "/gen/" + out, "w").write('#line 1 "%s/device/tape.c"\n' % SRC + t)
REC = ("write_start", "write_frame", "write_mark", "finish_rec", "read_forw", "read_frame", "finish_rec", "read_back", "read_frame", "finish_rec", "rewind_frames")
RECN = ("start", "put", "mark", "endwrite", "forward", "frame", "endread", "back", "frameb", "endback", "frames")
check("C23", units=[Unit(n, "c23.c", fn, defs=["VK_OP=%d" % i], native=["-D__NO_CTYPE"])
    for i, (n, fn) in enumerate((("read", "tape_read_byte"), ("peek", "tape_peek_byte"), ("write", "tape_write_byte"), ("readback", "tape_readbk_byte"), ("update", "tape_write_prev"), ("rewind", "tape_start_rewind"), ("detach", "tape_detach")))] +
    [Unit("%s_%s" % (n, f), "c23r.c", "tape_" + REC[i], prep=prep_tape, defs=["VK_OP=%d" % i, "VK_FMT=%d" % k], native=["-D__NO_CTYPE"], unwind=(5, 24))
     for i, n in enumerate(RECN) for k, f in enumerate(("tap", "e11", "p7b"))])
