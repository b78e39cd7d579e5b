#!/usr/bin/env python3
"""Runner: decides the contracts of one property with CBMC and writes evidence.

usage: vk.py <property-id> [--unit NAME] [--keep]
exit 0: every obligation discharged; 1: VIOLATION line printed; 2: undecided/error.
"""
import json, os, re, shutil, subprocess, sys, time, tempfile, hashlib, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VK_REPO", "/repo")
SRC = REPO + "/src"
DEADLINE = float(os.environ.get("VK_DEADLINE", "840"))
T0 = time.time()
JOBS = int(os.environ.get("VK_JOBS", str(os.cpu_count() or 6)))

def left():
    return max(5.0, DEADLINE - (time.time() - T0))

class Undecided(Exception):
    pass

class Unit:
    def __init__(self, name, src, fn, mode="plain", unwind=(6, 40), unwindset=(), safety=True,
                 replace=(), loopc=False, defs=(), keep=(), flags=(), bounded=None, replay=True,
                 functions=None, incs=(), prep=None, solver=None, assumes=(), quick=True,
                 uf=True, note=None, native=(), object_bits=None, checks=None, havoc_scalars=True,
                 safety_ignore=()):
        self.__dict__.update(locals())
        del self.__dict__["self"]
        if functions is None:
            self.functions = [fn]

def sh(cmd, timeout=None, cwd=None, env=None, out=None):
    t = min(timeout or 1e9, left())
    try:
        if out:
            with open(out, "wb") as f:
                p = subprocess.run(cmd, stdout=f, stderr=subprocess.PIPE, timeout=t, cwd=cwd, env=env)
            return p.returncode, "", p.stderr.decode("utf8", "replace")
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=t, cwd=cwd, env=env)
        return p.returncode, p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        raise Undecided("timeout: " + " ".join(cmd)[:300])

def incs(u, bdir):
    r = ["-I" + bdir + "/gen", "-I" + VERIF + "/lib", "-I" + VERIF + "/h", "-I" + SRC]
    for d in ("device", "panel", "model1052", "model1442", "model1443", "model2030", "model2050",
              "model2415", "model2844", "test"):
        r.append("-I%s/%s" % (SRC, d))
    r += ["-I/usr/include/SDL2"] if os.path.isdir("/usr/include/SDL2") else []
    r += list(u.incs)
    r += ["-DVK_SRC=" + SRC]
    return r

def gen(bdir):
    g = bdir + "/gen"
    os.makedirs(g, exist_ok=True)
    with open(g + "/config.h", "w") as f:
        f.write("#define VERSION_MAJOR 0\n#define VERSION_MINOR 1\n#define HAVE_UNISTD_H\n")
    return g

def posts_of(u, bdir):
    """names of the POSTS(X) clauses, in order, from the preprocessed harness"""
    code, out, err = sh(["gcc", "-E", "-dM", "-D__CPROVER__", *defs(u), *incs(u, bdir), harness(u)])
    m = re.search(r"^#define POSTS\(X\) (.*)$", out, re.M)
    names = []
    if m:
        s = m.group(1); i = 0
        while True:
            k = re.search(r"\bX\s*\(", s[i:])
            if not k: break
            j = i + k.end(); d = 1; e = j
            while d and e < len(s):
                d += s[e] == "("; d -= s[e] == ")"; e += 1
            names.append(s[j:e-1].strip()); i = e
    return names

def harness(u):
    return VERIF + "/h/" + u.src

def defs(u, mode=None):
    r = ["-D" + d for d in u.defs]
    if (mode or u.mode) == "dfcc": r.append("-DVK_DFCC")
    return r

def statics(gb):
    """static-lifetime objects that keep their initial value (never assigned tables)"""
    code, out, err = sh(["goto-instrument", "--show-symbol-table", "--json-ui", gb])
    tab = None
    try:
        for e in json.loads(out):
            if "symbolTable" in e: tab = e["symbolTable"]
    except Exception as ex:
        raise Undecided("symbol table: %s" % ex)
    code, gf, err = sh(["goto-instrument", "--show-goto-functions", gb])
    # drop the body of __CPROVER_initialize: those are the initialisers themselves
    gf = re.sub(r"\n__CPROVER_initialize /\*.*?END_FUNCTION", "", gf, flags=re.S)
    assigned = set(re.findall(r"ASSIGN ([\w:$]+)", gf))
    res = []
    for name, s in (tab or {}).items():
        if not s.get("isStaticLifetime") or s.get("isExtern") and not s.get("value"): continue
        if s.get("isType") or name.startswith("__CPROVER"): continue
        if "return_value" in name: continue
        v = s.get("value") or {}
        t = s.get("type") or {}
        f = (s.get("location") or {}).get("namedSub", {}).get("file", {}).get("id", "")
        res.append((name, s.get("prettyName") or name, t.get("id"), v, f))
    return res, assigned

def nonzero_init(v):
    if not isinstance(v, dict): return False
    if v.get("id") == "constant":
        val = (v.get("namedSub", {}).get("value", {}) or {}).get("id", "0")
        if val in ("NULL", "false"): return False
        return val.strip("0") != ""
    return any(nonzero_init(x) for x in v.get("sub", []) or [])

def build(u, bdir, mode):
    os.makedirs(bdir, exist_ok=True)
    gen(bdir)
    if u.prep:
        u.prep(u, bdir)
    gb = bdir + "/u.gb"
    code, out, err = sh(["goto-cc", *defs(u, mode), *incs(u, bdir), "-o", gb, harness(u)])
    if code:
        raise Undecided("goto-cc failed on %s: %s" % (u.name, (out + err)[-1500:]))
    st, assigned = statics(gb)
    ex = []
    for name, pretty, tid, v, f in st:
        if name in u.keep or pretty in u.keep or pretty.split("::")[-1] in u.keep:
            ex.append(name); continue
        if tid == "array" and name not in assigned and nonzero_init(v):
            ex.append(name)
    cmd = ["goto-instrument", "--nondet-static"]
    # --nondet-static-exclude implies --nondet-static
    if ex:
        cmd = ["goto-instrument"]
        for e in ex: cmd += ["--nondet-static-exclude", e]
    code, out, err = sh(cmd + [gb, bdir + "/n.gb"])
    if code: raise Undecided("nondet-static: " + (out + err)[-800:])
    gb = bdir + "/n.gb"
    if mode == "dfcc":
        cmd = ["goto-instrument", "--dfcc", "main", "--enforce-contract", u.fn]
        for r in u.replace: cmd += ["--replace-call-with-contract", r]
        if u.loopc: cmd.append("--apply-loop-contracts")
        code, out, err = sh(cmd + [gb, bdir + "/d.gb"])
        if code: raise Undecided("dfcc: " + (out + err)[-1500:])
        gb = bdir + "/d.gb"
    return gb, ex

def cbmc_cmd(u, gb, unwind, extra=()):
    c = ["cbmc", gb, "--json-ui", "--unwind", str(unwind), "--unwinding-assertions", "--slice-formula"]
    if u.safety:
        c += ["--no-standard-checks", "--bounds-check", "--pointer-check", "--div-by-zero-check"]
    else:
        c += ["--no-standard-checks", "--no-bounds-check"] if False else ["--no-standard-checks"]
    if u.uf: c += ["--arrays-uf-always"]
    if u.object_bits: c += ["--object-bits", str(u.object_bits)]
    for x in u.unwindset: c += ["--unwindset", x]
    if u.solver: c += list(u.solver)
    c += list(u.flags) + list(extra)
    return c

def parse_json(path):
    txt = open(path, "rb").read().decode("utf8", "replace")
    try:
        return json.loads(txt)
    except Exception:
        t = txt.rstrip().rstrip(",")
        try:
            return json.loads(t + "]")
        except Exception:
            raise Undecided("cbmc output not parseable (crash or out of memory)")

def run_cbmc(u, gb, bdir, unwind, extra=(), tag="r"):
    out = "%s/%s.json" % (bdir, tag)
    t = time.time()
    code, _, err = sh(cbmc_cmd(u, gb, unwind, extra), out=out)
    dt = time.time() - t
    data = parse_json(out)
    res, msgs = [], []
    for e in data:
        if "result" in e: res = e["result"]
        if "messageText" in e: msgs.append(e["messageText"])
    if not res:
        raise Undecided("no cbmc result (%s): %s" % (code, " | ".join(msgs[-6:]) + err[-500:]))
    solver = 0.0
    backends = set()
    for m in msgs:
        k = re.match(r"Runtime (decision procedure|Solver): ([\d.e+-]+)", m)
        if k: solver += float(k.group(2))
        k = re.match(r"Running (SMT2.*|with .*)|.*(MiniSAT|CaDiCaL|Glucose).*", m)
        if k: backends.add(m.strip())
    return res, dt, solver, backends, msgs

def cls(u, r, names):
    """-> (kind, label). kind: post|safety|reach|unwind|frame|callee|lib|undef|other"""
    p, d = r["property"], r.get("description", "")
    loc = r.get("sourceLocation") or {}
    f = loc.get("file", "")
    if d.startswith("VKREACH:"): return "reach", d[8:]
    if d.startswith("VK:"): return "post", d[3:]
    if "postcondition" in p:
        i = int(p.rsplit(".", 1)[1]) - 1
        return "post", names[i] if i < len(names) else p
    if ".unwind." in p or "unwinding assertion" in d: return "unwind", d
    if "undefined function" in d or ".no-body." in p or "no body for" in d: return "undef", p
    if ".precondition." in p: return "callee", d
    if "loop_invariant" in p or "loop_decreases" in p or "loop_assigns" in p or "loop_step" in p: return "loop", d
    if ".assigns." in p or "frees" in p: return "frame", d
    if "__CPROVER_contracts" in p or "no_alloc_dealloc" in p or "recursive_call" in p or "single_top_level" in p:
        return "lib", d
    if any(k in p for k in (".array_bounds.", ".pointer_dereference.", ".bounds.", ".division-by-zero.",
                            ".pointer.", ".precondition_instance.", ".overflow.")) or "deallocated" in d or "free" in d:
        return "safety", d
    return "other", d

# ---------------------------------------------------------------- replay
def cval(v):
    n = v.get("name")
    if n in ("integer", "boolean", "float", "char", "enumeration", "c_enum", "bitfield") or ("binary" in v and n != "pointer"):
        if n == "boolean" and "binary" not in v: return "1" if v.get("data") in (True, "TRUE", "true", "1") else "0"
        b = v.get("binary")
        if b is None:
            return None
        if n == "float": return None
        w = len(b); x = int(b, 2)
        t = v.get("type", "")
        if b[0] == "1" and "unsigned" not in t and t not in ("_Bool",) and n in ("integer",):
            x -= 1 << w
            if x == -(1 << 63): return "(-9223372036854775807LL-1)"
            return "%dLL" % x
        return "%dULL" % x
    return None

def flatten(lhs, v, out):
    n = v.get("name")
    if n == "struct":
        for m in v.get("members", []):
            if m["name"].startswith("$"): continue
            flatten(lhs + "." + m["name"], m["value"], out)
    elif n == "union":
        m = v.get("member")
        if m: flatten(lhs + "." + m["name"], m["value"], out)
    elif n == "array":
        for e in v.get("elements", []):
            flatten("%s[%s]" % (lhs, e["index"]), e["value"], out)
    else:
        c = cval(v)
        if c is not None: out.append((lhs, c))

def make_replay(u, gb, bdir, unwind, prop):
    """-> (confirmed, text)"""
    try:
        out = "%s/trace.json" % bdir
        sh(cbmc_cmd(u, gb, unwind, ["--trace", "--property", prop]), out=out)
        data = parse_json(out)
        trace = None
        for e in data:
            for r in e.get("result", []) if isinstance(e, dict) else []:
                if r.get("property") == prop and "trace" in r: trace = r["trace"]
        if trace is None: return False, "verifier gave no trace"
        st, _ = statics(bdir + "/u.gb")
        local = set(n for n, p, t, v, f in st if "::" not in n)
        ini = {}
        order = []
        for s in trace:
            if s.get("stepType") != "assignment": continue
            fnm = (s.get("sourceLocation") or {}).get("function", "")
            lhs = s.get("lhs", "")
            base = re.split(r"[.\[]", lhs, maxsplit=1)[0]
            if base not in local: continue
            if fnm not in ("__CPROVER_initialize", "__CPROVER__start", ""):
                # initial assignments only
                if s.get("hidden") is not True and fnm: continue
                continue
            fl = []
            flatten(re.sub(r"\[(\d+)l*\]", r"[\1]", lhs), s["value"], fl)
            for l, c in fl:
                if l not in ini: order.append(l)
                ini[l] = c
        vals = [(l, ini[l]) for l in order if re.match(r"^[\w.\[\]]+$", l)]
        nz = [(l, c) for l, c in vals if c not in ("0ULL", "0LL", "0")]
        txt = "\n".join("%s = %s" % x for x in nz[:4000])
        ok, log = native(u, bdir, vals)
        return ok, "inputs (non-zero initial values):\n%s\n\nnative run of the real code on these inputs:\n%s\n" % (txt, log)
    except Undecided as e:
        return False, "replay not possible: %s" % e

def native(u, bdir, vals):
    nat = bdir + "/native.c"
    bad = set()
    for attempt in range(6):
        with open(nat, "w") as f:
            f.write('#define VK_NATIVE 1\n#include "%s"\n' % harness(u))
            n = 0
            CH = 2000
            items = [x for x in vals if x[0] not in bad]
            for i in range(0, len(items), CH):
                f.write("static void vk_load_%d(void) {\n" % (i // CH)); n = i // CH + 1
                for l, c in items[i:i+CH]: f.write("  %s = %s;\n" % (l, c))
                f.write("}\n")
            f.write("void vk_load(void) {\n" + "".join("  vk_load_%d();\n" % k for k in range(n)) + "}\n")
        code, out, err = sh(["gcc", "-w", "-g", "-O0", "-fsanitize=address,bounds", "-fno-sanitize-recover=all",
                             "-fpermissive", *defs(u, "plain"), *incs(u, bdir), "-o", bdir + "/native", nat,
                             *u.native, "-lm", "-Wl,--unresolved-symbols=ignore-all"], timeout=200)
        if code == 0: break
        nb = set()
        lines = open(nat).read().split("\n")
        for m in re.finditer(r"native\.c:(\d+):\d+: error", err):
            ln = lines[int(m.group(1)) - 1].strip().split(" = ")[0]
            nb.add(ln)
        if not nb or nb <= bad: return False, "native build failed: " + err[-1500:]
        bad |= nb
    else:
        return False, "native build failed"
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=44:allocator_may_return_null=1")
    try:
        p = subprocess.run(["timeout", "60", bdir + "/native"], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           cwd=bdir, env=env, timeout=min(90, left()))
    except subprocess.TimeoutExpired:
        return False, "native run timed out"
    out = (p.stdout + p.stderr).decode("utf8", "replace")
    ok = p.returncode in (42, 44) or "runtime error" in out or (u.safety and p.returncode in (-11, -6, 139, 134))
    return ok, "exit status %d\n%s" % (p.returncode, out[-3000:])

# ---------------------------------------------------------------- unit
def run_unit(u, root, known):
    bdir = root + "/" + u.name
    t = time.time()
    info = dict(unit=u.name, contract_on=u.fn, functions=u.functions, mode=u.mode, bounded=u.bounded,
                obligations=0, discharged=0, by_kind={}, backend="", solver_s=0.0, reach=[], failed=[])
    mode = u.mode
    frame_note = None
    tries = list(u.unwind)
    while True:
        gb, ex = build(u, bdir, mode)
        names = posts_of(u, bdir)
        res = None
        for k, uw in enumerate(tries):
            res, dt, solver, be, msgs = run_cbmc(u, gb, bdir, uw)
            info["solver_s"] += solver
            c = [(r, *cls(u, r, names)) for r in res]
            uwfail = [r for r, kind, lab in c if kind == "unwind" and r["status"] != "SUCCESS"]
            if not uwfail: break
        bad = [(r, kind, lab) for r, kind, lab in c if r["status"] != "SUCCESS" and kind != "reach"]
        frame = [b for b in bad if b[1] in ("frame", "lib")]
        if mode == "dfcc" and frame and not u.replace and not u.loopc and \
           not any(b[1] in ("post", "safety", "callee") for b in bad if b[0]["status"] == "FAILURE"):
            mode = "plain"; frame_note = [b[2] for b in frame][:5]
            continue
        break
    info["mode_used"] = mode
    if frame_note: info["frame_undischarged"] = frame_note
    info["unwind"] = uw
    undef = [lab for r, kind, lab in bad if kind == "undef"]
    if undef: raise Undecided("%s: undefined functions reached: %s" % (u.name, undef))
    fails = [(r, kind, lab) for r, kind, lab in bad if r["status"] == "FAILURE" and kind in
             ("post", "callee", "loop") or (kind == "safety" and u.safety and r["status"] == "FAILURE")]
    # a failing obligation stands even when some loop was cut; otherwise a cut loop leaves it undecided
    if uwfail and not fails:
        raise Undecided("%s: loop not unwound: %s" % (u.name, [r["property"] for r in uwfail][:5]))
    if not fails:
        odd = [(r["property"], r["status"], lab) for r, kind, lab in bad if not (kind == "frame" and mode == "plain")]
        if odd: raise Undecided("%s: obligations not discharged: %s" % (u.name, odd[:5]))
    reach = [(lab, r["status"]) for r, kind, lab in c if kind == "reach"]
    dead = [l for l, s in reach if s == "SUCCESS"]
    if not reach: raise Undecided("%s: no reachability witness in the harness" % u.name)
    if dead and not fails:
        raise Undecided("%s: vacuous: not reachable: %s" % (u.name, dead))
    for r, kind, lab in c:
        if kind == "reach": continue
        info["obligations"] += 1
        if r["status"] == "SUCCESS": info["discharged"] += 1
        info["by_kind"][kind] = info["by_kind"].get(kind, 0) + 1
    npost = info["by_kind"].get("post", 0)
    if not npost and not u.safety: raise Undecided("%s: no obligations" % u.name)
    info["posts"] = sorted(set(l for r, kind, l in c if kind == "post"))[:60]
    info["reach"] = [l for l, s in reach]
    info["backend"] = "cbmc/" + (" ".join(u.solver) if u.solver else "SAT (MiniSat/CaDiCaL built in)")
    info["kept_tables"] = len(ex)
    for r, kind, lab in fails:
        info["failed"].append(dict(obligation=r["property"], kind=kind, label=lab,
                                   at="%s:%s" % ((r.get("sourceLocation") or {}).get("file", "?"),
                                                 (r.get("sourceLocation") or {}).get("line", "?"))))
    info["wall_s"] = round(time.time() - t, 2)
    if fails:
        # prefer a replayable one: try posts first
        fails.sort(key=lambda x: {"post": 0, "safety": 1}.get(x[1], 2))
        info["replay_ok"] = False
        info["replay_text"] = ""
        if u.replay:
            for r, kind, lab in fails[:4]:
                if left() < 60: break
                ok, txt = make_replay(u, gb, bdir, uw, r["property"])
                info["replay_ok"] = ok
                info["replay_text"] = "obligation %s (%s)\n%s" % (r["property"], lab, txt)
                if ok: break
    return info

def main():
    sys.path.insert(0, VERIF + "/lib")
    sys.path.insert(0, VERIF)
    import checks
    pid = sys.argv[1]
    only = sys.argv[sys.argv.index("--unit") + 1] if "--unit" in sys.argv else None
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    chk = checks.CHECKS[pid]
    units = [u for u in chk["units"] if (tier == "thorough" or u.quick) and (only is None or u.name == only)]
    root = tempfile.mkdtemp(prefix="vk_%s_" % pid)
    infos, errs = [], []
    try:
        with ThreadPoolExecutor(max_workers=min(JOBS, len(units))) as ex:
            futs = [(u, ex.submit(run_unit, u, root, None)) for u in units]
            for u, f in futs:
                try:
                    infos.append(f.result())
                except Undecided as e:
                    errs.append(str(e))
                except Exception as e:
                    import traceback
                    errs.append("%s: internal: %s" % (u.name, traceback.format_exc()[-1500:]))
        viol = [i for i in infos if i["failed"]]
        lines = []
        rc = 0
        for i in viol:
            os.makedirs(VERIF + "/replay", exist_ok=True)
            path = "%s/replay/%s-%s.txt" % (VERIF, pid, i["unit"])
            with open(path, "w") as f:
                f.write("property %s, unit %s, contract on %s\nfailed obligations:\n" % (pid, i["unit"], i["contract_on"]))
                for x in i["failed"]: f.write("  %(obligation)s [%(kind)s] %(label)s at %(at)s\n" % x)
                f.write("\n" + i.get("replay_text", ""))
            lines.append((not i.get("replay_ok"), "VIOLATION property=%s replay=%s%s" % (
                pid, path, "" if i.get("replay_ok") else " no-failing-input-found")))
        if lines:
            rc = 1
            lines.sort()
            for _, l in lines: print(l)
        for k in chk.get("known", []):
            print("KNOWN-FINDING: property=%s %s" % (pid, k))
        if errs and not viol:
            rc = 2
        for e in errs: print("UNDECIDED " + e, file=sys.stderr)
        ob = sum(i["obligations"] for i in infos)
        di = sum(i["discharged"] for i in infos)
        bnd = [i["unit"] for i in infos if i["bounded"]]
        ev = dict(property=pid, tier=tier, seed=seed, level=chk["level"],
                  coverage=dict(
                      obligations=ob, discharged=di,
                      obligations_unbounded=sum(i["obligations"] for i in infos if not i["bounded"]),
                      obligations_bounded=sum(i["obligations"] for i in infos if i["bounded"]),
                      checker_cmd="python3 lib/vk.py %s" % pid,
                      trusted_base=["CBMC 6.11.0 (goto-cc, goto-instrument, cbmc, built-in SAT solver)",
                                    "gcc 13 preprocessor and system headers"] + chk.get("trusted", []),
                      functions_under_contract=sorted(set(f for i in infos for f in i["functions"])),
                      bounded_units={i["unit"]: i["bounded"] for i in infos if i["bounded"]},
                      solver_s=round(sum(i["solver_s"] for i in infos), 2),
                      units=[{k: i.get(k) for k in ("unit", "contract_on", "mode_used", "bounded", "obligations",
                              "discharged", "by_kind", "posts", "reach", "backend", "solver_s", "wall_s", "unwind",
                              "frame_undischarged", "failed")} for i in infos],
                      explanation=chk.get("explain", "")),
                  assumptions=chk.get("assumptions", []),
                  wall_s=round(time.time() - T0, 2), violations=len(viol))
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        with open("%s/evidence/%s.json" % (VERIF, pid), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s %s: %d units, %d/%d obligations discharged, %d violations, %d undecided, %.1fs" % (
            pid, tier, len(infos), di, ob, len(viol), len(errs), time.time() - T0))
        if "-v" in sys.argv:
            for i in infos:
                print(" ", i["unit"], i["mode_used"], i["obligations"], i["by_kind"], "wall", i["wall_s"], "fail", i["failed"][:20])
                print(i.get("replay_text", "")[:3000] if i["failed"] else "")
        return rc
    finally:
        if "--keep" in sys.argv: print(root)
        else: shutil.rmtree(root, ignore_errors=True)

if __name__ == "__main__":
    sys.exit(main())
