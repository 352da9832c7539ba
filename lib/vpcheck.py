#!/usr/bin/env python3
"""Driver: decides one property of /repo with CBMC over harnesses in /verif/harness.

usage: vpcheck.py PROPERTY [--tier quick|thorough] [--only NAME] [--keep] [--verbose]

Every harness file  harness/<PROPERTY>_<name>.c  starts with  //@ key: value  lines:
  sources    files of /repo/src that are encoded (default: none)
  includes   files of /repo/src the harness includes itself (to see their private types)
  stub       functions of those files replaced by the harness' own stand-in
  drop       like cut, for functions of files the harness includes
  cut        functions of those files whose bodies are dropped from the encoding: unrelated
             ones that merely have the type of a callback the code calls through a pointer
  shrink     NAME=VALUE: constants of the library's headers that size its tables, made smaller
             for the encoding and the replay alike (the bound is part of the evidence)
  hook       header of lib/ force-included in every source (steps.h: scheduling points)
  env        libc/system functions the harness stands in for
  unwind / unwindset   loop bounds; NAME:BOUND in unwindset names a function whose loops get it
  flags      extra cbmc flags
  quick / thorough     "-DN=4 unwind=9 timeout=120" per tier ("skip" leaves the harness out)
  variants   several ";"-separated sets of -D flags, each is one query
  bounds     text for the evidence
  known      id of the known finding this harness demonstrates (must fail with its text)
  fns        functions of the library the property is about (must be encoded)
"""
import sys, os, re, json, subprocess, tempfile, shutil, time, hashlib, resource, signal, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
LIB = os.path.join(VERIF, "lib")
HARN = os.path.join(VERIF, "harness")
CFLAGS = ["-std=gnu90", "-I", REPO + "/include", "-I", REPO + "/src", "-I", LIB,
          "-include", LIB + "/notls.h", "-DUSE_DEBUG", "-DENABLE_ASSERTS",
          "-fno-strict-aliasing", "-w"]
ALLSRC = ["arrays", "async_io", "async_udp", "async_uds", "epoll", "events", "except",
          "future", "os_unix", "rpmalloc"]
CHECKS = ["--bounds-check", "--pointer-check", "--div-by-zero-check",
          "--no-signed-overflow-check", "--no-undefined-shift-check",
          "--no-pointer-primitive-check", "--no-malloc-may-fail"]
T0 = time.time()
HARD = float(os.environ.get("VP_HARD_SECONDS", "840"))


def left():
    return HARD - (time.time() - T0)


def run(cmd, timeout=None, mem=None, **kw):
    def pre():
        os.setsid()
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         stdin=subprocess.DEVNULL, preexec_fn=pre, **kw)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o.decode(errors="replace"), e.decode(errors="replace")
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        o, e = p.communicate()
        return "timeout", o.decode(errors="replace"), e.decode(errors="replace")


class Harness:
    def __init__(self, path, tier):
        self.path = path
        self.name = os.path.basename(path)[:-2]
        self.meta = {}
        for l in open(path):
            m = re.match(r"//@\s*([\w-]+)\s*:\s*(.*)", l)
            if m:
                k, v = m.group(1), m.group(2).strip()
                self.meta[k] = (self.meta[k] + " " + v) if k in self.meta else v
        g = self.meta.get
        self.sources = g("sources", "").split()
        self.stub = g("stub", "").replace(",", " ").split()
        self.drop = g("drop", "").replace(",", " ").split()
        self.cut = g("cut", "").replace(",", " ").split()
        self.includes = g("includes", "").split()
        self.env = g("env", "").replace(",", " ").split()
        self.unwind = int(g("unwind", "10"))
        self.unwindset = g("unwindset", "").replace(",", " ").split()
        self.flags = g("flags", "").split()
        self.shrink = g("shrink", "").split() + ["+" + x for x in g("hook", "").split()]
        self.defs = []
        self.timeout = 300
        self.known = g("known")
        self.bounds = g("bounds", "")
        self.variants = [v.split() for v in g("variants", "").split(";")]
        # "unwind=N" inside a variant holds for that variant only
        self.skip = False
        t = g(tier, "")
        if tier == "thorough" and not t:
            t = g("quick", "")
        for w in t.split():
            if w == "skip":
                self.skip = True
            elif w.startswith("unwind="):
                self.unwind = int(w[7:])
            elif w.startswith("timeout="):
                self.timeout = int(w[8:])
            elif w.startswith("unwindset="):
                self.unwindset += w[10:].split(",")
            elif w.startswith("variants="):
                pass
            else:
                self.defs.append(w)
        tv = g(tier + "-variants")
        if tv is not None:
            self.variants = [v.split() for v in tv.split(";")]


class Work:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="vpcheck.")
        self.gb = {}
        self.nat = {}

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


class BuildError(Exception):
    pass


def goto_compile(w, src, out, extra=()):
    flags = ["-std=gnu99", "-w"] if src.endswith("libc_models.c") else CFLAGS
    rc, o, e = run(["goto-cc", "-c", "-DVP_CBMC"] + flags + list(extra) + [src, "-o", out], 300)
    if rc != 0:
        raise BuildError("goto-cc %s: %s" % (src, (o + e)[-3000:]))


def shrink_flags(w, shrink):
    """force-included header that overrides table sizes; a name the library no longer uses has no effect"""
    if not shrink:
        return []
    p = os.path.join(w.dir, "shrink_" + hashlib.sha1(" ".join(shrink).encode()).hexdigest()[:10] + ".h")
    if not os.path.exists(p):
        q = "%s.%d" % (p, threading.get_ident())
        with open(q, "w") as f:
            f.write('#include "events_internal.h"\n')
            for x in shrink:
                if x[0] == "+":
                    f.write('#include "%s/%s"\n' % (LIB, x[1:]))
                    continue
                n, v = x.split("=")
                f.write("#undef %s\n#define %s %s\n" % (n, n, v))
        os.replace(q, p)
    return ["-include", p]


def defined_functions(gb):
    rc, o, e = run(["goto-instrument", "--list-goto-functions", gb], 120)
    out = set()
    for l in o.splitlines():
        m = re.match(r"^\s*([\w.$]+)\s+/\*\s*([\w.$:]+)\s*\*/", l)
        if m and not m.group(1).startswith("__CPROVER"):
            out.add(m.group(1))
    return out


def load_findings():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"findings": []}


def build_goto(w, h, variant, tag, vac):
    """link harness + sources into one goto binary"""
    d = os.path.join(w.dir, h.name + "." + tag)
    os.makedirs(d, exist_ok=True)
    hb = os.path.join(d, "h.gb")
    goto_compile(w, h.path, hb, shrink_flags(w, h.shrink) + h.defs + variant + (["-DVP_VACUITY"] if vac else []))
    objs = [hb]
    stubs = set(h.stub) | set(h.env) | set(h.cut)
    for s in h.sources + ["@libc_models"]:
        key = (s, tuple(h.shrink)) if s[0] != "@" else (s, ())
        if key not in w.gb:
            raise BuildError("source %s was not prebuilt" % s)
        src, fns = w.gb[key]
        rem = [f for f in fns if f in stubs]
        if rem:
            out = os.path.join(d, s.replace("@", "") + ".gb")
            cmd = ["goto-instrument"]
            for f in rem:
                cmd += ["--remove-function-body", f]
            rc, o, e = run(cmd + [src, out], 120)
            if rc != 0:
                raise BuildError("goto-instrument: " + (o + e)[-2000:])
            src = out
        objs.append(src)
    out = os.path.join(d, "all.gb")
    rc, o, e = run(["goto-cc"] + objs + ["-o", out], 300)
    if rc != 0:
        raise BuildError("goto-cc link: " + (o + e)[-3000:])
    if h.drop:
        rc, o, e = run(["goto-instrument"] + sum((["--remove-function-body", f] for f in h.drop), []) + [out, out], 300)
        if rc == 0:
            rc, o, e = run(["goto-instrument", "--generate-function-body", "^(%s)$" % "|".join(h.drop),
                            "--generate-function-body-options", "nondet-return", out, out], 300)
        if rc != 0:
            raise BuildError("goto-instrument: " + (o + e)[-2000:])
    return out


def parse_json(o):
    try:
        return json.loads(o)
    except Exception:
        # killed half way: no result
        return None


def loops_of(gb):
    rc, o, e = run(["cbmc", "--show-loops", "--json-ui", gb], 120)
    d = parse_json(o) or []
    for x in d:
        if isinstance(x, dict) and "loops" in x:
            return [l["name"] for l in x["loops"]]
    return []


def unwind_args(h, gb, factor=1):
    a = ["--unwind", str(h.unwind * factor)]
    if h.unwindset:
        ls = loops_of(gb)
        us = []
        for u in h.unwindset:
            n, b = u.rsplit(":", 1)
            for l in ls:
                base = l.rsplit(".", 1)[0]
                base = re.sub(r"^.*::", "", base)
                if l == n or base == n:
                    us.append("%s:%d" % (l, int(b) * factor))
        if us:
            a += ["--unwindset", ",".join(us)]
    return a


def split_variant(h, variant):
    """-> (harness with the variant's own bounds, -D flags of the variant)"""
    import copy
    own = [x for x in variant if x.startswith("unwind=") or x.startswith("unwindset=")]
    if not own:
        return h, variant
    h = copy.copy(h)
    h.unwindset = list(h.unwindset)
    for x in own:
        if x.startswith("unwind="):
            h.unwind = int(x[7:])
        else:
            h.unwindset += x[10:].split(",")
    return h, [x for x in variant if x not in own]


MEMCAP = int(os.environ.get("VP_MEM_GB", "12")) << 30


def cbmc(h, gb, extra, timeout, factor=1):
    cmd = ["cbmc", gb, "--json-ui", "--verbosity", "8", "--drop-unused-functions", ] + ([] if "--object-bits" in h.flags else ["--object-bits", "10"]) \
        + unwind_args(h, gb, factor) + CHECKS + h.flags + extra
    t = time.time()
    rc, o, e = run(cmd, max(1, min(timeout, left())), MEMCAP)
    return {"rc": rc, "json": parse_json(o), "wall": time.time() - t, "cmd": " ".join(cmd),
            "err": e[-500:], "raw": o[-1500:]}


def results_of(j):
    res, msgs = None, []
    for x in j or []:
        if isinstance(x, dict):
            if "result" in x:
                res = x["result"]
            if "messageText" in x:
                msgs.append(x["messageText"])
    return res, msgs


def stats_of(msgs):
    s = {"vccs": 0, "remaining": 0, "vars": 0, "clauses": 0, "solver": 0.0, "steps": 0}
    for m in msgs:
        a = re.search(r"Generated (\d+) VCC\(s\), (\d+) remaining", m)
        if a:
            s["vccs"], s["remaining"] = int(a.group(1)), int(a.group(2))
        a = re.search(r"(\d+) variables, (\d+) clauses", m)
        if a:
            s["vars"], s["clauses"] = max(s["vars"], int(a.group(1))), max(s["clauses"], int(a.group(2)))
        a = re.search(r"Runtime [Dd]ecision [Pp]rocedure: ([\d.e+-]+)s", m)
        if a:
            s["solver"] += float(a.group(1))
        a = re.search(r"size of program expression: (\d+) steps", m)
        if a:
            s["steps"] = int(a.group(1))
    return s


def inputs_of(trace):
    vals = []
    for st in trace:
        if st.get("stepType") == "assignment" and st.get("lhs") == "vp_input" and not st.get("hidden"):
            v = st.get("value", {})
            b = v.get("binary")
            vals.append(int(b, 2) if b else int(re.sub(r"[^0-9-]", "", str(v.get("data", "0"))) or 0))
    return vals


def native_source(w, s, shrink=()):
    if (s, shrink) in w.nat:
        return w.nat[s, shrink]
    out = os.path.join(w.dir, "n_" + s + hashlib.sha1(" ".join(shrink).encode()).hexdigest()[:8] + ".o")
    rc, o, e = run(["gcc", "-c", "-g", "-O0", "-fno-inline", "-Dalways_inline=noinline", "-fno-builtin",
                    "-fsanitize=address,undefined", "-fno-sanitize=alignment,shift,signed-integer-overflow,null,pointer-overflow",
                    "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer", "-no-pie", "-fno-pie"]
                   + CFLAGS + shrink_flags(w, shrink) + [REPO + "/src/" + s + ".c", "-o", out], 300)
    if rc != 0:
        raise BuildError("gcc %s: %s" % (s, (o + e)[-2000:]))
    w.nat[s, shrink] = out
    return out


def build_native(w, h, variant, tag):
    d = os.path.join(w.dir, h.name + "." + tag)
    os.makedirs(d, exist_ok=True)
    exe = os.path.join(d, "replay")
    if os.path.exists(exe):
        return exe
    hb = os.path.join(d, "h.o")
    rc, o, e = run(["gcc", "-c", "-g", "-O0", "-fsanitize=address,undefined", "-fno-builtin",
                    "-fno-sanitize=alignment,shift,signed-integer-overflow,null,pointer-overflow", "-fno-sanitize-recover=undefined",
                    "-Dalways_inline=noinline", "-no-pie", "-fno-pie"] + CFLAGS
                   + shrink_flags(w, h.shrink) + h.defs + variant + [h.path, "-o", hb], 300)
    if rc != 0:
        raise BuildError("gcc harness: " + (o + e)[-2000:])
    def redefine(obj):
        if not h.env:
            return
        rc, o, e = run(["nm", obj], 60)
        have = set(l.split()[-1] for l in o.splitlines() if l.split())
        for pre in ("", "__isoc23_", "__isoc99_"):
            r = []
            for f in h.env:
                if pre + f in have:
                    r += ["--redefine-sym", "%s%s=vpenv_%s" % (pre, f, f)]
            if r:
                rc, o, e = run(["objcopy"] + r + [obj], 60)
                if rc != 0:
                    raise BuildError("objcopy: " + e)
    objs = [hb]
    redefine(hb)
    for s in h.sources:
        o_ = native_source(w, s, tuple(h.shrink))
        out = os.path.join(d, s + ".o")
        cmd = ["objcopy"]
        for f in h.stub:
            cmd += ["--weaken-symbol", f]
        rc, o, e = run(cmd + [o_, out], 60)
        if rc != 0:
            raise BuildError("objcopy: " + e)
        redefine(out)
        objs.append(out)
    rt = os.path.join(w.dir, "rt.o")
    if not os.path.exists(rt):
        run(["gcc", "-c", "-g", "-DVP_NO_MAIN", "-I", LIB, "-no-pie", "-fno-pie", LIB + "/replay_rt.c", "-o", rt + "." + str(threading.get_ident())], 60)
        os.replace(rt + "." + str(threading.get_ident()), rt)
    rc, o, e = run(["gcc", "-fsanitize=address,undefined", "-no-pie", "-Wl,--unresolved-symbols=ignore-all",
                    "-Wl,--allow-multiple-definition", "-w"] + objs + [rt, "-o", exe, "-lpthread", "-lm"], 300)
    if rc != 0:
        raise BuildError("native link: " + (o + e)[-2000:])
    return exe


def replay(exe, valfile, timeout=20):
    """-> (confirmed, text)"""
    last = ""
    for fill in ("190", "0", "255", "1"):
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:max_malloc_fill_size=65536:malloc_fill_byte=%s:detect_stack_use_after_return=0:allocator_may_return_null=1:handle_abort=0" % fill,
                   UBSAN_OPTIONS="halt_on_error=1:print_stacktrace=1:exitcode=98")
        d = tempfile.mkdtemp(prefix="vpreplay.")
        rc, o, e = run([exe, valfile], timeout, env=env, cwd=d)
        shutil.rmtree(d, ignore_errors=True)
        txt = (e + o)[-6000:]
        if rc == "timeout":
            return True, "does not terminate (killed after %ds)\n" % timeout + txt[-1000:]
        if rc == 10:
            return True, txt
        if rc == 77:
            last = "assumption not met natively\n" + txt
            continue
        if rc != 0:
            # signals and sanitizer exits
            return True, "exit %s\n%s" % (rc, txt)
        last = txt
    return False, last


def check_query(w, h, vi, variant, verbose):
    """one harness variant -> dict"""
    h, variant = split_variant(h, variant)
    tag = str(vi)
    r = {"harness": h.name, "variant": " ".join(h.defs + variant), "status": "ok", "fails": [],
         "obligations": 0, "discharged": 0, "bounds": h.bounds, "unwind": h.unwind}
    try:
        gb = build_goto(w, h, variant, tag, False)
        build_native(w, h, variant, tag)
        factor = 1
        while True:
            c = cbmc(h, gb, ["--unwinding-assertions", "--slice-formula"], h.timeout, factor)
            res, msgs = results_of(c["json"])
            if res is None:
                r["status"] = "inconclusive"
                r["why"] = "cbmc gave no verdict (%s after %.0fs): %s %s" % (c["rc"], c["wall"], c["err"], "out of memory" if "emory" in c["raw"] else "")
                return r
            fails = [x for x in res if x["status"] == "FAILURE"]
            if not fails and any(x["status"] != "SUCCESS" for x in res):
                r["status"] = "inconclusive"
                r["why"] = "solver left %d obligations undecided" % len([x for x in res if x["status"] != "SUCCESS"])
                return r
            if fails and all("unwind" in x["property"] or "recursion" in x["property"] for x in fails) and factor < 4 and not h.known:
                # maybe the loop only needs more room: an endless one is confirmed by replay
                ok = confirm(w, h, variant, tag, gb, factor, fails[:2], r, verbose)
                if ok:
                    return r
                factor *= 2
                r["fails"] = []
                continue
            break
        st = stats_of(msgs)
        r.update(st)
        r["wall"] = c["wall"]
        r["unwind"] = h.unwind * factor
        r["obligations"] = len(res)
        r["discharged"] = len(res) - len(fails)
        nobody = [m for m in msgs if "no body for function" in m]
        r["nobody"] = sorted(set(re.findall(r"no body for function '?([\w.$]+)", " ".join(nobody))))
        r["sample"] = [x["description"] for x in res if x["description"].startswith("vp:")][:4]
        if fails:
            # library assertions and property text first, then memory safety, then loops
            def rank(x):
                p = x["property"]
                return (0 if x["description"].startswith("vp:") else 2 if ".unwind" in p else 3 if "no-body" in p else 1)
            fails.sort(key=rank)
            r["status"] = "failed"
            r["failed_props"] = [(x["property"], x["description"]) for x in fails]
            confirm(w, h, variant, tag, gb, factor, fails[:4], r, verbose)
        r["functions"] = functions_of(gb)
    except BuildError as ex:
        r["status"] = "inconclusive"
        r["why"] = str(ex)
    return r


def confirm(w, h, variant, tag, gb, factor, fails, r, verbose):
    """replay counterexamples natively; fills r['fails']"""
    got = False
    for x in fails:
        c = cbmc(h, gb, ["--unwinding-assertions", "--trace", "--property", x["property"]], h.timeout, factor)
        res, msgs = results_of(c["json"])
        tr = None
        for y in res or []:
            if y.get("trace"):
                tr = y["trace"]
        if tr is None:
            r["fails"].append({"property": x["property"], "description": x["description"],
                               "confirmed": False, "text": "no trace"})
            continue
        vals = inputs_of(tr)
        loc = ""
        for st in reversed(tr):
            sl = st.get("sourceLocation")
            if sl and st.get("stepType") == "failure":
                loc = "%s:%s %s" % (sl.get("file", ""), sl.get("line", ""), sl.get("function", ""))
                break
        vf = os.path.join(w.dir, "%s.%s.vals" % (h.name, tag))
        with open(vf, "w") as f:
            f.write("# harness %s %s\n# fails: %s (%s) at %s\n" % (h.name, " ".join(h.defs + variant), x["description"], x["property"], loc))
            f.write("\n".join(map(str, vals)) + "\n")
        exe = build_native(w, h, variant, tag)
        ok, txt = replay(exe, vf)
        r["fails"].append({"property": x["property"], "description": x["description"], "loc": loc,
                           "confirmed": ok, "text": txt, "vals": vals[:64], "valfile": vf})
        if ok:
            got = True
            break
    return got


def functions_of(gb):
    out = gb + ".dropped"
    rc, o, e = run(["goto-instrument", "--drop-unused-functions", gb, out], 120)
    rc, o, e = run(["goto-instrument", "--list-goto-functions", "--json-ui", out if os.path.exists(out) else gb], 120)
    fns = set()
    try:
        for x in json.loads(o):
            for f in x.get("functions", []) if isinstance(x, dict) else []:
                if f.get("isBodyAvailable"):
                    fns.add(f["name"])
    except Exception:
        pass
    # keep only functions that live in /repo
    return sorted(f for f in fns if f in REPOFNS and not f.startswith("__CPROVER"))


REPOFNS = set()


def vacuity(w, h, vi, variant):
    h, variant = split_variant(h, variant)
    tag = "v%d" % vi
    r = {"harness": h.name, "ok": True, "reached": 0, "expected": 0, "replayed": 0, "why": ""}
    if h.known:
        return r
    try:
        gb = build_goto(w, h, variant, tag, True)
        for factor in (1, 2, 4):
            c = cbmc(h, gb, ["--no-standard-checks", "--no-unwinding-assertions", "--trace"], h.timeout, factor)
            res, msgs = results_of(c["json"])
            if res is None:
                r["ok"] = False
                r["why"] = "no verdict (%s)" % c["rc"]
                return r
            reach = [x for x in res if x["description"].startswith("vp-reach")]
            hit = [x for x in reach if x["status"] == "FAILURE"]
            if reach and len(hit) == len(reach):
                break
        r["expected"], r["reached"] = len(reach), len(hit)
        r["wall"] = c["wall"]
        if not reach or len(hit) != len(reach):
            r["ok"] = False
            r["why"] = "not reachable: " + ", ".join(x["description"] for x in reach if x not in hit)
            return r
        exe = build_native(w, h, variant, tag)
        for x in hit:
            vals = inputs_of(x["trace"])
            vf = os.path.join(w.dir, "%s.%s.vals" % (h.name, tag))
            with open(vf, "w") as f:
                f.write("\n".join(map(str, vals)) + "\n")
            env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1")
            d = tempfile.mkdtemp(prefix="vpreplay.")
            rc, o, e = run([exe, vf], 20, env=env, cwd=d)
            shutil.rmtree(d, ignore_errors=True)
            m = x["description"].split()[-1]
            if "REPLAY: reached " + m in e:
                r["replayed"] += 1
                r["sample"] = {"reach": m, "inputs": vals[:40]}
            else:
                r["why"] += "replay of %s: rc=%s %s; " % (x["description"], rc, e[-400:])
    except BuildError as ex:
        r["ok"] = False
        r["why"] = str(ex)
    return r


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--timeout", type=int)
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--verbose", "-v", action="store_true")
    ap.add_argument("--no-vacuity", action="store_true")
    a = ap.parse_args()
    w = Work()
    try:
        rc = decide(w, a)
    finally:
        if a.keep:
            print("work dir", w.dir)
        else:
            w.close()
    sys.exit(rc)


def decide(w, a):
    files = sorted(f for f in os.listdir(HARN) if re.match(r"%s_.*\.c$" % re.escape(a.prop), f))
    hs = [Harness(os.path.join(HARN, f), a.tier) for f in files]
    hs = [h for h in hs if not h.skip and (not a.only or a.only in h.name)]
    for h in hs:
        if a.timeout:
            h.timeout = a.timeout
    if not hs:
        print("no harness for", a.prop)
        return 2
    srcs = sorted(set((s, tuple(h.shrink)) for h in hs for s in h.sources))
    pool = ThreadPoolExecutor(int(os.environ.get("VP_JOBS", "8")))

    def prep(k):
        s, shrink = k
        out = os.path.join(w.dir, s.replace("@", "") + hashlib.sha1(" ".join(shrink).encode()).hexdigest()[:8] + ".gb")
        src = LIB + "/libc_models.c" if s == "@libc_models" else REPO + "/src/" + s + ".c"
        goto_compile(w, src, out, shrink_flags(w, shrink))
        return k, out, defined_functions(out)
    try:
        for s, out, fns in pool.map(prep, srcs + [("@libc_models", ())]):
            w.gb[s] = (out, fns)
            if s[0][0] != "@":
                REPOFNS.update(fns)
    except BuildError as ex:
        print("ERROR: cannot encode the current tree:", ex)
        return 2
    for h in hs:
        for s in h.includes:
            for l in open(REPO + "/src/" + s + ".c", errors="replace"):
                m = re.match(r"^[A-Za-z_].*?\b(\w+)\s*\(.*[{,]\s*$", l)
                if m:
                    REPOFNS.add(m.group(1))
    # native objects are needed for replay and witnesses; build them once, up front
    nat = [pool.submit(native_source, w, s, k) for s, k in srcs]
    for f in nat:
        try:
            f.result()
        except BuildError as ex:
            print("ERROR:", ex)
            return 2
    jobs, vjobs = [], []
    for h in hs:
        for vi, v in enumerate(h.variants):
            jobs.append((h, vi, v, pool.submit(check_query, w, h, vi, v, a.verbose)))
    if not a.no_vacuity:
        for h in hs:
            for vi, v in enumerate(h.variants):
                if vi and h.meta.get("vacuity") == "first":
                    continue
                vjobs.append((h, vi, v, pool.submit(vacuity, w, h, vi, v)))
    results = [j[3].result() for j in jobs]
    vres = [j[3].result() for j in vjobs]

    rc = 0
    findings = {f["id"]: f for f in load_findings().get("findings", []) if f.get("status") == "known"}
    violations, known, inconclusive, unconfirmed = [], [], [], []
    rdir = os.path.join(VERIF, "replays", a.prop)
    for (h, vi, v, _), r in zip(jobs, results):
        if h.known:
            f = findings.get(h.known)
            hit = [x for x in r.get("failed_props", []) if f and f["fails"] in x[1]]
            if r["status"] == "inconclusive":
                inconclusive.append(r)
            elif f and hit and any(x["confirmed"] for x in r["fails"]):
                known.append(f)
                bad = [x for x in r["fails"] if x["confirmed"] and f["fails"] not in x["description"] and not f.get("also")]
                if bad:
                    violations.append((h, vi, v, r, bad[0]))
            elif r["status"] == "failed":
                c = [x for x in r["fails"] if x["confirmed"]]
                if c:
                    violations.append((h, vi, v, r, c[0]))
                else:
                    unconfirmed.append(r)
            continue
        if r["status"] == "inconclusive":
            inconclusive.append(r)
        c = [x for x in r["fails"] if x["confirmed"]]
        if c:
            violations.append((h, vi, v, r, c[0]))
        elif r["status"] == "failed":
            unconfirmed.append(r)
    for r in vres:
        if not r["ok"]:
            inconclusive.append({"harness": r["harness"], "why": "vacuity witness: " + r["why"], "vac": True})
        elif a.verbose and r["why"]:
            print("note:", r["harness"], r["why"])

    if a.verbose:
        for r in results:
            print("%-28s %-30s %-12s obligations=%d/%d wall=%.1fs solver=%.1fs clauses=%s unwind=%s nobody=%s" % (
                r["harness"], r["variant"], r["status"], r["discharged"], r["obligations"],
                r.get("wall", 0), r.get("solver", 0), r.get("clauses"), r.get("unwind"), ",".join(r.get("nobody", []))))
            for p in r.get("failed_props", [])[:6]:
                print("     FAILED", p)
            for x in r["fails"]:
                print("     ", "CONFIRMED" if x["confirmed"] else "unconfirmed", x["description"], x.get("loc"), x.get("vals"))
                print("         ", "\n".join(x["text"].splitlines()[:12])[:900].replace("\n", "\n          "))
            if r.get("why"):
                print("     ", r["why"][-300:])
        for r in vres:
            print("witness %-28s %s reached=%d/%d replayed=%d %.1fs %s" % (
                r["harness"], "ok" if r["ok"] else "NOT OK", r["reached"], r["expected"], r["replayed"], r.get("wall", 0), r["why"][-300:]))

    for f in {f["id"]: f for f in known}.values():
        print("KNOWN-FINDING: property=%s %s" % (a.prop, f["title"]))
    for (h, vi, v, r, x) in violations:
        os.makedirs(rdir, exist_ok=True)
        base = os.path.join(rdir, "%s.%d" % (h.name, vi))
        shutil.copy(x["valfile"], base + ".vals")
        with open(base + ".txt", "w") as fo:
            fo.write("property %s\nharness %s %s\nsolver says: %s [%s]\nat %s\nreplayed against the real code:\n%s\n"
                     "replay again: VP_REPO=/repo python3 %s/lib/vpreplay.py %s.vals\n" % (
                         a.prop, h.name, r["variant"], x["description"], x["property"], x["loc"], x["text"], VERIF, base))
        print("  %s: %s at %s" % (h.name, x["description"], x["loc"]))
        print("VIOLATION property=%s replay=%s" % (a.prop, base + ".txt"))
        rc = 1
    for r in unconfirmed:
        print("UNCONFIRMED (not reported as a violation; the counterexample does not reproduce natively): %s %s" % (r["harness"], r.get("failed_props", r["fails"])[:3]))
    for r in inconclusive:
        print("INCONCLUSIVE %s: %s" % (r["harness"], " ".join(r["why"].split())[-200:]))
    if rc == 0 and (inconclusive or unconfirmed):
        rc = 2
    write_evidence(a, hs, results, vres, violations, known)
    fn = sorted(set(f for r in results for f in r.get("functions", [])))
    print("%s %s: %d queries, %d/%d obligations discharged, %d witnesses, %d functions encoded, %.0fs" % (
        a.prop, a.tier, len(results), sum(r["discharged"] for r in results), sum(r["obligations"] for r in results),
        sum(r["reached"] for r in vres), len(fn), time.time() - T0))
    return rc


def write_evidence(a, hs, results, vres, violations, known):
    if a.only:
        return
    fns = sorted(set(f for r in results for f in r.get("functions", [])))
    cov = {
        "explanation": "Bounded symbolic model checking (CBMC) of the current /repo sources. Each query encodes the named functions from source; "
                       "the solver decides all listed assertions, memory-safety and unwinding obligations for every value within the bounds. "
                       "Nothing is claimed beyond the bounds.",
        "queries": len(results),
        "obligations": sum(r["obligations"] for r in results),
        "discharged": sum(r["discharged"] for r in results),
        "states": sum(r.get("steps", 0) for r in results),
        "transitions": sum(r.get("vccs", 0) for r in results),
        "states_meaning": "symbolic program states (SSA steps) the encodings contain; transitions: verification conditions generated over them",
        "sat_variables": sum(r.get("vars", 0) for r in results),
        "sat_clauses": sum(r.get("clauses", 0) for r in results),
        "traces_validated_against_impl": sum(r["replayed"] for r in vres),
        "solver_s": round(sum(r.get("solver", 0) for r in results), 2),
        "functions_encoded": fns,
        "bounds": sorted(set("%s [%s, unwind %s]: %s" % (r["harness"], r["variant"], r["unwind"], r["bounds"]) for r in results)),
        "reachability_witnesses": sum(r["reached"] for r in vres),
        "samples": [{"harness": r["harness"], "witness": r["sample"]} for r in vres if r.get("sample")][:6]
                   + [{"harness": r["harness"], "assertions": r.get("sample", [])} for r in results][:6],
        "per_query": [{"harness": r["harness"], "variant": r["variant"], "status": r["status"],
                       "obligations": r["obligations"], "discharged": r["discharged"], "vccs": r.get("vccs", 0),
                       "wall_s": round(r.get("wall", 0), 2), "solver_s": round(r.get("solver", 0), 2)} for r in results],
        "known_findings": sorted(set(f["id"] for f in known)),
        "checker_cmd": "cbmc (see lib/vpcheck.py)",
        "trusted_base": ["CBMC 6.11", "stand-ins in the harness files and lib/libc_models.c"],
    }
    ass = set()
    for h in hs:
        for k in ("assume", "assumes"):
            if k in h.meta:
                ass.add(h.name + ": " + h.meta[k])
        if h.shrink:
            ass.add(h.name + ": table sizes reduced, scheduling points added: " + ", ".join(h.shrink))
        if h.stub or h.env:
            ass.add(h.name + ": stand-ins for " + ", ".join(h.stub + h.env))
    ass.add("malloc does not fail unless a harness makes it; x86-64 LP64 types; sequentially consistent memory")
    man = os.path.join(VERIF, "MANIFEST.json")
    level = "model_checking"
    try:
        for c in json.load(open(man))["checks"]:
            if c["property"] == a.prop:
                level = c["level"]
    except Exception:
        pass
    ev = {"property": a.prop, "tier": a.tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": level,
          "coverage": cov, "wall_s": round(time.time() - T0, 2), "violations": len(violations), "assumptions": sorted(ass)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", a.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    return


if __name__ == "__main__":
    main()
