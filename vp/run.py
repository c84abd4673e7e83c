#!/usr/bin/env python3
"""Driver: python3 vp/run.py <ID>.  Builds the queries of harness/<ID>/spec.py from /repo's current
sources, lets the solver decide them, replays counterexamples on natively compiled code, writes
evidence/<ID>.json.  Exit 0 held, 1 violated (VIOLATION line), 2 error of the check."""
import concurrent.futures as cf
import importlib.util, json, os, re, resource, shutil, subprocess, sys, tempfile, threading, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
DEC = REPO + "/decoder"
INC = ["-I" + DEC + "/x86_64", "-I" + DEC, "-I" + REPO + "/test", "-I" + ROOT + "/vp"]
DEFS = ["-D_X86_"]
JOBS = int(os.environ.get("VP_JOBS", "8"))
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
BUDGET = float(os.environ.get("VP_BUDGET", "780" if TIER == "quick" else "14000"))
T0 = time.time()
lock = threading.Lock()


def log(*a):
    with lock:
        print(*a, flush=True)


def sh(cmd, timeout=300, mem_gb=None, cwd=None, env=None):
    def pre():
        os.setsid()
        if mem_gb:
            b = int(mem_gb * (1 << 30))
            resource.setrlimit(resource.RLIMIT_AS, (b, b))
    t = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=cwd, preexec_fn=pre, env=env)
    try:
        out, _ = p.communicate(timeout=max(1, timeout))
        rc = p.returncode
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        out, _ = p.communicate()
        rc = -99
    return rc, out.decode("utf-8", "replace"), time.time() - t


class Build:
    """goto binaries / native objects of the current tree, made once per run."""
    def __init__(self, work):
        self.work = work
        self.cache = {}
        self.klock = {}

    def _once(self, key, fn):
        with lock:
            l = self.klock.setdefault(key, threading.Lock())
        with l:
            if key not in self.cache:
                self.cache[key] = fn()
            return self.cache[key]

    def src(self, s):
        return s if s.startswith("/") else DEC + "/" + s

    def goto(self, path, defs=(), stub=()):
        key = ("g", path, tuple(defs), tuple(sorted(stub)))

        def mk():
            out = "%s/g%d_%s.gb" % (self.work, abs(hash(key)) % 10**9, os.path.basename(path))
            rc, o, _ = sh(["goto-cc"] + DEFS + list(defs) + INC + ["-c", path, "-o", out])
            if rc:
                raise RuntimeError("goto-cc failed on %s:\n%s" % (path, o[-3000:]))
            if stub:
                o2 = out + ".s.gb"
                args = []
                for s in stub:
                    args += ["--remove-function-body", s]
                rc, o, _ = sh(["goto-instrument"] + args + [out, o2])
                if rc:
                    raise RuntimeError("goto-instrument failed:\n" + o[-2000:])
                out = o2
            return out
        return self._once(key, mk)

    def native(self, path, defs=(), stub=(), san=(), opt="-O0"):
        key = ("n", path, tuple(defs), tuple(sorted(stub)), tuple(san), opt)

        def mk():
            out = "%s/n%d_%s.o" % (self.work, abs(hash(key)) % 10**9, os.path.basename(path))
            cc = ["gcc", "-g", opt, "-w", "-fno-builtin", "-ffp-contract=off"] + list(san)
            if stub:  # weak in the assembly, so that the harness's definition is the one called, also within the file
                rc, o, _ = sh(cc + DEFS + list(defs) + INC + ["-S", path, "-o", out + ".s"])
                if not rc:
                    with open(out + ".s", "a") as f:
                        f.write("".join("\t.weak %s\n" % n for n in stub))
                    rc, o, _ = sh(cc + ["-c", out + ".s", "-o", out])
            else:
                rc, o, _ = sh(cc + DEFS + list(defs) + INC + ["-c", path, "-o", out])
            if rc:
                raise RuntimeError("gcc failed on %s:\n%s" % (path, o[-3000:]))
            return out
        return self._once(key, mk)

    def data_index(self):
        """data symbol -> file of decoder/ that defines it"""
        def mk():
            self.archive()
            idx = {}
            for f in sorted(os.listdir(DEC)):
                if f.endswith(".c"):
                    _, o, _ = sh(["nm", "--defined-only", self.native(DEC + "/" + f)])
                    for l in o.splitlines():
                        a = l.split()
                        if len(a) == 3 and a[1] in "BDRCGS":
                            idx.setdefault(a[2], f)
            return idx
        return self._once("data", mk)

    def undef_data(self, path, defs=()):
        """data symbols of decoder/ that the object refers to without defining them"""
        idx = self.data_index()
        _, o, _ = sh(["nm", "-u", self.native(path, defs)])
        return {idx[a.split()[-1]] for a in o.splitlines() if a.split() and a.split()[-1] in idx}

    def archive(self):
        def mk():
            srcs = sorted(DEC + "/" + f for f in os.listdir(DEC) if f.endswith(".c"))
            with cf.ThreadPoolExecutor(JOBS) as ex:
                objs = list(ex.map(lambda s: self.native(s), srcs))
            a = self.work + "/all.a"
            sh(["ar", "rcs", a] + objs)
            return a
        return self._once("ar", mk)


def fn_index():
    """function name -> file in decoder/ (definitions), to resolve helpers that moved between files"""
    idx = {}
    for f in sorted(os.listdir(DEC)):
        if not f.endswith(".c"):
            continue
        t = open(DEC + "/" + f, errors="replace").read()
        for m in re.finditer(r"^[A-Za-z_][\w \t\*]*?\b(\w+)\s*\(([^;{}]*?)\)\s*\{", t, re.M):
            idx.setdefault(m.group(1), f)
    return idx


CHECKS = {
    "bounds": ["--bounds-check"],
    "mem": ["--bounds-check", "--pointer-check"],
    "div": ["--div-by-zero-check"],
    "shift": ["--undefined-shift-check"],
    "sov": ["--signed-overflow-check"],
    "float": ["--nan-check", "--float-overflow-check"],
    "prim": ["--pointer-primitive-check"],
    "leak": ["--memory-leak-check"],
}
SAN = {
    "bounds": ["-fsanitize=bounds"],
    "mem": ["-fsanitize=address,bounds,null"],
    "div": ["-fsanitize=integer-divide-by-zero"],
    "shift": ["-fsanitize=shift"],
    "sov": ["-fsanitize=signed-integer-overflow"],
}


class Query:
    def __init__(self, pid, **k):
        self.pid = pid
        self.name = k.pop("name")
        self.harness = k.pop("harness", "h.c")
        self.entry = k.pop("entry")
        self.sources = k.pop("sources", [])
        self.stub = k.pop("stub", [])
        self.nostatic = k.pop("nostatic", [])    # sources whose static functions can be stubbed
        self.havoc = k.pop("havoc", [])          # functions deliberately left without a body
        self.unwind = k.pop("unwind", 2)
        self.nodata = k.pop("nodata", [])        # files whose tables stay arbitrary
        self.cut = k.pop("cut", False)           # runs past the loop bound are outside the stated bound
        self.unwindset = k.pop("unwindset", {})
        if isinstance(self.unwindset, str):
            self.unwindset = {x.rsplit(":", 1)[0]: int(x.rsplit(":", 1)[1]) for x in self.unwindset.split(",") if x}
        self.checks = k.pop("checks", ["mem", "div"])
        self.flags = k.pop("flags", [])
        self.defs = k.pop("defs", [])
        self.solver = k.pop("solver", None)
        self.timeout = k.pop("timeout", 240)
        self.mem = k.pop("mem", 10)
        self.tier = k.pop("tier", "quick")
        self.bounds = k.pop("bounds", "")
        self.functions = k.pop("functions", [])
        self.witness = k.pop("witness", True)
        self.wreplay = k.pop("wreplay", True)
        self.jmp = k.pop("jmp", False)
        self.src_defs = k.pop("src_defs", [])
        self.libs = k.pop("libs", ["-lm"])
        self.wraps = k.pop("wraps", [])
        self.weight = k.pop("weight", 1)
        self.grow = k.pop("grow", True)
        self.known = k.pop("known", None)        # id of a recorded finding this query exhibits
        assert not k, k
        self.res = {}

    def hpath(self):
        return "%s/harness/%s/%s" % (ROOT, self.pid, self.harness) if not self.harness.startswith("/") else self.harness

    def hdefs(self):
        return list(self.defs) + (["-DVP_JMP"] if self.jmp else [])


def parse_results(out):
    """plain cbmc output -> (list of property results, message lines), None if there is no verdict"""
    res, cur = [], "?"
    i = out.find("\n** Results:")
    head = out if i < 0 else out[:i]
    if i < 0:
        return None, head.splitlines()
    for l in out[i:].splitlines():
        m = re.match(r"^\[(\S+)\] (?:line (\d+) )?(.*): (SUCCESS|FAILURE|UNKNOWN|ERROR)$", l)
        if m:
            res.append({"property": m.group(1), "description": m.group(3), "status": m.group(4), "sourceLocation": {"file": cur, "line": m.group(2) or "?"}})
            continue
        m = re.match(r"^(\S+) function \S+$", l)
        if m:
            cur = m.group(1)
        if l.startswith("Trace for "):
            break
    return res, head.splitlines()


def inputs_of(out):
    return [int(re.sub(r"[^01]", "0", m.group(1).replace(" ", "")), 2) for m in re.finditer(r"^  INPUT vp: .*\(([01? ]+)\)$", out, re.M)]


class Engine:
    def __init__(self, pid, work):
        self.pid = pid
        self.b = Build(work)
        self.work = work
        self.idx = None

    # ---- encoding -------------------------------------------------------------------------
    def link(self, q):
        parts = [self.b.goto(q.hpath(), q.hdefs())]
        srcs = list(q.sources)
        for s in srcs:
            parts.append(self.b.goto(self.b.src(s), list(q.src_defs) + (["-Dstatic="] if s in q.nostatic else []), q.stub))
        out = "%s/%s.gb" % (self.work, re.sub(r"\W", "_", q.name))
        for _ in range(6):
            rc, o, _ = sh(["goto-cc", "--function", q.entry] + parts + ["-o", out])
            if rc:
                raise RuntimeError("link failed: " + o[-2000:])
            rc, o, _ = sh(["goto-instrument", "--list-undefined-functions", out])
            und0 = {l.strip() for l in o.splitlines() if re.match(r"^[A-Za-z_]\w*$", l.strip())}
            rc, o, _ = sh(["goto-instrument", "--reachable-call-graph", out])
            reach = set()
            for l in o.splitlines():
                m = re.match(r"^\s*(\S+) -> (\S+)\s*$", l)
                if m:
                    reach.update(m.groups())
            q.res["functions"] = sorted(f for f in reach if f not in und0 and self.is_repo_fn(f))
            use = out
            undef = sorted(u for u in und0 & reach if not u.startswith(("nondet_", "__CPROVER")) and u not in q.havoc)
            if self.idx is None:
                self.idx = fn_index()
            add = []
            for x, dd in [(q.hpath(), q.hdefs() + ["-DVP_REPLAY"])] + [(self.b.src(x), q.src_defs) for x in srcs]:
                add += [f for f in self.b.undef_data(x, dd) if f not in srcs and f not in self.own_data(q)]
            for u in undef:
                f = self.idx.get(u)
                if f and f not in srcs and u not in q.stub:
                    add.append(f)
            if not add:
                break
            for f in sorted(set(add)):
                srcs.append(f)
                parts.append(self.b.goto(self.b.src(f), list(q.src_defs) + (["-Dstatic="] if f in q.nostatic else []), q.stub))
        q.res["undefined"] = undef
        q.res["sources"] = srcs
        return use

    def own_data(self, q):
        """files the harness includes itself"""
        t = open(q.hpath()).read()
        return set(re.findall(r'#include "([\w./]+\.c)"', t)) | set(q.nodata)

    def is_repo_fn(self, f):
        if self.idx is None:
            self.idx = fn_index()
        return f in self.idx

    def loop_bounds(self, q, gb):
        """the spec's bounds for the loops that exist; "fn.*" stands for every loop of fn"""
        if not hasattr(q, "loops"):
            rc, o, dt = sh(["cbmc", gb, "--show-loops"], timeout=60)
            q.loops = re.findall(r"^Loop (\S+):", o, re.M)
        out = {}
        for k, v in q.unwindset.items():
            for l in q.loops:
                if l == k or (k.endswith(".*") and l.rsplit(".", 1)[0] == k[:-2]):
                    out[l] = v
        return out

    def cbmc_cmd(self, q, gb, unwind):
        c = ["cbmc", gb, "--no-standard-checks", "--unwind", str(unwind), "--no-unwinding-assertions" if q.cut else "--unwinding-assertions",
             "--drop-unused-functions", "--no-malloc-may-fail", "--slice-formula", "--verbosity", "8"]
        for k, v in self.loop_bounds(q, gb).items():
            c += ["--unwindset", "%s:%d" % (k, v)]
        for k in q.checks:
            c += CHECKS[k]
        if q.solver == "kissat":
            c += ["--external-sat-solver", "kissat"]
        elif q.solver == "cadical":
            c += ["--sat-solver", "cadical"]
        elif q.solver in ("z3", "cvc5"):
            c += ["--" + q.solver]
        elif q.solver:
            c += q.solver.split()
        return c + q.flags

    # ---- replay ---------------------------------------------------------------------------
    def exe(self, q):
        san = []
        for k in q.checks:
            san += SAN.get(k, [])
        if san:
            san = san + ["-fno-sanitize-recover=all"]
        h = self.b.native(q.hpath(), q.hdefs() + ["-DVP_REPLAY"], (), san)
        objs = [h]
        for s in q.res.get("sources", q.sources):
            objs.append(self.b.native(self.b.src(s), q.src_defs, q.stub, san))
        key = ("exe", q.name)

        def mk():
            m = "%s/main_%s.o" % (self.work, re.sub(r"\W", "_", q.name))
            sh(["gcc", "-c", "-DVP_ENTRY=" + q.entry, ROOT + "/vp/replay_main.c", "-o", m])
            exe = "%s/%s.exe" % (self.work, re.sub(r"\W", "_", q.name))
            w = ["-Wl,--wrap=longjmp"] if q.jmp else []
            w += ["-Wl,--wrap=" + x for x in q.wraps]
            rc, o, _ = sh(["gcc", m] + objs + san + ["-Wl,--allow-multiple-definition"] + w + [self.b.archive()] + q.libs + ["-o", exe])
            if rc:
                raise RuntimeError("native link failed: " + o[-3000:])
            return exe
        return self.b._once(key, mk)

    def run_native(self, q, vals, tag):
        exe = self.exe(q)
        d = "%s/out/%s" % (ROOT, self.pid)
        os.makedirs(d, exist_ok=True)
        f = "%s/%s_%s.in" % (d, re.sub(r"\W", "_", q.name), tag)
        with open(f, "w") as fh:
            fh.write("\n".join("%x" % v for v in vals) + "\n")
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=98:allocator_may_return_null=1", UBSAN_OPTIONS="print_stacktrace=0")
        rc, o, _ = sh([exe, f], timeout=30, env=env, cwd=self.work)
        return rc, o, f

    def trace(self, q, gb, unwind, prop):
        c = self.cbmc_cmd(q, gb, unwind) + ["--trace", "--property", prop]
        rc, o, _ = sh(c, timeout=min(2 * q.timeout, max(60, BUDGET - (time.time() - T0))), mem_gb=q.mem + 6)
        i = o.find("Trace for ")
        return inputs_of(o[i:]) if i >= 0 else None

    # ---- one query ------------------------------------------------------------------------
    def run(self, q):
        r = q.res
        r.update(name=q.name, bounds=q.bounds, unwind=q.unwind, status="undecided", detail="")
        t = time.time()
        try:
            gb = self.link(q)
            unwind = q.unwind
            grown = 0
            while True:
                left = BUDGET - (time.time() - T0)
                if left < 5:
                    r["detail"] = "no budget left"
                    break
                rc, o, dt = sh(self.cbmc_cmd(q, gb, unwind), timeout=min(q.timeout * (1 if TIER == "quick" else 6), left), mem_gb=q.mem)
                r["cbmc_s"] = round(r.get("cbmc_s", 0) + dt, 2)
                if rc == -99:
                    r["detail"] = "timeout"
                    break
                res, msgs = parse_results(o)
                if not res:
                    r["detail"] = "no verdict: " + " | ".join(x for x in msgs[-5:])[-600:]
                    break
                for m in msgs:
                    a = re.search(r"(\d+) variables, (\d+) clauses", m)
                    if a:
                        r["variables"], r["clauses"] = int(a.group(1)), int(a.group(2))
                    a = re.search(r"Runtime Solver: ([\d.e+-]+)s", m)
                    if a:
                        r["solver_s"] = round(r.get("solver_s", 0) + float(a.group(1)), 3)
                    a = re.search(r"Runtime decision procedure: ([\d.e+-]+)s", m)
                    if a:
                        r["decision_s"] = round(float(a.group(1)), 3)
                    a = re.search(r"size of program expression: (\d+) steps", m)
                    if a:
                        r["steps"] = int(a.group(1))
                    a = re.search(r"Generated (\d+) VCC\(s\), (\d+) remaining", m)
                    if a:
                        r["vccs"], r["vccs_to_solver"] = int(a.group(1)), int(a.group(2))
                wit = [x for x in res if x.get("description", "").startswith("VP_WITNESS")]
                unw = [x for x in res if ".unwind." in x["property"] or "unwinding assertion" in x.get("description", "")]
                oth = [x for x in res if x not in wit and x not in unw]
                r["properties"] = len(oth) + len(unw)
                r["discharged"] = sum(x["status"] == "SUCCESS" for x in oth + unw)
                r["witnesses"] = len(wit)
                bad = [x for x in oth if x["status"] == "FAILURE"]
                badu = [x for x in unw if x["status"] == "FAILURE"]
                unk = [x for x in oth + unw if x["status"] not in ("SUCCESS", "FAILURE")]
                if bad:
                    self.report(q, gb, unwind, bad)
                    break
                if badu:
                    if grown < 4 and q.grow:  # a loop the spec does not know: give it the largest bound of the spec, then more
                        grown += 1
                        top = max([unwind] + list(q.unwindset.values()))
                        have = self.loop_bounds(q, gb)
                        for x in badu:
                            l = x["property"].replace(".unwind.", ".")
                            v = have.get(l, unwind)
                            q.unwindset[l] = top if v < top else 2 * v
                        continue
                    self.report_unwind(q, gb, unwind, badu)
                    break
                if unk:
                    r["detail"] = "unknown: " + unk[0]["property"]
                    break
                nw = [x for x in wit if x["status"] != "FAILURE"]
                if q.witness and (not wit or nw):
                    r["status"] = "vacuous"
                    r["detail"] = "witness not reached: " + ", ".join(x["description"] for x in nw)
                    break
                r["status"] = "holds"
                if q.wreplay and wit and q.witness:
                    self.witness_replay(q, gb, unwind, wit)
                break
        except Exception as e:  # encoding failed
            r["status"] = "error"
            r["detail"] = "%s: %s" % (type(e).__name__, str(e)[-1500:])
        r["wall_s"] = round(time.time() - t, 2)
        log("%-10s %-34s %6.1fs steps=%s clauses=%s props=%s %s" % (r["status"], q.name, r["wall_s"], r.get("steps"), r.get("clauses"), r.get("properties"), r["detail"][:600]))
        return r

    def witness_replay(self, q, gb, unwind, wit):
        vals = self.trace(q, gb, unwind, wit[-1]["property"])
        if vals is None:
            return
        rc, o, f = self.run_native(q, vals, "witness")
        q.res["witness_input"] = vals[:64]
        q.res["witness_native_rc"] = rc
        if wit[-1]["description"] in o and rc in (0, 1):
            q.res["witness_validated"] = True
        elif rc in (99, 98, 1) or rc < 0:
            q.res["status"] = "error"
            q.res["detail"] = "witness replay disagrees with the encoding: rc=%d %s" % (rc, o[-500:])
        else:
            q.res["witness_validated"] = False

    def report(self, q, gb, unwind, bad):
        tried = []
        for x in bad[:4]:
            vals = self.trace(q, gb, unwind, x["property"])
            what = "%s [%s] %s:%s" % (x.get("description"), x["property"], x.get("sourceLocation", {}).get("file", "?"), x.get("sourceLocation", {}).get("line", "?"))
            if vals is None:
                tried.append(what + " (no trace)")
                continue
            rc, o, f = self.run_native(q, vals, "cex")
            if rc == 99 or rc == 98 or rc == -99 or (rc < 0) or (rc == 1 and "runtime error" in o):
                q.res["status"] = "violated"
                q.res["detail"] = what
                q.res["replay"] = f
                q.res["replay_out"] = o[-1500:]
                with open(f + ".txt", "w") as fh:
                    fh.write("query %s (harness %s, entry %s)\nsolver: %s\nnative replay (exit %d):\n%s\n" % (q.name, q.hpath(), q.entry, what, rc, o[-4000:]))
                keep = "%s/out/%s/%s.exe" % (ROOT, self.pid, re.sub(r"\W", "_", q.name))
                shutil.copy(self.exe(q), keep)
                return
            tried.append(what + " (native exit %d: %s)" % (rc, o[-200:]))
        q.res["status"] = "unreproduced"
        q.res["detail"] = "counterexample does not reproduce: " + "; ".join(tried)

    def report_unwind(self, q, gb, unwind, badu):
        vals = self.trace(q, gb, unwind, badu[0]["property"])
        if vals is not None:
            rc, o, f = self.run_native(q, vals, "unwind")
            if rc in (-99, 99, 98) or rc < 0:
                q.res["status"] = "violated"
                q.res["detail"] = "does not terminate / fails beyond the loop bound: " + badu[0]["property"]
                q.res["replay"] = f
                q.res["replay_out"] = o[-1500:]
                return
        q.res["status"] = "undecided"
        q.res["detail"] = "loop bound %d too small: %s" % (unwind, ", ".join(x["property"] for x in badu[:4]))


def load_spec(pid):
    p = "%s/harness/%s/spec.py" % (ROOT, pid)
    sys.path.insert(0, ROOT + "/vp")
    sp = importlib.util.spec_from_file_location("spec_" + pid, p)
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    return m


def main():
    pid = sys.argv[1]
    only = sys.argv[2] if len(sys.argv) > 2 else None
    spec = load_spec(pid)
    work = tempfile.mkdtemp(prefix="vp_%s_" % pid)
    known = {}
    kf = ROOT + "/known_findings.json"
    if os.path.exists(kf):
        for e in json.load(open(kf)).get("findings", []):
            if e["property"] == pid:
                known[e["id"]] = e
    rc = 2
    try:
        eng = Engine(pid, work)
        qs = [Query(pid, **k) for k in getattr(spec, "QUERIES", [])]
        qs = [q for q in qs if (TIER == "thorough" or q.tier == "quick") and (not only or re.search(only, q.name))]
        shutil.rmtree("%s/out/%s" % (ROOT, pid), ignore_errors=True)
        ctx = {"work": work, "root": ROOT, "repo": REPO, "tier": TIER, "sh": sh, "build": eng.b, "log": log, "only": only,
               "left": lambda: BUDGET - (time.time() - T0), "pid": pid, "jobs": JOBS}
        results = []
        with cf.ThreadPoolExecutor(getattr(spec, "JOBS", JOBS)) as ex:
            futs = [ex.submit(eng.run, q) for q in qs]
            extra = getattr(spec, "extra", None)
            if extra:
                results += extra(ctx)           # engine B queries: list of result dicts of the same shape
            results += [f.result() for f in futs]
        rc = finish(pid, spec, qs, results, known, only)
    finally:
        if not os.environ.get("VP_KEEP"):
            shutil.rmtree(work, ignore_errors=True)
        else:
            log("work dir", work)
    sys.exit(rc)


def finish(pid, spec, qs, results, known, only):
    viol, rc = [], 0
    kmap = {q.name: q.known for q in qs if q.known}
    for r in results:
        k = r.get("known") or kmap.get(r["name"])
        if k:
            # a query that exhibits a recorded finding: expected to be violated
            if r["status"] == "violated" and k in known:
                print("KNOWN-FINDING: property=%s %s" % (pid, known[k]["what"]))
            elif r["status"] == "violated":
                viol.append(r)
            continue
        if r["status"] == "violated":
            viol.append(r)
    rest = [r for r in results if not (r.get("known") or kmap.get(r["name"]))]
    held = [r for r in rest if r["status"] == "holds"]
    und = [r for r in rest if r["status"] == "undecided"]
    err = [r for r in rest if r["status"] in ("error", "vacuous", "unreproduced")]
    for r in viol:
        print("VIOLATION property=%s replay=%s" % (pid, r.get("replay", "-")))
        print("  query %s: %s" % (r["name"], r["detail"][:800]))
        print("  " + r.get("replay_out", "").strip()[-600:].replace("\n", "\n  "))
    if viol:
        rc = 1
    elif err:
        rc = 2
        for r in err:
            print("ERROR %s %s: %s" % (r["status"], r["name"], r["detail"][:1500]))
    elif not held:
        rc = 2
        print("ERROR nothing was decided")
    for r in und:
        print("UNDECIDED %s: %s" % (r["name"], r["detail"][:300]))
    level = getattr(spec, "LEVEL", "model_checking")
    funcs = sorted(set(getattr(spec, "FUNCTIONS", [])) | {f for r in results for f in r.get("functions", [])})
    cov = {
        "explanation": "Each query is one symbolic execution of the named functions of /repo's current source over all inputs within its bounds; the solver decides every property of the query. states = symbolic program steps encoded, transitions = verification conditions generated.",
        "functions_encoded": funcs,
        "queries": len(results), "queries_hold": len(held), "queries_undecided": [r["name"] for r in und],
        "obligations": sum(r.get("properties", 0) for r in rest),
        "discharged": sum(r.get("discharged", 0) for r in rest),
        "states": sum(r.get("steps") or 0 for r in results),
        "transitions": sum(r.get("vccs") or 0 for r in results),
        "clauses": sum(r.get("clauses") or 0 for r in results),
        "solver_s": round(sum(r.get("solver_s") or 0 for r in results), 2),
        "solver_process_s": round(sum(r.get("cbmc_s") or 0 for r in results), 2),
        "traces_validated_against_impl": sum(1 for r in results if r.get("witness_validated") or r["status"] == "violated"),
        "bounds": {r["name"]: r.get("bounds", "") for r in results},
        "samples": [{"query": r["name"], "status": r["status"], "witness_input": r.get("witness_input", [])[:24]} for r in results if r.get("witness_input")][:6] or [{"query": r["name"], "status": r["status"]} for r in results][:6],
        "per_query": [{k: r.get(k) for k in ("name", "status", "detail", "unwind", "steps", "vccs", "variables", "clauses", "properties", "discharged", "witnesses", "witness_validated", "solver_s", "cbmc_s", "wall_s", "undefined", "extra") if r.get(k) is not None} for r in results],
        "checker_cmd": "cbmc 6.11 (bit-blasting SAT / SMT) and, where named, z3 on the LLVM IR of the same source",
        "trusted_base": ["cbmc C front end and symbolic execution", "SAT/SMT solver", "harness reference models in /verif/harness/" + pid, "stubs listed in assumptions"],
        "exhaustive": not und and not err,
    }
    ev = {"property": pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": level, "coverage": cov,
          "assumptions": list(getattr(spec, "ASSUMPTIONS", [])), "wall_s": round(time.time() - T0, 2), "violations": len(viol)}
    os.makedirs(ROOT + "/evidence", exist_ok=True)
    with open("%s/evidence/%s.json" % (ROOT, pid), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d queries, %d hold, %d undecided, %d violated, %d errors, %.1fs" % (pid, len(results), len(held), len(und), len(viol), len(err), time.time() - T0))
    return rc


if __name__ == "__main__":
    main()
