"""Queries of the real-valued engine (irx.py): compile, execute symbolically, compare with a reference,
let z3 look for inputs where the difference exceeds the tolerance, replay what it finds natively."""
import multiprocessing as mp
import os, re, shutil, time
import numpy as np
import irx

CL = ["clang-18", "-O1", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-ffp-contract=off", "-fno-builtin", "-S", "-emit-llvm", "-w"]


class Aff:
    """vector of affine forms: A x + c"""
    __array_ufunc__ = None

    def __init__(self, A, c):
        self.A, self.c = A, c

    def __len__(self):
        return len(self.c)

    def __getitem__(self, k):
        if isinstance(k, int):
            return irx.Sym(self.A[k], float(self.c[k]))
        return Aff(self.A[k], self.c[k])

    def __setitem__(self, k, v):
        if isinstance(v, Aff):
            self.A[k], self.c[k] = v.A, v.c
        else:
            self.A[k] = 0
            self.c[k] = v

    def __rmatmul__(self, M):
        return Aff(M @ self.A, M @ self.c)

    def __add__(self, o):
        if isinstance(o, Aff):
            return Aff(self.A + o.A, self.c + o.c)
        return Aff(self.A, self.c + o)
    __radd__ = __add__

    def __neg__(self):
        return Aff(-self.A, -self.c)

    def __sub__(self, o):
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, w):
        w = np.asarray(w, float)
        return Aff(self.A * (w[:, None] if w.ndim else w), self.c * w)
    __rmul__ = __mul__

    def __truediv__(self, w):
        return self * (1.0 / np.asarray(w, float))

    def copy(self):
        return Aff(self.A.copy(), self.c.copy())


def cat(*xs):
    if any(isinstance(x, Aff) for x in xs):
        nv = next(x.A.shape[1] for x in xs if isinstance(x, Aff))
        xs = [x if isinstance(x, Aff) else Aff(np.zeros((len(x), nv)), np.asarray(x, float)) for x in xs]
        return Aff(np.vstack([x.A for x in xs]), np.concatenate([x.c for x in xs]))
    return np.concatenate([np.asarray(x, float) for x in xs])


class X:
    """what a reference sees: inputs by id, parameters, and the arithmetic of the mode it runs in"""
    def __init__(self, ins, params, mach=None):
        self.raw, self.p, self.m = ins, params, mach

    def vec(self, i):
        l = self.raw.get(i, [])
        if self.m is None:
            return np.array(l, float)
        nv = len(self.m.vars)
        A = np.zeros((len(l), nv))
        c = np.zeros(len(l))
        for k, s in enumerate(l):
            A[k, :len(s.v)] = s.v
            c[k] = s.c
        return Aff(A, c)

    def list(self, i):
        return list(self.raw.get(i, []))

    def max(self, a, b):
        return self.m.fmax(a, b, True) if self.m else max(a, b)

    def min(self, a, b):
        return self.m.fmax(a, b, False) if self.m else min(a, b)

    def abs(self, a):
        return self.m.fabs(a) if self.m else abs(a)

    def div(self, a, b):
        return self.m.fdiv(a, b) if self.m else (a / b if b else float("nan"))

    def sqrt(self, a):
        return irx.b_realsqrt(self.m, a) if self.m else (a ** 0.5 if a >= 0 else float("nan"))

    def near(self, fn, a, rel=1e-5):
        """1/a ("inv") or the root ("sqrt") of a; the code's own one if its operand is the same up to rounding"""
        if self.m and isinstance(a, irx.Sym):
            p = a.poly()
            t = rel * max([abs(w) for w in p.values()] + [1e-30])
            for s, cons, args, f in self.m.defs:
                if f == fn and isinstance(args[0], irx.Sym):
                    q = args[0].poly()
                    if all(abs(p.get(k, 0.0) - q.get(k, 0.0)) <= t for k in set(p) | set(q)):
                        return s
        return self.div(1.0, a) if fn == "inv" else self.sqrt(a)

    def lt(self, a, b):
        """a < b, forking in symbolic mode"""
        return bool(self.m.fcmp("olt", a, b)) if self.m else a < b

    def le(self, a, b):
        return bool(self.m.fcmp("ole", a, b)) if self.m else a <= b

    def where(self, a, b, x, y):
        """x if a < b else y"""
        if self.m:
            return self.m.select(self.m.fcmp("olt", a, b), x, y)
        return x if a < b else y


def elem(v, i):
    return v[i]


def run_one(job):
    """in a worker process"""
    q, mods, exe, outdir, left = job
    r = dict(name=q["name"], bounds=q.get("bounds", ""), status="undecided", detail="", properties=0, discharged=0, steps=0, vccs=0)
    t0 = time.time()
    import signal

    def alarm(*a):
        raise TimeoutError()
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(int(max(5, min(q.get("timeout", 400), left))))
    try:
        m = irx.Machine(mods, q.get("over"), q.get("params", ()), ite=q.get("ite", False), max_paths=q.get("max_paths", 64))
        npaths = 0
        validated = 0
        for _ in m.paths(q["entry"]):
            npaths += 1
            if m.jumped and not q.get("jump"):
                r["status"], r["detail"] = "undecided", "the code leaves by longjmp"
                return r
            if m.fails:
                x = m.model_any()
                return violated(r, q, exe, outdir, m, x, "; ".join(m.fails), t0)
            spec = q["spec"](X(m.ins, q.get("params", ()), m))
            claims = []
            for gid, (vals, tol) in spec.items():
                got = m.outs.get(gid, [])
                if len(got) != len(vals):
                    return violated(r, q, exe, outdir, m, m.model_any(), "%d results in array %s, %d expected" % (len(got), gid, len(vals)), t0)
                for i in range(len(got)):
                    d = got[i] - elem(vals, i)
                    claims.append(("result %s[%d]" % (gid, i), d, tol if np.isscalar(tol) else tol[i]))
            r["properties"] += len(claims)
            w = m.check(claims)
            if w is None:
                r["discharged"] += len(claims)
            elif w[1] is None:
                r["detail"] = "solver gave up on " + w[0]
                return r
            else:
                return violated(r, q, exe, outdir, m, w[1], "%s is off by %.6g" % (w[0], w[2]), t0)
            # the encoding against the compiled code at one point of this path
            if validated < 3 and q.get("validate", True):
                rng = np.random.default_rng(7 + npaths)
                x = np.array([lo + (hi - lo) * rng.random() for lo, hi, g, k in m.vars]) if not m.pc else m.model_any()
                if not m.defs:
                    o = native(exe, q, m, x, outdir, "witness")
                    if o is not None:
                        for gid, l in m.outs.items():
                            for i, v in enumerate(l):
                                e = v.at(x) if isinstance(v, irx.Sym) else v
                                n = o.get(gid, [])
                                tol = spec[gid][1] if gid in spec else 1e-3
                                tol = tol if np.isscalar(tol) else tol[i]
                                if i >= len(n) or abs(n[i] - e) > max(2 * tol, 1e-4 * abs(e)):
                                    r["status"] = "unreproduced"
                                    r["detail"] = "encoding and compiled code disagree on %s[%d]: %s against %s" % (gid, i, e, n[i] if i < len(n) else None)
                                    return r
                        validated += 1
                        r["witness_validated"] = True
                        r["witness_input"] = [float("%.6g" % v) for v in x[:16]]
            r["vccs"] += len(claims)
        r["status"] = "holds" if npaths else "vacuous"
        r["extra"] = {"paths": npaths, "queries": m.queries, "vars": len(m.vars)}
    except irx.MemError as e:
        return violated(r, q, exe, outdir, m, m.model_any(), "memory: %s" % e, t0)
    except TimeoutError:
        r["detail"] = "timeout"
    except irx.IRError as e:
        r["detail"] = "not encodable: %s" % e
    except Exception as e:
        import traceback
        r["status"] = "error"
        r["detail"] = "%s: %s %s" % (type(e).__name__, e, traceback.format_exc()[-600:])
    finally:
        signal.alarm(0)
        r["wall_s"] = round(time.time() - t0, 2)
        try:
            r["solver_s"] = round(m.solver_s, 3)
            r["cbmc_s"] = r["wall_s"]
            r["functions"] = sorted(f for f in m.used if not f.startswith("h_"))
            r["steps"] = sum(s.count("\n") for k, s in m.src.items())
        except Exception:
            pass
    return r


def native(exe, q, m, x, outdir, tag):
    import subprocess
    os.makedirs(outdir, exist_ok=True)
    f = "%s/%s_%s.in" % (outdir, re.sub(r"\W", "_", q["name"]), tag)
    with open(f, "w") as fh:
        for p in q.get("params", ()):
            fh.write("p %.17g\n" % p)
        for i, (lo, hi, g, k) in enumerate(m.vars):
            if isinstance(g, int):
                fh.write("i %d %.17g\n" % (g, x[i]))
    m.infile = f
    try:
        p = subprocess.run([exe, f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60, env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=98"))
    except subprocess.TimeoutExpired:
        m.nat = (-99, "timeout")
        return None
    o = p.stdout.decode("latin1")
    m.nat = (p.returncode, o)
    if p.returncode or "\nend\n" not in "\n" + o:
        return None
    res = {}
    for l in o.splitlines():
        a = l.split()
        if len(a) == 3 and a[0] == "o":
            res.setdefault(int(a[1]), []).append(float(a[2]))
    return res


def violated(r, q, exe, outdir, m, x, what, t0):
    """replay on the compiled code; a violation only if it shows there"""
    o = native(exe, q, m, x, outdir, "cex")
    rc, text = m.nat
    r["replay"] = m.infile
    ok = False
    if rc != 0 and rc != 3:
        ok, why = True, "native run ends with %d: %s" % (rc, text[-600:])
    elif o is not None:
        fl = [l[2:] for l in text.splitlines() if l.startswith("f ")]
        if fl:
            ok, why = True, "native run: " + "; ".join(fl)
        else:
            ins, k = {}, 0
            for i, (lo, hi, g, n) in enumerate(m.vars):
                if isinstance(g, int):
                    ins.setdefault(g, []).append(float(np.float32(x[i])) if q.get("f32", True) else float(x[i]))
            spec = q["spec"](X(ins, q.get("params", ())))
            for gid, (vals, tol) in spec.items():
                got = o.get(gid, [])
                if len(got) != len(vals):
                    ok, why = True, "native run: %d results in array %s, %d expected" % (len(got), gid, len(vals))
                    break
                for i in range(len(got)):
                    t = tol if np.isscalar(tol) else tol[i]
                    if not abs(got[i] - float(vals[i])) <= 0.5 * t:
                        ok, why = True, "native run: result %s[%d] is %.9g, expected %.9g (tolerance %g)" % (gid, i, got[i], float(vals[i]), t)
                        break
                if ok:
                    break
    r["wall_s"] = round(time.time() - t0, 2)
    if ok:
        r["status"], r["detail"], r["replay_out"] = "violated", what, why
        open(m.infile + ".txt", "w").write("query %s\nengine: %s\n%s\n" % (q["name"], what, why))
        keep = "%s/%s.exe" % (outdir, re.sub(r"\W", "_", q["name"]))
        shutil.copy(exe, keep)
    else:
        r["status"], r["detail"] = "unreproduced", what + " (native: rc %s, within tolerance)" % rc
    return r


def run(ctx, sources, queries, harness="v.c", defs=(), jobs=None):
    """spec.extra of a property calls this"""
    sh, work, root, pid = ctx["sh"], ctx["work"], ctx["root"], ctx["pid"]
    queries = [q for q in queries if (ctx["tier"] == "thorough" or q.get("tier", "quick") == "quick") and (not ctx["only"] or re.search(ctx["only"], q["name"]))]
    if not queries:
        return []
    dec = ctx["repo"] + "/decoder"
    inc = ["-D_X86_", "-I" + dec + "/x86_64", "-I" + dec, "-I" + ctx["repo"] + "/test", "-I" + root + "/vp"] + list(defs)
    h = "%s/harness/%s/%s" % (root, pid, harness)
    out = []
    try:
        texts = {}

        def ir(path):
            o = "%s/%s.ll" % (work, os.path.basename(path))
            rc, t, _ = sh(CL + inc + [path, "-o", o])
            if rc:
                raise RuntimeError("clang failed on %s: %s" % (path, t[-1500:]))
            return irx.Module(open(o).read(), os.path.basename(path))
        mods = [ir(h)] + [ir(dec + "/" + s) for s in sources]
        # functions and data the named sources need from elsewhere in the decoder
        import run as R
        fi, di = R.fn_index(), None
        have = {m.name for m in mods}
        for _ in range(8):
            defined = {f for m in mods for f in m.fdefs}
            need = set()
            for m in mods:
                for f, (hd, body, i) in m.fdefs.items():
                    need |= set(re.findall(r"@([A-Za-z_]\w*)", "\n".join(body)))
                for g, d in m.gdefs.items():
                    need |= set(re.findall(r"@([A-Za-z_]\w*)", d))
            gd = {g for m in mods for g, d in m.gdefs.items() if not d.startswith("external")}
            add = {fi[n] for n in need - defined - gd if n in fi} - have
            miss = {n for n in need - defined - gd if n not in fi and not n.startswith("llvm")}
            if miss:
                if di is None:
                    di = ctx["build"].data_index()
                add |= {di[n] for n in miss if n in di} - have
            if not add:
                break
            for f in sorted(add):
                mods.append(ir(dec + "/" + f))
                have.add(f)
        exes = {}
        for e in {q["entry"] for q in queries}:
            x = "%s/vx_%s_%s.exe" % (work, re.sub(r"\W", "_", harness), e)
            rc, t, _ = sh(["gcc", "-O1", "-w", "-g", "-ffp-contract=off", "-fsanitize=address", "-DVX_ENTRY=" + e] + inc + [h, root + "/vp/vx_main.c"] + [dec + "/" + s for s in sorted(have) if os.path.exists(dec + "/" + s)] + ["-Wl,--allow-multiple-definition", ctx["build"].archive(), "-lm", "-o", x], timeout=600)
            if rc:
                raise RuntimeError("native link failed: " + t[-1500:])
            exes[e] = x
    except Exception as e:
        return [dict(name=q["name"], status="error", detail=str(e)[-1500:]) for q in queries[:1]]
    outdir = "%s/out/%s" % (root, pid)
    ps, pend = [], list(queries)
    njobs = jobs or ctx["jobs"]
    res = {}
    mpc = mp.get_context("fork")

    def child(q, c):
        try:
            c.send({k: v for k, v in run_one((q, mods, exes[q["entry"]], outdir, ctx["left"]())).items()})
        except Exception as e:
            c.send(dict(name=q["name"], status="error", detail=repr(e)))
        c.close()
    while pend or ps:
        while pend and len(ps) < njobs:
            q = pend.pop(0)
            a, b = mpc.Pipe()
            p = mpc.Process(target=child, args=(q, b))
            p.start()
            b.close()
            ps.append((q, p, a))
        time.sleep(0.02)
        for it in list(ps):
            q, p, a = it
            if a.poll():
                try:
                    res[q["name"]] = a.recv()
                except EOFError:
                    res[q["name"]] = dict(name=q["name"], status="undecided", detail="worker ended")
                p.join()
                ps.remove(it)
            elif not p.is_alive():
                res[q["name"]] = dict(name=q["name"], status="undecided", detail="worker ended")
                ps.remove(it)
            else:
                continue
            r = res[q["name"]]
            ctx["log"]("%-10s %-34s %6.1fs lines=%s claims=%s %s" % (r["status"], r["name"], r.get("wall_s", 0), r.get("steps"), r.get("properties"), r.get("detail", "")[:600]))
    return [res[q["name"]] for q in queries]
