"""Driver: turns units (contract harnesses over /repo's real sources) into
verdicts.  No network, nothing kept outside the scratch build directory."""
import json, os, re, shutil, subprocess, sys, tempfile, time, concurrent.futures as cf, threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
NCPU = os.cpu_count() or 4
BUDGET = float(os.environ.get("VP_BUDGET", "800"))


class Unit:
    """One contract harness: a set of functions of /repo under contract.

    backends: list of (solver, timeout_s), tried in order until one answers.
    kind: 'proof' (complete: every loop unwound to an asserted bound, or under a
          loop contract) or 'bounded' (input size capped; never counted as proved).
    fallback_of: name of the proof unit this bounded unit stands in for when that
          proof cannot be redone (it then decides alone).
    """

    def __init__(self, name, src, entry="harness", defs=(), unwind=None, unwindset=None,
                 backends=(("z3", 200),), dfcc=None, functions=(), kind="proof",
                 bound=None, flags=(), loop_contracts=None, fallback_of=None,
                 replay=True, assumed=(), tier="quick", random_runs=400, slice=False,
                 objbits=None, rec=False, instrument=(), mem=6, optional=False,
                 replace_calls=(), preunwind=None):
        self.__dict__.update(locals())
        self.defs = list(defs)
        self.functions = list(functions)
        self.assumed = list(assumed)


def sh(cmd, timeout=None, cwd=None, env=None, memgb=None):
    t0 = time.time()
    pre = ""
    if memgb:
        cmd = ["bash", "-c", "ulimit -v %d; exec \"$@\"" % (memgb * 1024 * 1024), "x"] + list(cmd)
    try:
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, env=env,
                             start_new_session=True)
        try:
            out, err = p.communicate(timeout=timeout)
            return p.returncode, out.decode("utf8", "replace"), err.decode("utf8", "replace"), time.time() - t0
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, 9)
            except OSError:
                pass
            p.communicate()
            return None, "", "timeout", time.time() - t0
    except OSError as e:
        return -1, "", str(e), time.time() - t0


def make_config_headers(build):
    """cconf.h / diag_config.c from /repo's templates, as cmake configures them here."""
    on = {"HAVE_LIBREADLINE": False, "HAVE_GETTIMEOFDAY": True, "HAVE_STRCASECMP": True, "HAVE_ALARM": True,
          "HAVE_SELECT": True, "USE_INIFILE": True}
    out = []
    with open(os.path.join(REPO, "cconf.h.in")) as f:
        for line in f:
            m = re.match(r"\s*#cmakedefine\s+(\w+)(.*)", line)
            if m:
                out.append("#define %s %s\n" % (m.group(1), "") if on.get(m.group(1)) else "/* #undef %s */\n" % m.group(1))
                continue
            line = re.sub(r"@(\w*VERSION\w*)@|\$\{(\w*VERSION\w*)\}", "1", line)
            line = re.sub(r"@(\w+)@|\$\{(\w+)\}", lambda m: "freediag", line)
            out.append(line)
    with open(os.path.join(build, "cconf.h"), "w") as f:
        f.writelines(out)


def incl(build):
    return ["-I" + os.path.join(VERIF, "lib"), "-I" + os.path.join(VERIF, "units"), "-I" + os.path.join(REPO, "scantool"),
            "-I" + build, "-I" + REPO]


COMMON = ["-DCURFILE=\"x\"", "-D_XOPEN_SOURCE=700", "-D_DEFAULT_SOURCE", "-include", os.path.join(VERIF, "lib", "vp.h")]


class Result:
    def __init__(self, unit):
        self.unit = unit
        self.status = "undecided"   # ok | fail | undecided
        self.obligations = 0
        self.discharged = 0
        self.backend = None
        self.solver_s = 0.0
        self.wall = 0.0
        self.failures = []          # dicts: property, description, location, replay state
        self.notes = []
        self.cover = None
        self.nobody = []


def parse_json(out):
    try:
        return json.loads(out)
    except ValueError:
        pass
    # killed half way: cut at the last complete top-level object
    try:
        i = out.rindex("\n}")
        return json.loads(out[:i + 2] + "]")
    except ValueError:
        return None


def cbmc_cmd(u, gb, solver):
    cmd = ["cbmc", gb, "--json-ui", "--drop-unused-functions"]
    if solver == "z3":
        cmd.append("--z3")
    elif solver == "cvc5":
        cmd.append("--cvc5")
    elif solver.startswith("sat:"):
        cmd += ["--sat-solver", solver[4:]]
    if u.unwind:
        cmd += ["--unwind", str(u.unwind)]
    if u.objbits:
        cmd += ["--object-bits", str(u.objbits)]
    if u.slice:
        cmd += ["--slice-formula"]
    cmd += list(u.flags)
    return cmd


def unwindset_args(u, gb):
    """unwindset is given per function (names of real functions), not per loop
    number; loops that are gone are simply not named."""
    if not u.unwindset:
        return []
    rc, out, err, _ = sh(["cbmc", gb, "--show-loops", "--json-ui"], timeout=60)
    js = parse_json(out) or []
    ids = []
    for m in js:
        for l in m.get("loops", []) or []:
            ids.append((l.get("name"), l.get("sourceLocation", {}).get("function")))
    s = []
    for name, fn in ids:
        for k, n in u.unwindset.items():
            if re.fullmatch(k, fn or "") or re.fullmatch(k, name or ""):
                s.append("%s:%d" % (name, n))
                break
    return ["--unwindset", ",".join(s)] if s else []


LINE = re.compile(r"^\[([^\]]+)\] (?:file (\S+) )?(?:line (\d+) )?(.*): (SUCCESS|FAILURE|UNKNOWN|ERROR)$")


def run_cbmc(u, gb, extra_uw, solver, timeout, extra=()):
    """verdict run: plain text output (no traces are built)"""
    cmd = [c for c in cbmc_cmd(u, gb, solver) if c != "--json-ui"] + extra_uw + list(extra)
    rc, out, err, dt = sh(cmd, timeout=timeout, memgb=u.mem)
    props, nobody, hdr = None, [], ("", "")
    if "** Results:" in out:
        props = []
        for line in out[out.index("** Results:"):].splitlines():
            m = re.match(r"^(\S+) function (\S+)$", line)
            if m:
                hdr = (m.group(1), m.group(2))
                continue
            m = LINE.match(line)
            if m:
                props.append({"property": m.group(1), "status": m.group(5), "description": m.group(4),
                              "sourceLocation": "%s:%s %s" % (m.group(2) or hdr[0], m.group(3), hdr[1])})
        m = re.search(r"\*\* (\d+) of (\d+) failed", out)
        if not m or not props or (rc not in (0, 10)):
            props = None
    for m in re.finditer(r"no body for function '?([\w$]+)'?", out + err):
        nobody.append(m.group(1))
    return rc, props, 0.0, dt, nobody, ((err or "") + (out or "")[-300:])[-400:]


def run_trace(u, gb, extra_uw, solver, timeout, prop):
    cmd = cbmc_cmd(u, gb, solver) + extra_uw + ["--trace", "--property", prop]
    rc, out, err, dt = sh(cmd, timeout=timeout, memgb=u.mem)
    js = parse_json(out) if out else None
    for m in js or []:
        if "result" in m:
            return trace_inputs(m["result"], prop), dt
    return None, dt


def resolve_loop_contracts(u, gb, build, tag):
    """units/*_loop.json names a loop by its rank among the real loops of a
    function and variables by their source names; find CBMC's own numbering and
    scoped symbol names in the goto binary built from the current source."""
    specs = json.load(open(os.path.join(VERIF, "units", u.loop_contracts)))
    rc, out, err, _ = sh(["cbmc", gb, "--show-loops", "--json-ui"], timeout=60)
    loops = []
    for m in parse_json(out) or []:
        loops += m.get("loops", []) or []
    rc, out, err, _ = sh(["goto-instrument", "--show-symbol-table", gb], timeout=60)
    symbols = re.findall(r"^Symbol\.+: (\S+)", out, re.M)
    files = {}
    for sp in specs:
        src = os.path.join(REPO, "scantool", sp["source"])
        lines = open(src).read().splitlines()
        real = []
        for l in loops:
            loc = l.get("sourceLocation", {})
            if loc.get("function") != sp["function"]:
                continue
            txt = lines[int(loc.get("line", "1")) - 1]
            if re.search(r"DIAG_DBGM|LL_|while \(0\)", txt):
                continue
            real.append(l["name"].rsplit(".", 1)[1])
        real.sort(key=int)
        if sp["loop"] >= len(real):
            return None, "loop contract: %s has only %d loops" % (sp["function"], len(real))
        mp = []
        for v in sp["locals"]:
            c = [x for x in symbols if x == "%s::%s" % (sp["function"], v) or (x.startswith(sp["function"] + "::") and x.endswith("::" + v))]
            if not c:
                return None, "loop contract: no variable %s in %s" % (v, sp["function"])
            mp.append("%s,%s" % (v, c[0]))
        mp += ["%s,%s" % (g, g) for g in sp["globals"]]
        d = {"loop_id": real[sp["loop"]], "assigns": sp["assigns"], "invariants": sp["invariant"], "symbol_map": "; ".join(mp)}
        if sp.get("decreases"):
            d["decreases"] = sp["decreases"]
        files.setdefault(src, {}).setdefault(sp["function"], []).append(d)
    doc = {"sources": list(files), "functions": [{fn: ls} for f in files.values() for fn, ls in f.items()], "output": "OUTPUT"}
    path = os.path.join(build, u.name + tag + ".loops.json")
    json.dump(doc, open(path, "w"), indent=1)
    return path, None


def build_goto(u, build, tag="", more_defs=()):
    src = os.path.join(VERIF, "units", u.src)
    gb = os.path.join(build, u.name + tag + ".gb")
    defs = ["-D" + d for d in u.defs] + list(more_defs)
    if u.dfcc:
        defs.append("-DVP_DFCC")
    rc, out, err, dt = sh(["goto-cc", src, "--function", u.entry, "-o", gb] + COMMON + incl(build) + defs, timeout=120)
    if rc != 0:
        return None, "goto-cc failed: " + (err + out)[-1500:]
    if u.replace_calls:
        g1 = os.path.join(build, u.name + tag + ".rc.gb")
        cmd = ["goto-instrument"]
        for rc_ in u.replace_calls:
            cmd += ["--replace-calls", rc_]
        rc, out, err, dt = sh(cmd + [gb, g1], timeout=120)
        if rc != 0:
            return None, "goto-instrument --replace-calls failed: " + (err + out)[-800:]
        gb = g1
    if u.preunwind:
        ids = []
        for (fn, rank), n in u.preunwind.items():
            ids.append("%s.%d:%d" % (fn, rank, n))
        g1 = os.path.join(build, u.name + tag + ".uw.gb")
        rc, out, err, dt = sh(["goto-instrument", "--unwindset", ",".join(ids), "--unwinding-assertions", gb, g1], timeout=120)
        if rc != 0:
            return None, "goto-instrument --unwindset failed: " + (err + out)[-800:]
        gb = g1
    if not u.dfcc:
        return gb, None
    gb2 = os.path.join(build, u.name + tag + ".dfcc.gb")
    cmd = ["goto-instrument", "--dfcc", u.entry]
    for fn in (u.dfcc if isinstance(u.dfcc, (list, tuple)) else [u.dfcc]):
        cmd += ["--enforce-contract-rec" if u.rec else "--enforce-contract", fn]
    if u.loop_contracts:
        cmd += ["--apply-loop-contracts"]
        if isinstance(u.loop_contracts, str):
            lc, err = resolve_loop_contracts(u, gb, build, tag)
            if lc is None:
                return None, err
            cmd += ["--loop-contracts-file", lc]
    cmd += list(u.instrument) + [gb, gb2]
    rc, out, err, dt = sh(cmd, timeout=120)
    if rc != 0:
        return None, "goto-instrument failed: " + (err + out)[-1500:]
    return gb2, None


def native_build(u, build):
    exe = os.path.join(build, u.name + ".replay")
    if os.path.exists(exe):
        return exe, None
    src = os.path.join(VERIF, "units", u.src)
    defs = ["-D" + d for d in u.defs] + ["-DVP_REPLAY"]
    obj = exe + ".o"
    rc, out, err, dt = sh(["gcc", "-g", "-O0", "-w", "-fsanitize=address,undefined", "-fno-sanitize=alignment",
                           "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-fno-builtin", "-c", src, "-o", obj] + COMMON + incl(build) + defs, timeout=120)
    if rc != 0:
        return None, "native build failed: " + err[-800:]
    rc, out, err, dt = sh(["gcc", "-g", "-O0", "-w", "-fsanitize=address,undefined", "-DVP_ENTRY=" + u.entry,
                           os.path.join(VERIF, "lib", "replay_rt.c"), obj, "-o", exe, "-lm", "-lpthread"], timeout=120)
    if rc != 0:
        return None, "native link failed: " + err[-800:]
    return exe, None


def flatten_value(v):
    """bytes (little endian, in declaration order) of a JSON trace value"""
    if "elements" in v:
        b = b""
        for e in v["elements"]:
            b += flatten_value(e["value"])
        return b
    if "members" in v:
        b = b""
        for e in v["members"]:
            b += flatten_value(e["value"])
        return b
    bits = v.get("binary")
    if bits is None:
        return b"\0"
    n = max(1, len(bits) // 8)
    return int(bits, 2).to_bytes(n, "little")


def trace_inputs(props, prop):
    for r in props or []:
        if r.get("property") == prop and "trace" in r:
            vals = []
            for s in r["trace"]:
                if s.get("stepType") == "input" and s.get("inputID") in ("nd", "ndb"):
                    vs = s.get("values") or []
                    b = b"".join(flatten_value(x) for x in vs)
                    vals.append(b)
            return vals
    return None


def rt_env():
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=97:allocator_may_return_null=1"
    env["UBSAN_OPTIONS"] = "exitcode=97:halt_on_error=1:print_stacktrace=1"
    return env


def replay(u, build, vals, path, failure):
    """Write the replay file; run the values against the natively compiled real
    code. Returns 'confirmed', 'not-reproduced' or 'unavailable'."""
    vfile = path
    with open(vfile, "w") as f:
        f.write("# unit %s, failed obligation %s: %s\n" % (u.name, failure["property"], failure["description"]))
        f.write("# location %s\n" % failure.get("location"))
        f.write("# values of the nondeterministic inputs, in order (hex, little endian)\n")
        for b in vals or []:
            f.write(b.hex() + "\n")
    if vals is None or not u.replay:
        return "unavailable", ""
    exe, err = native_build(u, build)
    if exe is None:
        return "unavailable", err
    d = tempfile.mkdtemp(dir=build)
    rc, out, err, dt = sh([exe, vfile], timeout=20, cwd=d, env=rt_env())
    log = (out[-300:] + err[-1800:])
    if rc is None:
        return ("confirmed", "the real code does not terminate on this input (20 s)")
    if rc in (99, 97) or rc < 0 or rc in (134, 139, 136):
        return "confirmed", log
    return "not-reproduced", "exit %s %s" % (rc, log)


def run_unit(u, build, deadline):
    r = Result(u)
    t0 = time.time()
    gb, err = build_goto(u, build)
    if gb is None:
        r.notes.append(err)
        r.nobuild = True
        r.wall = time.time() - t0
        return r
    uw = unwindset_args(u, gb)
    props = None
    for solver, tmo in u.backends:
        left = deadline - time.time()
        if left < 5:
            r.notes.append("time budget used up before back end %s" % solver)
            break
        rc, ps, stats, dt, nobody, err = run_cbmc(u, gb, uw, solver, min(tmo, left))
        r.solver_s += dt
        r.nobody = sorted(set(nobody))
        if not ps:
            r.notes.append("back end %s gave no answer in %.0f s (rc=%s) %s" % (solver, dt, rc, err[-200:]))
            continue
        bad = [p for p in ps if p["status"] not in ("SUCCESS", "FAILURE")]
        fl = [p for p in ps if p["status"] == "FAILURE"]
        if bad and not fl:
            r.notes.append("back end %s: %d obligations %s" % (solver, len(bad), bad[0]["status"]))
            continue
        props = ps
        r.backend = solver
        r.cmd = " ".join([c for c in cbmc_cmd(u, os.path.basename(gb), solver) if c != "--json-ui"] + uw)
        break
    if props is None:
        r.wall = time.time() - t0
        return r
    r.obligations = len(props)
    r.discharged = sum(1 for p in props if p["status"] == "SUCCESS")
    fails = [p for p in props if p["status"] == "FAILURE"]
    unw = [p for p in fails if re.search(r"\.unwind\.\d+$|\.recursion$", p["property"]) or "unwinding assertion" in p.get("description", "")
           or "recursion unwinding" in p.get("description", "")]
    real = [p for p in fails if p not in unw]
    r.unwound_short = bool(unw)
    if not fails:
        r.status = "ok"
        r.wall = time.time() - t0
        return r
    if unw and not real:
        # the loop bound was exceeded: look at everything below the bound
        unk = [p for p in props if p["status"] not in ("SUCCESS", "FAILURE")]
        if unk:
            rc, ps, stats, dt, nobody, err = run_cbmc(u, gb, uw, r.backend, max(5, min(u.backends[0][1], deadline - time.time())),
                                                      ["--no-unwinding-assertions"])
            r.solver_s += dt
            if ps:
                real = [p for p in ps if p["status"] == "FAILURE"]
    # counterexamples, replayed on the real code
    todo = real[:4] + (unw[:1] if not real else [])
    for p in todo:
        f = {"property": p["property"], "description": p.get("description", ""),
             "location": p.get("sourceLocation", ""), "unit": u.name, "state": "unavailable", "log": ""}
        left = deadline - time.time()
        if left > 5:
            vals, dt = run_trace(u, gb, uw, r.backend, min(300, left), p["property"])
            r.solver_s += dt
        else:
            vals = None
        path = os.path.join(VERIF, "evidence", "replay", "%s.%s.txt" % (u.name, re.sub(r"[^\w.]", "_", p["property"])))
        os.makedirs(os.path.dirname(path), exist_ok=True)
        f["state"], f["log"] = replay(u, build, vals, path, f)
        f["replay"] = path
        with open(path, "a") as fh:
            fh.write("\n# verifier: %s\n# result: FAILURE of the obligation above\n# native replay: %s\n" % (getattr(r, "cmd", ""), f["state"]))
            fh.write("".join("# | " + l + "\n" for l in f["log"].splitlines()))
        f["unwind"] = p in unw
        r.failures.append(f)
        if f["state"] == "confirmed":
            break
    if real or any(f["state"] == "confirmed" for f in r.failures):
        r.status = "fail"
    else:
        # only the bound was exceeded, and the real code terminates: bounded result
        r.status = "ok"
        r.bounded_by_unwind = True
        r.failures = []
        r.notes.append("a loop runs beyond the unwinding bound: result bounded, not proved")
    r.wall = time.time() - t0
    return r


def run_cover(u, build, deadline):
    """vacuity guard: every VP_COVER goal behind the preconditions is reachable"""
    src = open(os.path.join(VERIF, "units", u.src)).read()
    if "VP_COVER" not in src or u.loop_contracts:
        return None
    saved = u.dfcc
    u2 = Unit.__new__(Unit)
    u2.__dict__.update(u.__dict__)
    u2.dfcc = None
    u2.name = u.name + ".cover"
    u2.flags = list(u.flags) + ["--no-standard-checks", "--no-unwinding-assertions"]
    gb, err = build_goto(u2, build, more_defs=["-DVP_COVERMODE"])
    if gb is None:
        return {"error": err}
    uw = unwindset_args(u2, gb)
    for solver, tmo in u.backends:
        left = deadline - time.time()
        if left < 5:
            break
        rc, ps, stats, dt, nobody, err = run_cbmc(u2, gb, uw, solver, min(tmo, left))
        if ps:
            g = [p for p in ps if p.get("description", "").startswith("VPCOVER:")]
            return {"goals": len(g), "reached": sum(1 for p in g if p["status"] == "FAILURE"),
                    "unreached": [p["description"][8:] for p in g if p["status"] == "SUCCESS"],
                    "all": sorted({p["description"][8:] for p in g})}
    return {"goals": 0, "reached": 0, "unreached": [], "error": "no answer"}


def random_fallback(u, build, seed, n):
    exe, err = native_build(u, build)
    if exe is None:
        return "unavailable", err
    d = tempfile.mkdtemp(dir=build)
    rc, out, err, dt = sh([exe, "-r", str(seed), str(n)], timeout=120, cwd=d, env=rt_env())
    return ("ok" if rc == 0 else "fail" if rc is not None else "timeout"), out.strip()[-300:]


def check(pid, title, units, level, known=(), assumptions=(), trusted=(), only=None, verbose=False, tier=None, nocover=False):
    tier = tier or os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    deadline = t0 + (BUDGET if tier == "quick" else max(BUDGET, 3000))
    units = [u for u in units if (tier == "thorough" or u.tier == "quick") and (only is None or re.search(only, u.name))]
    build = tempfile.mkdtemp(prefix="vp_%s_" % pid)
    rdir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    results, covers = {}, {}
    try:
        make_config_headers(build)
        with cf.ThreadPoolExecutor(max_workers=NCPU) as ex:
            futs = {ex.submit(run_unit, u, build, deadline): ("u", u) for u in units}
            if not nocover:
                for u in units:
                    futs[ex.submit(run_cover, u, build, deadline)] = ("c", u)
            for f in cf.as_completed(futs):
                k, u = futs[f]
                if k == "u":
                    results[u.name] = f.result()
                else:
                    covers[u.name] = f.result()
        byname = {u.name: u for u in units}
        stand_in = {}
        for u in units:
            if u.fallback_of:
                for n in ([u.fallback_of] if isinstance(u.fallback_of, str) else u.fallback_of):
                    stand_in.setdefault(n, []).append(u.name)
        violations, suppressed, undecided, notes = [], [], [], []
        standin_used = []
        for n, r in results.items():
            if r.status == "fail":
                conf = [f for f in r.failures if f["state"] == "confirmed"]
                if conf:
                    violations.append(conf[0])
                    continue
                sis = [results[s] for s in stand_in.get(n, [])]
                if sis and all(s.status == "ok" for s in sis):
                    standin_used.append(n)
                    notes.append("%s: obligation %s not re-proved and its counterexample does not reproduce on the real code; "
                                 "bounded stand-in %s passed (bounded, not proved)" % (n, r.failures[0]["property"] if r.failures else "?", [s.unit.name for s in sis]))
                    continue
                violations.append(r.failures[0] if r.failures else {"property": "?", "description": "", "state": "unavailable", "replay": "none", "unit": n})
            elif r.status == "undecided" and byname[n].optional and getattr(r, "nobuild", False):
                # contract on an internal helper that no longer exists in this form;
                # the property is decided by the units on the interface functions
                notes.append("%s skipped: the internal function it specifies is not there any more (%s)" % (n, r.notes[-1][-200:]))
                standin_used.append(n)
            elif r.status == "undecided":
                sis = [results[s] for s in stand_in.get(n, [])]
                if sis and all(s.status == "ok" for s in sis):
                    standin_used.append(n)
                    notes.append("%s undecided (%s); bounded stand-in passed" % (n, "; ".join(r.notes)[-300:]))
                    continue
                st, msg = random_fallback(byname[n], build, seed, byname[n].random_runs)
                notes.append("%s undecided (%s); contract evaluated at run time on the real code instead: %s %s" % (n, "; ".join(r.notes)[-600:], st, msg))
                if st == "ok":
                    standin_used.append(n)
                elif st == "fail":
                    p = os.path.join(rdir, n + ".random.txt")
                    open(p, "w").write("# unit %s: contract violated at run time, seed %d: %s\n" % (n, seed, msg))
                    violations.append({"property": n + ".runtime", "description": msg, "state": "confirmed", "replay": p, "unit": n})
                else:
                    undecided.append(n)
        # vacuity guard, per harness: a goal must be reached in at least one of its units
        reached, allg = {}, {}
        for n, c in covers.items():
            if not c or "goals" not in c:
                continue
            k = (byname[n].src, byname[n].entry)
            allg.setdefault(k, set()).update(c.get("all", []))
            reached.setdefault(k, set()).update(set(c.get("all", [])) - set(c.get("unreached", [])))
        for k in allg:
            if allg[k] - reached.get(k, set()):
                notes.append("vacuity: %s %s: goals not reached: %s" % (k[0], k[1], sorted(allg[k] - reached.get(k, set()))))
        for n, r in results.items():
            if getattr(r, "unwound_short", False):
                notes.append("%s: unwinding bound too small" % n)
        # known findings
        rest = []
        for v in violations:
            hit = None
            for k in known:
                if k["property"] == pid and re.search(k["match"], "%s %s %s" % (v["unit"], v["property"], v["description"])):
                    hit = k
            (suppressed if hit else rest).append((v, hit))
        for v, k in suppressed:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
        nobl = sum(r.obligations for n, r in results.items())
        ndis = sum(r.discharged for n, r in results.items())
        proof_units = [r for n, r in results.items() if r.unit.kind == "proof" and n not in standin_used and not getattr(r, "bounded_by_unwind", False)]
        bnd_units = [r for n, r in results.items() if r not in proof_units]
        fns = sorted({f for r in proof_units if r.status == "ok" for f in r.unit.functions})
        bfns = sorted({f for r in bnd_units if r.status == "ok" for f in r.unit.functions} - set(fns))
        tb = ["CBMC 6.11.0 goto-cc/goto-instrument/symbolic execution and its C library models",
              "SMT/SAT back ends: " + ", ".join(sorted({r.backend for r in results.values() if r.backend})),
              "target: 64-bit Linux data model, two's complement (overflow of signed arithmetic is an obligation, not assumed away)",
              "stderr/stdout formatting is not modelled"] + list(trusted)
        for u in units:
            for a in u.assumed:
                if a not in tb:
                    tb.append(a)
        nb = sorted({x for r in results.values() for x in r.nobody})
        if nb:
            tb.append("functions without a body, treated as returning anything: " + ", ".join(nb))
        cov = {
            "obligations": sum(r.obligations for r in proof_units),
            "discharged": sum(r.discharged for r in proof_units),
            "bounded_obligations": sum(r.obligations for r in bnd_units),
            "bounded_discharged": sum(r.discharged for r in bnd_units),
            "checker_cmd": "; ".join(sorted({getattr(r, "cmd", "") for r in results.values() if getattr(r, "cmd", "")})[:6]),
            "trusted_base": tb,
            "functions_under_contract": fns,
            "functions_bounded_only": bfns,
            "units": [{"unit": n, "kind": ("bounded" if r in bnd_units else "proof"), "bound": r.unit.bound, "status": r.status,
                       "obligations": r.obligations, "discharged": r.discharged, "backend": r.backend,
                       "solver_s": round(r.solver_s, 2), "cover": {k: v for k, v in (covers.get(n) or {}).items() if k != "all"}, "frame_checked": bool(r.unit.dfcc), "notes": r.notes}
                      for n, r in sorted(results.items())],
            "solver_s": round(sum(r.solver_s for r in results.values()), 1),
            "notes": notes,
        }
        if level != "proof":
            cov["explanation"] = ("contract-based deductive verification with CBMC on the real sources: %d obligations proved without bound in %d units; "
                                  "%d obligations discharged under the bounds stated in units[]" % (cov["discharged"], len(proof_units), cov["bounded_discharged"]))
        ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
              "assumptions": list(assumptions) + ["undecided: " + x for x in undecided],
              "wall_s": round(time.time() - t0, 2), "violations": len(rest)}
        if only is None:
            with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
                json.dump(ev, f, indent=1)
        for n, r in sorted(results.items()):
            print("%-32s %-9s %4d/%-4d %-6s %6.1fs %s" % (n, r.status, r.discharged, r.obligations, r.backend or "-", r.wall,
                  ("cover %s/%s" % (covers[n].get("reached"), covers[n].get("goals")) if covers.get(n) else "")))
            if verbose or r.status != "ok":
                for x in r.notes:
                    print("    note:", x)
                for f in r.failures:
                    print("    %s: %s @%s [%s]\n%s" % (f["property"], f["description"], f.get("location"), f["state"], f["log"][-1500:] if verbose else ""))
        for x in notes:
            print("note:", x)
        if rest:
            for v, k in rest[:3]:
                print("  failed obligation %s in unit %s: %s" % (v["property"], v["unit"], v["description"]))
            # confirmed first
            rest.sort(key=lambda x: x[0]["state"] != "confirmed")
            v = rest[0][0]
            print("VIOLATION property=%s replay=%s%s" % (pid, v["replay"], "" if v["state"] == "confirmed" else " no-failing-input-found"))
            return 1
        if undecided:
            print("UNDECIDED units: %s" % undecided)
            return 2
        return 0
    finally:
        shutil.rmtree(build, ignore_errors=True)
