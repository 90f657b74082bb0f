"""Shared machinery of the checks: build a harness from /repo's working tree,
run it on scenarios, let TLC decide, write the evidence file.

Nothing in here decides a property: the harness records what the real code did,
this file moves the records around, and TLC accepts or rejects them against the
TLA+ specification."""
import concurrent.futures as cf
import hashlib, json, os, random, re, shutil, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
CACHE = os.path.join(VERIF, ".cache")
TLA_CP = ("/opt/veriftools/tla/tla2tools.jar:"
          "/opt/veriftools/tla/CommunityModules-deps.jar")

CXX = os.environ.get("VERIF_CXX", "g++")
CXXFLAGS = ("-O0 -w -DNDEBUG -std=c++17 -I%s/include -I%s "
            "-isystem /usr/lib/x86_64-linux-gnu/openmpi/include "
            "-isystem /usr/lib/x86_64-linux-gnu/openmpi/include/openmpi "
            "-isystem /usr/include/petsc -isystem /usr/include/trilinos "
            "-isystem /usr/include/hdf5/openmpi -isystem /usr/include/scotch "
            "-isystem /usr/include/suitesparse "
            "-isystem /usr/include/opencascade -isystem /usr/include/slepc "
            "-isystem /opt/vp/compat/include "
            "-include boost/container_hash/hash.hpp "
            "-include deal.II/base/multithread_info.h "
            "-include deal.II/distributed/tria_base.h "
            "-include deal.II/lac/vector.h" % (REPO, HARN)).split()
LIB_SOURCES = ["common/amge.cc", "common/utils.cc", "dealii/amge_host.cc",
               "dealii/dealii_hierarchy_helpers.cc",
               "dealii/dealii_matrix_free_hierarchy_helpers.cc",
               "dealii/dealii_matrix_free_mesh_evaluator.cc",
               "dealii/dealii_matrix_free_operator.cc",
               "dealii/dealii_matrix_free_smoother.cc",
               "dealii/dealii_matrix_operator.cc",
               "dealii/dealii_mesh_evaluator.cc", "dealii/dealii_smoother.cc",
               "dealii/dealii_solver.cc",
               "dealii/dealii_trilinos_matrix_operator.cc",
               "dealii/dealii_utils.cc"]


class CheckError(Exception):
    """The check itself could not give an answer (neither held nor broken)."""


def env():
    e = {"HOME": os.environ.get("HOME", "/root"), "LC_ALL": "C.UTF-8",
         "PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
         "OMPI_ALLOW_RUN_AS_ROOT": "1", "OMPI_ALLOW_RUN_AS_ROOT_CONFIRM": "1",
         "OMPI_MCA_rmaps_base_oversubscribe": "1",
         "OMPI_MCA_hwloc_base_binding_policy": "none",
         "OMPI_MCA_mpi_yield_when_idle": "1", "OMPI_MCA_pml": "ob1",
         "OMPI_MCA_btl": "self,vader",
         "OMPI_MCA_btl_vader_single_copy_mechanism": "none",
         "OMPI_MCA_plm": "isolated", "OMPI_MCA_oob": "tcp",
         "OMPI_MCA_oob_tcp_if_include": "lo", "DEAL_II_NUM_THREADS": "1",
         "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1"}
    return e


# --------------------------------------------------------------------- build
def _digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()


def _tree(root, exts):
    out = []
    for d, _, fs in os.walk(root):
        out += [os.path.join(d, f) for f in fs if f.endswith(exts)]
    return out


def _compile(src, flags, work):
    headers = (_tree(os.path.join(REPO, "include"), (".hpp", ".h"))
               + _tree(HARN, (".hpp",)))
    key = _digest(headers + [src], " ".join([CXX] + flags))
    os.makedirs(CACHE, exist_ok=True)
    obj = os.path.join(CACHE, key + ".o")
    if not os.path.exists(obj):
        tmp = os.path.join(work, key + ".o")
        r = subprocess.run([CXX] + flags + ["-c", src, "-o", tmp], env=env(),
                           capture_output=True, text=True)
        if r.returncode:
            raise CheckError("compiling %s failed:\n%s" % (src, r.stderr[-4000:]))
        os.replace(tmp, obj)
    return obj


def link_libs():
    return ["-fuse-ld=gold", "-L/usr/lib/x86_64-linux-gnu/openmpi/lib"] + LIBS


LIBS = None


def find_libs():
    """The link line deal.II's installed CMake configuration gives."""
    global LIBS
    LIBS = open(os.path.join(HARN, "link.txt")).read().split()
    return LIBS


# source/dealii/amge_host.cc in four parts that compile side by side
AMGE_DIGEST = "9a3ce72e1981851d18dd6690f9cdffddfa5cc611ea5a5979fd6f4813143a029e"
AMGE_PARTS = ["inst/amge_host_%s.cc" % p for p in ("m2", "m3", "f2", "f3")]


def build(name, harness, lib_sources, work, defines=()):
    """Compile the harness files and the named /repo sources, link, return the
    path of the program.  The large dealii/amge_host.cc only lists
    instantiations: its parts are compiled instead, and the file itself when
    they do not do."""
    if "dealii/amge_host.cc" in lib_sources and _digest(
            [], open(os.path.join(REPO, "source", "dealii", "amge_host.cc")).read()
            ) == AMGE_DIGEST:
        rest = [s for s in lib_sources if s != "dealii/amge_host.cc"]
        try:
            return build_files(name, list(harness) + AMGE_PARTS, rest, work,
                               defines, split=True)
        except CheckError as e:
            log("falling back to the original source files: %s" % str(e)[:200])
    try:
        return build_files(name, harness, lib_sources, work, defines)
    except CheckError as e:
        if lib_sources:
            log("trying with all source files: %s" % str(e)[:200])
            extra = ["common/" + f for f in os.listdir(REPO + "/source/common")
                     if f.endswith(".cc")] \
                + ["dealii/" + f for f in os.listdir(REPO + "/source/dealii")
                   if f.endswith(".cc")]
            return build_files(name, harness, sorted(extra), work, defines)
        raise


def build_files(name, harness, lib_sources, work, defines=(), split=False):
    find_libs()
    t0 = time.time()
    flags = CXXFLAGS + ["-D" + d for d in defines]
    srcs = ([os.path.join(HARN, h) for h in harness]
            + [os.path.join(REPO, "source", s) for s in lib_sources])
    # longest first
    srcs.sort(key=lambda s: -(("amge_host" in s) * 4
                              + ("matrix_free_hierarchy" in s) * 2
                              + ("/harness/" in s)))
    extern = ["-include", os.path.join(HARN, "inst", "extern_amge.hpp")]
    with cf.ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(lambda s: _compile(
            s, flags + (extern if split and "matrix_free_hierarchy" in s
                        else []), work), srcs))
    exe = os.path.join(work, name)
    r = subprocess.run([CXX] + objs + ["-o", exe] + link_libs(), env=env(),
                       capture_output=True, text=True)
    if r.returncode:
        raise CheckError("linking %s failed:\n%s" % (name, r.stderr[-4000:]))
    log("built %s from %d sources in %.1fs" % (name, len(srcs), time.time() - t0))
    return exe


# ----------------------------------------------------------------------- run
def kill_session(sid):
    """The processes of a run (its own session), wherever mpiexec put them."""
    for d in os.listdir("/proc"):
        if d.isdigit():
            try:
                with open("/proc/%s/stat" % d) as f:
                    if int(f.read().rsplit(")", 1)[1].split()[3]) == sid:
                        os.kill(int(d), signal.SIGKILL)
            except (OSError, ValueError, IndexError):
                pass


STALL = 120 if os.environ.get("VERIF_TIER") == "thorough" else 45  # s without a record
HANGS = [0]     # scenarios found to hang, in all runs of this check


def run_harness(exe, scenarios, work, ranks=1, threads=1, timeout=300, tag="h",
                stall=STALL):
    """Run the program on the scenarios (one JSON object per line).  Returns
    {scenario id: [records of rank 0, rank 1, ...]} where a record is the list
    of JSON values that rank wrote for that scenario."""
    d = os.path.join(work, "%s-n%d" % (tag, ranks))
    os.makedirs(d, exist_ok=True)
    inp = os.path.join(d, "in.json")
    with open(inp, "w") as f:
        for s in scenarios:
            f.write(json.dumps(s) + "\n")
    e = env()
    e["DEAL_II_NUM_THREADS"] = str(threads)
    cmd = [exe, inp, os.path.join(d, "out")]
    if ranks > 1:
        cmd = ["/usr/bin/mpiexec", "-n", str(ranks)] + cmd
    log_fn = os.path.join(d, "log")
    outs = [os.path.join(d, "out.%d" % r) for r in range(ranks)]
    for fn in outs:
        if os.path.exists(fn):
            os.remove(fn)
    with open(log_fn, "w") as lf:
        p = subprocess.Popen(cmd, env=e, cwd=d, stdout=lf, stderr=subprocess.STDOUT,
                             stdin=subprocess.DEVNULL, start_new_session=True)
        # it has to end in time, and must not be silent for too long
        t0 = last = time.time()
        size, timed_out = -1, False
        while True:
            try:
                p.wait(timeout=.05 if time.time() - t0 < 2 else .5)
                break
            except subprocess.TimeoutExpired:
                pass
            now = time.time()
            n = sum(os.path.getsize(fn) for fn in outs if os.path.exists(fn))
            if n != size:
                size, last = n, now
            if now - t0 > timeout or now - last > stall:
                timed_out = True
                kill_session(p.pid)
                p.wait()
                break
    with open(log_fn, errors="replace") as lf:
        out = lf.read()
    res, done = {}, set()
    for r in range(ranks):
        fn = os.path.join(d, "out.%d" % r)
        if os.path.exists(fn):
            for line in open(fn, errors="replace"):
                try:
                    v = json.loads(line)
                except ValueError:
                    continue
                if v.get("ev") == "done":
                    done.add((r, v["sc"]))
                    continue
                res.setdefault(v["sc"], [[] for _ in range(ranks)])[r].append(v)
    ended = "timeout" if timed_out else p.returncode
    missing = [s["sc"] for s in scenarios
               if any((r, s["sc"]) not in done for r in range(ranks))]
    return res, missing, ended, out[-3000:]


def run_isolated(exe, scenarios, work, ranks=1, threads=1, timeout=300, tag="h",
                 single_timeout=60):
    """As run_harness, but a scenario that kills or hangs the program does not
    take the others with it: what did not finish is run again, each scenario on
    its own (twice: only what fails twice is reported).  Returns (results,
    {scenario id: how its process ended})."""
    res, missing, ended, out = run_harness(exe, scenarios, work, ranks, threads,
                                           timeout, tag)
    crashed = {}
    todo = [s for s in scenarios if s["sc"] in set(missing)]
    if todo and len(todo) == len(scenarios) and not res and ended == 127:
        raise CheckError("harness cannot start: " + out)
    rounds = 0
    while todo and rounds < 6 and (HANGS[0] < 3 or len(scenarios) == 1):
        # the first unfinished one is the culprit: run it alone, then the rest
        rounds += 1
        s = todo.pop(0)
        for attempt in (0, 1):
            res1, miss1, end1, out1 = run_harness(exe, [s], work, ranks, threads,
                                                  single_timeout, tag + "-one")
            if not miss1:
                res.update(res1)
                break
            # it hung among the others, and now alone: that is twice
            if end1 == "timeout" and ended == "timeout":
                attempt = 1
            if attempt:
                crashed[s["sc"]] = {"ended": end1, "output": out1[-1500:]}
                res[s["sc"]] = res1.get(s["sc"], [[] for _ in range(ranks)])
                HANGS[0] += end1 == "timeout"
                break
        if todo:
            res2, miss2, ended, _ = run_harness(exe, todo, work, ranks, threads,
                                                timeout, tag + "-rest")
            for k, v in res2.items():
                if k not in miss2:
                    res[k] = v
            todo = [t for t in todo if t["sc"] in set(miss2)]
    for s in todo:
        res.setdefault(s["sc"], [[] for _ in range(ranks)])
        crashed[s["sc"]] = {"ended": "not run", "output": ""}
    return res, crashed


# ----------------------------------------------------------------------- TLC
def tlc(module, cfg, work, envvars=None, workers=4, timeout=600, extra=(),
        heap="6g"):
    """Run TLC on spec/<module>.tla with spec/<cfg>.  Returns a dict with the
    outcome, states, transitions and depth."""
    e = env()
    e["JAVA_TOOL_OPTIONS"] = ""
    e.pop("JAVA_TOOL_OPTIONS")
    if envvars:
        e.update({k: str(v) for k, v in envvars.items()})
    meta = os.path.join(work, "tlc-%s-%d" % (cfg, random.getrandbits(30)))
    os.makedirs(meta, exist_ok=True)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp", TLA_CP,
           "tlc2.TLC", "-metadir", meta, "-workers", str(workers),
           "-noGenerateSpecTE", "-config", os.path.join(SPEC, cfg)] \
        + list(extra) + [os.path.join(SPEC, module + ".tla")]
    t0 = time.time()
    try:
        p = subprocess.run(cmd, env=e, cwd=work, capture_output=True, text=True,
                           timeout=timeout)
        out, rc = p.stdout + p.stderr, p.returncode
    except subprocess.TimeoutExpired as x:
        out, rc = (x.stdout or b"").decode(errors="replace"), "timeout"
    shutil.rmtree(meta, ignore_errors=True)
    r = {"rc": rc, "out": out, "states": 0, "transitions": 0, "depth": 0,
         "wall": time.time() - t0, "module": module, "cfg": cfg}
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    if m:
        r["transitions"], r["states"] = int(m.group(1)), int(m.group(2))
    m = re.search(r"depth of the complete state graph search is (\d+)", out)
    if m:
        r["depth"] = int(m.group(1))
    return r


def design(module, cfg, work, ctx, expect_actions=(), coverage=True, **kw):
    """Exhaustive check of a design specification: it must hold, visit every
    action and be non-trivial; anything else is an error of the check."""
    r = tlc(module, cfg, work, extra=("-coverage", "1") if coverage else (), **kw)
    if r["rc"] != 0:
        raise CheckError("design model %s/%s: TLC ended with %s\n%s"
                         % (module, cfg, r["rc"], r["out"][-3000:]))
    acts = {}
    for m in re.finditer(r"<(\w+) line \d+[^>]*>: (\d+):(\d+)", r["out"]):
        acts[m.group(1)] = acts.get(m.group(1), 0) + int(m.group(3))
    for a in expect_actions:
        if not acts.get(a):
            raise CheckError("design model %s: action %s is never taken (%s)"
                             % (module, a, acts))
    ctx.states += r["states"]
    ctx.transitions += r["transitions"]
    ctx.design.append({"module": module, "cfg": cfg, "states": r["states"],
                       "transitions": r["transitions"], "actions": acts,
                       "wall_s": round(r["wall"], 1)})
    log("design %s/%s: %d states, %d transitions, %.1fs"
        % (module, cfg, r["states"], r["transitions"], r["wall"]))
    return r


def validate(module, cfg, events, work, ctx, tag="trace", timeout=600):
    """Check a recorded trace against the specification.  Returns None when
    every event is accepted, otherwise the index of the first rejected one."""
    fn = os.path.join(work, "%s-%s.ndjson" % (tag, module))
    with open(fn, "w") as f:
        for e in events:
            f.write(json.dumps(e) + "\n")
    if not events:
        raise CheckError("empty trace for " + module)
    r = tlc(module, cfg, work, {"TRACE": fn}, workers=1, timeout=timeout)
    ctx.states += r["states"]
    ctx.transitions += r["transitions"]
    out = r["out"]
    if r["rc"] == 0:
        return None
    # anything but a clean rejection is an error of the check
    # (every trace specification consumes the first event in its initial state,
    # so the depth is the number of events accepted and the index of the first
    # rejected one)
    if "TraceAccepted" in out and not re.search(
            r"Overflow|StackOverflow|OutOfMemory|Attempted to|evaluating the",
            out):
        return r["depth"]
    raise CheckError("TLC on trace %s ended with %s\n%s"
                     % (module, r["rc"], out[-3500:]))


# ------------------------------------------------------------------- a check
def log(msg):
    print("# " + msg, flush=True)


class Ctx:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.rng = random.Random("%s/%d" % (prop, self.seed))
        self.thorough = self.tier == "thorough"
        self.states = self.transitions = self.traces = 0
        self.design, self.samples, self.extra = [], [], {}
        self.assumptions = []
        self.violations = []
        self.t0 = time.time()
        self.work = os.path.join(VERIF, ".work", "%s-%d" % (prop, os.getpid()))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)

    def known(self):
        fn = os.path.join(VERIF, "known_findings.jsonl")
        out = []
        if os.path.exists(fn):
            for line in open(fn):
                line = line.strip()
                if not line.startswith("{"):
                    continue
                v = json.loads(line)
                if v.get("property") == self.prop and v.get("status") == "known":
                    out.append(v)
        return out

    def violate(self, what, key, detail):
        """key identifies the input/call site/history that fails."""
        for k in self.known():
            if k["key"] == key:
                self.extra.setdefault("known_findings_seen", []).append(key)
                print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]),
                      flush=True)
                return
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        fn = os.path.join(d, "%s-%d.json" % (self.prop, len(self.violations)))
        with open(fn, "w") as f:
            json.dump({"property": self.prop, "what": what, "key": key,
                       "detail": detail}, f, indent=1)
        self.violations.append(fn)
        log("violation: %s [%s]" % (what, key))
        print("VIOLATION property=%s replay=%s" % (self.prop, fn), flush=True)

    def finish(self, level="model_checking"):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces,
               "samples": self.samples[:4], "design_models": self.design}
        cov.update(self.extra)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump({"property": self.prop, "tier": self.tier,
                       "seed": self.seed, "level": level, "coverage": cov,
                       "assumptions": self.assumptions,
                       "wall_s": round(time.time() - self.t0, 1),
                       "violations": len(self.violations)}, f, indent=1)
        log("%s: %d states, %d traces validated, %d violations, %.1fs"
            % (self.prop, self.states, self.traces, len(self.violations),
               time.time() - self.t0))
        shutil.rmtree(self.work, ignore_errors=True)
        return 1 if self.violations else 0


def short(v, n=1500):
    s = json.dumps(v)
    return s if len(s) <= n else s[:n] + "..."


def conform(ctx, module, cfg, groups, rerun, tag="trace", timeout=600,
            max_report=3, describe=None):
    """groups: list of (scenario, [events]).  All groups go through one TLC run;
    after a rejection the scenario is run again on the real code (rerun(sc) ->
    events) and only a rejection that repeats is a violation; then validation
    goes on with the remaining groups."""
    todo = list(groups)
    reported = 0
    first = True
    while todo:
        events = [e for _, g in todo for e in g]
        n = validate(module, cfg, events, ctx.work, ctx, tag, timeout)
        if first and todo:
            ctx.samples.append({"scenario": todo[0][0],
                                "first_event": short(todo[0][1][0], 800)})
            first = False
        if n is None:
            ctx.traces += len(todo)
            return
        pos = 0
        for gi, (sc, g) in enumerate(todo):
            if n < pos + len(g):
                break
            pos += len(g)
        else:
            raise CheckError("rejected index %d out of range" % n)
        ctx.traces += gi
        bad = g[n - pos]
        again = rerun(sc)
        n2 = validate(module, cfg, again, ctx.work, ctx, tag + "-again", timeout)
        if n2 is None:
            log("rejection of %s did not repeat" % short(sc, 200))
            ctx.extra["unrepeated_rejections"] = \
                ctx.extra.get("unrepeated_rejections", 0) + 1
        else:
            what = describe(sc, bad) if describe else \
                "event %s rejected by %s" % (bad.get("ev"), module)
            ctx.violate(what, sc.get("key", json.dumps(sc, sort_keys=True)),
                        {"scenario": sc, "rejected_event": bad,
                         "index_in_scenario": n - pos, "spec": module,
                         "how": "re-run: ./run.py %s" % ctx.prop})
            reported += 1
            if len(ctx.violations) >= max_report or time.time() - ctx.t0 > 500:
                return
        todo = todo[gi + 1:]
