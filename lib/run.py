#!/usr/bin/env python3
"""Solver-based checks of opencoff/portable-lib.

usage: run.py PROPERTY [--tier quick|thorough] [--job NAME] [-v] [--keep]

For every job of the property (directives at the top of harness/*.c) the
harness and the repository sources it names are compiled with goto-cc from
/repo's current tree, CBMC turns every assertion into a SAT query over all
values within the stated bounds, and any counterexample is replayed against
the real code (gcc + AddressSanitizer) before it is reported.
"""
import sys, os, re, json, shlex, subprocess, time, shutil, tempfile, resource, signal, glob, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VH_REPO", "/repo")
H = os.path.join(VERIF, "harness")
NCPU = os.cpu_count() or 4

CFLAGS = ["-I", H, "-I", f"{REPO}/src", "-I", f"{REPO}/src/hashtable", "-I", f"{REPO}/inc",
          "-D__linux__=1", "-D__amd64__=1", "-D_GNU_SOURCE=1"]
OFF = {"so": "--no-signed-overflow-check", "shift": "--no-undefined-shift-check",
       "pp": "--no-pointer-primitive-check", "mf": "--no-malloc-may-fail",
       "div": "--no-div-by-zero-check"}


class Job:
    def __init__(s, hfile, prop, srcs, kv, dflt):
        g = lambda k, d=None: kv.get(k, dflt.get(k, d))
        s.file, s.prop, s.name = hfile, prop, kv["name"]
        s.entry = g("entry", "h_" + s.name)
        s.srcs = (g("srcs").split(",") if g("srcs") else []) if "srcs" in kv else srcs
        s.srcs = [x for x in s.srcs if x]
        s.defs = {"quick": g("D", ""), "thorough": g("tD", g("D", ""))}
        s.unwind = {"quick": int(g("unwind", "8")), "thorough": int(g("tunwind", g("unwind", "8")))}
        s.unwindset = g("unwindset", "")
        s.solver = {"quick": g("solver", "minisat2"), "thorough": g("tsolver", g("solver", "minisat2"))}
        s.checks = set(x for x in g("checks", "").split(",") if x)     # extra: so shift pp mf uo
        s.flags = shlex.split(g("flags", ""))
        s.ccflags = shlex.split(g("cc", ""))
        s.rflags = shlex.split(g("rcc", ""))
        s.inc = [x for x in g("inc", "").split(",") if x]
        s.timeout = {"quick": int(os.environ.get("VH_TIMEOUT", g("timeout", "400"))), "thorough": int(g("ttimeout", "850"))}
        s.tier = g("tier", "both")
        s.known = g("known", "")           # id of a known finding: pinned input, expected to fail
        s.bound = g("bound", "")
        s.mem = int(g("mem", "6"))
        s.weight = float(g("w", "5"))
        s.models = g("models", "models.c")
        s.nomem = g("nomem", "") == "1"
        s.maxunwind = int(g("maxunwind", "0"))
        s.noreplay = g("noreplay", "") == "1"
        s.sched = g("sched", "") == "1"
        s.subst = g("subst", "")           # regex@@replacement, solver build of the sources only


def load_jobs():
    jobs = []
    for f in sorted(glob.glob(H + "/*.c")):
        prop, srcs, dflt = None, [], {}
        for ln in open(f):
            m = re.match(r"//@\s*(\w+)\s*(.*)", ln)
            if not m:
                continue
            k, v = m.group(1), m.group(2).strip()
            if k == "prop":
                prop, srcs, dflt = v.split()[0], [], {}
            elif k == "srcs":
                srcs = v.split()
            elif k == "default":
                dflt = dict(x.split("=", 1) for x in shlex.split(v))
            elif k == "job":
                kv = dict(x.split("=", 1) for x in shlex.split(v))
                rep = kv.pop("for", None)
                if not rep:
                    jobs.append(Job(f, kv.get("prop", prop), srcs, kv, dflt))
                    continue
                # for=X:a..b[/c..d]  one job per value (thorough range after the slash); {X} and simple {X+1} expand
                var, rng = rep.split(":")
                q, _, t = rng.partition("/")
                def expand(r):
                    out = []
                    for part in r.split(","):
                        if ".." in part:
                            lo, hi = map(int, part.split(".."))
                            out += range(lo, hi + 1)
                        elif part:
                            out.append(int(part))
                    return out
                qs = expand(q); ts = expand(t) if t else qs
                for val in sorted(set(qs) | set(ts)):
                    kk = {a: re.sub(r"\{([^}]+)\}", lambda m: str(eval(m.group(1), {var: val})), b) for a, b in kv.items()}
                    kk["entry"] = kk.get("entry", dflt.get("entry", "h_" + kv["name"]))
                    kk["name"] = f"{kv['name']}_{var}{val}"
                    kk.setdefault("tier", "both" if val in qs and val in ts else "quick" if val in qs else "thorough")
                    jobs.append(Job(f, kk.get("prop", prop), srcs, kk, dflt))
    return jobs


def limits(memgb):
    def fn():
        os.setsid()
        b = memgb << 30
        resource.setrlimit(resource.RLIMIT_AS, (b, b))
    return fn


LIVE = set()
STOP = threading.Event()        # a violation was confirmed, or the time is up


def stop_all():
    STOP.set()
    for p in list(LIVE):
        try:
            os.killpg(p, signal.SIGKILL)
        except OSError:
            pass


def sh(cmd, timeout=None, memgb=16, cwd=None, env=None, merge=True):
    if STOP.is_set():
        raise CheckError("stopped")
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT if merge else subprocess.PIPE,
                         preexec_fn=limits(memgb) if memgb else os.setsid, cwd=cwd, env=env)
    LIVE.add(p.pid)
    try:
        out, err = p.communicate(timeout=timeout)
        if STOP.is_set():
            raise CheckError("stopped")
        return p.returncode, out.decode("utf-8", "replace"), (err or b"").decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, err = p.communicate()
        return None, out.decode("utf-8", "replace"), ""
    finally:
        LIVE.discard(p.pid)


class CheckError(Exception):
    pass


def compile_goto(job, tier, wd):
    objs = []
    cf = CFLAGS[:]
    inc = []
    for i in job.inc:
        inc += ["-I", f"{H}/{i}"]
    cf = inc + cf + ["-DVH_CBMC", "-D__NO_CTYPE"] + job.ccflags
    hdefs = ["-D" + d for d in job.defs[tier].split(",") if d]
    units = [(job.file, hdefs)] + [(f"{REPO}/{s}" if not s.startswith("@") else f"{H}/{s[1:]}", hdefs) for s in job.srcs]
    if job.models:
        for m in job.models.split(","):
            units.append((f"{H}/{m}", hdefs))
    for n, (u, d) in enumerate(units):
        o = f"{wd}/{n}.gb"
        if job.subst and u.startswith(REPO):
            rx, rep = job.subst.split("@@")
            txt = open(u).read()
            new = re.sub(rx, lambda m: rep.replace("\\1", m.group(1)) if m.lastindex else rep, txt)
            if new != txt:
                open(f"{wd}/{n}.c", "w").write(f'#line 1 "{u}"\n' + new)
                u, d = f"{wd}/{n}.c", d + ["-I", os.path.dirname(u)]
        rc, out, _ = sh(["goto-cc", "-c", *cf, *d, u, "-o", o], timeout=120)
        if rc != 0:
            raise CheckError(f"goto-cc failed on {u}:\n{out[-3000:]}")
        objs.append(o)
    gb = f"{wd}/all.gb"
    rc, out, _ = sh(["goto-cc", *objs, "--function", job.entry, "-o", gb], timeout=120)
    if rc != 0:
        raise CheckError(f"goto-cc link failed:\n{out[-3000:]}")
    return gb


def solver_env(job, tier, wd):
    """cbmc runs the program called z3: put lib/z3shim.py in front of it.
    z3n is the newer z3, z3d the newer z3 given definitions for equations."""
    sv = job.solver[tier]
    if sv not in ("z3", "z3n", "z3d"):
        return None
    z3 = (shutil.which("z3-new") if sv != "z3" else None) or shutil.which("z3")
    d = f"{wd}/bin"
    if not os.path.isdir(d):
        os.makedirs(d)
        with open(f"{d}/z3", "w") as f:
            f.write(f'#!/bin/sh\nexec python3 {VERIF}/lib/z3shim.py {z3} {int(sv == "z3d")} "$@"\n')
        os.chmod(f"{d}/z3", 0o755)
    return dict(os.environ, PATH=d + ":" + os.environ.get("PATH", "/usr/bin:/bin"))


def cbmc_cmd(job, tier, gb, unwind, extra=()):
    c = ["cbmc", gb, "--json-ui", "--unwind", str(unwind), "--drop-unused-functions", "--verbosity", "8"]
    if job.unwindset:
        c += ["--unwindset", job.unwindset]
    if job.solver[tier] == "kissat":
        c += ["--external-sat-solver", "kissat"]
    elif job.solver[tier] in ("z3", "z3n", "z3d", "cvc5"):     # z3n, z3d: see solver_env
        c += ["--z3" if job.solver[tier][0] == "z" else "--cvc5"]
    elif job.solver[tier] != "minisat2":
        c += ["--sat-solver", job.solver[tier]]
    for k, v in OFF.items():
        if k not in job.checks:
            if k != "div":
                c.append(v)
    if "nodiv" in job.checks:
        c.append(OFF["div"])
    if "uo" in job.checks:
        c.append("--unsigned-overflow-check")
    if "conv" in job.checks:
        c.append("--conversion-check")
    if job.nomem:
        c += ["--no-bounds-check", "--no-pointer-check"]
    return c + job.flags + list(extra)


def parse(out):
    try:
        d = json.loads(out)
    except Exception:
        # truncated output
        return None, None, out[-2000:]
    res, msgs, stt = None, [], ""
    for o in d:
        if "result" in o:
            res = o["result"]
        elif "messageText" in o:
            msgs.append(o["messageText"])
    return res, msgs, ""


def kind(r):
    d = r["description"]
    if d.startswith("REACH:"):
        return "reach"
    if d.startswith("PROP:"):
        return "prop"
    if ".unwind." in r["property"] or d.startswith("unwinding assertion"):
        return "unwind"
    if ".recursion" in r["property"] or "recursion unwinding" in d:
        return "unwind"
    return "mem"


def reach_fns(gb):
    rc, out, _ = sh(["goto-instrument", "--reachable-call-graph", gb], timeout=60, merge=False)
    names = set()
    for ln in out.splitlines():
        m = re.match(r"^(\S+) -> (\S+)$", ln.strip())
        if m:
            names.update(m.groups())
    return names


_symfile = {}


def repo_functions(job, names):
    """the reachable functions that are defined in the repository's sources or headers"""
    if not _symfile:
        pat = re.compile(r"^(?:static\s+|inline\s+|const\s+|unsigned\s+|struct\s+|extern\s+)*[\w\s\*]*?\b(\w+)\s*\(", re.M)
        for root in ("src", "inc"):
            for dp, _, fs in os.walk(f"{REPO}/{root}"):
                if "win32" in dp:
                    continue
                for f in fs:
                    if f.endswith((".c", ".h")):
                        t = open(os.path.join(dp, f), errors="replace").read()
                        for m in re.finditer(r"\b([A-Za-z_]\w*)\s*\([^;{}]*\)\s*\{", t):
                            _symfile.setdefault(m.group(1), os.path.relpath(os.path.join(dp, f), REPO))
    own = set()
    for f in [job.file]:
        for m in re.finditer(r"^[\w\s\*]+\b(\w+)\([^;]*\)\s*\n?\{", open(f).read(), re.M):
            own.add(m.group(1))
    out = []
    for n in names:
        b = n.split("$link")[0]
        if b in ("if", "for", "while", "switch", "main"):
            continue
        if b in _symfile and b not in own:
            out.append(f"{_symfile[b]}:{b}")
    return sorted(set(out))


def get_trace(job, tier, gb, unwind, prop, wd):
    rc, out, _ = sh(cbmc_cmd(job, tier, gb, unwind, ["--trace"] + ([] if ".unwind." in prop or ".recursion" in prop else ["--property", prop])),
                    timeout=job.timeout[tier], memgb=job.mem * 2, env=solver_env(job, tier, wd))
    res, msgs, err = parse(out)
    if res is None:
        return None
    for r in res:
        if r["property"] == prop and r["status"] == "FAILURE":
            vals = []
            for s in r.get("trace", []):
                if s.get("stepType") == "input" and s.get("inputID") in ("nd", "sched"):
                    v = s["values"][0]
                    b = v.get("binary")
                    vals.append((s["inputID"], int(b, 2) if b else 0))
            return vals
    return None


def build_replay(job, tier, wd):
    exe = f"{wd}/replay"
    inc = []
    for i in job.inc:
        inc += ["-I", f"{H}/{i}"]
    hd = ["-D" + d for d in job.defs[tier].split(",") if d]
    srcs = [f"{REPO}/{s}" if not s.startswith("@") else f"{H}/{s[1:]}" for s in job.srcs]
    san = "address,bounds,null,vla-bound"
    if "so" in job.checks:
        san += ",signed-integer-overflow"
    if "shift" in job.checks:
        san += ",shift"
    if "nodiv" not in job.checks:
        san += ",integer-divide-by-zero"
    cmd = ["gcc", "-g", "-O0", "-w", f"-fsanitize={san}", "-fno-sanitize-recover=all", *inc, *CFLAGS, "-DVH_REPLAY",
           f"-DVH_ENTRY={job.entry}", *hd, *job.ccflags, job.file, *srcs, f"{H}/vh_replay.c", "-o", exe, *job.rflags, "-lpthread", "-lm"]
    rc, out, _ = sh(cmd, timeout=120, memgb=None)
    if rc != 0:
        raise CheckError(f"replay build failed for {job.name}:\n{out[-3000:]}")
    return exe, cmd


def replay(exe, inp):
    """True/False + text: does the real code fail on these values"""
    last = ""
    for fill in ("190", "0", "255"):
        env = dict(os.environ, VH_INPUT=inp,
                   ASAN_OPTIONS=f"detect_leaks=0:exitcode=98:max_malloc_fill_size=4096:malloc_fill_byte={fill}:detect_stack_use_after_return=1:allocator_may_return_null=1:allow_user_poisoning=1:use_sigaltstack=0",
                   UBSAN_OPTIONS="print_stacktrace=0")
        env["ASAN_OPTIONS"] += ":color=never"
        pre = ["setarch", "-R"]
        rc, out, _ = sh([exe], timeout=40, memgb=None, env=env)
        if rc is not None and "Shadow memory" in out:
            rc, out, _ = sh(pre + [exe], timeout=40, memgb=None, env=env)
        last = out
        if rc is None or rc == -signal.SIGALRM:
            return True, "the real code does not terminate on these values (20 s)\n" + out[-1500:]
        if rc == 77:
            continue
        if rc != 0:
            k = out.find("ERROR: AddressSanitizer")
            return True, out[k:k + 3000] if k >= 0 else out[-3000:]
    return False, last[-1500:]


def run_job(job, tier, outdir, verbose):
    t0 = time.time()
    wd = tempfile.mkdtemp(prefix=f"vh-{job.prop}-{job.name}-")
    info = dict(job=job.name, harness=os.path.relpath(job.file, VERIF), entry=job.entry, bounds=job.bound,
                defs=job.defs[tier], unwind=job.unwind[tier], solver=job.solver[tier], status="?",
                obligations=0, discharged=0, reach=0, solver_s=0.0)
    try:
        gb = compile_goto(job, tier, wd)
        fns = reach_fns(gb)
        info["functions"] = repo_functions(job, fns)
        unwind = job.unwind[tier]
        if job.noreplay is False:
            pass
        viol = None
        tried = 0
        while True:
            ts = time.time()
            left = job.timeout[tier] - (time.time() - t0)
            if left < 5:
                raise CheckError(f"{job.name}: out of time at unwind {unwind}")
            rc, out, _ = sh(cbmc_cmd(job, tier, gb, unwind), timeout=left, memgb=job.mem, env=solver_env(job, tier, wd))
            dt = time.time() - ts
            info["solver_s"] += dt
            if rc is None:
                raise CheckError(f"{job.name}: solver timeout after {dt:.0f}s at unwind {unwind}")
            res, msgs, err = parse(out)
            if res is None:
                raise CheckError(f"{job.name}: no verdict from cbmc (rc={rc}): {err or (msgs or [''])[-3:]}")
            q = 0
            for m in msgs:
                mm = re.match(r"Runtime Solver: ([\d.]+)s", m)
                if mm:
                    q += 1
                mm = re.match(r"(\d+) variables, (\d+) clauses", m)
                if mm:
                    info["cnf"] = m
            info["queries"] = info.get("queries", 0) + max(q, 1)
            by = {}
            for r in res:
                by.setdefault(kind(r), []).append(r)
            st = lambda k, s: [r for r in by.get(k, []) if r["status"] == s]
            bad = st("prop", "FAILURE") + st("mem", "FAILURE")
            unk = [r for r in res if r["status"] not in ("SUCCESS", "FAILURE")]
            if unk and not bad and not st("unwind", "FAILURE"):
                raise CheckError(f"{job.name}: {len(unk)} undecided: {unk[0]}")
            if job.known:
                # a recorded finding, pinned to its input: fails => still there
                if st("prop", "FAILURE") or st("mem", "FAILURE") or st("unwind", "FAILURE"):
                    info["status"] = "known-finding"
                else:
                    info["status"] = "fixed"
                info["solver_s"] = round(info["solver_s"], 2)
                return info
            uw = st("unwind", "FAILURE")
            info["unwind"] = unwind
            info["obligations"] = len(res) - len(by.get("reach", []))
            info["discharged"] = sum(1 for r in res if r["status"] == "SUCCESS" and kind(r) != "reach")
            info["reach"] = len(by.get("reach", []))
            if not bad and not uw:
                dead = st("reach", "SUCCESS")
                if dead:
                    raise CheckError(f"{job.name}: vacuous: never reached {[r['description'] for r in dead]}")
                if not by.get("reach"):
                    raise CheckError(f"{job.name}: no reachability witness")
                info["status"] = "holds"
                info["checks"] = sorted({r["description"][6:] for r in by.get("prop", [])})
                break
            # something failed: get values, replay on the real code
            exe, rcmd = build_replay(job, tier, wd)
            why = []
            for r in (bad[:6] if bad else []) or uw[:2]:
                vals = get_trace(job, tier, gb, unwind, r["property"], wd)
                if vals is None:
                    why.append(f"{r['property']}: no trace")
                    continue
                inp = f"{wd}/in.txt"
                loc = r.get("sourceLocation", {})
                with open(inp, "w") as fp:
                    fp.write(f"# {job.prop}/{job.name}: {r['description']} at {loc.get('file','?')}:{loc.get('line','?')}\n")
                    for k, v in vals:
                        fp.write(f"{v}\n")
                ok, text = replay(exe, inp)
                if ok:
                    rd = f"{outdir}/{job.name}"
                    shutil.rmtree(rd, ignore_errors=True)
                    os.makedirs(rd, exist_ok=True)
                    shutil.copy(inp, f"{rd}/inputs.txt")
                    with open(f"{rd}/run.sh", "w") as fp:
                        fp.write("#!/bin/sh\n# rebuilds the harness natively and replays the solver's values\n"
                                 'd=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d)\n' +
                                 " ".join(shlex.quote(x) if x != exe else '"$t/replay"' for x in rcmd) +
                                 ' && VH_INPUT="$d/inputs.txt" ASAN_OPTIONS=detect_leaks=0:max_malloc_fill_size=4096 "$t/replay"; rc=$?\nrm -rf "$t"; exit $rc\n')
                    with open(f"{rd}/report.txt", "w") as fp:
                        fp.write(f"property {job.prop}, job {job.name}\nsolver: {r['description']} at {loc}\nvalues: {vals}\n\nnative replay:\n{text}\n")
                    viol = (f"{rd}/inputs.txt", r["description"], text)
                    break
                why.append(f"{r['property']} ({r['description']}) did not reproduce: {text.strip()[-300:]}")
            if viol:
                info["status"] = "violated"
                info["violation"] = dict(what=viol[1], replay=viol[0], native=viol[2][:800])
                if tier == "quick" and not os.environ.get("VH_ALL"):
                    stop_all()      # the verdict is settled
                break
            if uw and tried < 3 and (not job.maxunwind or unwind < job.maxunwind):
                tried += 1
                unwind = unwind * 2 if not job.maxunwind else min(unwind * 2, job.maxunwind)
                continue
            raise CheckError(f"{job.name}: counterexample(s) not confirmed natively: " + "; ".join(why))
    except CheckError as e:
        info["status"] = "stopped" if STOP.is_set() else "error"
        info["error"] = str(e)
    finally:
        shutil.rmtree(wd, ignore_errors=True)
    info["solver_s"] = round(info["solver_s"], 2)
    info["wall_s"] = round(time.time() - t0, 2)
    return info


def known_findings():
    out = {}
    p = f"{VERIF}/known-findings.txt"
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r"known: property=(\w+) id=(\S+) (.*)", ln.strip())
            if m:
                out[(m.group(1), m.group(2))] = m.group(3)
    return out


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--job")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("-j", type=int, default=NCPU)
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    jobs = [j for j in load_jobs() if j.prop == a.prop and (not a.job or re.fullmatch(a.job, j.name))
            and (j.tier == "both" or j.tier == a.tier)]
    if not jobs:
        print(f"no jobs for {a.prop}", file=sys.stderr)
        return 2
    kf = known_findings()
    outdir = f"{VERIF}/replays/{a.prop}"
    shutil.rmtree(outdir, ignore_errors=True)
    jobs.sort(key=lambda j: -j.weight)
    w = a.j if a.tier == "quick" else max(1, a.j // 2)
    if a.tier == "quick":
        timer = threading.Timer(float(os.environ.get("VH_DEADLINE", "820")), stop_all)
        timer.daemon = True
        timer.start()
    with ThreadPoolExecutor(w) as ex:
        infos = list(ex.map(lambda j: run_job(j, a.tier, outdir, a.v), jobs))
    rc = 0
    viol = [i for i in infos if i["status"] == "violated"]
    errs = [i for i in infos if i["status"] in ("error", "stopped")]
    seen_kf = []
    for j, i in zip(jobs, infos):
        if i["status"] == "known-finding":
            if (a.prop, j.known) in kf:
                print(f"KNOWN-FINDING: property={a.prop} {kf[(a.prop, j.known)]}")
                seen_kf.append(j.known)
            else:
                print(f"{i['job']}: pinned finding {j.known} is not in known-findings.txt", file=sys.stderr)
                errs.append(dict(job=i["job"], error="unlisted known finding", status="error"))
    for i in infos:
        if a.v or (i["status"] in ("error", "stopped") and not viol):
            print(f"[{i['status']}] {i['job']}: unwind={i['unwind']} obligations={i['obligations']} discharged={i['discharged']} reach={i['reach']} "
                  f"{i['solver_s']}s {i.get('error','')}", file=sys.stderr)
            if i["status"] == "violated":
                print("   ", i["violation"]["what"], "\n", i["violation"]["native"][:500], file=sys.stderr)
            if a.v:
                sys.stderr.flush()
    for i in viol:
        print(f"# {i['job']}: {i['violation']['what']}")
        print(f"VIOLATION property={a.prop} replay={i['violation']['replay']}")
        rc = 1
    if not viol and errs:
        rc = 2
    if not a.job:
        fns = sorted({f for i in infos for f in i.get("functions", [])})
        ev = dict(property=a.prop, tier=a.tier, seed=seed, level="other", wall_s=round(time.time() - t0, 2),
                  violations=len(viol),
                  coverage=dict(
                      explanation="CBMC bounded model checking of /repo's current source: every listed function is executed symbolically "
                                  "and every obligation (property assertion, memory-safety assertion, unwinding assertion) is decided by a SAT "
                                  "solver for all values within the bounds of its job; nothing is claimed outside those bounds.",
                      functions_encoded=fns,
                      obligations=sum(i["obligations"] for i in infos),
                      discharged=sum(i["discharged"] for i in infos),
                      reachability_witnesses=sum(i["reach"] for i in infos),
                      queries=sum(i.get("queries", 0) for i in infos),
                      solver_s=round(sum(i["solver_s"] for i in infos), 2),
                      known_findings=seen_kf,
                      jobs=infos,
                      checker_cmd="cbmc 6.11.0 (goto-cc from source), replay gcc -fsanitize=address",
                      trusted_base=["CBMC 6.11.0 and its SAT back end", "CBMC's C library models and harness/models.c",
                                    "the harness and reference models under /verif/harness"]),
                  assumptions=["x86_64, 64-bit little-endian, sequentially consistent memory unless a job says otherwise",
                               "malloc succeeds unless a job says otherwise"])
        os.makedirs(f"{VERIF}/evidence", exist_ok=True)
        with open(f"{VERIF}/evidence/{a.prop}.json", "w") as fp:
            json.dump(ev, fp, indent=1)
    return rc


if __name__ == "__main__":
    try:
        sys.exit(main())
    except KeyboardInterrupt:
        for p in list(LIVE):
            try:
                os.killpg(p, signal.SIGKILL)
            except OSError:
                pass
        sys.exit(2)
