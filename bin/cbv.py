#!/usr/bin/env python3
"""Model-based verification of boost::circular_buffer.

    cbv.py check <PROPERTY>            decide one property (VERIF_TIER, VERIF_SEED); exit 0 / 1 (VIOLATION) / 2 (error)
    cbv.py replay <FILE>               run one recorded violation again
    cbv.py model                       check the specification itself with TLC

Pipeline of a check: TLC generates behaviours of spec/CBSys.tla (plans); harness/driver.cpp, compiled against the
sources in /repo in several configurations, executes them and records what the real code did; TLC validates every
recorded run against spec/CBTrace.tla, which decides the property.
"""
import concurrent.futures as cf
import glob, hashlib, json, os, re, resource, shutil, subprocess, sys, tempfile, time, zlib

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("CB_REPO", "/repo")
SPEC = os.path.join(ROOT, "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
CORES = os.cpu_count() or 4
OUT = os.environ.get("CBV_OUT", ROOT)      # where replays/ and evidence/ go

sys.path.insert(0, os.path.join(ROOT, "bin"))
from profiles import CONFIGS, jobs_for  # noqa: E402


class CheckError(Exception):
    pass


def tla(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, str):
        return '"' + v + '"'
    if isinstance(v, (set, frozenset, list, tuple)):
        return "{" + ", ".join(tla(x) for x in sorted(v, key=lambda z: (str(type(z)), z))) + "}"
    return str(v)


def run_tlc(work, tag, module, consts, extra, xmx="2g", timeout=800, workers=1, invs=(), out=None):
    d = os.path.join(work, tag)
    os.makedirs(d, exist_ok=True)
    cfg = os.path.join(d, "m.cfg")
    with open(cfg, "w") as f:
        f.write("CONSTANTS\n")
        for k in sorted(consts):
            f.write(" %s = %s\n" % (k, tla(consts[k])))
        f.write("SPECIFICATION Spec\n")
        for v in invs:
            f.write("INVARIANT %s\n" % v)
        f.write("CHECK_DEADLOCK FALSE\n")
    outf = os.path.join(d, "out.txt")
    cmd = ["java"] + (["-XX:TieredStopAtLevel=1"] if module == "CBSys" or TIER != "thorough" else []) + ["-XX:+UseSerialGC", "-Xshare:auto", "-Xmx" + xmx, "-Xss64m", "-Djava.io.tmpdir=" + d,
           "-cp", CP, "tlc2.TLC", "-workers", str(workers), "-metadir", os.path.join(d, "md"), "-config", cfg] + extra + \
          [os.path.join(SPEC, module + ".tla")]
    with open(outf, "w") as o:
        try:
            r = subprocess.run(cmd, stdout=o, stderr=subprocess.STDOUT, timeout=timeout, cwd=d)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timed out on %s" % tag)
    return r.returncode, outf


# ---------------------------------------------------------------- plans
def gen_plan(work, key, prof):
    """TLC enumerates (or simulates) behaviours of CBSys; returns the list of plans."""
    tg = time.time()
    c = dict(prof["c"])
    c["Emitting"] = True
    if prof.get("sim"):
        extra = ["-simulate", "num=%d" % prof["sim"], "-depth", str(c["Depth"] + 2), "-seed", str(SEED * 1000 + prof.get("seed", 0))]
        workers = 1
    else:
        extra = []
        workers = 2
    rc, outf = run_tlc(work, "gen_" + key, "CBSys", c, extra, invs=("Emit", "TypeOK"), workers=workers)
    if os.environ.get("CBV_VERBOSE"):
        print("gen %s %s sim=%s: %.1f s" % (prof["name"], key, prof.get("sim"), time.time() - tg))
    plans, ok, states = [], False, 0
    with open(outf) as f:
        for line in f:
            if line.startswith('"PLAN '):
                plans.append(line.strip()[6:-1])
            elif "No error has been found" in line or line.startswith("Finished in"):
                ok = True
            elif line.startswith("Error:"):
                ok = False
                break
            m = re.match(r"(\d+) states generated", line) or re.match(r"The number of states generated: (\d+)", line)
            if m:
                states = int(m.group(1))
    if not ok or rc != 0 or not plans:
        raise CheckError("plan generation failed for %s (rc %d, %d plans): %s" % (key, rc, len(plans), open(outf).read()[-1500:]))
    if not prof.get("sim"):
        plans.sort()
    shutil.rmtree(os.path.join(work, "gen_" + key), ignore_errors=True)
    return plans, states


def last_call(plan):
    """the kind of the last call of a plan"""
    z = plan.split()
    n, last = 1, ("", "")
    while n < len(z):
        if z[n] == "M":
            last = (z[n + 1], z[n + 4], z[n + 5], z[n + 2] == z[n + 3])
        n += 12 + int(z[n + 11])
    return last


def sample(plans, stride, least=24):
    """every stride-th plan of every kind of call in an order drawn from the seed (at least `least` of each kind)"""
    if stride <= 1:
        return plans
    groups = {}
    for z in plans:
        groups.setdefault(last_call(z), []).append(z)
    out = []
    for k in sorted(groups):
        g = sorted(groups[k], key=lambda z: zlib.crc32(("%d %s" % (SEED, z)).encode()))
        out += g[:max(least, (len(g) + stride - 1) // stride)]
    return out


# ---------------------------------------------------------------- driver
# most configurations are compiled by g++ as C++17; some otherwise, as what the library does may not depend on it
STD = dict(K="c++20", L="c++20", R="c++20", U="c++20", J="c++14", S="c++14", N="c++14")
CLANG = {"S", "V", "T", "M"}
NDEBUG = {"N", "P"}


def compile_driver(work, cfg):
    exe = os.path.join(work, "drv_" + cfg)
    c = CONFIGS[cfg]
    cxx = "clang++" if cfg in CLANG and shutil.which("clang++") else "g++"
    cmd = [cxx, "-std=" + STD.get(cfg, "c++17"), "-O0", "-w", "-I" + os.path.join(REPO, "include")] + (["-DNDEBUG"] if cfg in NDEBUG else []) + \
          ["-DCFG_%s=%d" % (k, int(v)) for k, v in c.items()] + [os.path.join(ROOT, "harness", "driver.cpp"), "-o", exe]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
    if r.returncode != 0:
        return None, r.stdout
    return exe, ""


def compiler_works(work):
    p = os.path.join(work, "sane.cpp")
    open(p, "w").write("#include <map>\n#include <string>\n#include <boost/assert.hpp>\nint main(){std::map<int,std::string> m; return int(m.size());}\n")
    return subprocess.run(["g++", "-std=c++17", "-O0", p, "-o", p + ".exe"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0


def run_driver(exe, plan, out, flags):
    def lim():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    try:
        r = subprocess.run([exe, plan, out] + flags, timeout=500, preexec_fn=lim, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    except subprocess.TimeoutExpired:
        raise CheckError("driver timed out")
    if r.returncode != 0:
        raise CheckError("driver failed with %d" % r.returncode)


VIOL = re.compile(r'^<<"VIOL", "([^"]*)", (\d+), (\d+), "([^"]*)", (.*)>>$')


def validate(work, tag, nd, props, xmx="3g"):
    if os.path.getsize(nd) == 0:
        return [], 0
    rc, outf = run_tlc(work, tag, "CBTrace", dict(File=nd, Props=set(props)), [], xmx=xmx)
    viols, states, ok = [], 0, False
    txt = open(outf).read()
    buf = None
    for line in txt.split("\n"):
        # TLC wraps long tuples over several lines
        if line.startswith('<<"VIOL"') or line.startswith('<< "VIOL"'):
            buf = line.replace('<< "VIOL"', '<<"VIOL"')
        elif buf is not None:
            buf += " " + line.strip()
        if buf is not None and buf.rstrip().endswith(">>") and buf.count("<<") == buf.count(">>"):
            b = re.sub(r"\s+", " ", buf.rstrip()).replace("} >>", "}>>")
            buf = None
            m = VIOL.match(b)
            if not m:
                raise CheckError("unparsable TLC output: " + b)
            viols.append(dict(id=m.group(1), f=int(m.group(2)), i=int(m.group(3)), o=m.group(4), bad=re.findall(r'<<"(C\d\d)", "([^"]*)">>', m.group(5))))
        m = re.match(r"(\d+) states generated, (\d+) distinct", line)
        if m:
            states = int(m.group(1))
        if "No error has been found" in line:
            ok = True
    if not ok or rc != 0:
        raise CheckError("TLC did not complete on %s: %s" % (tag, txt[-3000:]))
    shutil.rmtree(os.path.join(work, tag), ignore_errors=True)
    return viols, states


def drive(work, exe, flags, tag, lines):
    """runs the plans on the real code"""
    plan = os.path.join(work, tag + ".plan")
    nd = os.path.join(work, tag + ".nd")
    with open(plan, "w") as f:
        f.write("".join(l + "\n" for l in lines))
    run_driver(exe, plan, nd, flags)
    os.unlink(plan)
    return nd


def known_findings(prop):
    out = []
    p = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known: "):
                d = json.loads(line[7:])
                if d.get("property") == prop:
                    out.append(d)
    return out


def matches(kf, cfg, v, ev):
    """does violation v (its event record ev) match the known finding kf?"""
    if kf.get("tags") and not all(t in kf["tags"] for _, t in v["bad"]):
        return False
    if kf.get("configs") and cfg not in kf["configs"]:
        return False
    for k, want in kf.get("event", {}).items():
        if ev is None or ev.get(k) not in (want if isinstance(want, list) else [want]):
            return False
    return True


def check(prop):
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="cbv_%s_" % prop, dir=os.environ.get("CBV_TMP", "/tmp"))
    try:
        return check_in(prop, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def check_in(prop, work, t0):
    jobs = jobs_for(prop, TIER)
    cfgs = sorted({j["cfg"] for j in jobs})
    profs = {}
    for j in jobs:
        for p, _ in j["profiles"]:
            p["key"] = hashlib.sha1(json.dumps([{k: sorted(map(str, v)) if isinstance(v, (set, frozenset)) else v for k, v in p["c"].items()},
                                                p.get("sim"), p.get("seed")], sort_keys=True).encode()).hexdigest()[:12]
            profs[p["key"]] = p
    replays = os.path.join(OUT, "replays")
    os.makedirs(replays, exist_ok=True)
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    for old in glob.glob(os.path.join(replays, prop + "-*")):
        os.unlink(old)
    stats = dict(states=0, runs=0, plans=0, gen_states=0, models=[])
    viols = []       # (cfg, exe, flags, violation, plan line)
    samples = []
    with cf.ThreadPoolExecutor(CORES) as ex:
        fc = {c: ex.submit(compile_driver, work, c) for c in cfgs}
        fp = {k: ex.submit(gen_plan, work, k, p) for k, p in sorted(profs.items(), key=lambda z: -z[1].get("weight", 1))}
        fm = [ex.submit(model_run, work, i, r, 1) for i, r in enumerate(model_runs(TIER == "thorough", prop))]
        exes = {}
        for c, f in fc.items():
            exes[c], log = f.result()
            if exes[c] is None:
                if not compiler_works(work):
                    raise CheckError("the compiler does not work: " + log[-2000:])
                path = os.path.join(replays, "%s-compile-%s.json" % (prop, c))
                json.dump(dict(property=prop, config=c, kind="compile", log=log[-6000:]), open(path, "w"), indent=1)
                print("the public API no longer compiles with configuration %s (%s)" % (c, CONFIGS[c]))
                print("VIOLATION property=%s replay=%s" % (prop, path))
                write_evidence(prop, stats, [], jobs, time.time() - t0, 1)
                return 1
        plans = {}
        for k, f in fp.items():
            plans[k], s = f.result()
            stats["gen_states"] += s
        stats["t1"] = time.time() - t0; stats["bytes"] = 0
        futs, lines_of, shard_of, seen = [], {}, {}, set()
        for jn, j in enumerate(jobs):
            lines = []
            for p, stride in j["profiles"]:
                keep = j["keep"]
                pl = [z for z in plans[p["key"]] if keep(z)]
                for z in sample(pl, stride):
                    fl, rest = z.split(" ", 1)
                    lines.append("C %s%d-%s-%d %s %s" % (j["cfg"], jn, p["name"], len(lines), fl, rest + j["epi"]))
                if pl:
                    samples.append(dict(config=j["cfg"], profile=p["name"], plan=pl[len(pl) // 2][:300]))
            if not lines:
                raise CheckError("no plans for configuration %s" % j["cfg"])
            stats["plans"] += len(lines)
            for l in lines:
                lines_of[l.split(" ", 2)[1]] = (j, l)
            nsh = max(1, min(CORES, (len(lines) + 499) // 500))
            for k in range(nsh):
                part = lines[k::nsh]
                futs.append(ex.submit(drive, work, exes[j["cfg"]], j["flags"], "j%d_%d" % (jn, k), part))
                for l in part:
                    shard_of[l.split(" ", 2)[1]] = part
        nds = [f.result() for f in futs]
        # distribute the recordings over shards for TLC
        total = sum(os.path.getsize(f) for f in nds)
        nsh = max(CORES, (total + 19_999_999) // 20_000_000)
        outs = [open(os.path.join(work, "shard%d.nd" % k), "w") for k in range(nsh)]
        fill = [0] * nsh
        for f in nds:
            for line in open(f):
                k = fill.index(min(fill)) if nsh <= 16 else stats["runs"] % nsh
                outs[k].write(line)
                fill[k] += len(line) + 300
                stats["runs"] += 1
                seen.add(line[7:line.index('"', 7)])
            os.unlink(f)
        for o in outs:
            o.close()
        stats["bytes"] = total
        stats["t2"] = time.time() - t0
        vf = [ex.submit(validate, work, "v%d" % k, os.path.join(work, "shard%d.nd" % k), [prop]) for k in range(nsh)]
        for f in vf:
            v, n = f.result()
            stats["states"] += n
            for x in v:
                j, l = lines_of.get(x["id"], (None, None))
                viols.append((j, x, l))
        for f in fm:
            ok, r, txt, _ = f.result()
            if not ok:
                raise CheckError("the model does not hold: %s\n%s" % (r["model"], txt[-1500:]))
            stats["models"].append(r)
        lost = set(lines_of) - seen
        if lost and not viols:
            raise CheckError("no recording for %d plans, e.g. %s" % (len(lost), sorted(lost)[0]))
    # report, after confirming by a second run
    if os.environ.get("CBV_VERBOSE"):
        print("phases: compile+generate until %.1f, recorded %.1f (%d MB), done %.1f" % (stats["t1"], stats["t2"], stats["bytes"] >> 20, time.time() - t0))
    rc = 0
    kfs = known_findings(prop)
    hit, groups = set(), {}
    lostrun = dict(cfg="?", flags=[])
    for j, v, line in viols:
        j = j or lostrun
        groups.setdefault((j["cfg"] if j else "?", v["o"], tuple(v["bad"])), []).append((j, v, line))
    nrep = 0
    for key, items in sorted(groups.items(), key=lambda z: str(z[0])):
        items.sort(key=lambda z: len(z[2] or ""))
        fresh = []
        for j, v, line in items:
            if not kfs:
                fresh.append((j, v, line, None))
            else:
                ev = event_of(work, exes[j["cfg"]], j, v, line)
                m = [k for k in kfs if matches(k, j["cfg"], v, ev)]
                if m:
                    hit.update(k["id"] for k in m)
                else:
                    fresh.append((j, v, line, ev))
        for j, v, line, ev in fresh[:4]:
            again, run = confirm(work, prop, j, exes[j["cfg"]], v, line)
            if not again and line is not None:      # it may depend on what the process had done before
                again, run = confirm(work, prop, j, exes[j["cfg"]], v, line, shard_of.get(v["id"]))
            if not again:
                print("unconfirmed: %s %s %s" % (j["cfg"], v["o"], v["bad"]))
                continue
            nrep += 1
            path = os.path.join(replays, "%s-%d.json" % (prop, nrep))
            json.dump(dict(property=prop, config=j["cfg"], flags=j["flags"], plan=line, violation=v, seed=SEED, run=run), open(path, "w"), indent=1)
            if nrep <= 12:
                print("configuration %s, call '%s', failure %d: %s (%d runs like it)" % (j["cfg"], v["o"], v["f"], "; ".join(t for _, t in v["bad"]), len(items)))
                print("VIOLATION property=%s replay=%s" % (prop, path))
            rc = 1
            break
    if groups and rc == 0 and not hit:
        raise CheckError("rejections that did not repeat")
    for k in kfs:
        if k["id"] in hit:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    write_evidence(prop, stats, samples, jobs, time.time() - t0, nrep)
    print("%s: %d plans, %d runs of the real code, %d states checked, %.1f s, %s" %
          (prop, stats["plans"], stats["runs"], stats["states"], time.time() - t0, "violated" if rc else "ok"))
    return rc


def event_of(work, exe, j, v, line):
    run = single(work, exe, j, v, line)
    return run["ev"][v["i"]] if run and v["i"] < len(run["ev"]) else None


def single(work, exe, j, v, line):
    if line is None:
        return None
    p, o = os.path.join(work, "one.plan"), os.path.join(work, "one.nd")
    open(p, "w").write(line + "\n")
    run_driver(exe, p, o, j["flags"])
    for l in open(o):
        d = json.loads(l)
        if d["f"] == v["f"]:
            return d
    return None


def confirm(work, prop, j, exe, v, line, lines=None):
    if line is None:   # the process died without telling which call did it
        return True, None
    p, o, o1 = [os.path.join(work, "one" + z) for z in (".plan", ".nd", ".1.nd")]
    open(p, "w").write("".join(l + "\n" for l in (lines or [line])))
    run_driver(exe, p, o, j["flags"])
    run = None
    with open(o1, "w") as f:
        for l in open(o):
            if l.startswith('{"id":"%s"' % v["id"]):
                f.write(l)
                d = json.loads(l)
                if d["f"] == v["f"]:
                    run = d
    vs, _ = validate(work, "confirm", o1, [prop])
    return any(x["f"] == v["f"] for x in vs), run


def write_evidence(prop, stats, samples, jobs, wall, nviol):
    ms = sum(r["distinct_states"] for r in stats["models"])
    ev = dict(property=prop, tier=TIER if TIER in ("quick", "thorough") else "quick", seed=SEED, level="model_checking",
              coverage=dict(states=stats["states"] + stats["gen_states"] + ms,
                            transitions=max(0, stats["states"] - stats["runs"]) + stats["gen_states"] + sum(r["states_generated"] for r in stats["models"]),
                            traces_validated_against_impl=stats["runs"], plans_generated_by_tlc=stats["plans"],
                            spec_states_generated=stats["gen_states"], trace_states_checked=stats["states"], design_models=stats["models"],
                            configurations=sorted({j["cfg"] for j in jobs}), profiles=sorted({p["name"] for j in jobs for p, _ in j["profiles"]}),
                            samples=samples[:12]),
              assumptions=["g++ compiles the driver and /repo's headers correctly", "TLC evaluates the specification correctly",
                           "behaviour outside the enumerated layouts, arguments and histories is not observed"],
              wall_s=round(wall, 2), violations=nviol)
    json.dump(ev, open(os.path.join(OUT, "evidence", prop + ".json"), "w"), indent=1)


def replay(path):
    d = json.load(open(path))
    work = tempfile.mkdtemp(prefix="cbv_replay_")
    try:
        exe, log = compile_driver(work, d["config"])
        if exe is None:
            print(log[-3000:])
            return 1
        if d.get("kind") == "compile":
            print("compiles")
            return 0
        j = dict(cfg=d["config"], flags=d["flags"])
        p, o = os.path.join(work, "one.plan"), os.path.join(work, "one.nd")
        open(p, "w").write(d["plan"] + "\n")
        run_driver(exe, p, o, j["flags"])
        vs, _ = validate(work, "confirm", o, [d["property"]])
        for v in vs:
            print(v)
        runs = [json.loads(l) for l in open(o)]
        for r in runs:
            if any(v["f"] == r["f"] for v in vs) or not vs:
                for e in r["ev"][-3:]:
                    print(json.dumps(e))
                break
        return 1 if vs else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def setup():
    """nothing has to be built ahead of the checks: make sure that the tools work and the specification parses"""
    for m in ("CB", "CBSys", "CBTrace", "CBImpl", "CBLaws", "CBMem"):
        r = subprocess.run(["java", "-cp", CP, "tla2sany.SANY", m + ".tla"], cwd=SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0 or "*** Errors" in r.stdout:
            print(r.stdout)
            return 2
    return 0


# ---------------------------------------------------------------- the specification itself
def model_runs(thorough, prop=None):
    """the models TLC checks: name, module, constants, invariants; those concerned with a property, or all"""
    from profiles import DEF, ALL1
    d = dict(DEF)
    d.update(Sim=False, Ops=ALL1 | {"new", "del", "asg", "swp"}, NB=2, NX=2, Targets={0, 1}, Depth=2 if thorough else 1, Caps={0, 1, 2}, Caps1={0, 2}, Ts={0}, Ls={0, 1, 3},
             Ns={0, 1, 3}, Cs={0, 2, 3}, Ks={0}, Emitting=False)
    impl = ["NoError", "WellFormed", "Refines", "Basic", "StrongRule", "NoThrow", "NoThrowNT", "Stays"]
    laws = ["Bounded", "Mirror", "MirrorSurv", "Single", "Erasing", "Rotation", "Sizes", "Validity", "Order"]
    mem = ["Enough", "NotMore", "Floor", "NoWaste", "Amortized"]
    top = 7 if thorough else 6 if prop is None else 5
    ip = {"C01", "C02", "C03", "C04", "C05", "C07", "C10", "C13", "C14", "C15", "C16"}
    lp = {"C01", "C02", "C03", "C04", "C07", "C08", "C09", "C16"}
    runs = [({"C06"}, "CBSys, plain buffers", "CBSys", d, ["TypeOK"]),
            ({"C19"}, "CBSys, space optimized buffers", "CBSys", dict(d, SO=True, Ms={7000, 8001}, Mins={0, 1}), ["TypeOK"])]
    for nt in (False, True):
        runs.append((ip, "CBImpl, %s" % ("moves that do not throw" if nt else "elements copied"), "CBImpl",
                     dict(SO=False, MAXSZ=1000, Caps=set(range(top + 1)), NT=nt, MaxN=2, MaxK=2 * top + 2), impl))
    for al, cs in ((0, range(top)), (2, range(4))):
        runs.append((lp, "CBLaws, alphabet %d" % al, "CBLaws", dict(SO=False, MAXSZ=1000, Caps=set(cs), MaxN=2, Alpha=al), laws))
    runs.append(({"C20"}, "CBMem, capacities may change", "CBMem", dict(MaxCap=16 if thorough else 12, Mins={0, 1, 2, 3, 5, 8, 12}, Credit=6, Slack=0, Changes=True), mem))
    runs.append(({"C20"}, "CBMem, fixed capacity", "CBMem", dict(MaxCap=40 if thorough else 25, Mins={0, 1, 4, 7, 20}, Credit=6, Slack=0, Changes=False), mem))
    return [z[1:] for z in runs if prop is None or prop in z[0]]


def model_run(work, i, run, workers):
    name, mod, consts, invs = run
    t = time.time()
    rc, out = run_tlc(work, "m%d" % i, mod, consts, ["-noGenerateSpecTE"], xmx="6g" if workers > 1 else "2g", timeout=3000 if workers > 1 else 800, workers=workers, invs=invs)
    txt = open(out).read()
    m = re.search(r"(\d+) states generated, (\d+) distinct", txt)
    ok = rc == 0 and "No error has been found" in txt and m is not None
    return ok, dict(model=name, invariants=invs, states_generated=int(m.group(1)) if m else 0, distinct_states=int(m.group(2)) if m else 0), txt, time.time() - t


def model():
    work = tempfile.mkdtemp(prefix="cbvmodel")
    bad = 0
    try:
        for i, run in enumerate(model_runs(TIER == "thorough")):
            ok, r, txt, t = model_run(work, i, run, 8)
            print("%-45s %s, %d states generated, %d distinct, %.1f s" % (run[0], "ok" if ok else "FAILED", r["states_generated"], r["distinct_states"], t))
            if not ok:
                bad = 1
                print(txt[-3000:])
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return bad


def main():
    try:
        if sys.argv[1] == "model":
            return model()
        if sys.argv[1] == "check":
            return check(sys.argv[2])
        if sys.argv[1] == "setup":
            return setup()
        if sys.argv[1] == "replay":
            return replay(sys.argv[2])
    except CheckError as e:
        print("ERROR: %s" % e)
        return 2
    return 2


if __name__ == "__main__":
    sys.exit(main())
