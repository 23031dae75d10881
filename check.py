#!/usr/bin/env python3
"""Decide one property by seeded deterministic simulation.

  check.py <ID> [TIER]      build from /repo's working tree, search, report
  check.py --replay <FILE>  rebuild the variant named in FILE, replay it
  check.py --list

Environment: VERIF_SEED (default 1), VERIF_TIER quick|thorough (default quick; TIER comes first),
VERIF_REPO (default /repo), VERIF_JOBS, VERIF_BUDGET (seconds of search in all).
Exit 0: held on everything explored; 1: VIOLATION line printed; 2: no verdict.
"""
import hashlib, json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
import compare  # noqa: E402
from props import PROPS, VARIANTS  # noqa: E402

JOBS = int(os.environ.get("VERIF_JOBS", str(os.cpu_count() or 4)))
WRAP = "-Wl,-z,muldefs," + ",".join("--wrap=" + f for f in ("memcpy", "memmove", "memset", "malloc", "calloc", "realloc", "aligned_alloc", "posix_memalign"))
INSTR = ["-fsanitize=thread", "-fno-threadsafe-statics", "-mmemcpy-strategy=libcall:-1:noalign",
         "-mmemset-strategy=libcall:-1:noalign", "-fno-builtin-memcpy", "-fno-builtin-memmove"]


class BuildError(Exception):
    pass


class SomeBuildsFail(Exception):
    """Some configurations build and others do not."""

    def __init__(self, failed, good):
        Exception.__init__(self, "%s do not build, %s do" % (sorted(failed), sorted(good)))
        self.failed, self.good = failed, good


def spec_of(variant):
    """A variant's compiler and flags; NAME-reduced is NAME with fewer user-supplied types."""
    base = variant[:-8] if variant.endswith("-reduced") else variant
    s = VARIANTS[base]
    return dict(s, flags=s["flags"] + ["-DREDUCED"]) if base != variant else s


def probe_dir():
    return os.path.join(HERE, "harness", "probes")


def compile_probe(name):
    """Compile one small user program; returns (ok, compiler output)."""
    out = ""
    for std in ("c++11", "gnu++17"):
        r = sh(["g++", "-std=" + std, "-fsyntax-only", "-w", "-I" + os.path.join(REPO, "include"), os.path.join(probe_dir(), name)])
        if r.returncode != 0:
            out += "g++ -std=%s:\n%s\n" % (std, r.stdout[-3000:])
    return not out, out


def failing_probe(pid):
    """The first of the property's user programs that the headers no longer accept."""
    for name in sorted(os.listdir(probe_dir())):
        with open(os.path.join(probe_dir(), name)) as f:
            first = f.readline()
        if first.startswith("// properties:") and pid in first.split():
            ok, out = compile_probe(name)
            if not ok:
                return name, out
    return None


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def compile_one(args):
    cmd, what = args
    r = sh(cmd)
    if r.returncode != 0:
        raise BuildError("building %s failed:\n%s\n%s" % (what, " ".join(cmd), r.stdout[-4000:]))


def build(pid, variants, bdir):
    """Compile runtime + harness for each variant; returns {variant: binary}."""
    p = PROPS[pid]
    plain = p.get("plain", False)
    inc = ["-I" + os.path.join(REPO, "include"), "-I" + HERE]
    jobs = [(["g++", "-std=gnu++17", "-O2", "-g1", "-w", "-c", os.path.join(HERE, "sim/runtime.cpp"),
              "-o", os.path.join(bdir, "runtime.o")], "runtime", None)]
    links = []
    for v in variants:
        spec = spec_of(v)
        objs = []
        for src, parts in p["sources"]:
            for part in range(parts):
                o = os.path.join(bdir, "%s-%s-%d.o" % (v, os.path.basename(src), part))
                jobs.append(([spec.get("cxx", "g++"), "-g1", "-w"] + spec["flags"] + ([] if plain else INSTR) + inc +
                             ["-DONLY"] + ["-DONLY_%s=1" % q for q in [pid] + p.get("with", [])] + ["-DPART=%d" % part, "-c", os.path.join(HERE, src), "-o", o],
                             "%s (%s)" % (src, v), v))
                objs.append(o)
        b = os.path.join(bdir, "sim-" + v)
        links.append((["g++", WRAP] + objs + [os.path.join(bdir, "runtime.o"), "-o", b], b, v))

    def go(job):
        try:
            compile_one(job[:2])
            return None
        except BuildError as e:
            return job[2], str(e)
    with ThreadPoolExecutor(max_workers=JOBS) as ex:
        failed = {}
        for r in ex.map(go, jobs):
            if r:
                failed.setdefault(r[0], r[1])
    out = {}
    for cmd, b, v in links:
        if v not in failed and None not in failed:
            r = go((cmd, v, v))
            if r:
                failed[v] = r[1]
            else:
                out[v] = b
    if failed and p.get("compare") and None not in failed and out:
        raise SomeBuildsFail(failed, out)
    if failed:
        raise BuildError(next(iter(failed.values())))
    return out


def replay_binary(binary, path, extra=()):
    r = sh([binary, "--replay", path] + list(extra), timeout=200)
    return r.returncode, r.stdout


def do_replay(path):
    meta = {}
    with open(path) as f:
        for line in f:
            if line.startswith("#") or line.startswith("choices"):
                continue
            k, _, v = line.strip().partition(" ")
            meta.setdefault(k, v)
    pid, var = meta["property"], meta["variant"]
    if PROPS[pid].get("compare"):
        with tempfile.TemporaryDirectory(prefix="verif-") as bdir:
            try:
                bins = build(pid, [var, meta["other"]], bdir)
            except SomeBuildsFail as e:
                print(next(iter(e.failed.values())))
                print("REPLAY kind=build EXACT")
                return 1
            if meta["kind"] == "build":
                print("REPLAY kind=none")
                return 0
            return compare.replay(path, meta, bins)
    if meta["kind"] == "build":
        ok, out = compile_probe(meta["probe"])
        print(out or "%s compiles" % meta["probe"])
        print("REPLAY kind=none" if ok else "REPLAY kind=build EXACT")
        return 0 if ok else 1
    with tempfile.TemporaryDirectory(prefix="verif-") as bdir:
        b = build(pid, [var], bdir)[var]
        rc, out = replay_binary(b, path, ["--trace"])
    sys.stdout.write(out)
    return rc


def main():
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        return do_replay(sys.argv[2])
    if len(sys.argv) == 2 and sys.argv[1] == "--list":
        for k, p in PROPS.items():
            print(k, p["title"])
        return 0
    pid = sys.argv[1]
    p = PROPS[pid]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    rdir = os.path.join(HERE, "replays")
    edir = os.path.join(HERE, "evidence")
    os.makedirs(rdir, exist_ok=True)
    os.makedirs(edir, exist_ok=True)
    evid = os.path.join(edir, pid + ".json")
    if os.path.exists(evid):
        os.unlink(evid)
    variants = p.get("variants", ["debug", "release"])
    bdir = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    try:
        try:
            bins = build(pid, variants, bdir)
        except BuildError as e:
            if p.get("compare"):
                raise
            ok, out = compile_probe("all_headers.cpp")
            if not ok:
                print(out)
                raise
            bad = failing_probe(pid)
            if bad:
                rep = os.path.join(rdir, "%s.replay" % pid)
                with open(rep, "w") as f:
                    f.write("# libembedded deterministic-simulation replay\nproperty %s\nvariant debug\nkind build\nprobe %s\n" % (pid, bad[0]))
                    f.write("# harness/probes/%s, a program any user may write, does not compile:\n" % bad[0])
                    f.writelines("#   %s\n" % x for x in bad[1].splitlines())
                write_evidence(pid, p, tier, seed, [], t0, time.time() - t0, 1, evid)
                with open(rep) as f:
                    sys.stdout.write(f.read())
                print("VIOLATION property=%s replay=%s" % (pid, rep))
                return 1
            # Some user-supplied type of the harness is no longer accepted, though
            # the programs above are: go on with ordinary types only.
            print("WARNING: the full harness does not build; searching with fewer user-supplied types\n%s" % e)
            variants = [v + "-reduced" for v in variants]
            bins = build(pid, variants, bdir)
        t_build = time.time() - t0
        runs = p["quick"] if tier == "quick" else p["thorough"]
        budget = float(os.environ.get("VERIF_BUDGET", "240" if tier == "quick" else "780"))
        results, violation = [], None
        for i, v in enumerate(variants):
            out = os.path.join(bdir, v + ".json")
            rep = os.path.join(rdir, "%s-%s.replay" % (pid, v))
            if os.path.exists(rep):
                os.unlink(rep)
            # the variants search different run numbers, unless they are compared
            start = 0 if p.get("compare") else i * 1000000000
            cmd = [bins[v], "--prop", pid, "--seed", str(seed), "--runs", str(runs), "--from", str(start),
                   "--jobs", str(JOBS), "--chunk", str(p.get("chunk", 200)), "--max-seconds", str(budget / len(variants)),
                   "--variant", v, "--out", out, "--replay-out", rep]
            if tier == "thorough":
                cmd.append("--thorough")
            if p.get("compare"):
                cmd += ["--hash-out", os.path.join(bdir, v + ".hashes")]
            r = sh(cmd)
            sys.stdout.write(r.stdout)
            if os.path.exists(out):
                results.append(json.load(open(out)))
            if r.returncode == 1:
                # replay in fresh processes: must reproduce
                ok = 0
                for _ in range(2):
                    rc, o = replay_binary(bins[v], rep)
                    sys.stdout.write(o)
                    if rc == 1 and ("EXACT" in o or "SAME-KIND" in o):
                        ok += 1
                if ok < 2:
                    print("ERROR: the violation does not reproduce from its replay file")
                    return 2
                violation = rep
                break
            if r.returncode != 0:
                print("ERROR: simulator ended with %d" % r.returncode)
                return 2
        if p.get("compare"):
            try:
                violation, pairs = compare.compare(pid, variants, bins, bdir, rdir, seed, runs)
            except RuntimeError as e:
                print("ERROR: %s" % e)
                return 2
            results[0]["stats"]["probe.runs_compared_between_builds"] = pairs
            print("compared %d pairs of runs of %d builds" % (pairs, len(variants)))
            if violation is None and sum(r["runs"] for r in results) < runs * len(variants) and any(r["failed_runs"] > 40 for r in results):
                print("ERROR: the program fails in every build")
                return 2
        write_evidence(pid, p, tier, seed, results, t0, t_build, 1 if violation else 0, evid)
        for line in known_findings(pid):
            print(line)
        if violation:
            with open(violation) as f:
                sys.stdout.write("".join(f.readlines()[-60:]))
            print("replay: %s --replay %s" % (os.path.join(HERE, "check.py"), violation))
            print("VIOLATION property=%s replay=%s" % (pid, violation))
            return 1
        return 0
    except SomeBuildsFail as e:
        bad, good = sorted(e.failed)[0], sorted(e.good)[0]
        rep = os.path.join(rdir, "%s.replay" % pid)
        with open(rep, "w") as f:
            f.write("# libembedded deterministic-simulation replay\nproperty %s\nvariant %s\nother %s\nkind build\n" % (pid, good, bad))
            f.write("# the program builds as '%s' but not as '%s':\n" % (good, bad))
            f.writelines("#   %s\n" % x for x in e.failed[bad].splitlines())
        write_evidence(pid, p, tier, seed, [], t0, time.time() - t0, 1, evid)
        with open(rep) as f:
            sys.stdout.write(f.read())
        print("VIOLATION property=%s replay=%s" % (pid, rep))
        return 1
    except BuildError as e:
        print("ERROR: %s" % e)
        return 2
    finally:
        shutil.rmtree(bdir, ignore_errors=True)


def known_findings(pid):
    out = []
    path = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("KNOWN-FINDING: property=%s " % pid):
                out.append(line.rstrip("\n"))
    return out


def write_evidence(pid, p, tier, seed, results, t0, t_build, nviol, path):
    runs = sum(r["runs"] for r in results)
    wall = sum(r["wall_s"] for r in results) or 1e-9
    stats = {}
    for r in results:
        for k, v in r["stats"].items():
            stats[k] = stats.get(k, 0) + v
    faults = {k[6:]: v for k, v in stats.items() if k.startswith("fault.")}
    probes = {k[6:]: v for k, v in stats.items() if k.startswith("probe.")}
    other = {k: v for k, v in stats.items() if not k.startswith(("fault.", "probe."))}
    samples = []
    for r in results:
        for s in r.get("samples", []):
            samples.append({"variant": r["variant"], **s})
    cov = {
        "evaluations": runs,
        "distinct_nontrivial": (max if p.get("compare") else sum)([r["distinct_histories"] for r in results] or [0]),
        "rule": "one evaluation = one simulated run = one seed (VERIF_SEED, run number); " + p["rule"] +
                " Distinct: by the hash over the run's observable events (operations, results, recoveries); "
                "non-trivial: at least 10 such events. " +
                ("All variants execute the same run numbers; distinct histories are counted once." if p.get("compare") else "Variants search disjoint run numbers."),
        "samples": samples,
        "runs_per_hour": round(runs / wall * 3600),
        "seeds_per_hour": round(runs / wall * 3600),
        "search_wall_s": round(wall, 2),
        "build_wall_s": round(t_build, 2),
        "simulated_memory_accesses": sum(r["steps"] for r in results),
        "simulated_time_ticks": sum(r["simtime"] for r in results),
        "choices_drawn": sum(r["draws"] for r in results),
        "observable_events": sum(r["events"] for r in results),
        "faults_injected": faults,
        "situations_reached": probes,
        "operations": other,
        "distinct_states": max([r["distinct_states"] for r in results] or [0]),
        "distinct_states_measure": p.get("state_measure", "hash bitmap (2^22 bits) over abstract states, per variant; larger of the variants"),
        "distinct_interleavings": max([r["distinct_schedules"] for r in results] or [0]),
        "determinism_rechecked_runs": sum(r["rechecked"] for r in results),
        "variants": {r["variant"]: {"runs": r["runs"], "planned": r["planned"], "wall_s": r["wall_s"], "flags": " ".join([spec_of(r["variant"]).get("cxx", "g++")] + spec_of(r["variant"])["flags"])} for r in results},
        "real_components": p["real"],
        "stubbed_components": p["stub"],
    }
    if nviol:
        cov["found"] = [r["found"] for r in results if r.get("found")]
    e = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
         "assumptions": p.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": nviol}
    tmp = path + ".tmp"
    with open(tmp, "w") as f:
        json.dump(e, f, indent=1)
    os.rename(tmp, path)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except subprocess.TimeoutExpired as e:
        print("ERROR: %s" % e)
        sys.exit(2)
