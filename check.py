#!/usr/bin/env python3
"""Builds the harness against /repo's working tree, runs the campaigns of one property and judges
what their monitors reported.

    check.py PROPERTY            tier from $VERIF_TIER (or --tier), seed from $VERIF_SEED
    check.py replay FILE         run the one case of a replay file again
    check.py setup               build everything once
    check.py all [--tier T]      every property, for development

Exit status: 0 held on everything observed, 1 violation (with a VIOLATION line), 2 no verdict.
"""
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(HERE, ".build")
HARNESS = os.path.join(HERE, "harness")
EVIDENCE = os.path.join(HERE, "evidence")
REPLAYS = os.path.join(HERE, "replays")
FINDINGS = os.path.join(HERE, "known_findings.json")
DICT = os.path.join(BUILD, "dict.txt")
MAX_ZOOS = 8
ZOO_TYPES = 125

sys.path.insert(0, HERE)
from props import PROPS  # noqa: E402


class Inconclusive(Exception):
    """No verdict: the check could not be carried out"""


class BuildFailure(Inconclusive):
    def __init__(self, what, log):
        super().__init__(f"{what} does not build:\n{log[-3000:]}")
        self.what, self.log = what, log


def say(*args):
    print(*args, flush=True)


def cargo(what, args, target, env=None, timeout=800):
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(BUILD, target), CARGO_TERM_COLOR="never",
               CARGO_NET_OFFLINE="true", **(env or {}))
    env.setdefault("RUSTFLAGS", "")
    env["RUSTFLAGS"] += " -Awarnings"
    try:
        p = subprocess.run(["cargo", *args], cwd=HARNESS, env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Inconclusive(f"building {what} took more than {timeout} s")
    if p.returncode != 0:
        raise BuildFailure(what, "\n" + p.stdout)


def write_if_changed(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        with open(path) as f:
            if f.read() == text:
                return
    except FileNotFoundError:
        pass
    with open(path, "w") as f:
        f.write(text)


LITERALS = re.compile(r'''//[^\n]*|/\*.*?\*/|b?r(\#*)"(?P<raw>.*?)"\1|b?"(?P<str>(?:\\.|[^"\\])*)"|b?'(?P<chr>\\[^u]|\\u\{\w+\}|[^'\\])(?:')'''
                      r'''|\b(?P<num>0x[\da-fA-F_]+|\d[\d_]*)''', re.S)
ESCAPES = {"n": "\n", "t": "\t", "r": "\r", "0": "\0", "\n": ""}


def dictionary():
    """The literals of the code under test, as words to try in generated inputs"""
    words, numbers = set(), set()
    for crate in ("instant-xml", "instant-xml-macros"):
        for root, _, files in os.walk(os.path.join("/repo", crate, "src")):
            for f in files:
                if not f.endswith(".rs"):
                    continue
                with open(os.path.join(root, f), errors="replace") as fh:
                    text = fh.read()
                for m in LITERALS.finditer(text):
                    if m["num"]:
                        n = int(m["num"].replace("_", ""), 0 if m["num"].startswith("0x") else 10)
                        if n < 1 << 63:
                            numbers.add(n)
                        continue
                    w = m["raw"] or m["str"] or m["chr"] or ""
                    if not m["raw"]:
                        w = re.sub(r"\\(u\{(\w+)\}|x(\w\w)|(.))", lambda e: chr(int(e[2] or e[3], 16)) if e[2] or e[3]
                                   else ESCAPES.get(e[4], e[4]), w, flags=re.S)
                    if 0 < len(w) <= 80:
                        words.add(w.encode(errors="replace").hex())
    lines = [f"s {w}" for w in sorted(words)] + [f"n {n}" for n in sorted(numbers)]
    write_if_changed(DICT, "\n".join(lines) + "\n")


def generate_zoos(seeds, generator, dressed=False):
    for i, seed in enumerate(seeds):
        p = subprocess.run([sys.executable, os.path.join(HERE, "gen", generator + ".py"), str(seed), str(ZOO_TYPES), *(["dressed"] if dressed else [])],
                           stdout=subprocess.PIPE, text=True, check=True)
        write_if_changed(os.path.join(BUILD, "zoo", f"{i}.rs"), p.stdout)


class TypesDoNotCompile(BuildFailure):
    """The library builds, but types that use it as documented do not"""


def compiler_error(log):
    """An error of the compiler, not of the machine"""
    return "\nerror" in log and not any(w in log for w in ("signal:", "No space left", "out of memory"))


def build(bins, seeds=(), generator="zoo", dressed=False):
    """Builds the named binaries and one zoo per seed"""
    env = {"ZOO_DIR": os.path.join(BUILD, "zoo")}
    # The library half first: what fails after it are types that do not compile
    cargo("the harness", ["build", "--offline", "--features", "zoo", "--lib"], "dev", env)
    if bins:
        cargo("the harness", ["build", "--offline", "--features", "zoo", *sum((["--bin", b] for b in bins), [])], "dev", env)
    if seeds:
        generate_zoos(seeds, generator, dressed)
        args = sum((["--bin", f"zoo{i}"] for i in range(len(seeds))), [])
        try:
            cargo("the generated types", ["build", "--offline", "--features", "zoo", *args], "dev", env)
        except BuildFailure as e:
            if compiler_error(e.log):
                raise TypesDoNotCompile(e.what, e.log)
            raise


def binary(name, target="dev"):
    return os.path.join(BUILD, target, "debug", name)


def limits():
    os.setpgrp()
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def limits_memory():
    limits()
    resource.setrlimit(resource.RLIMIT_AS, (16 << 30, 16 << 30))


# How the sanitizers and the runtime say what ended a process
DEATHS = ("AddressSanitizer", "overflowed its stack", "Undefined Behavior", "memory leaked")


def name(exe):
    return os.path.basename(exe) if isinstance(exe, str) else " ".join(exe[:4])


class Runner:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.reports = []
        self.violations = []
        self.tmp = os.path.join(BUILD, f"run-{prop}")
        shutil.rmtree(self.tmp, ignore_errors=True)
        os.makedirs(self.tmp)

    def execute(self, exe, args, timeout, env=None, memory=True, slot=""):
        """Runs a harness binary; returns (exit status, report, stderr)"""
        out, crumbs = os.path.join(self.tmp, f"report{slot}.json"), os.path.join(self.tmp, f"crumbs{slot}")
        for f in (out, crumbs):
            if os.path.exists(f):
                os.remove(f)
        cmd = [*([exe] if isinstance(exe, str) else exe), "--prop", self.prop, "--tier", self.tier, "--out", out, "--crumbs", crumbs, *args]
        p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors="replace",
                             cwd=HARNESS, env=dict(os.environ, **(env or {})), preexec_fn=limits_memory if memory else limits)
        try:
            err = p.communicate(timeout=timeout)[1]
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.communicate()
            raise Inconclusive(f"{name(exe)} did not end within {timeout} s")
        report = None
        if os.path.exists(out):
            with open(out, errors="replace") as f:
                try:
                    report = json.load(f)
                except ValueError:
                    pass
        return p.returncode, report, err

    def run(self, exe, where, cap, extra=(), env=None, memory=True, seed=None, slot="", died_only=False):
        """One binary's campaigns. `where` says how to build it again."""
        seed = self.seed if seed is None else seed
        base = ["--seed", str(seed), "--cap", str(int(cap)), *extra]
        code, report, err = self.execute(exe, base, cap + 240, env, memory, slot)
        where = dict(where, run_seed=seed, extra=list(extra))
        if report and code in (0, 1, 2):
            self.reports.append(report)
            if died_only:
                # What the campaigns' own monitors say is other properties' business
                return report
            if report["errors"]:
                raise Inconclusive("; ".join(report["errors"])[:3000])
            for v in report["violations"]:
                # A stall may be the machine's fault: it has to happen again on its own
                if v["message"].startswith("no result after"):
                    again, r2, _ = self.execute(exe, [*base, "--only", f"{v['campaign']}:{v['index']}"], 300, env, memory, slot)
                    if not (again == 1 and r2):
                        raise Inconclusive(f"{v['campaign']}:{v['index']} stalled once")
                self.violations.append(dict(v, where=where))
            return report
        # The process died: find the case that does it
        suspects = []
        try:
            with open(os.path.join(self.tmp, f"crumbs{slot}"), errors="replace") as f:
                for line in f.read().split("\n"):
                    words = line.replace("\0", "").split()
                    if len(words) == 2:
                        suspects.append((words[0], int(words[1])))
        except FileNotFoundError:
            pass
        for campaign, index in suspects:
            code2, r2, err2 = self.execute(exe, [*base, "--only", f"{campaign}:{index}"], 300, env, memory, slot)
            if r2 is None and (code2 < 0 or any(s in err2 for s in DEATHS)):
                how = f"signal {-code2}" if code2 < 0 else f"exit status {code2}"
                at = max(0, min([err2.find(s) for s in DEATHS if s in err2], default=0) - 200)
                err2 = err2[at:]
                self.violations.append(dict(campaign=campaign, index=index, where=where, input="",
                                            message=f"process ended by {how}: {err2.strip()[:4000]}"))
                return None
        raise Inconclusive(f"{name(exe)} ended with {code} and the case was not found among {suspects}: {err[-2000:]}")


def zoo_seeds(seed, round_, n):
    return [(seed * 7919 + round_ * MAX_ZOOS + i) % (1 << 31) for i in range(n)]


def run_names(r, spec, deadline):
    run_zoos(r, spec, deadline, "names")


def run_zoos(r, spec, deadline, generator="zoo"):
    quick = r.tier == "quick"
    n = spec.get(generator + "s", 3 if generator == "zoo" else 2) if quick else MAX_ZOOS
    round_ = 0
    while True:
        seeds = zoo_seeds(r.seed, round_, n)
        try:
            build([], seeds, generator, r.prop == "C18")
        except TypesDoNotCompile as e:
            if r.prop != "C18":
                raise
            first = e.log.find("\nerror")
            r.violations.append(dict(campaign=generator + "/compile", index=seeds[0], input="", where={"kind": "compile", "seeds": seeds},
                                     message=f"types that use the documented attributes do not compile: {e.log[first:first + 2500]}"))
            return
        for i, zs in enumerate(seeds):
            cap = 20 if quick else 30
            r.run(binary(f"zoo{i}"), {"kind": generator, "zoo_seed": zs}, cap, seed=zs)
            if r.violations:
                return
        round_ += 1
        if quick or time.time() + 150 > deadline:
            return


def run_core(r, spec, deadline):
    build(["core"])
    quick = r.tier == "quick"
    if quick:
        r.run(binary("core"), {"kind": "core"}, spec.get("core_cap", 60))
        return
    round_ = 0
    while not r.violations:
        left = deadline - time.time()
        if left < 40 or round_ >= spec.get("rounds", 40):
            return
        # Fresh seeds for as long as there is time
        r.run(binary("core"), {"kind": "core"}, min(left - 20, 300), seed=r.seed + 1_000_003 * round_)
        round_ += 1


def run_cases(r):
    """What once failed, and what still does"""
    build(["cases"])
    r.run(binary("cases"), {"kind": "cases"}, 60)
    if r.prop == "C18":
        run_probes(r)
        run_surroundings(r)


# Documented, but does it compile?
PROBES = {"str": "struct A<'a> { b: &'a str }", "bytes": "struct A<'a> { #[xml(borrow)] b: Cow<'a, [u8]> }"}


def probe(which):
    """The compiler's complaint, or None"""
    try:
        cargo("probe", ["build", "--offline", "--features", "zoo,probe", "--bin", f"probe_{which}"], "dev",
              {"ZOO_DIR": os.path.join(BUILD, "zoo")})
    except BuildFailure as e:
        if compiler_error(e.log):
            return e.log[e.log.find("\nerror"):][:2500]
        raise
    return None


def run_probes(r):
    for which, source in PROBES.items():
        error = probe(which)
        if error:
            r.violations.append(dict(campaign=f"known/{which}-field", index=0, input=source, where={"kind": "probe", "which": which},
                                     message=f"{source} does not compile: {error}"))


def surroundings():
    """The compiler's complaint, or None"""
    try:
        for what in (["--bin", "surroundings"], ["--example", "documented"]):
            cargo("the surroundings", ["build", "--offline", "--features", "zoo,surroundings", *what], "dev",
                  {"ZOO_DIR": os.path.join(BUILD, "zoo")})
    except BuildFailure as e:
        if compiler_error(e.log):
            return e.log[e.log.find("\nerror"):][:2500]
        raise
    return None


def run_surroundings(r):
    """Definitions in other places than the usual ones; only this property needs them to compile"""
    error = surroundings()
    if error:
        r.violations.append(dict(campaign="surroundings/compile", index=0, input="", where={"kind": "compile-surroundings"},
                                 message=f"derives do not compile: {error}"))
        return
    r.run(binary("surroundings"), {"kind": "surroundings"}, 60)


def run_oracle(r, spec, deadline):
    """The reference parser against expat"""
    build(["dump"])
    n = 12000 if r.tier == "quick" else 200000
    dump = subprocess.Popen([binary("dump"), str(r.seed), str(n)], stdout=subprocess.PIPE)
    p = subprocess.run([sys.executable, os.path.join(HERE, "gen", "expat_check.py")], stdin=dump.stdout,
                       stdout=subprocess.PIPE, text=True, errors="replace")
    dump.stdout.close()
    if dump.wait() != 0 or p.returncode != 0:
        raise Inconclusive(f"the reference parser and expat disagree: {p.stdout[:3000]}")
    counts = json.loads(p.stdout.splitlines()[-1])
    r.reports.append(dict(prop=r.prop, evaluations=0, distinct=0, campaigns={}, samples=[], capped=False, observed={
        f"documents {k} by the reference parser and expat alike": counts[k] for k in ("accepted", "refused")}))


def run_meter(r, spec, deadline):
    build(["meter"])
    exe = binary("meter")
    families = subprocess.run([exe, "list"], stdout=subprocess.PIPE, text=True, check=True).stdout.splitlines()
    report = dict(prop=r.prop, evaluations=0, distinct=0, observed={}, campaigns={}, samples=[], capped=False)
    r.reports.append(report)
    for size in ([16384] if r.tier == "quick" else [65536, 262144]):
        measured = 0
        with ThreadPoolExecutor(os.cpu_count()) as pool:
            jobs = [pool.submit(meter, r, exe, f, size, deadline) for f in families]
            try:
                results = [j.result() for j in jobs]
            except Inconclusive:
                pool.shutdown(cancel_futures=True)
                raise
        for f, d in zip(families, results):
            if d is None:
                report["capped"] = True
                continue
            if d["violation"]:
                r.violations.append(dict(campaign="meter/" + f, index=size, input="", message=d["violation"], where={"kind": "meter"}))
            n = len(d["samples"])
            measured += n
            for what, k in (("instructions counted", 1), ("bytes allocated", 2), ("bytes of documents", 0)):
                report["observed"][what] = report["observed"].get(what, 0) + sum(s[k] for s in d["samples"])
            if len(report["samples"]) < 6:
                report["samples"].append(f"{f}: [bytes, instructions, bytes allocated, at once] {d['samples']}")
        report["evaluations"] += measured
        report["distinct"] = max(report["distinct"], measured)
        report["campaigns"][f"families up to {size} parts"] = sum(d is not None for d in results)
        if r.violations:
            return


def meter(r, exe, family, size, deadline, number=iter(range(1 << 30))):
    """One family's measurements, or None if there is no time left"""
    if time.time() > deadline:
        return None
    out = os.path.join(r.tmp, f"callgrind.{next(number)}")
    cmd = [exe, family, str(size), out]
    counter = ["valgrind", "-q", "--tool=callgrind", "--combine-dumps=no", f"--callgrind-out-file={out}"]
    try:
        p = subprocess.run(counter + cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=240, preexec_fn=limits_memory)
    except subprocess.TimeoutExpired:
        try:
            subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60)
        except subprocess.TimeoutExpired:
            return dict(samples=[], violation=f"{family}: no result after 60 s")
        raise Inconclusive(f"{family} was not measured within 240 s")
    finally:
        for f in (out, out + ".1"):
            if os.path.exists(f):
                os.remove(f)
    try:
        d = json.loads(p.stdout)
    except ValueError:
        raise Inconclusive(f"{family} was not measured: exit status {p.returncode}: {p.stderr[-2000:]}")
    if not d["counted"]:
        raise Inconclusive("callgrind counts nothing")
    return d


TARGET = "x86_64-unknown-linux-gnu"
# Leaks are seen by the harness's allocator
ASAN = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:detect_stack_use_after_return=1"}


def asan_build(bins):
    flags = {"RUSTFLAGS": "-Zsanitizer=address", "ZOO_DIR": os.path.join(BUILD, "zoo")}
    cargo("the harness with AddressSanitizer", ["+nightly", "build", "--offline", "--features", "zoo", "--target", TARGET,
          *sum((["--bin", b] for b in bins), [])], "asan", flags)
    return [os.path.join(BUILD, "asan", TARGET, "debug", b) for b in bins]


def run_asan(r, spec, deadline):
    quick = r.tier == "quick"
    round_ = 0
    while not r.violations:
        [zs] = zoo_seeds(r.seed, round_ + 50, 1)
        generate_zoos([zs], "zoo")
        safe, zoo = asan_build(["safe", "zoo0"])
        r.run(safe, {"kind": "asan"}, 30 if quick else 60, env=ASAN, memory=False, seed=r.seed + 1_000_003 * round_)
        if r.violations:
            return
        r.run(zoo, {"kind": "asan-zoo", "zoo_seed": zs}, 15 if quick else 30, env=ASAN, memory=False, seed=zs)
        round_ += 1
        if quick or time.time() + 140 > deadline:
            return


def run_asan_core(r, spec, deadline):
    """The other properties' campaigns, with nobody but AddressSanitizer watching"""
    [core] = asan_build(["core"])
    props = ["C08", "C04", "C05", "C06", "C14", "C15", "C16", "C21", "C22", "C24"]
    for k, p in enumerate(props):
        left = deadline - time.time()
        if left < 20 or r.violations:
            return
        sub = Runner(p, r.tier, r.seed)
        sub.run(core, {"kind": "asan-core", "as": p}, left / (len(props) - k), env=ASAN, memory=False, died_only=True)
        r.reports += sub.reports
        r.violations += sub.violations
        shutil.rmtree(sub.tmp, ignore_errors=True)


def miri():
    env = {"CARGO_TARGET_DIR": os.path.join(BUILD, "miri"), "RUSTFLAGS": "-Awarnings", "CARGO_NET_OFFLINE": "true",
           "CARGO_TERM_COLOR": "never", "MIRIFLAGS": "-Zmiri-disable-isolation"}
    return ["cargo", "+nightly", "miri", "run", "--offline", "--quiet", "--bin", "safe", "--"], env


def run_miri(r, spec, deadline):
    exe, env = miri()
    args = ["--threads", "1"]
    # Builds, and shows that it runs at all
    code, report, err = r.execute(exe, ["--seed", "0", "--only", "safety/read:0", *args], 600, env, False)
    if report is None and not any(s in err for s in DEATHS):
        raise Inconclusive(f"Miri does not run: {err[-3000:]}")
    n = os.cpu_count()
    left = max(20, deadline - time.time() - 15)
    with ThreadPoolExecutor(n) as pool:
        jobs = [pool.submit(r.run, exe, {"kind": "miri"}, left, args, env, False, r.seed * 1009 + i, f"-{i}") for i in range(n)]
        for j in jobs:
            j.result()


STEPS = {"oracle": run_oracle, "asan": run_asan, "asan_core": run_asan_core, "miri": run_miri,
         "meter": run_meter, "core": run_core, "zoo": run_zoos, "names": run_names}


def known_findings():
    with open(FINDINGS) as f:
        return json.load(f)["findings"]


def check(prop, tier, seed):
    spec = PROPS[prop]
    start = time.time()
    total = 200 if tier == "quick" else 720
    deadline = start + total
    r = Runner(prop, tier, seed)
    known, fresh = [], []
    steps = spec["steps"] if tier == "quick" else spec.get("thorough_steps", spec["steps"])

    def sort():
        for v in r.violations:
            hit = [f for f in known_findings() if f["property"] == prop and f["campaign"] == v["campaign"]
                   and f["input"] == v["input"] and not v["message"].startswith(("panic", "no result", "process"))]
            (known if hit else fresh).append((v, hit))
        r.violations = []

    try:
        run_cases(r)
        sort()
        for k, step in enumerate(steps):
            if fresh:
                break
            # Each step its share of what is left
            now = time.time()
            share = (deadline - now) / (len(steps) - k)
            STEPS[step](r, spec, now + share)
            sort()
    except BuildFailure as e:
        # The library builds, but the harness's own types that use it as documented do not. Those with
        # `serialize_with` and `deserialize_with` are in a module of their own
        places = re.findall(r"^error.*\n\s*--> (\S+?):\d+", e.log, re.M)
        hooks = bool(places) and all(p.endswith("src/hooks.rs") for p in places)
        if not (prop == "C18" or (prop == "C24" and hooks)) or "could not compile `harness`" not in e.log or not compiler_error(e.log):
            raise
        r.violations.append(dict(campaign="harness/compile", index=0, input="", where={"kind": "harness"},
                                 message=f"types that use the documented attributes do not compile: {e.log[e.log.find(chr(10) + 'error'):][:2500]}"))
        sort()

    evidence(r, spec, time.time() - start, len(fresh))
    for v, hit in known:
        say(f"KNOWN-FINDING: property={prop} {hit[0]['what']}")
    if fresh:
        os.makedirs(REPLAYS, exist_ok=True)
        for v, _ in fresh[:1]:
            path = os.path.join(REPLAYS, f"{prop}-{tier}-{seed}.json")
            with open(path, "w") as f:
                json.dump(dict(property=prop, tier=tier, seed=seed, **v), f, indent=1, ensure_ascii=False)
            say(f"{prop} {v['campaign']}:{v['index']}: {v['message'][:3000]}")
            say(f"VIOLATION property={prop} replay={path}")
        return 1
    observed = sum(rep["evaluations"] for rep in r.reports)
    if observed == 0 or not any(rep["observed"] for rep in r.reports):
        raise Inconclusive("nothing was observed")
    say(f"{prop} held: {observed} evaluations in {time.time() - start:.0f} s")
    shutil.rmtree(r.tmp, ignore_errors=True)
    return 0


def evidence(r, spec, wall, violations):
    observed, campaigns, samples = {}, {}, []
    distinct = evaluations = 0
    for rep in r.reports:
        for k, v in rep["observed"].items():
            observed[k] = observed.get(k, 0) + v
        for k, v in rep["campaigns"].items():
            campaigns[k] = campaigns.get(k, 0) + v
        samples += rep["samples"][: max(1, 6 // len(r.reports))]
        distinct += rep["distinct"]
        evaluations += rep["evaluations"]
    os.makedirs(EVIDENCE, exist_ok=True)
    data = {
        "property": r.prop,
        "tier": r.tier,
        "seed": r.seed,
        "level": spec["level"],
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": distinct,
            "rule": spec["rule"],
            "samples": samples[:12],
            "observed": observed,
            "campaigns": campaigns,
            "runs": len(r.reports),
            "stopped_by_time_cap": any(rep["capped"] for rep in r.reports),
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(wall, 2),
        "violations": violations,
    }
    with open(os.path.join(EVIDENCE, f"{r.prop}.json"), "w") as f:
        json.dump(data, f, indent=1, ensure_ascii=False)
        f.write("\n")


def replay(path):
    with open(path) as f:
        v = json.load(f)
    r = Runner(v["property"], v["tier"], v["seed"])
    where = v["where"]
    if where["kind"] == "compile":
        build([], where["seeds"], v["campaign"].split("/")[0], True)
        say("the types compile")
        return 0
    if where["kind"] == "harness":
        build(["core", "cases"])
        say("the harness compiles")
        return 0
    if where["kind"] == "probe":
        error = probe(where["which"])
        say(error or "it compiles")
        return 1 if error else 0
    if where["kind"].endswith("surroundings"):
        error = surroundings()
        if error or where["kind"] != "surroundings":
            say(error or "it compiles")
            return 1 if error else 0
    if where["kind"] == "meter":
        build(["meter"])
        d = meter(r, binary("meter"), v["campaign"][len("meter/"):], v["index"], time.time() + 600)
        say(json.dumps(d, indent=1))
        return 1 if d["violation"] else 0
    env, memory = None, True
    only = ["--only", f"{v['campaign']}:{v['index']}", *where["extra"]]
    if where["kind"] in ("zoo", "names"):
        build([], [where["zoo_seed"]], where["kind"], r.prop == "C18")
        exe = binary("zoo0")
    elif where["kind"].startswith("asan"):
        env, memory = ASAN, False
        if "zoo_seed" in where:
            generate_zoos([where["zoo_seed"]], "zoo")
        [exe] = asan_build([{"asan": "safe", "asan-zoo": "zoo0", "asan-core": "core"}[where["kind"]]])
        r.prop = where.get("as", r.prop)
    elif where["kind"] == "surroundings":
        exe = binary("surroundings")
    elif where["kind"] == "miri":
        (exe, env), memory = miri(), False
    else:
        build([where["kind"]])
        exe = binary(where["kind"])
    code, report, err = r.execute(exe, ["--seed", str(where["run_seed"]), *only], 300, env, memory)
    say(json.dumps(report, indent=1, ensure_ascii=False) if report else err[-4000:])
    return 0 if code == 0 else 1


def main():
    args = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        i = args.index("--tier")
        tier = args[i + 1]
        del args[i:i + 2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    os.makedirs(BUILD, exist_ok=True)
    dictionary()
    os.environ["HARNESS_DICT"] = DICT
    if args[0] == "setup":
        build(["core", "cases"], zoo_seeds(seed, 0, 3))
        return 0
    if args[0] == "replay":
        return replay(args[1])
    if args[0] == "all":
        bad = 0
        for p in PROPS:
            code = guarded(p, tier, seed)
            if code:
                say(f"== {p}: exit {code}")
                bad = 1
        return bad
    return guarded(args[0], tier, seed)


def guarded(prop, tier, seed):
    try:
        return check(prop, tier, seed)
    except Inconclusive as e:
        say(f"{prop}: no verdict: {e}")
        return 2


sys.exit(main())
