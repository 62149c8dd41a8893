#!/usr/bin/env python3
"""Decides one property of /repo by symbolic execution of its compiled code.

usage: check.py PROPERTY [--tier quick|thorough] [--entry NAME] [--keep]

The harness crate is compiled together with /repo's current sources (and the standard library) to
LLVM IR, the IR is executed symbolically by engine/ with Z3 deciding every branch, assertion and
memory access, and whatever is found is run again natively before it is reported.

exit 0  the property held on everything within the bounds
exit 1  it is broken; VIOLATION line on stdout
exit 2  no verdict (something could not be decided, built or confirmed)
"""
import concurrent.futures as cf
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
sys.path.insert(0, HERE)
from catalog import CATALOG  # noqa: E402

TOOLCHAIN = "stable-x86_64-unknown-linux-gnu"
ALLOC_LIMIT = 65536
WITNESSES = {"quick": 24, "thorough": 80}
CPUS = os.cpu_count() or 4


class NoVerdict(Exception):
    pass


def log(*a):
    print(*a, flush=True)


def env(**kw):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("CARGO") and k not in ("CARGO_HOME",) or k in ("RUSTFLAGS", "RUSTC", "RUSTC_WRAPPER"):
            del e[k]
    e["RUSTUP_TOOLCHAIN"] = TOOLCHAIN
    e["CARGO_NET_OFFLINE"] = "true"
    e["RUST_BACKTRACE"] = "0"
    e.update(kw)
    return e


def run(cmd, what, cwd, environ, timeout=800):
    t = time.time()
    p = subprocess.run(cmd, cwd=cwd, env=environ, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, timeout=timeout, errors="replace")
    if p.returncode != 0:
        raise NoVerdict("%s failed:\n%s" % (what, p.stdout[-6000:]))
    return time.time() - t


def build_engine(work):
    target = os.path.join(work, "engine")
    run(["cargo", "build", "--release", "--offline", "--target-dir", target], "building the engine",
        os.path.join(HERE, "engine"), env())
    return os.path.join(target, "release", "symex")


def build_ir(work, prop, profile):
    target = os.path.join(work, "ir-" + profile)
    run(["cargo", "build", "--offline", "--profile", profile, "--features", prop.lower(),
         "--target-dir", target], "compiling /repo and the harness to LLVM IR (%s)" % profile,
        os.path.join(HERE, "harness"),
        env(RUSTFLAGS="--cap-lints allow --emit=llvm-ir -C no-vectorize-loops -C no-vectorize-slp"))
    deps = os.path.join(target, profile, "deps")
    lls = [f for f in os.listdir(deps) if f.startswith("harness-") and f.endswith(".ll")]
    if len(lls) != 1:
        raise NoVerdict("expected one IR file, found %r" % lls)
    return os.path.join(deps, lls[0])


def build_native(work, prop, profile):
    target = os.path.join(work, "native")
    cmd = ["cargo", "build", "--offline", "--features", prop.lower(), "--target-dir", target]
    if profile == "symrel":
        cmd.append("--release")
    run(cmd, "compiling the native replay (%s)" % profile, os.path.join(HERE, "replay"),
        env(RUSTFLAGS="--cap-lints allow"))
    return os.path.join(target, "release" if profile == "symrel" else "debug", "replay")


def symex(engine, ir, ent, tier, out, seed, tokens):
    """Runs one entry point; returns the merged record."""
    cmd = [engine, "--ir", ir, "--entry", ent["name"], "--out", out,
           "--time", str(ent.get("time", 400 if tier == "quick" else 3000)),
           "--witnesses", str(WITNESSES[tier]),
           "--seed", str(seed),
           "--tokens", tokens,
           "--alloc-limit", str(ALLOC_LIMIT)]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode != 0:
        raise NoVerdict("engine failed on %s: %s" % (ent["name"], p.stdout[-2000:]))
    with open(out) as f:
        recs = json.load(f)
    m = dict(entry=ent["name"], paths=0, assumed=0, steps=0, forks=0, queries=0, sat=0, unsat=0, unknown=0,
             cached=0, solver_s=0.0, max_query_s=0.0, pending=0, timed_out=False, wall_s=0.0, covers=set(),
             inconclusive={}, functions={}, found=[], witnesses=[])
    for r in recs:
        if "crashed" in r:
            m["inconclusive"]["a worker process died (status %s)" % r["crashed"]] = 1
            continue
        for k in ("paths", "assumed", "steps", "forks", "queries", "sat", "unsat", "unknown", "cached",
                  "solver_s"):
            m[k] += r[k]
        m["max_query_s"] = max(m["max_query_s"], r["max_query_s"])
        m["wall_s"] = max(m["wall_s"], r["wall_s"])
        m["pending"] += r["pending"]
        m["timed_out"] |= r["timed_out"]
        m["covers"] |= set(r["covers"])
        for k, v in r["inconclusive"].items():
            m["inconclusive"][k] = m["inconclusive"].get(k, 0) + v
        for f, ls in r["functions"].items():
            m["functions"].setdefault(f, set()).update((a, b) for a, b in ls)
        m["found"] += r["found"]
        m["witnesses"] += r["witnesses"]
    random.Random(seed).shuffle(m["witnesses"])
    del m["witnesses"][WITNESSES[tier]:]
    if m["timed_out"]:
        m["inconclusive"]["time limit"] = 1
    return m


def native(binary, entry, inputs, limit=ALLOC_LIMIT, timeout=120):
    """Runs a harness natively; returns (exit status, list of output lines)."""
    with tempfile.NamedTemporaryFile("w", suffix=".inp") as f:
        f.write("".join(i + "\n" for i in inputs))
        f.flush()
        try:
            p = subprocess.run([binary, entry, f.name], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               env=env(ALLOC_LIMIT=str(limit)), text=True, errors="replace", timeout=timeout)
        except subprocess.TimeoutExpired:
            return "timeout", []
    return p.returncode, (p.stdout + p.stderr).splitlines()


BROKEN = {99: "assertion", 101: "panic", 97: "memory error", 98: "oversized allocation"}


OUT_OF_MEMORY = re.compile(r"memory allocation of \d+ bytes failed")


def verdict_of(status, lines, kind):
    if status == -6 and any(OUT_OF_MEMORY.search(l) for l in lines):
        return "allocation given up" if kind == "alloc" else None
    if status in BROKEN:
        return BROKEN[status]
    if status == "timeout" or (isinstance(status, int) and status < 0):
        return "crash (%s)" % status
    return None


def miri(work, prop, entry, inputs):
    """Last resort for undefined behaviour an ordinary run does not show."""
    e = env(RUSTUP_TOOLCHAIN="nightly", RUSTFLAGS="--cap-lints allow",
            MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-disable-stacked-borrows -Zmiri-ignore-leaks")
    try:
        p = subprocess.run(["cargo", "miri", "run", "--offline", "--features", prop.lower(), "--target-dir",
                            os.path.join(work, "miri"), "--", entry, "-", ",".join(inputs)],
                           cwd=os.path.join(HERE, "replay"), env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, errors="replace", timeout=400)
    except (subprocess.TimeoutExpired, OSError):
        return None
    if p.returncode != 0 and re.search(r"Undefined Behavior|panicked at|FAIL ", p.stdout):
        return p.stdout[-4000:]
    return None


def known_findings(prop):
    out = []
    path = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(path):
        for l in open(path):
            m = re.match(r"known: property=(\S+) entry=(\S+) match=\"([^\"]*)\" (.*)", l)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3), m.group(4)))
    return out


def main():
    args = sys.argv[1:]
    prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    only = args[args.index("--entry") + 1] if "--entry" in args else None
    seed = int(os.environ.get("VERIF_SEED", "1"))
    spec = CATALOG[prop]
    t0 = time.time()
    root = os.path.join(HERE, "target")
    os.makedirs(root, exist_ok=True)
    if "--keep" in args:
        work = os.path.join(root, "keep-" + prop)
        os.makedirs(work, exist_ok=True)
    else:
        work = tempfile.mkdtemp(prefix=prop + "-", dir=root)
    try:
        code = check(prop, spec, tier, only, seed, work, t0)
    except NoVerdict as e:
        log("NO VERDICT property=%s: %s" % (prop, e))
        code = 2
    finally:
        if "--keep" not in args:
            shutil.rmtree(work, ignore_errors=True)
    sys.exit(code)


def check(prop, spec, tier, only, seed, work, t0):
    profiles = spec.get("profiles", ["symdev", "symrel"])
    entries = [e for e in spec["entries"] if tier == "thorough" or e.get("tier", "quick") == "quick"]
    if only:
        entries = [e for e in entries if e["name"] == only]
        if not entries:
            raise NoVerdict("no entry %s" % only)
    with cf.ThreadPoolExecutor(8) as ex:
        eng = ex.submit(build_engine, work)
        irs = {p: ex.submit(build_ir, work, prop, p) for p in profiles}
        nat = {"symdev": ex.submit(build_native, work, prop, "symdev")}
        engine = eng.result()
        irs = {p: f.result() for p, f in irs.items()}
        nat = {p: f.result() for p, f in nat.items()}
    build_s = time.time() - t0

    results = []
    heavy = sorted(((p, e) for e in entries for p in profiles if p in e.get("profiles", profiles)),
                   key=lambda x: -x[1].get("weight", 1))

    # Engine processes share their work as long as this counter says that processors are free.
    tokens = os.path.join(work, "tokens")
    with open(tokens, "wb") as f:
        f.write(CPUS.to_bytes(4, "little") + bytes(4092))

    def one(pe):
        p, e = pe
        m = symex(engine, irs[p], e, tier, os.path.join(work, "%s-%s.json" % (e["name"], p)), seed,
                  tokens)
        m["profile"] = p
        m["bound"] = e["bound"]
        missing = sorted(set(e.get("covers", [])) - m["covers"])
        if missing and not m["found"]:
            m["inconclusive"]["situations never reached: " + ", ".join(missing)] = 1
        log("  %-34s %-7s paths=%-7d instr=%-9d queries=%-6d solver=%6.2fs wall=%6.2fs%s%s" % (
            e["name"], p, m["paths"], m["steps"], m["queries"], m["solver_s"], m["wall_s"],
            " FOUND=%d" % len(m["found"]) if m["found"] else "",
            " INCONCLUSIVE" if m["inconclusive"] else ""))
        return m

    with cf.ThreadPoolExecutor(CPUS) as ex:
        results = list(ex.map(one, heavy))

    # Replay every counterexample against the real code.
    known = known_findings(prop)
    violations, unconfirmed, known_hits, seen = [], [], [], set()
    for m in results:
        for f in m["found"]:
            key = (m["entry"], f["kind"], f["msg"])
            if key in seen:
                continue
            hit = next((k for k in known if k[0] == m["entry"] and k[1] in f["msg"]), None)
            order = ["symdev", "symrel"] if m["profile"] == "symdev" else ["symrel", "symdev"]
            seenhow, text = None, []
            for p in order:
                if p not in nat:
                    nat[p] = build_native(work, prop, p)
                st, text = native(nat[p], m["entry"], f["inputs"])
                how = verdict_of(st, text, f["kind"])
                if how:
                    seenhow = "%s in the native %s build" % (how, "debug" if p == "symdev" else "release")
                    break
            if not seenhow and f["kind"] in ("memory", "ub", "assert"):
                t = miri(work, prop, m["entry"], f["inputs"])
                if t:
                    seenhow, text = "undefined behaviour or failure under Miri", t.splitlines()
            rec = dict(property=prop, entry=m["entry"], profile=m["profile"], kind=f["kind"], message=f["msg"],
                       inputs=f["inputs"], stack=f["stack"][:25], confirmed=seenhow, native_output=text[-40:],
                       alloc_limit=ALLOC_LIMIT,
                       how="inputs are the octets handed to the successive sym::bytes calls of the harness "
                           "entry point; feed them to replay/ with: replay ENTRY FILE")
            if not seenhow:
                unconfirmed.append(rec)
                continue
            seen.add(key)
            if hit:
                known_hits.append((hit, rec))
            else:
                violations.append(rec)

    # Completed paths are replayed as well: native behaviour must be what the engine predicted.
    validated, mismatches = 0, []

    def val(mw):
        m, w = mw
        st, lines = native(nat["symdev"], m["entry"], w["inputs"])
        outs = [l[4:] for l in lines if l.startswith("OUT ")]
        cov = sorted({l[6:] for l in lines if l.startswith("COVER ")})
        if w["aborts"]:
            end = st == -6 and any(OUT_OF_MEMORY.search(l) for l in lines)
        else:
            end = st == 0
        ok = end and outs == w["outs"] and cov == sorted(w["covers"])
        return ok, m["entry"], w, st, lines[-5:]

    jobs = [(m, w) for m in results if m["profile"] == "symdev" for w in m["witnesses"]]
    with cf.ThreadPoolExecutor(CPUS) as ex:
        for ok, ent, w, st, lines in ex.map(val, jobs):
            if ok:
                validated += 1
            else:
                mismatches.append(dict(entry=ent, witness=w, status=str(st), output=lines))

    inconclusive = {}
    for m in results:
        for k, v in m["inconclusive"].items():
            inconclusive["%s [%s]: %s" % (m["entry"], m["profile"], k)] = v
    if mismatches:
        inconclusive["engine and native run disagree on %d of %d completed paths, e.g. %s" % (
            len(mismatches), len(jobs), json.dumps(mismatches[0])[:1500])] = len(mismatches)
    for u in unconfirmed:
        inconclusive["counterexample not reproduced natively: %s %s: %s inputs=%s" % (
            u["entry"], u["kind"], u["message"], ",".join(u["inputs"]))] = 1

    functions = {}
    for m in results:
        for f, ls in m["functions"].items():
            functions.setdefault(re.sub(r"<.*", "", f), set()).update(ls)
    lines = {}
    for ls in functions.values():
        for a, b in ls:
            lines.setdefault(a[a.index("/repo/") + 6:] if "/repo/" in a else a, set()).add(b)
    samples = []
    for m in results:
        for w in m["witnesses"][:2]:
            samples.append(dict(entry=m["entry"], inputs=w["inputs"], observed=w["outs"], covers=w["covers"]))
    tot = lambda k: sum(m[k] for m in results)
    evidence = dict(
        property=prop, tier=tier, seed=seed, level="model_checking",
        coverage=dict(
            states=tot("paths") + tot("assumed"),
            transitions=tot("steps"),
            traces_validated_against_impl=validated,
            samples=samples[:12],
            paths_completed=tot("paths"), paths_outside_assumptions=tot("assumed"), forks=tot("forks"),
            solver_queries=tot("queries"), solver_sat=tot("sat"), solver_unsat=tot("unsat"),
            solver_unknown=tot("unknown"), solver_cache_hits=tot("cached"), solver_s=round(tot("solver_s"), 3),
            slowest_query_s=max([m["max_query_s"] for m in results] + [0]),
            solver="Z3 4.8.12 (bit-vectors)",
            functions_encoded=sorted(functions), source_lines_executed={k: len(v) for k, v in sorted(lines.items())},
            bounds=[dict(entry=e["name"], bound=e["bound"], covers_required=e.get("covers", []))
                    for e in entries],
            profiles=profiles,
            per_entry=[dict(entry=m["entry"], profile=m["profile"], paths=m["paths"], instructions=m["steps"],
                            queries=m["queries"], solver_s=round(m["solver_s"], 3), wall_s=m["wall_s"],
                            covers=sorted(m["covers"])) for m in results],
            inconclusive=inconclusive,
            known_findings=[h[0][2] for h in known_hits],
            build_s=round(build_s, 1),
        ),
        assumptions=spec.get("assumptions", []) + [
            "x86-64, 64-bit, the installed stable rustc; optimisation level 1 IR of the debug and the release "
            "configuration",
            "memory allocation succeeds unless a bound says which request fails; single thread; hash seeds fixed",
            "outside the listed bounds nothing is claimed",
        ],
        wall_s=round(time.time() - t0, 2), violations=len(violations))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    if not only:
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
            json.dump(evidence, f, indent=1)
            f.write("\n")

    log("%s: %d paths, %d instructions, %d queries, %.2f s solver, %d traces validated, %d functions of /repo, %.1f s" % (
        prop, tot("paths"), tot("steps"), tot("queries"), tot("solver_s"), validated, len(functions),
        time.time() - t0))
    for h, rec in known_hits:
        log("KNOWN-FINDING: property=%s %s" % (prop, h[2]))
    if violations:
        d = os.path.join(HERE, "replays")
        os.makedirs(d, exist_ok=True)
        for rec in violations:
            h = hashlib.sha1(json.dumps([rec["entry"], rec["inputs"], rec["message"]]).encode()).hexdigest()[:10]
            path = os.path.join(d, "%s-%s.json" % (prop, h))
            with open(path, "w") as f:
                json.dump(rec, f, indent=1)
                f.write("\n")
            src = next((s for s in rec["stack"] if "/repo/" in s[1]), None)
            log("  %s: %s: %s (%s)%s" % (rec["entry"], rec["kind"], rec["message"], rec["confirmed"],
                                         " near %s:%s" % (src[1], src[2]) if src else ""))
            log("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if inconclusive:
        for k in inconclusive:
            log("INCONCLUSIVE %s" % k)
        raise NoVerdict("%d question(s) left open" % len(inconclusive))
    return 0


if __name__ == "__main__":
    main()
