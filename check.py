#!/usr/bin/env python3
"""Decide one property of /repo's current tree:  check.py <property> [quick|thorough]

Builds the symbolic executor and the harness crate of the property (which compiles /repo's current sources),
explores every entry listed for the property in suites.py, replays each reported counterexample natively
against the real code, and writes evidence/<property>.json.
Exit 0: held.  Exit 1: "VIOLATION property=<id> replay=<path>".  Exit 3: no answer."""
import concurrent.futures
import json, os, re, shutil, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("LAPEX_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
sys.path.insert(0, VERIF)
import suites

ENV = dict(os.environ)
ENV["PATH"] = "/usr/local/bin:/root/.cargo/bin:" + ENV.get("PATH", "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
ENV.setdefault("HOME", "/root")
ENV["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
ENV["CARGO_NET_OFFLINE"] = "true"
ENV["CARGO_TERM_COLOR"] = "never"
ENV["RUSTC_WRAPPER"] = ""
for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_ENCODED_RUSTFLAGS", "CARGO_INCREMENTAL"):
    ENV.pop(k, None)
T0 = time.time()


class NoAnswer(Exception):
    pass


class Refuted(Exception):
    """the code under test fails before anything can be executed symbolically: its generators panic on the corpus,
    or what they generate does not compile"""


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


def run(cmd, cwd=None, env=None, timeout=1200):
    e = dict(ENV)
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    out = p.stdout.decode("utf8", "replace")
    if p.returncode != 0:
        raise NoAnswer("%s failed (%d):\n%s" % (" ".join(cmd[:6]), p.returncode, out[-6000:]))
    return out


def build_engine():
    run(["cargo", "build", "--release", "--offline", "--locked"], cwd=os.path.join(VERIF, "engine"),
        env={"CARGO_TARGET_DIR": os.path.join(BUILD, "engine")})
    return os.path.join(BUILD, "engine/release/symx")


def build_native(crate):
    """a helper program of the harness that runs natively, built against /repo"""
    src = os.path.join(VERIF, "harness", crate)
    shutil.copy(os.path.join(REPO, "Cargo.lock"), os.path.join(src, "Cargo.lock"))
    run(["cargo", "build", "--offline"], cwd=src, env={"CARGO_TARGET_DIR": os.path.join(BUILD, crate)})
    return os.path.join(BUILD, crate, "debug", crate)


def generate(kind):
    """the generators' output for the whole corpus, and glue"""
    out = os.path.join(BUILD, "out-" + kind)
    shutil.rmtree(out, ignore_errors=True)
    text = run([build_native("gen"), kind, out], timeout=300)
    bad = [l for l in text.splitlines() if l.startswith(("GENERATOR-PANIC", "GENERATOR-REFUSED"))]
    if bad:
        raise Refuted("\n".join(bad) + "\n" + text[-3000:])
    return out


CXX_FILES = ["all"] + ["all%d" % i for i in range(6)]


def compile_cxx(d):
    """the generated C++ code: IR for the executor (clang) and objects with AddressSanitizer for replays (g++)"""
    inc = os.path.join(VERIF, "harness/cxx")
    base = ["-std=c++17", "-O1", "-w"]
    cmds = []
    for f in CXX_FILES:
        p = os.path.join(d, f)
        cmds.append(["clang++"] + base + ["-DSYM_IR", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-I", os.path.join(inc, "stub"), "-I", inc, "-S", "-emit-llvm", "-o", p + ".ll", p + ".cpp"])
        cmds.append(["g++"] + base + ["-fsanitize=address", "-I", inc, "-c", "-o", p + ".o", p + ".cpp"])
    # and as a user would compile it, every file by itself
    one = sorted(x for x in os.listdir(d) if os.path.isdir(os.path.join(d, x)) and os.listdir(os.path.join(d, x)))
    for k in (one[0], one[-1]):
        k = os.path.join(d, k)
        for f in sorted(os.listdir(k)):
            if f.endswith(".cpp") or f == "parser_impl.h":
                cmds.append(["g++", "-std=c++17", "-fsyntax-only", "-w", "-x", "c++", os.path.join(k, f)])
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for f in [ex.submit(run, c) for c in cmds]:
            try:
                f.result()
            except NoAnswer as x:
                raise Refuted("generated code does not compile: %s" % x)
    return {"LAPEX_GEN_DIR": d, "LAPEX_CXX_OBJ": ":".join(os.path.join(d, f + ".o") for f in CXX_FILES)}


def merge_ir(d, ll, out):
    """one module: file-local globals and struct types of the C++ units get names of their own"""
    with open(out, "wb") as o:
        with open(ll, "rb") as f:
            shutil.copyfileobj(f, o)
        for k, n in enumerate(CXX_FILES):
            with open(os.path.join(d, n + ".ll")) as f:
                s = f.read()
            names = set(re.findall(r'^(@[-\w.$]+) = (?:private|internal)', s, re.M)) | set(re.findall(r'^define (?:internal|private)[^@]*(@[-\w.$]+)\(', s, re.M))
            s = re.sub(r'@[-\w.$]+', lambda m: "@cxx%d%s" % (k, m.group(0)[1:]) if m.group(0) in names else m.group(0), s)
            s = re.sub(r'%("?)((?:struct|class|union)\.)', lambda m: '%%%scxx%d.%s' % (m.group(1), k, m.group(2)), s)
            o.write(b"\n" + s.encode())
    return out


def build_harness(crate, features=()):
    """IR for the executor and a native binary for replays, from the same sources"""
    src = os.path.join(VERIF, "harness", crate)
    shutil.copy(os.path.join(REPO, "Cargo.lock"), os.path.join(src, "Cargo.lock"))
    env = {}
    for pre in suites.CRATES[crate].get("pre", []):
        env.update(pre(sys.modules[__name__]))
    tgt = os.path.join(BUILD, crate)
    deps = os.path.join(tgt, "release/deps")
    if os.path.isdir(deps):
        for f in os.listdir(deps):
            if f.endswith(".ll"):
                os.remove(os.path.join(deps, f))
    res = {}

    def ir():
        try:
            # a fresh name for the unit each time, so that the .ll is always written
            e = dict(env)
            e["CARGO_TARGET_DIR"] = tgt
            os.utime(os.path.join(src, "src/main.rs"))
            run(["cargo", "rustc", "--offline", "--release", "--", "--emit=llvm-ir", "-C", "linker=/bin/true"], cwd=src, env=e)
            l = [os.path.join(deps, f) for f in os.listdir(deps) if f.startswith(crate) and f.endswith(".ll")]
            if len(l) != 1:
                raise NoAnswer("no IR for %s" % crate)
            res["ll"] = l[0]
        except Exception as x:
            res["err"] = x

    def native():
        try:
            e = dict(env)
            e["CARGO_TARGET_DIR"] = tgt + "-replay"
            if "LAPEX_CXX_OBJ" in e:
                e["CARGO_TARGET_X86_64_UNKNOWN_LINUX_GNU_LINKER"] = os.path.join(VERIF, "tools/asan-g++")
                e["ASAN_OPTIONS"] = "detect_leaks=0"
            run(["cargo", "build", "--offline", "--profile", "replay", "--features", "replay"], cwd=src, env=e)
            res["bin"] = os.path.join(tgt + "-replay", "replay", crate)
        except Exception as x:
            res["err"] = x

    # the lock file is completed by whichever cargo comes first
    run(["cargo", "metadata", "--offline", "--format-version", "1"], cwd=src, env=env)
    ts = [threading.Thread(target=f) for f in (ir, native)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if "LAPEX_CXX_OBJ" in env and "ll" in res:
        res["ll"] = merge_ir(env["LAPEX_GEN_DIR"], res["ll"], os.path.join(BUILD, crate + "-merged.ll"))
    if "err" in res:
        raise res["err"] if isinstance(res["err"], NoAnswer) else NoAnswer(repr(res["err"]))
    return res


def pretty(sym):
    """readable path of a v0-mangled symbol"""
    ids = []
    i = 0
    while i < len(sym):
        m = re.match(r"(\d+)_?", sym[i:])
        if m and not (i and sym[i - 1].isalnum() and sym[i - 1] in "s"):
            n = int(m.group(1))
            j = i + m.end()
            if 0 < n <= len(sym) - j:
                ids.append(sym[j:j + n])
                i = j + n
                continue
        i += 1
    return "::".join(ids)


def encoded(fns):
    """functions of the code under test that were executed symbolically"""
    out = {}
    gen = {}
    cxx = [k for k in fns if re.match(r"_ZNK?\d+c\d+[0-9A-Za-z_]", k)]
    if cxx:
        names = subprocess.run(["c++filt"], input="\n".join(cxx), stdout=subprocess.PIPE, text=True).stdout.splitlines()
        for k, d in zip(cxx, names):
            gen.setdefault("generated C++: " + re.sub(r"\bc\d+::", "", d), []).append(fns[k])
    for k, n in fns.items():
        m = re.search(r"(3rlr|4rglr|4rlex)\d*c\d+(.*)", k)
        if m:
            gen.setdefault("generated Rust: " + "::".join(re.findall(r"\d([A-Za-z_]\w*?)(?=\d|$|E|B|N)", re.sub(r"^(?=\d)", "", m.group(2)))[:4] or [m.group(2)]), []).append(n)
    for d, v in gen.items():
        out["%s (of %d cases)" % (d, len(v))] = sum(v)
    for k, n in fns.items():
        if "lapex" in k and not re.match(r"_RI?N[a-z]*M?[a-z0-9]*_?NtNt.*(alloc|core)", k) and "_4core" not in k[:40] and "_5alloc" not in k[:40]:
            p = pretty(k)
            if p:
                out[p] = out.get(p, 0) + n
        elif k.startswith("_ZN") and "lapex" in k:
            out[k] = out.get(k, 0) + n
    return out


def replay(binary, entry, args, inputs, timeout=30):
    e = dict(ENV)
    e["SYM_INPUTS"] = ",".join(str(x) for x in inputs)
    e["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=99"
    try:
        p = subprocess.run([binary, entry] + [str(a) for a in args], env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=timeout)
    except subprocess.TimeoutExpired:
        return "timeout", [], [], ""
    out = p.stdout.decode("utf8", "replace")
    obs = [int(l[4:]) for l in out.splitlines() if l.startswith("OBS ")]
    notes = [l[5:] for l in out.splitlines() if l.startswith("NOTE ")]
    res = [l[7:] for l in out.splitlines() if l.startswith("REPLAY ")]
    res = res[-1] if res else "crash:%d" % p.returncode
    return res, obs, notes, p.stderr.decode("utf8", "replace")[-1500:]


def reproduced(kind, res):
    """does the native outcome confirm what the executor reported?"""
    if kind.startswith("fail:"):
        return res.startswith("fail:") or res.startswith("panic at") or res.startswith("crash") or res == "timeout"
    if kind == "too-long":
        return res == "timeout" or res.startswith("fail:")
    return res.startswith("panic at") or res.startswith("fail:") or res.startswith("crash") or res == "timeout"


def refuted(prop, tier, seed, suite, text):
    path = os.path.join(VERIF, "evidence", prop + ".replay.json")
    rec = {"property": prop, "kind": "generated code", "native": text[-12000:]}
    with open(path, "w") as f:
        json.dump([rec], f, indent=1)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [rec], "bounds": suite["bounds"]},
          "assumptions": [], "wall_s": round(time.time() - T0, 2), "violations": 1}
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    log(text[-4000:])
    print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
    return 1


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    suite = suites.SUITES[prop]
    jobs = suite[tier] if tier in suite else suite["quick"]
    os.makedirs(BUILD, exist_ok=True)
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    symx = {}

    def be():
        try:
            symx["path"] = build_engine()
        except Exception as x:
            symx["err"] = x
    t = threading.Thread(target=be)
    t.start()
    built = {}
    err = None
    for c in dict.fromkeys(j["crate"] for j in jobs):
        try:
            built[c] = build_harness(c)
        except (NoAnswer, Refuted) as x:
            err = x
            break
    t.join()
    if isinstance(err, Refuted):
        return refuted(prop, tier, seed, suite, str(err))
    if err:
        raise err
    if "err" in symx:
        raise NoAnswer(str(symx["err"]))
    log("built", ", ".join(built))

    tot = {}
    fns = {}
    entries = []
    violations = []
    known = []
    samples = []
    validated = 0
    exhaustive = True
    max_query = 0
    ncpu = min(8, os.cpu_count() or 4)
    for j in jobs:
        b = built[j["crate"]]
        out = os.path.join(BUILD, "out.%s.%d.json" % (prop, os.getpid()))
        cmd = [symx["path"], "--ll", b["ll"], "--entry", j["entry"]]
        for a in j["args"]:
            cmd += ["--arg", str(a)]
        cap = j.get("secs", 600)
        cmd += ["--jobs", str(ncpu), "--max-secs", str(cap), "--samples", "3", "--out", out]
        if "max_insts" in j:
            cmd += ["--max-insts", str(j["max_insts"])]
        p = subprocess.run(cmd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        name = "%s(%s)" % (j["entry"], ",".join(map(str, j["args"])))
        if p.returncode != 0 or not os.path.exists(out):
            raise NoAnswer("executor gave up on %s: %s" % (name, p.stdout.decode("utf8", "replace")[-2000:]))
        d = json.load(open(out))
        os.remove(out)
        s = d["stats"]
        for k, v in s.items():
            tot[k] = tot.get(k, 0) + v
        max_query = max(max_query, s.get("max_query_us", 0))
        for k, v in encoded(d["functions"]).items():
            fns[k] = fns.get(k, 0) + v
        log(name, "%.1fs" % (d["wall_ms"] / 1000), "paths", s["paths"], "obligations", s["obligations"],
            "discharged", s["discharged"], "queries", s["queries"] + s["quick_queries"], "reach", d["reach"],
            "violations", len(d["violations"]), ("INCOMPLETE %d" % s["incomplete"]) if s["incomplete"] else "")
        entries.append({"entry": name, "what": j.get("what", ""), "paths": s["paths"], "obligations": s["obligations"],
                        "discharged": s["discharged"], "wall_ms": d["wall_ms"], "complete": s["incomplete"] == 0})
        # counterexamples count only if the real code shows them
        seen = set()
        for v in d["violations"]:
            res, obs, notes, errtxt = replay(b["bin"], j["entry"], j["args"], v["inputs"], j.get("replay_timeout", 30))
            if not reproduced(v["kind"], res):
                raise NoAnswer("counterexample of %s not reproduced natively: %s %s -> %s %s" % (name, v["kind"], v["inputs"], res, errtxt))
            key = (v["kind"], res)
            if key in seen:
                continue
            seen.add(key)
            rec = {"property": prop, "entry": j["entry"], "args": j["args"], "inputs": v["inputs"], "kind": v["kind"],
                   "native": res, "notes": notes, "stack": v["stack"][:12], "stderr": errtxt,
                   "rerun": "SYM_INPUTS=%s %s %s %s" % (",".join(map(str, v["inputs"])), b["bin"], j["entry"], " ".join(map(str, j["args"])))}
            if "known" in j and v["kind"] in j.get("known_kinds", (v["kind"],)):
                known.append((j["known"], rec))
            else:
                violations.append(rec)
        if "known" in j:
            continue
        if s["incomplete"] and not d["violations"]:
            exhaustive = False
            if tier == "quick" and not j.get("partial"):
                raise NoAnswer("exploration of %s did not finish within %d s" % (name, cap))
        if s["obligations"] != s["discharged"] and not d["violations"] and not s["incomplete"]:
            raise NoAnswer("%s: %d of %d obligations discharged, but no counterexample" % (name, s["discharged"], s["obligations"]))
        if not d["violations"]:
            for c in j.get("reach", []):
                if str(c) not in d["reach"]:
                    raise NoAnswer("%s never reached point %s: the check would be vacuous" % (name, c))
        for x in d["samples"][:6]:
            res, obs, notes, errtxt = replay(b["bin"], j["entry"], j["args"], x["inputs"], j.get("replay_timeout", 30))
            if res not in ("ok", "panic-allowed") or (res == "ok" and obs != x["obs"]):
                raise NoAnswer("executor and native run disagree on %s inputs %s: %s vs %s %s %s" % (name, x["inputs"], x["obs"], res, obs, errtxt))
            validated += 1
            if len(samples) < 12:
                samples.append({"entry": name, "inputs": x["inputs"], "observed": x["obs"], "notes": notes})
        if violations:
            break  # enough to answer

    cov = {
        "states": tot.get("paths", 0), "transitions": tot.get("insts", 0), "traces_validated_against_impl": validated,
        "samples": samples or [violations[0] if violations else {}],
        "what": "states = execution paths of the real code explored to their end, each with symbolic data; transitions = instructions of the compiled code executed symbolically",
        "entries": entries, "bounds": suite["bounds"], "outside": suite.get("outside", ""),
        "functions_encoded": dict(sorted(fns.items())),
        "obligations": tot.get("obligations", 0), "discharged": tot.get("discharged", 0),
        "solver": {"built_in_queries": tot.get("quick_queries", 0), "built_in_seconds": tot.get("quick_us", 0) / 1e6,
                   "z3_queries": tot.get("queries", 0), "z3_seconds": tot.get("solver_us", 0) / 1e6,
                   "cross_checked_by_z3": tot.get("cross_checked", 0), "sat": tot.get("sat", 0), "unsat": tot.get("unsat", 0),
                   "longest_query_ms": max_query / 1000},
        "forks": tot.get("forks", 0), "pruned_paths": tot.get("pruned", 0), "exhaustive": exhaustive and not violations,
        "known_findings": [k for k, _ in known],
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": suite.get("assumptions", []) + suites.COMMON_ASSUMPTIONS, "wall_s": round(time.time() - T0, 2),
          "violations": len(violations)}
    with open(os.path.join(evdir, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in dict.fromkeys(k for k, _ in known):
        print("KNOWN-FINDING: property=%s %s" % (prop, suites.KNOWN[k]))
    if violations:
        path = os.path.join(evdir, prop + ".replay.json")
        with open(path, "w") as f:
            json.dump(violations, f, indent=1)
        for v in violations[:4]:
            log("counterexample", v["entry"], v["args"], v["inputs"], v["kind"], v["native"], v["notes"])
        print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
        return 1
    log("held")
    return 0


if __name__ == "__main__":
    if len(sys.argv) > 1 and sys.argv[1] == "--setup":
        os.makedirs(BUILD, exist_ok=True)
        print(build_engine())
        sys.exit(0)
    try:
        sys.exit(main())
    except NoAnswer as x:
        print("NO ANSWER:", x, flush=True)
        sys.exit(3)
