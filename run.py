#!/usr/bin/env python3
"""Runs the check of one property:  run.py P01 [quick|thorough]   (or: run.py setup)

Every run compiles the harness together with the library from /repo's working tree to LLVM IR,
executes the IR symbolically (engine/symex.cpp, z3), replays what the solver reports against a
native build with sanitizers, and writes evidence/<id>.json.
exit 0: held on everything explored; 1: VIOLATION lines; 2: the machinery could not answer."""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
CPUS = int(os.environ.get("VERIF_PROCS", os.cpu_count()))
sys.path.insert(0, V)
from checks import CHECKS, ASSUME  # noqa: E402

ENGINE_FLAGS = ["-O2", "-g0", "-std=c++20", "-fexceptions", "-frtti", "-I/usr/lib/llvm-18/include", "-D_GNU_SOURCE",
                "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS", "-w"]
ENGINE_LIBS = ["-L/usr/lib/llvm-18/lib", "-lLLVM-18", "-lz3", "-ldl", "-rdynamic"]
COMMON = ["-std=c++20", "-include", "cstdint", f"-I{REPO}/src", f"-I{V}/harness", "-D_FILE_OFFSET_BITS=64",
          "-DSOURCE_PATH_SIZE=1", "-DFMT_HEADER_ONLY", "-w"]
IRFLAGS = ["-D_GLIBCXX_EXTERN_TEMPLATE=0", "-O1", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops",
           "-emit-llvm"]
T0 = time.time()


class Broken(Exception):
    pass


def log(*a):
    print(f"[{time.time() - T0:6.1f}s]", *a, flush=True)


def sh(cmd, timeout=600, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, **kw)
    if p.returncode != 0:
        raise Broken("command failed: " + " ".join(cmd)[:300] + "\n" + p.stdout.decode(errors="replace")[-3000:])
    return p.stdout.decode(errors="replace")


def cxx():
    for c in ("clang++-18", "clang++"):
        if shutil.which(c):
            return c
    raise Broken("no clang++")


def engine():
    """the engine binary, built from engine/ if it is not there yet"""
    src = b"".join(open(f"{V}/engine/{f}", "rb").read() for f in ("expr.hpp", "symex.cpp"))
    h = hashlib.sha256(src).hexdigest()[:16]
    d = f"{V}/build"
    os.makedirs(d, exist_ok=True)
    out = f"{d}/symex-{h}"
    if not os.path.exists(out):
        for f in os.listdir(d):
            if f.startswith("symex-"):
                os.unlink(f"{d}/{f}")
        sh([cxx()] + ENGINE_FLAGS + [f"{V}/engine/symex.cpp", "-o", out + ".tmp"] + ENGINE_LIBS)
        os.rename(out + ".tmp", out)
    return out


def sources():
    r = []
    for d, _, fs in os.walk(f"{REPO}/src/log_surgeon"):
        r += [os.path.join(d, f) for f in fs if f.endswith(".cpp")]
    return sorted(r)


def write_lib(work):
    """library.hpp: every source file of the library, as one translation unit; sep/library.hpp: its headers only"""
    with open(f"{work}/library.hpp", "w") as o:
        o.write("#pragma once\n#include <cstdint>\n")
        for s in sources():
            o.write(f'#include "{s}"\n')
    os.makedirs(f"{work}/sep", exist_ok=True)
    with open(f"{work}/sep/library.hpp", "w") as o:
        o.write("#pragma once\n#include <cstdint>\n")
        for d, _, fs in sorted(os.walk(f"{REPO}/src/log_surgeon")):
            for f in sorted(fs):
                if f.endswith(".hpp"):
                    o.write(f'#include "{d}/{f}"\n')


def compile_all(work, o, harness, flags, ext):
    """The harness and the library, as one translation unit if they compile as one (files of the library may
    use the same name for different helpers), otherwise as one per source file. Returns the objects."""
    def one(src, obj, inc):
        sh([cxx()] + COMMON + [f"-I{inc}"] + flags + ["-c", src, "-o", obj])
        return obj
    try:
        if os.environ.get("VERIF_SEPARATE"):
            raise Broken("asked to compile separately")
        return [one(f"{V}/harness/{harness}.cpp", f"{o}/h.{ext}", work)]
    except Broken as e:
        log(f"{harness} does not compile with the library as one translation unit: compiling separately")
        try:
            todo = [(f"{V}/harness/{harness}.cpp", f"{o}/h.{ext}")] + [(s, f"{o}/l{i}.{ext}") for i, s in enumerate(sources())]
            with cf.ThreadPoolExecutor(6) as ex:
                return list(ex.map(lambda t: one(*t, f"{work}/sep"), todo))
        except Broken:
            raise e


def build_ir(work, sx, harness, buf):
    o = f"{work}/{harness}-{buf}"
    os.makedirs(o, exist_ok=True)
    bcs = compile_all(work, o, harness, IRFLAGS + [f"-DLOG_SURGEON_VERIF_STATIC_BUFF_SIZE={buf}"], "bc")
    if len(bcs) > 1:
        link = next(l for l in ("/usr/lib/llvm-18/bin/llvm-link", shutil.which("llvm-link-18"), shutil.which("llvm-link")) if l and os.path.exists(l))
        sh([link] + bcs + ["-o", f"{o}/all.bc"])
        bcs = [f"{o}/all.bc"]
    sh([sx, "prep", bcs[0], f"{o}/p.bc"])
    sh([cxx(), "-O1", "-fPIC", "-shared", "-Wl,-Bsymbolic", "-Wno-override-module", f"{o}/p.bc", "-o", f"{o}/h.so"])
    return o


def build_native(work, harness, buf, heap):
    """the same harness and library, compiled for the machine with sanitizers"""
    o = f"{work}/{harness}-{buf}" + ("-heap" if heap else "-san")
    os.makedirs(o, exist_ok=True)
    fl = ["-O0", "-g1", "-D_GLIBCXX_ASSERTIONS", f"-DLOG_SURGEON_VERIF_STATIC_BUFF_SIZE={buf}"]
    fl += ["-DSYM_CUSTOM_HEAP"] if heap else ["-fsanitize=address,undefined", "-fno-sanitize=vptr", "-fno-sanitize-recover=undefined"]
    with cf.ThreadPoolExecutor(2) as ex:
        b = ex.submit(lambda: sh([cxx()] + COMMON + fl + ["-c", f"{V}/harness/native_rt.cpp", "-o", f"{o}/rt.o"]))
        objs = compile_all(work, o, harness, fl, "o")
        b.result()
    sh([cxx()] + fl + objs + [f"{o}/rt.o", "-rdynamic", "-ldl", "-o", f"{o}/replay"])
    return f"{o}/replay"


def replay(binary, path, params, entry, obs=False, timeout=60):
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1",
               UBSAN_OPTIONS="halt_on_error=1:exitcode=99")
    cmd = [binary, path] + (["-o"] if obs else []) + ([f"--entry={entry}"] if entry else []) + [f"{k}={v}" for k, v in params.items()]
    scratch = tempfile.mkdtemp(prefix="replay")
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env, cwd=scratch)
    except subprocess.TimeoutExpired:
        return "timeout", "", " ".join(cmd)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return p.returncode, p.stdout.decode(errors="replace") + p.stderr.decode(errors="replace"), " ".join(cmd)


def parse_case(path):
    r = {"in": [], "obs": [], "text": open(path, errors="replace").read()}
    for l in r["text"].splitlines():
        k, _, v = l.partition(" ")
        if k == "in":
            n, _, h = v.partition(" ")
            r["in"].append((n, bytes.fromhex(h.strip())))
        elif k == "obs":
            r["obs"].append(v.strip())
        elif k not in r:
            r[k] = v
    return r


def show(case):
    return ", ".join(f"{n}={b!r}"[:200] for n, b in case["in"])


def known_findings(prop):
    try:
        k = json.load(open(f"{V}/known_findings.json"))
    except FileNotFoundError:
        return []
    return [f for f in k.get("findings", []) if f["property"] == prop]


def check(prop, tier):
    spec = CHECKS[prop]
    budget = float(os.environ.get("VERIF_BUDGET", 420 if tier == "quick" else 3000))
    runs = []
    for r in spec["runs"]:
        if r.get("tier") and r["tier"] != tier:
            continue
        r = dict(r)
        r["params"] = dict(r.get("params", {}), **(r.get("thorough", {}) if tier == "thorough" else {}))
        r.setdefault("buf", 512)
        runs.append(r)
    work = tempfile.mkdtemp(prefix=f"verif-{prop}-")
    outdir = f"{V}/evidence/{prop}"
    shutil.rmtree(outdir, ignore_errors=True)
    os.makedirs(outdir, exist_ok=True)
    tot = dict(paths=0, forks=0, queries=0, sat=0, unsat=0, unknown=0, solver_s=0.0, instructions=0, asserts=0, symbolic_asserts=0,
               symbolic_branches=0, incomplete=0, pruned=0)
    funcs, cover, viol, unconf, errors, samples, per_run = set(), {}, [], [], [], [], []
    validated = 0
    not_exhausted = []
    kf = known_findings(prop)

    def is_known(v):
        return next((f for f in kf if f["label"] == v["label"] and f.get("run", v["run"]) == v["run"]), None)
    try:
        write_lib(work)
        ex = cf.ThreadPoolExecutor(6)
        fe = ex.submit(engine)
        keys = sorted({(r["harness"], r["buf"]) for r in runs})
        irs = {k: ex.submit(lambda k=k: build_ir(work, fe.result(), *k)) for k in keys}
        nat = {}

        def native(h, b, heap):
            if (h, b, heap) not in nat:
                nat[(h, b, heap)] = ex.submit(build_native, work, h, b, heap)
            return nat[(h, b, heap)]
        for i, r in enumerate(runs):
            d = irs[(r["harness"], r["buf"])].result()
            if i == 0:
                log("built", fe.result())
            for r2 in runs:
                native(r2["harness"], r2["buf"], r2.get("heap", False))
            out = f"{work}/out{i}"
            os.makedirs(out)
            left = budget - (time.time() - T0)
            weight = sum(x.get("weight", 1) for x in runs[i:])
            dl = max(20.0, left * r.get("weight", 1) / weight) if i < len(runs) else left
            cmd = [fe.result(), "run", f"{d}/p.bc", f"{d}/h.so", out, f"--procs={CPUS}", f"--deadline={dl:.0f}",
                   f"--maxviol={r.get('maxviol', 8) + 3 * len(kf)}", f"--stride={r.get('stride', 37)}", f"--steps={r.get('steps', 2000000000)}"]
            if r.get("entry"):
                cmd.append("--entry=" + r["entry"])
            cmd += [f"{k}={v}" for k, v in r["params"].items()]
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=dl + 120)
            if not os.path.exists(f"{out}/result.json"):
                raise Broken(f"engine gave no result for {r['name']}: rc={p.returncode} {p.stderr.decode(errors='replace')[-1500:]}")
            res = json.load(open(f"{out}/result.json"))
            for k in tot:
                tot[k] += res.get(k, 0)
            funcs |= set(res["functions"])
            for k, v in res["cover"].items():
                cover[k] = cover.get(k, 0) + v
            log(f"{r['name']}: rc={p.returncode} paths={res['paths']} queries={res['queries']} wall={res['wall_s']}s viol={res['violations']} err={res['errors'][:300]}")
            per_run.append({"run": r["name"], "harness": r["harness"], "entry": r.get("entry", "harness"), "static_buffer": r["buf"],
                            "bounds": r["params"], "paths": res["paths"], "queries": res["queries"], "asserts": res["asserts"],
                            "exhausted": p.returncode == 0, "wall_s": res["wall_s"]})
            if p.returncode == 3 or res["unknown"]:
                errors.append(f"{r['name']}: engine error: {res['errors'][:500]} unknown={res['unknown']}")
            if p.returncode == 4 or res["incomplete"] or (res["stopped"] and not res["violations"]):
                not_exhausted.append(r["name"])
            if p.returncode not in (1, 3, 4):
                for c in r.get("cover", []):
                    if not res["cover"].get(c):
                        # the witness that the harness reaches what it is about
                        errors.append(f"{r['name']}: nothing reached '{c}' (vacuous)")
            binary = native(r["harness"], r["buf"], r.get("heap", False)).result()
            par = r["params"]
            # violations: replay against the native build
            names = sorted(f for f in os.listdir(out) if f.startswith("violation_"))
            for n in names:
                case = parse_case(f"{out}/{n}")
                rc, txt, cmdline = replay(binary, f"{out}/{n}", par, r.get("entry"))
                label = case.get("label", "")
                m = re.search(r"^FAIL (.*)$", txt, re.M)
                ok = rc != 0
                if ok and rc == 1 and m and case.get("kind") == "assert" and m.group(1) != label:
                    label = f"{label} (native: {m.group(1)})"
                v = {"run": r["name"], "label": label, "kind": case.get("kind", ""), "inputs": show(case), "native": (m.group(0) if m else f"rc={rc} " + txt.strip()[-600:]), "file": n, "case": case, "r": r}
                (viol if ok else unconf).append(v)
            # samples: the predicted observations against the native run
            sn = sorted(f for f in os.listdir(out) if f.startswith("sample_"))
            sn = sn[:: max(1, len(sn) // r.get("nsamples", 24))]
            with cf.ThreadPoolExecutor(CPUS) as rx:
                ran = list(rx.map(lambda n: replay(binary, f"{out}/{n}", par, r.get("entry"), obs=True), sn))
            for n, (rc, txt, _) in zip(sn, ran):
                case = parse_case(f"{out}/{n}")
                got = [l[4:].strip() for l in txt.splitlines() if l.startswith("obs ")]
                if rc != 0 or (got != case["obs"] and "noobs" not in r):
                    v = {"run": r["name"], "label": "native run of an explored path fails" if rc else "prediction differs", "kind": "sample", "inputs": show(case),
                         "native": f"rc={rc} " + txt.strip()[-800:], "file": n, "case": case, "r": r}
                    if rc != 0:
                        viol.append(v)
                    else:
                        errors.append(f"{r['name']}: the engine's prediction differs from the native run on {show(case)}: {case['obs'][:40]} vs {got[:40]}")
                    continue
                validated += 1
                if len(samples) < 12:
                    samples.append({"run": r["name"], "inputs": show(case)})
            for n in names[:8]:
                shutil.copy(f"{out}/{n}", f"{outdir}/{r['name']}-{n}")
            if any(not is_known(v) for v in viol):
                break
    finally:
        shutil.rmtree(work, ignore_errors=True)
    new, known = [], []
    for v in viol:
        f = is_known(v)
        (known if f else new).append((f, v))
    for f in kf:
        if any(g is f for g, _ in known):
            print(f"KNOWN-FINDING: property={prop} {f['what']}")
    for _, v in new[:6]:
        r = v["r"]
        path = f"{outdir}/{r['name']}-{v['file']}"
        with open(path, "w") as o:
            o.write(v["case"]["text"])
            o.write(f"\n# property {prop}, run {r['name']}: {v['label']}\n# inputs: {v['inputs']}\n# native replay: {v['native']}\n"
                    f"# reproduce: {V}/run.py replay {prop} {r['name']} {path}\n")
        log(f"violation in {r['name']}: {v['label']} | {v['inputs']} | {v['native'][:400]}")
        print(f"VIOLATION property={prop} replay={path}", flush=True)
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", 1)), "level": "model_checking",
          "coverage": {"states": tot["paths"] + tot["forks"], "transitions": tot["symbolic_branches"],
                       "traces_validated_against_impl": validated, "samples": samples,
                       "exhaustive": not not_exhausted and not errors and not new,
                       "path_classes": tot["paths"], "solver_queries": tot["queries"], "sat": tot["sat"], "unsat": tot["unsat"],
                       "unknown": tot["unknown"], "solver_s": round(tot["solver_s"], 2), "instructions": tot["instructions"],
                       "assertions_checked": tot["asserts"], "assertions_decided_by_solver": tot["symbolic_asserts"],
                       "witnesses": cover, "runs": per_run, "not_exhausted": not_exhausted, "functions_encoded": sorted(funcs),
                       "explanation": "states = path classes plus forks of the symbolic execution; transitions = symbolic branches decided; "
                                      "every value of the symbolic inputs within the bounds is covered when exhaustive is true"},
          "assumptions": ASSUME + spec.get("assumptions", []), "wall_s": round(time.time() - T0, 1), "violations": len(new)}
    json.dump(ev, open(f"{V}/evidence/{prop}.json", "w"), indent=1)
    if new:
        return 1
    for v in unconf:
        errors.append(f"{v['run']}: '{v['label']}' does not reproduce natively: {v['inputs']} {v['case'].get('where', '')}")
    if errors:
        for e in errors:
            log("ERROR", e)
        return 2
    log(f"{prop} {tier}: held; {tot['paths']} path classes, {validated} replayed natively" + (f"; not exhausted: {not_exhausted}" if not_exhausted else ""))
    return 0


def main():
    if sys.argv[1] == "setup":
        engine()
        return 0
    if sys.argv[1] == "replay":
        prop, name, path = sys.argv[2:5]
        r = next(r for r in CHECKS[prop]["runs"] if r["name"] == name)
        work = tempfile.mkdtemp(prefix="verif-replay-")
        try:
            write_lib(work)
            b = build_native(work, r["harness"], r.get("buf", 512), r.get("heap", False))
            rc, txt, _ = replay(b, path, r.get("params", {}), r.get("entry"))
            print(txt)
            return 0 if rc == 0 else 1
        finally:
            shutil.rmtree(work, ignore_errors=True)
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    try:
        return check(sys.argv[1], tier)
    except (Broken, subprocess.TimeoutExpired) as e:
        log("ERROR", e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
