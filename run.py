#!/usr/bin/env python3
"""run.py <property> [--tier quick|thorough] [--replay FILE] [--keep]

Builds the explorers of one property from /repo's working tree, runs them, writes
evidence/<property>.json and reports.  Exit 0: held on everything explored.  Exit 1 and a line
`VIOLATION property=<id> replay=<path>`: broken.  Exit 2: no answer (environment problem).
"""
import argparse, concurrent.futures as cf, json, os, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
from parts import PROPS  # noqa: E402

CXX = shutil.which("clang++-18") or shutil.which("clang++") or "g++"
BASE = ["-std=c++20", "-march=native", "-w", "-include", os.path.join(HERE, "lib", "prelude.hpp"), "-I", os.path.join(REPO, "include"),
        "-I", os.path.join(HERE, "shim"), "-I", os.path.join(HERE, "lib"),
        f'-DVERIF_DIR="{HERE}"']
OPT = ["-O2"]
# -ffp-contract: the library is built with the compiler's default
SAN = ["-O1", "-g1", "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
LIBS = ["-lgmpxx", "-lgmp", "-lpthread"]
KINDS = {"opt": OPT, "san": SAN, "tsan": ["-O1", "-g1", "-fsanitize=thread"], "cov": ["-O1"]}


def build(part, tmp):
    src = os.path.join(HERE, "checks", part["src"])
    exe = os.path.join(tmp, part["name"])
    cmd = [CXX] + BASE + KINDS[part.get("kind", "opt")] + [f"-DPART_{d}" if not d.startswith("-") else d
                                                          for d in part.get("defs", [])]
    t = time.time()
    try:
        steps = part.get("steps")
        if steps:
            for s in steps(dict(cxx=CXX, base=BASE, here=HERE, repo=REPO, tmp=tmp, src=src, exe=exe, libs=LIBS)):
                r = subprocess.run(s, capture_output=True, text=True, timeout=600)
                if r.returncode:
                    break
        else:
            # preferred flags first; without them if the tree does not build that way
            for pref in ([part["prefer"]] if part.get("prefer") else []) + [[]]:
                r = subprocess.run(cmd + [x.replace("{lib}", os.path.join(HERE, "lib")) for x in pref] + [src, "-o", exe] + part.get("libs", []) + LIBS,
                                   capture_output=True, text=True, timeout=600)
                if r.returncode == 0:
                    break
        return part, exe, r.returncode, r.stderr[-4000:], time.time() - t
    except subprocess.TimeoutExpired:
        return part, exe, 1, "compile timeout", time.time() - t


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--part")
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    tier = "thorough" if a.tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = PROPS[a.prop]
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix=f"verif.{a.prop}.")
    try:
        return work(a, tier, seed, spec, t0, tmp)
    finally:
        if not a.keep:
            shutil.rmtree(tmp, ignore_errors=True)


def work(a, tier, seed, spec, t0, tmp):
    rep = json.load(open(a.replay)) if a.replay else None
    parts = [p for p in spec["parts"] if tier == "thorough" or not p.get("thorough_only")]
    if rep:
        parts = [p for p in spec["parts"] if p["name"] == rep["part"]]
    if a.part:
        parts = [p for p in parts if p["name"] == a.part]
    env = dict(os.environ)
    env.setdefault("ASAN_OPTIONS", "abort_on_error=0:detect_leaks=0:malloc_context_size=1:quarantine_size_mb=16:allocator_may_return_null=1:exitcode=99")
    env.setdefault("UBSAN_OPTIONS", "print_stacktrace=0")
    env["GLIBC_TUNABLES"] = ""
    results, skipped, violation, unconf = [], [], None, []
    njobs = max(1, min(8, len(parts)))
    with cf.ThreadPoolExecutor(njobs) as ex:
        futs = [ex.submit(build, p, tmp) for p in parts]
        builds = [f.result() for f in futs] if len(parts) > 1 else None
        for f in (futs if builds is None else futs):
            part, exe, rc, err, dt = f.result()
            print(f"# built {part['name']} in {dt:.1f} s rc={rc}", flush=True)
            if rc:
                # an internal interface this part drives no longer exists in this form
                skipped.append({"part": part["name"], "error": err[-600:]})
                sys.stderr.write(err[-1500:] + "\n")
                continue
            summ = os.path.join(tmp, part["name"] + ".json")
            cmd = [exe, "--tier", tier, "--seed", str(seed), "--out", summ]
            if part.get("workers"):
                cmd += ["--workers", str(part["workers"])]
            extra = [str(x) for x in part.get("args_thorough", []) if tier == "thorough"] or [str(x) for x in part.get("args", [])]
            cmd += extra
            if rep:
                r = subprocess.run([exe] + extra + [ "--tier", rep.get("tier", tier), "--seed", str(seed), "--replay", rep["items"]],
                                   env=env, cwd=tmp)
                if r.returncode == 1:
                    print(f"VIOLATION property={a.prop} replay={a.replay}")
                return r.returncode
            if a.only:
                cmd += ["--only", a.only]
            cmd += ["--budget", str(spec.get("budget", 600 if tier == "quick" else 3000))]
            for attempt in range(3):
                r = subprocess.run(cmd, env=env, cwd=tmp, stderr=subprocess.PIPE, text=True, errors="replace")
                sys.stderr.write(r.stderr[-3000:])
                try:
                    s = json.load(open(summ))
                except Exception as e:  # the explorer itself did not finish
                    s = {"status": "broken", "message": f"explorer ended with {r.returncode}: {e}"}
                if s["status"] in ("ok", "violation"):
                    break
                env["MC_LIMIT_SCALE"] = str(4 ** (attempt + 1))
            s["part"] = part["name"]
            print(f"# ran {part['name']}: {s['status']} {s.get('executions', 0)} executions in {s.get('wall_s', 0):.1f} s",
                  flush=True)
            results.append(s)
            if s["status"] == "violation":
                violation = s
                break
            if s["status"] != "ok":
                unconf.append(s)
    outcomes, fams = {}, {}
    for s in results:
        for k, v in s.get("outcomes", {}).items():
            outcomes[k] = outcomes.get(k, 0) + v
        for k, v in s.get("families", {}).items():
            fams[f"{s['part']}/{k}"] = v
    known = [k for k in json.load(open(os.path.join(HERE, "known-findings.json")))["known"] if k["property"] == a.prop]
    cov = {
        "states": sum(s.get("states", 0) for s in results),
        "transitions": sum(s.get("transitions", 0) for s in results),
        "traces_validated_against_impl": sum(s.get("traces", 0) for s in results),
        "executions": sum(s.get("executions", 0) for s in results),
        "samples": [x for s in results for x in s.get("samples", [])][:16] or ["(none)"],
        "distinct_outcomes": len(outcomes),
        "outcomes": outcomes,
        "families": fams,
        "exhaustive": not any(s.get("truncated") for s in results) and not skipped and violation is None,
        "bounds": spec["bounds"],
        "explorer": spec["how"],
        "skipped_parts": skipped,
    }
    ev = {"property": a.prop, "tier": tier, "seed": seed, "level": spec.get("level", "model_checking"),
          "coverage": cov, "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 3),
          "violations": 1 if violation else 0}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    if not (a.only or a.part):
        with open(os.path.join(HERE, "evidence", a.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    print(f"# {a.prop} {tier}: states={cov['states']} transitions={cov['transitions']} "
          f"traces={cov['traces_validated_against_impl']} executions={cov['executions']} outcomes={len(outcomes)} "
          f"wall={time.time() - t0:.1f}s", flush=True)
    for k in sorted(outcomes):
        print(f"#   outcome {k}: {outcomes[k]}")
    if violation:
        d = os.path.join(HERE, "replays")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, f"{a.prop}-{violation['part']}-{violation['family']}-{violation['index']}.json")
        with open(p, "w") as f:
            json.dump({"property": a.prop, "part": violation["part"], "tier": tier, "items": violation["replay"],
                       "message": violation["message"],
                       "run": f"python3 /verif/run.py {a.prop} --replay {p}"}, f, indent=1)
        print(f"# {violation['message']}")
        print(f"VIOLATION property={a.prop} replay={p}")
        return 1
    for k in known:
        print(f"KNOWN-FINDING: property={a.prop} {k['what']}")
    if unconf:
        print("# no answer:", json.dumps([(s["part"], s["status"], s.get("message")) for s in unconf])[:2000])
        return 2
    if not any(s["status"] == "ok" for s in results):
        print("# no answer: nothing could be built")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
