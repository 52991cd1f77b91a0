#!/usr/bin/env python3
"""check.py <property id> [--replay FILE] [--scale X] [--prop NAME] [--keep]

Builds the harness of one property from /repo's current working tree in a scratch directory, searches for a
counterexample with generated inputs, writes evidence/<id>.json and ends with exit status 0 (held on everything
explored) or 1 (VIOLATION lines)."""
import argparse, json, os, shutil, stat, subprocess, sys, tempfile, time, glob

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("PBT_REPO", "/repo")
H = os.path.join(VERIF, "harness")
BASE = ["-std=c++17", "-w", "-g1", "-D_GLIBCXX_ASSERTIONS"]
# per harness: optimisation and sanitizer flags
FLAGS = {
    "default": ["-O1", "-fsanitize=address", "-fno-omit-frame-pointer"],
}


def compile_harness(pid, out, extra=()):
    src = os.path.join(H, pid + ".cpp")
    comp = os.path.join(H, "compat")
    cmd = ["g++"] + BASE + FLAGS.get(pid, FLAGS["default"]) + list(extra) + [
        "-include", os.path.join(comp, "msvc_compat.hpp"), "-include", os.path.join(comp, "pbt_env.hpp"),
        "-I" + H, "-I" + REPO + "/src", "-I" + REPO + "/src/ml", "-I" + REPO + "/src/lang/statements", "-I" + comp,
        src, "-o", out, "-ltbb"]
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def load_known(pid):
    keys = {}
    p = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(p):
        for e in json.load(open(p)).get("open", []):
            if e["property"] == pid:
                keys[e["key"]] = e["what"]
    return keys


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--replay")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--prop", default="")
    ap.add_argument("--case", type=int, default=-1)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or "1"))
    ap.add_argument("--show", action="store_true", help="print the distribution of generated cases")
    a = ap.parse_args()
    t0 = time.time()
    tier = "thorough" if a.tier == "thorough" else "quick"
    pid = a.id
    build = tempfile.mkdtemp(prefix="hml-%s-" % pid, dir="/tmp")
    os.chmod(build, 0o755)
    rc = 2
    try:
        exe = os.path.join(build, "harness")
        r = compile_harness(pid, exe)
        if r.returncode != 0:
            sys.stdout.write(r.stdout[-6000:])
            print("check error: the harness for %s does not compile against %s" % (pid, REPO))
            return 2
        t_build = time.time() - t0
        scratch = os.path.join(build, "scratch")
        os.mkdir(scratch)
        if a.replay or a.case >= 0:
            rp = os.path.join(build, "in.replay")
            cmd = [exe, "--scratch", scratch, "--seed", str(a.seed)]
            if a.replay:
                shutil.copy(a.replay, rp)
                os.chmod(rp, 0o644)
                cmd += ["--replay", rp]
            else:
                cmd += ["--prop", a.prop, "--case", str(a.case)]
            rc = subprocess.run(cmd, stdin=subprocess.DEVNULL).returncode
            return rc
        outdir = os.path.join(build, "results")
        os.mkdir(outdir)
        os.chmod(outdir, 0o777)
        result = os.path.join(outdir, "result.json")
        known = load_known(pid)
        kf = os.path.join(build, "known.txt")
        open(kf, "w").write("".join(k + "\n" for k in known))
        budget = 420 if tier == "quick" else 3000
        cmd = [exe, "--scratch", scratch, "--result", result, "--replays", os.path.join(outdir, "replays"),
               "--seed", str(a.seed), "--known", kf, "--budget", str(budget), "--scale", str(a.scale),
               "--shrink-budget", "45" if tier == "quick" else "180"]
        if tier == "thorough":
            cmd.append("--thorough")
        if a.prop:
            cmd += ["--prop", a.prop]
        run = subprocess.run(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                             errors="replace")
        if not os.path.exists(result):
            print(run.stdout[-4000:])
            print("check error: the harness for %s gave no result (exit %d)" % (pid, run.returncode))
            return 2
        res = json.load(open(result))
        lines = []
        saved = os.path.join(VERIF, "out", "replays", pid)
        if res["violations"]:
            os.makedirs(saved, exist_ok=True)
        for v in res["violations"]:
            dst = os.path.join(saved, os.path.basename(v["replay"]))
            shutil.copy(v["replay"], dst)
            lines.append((v, dst))
        props = [p for p in res["props"] if p["evaluated"]]
        samples = []
        for p in props:
            for s in p["samples"][:2]:
                samples.append(p["name"] + ": " + s.strip()[:900])
        cov = {
            "evaluations": sum(p["evaluated"] for p in props),
            "distinct_nontrivial": sum(p["distinct_nontrivial"] for p in props),
            "rule": "; ".join("%s: %s" % (p["name"], p["rule"]) for p in props),
            "samples": samples[:24] or ["none"],
            "per_check": {p["name"]: {k: p[k] for k in ("planned", "evaluated", "discarded", "nontrivial",
                                                        "distinct_nontrivial", "labels")} for p in props},
            "known_findings_met": {k["key"]: k["count"] for k in res["known"]},
            "unconfirmed": [u["key"] + ": " + u["msg"][:300] for u in res["unconfirmed"]],
            "engine_notes": res["engine_notes"],
            "build_s": round(t_build, 1), "search_s": round(res["run_s"], 1),
        }
        ev = {"property": pid, "tier": tier, "seed": a.seed, "level": "exploration", "coverage": cov,
              "wall_s": round(time.time() - t0, 1), "violations": len(lines),
              "assumptions": ["g++ 13 -O1 with AddressSanitizer and libstdc++ assertions; std::random_device and the "
                              "chrono clocks are replaced by deterministic ones; the harness runs as uid 65534 in a "
                              "scratch directory"]}
        if not a.prop:
            os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
            json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
        if a.show:
            for p in props:
                print("%-34s planned %d evaluated %d discarded %d nontrivial %d distinct %d" % (
                    p["name"], p["planned"], p["evaluated"], p["discarded"], p["nontrivial"], p["distinct_nontrivial"]))
                for l, c in sorted(p["labels"].items()):
                    print("      %-40s %d" % (l, c))
        for k in res["known"]:
            print("note: known finding met %d times: %s" % (k["count"], k["key"]))
        for k, what in known.items():
            if a.prop and not k.startswith(a.prop):
                continue
            print("KNOWN-FINDING: property=%s %s" % (pid, what))
        for u in res["unconfirmed"]:
            print("note: a failure seen once was not reproduced (not reported): %s %s" % (u["key"], u["msg"][:200]))
        for n in res["engine_notes"]:
            print("note:", n)
        print("%s %s seed %d: %d cases, %d distinct non-trivial, build %.0f s, search %.0f s" % (
            pid, tier, a.seed, cov["evaluations"], cov["distinct_nontrivial"], t_build, res["wall_s"]))
        for v, dst in lines:
            print("--- %s (%d cases, first %d%s)\n%s\n%s" % (v["key"], v["count"], v["case"],
                                                          ", needs the preceding cases" if v["sequence"] else "",
                                                          v["msg"][:1200], v["notes"][:1200]))
            print("VIOLATION property=%s replay=%s" % (pid, dst))
        if not cov["evaluations"]:
            return 2
        return 1 if lines else 0
    finally:
        subprocess.run(["find", build, "-type", "d", "-exec", "chmod", "u+rwx", "{}", "+"], stderr=subprocess.DEVNULL)
        shutil.rmtree(build, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
