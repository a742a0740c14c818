#!/usr/bin/env python3
"""Usage: run.py <PROPERTY> [--replay FILE] [--only SCENARIO]. Tier from VERIF_TIER (quick|thorough)."""
import json, os, re, shutil, subprocess, sys, tempfile, time
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF + "/tools")
import vbuild

ENV = dict(os.environ, OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", OMP_DYNAMIC="false", OMP_WAIT_POLICY="passive",
           ASAN_OPTIONS="detect_leaks=0:quarantine_size_mb=2:abort_on_error=0:exitcode=77:allocator_may_return_null=1:"
                        "max_malloc_fill_size=4096:malloc_fill_byte=165:detect_stack_use_after_return=0:handle_abort=1:"
                        "hard_rss_limit_mb=0:max_allocation_size_mb=3000",
           AOCL_DA_ARCH="")
ENV.pop("AOCL_DA_ARCH")


def known_findings(prop):
    """key -> description; lines 'KNOWN property=<id> key=<key> : text' of known_findings.txt"""
    out = {}
    p = VERIF + "/known_findings.txt"
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"KNOWN property=(\S+) key=(\S+) : (.*)", line)
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3).strip()
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    args = sys.argv[2:]
    t0 = time.time()
    checks = json.load(open(VERIF + "/harness/checks.json"))
    chk = checks[prop]
    try:
        bins = vbuild.build([h["bin"] for h in chk["run"]], sys.stdout)
    except vbuild.BuildError as e:
        print("BUILD FAILED\n" + str(e))
        return 2
    bt = time.time() - t0
    if "--replay" in args:
        f = args[args.index("--replay") + 1]
        rc = 0
        for h in chk["run"]:
            rc |= subprocess.run([bins[h["bin"]], "--replay", f], env=dict(ENV, **h.get("env", {}))).returncode
        return rc
    known = known_findings(prop)
    scratch = tempfile.mkdtemp(prefix=f"mc.{prop}.")
    results, viol, hit = [], None, set()
    deadline = float(os.environ.get("VERIF_DEADLINE", "560" if tier == "quick" else "36000"))
    for n, h in enumerate(chk["run"]):
        if h.get("need") == "avx512" and not vbuild.avx512_ok():
            continue
        outf = f"{scratch}/out{n}.json"
        left = max(20.0, deadline - (time.time() - t0))
        cmd = [bins[h["bin"]], "--tier", tier, "--jobs", str(vbuild.JOBS), "--out", outf, "--scratch", f"{scratch}/s{n}",
               "--deadline", str(left)]
        for k in known:
            cmd += ["--known", k]
        if "--only" in args:
            cmd += ["--only", args[args.index("--only") + 1]]
        r = subprocess.run(cmd, env=dict(ENV, **h.get("env", {})), stderr=subprocess.PIPE)
        if r.returncode not in (0, 1) or not os.path.exists(outf):
            print(f"harness {h['bin']} ended with {r.returncode}\n" + r.stderr.decode(errors="replace")[-3000:])
            shutil.rmtree(scratch, ignore_errors=True)
            return 2
        d = json.loads(open(outf, errors="replace").read())
        d["bin"] = h["bin"]
        results.append(d)
        hit |= set(d["known_hit"])
        if "violation" in d:
            viol = (h, d["violation"])
            rd = os.environ.get("VERIF_REPLAYS", VERIF + "/build/replays")
            os.makedirs(rd, exist_ok=True)
            dest = f"{rd}/{prop}.{os.getpid()}.replay"
            src = f"{scratch}/s{n}/" + ("hang.replay" if d["violation"]["kind"] == "hang" else "v.replay")
            shutil.copy(src, dest)
            with open(dest, "a") as f:
                f.write("\ntrace: " + d["violation"]["trace"] + "\n")
            break
    shutil.rmtree(scratch, ignore_errors=True)
    sc = [dict(s, bin=d["bin"]) for d in results for s in d["scenarios"]]
    bfs = [s for s in sc if "bfs_states" in s]
    execs = sum(s["execs"] for s in sc)
    capped = any(d["capped"] for d in results)
    samples = [x for d in results for x in d["samples"]][:24]
    cov = {
        "states": sum(d["distinct"] for d in results),
        "transitions": sum(s["ops"] for s in sc),
        "traces_validated_against_impl": execs,
        "choice_nodes": sum(s["nodes"] for s in sc),
        "executions_pruned_as_inapplicable": sum(s["pruned"] for s in sc),
        "executions_matching_known_findings": sum(s["known"] for s in sc),
        "meaning": "states: distinct outcome/state hashes observed; transitions: calls of the real library made; "
                   "traces: complete executions of the real code compared with the reference model; "
                   "choice_nodes: nodes of the choice tree enumerated",
        "rule": chk.get("rule", ""),
        "bounds": chk.get("bounds", {}).get(tier, chk.get("bounds", {}).get("quick", "")),
        "exhaustive": not capped,
        "scenarios": sc,
        "samples": samples or ["(none recorded)"],
    }
    if bfs:
        cov["bfs"] = {s["name"]: {"states": s["bfs_states"], "transitions": s["bfs_transitions"], "depth": s["bfs_depth"],
                                  "frontier_exhausted": s["bfs_complete"]} for s in bfs}
    ev = {"property": prop, "tier": tier, "seed": seed, "level": chk.get("level", "model_checking"), "coverage": cov,
          "assumptions": chk.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": 1 if viol else 0}
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    with open(VERIF + f"/evidence/{prop}.json", "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{prop} {tier}: {execs} executions, {cov['states']} distinct outcomes, {cov['transitions']} calls, "
          f"build {bt:.1f} s, total {time.time()-t0:.1f} s" + (" [time cap hit]" if capped else ""))
    for s in ([] if viol else [s for s in sc if s["execs"]]):
        print("  %-40s execs=%d pruned=%d nodes=%d known=%d depth=%d" % (s["name"], s["execs"], s["pruned"], s["nodes"], s["known"], s["maxdepth"]) +
              (f" bfs states={s['bfs_states']} transitions={s['bfs_transitions']} depth={s['bfs_depth']} complete={s['bfs_complete']}" if "bfs_states" in s else ""))
    for k in sorted(hit):
        print(f"KNOWN-FINDING: property={prop} {k}: {known.get(k, '')}")
    if viol:
        v = viol[1]
        print(f"scenario {v['scenario']} ({v['kind']}, key {v['key']}): {v['msg'][:1500]}")
        print("trace: " + v["trace"][:3000])
        print(f"VIOLATION property={prop} replay={dest}")
        return 1
    return 0


sys.exit(main())
