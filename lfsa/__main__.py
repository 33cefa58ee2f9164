"""python3 -m lfsa <property id> [--tier quick|thorough]"""
import importlib, json, multiprocessing as mp, os, sys, time, traceback
from . import build
from .common import AnalysisBroken, Report, HERE

VERIF = os.path.dirname(HERE)
REGISTRY = os.path.join(HERE, "registry.json")


def worker(a):
    modname, func, config, tier = a
    try:
        rep = Report()
        getattr(importlib.import_module("lfsa.checks." + modname), func)(config, tier, rep)
        for v in rep.viol:
            v["config"] = config
        return ("ok", config, rep)
    except AnalysisBroken as e:
        return ("broken", config, str(e))
    except Exception:
        return ("broken", config, traceback.format_exc())
    finally:
        import shutil
        if build._scratch:
            shutil.rmtree(build._scratch, True)


def known(pid):
    out = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("known: property=%s " % pid):
                key, _, what = l.split(" key=", 1)[1].partition(" :: ")
                out[key.strip()] = what.strip()
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    t0 = time.time()
    ent = json.load(open(REGISTRY))[pid]
    jobs = []
    for r in ent["rules"]:
        cfgs = []
        for c in r["configs"]:
            cfgs += getattr(build, c) if c.isupper() else [c]
        for c in cfgs:
            jobs.append((r["module"], r["function"], c, tier))
    with mp.get_context("fork").Pool(min(8, len(jobs)), maxtasksperchild=1) as pool:
        res = pool.map(worker, jobs, chunksize=1)
    broken = [(c, x) for s, c, x in res if s == "broken"]
    if broken:
        for c, x in broken:
            print("ANALYSIS-BROKEN property=%s config=%s: %s" % (pid, c, x))
    viol, counts, percfg, notes, samples = {}, {}, {}, [], []
    for (m, f, c, _), (s, _c, rep) in zip(jobs, res):
        if s != "ok":
            continue
        percfg.setdefault(c, {})
        for k, n in rep.counts.items():
            counts[k] = counts.get(k, 0) + n
            percfg[c][k] = percfg[c].get(k, 0) + n
        notes += [n for n in rep.notes if n not in notes]
        samples += [x for x in rep.samples if x not in samples]
        for v in rep.viol:
            if v["key"] in viol:
                viol[v["key"]]["configs"].append(c)
            else:
                v["configs"] = [c]
                viol[v["key"]] = v
    # anchors of the property as a whole
    if not broken:
        for k, least in ent.get("need", {}).items():
            if counts.get(k, 0) < least:
                broken.append(("all", "rule instances lost: %s = %d, at least %d expected"
                               % (k, counts.get(k, 0), least)))
                print("ANALYSIS-BROKEN property=%s: %s" % (pid, broken[-1][1]))
    kn = known(pid)
    new = {k: v for k, v in viol.items() if k not in kn}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    cov = {"explanation": ent["explanation"], "configurations": sorted(percfg), "counts": counts,
           "per_configuration": percfg, "known_findings_seen": sorted(k for k in viol if k in kn)}
    if samples:
        cov["samples"] = samples[:12]
    if notes:
        cov["notes"] = notes[:40]
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": ent["level"],
          "coverage": cov, "assumptions": ent.get("assumptions", []), "wall_s": round(time.time() - t0, 2),
          "violations": len(new)}
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1, default=str)
    for k in sorted(viol):
        if k in kn:
            print("KNOWN-FINDING: property=%s %s [%s]" % (pid, kn[k], k))
    rpath = os.path.join(VERIF, "evidence", pid + ".violations.txt")
    if os.path.exists(rpath):
        os.unlink(rpath)
    if new:
        with open(rpath, "w") as f:
            for k, v in sorted(new.items()):
                f.write("%s\n  %s\n  configurations: %s\n" % (k, v["msg"], ", ".join(v["configs"])))
                if v["path"]:
                    f.write("  path:\n" + "".join("    %s\n" % p for p in v["path"]))
                f.write("\n")
        for k, v in sorted(new.items()):
            print("%s: %s (%s)" % (pid, v["msg"], ", ".join(v["configs"])))
        print("VIOLATION property=%s replay=%s" % (pid, rpath))
        # a violation stands even when another configuration could not be analysed
        return 1
    if broken:
        return 2
    print("%s held: %s" % (pid, ", ".join("%s=%d" % kv for kv in sorted(counts.items()))))
    return 0


if __name__ == "__main__":
    sys.exit(main())
