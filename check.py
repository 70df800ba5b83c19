#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decides one property of /repo's current working tree statically."""
import json, os, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SRTC_REPO", "/repo")
SA = os.path.join(HERE, "_build", "sa", "sa")
LEVEL = {c["property"]: c for c in json.load(open(os.path.join(HERE, "MANIFEST.json")))["checks"]}


def known(prop):
    out = []
    for line in open(os.path.join(HERE, "known-findings.txt")):
        line = line.strip()
        if not line.startswith("finding: property=%s " % prop):
            continue
        out.append(json.loads(line[line.index("{"):]))
    return out


def matches(k, v):
    return (k["rule"] == v["rule"] and k["function"] == v["function"] and k.get("detail", "") in v["detail"])


def analyse(prop, work, variant):
    out = os.path.join(work, "bc-" + variant)
    env = dict(os.environ)
    if variant == "debug":
        env["SA_EXTRA"] = "-UNDEBUG"
    b = subprocess.run(["bash", os.path.join(HERE, "tools", "build_bc.sh"), REPO, out], env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if b.returncode:
        print(b.stdout[-4000:])
        print("error: /repo does not compile to bitcode")
        sys.exit(2)
    res = os.path.join(work, "result-%s.json" % variant)
    a = subprocess.run([SA, os.path.join(out, "all.bc"), prop, res], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if not os.path.exists(res):
        print(a.stdout[-4000:])
        print("error: the analysis ended without a result (%d)" % a.returncode)
        sys.exit(2)
    units = [l.strip() for l in open(os.path.join(out, "units.txt"))]
    return json.load(open(res)), units


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    if not os.path.exists(SA) or "SA_REBUILD" in os.environ:
        subprocess.run(["make", "-s", "-j8", "-C", os.path.join(HERE, "sa")], check=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    work = tempfile.mkdtemp(prefix="srtc-sa-")
    try:
        variants = ["release"] + (["debug"] if tier == "thorough" and prop not in ("C01", "C02", "C03", "C04") else [])
        vio, errors, runs = [], [], []
        for var in variants:
            d, units = analyse(prop, work, var)
            runs.append((var, d, units))
            for v in d["violations"]:
                if not any(v["rule"] == o["rule"] and v["where"] == o["where"] and v["function"] == o["function"] for o in vio):
                    vio.append(v)
            errors += [e for e in d["errors"] if e not in errors]
    finally:
        shutil.rmtree(work, ignore_errors=True)

    found, new = [], []
    budget = [dict(k, left=k.get("count", 1)) for k in known(prop)]
    for v in vio:
        for k in budget:
            if k["left"] > 0 and matches(k, v):
                k["left"] -= 1
                found.append((k, v))
                break
        else:
            new.append(v)

    ent = LEVEL.get(prop, {})
    d, units = runs[0][1], runs[0][2]
    rules = sorted(d["sites"]) or sorted(d["counts"])
    cov = {
        "explanation": "Static analysis of the bitcode of %d source files compiled from the current tree; nothing is executed. "
                       "%d obligations (analysed sites) of which %d are proved; the rest is listed in counts as undecided; rules: %s" % (
                           len(units), d["obligations"], d["discharged"], "; ".join(rules)),
        "obligations": d["obligations"],
        "discharged": d["discharged"],
        "checker_cmd": "python3 check.py %s %s" % (prop, tier),
        "trusted_base": ["clang 18 front end and LLVM 18 passes", "the analyser in /verif/sa", "the models of OpenSSL/libc/libstdc++ calls named in DESIGN.md"],
        "source_files": units,
        "counts": d["counts"],
        "sites": d["sites"],
        "configurations": [r[0] for r in runs],
    }
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": ent.get("level", "other"), "coverage": cov, "wall_s": round(time.time() - t0, 2),
        "assumptions": d["assumptions"],
        "violations": len(new),
    }
    path = os.path.join(HERE, "evidence", prop + ".json")
    json.dump(ev, open(path, "w"), indent=1)
    for k, v in found:
        print("KNOWN-FINDING: property=%s %s (%s, %s)" % (prop, k["what"], v["where"], v["function"]))
    if new:
        rep = os.path.join(HERE, "evidence", prop + ".violations.json")
        json.dump(new, open(rep, "w"), indent=1)
        for v in new:
            print("%s: %s in %s: %s" % (v["where"], v["rule"], v["function"], v["detail"]))
            for c in v["chain"]:
                print("    reached from " + c)
        print("VIOLATION property=%s replay=%s" % (prop, rep))
        sys.exit(1)
    if errors:
        for e in errors:
            print("error: " + e)
        sys.exit(2)
    print("%s holds: %d obligations, %d discharged, %d known finding(s), %.1f s" % (
        prop, d["obligations"], d["discharged"], len(found), time.time() - t0))


main()
