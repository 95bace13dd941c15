#!/usr/bin/env python3
"""check.py ID: decides property ID on /repo's working tree. VERIF_TIER=quick|thorough, VERIF_SEED=N.

Builds the harness from /repo's current sources in two variants (asan: address and undefined-behaviour
sanitizers; fast: optimised), lets each search its own stream of generated cases, and merges what
they covered into evidence/ID.json. Exit 0: held; 1: VIOLATION line; 2: could not run."""
import fcntl, json, os, re, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(HERE, "build")
PROGRAM = {"C19": "pbt_obj", "C20": "pbt_mem", "C26": "pbt_steady"}
WIDE = {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C11", "C12", "C14", "C15", "C17", "C22", "C23", "C24", "C25"}
FINDINGS = os.path.join(HERE, "known_findings.txt")


def stages(prop):
    """(variant, program, share of the tier's number of cases)"""
    if prop == "C25":
        return [("fast", "pbt_wide", 1.5), ("asan", "pbt_wide", 0.3)]
    if prop == "C26":
        return [("fast", "pbt_steady", 1.0), ("asan", "pbt_steady", 0.12)]
    prog = PROGRAM.get(prop, "pbt_c")
    out = [("asan", prog, 0.6), ("fast", prog, 2.0 if prog == "pbt_c" else 1.0)]
    if prop in WIDE:
        out += [("fast", "pbt_wide", 1.0), ("asan", "pbt_wide", 0.15)]
    return out


def build(todo):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        targets = " ".join(os.path.join(BUILD, v, prog) for v, prog, _ in todo)
        r = subprocess.run(["bash", os.path.join(HERE, "pbt/build.sh"), BUILD, targets],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        print(r.stdout[-3000:])
        print("check: /repo does not build with the harness")
        sys.exit(2)


def known(prop):
    """[(replay, variant, key, description)] of the unrepaired findings of this property"""
    out = []
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            m = re.match(r"known: property=(\S+) replay=(\S+) variant=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                out.append((os.path.join(HERE, m.group(2)), m.group(3), m.group(4).strip()))
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    todo = stages(prop)
    build(todo)
    replays = os.path.join(HERE, "replays")
    os.makedirs(replays, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    for path, variant, what in known(prop):
        exe = os.path.join(BUILD, variant, PROGRAM.get(prop, "pbt_c"))
        if subprocess.run([exe, "replay", path], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 1:
            print(f"KNOWN-FINDING: property={prop} {what}")
    merged, distinct, rc, shares = None, set(), 0, {}
    rules = []
    for k, (v, prog, share) in enumerate(todo):
        exe = os.path.join(BUILD, v, prog)
        name = v + "/" + prog
        out = os.path.join(BUILD, f"{prop}-{v}-{prog}.json")
        hf = os.path.join(BUILD, f"{prop}-{v}-{prog}.hashes")
        for f in (out, hf):
            if os.path.exists(f):
                os.unlink(f)
        # every variant draws its own cases
        vseed = (seed * 4 + k) & ((1 << 62) - 1)
        scale = share * float(os.environ.get("VERIF_SCALE", "1"))
        cmd = [exe, "run", prop, "--tier", tier, "--seed", str(vseed), "--variant", name, "--scale", str(scale), "--out", out, "--hashes", hf, "--replays", replays]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        print(f"[{name}] {r.stdout}", end="", flush=True)
        if r.returncode not in (0, 1) or not os.path.exists(out):
            print(f"check: the {name} harness ended with {r.returncode}")
            sys.exit(2)
        e = json.load(open(out))
        data = open(hf, "rb").read()
        distinct.update(data[i:i + 8] for i in range(0, len(data), 8))
        c = e["coverage"]
        if c["rule"] not in rules:
            rules.append(c["rule"])
        shares[name] = {"evaluations": c["evaluations"], "nontrivial": c["nontrivial"], "wall_s": e["wall_s"]}
        if merged is None:
            merged = e
        else:
            m = merged["coverage"]
            m["evaluations"] += c["evaluations"]
            m["nontrivial"] += c["nontrivial"]
            m["samples"] = (m["samples"] + c["samples"][:1])[:6]
            for n, x in c["counters"].items():
                m["counters"][n] = m["counters"].get(n, 0) + x
            merged["violations"] += e["violations"]
        if r.returncode == 1:
            rc = 1
            break
        for f in (out, hf):
            os.unlink(f)
    merged["seed"] = seed
    merged["coverage"]["distinct_nontrivial"] = len(distinct)
    merged["coverage"]["rule"] = ("cases: randomly generated operation sequences (a configuration line, then calls with arguments "
                                  "drawn from the seed), each run in the library built from /repo; non-trivial: " + "; ".join(rules))
    merged["coverage"]["variants"] = shares
    merged["assumptions"] = ["gcc's sanitizers, the reference model in pbt/model.cpp and tt.h",
                             "searched inputs only: generated cases of bounded size, see DESIGN.md"]
    merged["wall_s"] = round(time.time() - t0, 2)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(merged, f, indent=1)
        f.write("\n")
    if rc == 0:
        print(f"{prop}: held on {merged['coverage']['evaluations']} cases "
              f"({len(distinct)} distinct non-trivial), {merged['wall_s']} s")
    sys.exit(rc)


main()
