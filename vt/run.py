"""Entry point of every check:  /opt/venv/bin/python vt/run.py P03 [--tier quick|thorough] [--replay FILE]

exit 0: held on everything explored; exit 1 and a VIOLATION line: broken; exit 2: error of the check.
"""
import argparse, base64, importlib, json, os, pickle, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import boot

NWORK = int(os.environ.get("VT_WORKERS", "8"))


def log(*a):
    print(*a, flush=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--only", action="append")
    ap.add_argument("--scale", type=float)
    ap.add_argument("--budget", type=float)
    a = ap.parse_args()
    meta = json.load(open(os.path.join(HERE, "checks.json")))[a.prop]
    scratch = tempfile.mkdtemp(prefix=f"vt-{a.prop}-")
    try:
        rc = go(a, meta, scratch)
    except Exception:
        import traceback
        traceback.print_exc()
        rc = 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)


def worker_env(scratch, name, nb_seed):
    env = boot.base_env()
    own = os.path.join(scratch, name)
    os.makedirs(own, exist_ok=True)
    env["NUMBA_CACHE_DIR"] = os.path.join(own, "numba")
    if nb_seed:
        shutil.copytree(nb_seed, env["NUMBA_CACHE_DIR"], copy_function=shutil.copy2, dirs_exist_ok=True)
    env["MPLCONFIGDIR"] = os.path.join(own, "mpl")
    env["XDG_CACHE_HOME"] = os.path.join(own, "xdg")
    env["TMPDIR"] = os.path.join(own, "tmp")
    env["HOME"] = os.path.join(own, "home")
    for k in ("TMPDIR", "HOME"):
        os.makedirs(env[k], exist_ok=True)
    return env, own


def go(a, meta, scratch):
    t0 = time.time()
    root, how = boot.prepare(scratch, log)
    log(f"[{a.prop}] {how}")
    hyp = boot.hypothesis_path(scratch)
    nb_seed, nb_how = (None, "")
    if meta.get("numba"):
        nb_seed, nb_how = boot.numba_seed(scratch, root, log)
        log(f"[{a.prop}] {nb_how}")
    common = {"root": root, "hyp": hyp, "prop": a.prop, "module": meta["module"], "tier": a.tier, "seed": a.seed}

    def cfgfile(name, d):
        p = os.path.join(scratch, name + ".json")
        json.dump(d, open(p, "w"))
        return p

    if a.replay:
        env, own = worker_env(scratch, "replay", nb_seed)
        c = cfgfile("replaycfg", {**common, "scratch": own, "replay": os.path.abspath(a.replay)})
        r = subprocess.run([boot.PY, os.path.join(HERE, "replay.py"), c], env=env)
        if r.returncode == 0:
            return 0
        log(f"VIOLATION property={a.prop} replay={os.path.abspath(a.replay)}")
        return 1

    # known findings
    kf = json.load(open(os.path.join(VERIF, "known_findings.json")))
    mine = [k for k in kf["known"] if k["property"] == a.prop]
    kproc = None
    if mine:
        env, own = worker_env(scratch, "known", nb_seed)
        kout = os.path.join(scratch, "known.out.json")
        c = cfgfile("knowncfg", {**common, "scratch": own, "known": mine, "out": kout})
        kproc = subprocess.Popen([boot.PY, os.path.join(HERE, "known.py"), c], env=env)

    budget = a.budget or (meta.get("budget", 300) if a.tier == "quick" else meta.get("thorough_budget", 3600))
    t_start = time.time()
    deadline = t_start + budget
    procs = []
    for i in range(NWORK):
        env, own = worker_env(scratch, f"w{i}", nb_seed)
        outp = os.path.join(scratch, f"w{i}.out.json")
        c = cfgfile(f"w{i}", {**common, "scratch": own, "shard": i, "nshards": NWORK, "out": outp,
                              "deadline": deadline, "only": a.only, "scale": a.scale,
                              "shrink_s": 15 if a.tier == "quick" else 120})
        errf = open(os.path.join(scratch, f"w{i}.err"), "w")
        procs.append((i, own, outp, errf.name,
                      subprocess.Popen([boot.PY, os.path.join(HERE, "worker.py"), c], env=env, stdout=errf, stderr=errf)))
    # wait
    grace = None
    crashed = {}
    while True:
        alive = [p for p in procs if p[4].poll() is None]
        if not alive:
            break
        if grace is None:
            for i, own, outp, err, p in procs:
                if p.poll() is not None and p.returncode != 0:
                    grace = time.time() + 25
                if os.path.exists(outp):
                    try:
                        if json.load(open(outp))["violations"]:
                            grace = time.time() + 25
                    except ValueError:
                        pass
        now = time.time()
        if (grace is not None and now > grace) or now > deadline + 150:
            for p in alive:
                crashed[p[0]] = "stopped"
                p[4].kill()
        time.sleep(0.2)
    violations, errors, incon = [], [], []
    tests, hashes = {}, set()
    for i, own, outp, err, p in procs:
        d = json.load(open(outp)) if os.path.exists(outp) else None
        if d:
            violations += d["violations"]
            errors += d["errors"]
            incon += d["inconclusive"]
            hashes |= set(d["hashes"])
            for n, s in d["tests"].items():
                m = tests.setdefault(n, {"cases": 0, "nontrivial": 0, "labels": {}, "samples": [], "excluded": {}, "seconds": 0.0})
                for k in ("cases", "nontrivial", "seconds"):
                    m[k] = round(m[k] + s[k], 2)
                for kk in ("labels", "excluded"):
                    for l, v in s[kk].items():
                        m[kk][l] = m[kk].get(l, 0) + v
                m["samples"] = (m["samples"] + s["samples"])[:3]
        if crashed.get(i) == "stopped":
            if grace is None:
                incon.append(f"worker {i} was stopped at the time limit")
            continue
        if p.returncode != 0:
            sig = -p.returncode
            tail = open(err, errors="replace").read()[-3000:]
            cur = os.path.join(own, "current.pkl")
            if sig in (signal.SIGSEGV, signal.SIGABRT, signal.SIGFPE, signal.SIGBUS, signal.SIGILL) and os.path.exists(cur):
                c = pickle.loads(open(cur, "rb").read())
                violations.append({"prop": a.prop, "test": c["test"], "spec": repr(c["spec"]),
                                   "message": f"the interpreter was ended by signal {sig} while this case ran\n{tail}",
                                   "pickle": base64.b64encode(pickle.dumps(c["spec"])).decode()})
            else:
                errors.append(f"worker {i} ended with {p.returncode}: {tail}")
    known_lines = []
    kn = []
    if kproc is not None:
        try:
            kproc.wait(timeout=300)
            kn = json.load(open(kout))
            for r in kn:
                if r["still"]:
                    known_lines.append(f"KNOWN-FINDING: property={a.prop} {r['what']}")
        except Exception as e:
            kproc.kill()
            errors.append(f"known findings: {e}")
    evaluations = sum(t["cases"] for t in tests.values())
    samples = []
    for n, s in tests.items():
        samples += [f"{n}: {x}" for x in s["samples"][:1]]
    ev = {
        "property": a.prop, "tier": a.tier, "seed": a.seed, "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(hashes),
            "rule": meta["rule"],
            "samples": samples[:20],
            "tests": {n: {k: s[k] for k in ("cases", "nontrivial", "labels", "excluded", "seconds")} for n, s in sorted(tests.items())},
            "inconclusive": incon,
        },
        "assumptions": meta.get("assumptions", []),
        "known_findings_still_failing": [r["id"] for r in kn if r["still"]],
        "build": how + ("; " + nb_how if nb_how else ""),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    if not a.only and not a.scale or True:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", a.prop + ".json"), "w"), indent=1)
    for l in known_lines:
        log(l)
    for e in incon:
        log(f"[{a.prop}] inconclusive: {e}")
    log(f"[{a.prop}] {evaluations} cases, {len(hashes)} distinct non-trivial, {len(tests)} tests, {time.time()-t0:.0f} s")
    if violations:
        rd = os.path.join(VERIF, "replays")
        os.makedirs(rd, exist_ok=True)
        seen = set()
        for v in violations:
            if v["test"] in seen:
                continue
            seen.add(v["test"])
            p = os.path.join(rd, f"{a.prop}-{v['test']}.json")
            json.dump(v, open(p, "w"), indent=1)
            log(f"--- {v['test']}\ninput: {v['spec'][:3000]}\n{v['message'][-3000:]}")
            log(f"VIOLATION property={a.prop} replay={p}")
        return 1
    if errors:
        for e in errors:
            log(f"[{a.prop}] ERROR {e}")
        return 2
    if evaluations == 0:
        log(f"[{a.prop}] ERROR no case was run")
        return 2
    return 0


if __name__ == "__main__":
    main()
