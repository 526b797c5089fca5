"""The checks of the program simulator."""
import concurrent.futures as cf
import hashlib
import json
import os
import shutil
import sys
import time

import base
import directed
import drive
import profiles
import rules
import shrink

FAULTS = ["operation fails", "panic inside an operation", "operation pending", "operation pending, then fails", "task cancelled", "other"]
REAL = ["rustc 1.88.0", "hooq proc macro (hooq-macros, from /repo)", "hooq run-time crate (from /repo)", "anyhow, eyre, color-eyre, log, tracing", "libstd"]
STUB = ["the fallible operations, I/O and awaits of the generated programs (simrt)", "the async executor, its clock and its timers (simrt)",
        "log/tracing sinks and the standard error pipe (recording)"]
QUICK = dict(batches=112, k=16, budget=48, deadline=330)
DEEP = dict(batches=100000, k=16, budget=96, deadline=690)


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def mkjob(pid, seed, i, k):
    p, t, f = profiles.make(pid, seed, i)
    return drive.Job(f"{pid}-{os.getpid()}-{i}", p, t, [f"{pid}/{seed}/{i}/{j}" for j in range(k)], f)


def runseed(pid, seed, i):
    return int.from_bytes(hashlib.sha256(f"{pid}/{seed}/{i}/run".encode()).digest()[:6], "big")


def save(pid, viol, job, toml, seed, extra=None):
    d = os.path.join(base.BUILD, "replays")
    os.makedirs(d, exist_ok=True)
    u = viol["unit"]
    rec = {"sim": "prog", "property": pid, "class": viol["class"], "seed": seed, "program_seed": u.seed, "feature": job.feature, "toml": toml,
           "texts": u.texts, "is_async": u.is_async, "observing": u.observing, "stderr": bool(job.prof.get("stderr")), "plan": viol["plan"],
           "want": viol.get("want"), "got": viol.get("got"), "msg": viol.get("msg")}
    rec.update(extra or {})
    h = hashlib.sha256(json.dumps([u.texts, viol["plan"]]).encode()).hexdigest()[:10]
    p = os.path.join(d, f"{pid}-{h}.json")
    with open(p, "w") as f:
        json.dump(rec, f, indent=1)
    return p


def replay(path, quiet=False):
    """re-executes a replay file; returns a record that says whether it reproduced exactly"""
    rec = json.load(open(path))
    base.ensure(rec["feature"])
    d = os.path.join(drive.WORK, f"replay-{os.getpid()}-{hashlib.sha256(path.encode()).hexdigest()[:8]}")
    u = drive.Unit(rec["pid"], rec["texts"], rec["is_async"], rec["observing"])
    try:
        good, bad = drive.compile_units(d, [u], rec["toml"], rec["feature"])
        if bad:
            form, msg = bad[0][1], bad[0][2]
            return {"same": rec["class"] == "compile" and form == "b", "class": "compile" if form == "b" else "unusable", "msg": msg}
        args = ["replay", str(u.pid), rec["plan"]] + (["stderr"] if rec["stderr"] else [])
        rc, out, err = drive.run_exe(d, args, 60)
        if rc != 0 or not out:
            return {"same": rec["class"] == "crash", "class": "crash", "msg": f"rc {rc} {err}"}
        m = out[0]
        if m["t"] == "ok":
            return {"same": False, "class": None, "msg": "no violation"}
        same = m["class"] == rec["class"] and m["want"] == rec["want"] and m["got"] == rec["got"]
        return {"same": same, "class": m["class"], "want": m["want"], "got": m["got"]}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def first_diff(v):
    for i, (a, b) in enumerate(zip(v.get("want") or [], v.get("got") or [])):
        if a != b:
            return f"event {i}: expected {a!r}, got {b!r}"
    if v.get("want") is not None and len(v["want"]) != len(v["got"]):
        n = min(len(v["want"]), len(v["got"]))
        return f"event {n}: expected {(v['want'] + ['<end>'])[n]!r}, got {(v['got'] + ['<end>'])[n]!r}"
    return (v.get("msg") or "")[:600]


def run(pid, tier, seed):
    t0 = time.time()
    cfg = DEEP if tier == "thorough" else QUICK
    deadline = t0 + cfg["deadline"]
    for f in (("consume",) if pid == "C17" else ("",)):
        base.ensure(f)
    tb = time.time()
    agg = dict(units=0, skipped=0, runs=0, hooks=0, distinct=0, events=0, sites=0, simtime=0, lines=0, placed=0, maxtime=0)
    fired = [0] * 6
    samples, viols, gens = [], [], []
    digests = []
    done = 0
    stop = False

    def one(i):
        if stop or time.time() > deadline:
            return None
        job = mkjob(pid, seed, i, cfg["k"])
        r = drive.run_job(job, runseed(pid, seed, i), cfg["budget"], repeat=(i % 40 == 0))
        r["job"], r["i"] = job, i
        return r
    with cf.ThreadPoolExecutor(8) as ex:
        pend = {ex.submit(one, i): i for i in range(min(cfg["batches"], 16))}
        nxt = len(pend)
        while pend:
            fs, _ = cf.wait(pend, return_when=cf.FIRST_COMPLETED)
            for f in fs:
                del pend[f]
                r = f.result()
                if nxt < cfg["batches"] and not stop and time.time() < deadline:
                    pend[ex.submit(one, nxt)] = nxt
                    nxt += 1
                if r is None:
                    continue
                done += 1
                agg["units"] += r["units"]
                agg["placed"] += r["hooks_placed"]
                agg["lines"] += r["lines"]
                agg["skipped"] += len(r["gen"])
                gens += [dict(g, batch=r["i"]) for g in r["gen"]]
                for s in r["stats"]:
                    for k in ("runs", "hooks", "distinct", "events", "sites"):
                        agg[k] += s[k]
                    agg["simtime"] += s["simtime"]
                    agg["maxtime"] = max(agg["maxtime"], s["maxtime"])
                    for j in range(6):
                        fired[j] += s["fired"][j]
                    digests.append((r["i"], s["id"], s["digest"]))
                if len(samples) < 3 and r["i"] % 3 == len(samples) and r["stats"]:
                    s = r["stats"][0]
                    samples.append({"batch": r["i"], "program_seed": r["job"].seeds[s["id"]], "executions": s["runs"], "distinct_traces": s["distinct"],
                                    "hook_events": s["hooks"], "faults": dict(zip(FAULTS, s["fired"]))})
                for v in r["viol"]:
                    viols.append((r, v))
                if len(viols) >= 12:
                    stop = True
                if r.get("nondet"):
                    gens.append({"seed": None, "form": "nondeterminism", "msg": r["nondet"], "batch": r["i"]})
    code = 0
    dres = directed.run(pid)
    agg["directed"] = len(dres)
    for name, status, msg in dres:
        if status == "known":
            print(f"KNOWN-FINDING: property={pid} {name}: {msg}")
        elif status == "violation":
            p = os.path.join(base.BUILD, "replays", f"{pid}-directed-{name}.json")
            os.makedirs(os.path.dirname(p), exist_ok=True)
            json.dump({"sim": "directed", "property": pid, "name": name, "msg": msg}, open(p, "w"), indent=1)
            print(f"VIOLATION property={pid} replay={p}")
            log(msg)
            code = 1
    reported = 0
    viols.sort(key=lambda rv: (rv[1]["class"] == "crash", rv[0]["i"], rv[1]["unit"].pid if rv[1]["unit"] else 0))
    seen = set()
    for r, v in viols:
        if v["class"] in seen or reported >= 2 or time.time() > t0 + 780:
            continue
        job = r["job"]
        small = v
        try:
            small = shrink.shrink(v, job, runseed(pid, seed, r["i"]), cfg["budget"], limit=45 if not reported else 20, name=f"shrink-{pid}-{os.getpid()}", log=log)
        except Exception as e:  # a reduction that goes wrong must not hide the violation
            log("shrinking stopped:", repr(e))
        rp = None
        for cand in ([small, v] if small is not v else [v]):
            p = save(pid, cand, job, r["toml"], seed, {"pid": cand["unit"].pid, "batch": r["i"]})
            rp = replay(p)
            if rp["same"]:
                break
            log("replay of", p, "differs:", rp["class"], (rp.get("msg") or "")[:300])
        if not rp["same"]:
            gens.append({"seed": v["unit"].seed, "form": "replay", "msg": "violation did not reproduce from its replay file", "batch": r["i"]})
            continue
        seen.add(v["class"])
        reported += 1
        print(f"VIOLATION property={pid} replay={p}")
        log(f"class {cand['class']}, program {v['unit'].seed}, plan {cand['plan']!r}: {first_diff(cand)}")
        log(cand["unit"].texts["b"])
        code = 1
    wall = time.time() - t0
    # only executions that could show something: at least one hook event or fault
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration", "wall_s": round(wall, 1), "violations": reported,
        "coverage": {
            "evaluations": agg["runs"], "distinct_nontrivial": agg["distinct"],
            "rule": "one evaluation = one simulated execution (program seed x plan: operation outcomes, panics, delays, schedule, cancellations) of the "
                    "reference, attributed and plain forms; distinct_nontrivial counts distinct event traces per program "
                    "(a program contributes its different paths, not its repetitions)",
            "samples": samples, "programs": agg["units"], "programs_skipped": agg["skipped"], "batches": done,
            "lines_of_generated_code": agg["lines"], "hooks_placed": agg["placed"], "hook_events": agg["hooks"], "distinct_hook_sites_reached": agg["sites"],
            "events": agg["events"], "faults_injected": dict(zip(FAULTS[:5], fired)), "simulated_time_ticks": agg["simtime"], "longest_run_ticks": agg["maxtime"],
            "runs_per_hour": int(agg["runs"] / max(wall, 1) * 3600), "program_seeds_per_hour": int(agg["units"] / max(wall, 1) * 3600),
            "directed_programs": [{"name": n, "status": s} for n, s, _ in dres],
            "build_s": round(tb - t0, 1), "run_digest": hashlib.sha256(json.dumps(sorted(digests)).encode()).hexdigest()[:16],
            "real_components": REAL, "stub_components": STUB,
        },
        "assumptions": ["the reference rules in progsim/rules.py state the documented behaviour", "programs come from the generator's grammar (progsim/gen.py)",
                        "a clean search is evidence, not proof"],
    }
    os.makedirs(os.path.join(base.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(base.VERIF, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    for g in gens[:5]:
        log("skipped:", g["seed"], g["form"], (g["msg"] or "")[:800])
    log(f"{pid}: {agg['units']} programs, {agg['runs']} runs, {agg['hooks']} hook events, {agg['skipped']} skipped, {reported} violations, {wall:.0f} s")
    if code == 0 and (agg["runs"] == 0 or len(gens) > max(3, agg["units"] // 5)):
        log("too many programs could not be judged")
        return 2
    return code
