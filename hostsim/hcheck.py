"""The checks of the host simulator."""
import collections
import concurrent.futures as cf
import hashlib
import json
import os
import random
import sys
import time

import base
import hgen
import hjudge
import hmodel
import host
import hworlds

REAL = ["hooq-macros proc-macro library (from /repo, as a shared object, driven through the compiler's proc_macro bridge)", "toml, serde, syn, quote, proc-macro-crate", "libstd (files, environment, mutexes, once cells, hash maps)"]
STUB = ["the compiler's side of the bridge (hostsim/host/src/server.rs)", "files, environment, clock, randomness, futexes, thread scheduling (hostsim/host/src/sim.rs)", "the editor that changes files"]
QUICK = dict(worlds=dict(C12=96, C13=96, C14=96, C15=64, C16=320, C19=160), runs=dict(C12=40, C13=40, C14=40, C15=24, C16=6, C19=12), deadline=240)
DEEP = dict(worlds=collections.defaultdict(lambda: 10 ** 6), runs=dict(C12=150, C13=150, C14=150, C15=60, C16=6, C19=12), deadline=690)


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def one_world(args):
    """all histories of one world (in a worker process)"""
    pid, seed, i, runs, deadline = args
    if time.time() > deadline:
        return None
    w = hworlds.make(pid, seed, i)
    st = collections.Counter()
    fk = collections.Counter()
    digests = set()
    viol, samples = [], []
    nondet = None
    for v in w.static():
        viol.append((v[0], v[1], v[2], None))
    for j in range(runs):
        if time.time() > deadline + 20 or len(viol) >= 3:
            break
        sc = w.scenario(j)
        res = host.run(sc)
        st["runs"] += 1
        if j == 0 and i % 8 == 0:
            again = host.run(sc)
            if again != res:
                nondet = f"world {i}: two runs of one scenario differ"
        if "crash" not in res:
            st["requests"] += len(res["results"])
            st["steps"] += res["steps"]
            st["switches"] += sum(1 for s in res["switches"] if s[1] != 999)
            st["edits"] += res["edited"]
            st["clock"] += res["clock"] - 1_000_000_000
            st["futex_waits"] += res["futex"][0]
            st["futex_wakes"] += res["futex"][1]
            fk["spurious futex wake"] += res["futex"][2]
            for s in res["switches"]:
                if s[1] == 999:
                    fk["edit during an expansion" if 0 < s[0] else "edit"] += 1
            for f in res["fired"]:
                fk[f"{f[2]} {f[3]}"] += 1
            if sc["max_read"] < 1 << 40:
                fk["every read short"] += 1
            digests.add(res["digest"])
            st["bad"] += sum(1 for r in res["results"] if r.get("bad"))
        for cls, msg in w.judge(sc, res):
            if cls in hjudge.CLASSES[pid]:
                viol.append((cls, msg, sc, res))
                break
        if j == 0 and i < 3 and "crash" not in res:
            samples.append({"world": i, "requests": [[t, r.get("attr"), w.describe(r)] for t, th in enumerate(sc["threads"]) for r in th][:8],
                            "editor": [[e["op"], e.get("path")] for e in sc["editor"]][:8], "faults": sc["faults"][:6], "switches": len(res["switches"]), "steps": res["steps"]})
    st["refs"] = w.nrefs
    small = [(c, m, shrink(w, c, s, r) if r is not None and "crash" not in r else s) for c, m, s, r in viol[:1]]
    return dict(i=i, st=st, fk=fk, digests=digests, viol=small + [(c, m, s) for c, m, s, r in viol[1:]], samples=samples, nondet=nondet, extra=w.extra())


def judged(w, cls, sc):
    res = host.run(sc)
    for c, m in w.judge(sc, res):
        if c == cls:
            return res, m
    return None


def shrink(w, cls, sc, res, limit=25):
    """a smaller history with the same class of violation: fewer requests, edits, faults and switches"""
    t0 = time.time()
    best = dict(sc, switches=res["switches"])
    x = judged(w, cls, best)
    if x is None:
        return sc  # the schedule alone does not reproduce it: keep the seed
    cur = x[0]

    def attempt(c):
        nonlocal best, cur
        if time.time() - t0 > limit:
            return False
        x = judged(w, cls, c)
        if x is None:
            return False
        best, cur = dict(c, switches=x[0]["switches"]), x[0]
        return True

    def pieces(key):
        n = len(best[key])
        size = max(n // 2, 1)
        while size >= 1 and best[key]:
            k = 0
            while k < len(best[key]):
                l = best[key]
                if not attempt(dict(best, **{key: l[:k] + l[k + size:]})):
                    k += size
                if time.time() - t0 > limit:
                    return
            size //= 2
    changed = True
    while changed and time.time() - t0 < limit:
        changed = False
        n0 = json.dumps(best)
        for t in range(len(best["threads"])):
            i = 0
            while i < len(best["threads"][t]):
                th = [list(x) for x in best["threads"]]
                del th[t][i]
                # (removing a request moves every later step: try the recorded schedule, then an undisturbed one, then the seed's)
                if not any(attempt(dict(best, threads=th, switches=s)) for s in (best["switches"], [], None)):
                    i += 1
                if best.get("switches") is None:
                    best = dict(best, switches=cur["switches"])
        for key in ("faults", "editor", "switches"):
            if best.get(key):
                pieces(key)
        if best["max_read"] < 1 << 40:
            attempt(dict(best, max_read=1 << 40))
        if best["p_spurious"]:
            attempt(dict(best, p_spurious=0))
        changed = json.dumps(best) != n0
    return best


def save(pid, cls, msg, sc, w, seed):
    d = os.path.join(base.BUILD, "replays")
    os.makedirs(d, exist_ok=True)
    rec = {"sim": "host", "property": pid, "class": cls, "msg": msg, "seed": seed, "world": w, "scenario": sc}
    h = hashlib.sha256(json.dumps([sc, msg]).encode()).hexdigest()[:10]
    p = os.path.join(d, f"{pid}-{h}.json")
    with open(p, "w") as f:
        json.dump(rec, f, indent=1)
    return p


def replay(path):
    rec = json.load(open(path))
    w = hworlds.make(rec["property"], rec["seed"], rec["world"])
    if rec["scenario"] is None or "static" in rec["scenario"]:
        hit = [v for v in w.static() if v[0] == rec["class"] and (rec["scenario"] is None or v[2] == rec["scenario"])]
        return {"same": bool(hit), "class": hit[0][0] if hit else None, "msg": hit[0][1] if hit else None}
    res = host.run(rec["scenario"])
    hit = [(c, m) for c, m in w.judge(rec["scenario"], res) if c == rec["class"]]
    return {"same": bool(hit) and (rec["msg"] is None or hit[0][1] == rec["msg"]), "class": hit[0][0] if hit else None, "msg": hit[0][1] if hit else None}


def run(pid, tier, seed):
    t0 = time.time()
    cfg = DEEP if tier == "thorough" else QUICK
    host.ensure()
    tb = time.time()
    deadline = t0 + cfg["deadline"]
    st, fk, digests = collections.Counter(), collections.Counter(), set()
    viols, samples, notes = [], [], []
    extra = collections.Counter()
    nworlds = 0
    with cf.ProcessPoolExecutor(8) as ex:
        nxt, pend = 0, set()
        while True:
            while len(pend) < 16 and nxt < cfg["worlds"][pid] and time.time() < deadline and len(viols) < 6:
                pend.add(ex.submit(one_world, (pid, seed, nxt, cfg["runs"][pid], deadline)))
                nxt += 1
            if not pend:
                break
            done, pend = cf.wait(pend, return_when=cf.FIRST_COMPLETED)
            for f in done:
                r = f.result()
                if r is None:
                    continue
                nworlds += 1
                st.update(r["st"])
                fk.update(r["fk"])
                extra.update(r["extra"])
                digests |= r["digests"]
                samples += r["samples"]
                viols += [(r["i"],) + v for v in r["viol"]]
                if r["nondet"]:
                    notes.append(r["nondet"])
    code, reported, seen = 0, 0, set()
    viols.sort(key=lambda v: v[0])
    for i, cls, msg, sc in viols:
        if cls in seen or reported >= 2:
            continue
        w = hworlds.make(pid, seed, i)
        if sc is not None and "static" not in sc:
            res = host.run(sc)
            m = [x for x in w.judge(sc, res) if x[0] == cls]
            if not m:
                notes.append(f"violation {cls} in world {i} did not reproduce: {msg}")
                continue
            msg = m[0][1]
        p = save(pid, cls, msg, sc, i, seed)
        r = replay(p)
        if not r["same"]:
            notes.append(f"replay of {p} differs: {r}")
            continue
        seen.add(cls)
        reported += 1
        code = 1
        print(f"VIOLATION property={pid} replay={p}")
        log(f"class {cls}, world {i}: {msg}")
    host.shutdown()
    wall = time.time() - t0
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration", "wall_s": round(wall, 1), "violations": reported,
        "coverage": {
            "evaluations": st["runs"], "distinct_nontrivial": len(digests),
            "rule": "one evaluation = one simulated host process (world seed x history seed: requests, threads, schedule, edits, faults, hash keys); "
                    "distinct_nontrivial counts distinct digests over the sequence of switches, edits and results of system calls",
            "samples": samples[:3], "worlds": nworlds, "expansions": st["requests"], "reference_expansions": st["refs"], "scheduler_steps": st["steps"],
            "context_switches": st["switches"], "file_edits": st["edits"], "futex_waits": st["futex_waits"], "futex_wakes": st["futex_wakes"],
            "faults_injected": dict(fk), "simulated_seconds": round(st["clock"] / 1e9, 3), "unusable_requests": st["bad"],
            "runs_per_hour": int(st["runs"] / max(wall, 1) * 3600), "world_seeds_per_hour": int(nworlds / max(wall, 1) * 3600), **{k: v for k, v in extra.items()},
            "build_s": round(tb - t0, 1), "run_digest": hashlib.sha256(json.dumps(sorted(digests)).encode()).hexdigest()[:16],
            "real_components": REAL, "stub_components": STUB,
        },
        "assumptions": ["the compiler's side of the bridge behaves like rustc's for the calls made", "a clean search is evidence, not proof"]
        + (["the reference resolver in hostsim/hmodel.py states the documented behaviour"] if pid == "C16" else ["an expansion in a fresh, undisturbed process is the reference for the same source and file content"]),
    }
    os.makedirs(os.path.join(base.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(base.VERIF, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    for n in notes[:5]:
        log("note:", n)
    log(f"{pid}: {nworlds} worlds, {st['runs']} runs, {st['requests']} expansions, {len(digests)} distinct histories, {st['switches']} switches, {sum(fk.values())} faults, {reported} violations, {wall:.0f} s")
    if code == 0 and (st["runs"] == 0 or notes and len(notes) > max(1, nworlds // 10)):
        return 2
    return code
