"""Makes batches of programs, compiles them, runs the seeded search and judges the outcome."""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import time

import base
import prog as P
import rules

WORK = os.path.join(base.BUILD, "work")


def toml_table(tables, prefix=""):
    out = []
    for name, t in tables.items():
        full = f"{prefix}{name}"
        out.append(f"[{full}]")
        for k in ("trait_uses", "hook_targets", "tail_expr_idents", "ignore_tail_expr_idents", "result_types"):
            if k in t:
                out.append(f"{k} = [{', '.join(rules.lit(x) for x in t[k])}]")
        if "method" in t:
            out.append(f"method = {rules.lit(t['method'])}")
        if "hook_in_macros" in t:
            out.append(f"hook_in_macros = {'true' if t['hook_in_macros'] else 'false'}")
        if t.get("bindings"):
            out.append("bindings = { " + ", ".join(f"{k} = {rules.lit(v)}" for k, v in t["bindings"].items()) + " }")
        out.append("")
        if t.get("subs"):
            out.append(toml_table(t["subs"], full + "."))
    return "\n".join(out)


CARGO_TOML = """[package]
name = "batch"
version = "0.1.0"
edition = "2024"

[dependencies]
hooq = "0.3"
"""


class Unit:
    """a program ready to be compiled: its three texts"""

    def __init__(self, pid, texts, is_async, observing, seed=None, program=None, env=None):
        self.pid, self.texts, self.is_async, self.observing = pid, texts, is_async, observing
        self.seed, self.program, self.env = seed, program, env


def write_batch(d, units, toml, extra_b=""):
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.join(d, "src", "sub"))
    with open(os.path.join(d, "Cargo.toml"), "w") as f:
        f.write(CARGO_TOML)
    if toml is not None:
        with open(os.path.join(d, "hooq.toml"), "w") as f:
            f.write(toml)
    m = ["#![allow(warnings)]", "use simrt::runner::Prog;"]
    for u in units:
        for k in "abc":
            fn = f"sub/p{u.pid}{k}.rs"
            with open(os.path.join(d, "src", fn), "w") as f:
                f.write(u.texts[k])
            m.append(f'#[path = "{fn}"] mod p{u.pid}{k};')
    m.append("fn main() { simrt::runner::main(&[")
    for u in units:
        m.append(f"    Prog {{ id: {u.pid}, a: p{u.pid}a::entry, b: p{u.pid}b::entry, c: p{u.pid}c::entry, "
                 f"is_async: {str(u.is_async).lower()}, observing: {str(u.observing).lower()} }},")
    m.append("]); }")
    with open(os.path.join(d, "src", "main.rs"), "w") as f:
        f.write("\n".join(m) + "\n")


def bpath(pid):
    return f"src/sub/p{pid}b.rs"


def run_exe(d, args, timeout):
    try:
        p = subprocess.run([os.path.join(d, "batch")] + args, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                           timeout=timeout, errors="replace", env={**os.environ, "SIM_PROGRESS": os.path.join(d, "progress"), "RUST_BACKTRACE": "0"})
    except subprocess.TimeoutExpired:
        return None, [], "timeout"
    out = []
    for line in p.stdout.splitlines():
        try:
            out.append(json.loads(line))
        except ValueError:
            return p.returncode or 1, out, "garbage output: " + line[:200]
    return p.returncode, out, p.stderr[-500:]


def compile_units(d, units, toml, feature):
    """returns (units compiled, [(unit, form, message)])"""
    bad = []
    units = list(units)
    while units:
        write_batch(d, units, toml)
        ok, errs = base.rustc(d, feature)
        if ok:
            return units, bad
        hit = {}
        for f, msg in errs:
            for u in units:
                for k in "abc":
                    if f == f"src/sub/p{u.pid}{k}.rs":
                        hit.setdefault(u.pid, {}).setdefault(k, []).append(msg)
        if not hit:
            # an error without a position in a program: find the programs by compiling them one by one
            if len(units) == 1:
                # does the program compile when only the attributed form is left out?
                u = units[0]
                v = Unit(u.pid, {**u.texts, "b": u.texts["c"]}, u.is_async, u.observing)
                write_batch(d, [v], toml)
                form = "b" if base.rustc(d, feature)[0] else "a"
                bad.append((u, form, "\n".join(m for _, m in errs)[:4000]))
                return [], bad
            h = len(units) // 2
            good = []
            for part in (units[:h], units[h:]):
                g, b2 = compile_units(d, part, toml, feature)
                good += g
                bad += b2
            units = good
            continue
        for pid, forms in hit.items():
            u = next(x for x in units if x.pid == pid)
            form = "a" if "a" in forms else "c" if "c" in forms else "b"
            if form == "c" and "b" in forms and "a" not in forms:
                form = "bc"
            bad.append((u, form, "\n".join(forms[form[0]])[:4000]))
        units = [u for u in units if u.pid not in hit]
    return [], bad


class Job:
    def __init__(self, name, prof, tables, seeds, feature="", toml_extra=""):
        self.name, self.prof, self.tables, self.seeds, self.feature, self.toml_extra = name, prof, tables, seeds, feature, toml_extra


def make_unit(pid, seed, prof, tables, flavors):
    pr = P.Program(pid, seed, prof, tables, flavors)
    texts, env = pr.forms(bpath(pid), prof.get("consume", False))
    return Unit(pid, texts, pr.asy, prof.get("observing", True), seed, pr, env)


def run_job(job, seed, budget, panics=True, timeout=240, repeat=False):
    """one batch from generation to verdict"""
    t0 = time.time()
    d = os.path.join(WORK, job.name)
    flavors = rules.Flavors(job.tables or {})
    units = [make_unit(i, s, job.prof, job.tables, flavors) for i, s in enumerate(job.seeds)]
    toml = toml_table(job.tables) + job.toml_extra if job.tables is not None else None
    good, bad = compile_units(d, units, toml, job.feature)
    t1 = time.time()
    res = {"name": job.name, "stats": [], "viol": [], "gen": [], "compile_s": t1 - t0, "units": len(units), "hooks_placed": 0, "lines": 0}
    for u in units:
        res["hooks_placed"] += u.env.nhooks
        res["lines"] += u.texts["b"].count("\n")
    for u, form, msg in bad:
        if form == "b":
            res["viol"].append({"unit": u, "class": "compile", "plan": "", "msg": msg})
        else:
            res["gen"].append({"seed": u.seed, "form": form, "msg": msg})
    if good:
        args = ["run", str(seed), str(budget), "1" if panics else "0"] + (["stderr"] if job.prof.get("stderr") else [])
        rc, out, err = run_exe(d, args, timeout)
        if repeat and rc == 0:
            # the same seed again: every digest must come out the same
            _, again, _ = run_exe(d, args, timeout)
            if again != out:
                res["nondet"] = "two executions of the same seed differ"
        if rc != 0:
            # a crash or hang of the whole process: which form of which program?
            try:
                pr = open(os.path.join(d, "progress")).read().split("\n")[0].split(" ", 2)
            except OSError:
                pr = ["-1", "?", ""]
            u = next((x for x in good if str(x.pid) == pr[0]), None)
            rec = {"unit": u, "class": "crash", "plan": pr[2] if len(pr) > 2 else "", "msg": f"process died (rc {rc}) while running form {pr[1]}: {err}"}
            if pr[1] == "b" and u is not None:
                res["viol"].append(rec)
            else:
                res["gen"].append({"seed": u.seed if u else None, "form": pr[1], "msg": rec["msg"]})
        for m in out:
            u = next(x for x in good if x.pid == m["id"])
            if m["t"] == "stat":
                res["stats"].append(m)
            elif m["t"] == "viol":
                res["viol"].append({"unit": u, "class": m["class"], "plan": m["plan"], "want": m["want"], "got": m["got"]})
            elif m["t"] == "genbug":
                res["gen"].append({"seed": u.seed, "form": "ac", "msg": json.dumps(m)[:3000]})
    res["run_s"] = time.time() - t1
    res["toml"], res["feature"], res["prof"] = toml, job.feature, job.prof
    if not res["viol"] and not res["gen"] and not os.environ.get("SIM_KEEP"):
        shutil.rmtree(d, ignore_errors=True)
    return res


def run_jobs(jobs, seed, budget, panics=True, workers=8):
    for f in sorted({j.feature for j in jobs}):
        base.ensure(f)
    with cf.ThreadPoolExecutor(workers) as ex:
        return list(ex.map(lambda j: run_job(j, seed, budget, panics), jobs))
