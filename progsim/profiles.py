"""What each property's search generates: program shapes, attributes, and the flavors of the configuration file."""
import random

HK = '.hk($line, $column, $path, $file, "", $fn_name, $fn_sig, ::std::stringify!($source))'
ALLK = ["E", "E", "E", "EA", "EL", "F", "F", "O", "OA", "I"]
PRES = ["skip", "skip_all", "bind", "method", "method=", "hook_targets", "hook_targets=", "tail_expr_idents",
        "ignore_tail_expr_idents", "tail_expr_idents=", "result_types", "result_types=", "flavor="]
LV = ["error", "warn", "info", "debug", "trace"]


def obs_tables(r, binds=True, replace=False, targets=True, rules=True, macros=False):
    """a random tree of observing flavors; every usable path is returned with it"""
    from prog import IGN, SETS, TGT, TYPES
    paths = []

    def fields(name, top):
        t = {}
        if top or r.random() < .6:
            if replace:
                t["method"] = r.choice([f'hkt("{name}", $expr)', 'hkf($expr, $line, $col)', f'hk3(mark("{name}"), $expr, mark("z"))'])
            else:
                t["method"] = r.choice([f'.ht("{name}")', f'.htp("{name}", $line, $col)', HK, '.hp($line, $column)', '.hook(|| $hooq_meta)',
                                        f'.hsrc($line, ::std::stringify!($source)).ht("{name}")'])
        if targets and r.random() < .45:
            t["hook_targets"] = [x for x in r.choice(TGT)]
        if rules and r.random() < .4:
            t["tail_expr_idents"] = r.choice(SETS)
        if rules and r.random() < .3:
            t["ignore_tail_expr_idents"] = r.choice(IGN)
        if rules and r.random() < .4:
            t["result_types"] = r.choice(TYPES)
        if macros and r.random() < .6:
            t["hook_in_macros"] = r.random() < .4
        if binds and r.random() < .6:
            t["bindings"] = {k: r.choice(["1", "2", '"f"', "true", "9i64"]) for k in r.sample(["bx", "by", "bz", "bw"], r.randrange(1, 4))}
        return t

    def sub(full, depth):
        out = {}
        for nm in r.sample(["s1", "s2", "deep"], r.choice([0, 1, 1, 2])):
            p = f"{full}::{nm}"
            t = fields(p, False)
            if depth > 0 and r.random() < .5:
                t["subs"] = sub(p, depth - 1)
            out[nm] = t
            paths.append(p)
        return out
    tables = {}
    for nm in r.sample(["fa", "fb", "my_flavor", "x-y"][:3], r.choice([1, 2, 2, 3])):
        t = fields(nm, True)
        paths.append(nm)
        s = sub(nm, 2)
        if s:
            t["subs"] = s
        tables[nm] = t
    return tables, paths


# hooks a property's programs start from
def fixed(**extra):
    t = {"obs": {"method": HK}}
    t.update(extra)
    return t


def v_size(r):
    return r.choice([12, 25, 45, 45, 80])


def C01(r, i):
    k = i % 4
    p = dict(kinds=ALLK, size=v_size(r), depth=r.choice([2, 3, 3, 4]), attr_kinds=PRES, nattr=(0, 4), binds=True, sofar=True)
    if k == 1:
        p.update(kinds=["E", "E", "EA", "F"], **{"async": True})
    if k == 2:
        p.update(replace=True)
    tables, paths = obs_tables(r, replace=p.get("replace", False))
    p["flavors"] = paths
    if k == 3:
        # nothing but the attribute and one observing method
        p.update(attr_kinds=[], root_flavor="", binds=False, sofar=False)
    return p, tables, ""


def C02(r, i):
    k = i % 4
    p = dict(kinds=["E", "E", "E", "EA", "F", "O", "I"], size=v_size(r), depth=r.choice([2, 3, 4]), wrap=.2)
    t = {"obs": {"method": r.choice([HK, '.htp("q", $line, $column)', '.hp($line, $col)']), "hook_targets": ["?"]}}
    if k == 1:
        p.update(kinds=["E", "E", "EA", "F"], **{"async": True})
    if k == 2:
        t["obs"]["method"] = r.choice(['hkf($expr, $line, $col)', 'hk3(mark("a"), $expr, mark("b"))', 'Hk::htp($expr, "b", $line, $column)'])
        p["replace"] = True
    if k == 3:
        t["obs"]["hook_targets"] = ["?", "return", "tail_expr"]
        p.update(attr_kinds=["skip", "hook_targets", "method"], nattr=(0, 3))
    p["flavors"] = ["obs"]
    return p, t, ""


def C03(r, i):
    k = i % 4
    p = dict(kinds=ALLK, size=v_size(r), depth=r.choice([2, 3, 3]), root_attrs=["tail_expr_idents", "ignore_tail_expr_idents", "result_types"])
    if k == 0:
        p.update(root_attrs=[])
        t, paths = {"obs": {"method": HK, "hook_targets": ["return", "tail_expr"]}, "def": {"method": '.htp("r", $line, $col)'}}, ["obs", "def"]
    else:
        t, paths = obs_tables(r, binds=False)
    if k == 1:
        p.update(kinds=["E", "E", "EA", "F"], **{"async": True})
    if k >= 2:
        p.update(attr_kinds=["tail_expr_idents", "ignore_tail_expr_idents", "tail_expr_idents=", "result_types", "result_types=", "hook_targets"], nattr=(1, 5))
    p["flavors"] = paths
    return p, t, ""


def C04(r, i):
    k = i % 4
    p = dict(kinds=ALLK, size=v_size(r), depth=3, wrap=.35, flavors=["obs"])
    t = {"obs": {"method": HK}}
    if k == 1:
        p.update(kinds=["E", "E", "EA", "F"], **{"async": True})
        t["obs"]["method"] = r.choice([HK, ".hook(|| $hooq_meta)"])
    if k == 2:
        # ordinals: one function per attribute
        t["obs"]["method"] = r.choice(['.hk($line, $column, $path, $file, $count, $fn_name, $fn_sig, ::std::stringify!($source))', ".hook(|| $hooq_meta)",
                                       '.hk($line, $col, $path, $file, $nth, $fnname, $fnsig, stringify!($source))'])
        p.update(count=True, pad=.15, hooktrait="full", noitems=True, shapes=[(1, "fn")], size=r.choice([30, 60, 120]), attr_kinds=["skip", "skip_all", "method"], nattr=(0, 3))
        if r.random() < .5:
            p.update(attr_kinds=["skip", "method", "hook_targets", "hook_targets", "tail_expr_idents"], nattr=(1, 4))
    if k == 3:
        t["obs"]["method"] = r.choice(["hkf($expr, $line, $col)", 'Hk::hk($expr, $line, $column, $path, $file, "", $fn_name, $fn_sig, ::std::stringify!($source))',
                                       'nc::Hook::hook($expr, || $hooqmeta)'])
        p["replace"] = True
    return p, t, ""


def C05(r, i):
    k = i % 4
    p = dict(kinds=ALLK, size=v_size(r), depth=r.choice([3, 3, 4]), attr_kinds=["skip", "skip", "skip_all", "skip_all"], nattr=(1, 7), flavors=["obs"])
    t = {"obs": {"method": HK}}
    if k == 1:
        p.update(kinds=["E", "E", "EA", "F"], **{"async": True})
    if k == 2:
        p.update(attr_kinds=["skip", "skip", "skip_all", "method", "hook_targets", "bind"])
    if k == 3:
        p.update(root_attrs=["skip", "skip_all"][r.randrange(2):][:1])
    return p, t, ""


def C06(r, i):
    k = i % 4
    rep = k == 3
    mac = k == 2 or k == 0 and r.random() < .5
    t, paths = obs_tables(r, macros=mac, replace=rep)
    p = dict(kinds=ALLK, size=v_size(r), depth=r.choice([3, 3, 4]), flavors=paths, nattr=(1, 8), binds=True, replace=rep, sofar=False,
             attr_kinds=[x for x in PRES if not x.startswith("skip")])
    if k == 1:
        p.update(kinds=["E", "E", "EA", "F"], **{"async": True})
    if mac:
        p.update(macattr_off=True, macs=4)
        p["attr_kinds"] = p["attr_kinds"] + ["flavor="] * 2
    if k == 2:
        p.update(attr_kinds=p["attr_kinds"] + ["hook_in_macros", "hook_in_macros="], root_attrs=["hook_in_macros"])
    return p, t, ""


def C07(r, i):
    k = i % 4
    rep = k == 2
    t, paths = obs_tables(r, replace=rep)
    p = dict(kinds=ALLK, size=v_size(r), depth=3, flavors=paths, nattr=(2, 9), binds=True, sofar=True, replace=rep,
             attr_kinds=["bind", "bind", "method", "method", "method=", "bindings=", "flavor=", "skip"])
    if k == 1:
        p.update(kinds=["E", "E", "EA", "F"], **{"async": True})
    if k == 3:
        p.update(root_flavor="hook", root_method=True, hooktrait=r.choice(["nc", "lazy"]), sofar=True)
        p["attr_kinds"] = ["bind", "bind", "method", "flavor="]
    return p, t, ""


def helper_call(r):
    """a documented excerpt macro with options, as users write it in their own methods"""
    h = "::hooq::source_excerpt_helpers::"
    tr = r.choice([[], ["@truncate_str"], [f"@truncate_str = {r.choice([1, 2, 3, 4, 5, 9, 10, 11, 30])}"]])
    k = r.randrange(4)
    if k == 0:
        o, m = tr, h + "one_line_stringify"
    elif k == 1:
        o = ["@show_line_num"] * r.randrange(2) + r.choice([[], ["@padding"], [f'@padding = "{r.choice(["top", "bottom", "both"])}"']])
        m = h + "pretty_stringify"
    else:
        o = r.choice([[], [f"@excerpt_line = {r.choice([1, 2, 3, 4, 6, 9])}"]]) + tr + ["@show_line_num"] * r.randrange(2)
        o += r.choice([[], ["@padding"], [f'@padding = "{r.choice(["bottom", "both"])}"']])
        m = r.choice([h + "excerpted_pretty_stringify", "hooq::summary"])
    r.shuffle(o)
    return f"{m}!({''.join(x + r.choice([', ', ',']) for x in o)}$source)"


def C08(r, i):
    k = i % 5
    if k == 4:
        t = {x: {"method": f".hx($line, {helper_call(r)})"} for x in ("obs", "two", "three")}
        p = dict(kinds=["E", "E", "EA", "F", "EL"], size=v_size(r), depth=3, flavors=list(t), nosofar=True, excerpt=True, wrap=.25,
                 attr_kinds=["skip", "method=", "flavor="], nattr=(0, 4), strings=True)
        p["async"] = r.random() < .3
        return p, t, ""
    fam, fl = [("A", "anyhow"), ("Y", "eyre"), ("Y", "color_eyre"), ("A", "anyhow")][k]
    if fl == "color_eyre":
        fl = "color_eyre"
    p = dict(kinds=[fam], fam=fam, size=v_size(r), depth=3, flavors=[fl], nosofar=True, wrap=.25)
    p["async"] = r.random() < .3
    if r.random() < .4:
        p.update(attr_kinds=["skip", "skip_all"], nattr=(0, 3))
    return p, None, ""


def C09(r, i):
    k = i % 3
    p = dict(kinds=["E", "E", "EA", "F", "EL"], size=v_size(r), depth=3, nosofar=True, excerpt=True, wrap=.25)
    p["async"] = r.random() < .3
    t = None
    if k == 0:
        p.update(flavors=["default"], root_flavor=["default", ""], root_method=False, stderr=True)
    else:
        fam = ["log", "tracing"][k - 1]
        fs = [fam] + [f"{fam}::{lv}" for lv in LV]
        p.update(flavors=fs)
        if r.random() < .35:
            # a bound level instead of a sub-flavor
            up = (lambda x: "::log::Level::" + x.capitalize()) if fam == "log" else (lambda x: "::tracing::Level::" + x.upper())
            p.update(flavors=[fam], levels=[up(x) for x in LV], attr_kinds=["level", "level", "skip", "flavor="], nattr=(0, 4))
        elif r.random() < .4:
            lvl = r.choice(LV)
            t = {fam: {"bindings": {"level": ("::log::Level::" + lvl.capitalize()) if fam == "log" else ("::tracing::Level::" + lvl.upper())}}}
            p.update(flavors=[fam])
        elif r.random() < .4:
            p.update(attr_kinds=["skip", "skip_all", "flavor="], nattr=(0, 3))
    return p, t, ""


def C10(r, i):
    k = i % 4
    p = dict(kinds=["E", "E", "EA", "F"], size=v_size(r), depth=r.choice([3, 4]), flavors=["obs"], wrap=.15)
    p["async"] = True
    t = {"obs": {"method": HK}}
    if k == 1:
        t["obs"]["method"] = "hk3(mark(1), $expr, mark(2))"
        p["replace"] = True
    if k == 2:
        t, paths = obs_tables(r)
        p.update(flavors=paths, attr_kinds=PRES, nattr=(1, 5), binds=True, sofar=True)
    if k == 3:
        t["obs"]["method"] = ".hook(|| $hooq_meta)"
    return p, t, ""


def C11(r, i):
    k = i % 3
    t, paths = obs_tables(r)
    p = dict(kinds=ALLK, size=v_size(r), depth=3, flavors=paths, root_flavor="empty", root_method=False, binds=True, nattr=(2, 9), sofar=True,
             attr_kinds=["skip", "skip_all", "bind", "method", "method=", "tail_expr_idents", "ignore_tail_expr_idents", "tail_expr_idents=",
                         "result_types", "result_types=", "bindings="])
    if k == 1:
        p.update(kinds=["E", "E", "EA", "F"], **{"async": True})
    if k == 2 and r.random() < .5:
        t = None
        p["flavors"] = ["default", "hook", "log::warn"]
        p["sofar"] = False
    return p, t, ""


def C17(r, i):
    k = i % 4
    p = dict(kinds=["E", "E", "EA", "O", "I"], size=v_size(r), depth=3, consume=True, observing=False, flavors=["eat", "keep"], nosofar=True,
             attr_kinds=["method", "skip", "skip_all", "method="], nattr=(0, 5), root_attrs=[])
    t = {"eat": {"method": r.choice([".eat($line, $column)!", "eatf($expr, $line, $col)!", ".htp(0, $line, $col).eat($line, $column)!"]), "hook_targets": ["?"]},
         "keep": {"method": ".hp($line, $column)", "hook_targets": ["?"]}}
    if k == 1:
        p.update(**{"async": True}, kinds=["E", "E", "EA"])
    if k == 3:
        # the feature on, no trailing `!` anywhere: nothing changes
        t, paths = obs_tables(r)
        p = dict(kinds=ALLK, size=v_size(r), depth=3, flavors=paths, attr_kinds=PRES, nattr=(0, 4), binds=True, sofar=True)
    return p, t, "consume"


PROFILES = dict(C01=C01, C02=C02, C03=C03, C04=C04, C05=C05, C06=C06, C07=C07, C08=C08, C09=C09, C10=C10, C11=C11, C17=C17)


def make(pid, seed, i):
    r = random.Random(f"{pid}/{seed}/{i}/profile")
    return PROFILES[pid](r, i)
