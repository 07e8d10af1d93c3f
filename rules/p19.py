"""P19: configurations compile; headers obey the one-definition rule."""
import os, re
from vlib import facts as FX
from vlib.runner import Finding

ABOUT = ("Every translation unit of the library, every driver and every instantiation probe (one per group of public templates and one per "
         "configuration: POSIX threads, no threads, OpenMP, message passing, scientific library) is type-checked with all errors collected; "
         "an error the reference tree does not have is a violation. Headers are then checked for definitions that would clash between translation units.")
CONFIG_UNITS = ("probe:p_mpi.cpp", "probe:p_openmp.cpp", "probe:p_nopthreads.cpp", "probe:p_solversgsl.cpp", "probe:p_pthreads1.cpp", "probe:p_mpiyes.cpp",
                "probe:p_noboost.cpp", "probe:p_iosimple.cpp", "probe:p_calloc.cpp", "probe:p_pam.cpp")


def compiles(ctx):
    """every unit, driver and instantiation probe of every configuration type-checks"""
    R, C = ctx.R, ctx.C
    old = {u[0]: set(FX.errkey(e) for e in u[2]) for u in R.units}
    cur = {u[0]: u for u in C.units}
    out = []
    for lab, n, errs in R.units:
        ctx.count("units_checked")
        u = cur.get(lab)
        if u is None:
            if lab.startswith("drv:"):
                ctx.undecided.append("driver %s vanished" % lab)
                continue
            raise FX.AnalysisError("unit %s vanished" % lab)
        if u[1] < 0:
            raise FX.AnalysisError("unit %s could not be analysed: %s" % (lab, "; ".join(u[2][:2])))
        new = [e for e in u[2] if FX.errkey(e) not in old[lab]]
        seen = set()
        for e in new:
            k = FX.errkey(e)
            if k in seen:
                continue
            seen.add(k)
            m = re.match(r"(.*?):(\d+):(\d+): (?:fatal )?error: (.*)", e)
            f, l, t = (m.group(1), m.group(2), m.group(4)) if m else ("?", 0, e)
            f = f.replace(FX.REPO + "/", "")
            out.append(Finding("instantiation", "%s: %s" % (lab, k), f, l, "does not compile in unit %s: %s" % (lab, t)))
    for c in CONFIG_UNITS:
        if c not in cur:
            raise FX.AnalysisError("configuration unit %s vanished" % c)
        ctx.count("configurations")
    ctx.count("functions_instantiated", len(C.fns))
    ctx.floor("units_checked", 50)
    ctx.floor("functions_instantiated", 2000)
    return out


def odr(ctx):
    """no header defines a non-template, non-inline function or variable with external linkage"""
    C = ctx.C
    out = []
    for f in C.fns.values():
        r = C.rel(f["file"])
        if not (r.startswith("src/") and r.endswith((".h", ".hh"))):
            continue
        ctx.count("header_functions")
        if f.get("inline") or f.get("inst") or f.get("intl") or f.get("lambda"):
            continue
        out.append(Finding("one-definition", f["q"], r, f["l"], "function defined in a header without inline: two translation units that include it do not link"))
    for (q, fi, l), g in C.gvars.items():
        r = C.rel(fi)
        if not (r.startswith("src/") and r.endswith((".h", ".hh"))) or not g.get("def") or g.get("slocal"):
            continue
        ctx.count("header_variables")
        if g["linkage"] == "ext" and not g.get("inline") and not g.get("inst"):
            out.append(Finding("one-definition", q, r, l, "variable defined in a header without inline: two translation units that include it do not link"))
    ctx.floor("header_functions", 1500)
    return out


def undefined(ctx):
    """every static data member of a library class that is used has a definition, and every declared library function that is called has a body"""
    R, C = ctx.R, ctx.C
    out = []
    bodies = set(k.split("@")[0] for k in C.fns)
    had = set(k.split("@")[0] for k in R.fns)
    for r in C.recs.values():
        if not C.rel(r["file"]).startswith("src/"):
            continue
        for m in r.get("methods", []):
            k = m.get("fk")
            if not k or m.get("implicit") or m.get("deleted") or m.get("defaulted") or m.get("pure"):
                continue
            ctx.count("declared_methods")
            if k in had and k not in bodies and not m.get("hasbody"):
                out.append(Finding("definition", r["q"] + "::" + m["n"], C.rel(r["file"]), m["l"], "declared, but the definition it had is gone: callers do not link"))
    old = {}
    for (q, f, l), g in R.gvars.items():
        if g.get("smember"):
            old[q] = old.get(q, False) or bool(g.get("def"))
    cur = {}
    for (q, f, l), g in C.gvars.items():
        if g.get("smember"):
            cur[q] = (cur.get(q, (False,))[0] or bool(g.get("def")) or bool(g.get("inline")), f, l)
    for q, d in old.items():
        ctx.count("static_members")
        if d and q in cur and not cur[q][0]:
            out.append(Finding("definition", q, C.rel(cur[q][1]), cur[q][2], "static data member declared, but its definition is gone: users do not link"))
    ctx.floor("declared_methods", 500)
    return out


RULES = [("instantiation", compiles), ("one-definition", odr), ("definition", undefined)]
