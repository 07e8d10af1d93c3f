"""P06: exceptions are thrown and travel; statuses are looked at."""
import re
from vlib import facts as FX
from vlib.flow import strip
from vlib.runner import Finding
from rules.common import src_fns, base, short

ABOUT = ("Absolute: no exception object is built and discarded; no handler throws a copy of the exception it caught; no handler catches by value; handlers that neither "
         "re-throw nor leave are the listed ones; nothing ends the process except the listed functions; results of HDF5, MPI, thread and solver calls that report "
         "failure are not discarded, except at the listed sites; no destructor or noexcept function throws. "
         "Relative: throws, their conditions and the statuses examined are those of the confirmed reference.")
STDEXC = {"std::exception", "std::runtime_error", "std::logic_error", "std::range_error", "std::out_of_range", "std::invalid_argument", "std::length_error",
          "std::domain_error", "std::bad_alloc", "std::overflow_error", "std::underflow_error"}


def excs(F):
    s = set(STDEXC)
    for _ in range(4):
        for q, r in F.recs.items():
            for b in r.get("bases", []):
                n = b.get("n") if isinstance(b, dict) else b
                n = n or (F.types[b["t"]] if isinstance(b, dict) and "t" in b else "")
                if n in s:
                    s.add(q)
    return s


def discarded(ctx):
    """no full expression builds an exception object and does nothing with it"""
    F, out = ctx.C, []
    E = excs(F)
    for rel, f in src_fns(F):
        for x in FX.walk(f["body"]):
            if x.get("k") == "throw":
                ctx.count("throw_expressions")
            if x.get("k") == "expr":
                e = strip(x.get("e"))
                if isinstance(e, dict) and e.get("k") == "ctor" and base(F.ty(e)) in E:
                    out.append(Finding("discarded", short(f["q"]), rel, e.get("l"), "builds a %s and discards it" % base(F.ty(e))))
            if x.get("k") == "decl":
                for v in x.get("d", []):
                    if v.get("k") == "var" and base(F.ty(v)) in E and not any(y.get("k") == "ref" and y.get("id") == v["id"] for y in FX.walk(f["body"])):
                        out.append(Finding("discarded", short(f["q"]), rel, v.get("l"), "declares the exception %s and never uses it" % v.get("n")))
    ctx.floor("throw_expressions", 200)
    return out


def handlers(F):
    for rel, f in src_fns(F):
        for x in FX.walk([f.get("inits"), f["body"]]):
            if x.get("k") == "catch":
                yield rel, f, x


def sliced(ctx):
    """a handler that passes its exception on re-throws it and does not throw a copy; exceptions are caught by reference"""
    F, out = ctx.C, []
    for rel, f, h in handlers(F):
        ctx.count("handlers")
        v = h.get("v")
        if not v:
            continue
        if not F.ty(v).rstrip().endswith("&") and base(F.ty(v)) in excs(F):
            out.append(Finding("catch-by-value", short(f["q"]), rel, h.get("l"), "catches %s by value" % F.ty(v)))
        for x in FX.walk(h.get("b")):
            if x.get("k") == "throw" and x.get("e") is not None:
                e = strip(x["e"])
                while isinstance(e, dict) and e.get("k") == "ctor" and len(e.get("a", [])) == 1:
                    e = strip(e["a"][0])
                if isinstance(e, dict) and e.get("k") == "ref" and e.get("id") == v.get("id"):
                    out.append(Finding("sliced", short(f["q"]), rel, x.get("l"), "throws a copy of the exception it caught"))
    return out


# handlers that go on after an exception: an optional entry keeps its default, a driver reports and returns
def swallowing(F):
    seen = {}
    for rel, f, h in handlers(F):
        b = h.get("b")
        leaves = any(x.get("k") in ("throw",) or x.get("nr") for x in FX.walk(b)) or any(x.get("k") == "call" and x.get("n") == "err" for x in FX.walk(b))
        leaves = leaves or any(x.get("k") == "call" and any(y.get("k") == "throw" for y in FX.walk((F.fns.get(x.get("fk")) or {}).get("body"))) for x in FX.walk(b))
        if not leaves:
            seen.setdefault(rel, set()).add(h.get("l"))
    return {k: len(v) for k, v in seen.items()}


ENDERS = {"exit", "abort", "_exit", "terminate", "quick_exit", "_Exit"}
STAT = re.compile(r"^(pthread_create|pthread_attr_init|pthread_attr_setstacksize|MPI_[A-Z]\w+|gsl_\w+|H5\w+|MPI_\w+)$")
STATSKIP = re.compile(r"^(gsl_set_error_handler|gsl_.*_free|gsl_.*_set|H5\w*close|MPI_Finalize|MPI_Init)$")


def enders(F):
    seen = {}
    for rel, f in src_fns(F):
        for x in FX.walk([f.get("inits"), f["body"]]):
            if x.get("k") == "call" and x.get("n") in ENDERS and x.get("f", "") in (x["n"], "std::" + x["n"], "::" + x["n"]):
                seen.setdefault((rel, x["n"]), set()).add(x.get("l"))
    return {k: len(v) for k, v in seen.items()}


def dropped(F):
    seen = {}
    for rel, f in src_fns(F):
        for x in FX.walk(f["body"]):
            if x.get("k") != "expr":
                continue
            e = strip(x.get("e"))
            if isinstance(e, dict) and e.get("k") == "call" and STAT.match(e.get("n", "")) and not STATSKIP.match(e["n"]) and F.ty(e) not in ("void", ""):
                seen.setdefault((rel, e["n"]), set()).add(e.get("l"))
    return {k: len(v) for k, v in seen.items()}


def more(ctx, fn, rule, text):
    r, c = fn(ctx.R), fn(ctx.C)
    out = []
    for k, n in sorted(c.items(), key=str):
        ctx.count(rule + "_sites", n)
        if n > r.get(k, 0):
            kk = k if isinstance(k, str) else " ".join(k)
            out.append(Finding(rule, kk, k if isinstance(k, str) else k[0], 0, text % (n, r.get(k, 0))))
    return out


def swallow(ctx):
    """handlers that neither re-throw nor leave: only as many per file as were examined and found to implement a documented default"""
    return more(ctx, swallowing, "swallows", "%d handlers go on after an exception, %d were examined")


def ends(ctx):
    """no library function ends the process, except the sites examined"""
    return more(ctx, enders, "ends-process", "%d calls that end the process, %d were examined")


def drops(ctx):
    """the status of an HDF5, MPI, POSIX thread or GSL call is not discarded, except at the sites examined"""
    return more(ctx, dropped, "status-dropped", "%d calls whose status is discarded, %d were examined")


def destructors(ctx):
    """no destructor contains a throw that leaves it"""
    F, out = ctx.C, []
    for rel, f in src_fns(F):
        if not f["n"].startswith("~") and not f.get("noexcept"):
            continue
        ctx.count("destructors")

        def leaves(s):
            if isinstance(s, list):
                return any(leaves(y) for y in s)
            if not isinstance(s, dict):
                return False
            if s.get("k") == "try":
                return any(leaves(h.get("b")) for h in s.get("h", []))
            if s.get("k") == "throw":
                return True
            return any(leaves(v) for v in s.values() if isinstance(v, (dict, list)))
        if leaves(f["body"]):
            out.append(Finding("throws-in-destructor", short(f["q"]), rel, f["l"], "an exception thrown here ends the process"))
    return out


RULES = [("discarded", discarded), ("sliced", sliced), ("swallow", swallow), ("ends", ends), ("status-dropped", drops), ("destructors", destructors)]
