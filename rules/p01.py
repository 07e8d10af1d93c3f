"""P01: the Fortran routine called is the one the wrapper stands for."""
import re
from vlib import facts as FX
from vlib.runner import Finding
from rules.common import src_fns, base, pointee, root, short
from vlib.flow import strip

ABOUT = ("Absolute: every call of a BLAS or LAPACK routine is checked for precision letter against the element type of its array arguments; every wrapper in psimag::BLAS and "
         "psimag::LAPACK forwards each of its parameters exactly once, in order, to the routine whose name it carries. "
         "Relative: every wrapper and every caller in the library gives the operands, leading dimensions, orders and counts of the confirmed reference.")
LETTER = {"float": "s", "double": "d", "std::complex<float>": "c", "std::complex<double>": "z"}
FORTRAN = re.compile(r"^([sdcz]|sc|dz|is|id|ic|iz|cs|zd)([a-z0-9]{2,})_$")


def routines(F):
    for rel, f in src_fns(F):
        for x in FX.walk([f.get("inits"), f["body"]]):
            if x.get("k") == "call" and x.get("c") and FORTRAN.match(x.get("n", "")) and x.get("n") in F.protos:
                yield rel, f, x


def precision(ctx):
    """the precision letter of each BLAS/LAPACK routine called agrees with the floating type of every array or scalar passed to it"""
    F, out = ctx.C, []
    for rel, f, x in routines(F):
        ctx.count("fortran_calls")
        ts = []
        for a in x.get("a", []):
            b = base(F.ty(strip(a)))
            if b in LETTER:
                ts.append(b)
        m = FORTRAN.match(x["n"])
        want = {"sc": "sc", "dz": "dz", "cs": "cs", "zd": "zd"}.get(m.group(1), m.group(1)[-1])
        reals = {"s": {"float"}, "d": {"double"}, "c": {"std::complex<float>", "float"}, "z": {"std::complex<double>", "double"},
                 "sc": {"std::complex<float>"}, "dz": {"std::complex<double>"}, "cs": {"std::complex<float>", "float"}, "zd": {"std::complex<double>", "double"}}[want]
        main = {"c": "std::complex<float>", "z": "std::complex<double>"}.get(want)
        bad = [t for t in ts if t not in reals]
        if bad or (main and ts and main not in ts):
            out.append(Finding("precision", "%s in %s" % (x["n"], short(f["q"])), rel, x.get("l"), "%s is called with %s data" % (x["n"], ", ".join(sorted(set(bad or ts))))))
    ctx.floor("fortran_calls", 80)
    return out


ALIAS = {"HEEV": ("syev", "heev"), "HPMV": ("hpmv", "spmv")}


def forwards(ctx):
    """a wrapper calls the routine of its own name, with each of its parameters exactly once and in the order it received them"""
    F, out = ctx.C, []
    for rel, f in src_fns(F, r"BLAS\.h", r"LAPACK\.h"):
        if not re.match(r"^psimag::(BLAS|LAPACK)::", f["q"]):
            continue
        cs = [x for x in FX.walk(f["body"]) if x.get("k") == "call" and x.get("c") and FORTRAN.match(x.get("n", ""))]
        if len(cs) != 1:
            continue
        x = cs[0]
        ctx.count("wrappers")
        stem = FORTRAN.match(x["n"]).group(2)
        nm = f["n"].lower()
        inst = "%s(%s) -> %s" % (short(f["q"]), ", ".join(F.ty(p) for p in f["params"]), x["n"])
        if not (nm == stem or stem in nm or nm in stem or x["n"][:-1] == nm or stem in ALIAS.get(f["n"], ())):
            out.append(Finding("routine-name", inst, rel, x.get("l"), "the wrapper %s calls %s" % (f["n"], x["n"])))
        ids = [p["id"] for p in f["params"]]
        got = []
        for a in x.get("a", []):
            s = strip(a)
            if isinstance(s, dict) and s.get("k") == "un" and s.get("op") == "&":
                s = strip(s["a"])
            r = root(s)
            got.append(r[1] if r and r[0] == "v" else None)
        if any(g not in ids for g in got):
            continue        # computed arguments: the relative rule decides
        it = iter(ids)
        if len(got) < len(ids) and all(g in it for g in got):
            continue        # real routines take no rwork
        if got != ids and sorted(got) != sorted(ids):
            out.append(Finding("forward", inst, rel, x.get("l"), "parameters are not passed exactly once each"))
        elif got != ids:
            out.append(Finding("forward", inst, rel, x.get("l"), "parameters are passed in another order than received"))
    ctx.floor("wrappers", 60)
    return out


RULES = [("precision", precision), ("forwards", forwards)]
