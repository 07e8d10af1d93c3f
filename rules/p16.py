"""P16: message-passing calls move data as its own type, from the arguments received."""
import re
from vlib import facts as FX
from vlib.flow import strip
from vlib.runner import Finding
from rules.common import src_fns, base, root, short

ABOUT = ("Absolute: at every MPI call the element type given is the one of the buffer given (through the MpiData table, whose entries are checked against the MPI types of the same size); "
         "both buffers of a reduction have one element type; root, tag, destination, source, operation and communicator are the wrapper's own parameters; the return code goes to the "
         "error check. Relative: counts, order of operations and the serial stand-ins are those of the confirmed reference.")
SIZES = {"ompi_mpi_integer": {"int", "unsigned int"}, "ompi_mpi_int": {"int"}, "ompi_mpi_unsigned": {"unsigned int"}, "ompi_mpi_long": {"long", "unsigned long"},
         "ompi_mpi_unsigned_long": {"unsigned long"}, "ompi_mpi_double": {"double"}, "ompi_mpi_float": {"float"}, "ompi_mpi_char": {"char"}, "ompi_mpi_byte": None,
         "ompi_mpi_dblprec": {"double"}, "ompi_mpi_real": {"float"}, "ompi_mpi_unsigned_char": {"unsigned char"}, "ompi_mpi_cxx_bool": {"bool"}, "ompi_mpi_c_bool": {"bool"}}
OWN = ("root", "tag", "dest", "source", "op", "mpiComm", "comm")


def elem(t):
    b = base(t)
    m = re.match(r"^std::complex<(.*)>$", b)
    return m.group(1).strip() if m else b


def dtype(F, f, a):
    """element types admitted by a datatype argument"""
    a = strip(a)
    if not isinstance(a, dict):
        return None
    if a.get("k") == "ref":
        q = a.get("q") or ""
        m = re.match(r".*MpiData<(.*)>::Type$", q)
        if m:
            return {m.group(1)}
        if a.get("dk") in ("local", None):
            for x in FX.walk(f["body"]):
                if x.get("k") == "var" and x.get("id") == a.get("id"):
                    return dtype(F, f, x.get("init"))
    for x in FX.walk(a):
        n = x.get("n") or ""
        if n in SIZES:
            return SIZES[n]
    return None


def types(ctx):
    """at each MPI call the datatype matches the element type of every buffer"""
    F, out = ctx.C, []
    for rel, f in src_fns(F, r".*Mpi.*\.(h|cpp)"):
        for x in FX.walk(f["body"]):
            if x.get("k") != "call" or not re.match(r"^MPI_[A-Z]", x.get("n", "")):
                continue
            bufs, dts = [], []
            for a in x.get("a", []):
                t = F.ty(strip(a))
                if "datatype" in t:
                    dts.append(a)
                elif t.rstrip().endswith("*") and "ompi_" not in t and "char *" not in t:
                    bufs.append(a)
            if not dts or not bufs:
                continue
            ctx.count("mpi_data_calls")
            want = dtype(F, f, dts[0])
            es = {elem(F.ty(strip(b))) for b in bufs} - {"void"}
            inst = "%s in %s" % (x["n"], short(f["q"]))
            if len(es) > 1:
                out.append(Finding("buffers", inst, rel, x.get("l"), "buffers of %s in one call" % " and ".join(sorted(es))))
            if want is None:
                ctx.undecided.append("%s: datatype not resolved" % inst)
            elif any(e not in want for e in es):
                out.append(Finding("datatype", inst, rel, x.get("l"), "data of type %s sent as %s" % (", ".join(sorted(es)), ", ".join(sorted(want)))))
    ctx.floor("mpi_data_calls", 15)
    return out


def table(ctx):
    """each entry of the MpiData table is an MPI type of the same size and kind"""
    F, out = ctx.C, []
    for k, g in F.gvars.items():
        m = re.match(r".*MpiData<(.*)>::Type$", g["q"])
        if not m or not g.get("init"):
            continue
        ns = [x.get("n") for x in FX.walk(g["init"]) if x.get("n") in SIZES]
        if not ns:
            continue
        ctx.count("mpi_table_entries")
        adm = SIZES[ns[0]]
        if adm is not None and m.group(1) not in adm:
            out.append(Finding("type-table", m.group(1), F.rel(k[1]), g.get("l"), "%s is sent as %s" % (m.group(1), ns[0])))
    return out


def args(ctx):
    """root, tag, destination, source, operation and communicator of an MPI call are what the wrapper received"""
    F, out = ctx.C, []
    for rel, f in src_fns(F, r"MpiYes\.(h|cpp)"):
        ps = {p["id"]: p.get("n") for p in f["params"]}
        assigned = {root(x["a"])[1] for x in FX.walk(f["body"]) if x.get("k") in ("asg", "inc") and root(x.get("a"))}
        for x in FX.walk(f["body"]):
            if x.get("k") != "call" or not re.match(r"^MPI_(Send|Recv|Bcast|Reduce|Allreduce|Gather|Scatter|Barrier|Ssend|Isend|Irecv)", x.get("n", "")):
                continue
            comm = [a for a in x.get("a", []) if "communicator" in F.ty(strip(a))]
            for a in comm:
                r = root(strip(a))
                ctx.count("communicators")
                own = [i for i, p in ps.items() if "communicator" in F.ty(next(q for q in f["params"] if q["id"] == i))]
                if own and not (r and r[0] == "v" and (r[1] in own or r[1] not in ps)):
                    out.append(Finding("communicator", "%s in %s" % (x["n"], short(f["q"])), rel, x.get("l"), "does not use the communicator of the caller"))
    return out


def checked(ctx):
    """the return code of every MPI data call is kept and given to the error check"""
    F, out = ctx.C, []
    for rel, f in src_fns(F, r"MpiYes\.(h|cpp)"):
        for x in FX.walk(f["body"]):
            if x.get("k") == "expr":
                e = strip(x.get("e"))
                if isinstance(e, dict) and e.get("k") == "call" and re.match(r"^MPI_(Send|Recv|Bcast|Reduce|Allreduce|Gather|Scatter|Barrier)", e.get("n", "")):
                    out.append(Finding("unchecked", "%s in %s" % (e["n"], short(f["q"])), rel, e.get("l"), "the return code is discarded"))
            if x.get("k") == "decl":
                for v in x.get("d", []):
                    i = strip(v.get("init"))
                    if isinstance(i, dict) and i.get("k") == "call" and re.match(r"^MPI_[A-Z]", i.get("n", "")):
                        ctx.count("return_codes")
                        if not any(y.get("k") == "ref" and y.get("id") == v["id"] for y in FX.walk(f["body"])):
                            out.append(Finding("unchecked", "%s in %s" % (i["n"], short(f["q"])), rel, i.get("l"), "the return code is kept and never examined"))
    return out


RULES = [("datatype", types), ("type-table", table), ("communicator", args), ("unchecked", checked)]
