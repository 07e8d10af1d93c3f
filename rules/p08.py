"""P08: reader and writer of one class agree on record names and on the member behind each."""
import re
from vlib import facts as FX
from vlib.flow import strip
from vlib.runner import Finding
from rules.common import src_fns, root, short

ABOUT = ("Absolute: for every class with a writer and a reader (serializer records `label + \"/name\"`, and stream operators), each record read was written, and is put into the member it "
         "was written from; a record is not written twice under one name for different members, and a record named after a member holds that member. "
         "Relative: contents, types and order of the records are those of the confirmed reference.")


def lits(x):
    return [y["v"] for y in FX.walk(x) if y.get("k") == "str" and not y.get("pre") and re.match(r"^/?[\w#]+$", y.get("v", ""))]


def member(x):
    r = root(strip(x))
    return r[1] if r and r[0] == "m" else None


def records(F, f):
    """(written: {name: member}, read: {name: member}) of one member function"""
    w, r = [], []
    for x in FX.walk([f.get("inits"), f["body"]]):
        if x.get("k") != "call" or not x.get("a"):
            continue
        n = x.get("n")
        if n == "write" and len(x["a"]) >= 2:
            ls = lits(x["a"][0])
            if len(ls) == 1:
                w.append((ls[0].strip("/"), member(x["a"][1]), x.get("l")))
        elif n in ("write", "overwrite") and x.get("o") is not None and x["a"]:
            ls = lits(x["a"][0])
            if len(ls) == 1:
                w.append((ls[0].strip("/"), member(x["o"]), x.get("l")))
        elif n in ("read", "readline") and len(x["a"]) >= 2:
            ls = lits(x["a"][1])
            if len(ls) == 1:
                r.append((ls[0].strip("/"), member(x["a"][0]), x.get("l")))
    for i in f.get("inits") or []:
        pass
    return w, r


def agree(ctx):
    """each record read was written by the same class, from the member it is read into"""
    F, out = ctx.C, []
    W, R, where = {}, {}, {}
    for rel, f in src_fns(F):
        c = short(f.get("cls", ""))
        if not c or not rel.startswith("src/"):
            continue
        w, r = records(F, f)
        if f["n"] in ("write", "overwrite", "save", "print", "operator<<") or f["n"].startswith("write"):
            for nm, m, l in w:
                W.setdefault(c, {}).setdefault(nm, set()).add(m)
                where.setdefault((c, nm), (rel, l))
        if f["n"] in ("read", "load") or f["n"].startswith("read") or short(f["n"]) == c.rsplit("::", 1)[-1]:
            for nm, m, l in r:
                R.setdefault(c, {}).setdefault(nm, set()).add(m)
                where.setdefault((c, nm, "r"), (rel, l))
    for c in sorted(set(W) & set(R)):
        both = set(W[c]) & set(R[c])
        if not both:
            continue            # the reader reads an input file, not what the writer wrote
        ctx.count("classes_with_both")
        for nm in sorted(R[c]):
            rel, l = where[(c, nm, "r")]
            if nm not in W[c]:
                out.append(Finding("record-not-written", "%s of %s" % (nm, c), rel, l, "record %s is read and never written" % nm))
                continue
            ctx.count("records_paired")
            a, b = W[c][nm] - {None}, R[c][nm] - {None}
            if a and b and not (a & b):
                out.append(Finding("record-member", "%s of %s" % (nm, c), rel, l, "record %s is written from %s and read into %s" % (nm, ", ".join(sorted(a)), ", ".join(sorted(b)))))
    for c in sorted(W):
        for nm, ms in sorted(W[c].items()):
            ctx.count("records_written")
            ms = ms - {None}
            if len(ms) > 1:
                rel, l = where[(c, nm)]
                out.append(Finding("record-twice", "%s of %s" % (nm, c), rel, l, "record %s is written from %s" % (nm, " and ".join(sorted(ms)))))
            # a record named after a member holds that member
            m = next(iter(ms)) if len(ms) == 1 else None
            rec = next((r for q, r in F.recs.items() if short(q) == c), None)
            names = {x.get("n") for x in (rec or {}).get("fields", [])}
            if m and m != nm and nm in names:
                rel, l = where[(c, nm)]
                out.append(Finding("record-name", "%s of %s" % (nm, c), rel, l, "record %s holds the member %s" % (nm, m)))
    ctx.floor("records_written", 30)
    return out


RULES = [("records", agree)]
