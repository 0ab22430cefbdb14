"""M04: wsclean component lists.  Numeric fields of the text are tokens: digit
strings that float() maps to symbolic values, so that a claim covers every
number that could stand there."""
import itertools
from fractions import Fraction as Fr
from engine.harness import scenario


def ang(b, k, name):
    """text and value (fraction of a turn) of a coordinate"""
    sg = b.pick(name + "sign", ["", "+", "-"])
    d, m = b.symint(name + "d", 0, 23), b.symint(name + "m", 0, 59)
    frac = b.bool(name + "frac")
    s = b.real(name + "s", 0, 59) if frac else b.symint(name + "s", 0, 59)
    full = 24 if k == "ra" else 360
    sep = ":" if k == "ra" else "."
    txt = sg + b.tok(d) + sep + b.tok(m) + sep + b.tok(s, frac)
    v = (d / b.q(1) + m / b.q(60) + s / b.q(3600)) * 2 * b.pi / full
    return txt, -v if sg == "-" else v


def ld(b, lines):
    return dict(b.mod("africanus.model.wsclean.file_model").load(lines))


@scenario("M04", "coordinates", bounds="one source, any sexagesimal right "
          "ascension and declination (whole or fractional seconds, any sign)")
def s1(b):
    ra, rv = ang(b, "ra", "r")
    dec, dv = ang(b, "dec", "d")
    sp = b.pick("space", ["", " "])
    r = ld(b, ["Format = Ra,%sDec" % sp, "%s,%s%s\n" % (ra, sp, dec)])
    b.same("columns", list(r), ["Ra", "Dec"])
    b.same("one source", (len(r["Ra"]), len(r["Dec"])), (1, 1))
    b.eq("right ascension", r["Ra"][0], rv)
    b.eq("declination", r["Dec"][0], dv)


def num(b, name, lo=0, hi=1000):
    v = b.real(name, lo, hi)
    return b.tok(v, True), v


COLS = {
    "Name": lambda b, n: ("s" + n[-1],) * 2,
    "Type": lambda b, n: (("POINT",) * 2 if b.bool(n) else
                          ("GAUSSIAN",) * 2),
    "I": lambda b, n: num(b, n),
    "ReferenceFrequency": lambda b, n: num(b, n),
    "MajorAxis": lambda b, n: (lambda t, v: (t, v / 3600 * b.pi / 180))(
        *num(b, n)),
    "MinorAxis": lambda b, n: (lambda t, v: (t, v / 3600 * b.pi / 180))(
        *num(b, n)),
    "Orientation": lambda b, n: (lambda t, v: (t, v * b.pi / 180))(
        *num(b, n)),
    "LogarithmicSI": lambda b, n: (("true", True) if b.bool(n) else
                                   ("false", False)),
    "SpectralIndex": lambda b, n: spix(b, n),
}


def spix(b, n):
    k = b.int(n + "n", 0, 2)
    ts, vs = [], []
    for i in range(k):
        t, v = num(b, n + "_%d" % i)
        if b.bool(n + "neg%d" % i):
            t, v = "-" + t, -v
        ts.append(t)
        vs.append(v)
    return "[" + b.pick(n + "sep", [",", ", "]).join(ts) + "]", vs


def claim(b, name, got, want):
    if isinstance(want, list):
        b.same(name + " length", len(got), len(want))
        for g, w in zip(got, want):
            b.eq(name, g, w)
    elif isinstance(want, (str, bool)):
        b.same(name, got, want)
    else:
        b.eq(name, got, want)


ORDERS = [("Name", "Type", "I"), ("I", "SpectralIndex", "LogarithmicSI"),
          ("SpectralIndex", "MajorAxis", "Name"),
          ("Orientation", "MinorAxis", "MajorAxis"),
          ("LogarithmicSI", "ReferenceFrequency", "SpectralIndex")]


@scenario("M04", "columns", bounds="5 column triples in every order, 1..2 "
          "sources with any numbers, 0..2 spectral terms; comments and blank "
          "lines before the header, spaces around separators")
def s2(b):
    cols = b.pick("perm", [p for o in ORDERS
                           for p in itertools.permutations(o)])
    n = b.int("n", 1, 1 if b.tier == "quick" else 2)
    pre = b.pick("pre", [[], ["# comment\n", "\n"]])
    sep = b.pick("sep", [",", ", "])
    lines, want = [], {c: [] for c in cols}
    for i in range(n):
        row = []
        for c in cols:
            t, v = COLS[c](b, c + str(i))
            row.append(t)
            want[c].append(v)
        lines.append(sep.join(row) + "\n")
    r = ld(b, pre + ["Format = " + sep.join(cols) + " # trailing\n"] + lines)
    b.same("columns in order", list(r), list(cols))
    for c in cols:
        b.same("sources", len(r[c]), n)
        for g, w in zip(r[c], want[c]):
            claim(b, c, g, w)


@scenario("M04", "several_sources", bounds="3 sources with any flux and "
          "position angle keep their order and do not mix columns")
def s3(b):
    want = []
    lines = ["Format = Name, I, ReferenceFrequency='%s'" % b.tok(
        b.real("rf", 0, 9), True)]
    rf = b.real("rf", 0, 9)
    for i in range(3):
        t, v = num(b, "i%d" % i)
        neg, own = b.bool("neg%d" % i), b.bool("own%d" % i)
        f, fv = num(b, "f%d" % i) if own else ("", rf)
        lines.append("c%d,%s%s,%s" % (i, "-" if neg else "", t, f))
        want.append(("c%d" % i, -v if neg else v, fv))
    r = ld(b, lines)
    for i, (nm, v, fv) in enumerate(want):
        b.same("name", r["Name"][i], nm)
        b.eq("flux", r["I"][i], v)
        b.eq("own or default frequency", r["ReferenceFrequency"][i], fv)


@scenario("M04", "defaults", bounds="blank fields: header default, or zero "
          "for axes and orientation, else refused")
def s4(b):
    c = b.pick("col", ["MajorAxis", "MinorAxis", "Orientation", "I",
                       "ReferenceFrequency", "SpectralIndex",
                       "LogarithmicSI", "Ra"])
    hd = b.bool("header_default")
    first = b.bool("first")
    t, v = num(b, "dflt")
    if c in ("SpectralIndex", "Ra", "LogarithmicSI"):
        t = {"SpectralIndex": "[]", "Ra": "00:00:00",
             "LogarithmicSI": "true"}[c]
        v = {"SpectralIndex": [], "Ra": b.q(0), "LogarithmicSI": True}[c]
    h = "%s='%s'" % (c, t) if hd else c
    order = [h, "Name"] if first else ["Name", h]
    row = ["", "n"] if first else ["n", ""]

    def run():
        return ld(b, ["Format = " + ",".join(order), ",".join(row)])
    if not hd and c in ("SpectralIndex", "LogarithmicSI", "Ra"):
        b.raises("no value and no default", ValueError, run)
        return
    if not hd:
        v = b.q(0)
    elif c in ("MajorAxis", "MinorAxis"):
        v = v / 3600 * b.pi / 180
    elif c == "Orientation":
        v = v * b.pi / 180
    r = run()
    b.same("name", r["Name"], ["n"])
    claim(b, c, r[c][0], v)


@scenario("M04", "refusals", bounds="no header, unknown columns, wrong "
          "number of fields, malformed coordinates")
def s5(b):
    k = b.pick("kind", [
        ["", "# only a comment"], [], ["Format = Name, Flux", "a,1"],
        ["Format = Name, I", "a"], ["Format = Name, I", "a,1,2"],
        ["Format = Ra", "10h20m"], ["Format = Dec", "10:20:30"],
        ["Columns = Name", "a"]])
    b.raises("malformed list", ValueError, lambda: ld(b, list(k)))
