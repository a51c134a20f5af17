"""The checks: for each property what is explored of the specification and
which behaviours of the library are validated against it."""
import concurrent.futures

from . import gen, setups
from .build import Unit
from .catalog import CHAINS, DELIMS, LISTS, SETUPS, TYPES, lists_of_group
from .context import Violation
from .gen import Cap, Doc, call, ids, start, words
from .scen import THREADS, Scenario

PROPS = {}


def prop(pid):
    def add(f):
        PROPS[pid] = f
        return f
    return add


def modes(c, setups):
    """setups with error modes; the quick tier takes two of the three each"""
    return [(s, em) for k, s in enumerate(setups)
            for em in ("b" + "st"[k % 2] if c.quick else "bst")]


def names(*groups):
    return [x.name for g in groups for x in lists_of_group(g)]


STR = names("str")


# --------------------------------------------------------------------------
# ways to read a document to its end


def read_probe(sc, i, rounds):
    for _ in range(rounds):
        sc.chain(i, "probe")


def read_get(rng, sc, i, lists, rounds):
    for _ in range(rounds):
        sc.get(i, rng.choice(lists))


def lines_of(data):
    return data.count(b"\n") + 1


def docs_scenarios(prefix, setup, em, docs, delim=b",", src="buffer",
                   extra=1):
    """each document is read to its end, in the shape it has"""
    for k, d in enumerate(docs):
        sc = Scenario(f"{prefix}{k}", f"{setup}/{em}")
        i = sc.new(setup, em, d, src, delim)
        read_probe(sc, i, lines_of(d) + extra)
        yield sc


def split_scenarios(prefix, setup, em, rows, delim=b",", per=100):
    sc = None
    for k, r in enumerate(rows):
        if k % per == 0:
            if sc:
                yield sc
            sc = Scenario(f"{prefix}{k}", f"{setup}/{em}")
            i = sc.conv_new(setup, em)
        sc.split(i, r, delim)
    if sc:
        yield sc


def chained(*its):
    for it in its:
        yield from it


def probe_unit(setup, em="b"):
    return Unit(setup, em, ["str"], chains=["probe"])


def split_unit(setup, em="b"):
    return Unit(setup, em, [], parser=False, converter=True)


def sources(it):
    """every second scenario from a file"""
    return it


def both(f):
    """f(src) from buffers and from files"""
    yield from f("buffer")
    yield from f("file")


def dedup(gens):
    seen = set()
    for sc in gens:
        if sc.id in seen:
            raise ValueError("scenario id used twice: " + sc.id)
        seen.add(sc.id)
        yield sc


def menu(starts, calls):
    """starts: (setup, em, documents, delimiter); calls(scenario, objects, em)
    adds each call there is"""
    out = []
    for k, (setup, em, docs, delim) in enumerate(starts):
        new = Scenario("start", f"{setup}/{em}")
        # with several documents delim may be a list
        objs = [new.new(setup, em, d, ("buffer", "file")[(k + j) % 2],
                        delim[j] if isinstance(delim, list) else delim)
                for j, d in enumerate(docs)]
        each = new.copy("calls")
        each.lines, each.args = [], []
        calls(each, objs, em)
        out.append((new, each))
    return out


# --------------------------------------------------------------------------
# sizes at which narrow counters would wrap around

WIDE = (65535, 65536, 65537)


def big_lines(c, cap, src):
    """lines of such lengths, with something behind them"""
    for k, n in enumerate(c.some(WIDE + (131071,))):
        sc = Scenario(f"L{src}{cap.setup}{cap.em}{k}", f"{cap.setup}/{cap.em}")
        i = sc.new(cap.setup, cap.em, b"a\n" + b"x" * (n - 1) + b"y\r\nb\n" +
                   b"z" * n, src)
        for _ in range(5):
            sc.get(i, "S1")
        yield sc


def big_counts(cap, src, tl="S1"):
    """more lines than 16 bits count"""
    sc = Scenario(f"N{src}{cap.setup}{cap.em}", f"{cap.setup}/{cap.em}")
    ie = SETUPS[cap.setup].ie
    d = (b"\n" * 165 + b"x\n") * 400 if ie else b"x\n" * 66100
    i = sc.new(cap.setup, cap.em, d + b"1,2,3,4,5,6,7,8,9\n\nq\n", src)
    if ie:
        for _ in range(4):
            sc.loop(i, tl, 100)
    else:
        for _ in range(330):
            sc.loop(i, tl, 200)
        for _ in range(100):
            sc.ignore(i)
    for _ in range(4):
        sc.get(i, tl)
    yield sc


def big_fields(c, prefix, setup, em, wrote, sizes=None):
    """wrote(n): a field with n special characters, and what it means"""
    for k, n in enumerate(sizes or (254, 255, 256, 257, 300, 1000) +
                          tuple(c.some(WIDE))):
        text, value = wrote(n)
        sc = Scenario(f"F{prefix}{k}", f"{setup}/{em}")
        i = sc.new(setup, em, b"a," + text + b",b\n" + text + b",c,d\n")
        sc.get(i, "S3", [b"a", value, b"b"])
        sc.get(i, "S3", [value, b"c", b"d"])
        yield sc


def doubled(n):
    return b'"x' + b'""' * n + b'"', b"x" + b'"' * n


def escaped(n):
    return b"x" + b"\\," * n, b"x" + b"," * n


def escaped_quoted(n):
    return b'"' + b"\\q" * n + b'y"', b"q" * n + b"y"


def joined(eol, line=b"l"):
    def make(n):
        return b'"' + eol.join([line] * (n + 1)) + b'"', \
            eol.join([line] * (n + 1))
    return make


def joined_escaped(n):
    return b"\\\n".join([b"l"] * (n + 1)), b"\n".join([b"l"] * (n + 1))


WIDE_UNITS = [("n", em) for em in "bst"]


def wide_units():
    return [Unit(s, em, ["wide"], loops=["wide"]) for s, em in WIDE_UNITS]


def wide_docs(c, n, use=True):
    """rows of many types, one or no value in them bad, by name or not"""
    lists = names("wide")

    def make(rng, k):
        for j in range(k):
            s, em = rng.choice(WIDE_UNITS)
            x = rng.choice(lists)
            ts = LISTS[x].types
            m = len(ts)
            named = use and m in (12, 36) and rng.random() < 0.6
            cols = m + rng.choice([0, 0, 1, 5]) if named else m
            order = rng.sample(range(cols), m) if named else range(m)
            rows = []
            for _ in range(rng.randint(1, 5)):
                row = [b"x"] * cols
                for t, o in zip(ts, order):
                    row[o] = gen.text_for(rng, t, 0).replace(b",", b";") \
                        .replace(b"\n", b";").replace(b"\r", b";") \
                        .replace(b"\0", b";") or b"1"
                for _ in range(rng.choice([0, 1, 1, 2])):
                    row[order[rng.randrange(m)]] = b"zz"
                if rng.random() < 0.1:
                    row = row[:-1] if rng.random() < 0.5 else row + [b"1"]
                rows.append(b",".join(row))
            fs = [b"f%d" % o for o in range(cols)]
            data = b"\n".join([b",".join(fs)] * named + rows)
            sc = Scenario(f"w{j}", f"{s}/{em}")
            i = sc.new(s, em, data, rng.choice(["buffer", "file"]))
            if named:
                sc.use(i, [fs[o] for o in order])
            for _ in rows:
                sc.get(i, x if rng.random() < 0.9 else rng.choice(lists))
            sc.get(i, x)
            yield sc
    c.explore("many types", wide_units(), make, n)


def big_columns(c, setup, em, delim=b","):
    """rows of many columns, cut and named"""
    for k, n in enumerate((255, 256, 257, 300, c.n(600, 3000))):
        names = [b"c%d" % j for j in range(n)]
        vals = [b"%d" % (j * 7) for j in range(n)]
        sc = Scenario(f"C{k}", f"{setup}/{em}")
        i = sc.conv_new(setup, em)
        sc.split(i, delim.join(vals), delim, vals)
        sc.conv(i, "S2", delim.join(vals), delim)
        yield sc
        sc = Scenario(f"M{k}", f"{setup}/{em}")
        i = sc.new(setup, em, delim.join(names) + b"\n" +
                   (delim.join(vals) + b"\n") * 4 +
                   delim.join(vals[:-1]) + b"\n", "buffer", delim)
        sc.fexists(i, names[-1])
        for fs in ([n - 1], [0, n - 1], [255, 254] if n > 255 else [1],
                   [n - 2, 1, n - 1], [n - 1]):
            sc.use(i, [names[f] for f in fs])
            sc.get(i, f"S{len(fs)}")
        sc.get(i, "S1")
        yield sc


# --------------------------------------------------------------------------
# P01 line framing

BAR = b"|"       # a delimiter that does not occur: fields are whole lines


def line_docs(prefix, setup, em, docs, src, delim=BAR):
    for k, d in enumerate(docs):
        sc = Scenario(f"{prefix}{k}", f"{setup}/{em}")
        i = sc.new(setup, em, d, src, delim)
        for _ in range(lines_of(d) + 1):
            sc.chain(i, "probe")
        yield sc


def long_line_docs(rng, n, prefix, caps, delim=BAR, top=1100, alphabet=b"ab,\r",
                   resources=False):
    for k in range(n):
        cap = rng.choice(caps)
        eols = rng.choice([[b"\n"], [b"\r\n"], [b"\n", b"\r\n"]])
        d, rows = b"", rng.choice([1, 2, 3, 5, 9])
        for r in range(rows):
            m = gen.edge_length(rng, top)
            eol = rng.choice(eols)
            m = max(0, m - rng.choice([0, 0, len(eol)]))
            text = bytes(rng.choice(alphabet) for _ in range(m))
            if rng.random() < 0.1:
                text = b""
            d += text
            if r < rows - 1 or rng.random() < 0.6:
                d += eol
        sc, i = start(rng, f"{prefix}{k}", cap, d, delim)
        for _ in range(rows + 2):
            gen.call(rng, sc, i, cap, {"get": 20, "move": 0.4})
        yield sc


@prop("P01")
def p01(c):
    c.model("MCRows", {"Alphabet": "{97, 10, 13}", "MaxLen": c.n(6, 9)},
            ["Framing", "Blank"], properties=["Ends"])
    c.model("MCGetline", {"Alphabet": "{97, 10}", "MaxLen": c.n(8, 11),
                          "Chunk": 3}, ["Refines", "Fits"],
            properties=["Ends"])
    c.model("MCReader", {"Alphabet": "{97, 10, 13}", "MaxLen": c.n(5, 7),
                         "MCSetup": "<- SetupPlain", "Delim": "<- Comma"},
            ["Refines", "CursorTrue", "Fits"], properties=["Ends"])
    m = c.n(6, 7)
    for setup in ("n", "ie"):
        c.conform(f"every document, {setup}", [probe_unit(setup)], chained(
            line_docs("b", setup, "b", words(chars4(b"a,\n\r"), 0, m),
                      "buffer"),
            line_docs("f", setup, "b", words(chars4(b"a\n\r"), 0, m), "file")))
    c.conform("every document, first line ignored",
              [probe_unit(s, "s") for s in ("ih", "ieih")], dedup(chained(*[
                  line_docs(f"{s}{src}", s, "s",
                            words(chars4(b"a\n\r"), 0, c.n(5, 6)), src)
                  for s in ("ih", "ieih") for src in ("buffer", "file")])))
    caps = [Cap(s, em, ["S1"], ["S1"]) for s in ("n", "ie", "ih", "ieih")
            for em in "bst"]
    units = [Unit(x.setup, x.em, ["str"], loops=["str"]) for x in caps]
    c.explore("lines of many lengths", units,
              lambda rng, n: long_line_docs(rng, n, "l", caps, top=4200),
              c.n(500))


    # what is delivered of lines with NUL is open, that they are lines is not
    def nul_lines():
        for k, d in enumerate(words([b"\x00", b"a", b"\n", b"\r"], 0,
                                    c.n(5, 7))):
            x = caps[k % len(caps)]
            sc = Scenario(f"z{k}", f"{x.setup}/{x.em}")
            i = sc.new(x.setup, x.em, d, ("buffer", "file")[k // 2 % 2])
            for j in range(lines_of(d) + 1):
                if (j + k) % 4 == 0:
                    sc.ignore(i)
                else:
                    sc.take(i, "S1")
            yield sc
    c.conform("lines with NUL", units, dedup(nul_lines()))

    def any_bytes(rng, n):
        for k in range(n):
            x = rng.choice(caps)
            d = b"".join(bytes(rng.choice([b for b in range(1, 256)
                                           if b not in b"\n|"])
                               for _ in range(rng.choice([0, 1, 2, 9, 60]))) +
                         rng.choice([b"\n", b"\r\n"])
                         for _ in range(rng.randint(1, 6)))
            sc, i = start(rng, f"y{k}", x, d, BAR)
            for _ in range(lines_of(d) + 1):
                sc.get(i, "S1")
            yield sc
    c.explore("lines of any bytes", units, any_bytes, c.n(400))

    # every byte in every place, and beginnings which programs know
    def every_byte():
        marks = [bytes([b]) for b in range(1, 256) if b not in b"\n|"] + [
            b"\xef\xbb\xbf", b"\xff\xfe", b"\xfe\xff", b"#!", b"//", b"--",
            b"sep=,", b"\xc2\x85", b"\xe2\x80\xa8", b"\n\r", b"\r\r"]
        for k, m in enumerate(marks):
            for j, ls in enumerate(([m, m + b"x", b"x" + m],
                                    [m + b"x", m + m, b"x" + m + b"x", m])):
                x = caps[(k + 5 * j) % len(caps)]
                d = b"\n".join(ls) + (b"\r\n" if (k + j) % 2 else b"")
                sc = Scenario(f"m{k}_{j}", f"{x.setup}/{x.em}")
                i = sc.new(x.setup, x.em, d, ("buffer", "file")[(k + j) % 2],
                           BAR)
                for _ in range(lines_of(d) + 1):
                    sc.get(i, "S1")
                yield sc
    c.conform("every byte in every place", units, dedup(every_byte()))
    some = [x for x in caps if (x.setup, x.em) in (("n", "b"), ("ie", "s"))]
    c.conform("long lines, and many", units, dedup(chained(
        *[big_lines(c, x, src) for x, src in zip(some, ("buffer", "file"))],
        *[big_counts(x, "buffer") for x in (some[1:] if c.quick else some)])))

    def many(rng, n):
        for k in range(n):
            cap = rng.choice(caps)
            d = Doc(rng, cap.setup, BAR).doc(
                rng.choice([40, 100, 300]), cols=(1, 1), p_bad=0,
                p_blank=rng.choice([0, 0.2, 0.6]))
            sc, i = start(rng, f"m{k}", cap, d, BAR)
            if cap.em == "t":
                for _ in range(min(lines_of(d), 310)):
                    sc.get(i, "S1")
            else:
                sc.loop(i, "S1", 1000)
            sc.get(i, "S1")
            yield sc
    c.explore("many lines", units, many, c.n(30))


def chars4(s):
    return gen.chars(s)


# --------------------------------------------------------------------------
# P02 delimiter and spacing

def random_rows(rng, n, setup, delim, lo=4, hi=40):
    doc = Doc(rng, setup, delim)
    for _ in range(n):
        yield doc.wild(rng.randint(lo, hi)) if rng.random() < 0.6 else \
            doc.line(rng.randint(1, 30), 0.02)


def parser_docs(prefix, caps, delims=(b",",), calls=None, weights=None,
                maker=None, **kw):
    """random documents read with random calls"""
    def make(rng, n):
        for k in range(n):
            cap = rng.choice(caps)
            delim = rng.choice(delims)
            d = Doc(rng, cap.setup, delim)
            rows = rng.randint(0, 6)
            data = maker(rng, d) if maker else d.doc(rows, **kw)
            sc, i = start(rng, f"{prefix}{k}", cap, data, delim)
            for _ in range((calls or lines_of(data)) + rng.randint(0, 3)):
                gen.call(rng, sc, i, cap, weights)
            yield sc
    return make


READS = {"get": 4, "probe": 10, "loop": 2, "chain": 2, "ignore": 0.2,
         "raw": 0.1, "hdr": 0.1, "fexists": 0.1, "use": 0.1, "query": 0.1,
         "move": 0.2}


def byte_rows(delim=b","):
    """every byte in every place of a field; the rows are short"""
    for b in [bytes([b]) for b in range(1, 256) if b != 10] + [
            b"\xef\xbb\xbf", b"\xc3\xa9", b"\xc2\xa0", b"\xff\xfe"]:
        for fs in ([b], [b, b + b"x"], [b"x" + b, b, b"x"],
                   [b"x", b"x" + b + b"x", b + b],
                   [b" " + b, b + b" "], [b'"' + b + b'"', b'"x' + b + b'"'],
                   [b"\\" + b, b"x\\" + b]):
            yield delim.join(fs)


@prop("P02")
def p02(c):
    c.model("MCSplit", {"Alphabet": "{97, 44, 32}", "MaxLen": c.n(7, 9),
                        "MCSetup": "<- SetupTrim", "Delim": "<- Comma"},
            ["Delimited"])
    for side in ("SetupTrimL", "SetupTrimR"):
        c.model("MCSplit", {"Alphabet": "{97, 44, 32, 95}",
                            "MaxLen": c.n(5, 7), "MCSetup": "<- " + side,
                            "Delim": "<- Comma"}, ["Delimited"])
    c.model("MCSplit", {"Alphabet": "{97, 58, 59}", "MaxLen": c.n(7, 9),
                        "MCSetup": "<- SetupPlain", "Delim": "<- Colons"},
            ["Delimited", "Verbatim"])
    c.model("MCSplit", {"Alphabet": "{97, 98, 120}", "MaxLen": c.n(8, 10),
                        "MCSetup": "<- SetupPlain", "Delim": "<- Aab"},
            ["Delimited", "Verbatim"])
    m = c.n(7, 9)
    cases = [("n", b",", b"a, ", m), ("n", b"::", b"a:;", m),
             ("n", b"aab", b"abx", m + 1), ("n", b"abab", b"ab,", m),
             ("n", b", ", b"a, ", m), ("n", b"\t", b"a\t ", m - 1),
             ("t", b",", b"a, ", m), ("t", b"::", b": a", m),
             ("t", b"ab", b"ab ", m), ("tl", b",", b"a,_ ", m - 2),
             ("tr", b",", b"a,_ ", m - 2), ("tl", b"::", b":_a", m - 1),
             ("tr", b"::", b":_a", m - 1), ("n", b"\xfe", b"a\xfe\xff", m - 1),
             ("n", b"x\x80", b"x\x80a", m - 1),
             ("q", b"::", b"a:", m + 1), ("qet", b"ab", b"ab ", m)]
    for k, (s, d, ab, n) in enumerate(cases):
        pass
    setups = sorted({x[0] for x in cases})
    c.conform("every row", [split_unit(s) for s in setups], dedup(chained(*[
        split_scenarios(f"x{k}_", s, "b", words(gen.chars(ab), 0, n), d)
        for k, (s, d, ab, n) in enumerate(cases)])))
    c.conform("every byte", [split_unit(s) for s in setups], dedup(chained(*[
        split_scenarios(f"e{k}_", s, "b", byte_rows(d), d)
        for k, (s, d) in enumerate([("n", b","), ("n", b"::"), ("t", b","),
                                    ("tl", b";"), ("tr", b"ab")])])))
    c.conform("many columns", [Unit("n", "b", ["str"], converter=True)],
              big_columns(c, "n", "b", b"::"))
    delims = [b",", b";", b"::", b"ab", b"aab", b":;:", b"xyzxy", b"\xff",
              b"\xc3\xa9", b"=-" * 9, b"abcde" * 8, b"ab" * 65 + b"c",
              b"xyz" * 90]

    def rows(rng, n):
        for k in range(n):
            s = rng.choice(setups)
            yield from split_scenarios(
                f"r{k}_", s, "b", random_rows(rng, 20, s, d := rng.choice(
                    delims)), d)
    c.explore("random rows", [split_unit(s) for s in setups], rows, c.n(300))
    caps = [Cap(s, em, STR, STR, probe=True)
            for s in ("n", "t", "tl", "tr") for em in "bst"]
    c.explore("documents",
              [Unit(x.setup, x.em, ["str"], loops=["str"], chains=["probe"])
               for x in caps],
              parser_docs("d", caps, delims, weights=READS, cols=(1, 7)),
              c.n(1500))


# --------------------------------------------------------------------------
# P03 quoting, escaping, trimming

SPLIT_SETUPS = [("q", b'a,"x'), ("e", b"a,\\"), ("qe", b'a,"\\'),
                ("t", b"a, "), ("qt", b'a," '), ("et", b"a,\\ "),
                ("qet", b'a,"\\ '), ("qetl", b'a,"\\ '), ("qetr", b'a,"\\ '),
                ("qelr", b'a,"\\_ '), ("qe2t2", b"a,'\\^ "),
                ("qx", b"a,\xe9\xff\xa0")]


@prop("P03")
def p03(c):
    c.model("MCSplit", {"Alphabet": "{97, 44, 34, 92, 32}",
                        "MaxLen": c.n(5, 7), "MCSetup": "<- SetupFull",
                        "Delim": "<- Comma"}, ["Bounded", "Prefix", "Open", "Offence"])
    c.model("MCSplitter", {"Alphabet": "{97, 44, 34, 92, 32}",
                           "MaxLen": c.n(5, 6), "MCSetup": "<- SetupFull",
                           "Delim": "<- Comma"}, ["Refines", "Inside"],
            properties=["Settled", "Terminates"])
    big = {2: c.n(9, 11), 3: c.n(8, 9), 4: c.n(6, 7), 5: c.n(5, 6),
           6: c.n(4, 6)}
    c.conform("every row",
              [split_unit(s) for s, _ in SPLIT_SETUPS], dedup(chained(*[
                  split_scenarios(f"{s}_", s, "b",
                                  words(gen.chars(ab), 0,
                                        6 if s == "qet" and c.quick
                                        else big[len(ab)]))
                  for s, ab in SPLIT_SETUPS])))
    c.conform("every byte", [split_unit(s) for s, _ in SPLIT_SETUPS],
              dedup(chained(*[
                  split_scenarios(f"b{s}_", s, "b", byte_rows())
                  for s, _ in SPLIT_SETUPS])))
    c.conform("long fields", [Unit("q", "b", ["str"]),
                              Unit("qe", "b", ["str"])], chained(
        big_fields(c, "d", "q", "b", doubled, c.n((254, 256, 1000), None)),
        big_fields(c, "e", "qe", "b", escaped_quoted)))
    # the same through parser, with what is reported
    m = c.n(4, 5)
    some = [("qet", b'a,"\\ '), ("qe", b'a,"\\'), ("qt", b'a," ')]
    c.conform("every line", [probe_unit(s, "s") for s, _ in some],
              dedup(chained(*[
                  docs_scenarios(f"{s}_", s, "s", words(gen.chars(ab), 1, m))
                  for s, ab in some])))
    delims = [b",", b";", b"::", b"xy", b"aab"]

    def rows(rng, n):
        for k in range(n):
            s = rng.choice(SPLIT_SETUPS)[0]
            d = rng.choice(delims)
            yield from split_scenarios(f"r{k}_", s, "b",
                                       random_rows(rng, 20, s, d), d)
    c.explore("random rows", [split_unit(s) for s, _ in SPLIT_SETUPS], rows,
              c.n(400))
    caps = [Cap(s, em, STR, STR, probe=True)
            for s in ("q", "qe", "qet", "qelr", "qe2t2", "qx") for em in "bst"]
    c.explore("documents",
              [Unit(x.setup, x.em, ["str"], loops=["str"], chains=["probe"])
               for x in caps],
              parser_docs("d", caps, delims, weights=READS, cols=(1, 7)),
              c.n(1500))


# --------------------------------------------------------------------------
# P04 what is written is read


def tla_set(bs):
    return "{" + ", ".join(str(x) for x in bs) + "}"


def sample(rng, xs, n):
    return xs if len(xs) <= n else rng.sample(xs, n)


def longest(docs):
    """of documents generated step by step the last one of each series"""
    for a, b in zip(docs, docs[1:] + [None]):
        if b is None or b["text"][:len(a["text"])] != a["text"]:
            yield a


def write_field(rng, doc, v, way):
    """as Encode.tla does"""
    out, esc, k = b"", (lambda: bytes([rng.choice(doc.e)])), 0
    qc = bytes([rng.choice(doc.q)]) if doc.q else b""
    while k < len(v):
        c = v[k:k + 2] if v[k:k + 2] == b"\r\n" else v[k:k + 1]
        k += len(c)
        if way == "quote":
            if c[0] in doc.q:
                out += (esc() if doc.e and rng.random() < 0.5 else c) + c
            elif c[0] in doc.e or (doc.e and rng.random() < 0.05):
                out += esc() + c
            else:
                out += c
        else:
            out += (esc() if c[0] in doc.special() + b"\r\n" or
                    rng.random() < 0.1 else b"") + c
    left, right = b"", b""
    if doc.tl and rng.random() < 0.3:
        left = bytes(rng.choice(doc.tl) for _ in range(rng.randint(1, 3)))
    if doc.tr and rng.random() < 0.3:
        right = bytes(rng.choice(doc.tr) for _ in range(rng.randint(1, 3)))
    return left + (qc + out + qc if way == "quote" else out) + right


def written(prefix, setup, em, docs, delim, src):
    """documents that are read back: every row is known"""
    for k, d in enumerate(docs):
        text, rows = bytes(d["text"]), d["rows"]
        if any(len(r) > 7 for r in rows):
            continue
        sc = Scenario(f"{prefix}{k}", f"{setup}/{em}")
        i = sc.new(setup, em, text, src, delim)
        for r in rows:
            sc.get(i, f"S{len(r)}", [bytes(f) for f in r])
        sc.get(i, "S1")
        yield sc


def written_rows(prefix, setup, em, docs, delim, per=60):
    sc, n = None, 0
    for k, d in enumerate(docs):
        if len(d["rows"]) != 1 or d["text"][-1:] == [10]:
            continue
        if n % per == 0:
            if sc:
                yield sc
            sc = Scenario(f"{prefix}{k}", f"{setup}/{em}")
            i = sc.conv_new(setup, em)
        n += 1
        fs = [bytes(f) for f in d["rows"][0]]
        sc.split(i, bytes(d["text"]), delim, fs)
        if len(fs) <= 7:
            sc.conv(i, f"S{len(fs)}", bytes(d["text"]), delim, fs)
    if sc:
        yield sc


CODEC = ["q", "e", "qe", "qet", "et", "qelr", "qe2t2", "qm", "em", "qem",
         "qetm", "qe2m", "qx", "qxm"]
WRITTEN = [("q", b",", b'a,"'), ("e", b",", b"a,\\"), ("qe", b",", b'a,"\\'),
           ("qet", b",", b'a,"\\ '), ("qt", b"::", b'a:" '),
           ("et", b",", b"a,\\ "), ("qetl", b",", b'a" '),
           ("qetr", b",", b'\\" '), ("qelr", b",", b'"_ '),
           ("qe2t2", b";", b"'^ "), ("qe", b"aab", b'ab"'),
           ("e", b"aba", b"ab\\")]
WRITTEN_ML = [("qm", b",", b'a"\n\r'), ("em", b",", b"a\\\n\r"),
              ("qem", b",", b'"\\\n\r'), ("qetm", b",", b'" \n'),
              ("qem1", b",", b'a"\\\n'), ("qem2", b",", b'"\\\n'),
              ("em3", b",", b"a\\\n")]


@prop("P04")
def p04(c):
    dname = {d: n for n, d in DELIMS.items()}

    def gen_docs(cases, size):
        def one(k):
            s, d, ab = cases[k]
            const = {"Alphabet": tla_set(ab), "SetupName": f'"{s}"',
                     "DelimName": f'"{dname[d]}"'}
            docs = c.generate("MCEncode", {**const, "MaxText": size(ab)},
                              ("RoundTrip", "Show"), workers=1)
            docs.sort(key=lambda x: (x["text"], x["rows"]))
            long = list(longest(c.generate(
                "MCEncode", {**const, "MaxText": 60}, ("RoundTrip", "Show"),
                simulate=(c.n(40, 1000), 60))))
            docs = sample(c.rng(f"{s}{k}"), docs, c.n(1200, 30000))
            return k, s, d, docs, long
        with concurrent.futures.ThreadPoolExecutor(6) as ex:
            yield from ex.map(one, range(len(cases)))
    for name, cases, srcs in (("rows and documents", WRITTEN, "b"),
                              ("fields of several lines", WRITTEN_ML, "bf")):
        size = (lambda ab: c.n(6, 8) if len(ab) < 4 else c.n(5, 7))
        scs = []
        for k, s, d, docs, long in gen_docs(cases, size):
            for em in ("b",):
                scs.append(written(f"d{k}_", s, em, docs, d, "buffer"))
                scs.append(written(f"l{k}_", s, em, long, d, "file"))
                if SETUPS[s].ml is None:
                    scs.append(written_rows(f"r{k}_", s, em, docs, d))
            if "f" in srcs:
                scs.append(written(f"f{k}_", s, "s", docs[::5], d, "file"))
        setups = dict.fromkeys(x[0] for x in cases)
        c.conform(name, [Unit(s, em, ["str"], converter=True) for s in setups
                         for em in ("bs" if "f" in srcs else "b")],
                  dedup(chained(*scs)))

    c.conform("long fields", [Unit("q", "b", ["str"]),
                              Unit("e", "b", ["str"])], chained(
        big_fields(c, "d", "q", "b", doubled),
        big_fields(c, "e", "e", "b", escaped)))
    every = modes(c, CODEC)

    def random_docs(rng, n):
        for k in range(n):
            s, em = rng.choice(every)
            doc = Doc(rng, s, rng.choice([b",", b";", b"::", b"xy"]))
            eol = rng.choice([b"\n", b"\r\n"])
            text, rows = b"", []
            m = rng.randint(1, 6)
            for j in range(m):
                ways = (["quote"] if doc.q else []) + \
                    (["escape"] if doc.e else [])
                fs = []
                for _ in range(rng.randint(1, 7)):
                    v = doc.value(eol if doc.ml else None)
                    if rng.random() < 0.15:
                        v = v * rng.randint(2, 40)
                    if rng.random() < 0.1:
                        v += bytes(rng.randrange(1, 256) for _ in range(9)) \
                            .replace(b"\n", b"").replace(b"\r", b"")
                    fs.append(v)
                es = [write_field(rng, doc, v, rng.choice(ways)) for v in fs]
                if es == [b""]:
                    continue
                rows.append(fs)
                text += doc.D.join(es) + eol
            sc = Scenario(f"w{k}", f"{s}/{em}")
            i = sc.new(s, em, text, rng.choice(["buffer", "file"]), doc.D)
            for fs in rows:
                sc.get(i, f"S{len(fs)}", fs)
            sc.get(i, "S1")
            yield sc
    c.explore("random values", [Unit(s, em, ["str"]) for s, em in every],
              random_docs, c.n(1500))


# --------------------------------------------------------------------------
# P05, P06 multiline

def all_docs(c, family, cases, em="b", srcs=("buffer",)):
    """cases: (setup, alphabet, longest)"""
    c.conform(family, [probe_unit(s, em) for s in
                       dict.fromkeys(x[0] for x in cases)],
              dedup(chained(*[
                  docs_scenarios(f"{s}{k}{src[0]}_", s, em,
                                 words(gen.chars(ab), 0, n), src=src)
                  for k, (s, ab, n) in enumerate(cases) for src in srcs])))


def ml_doc(rng, doc, joins=(0, 4), long=False):
    """rows continued over several lines, in quotes and by escapes"""
    eols = rng.choice([[b"\n"], [b"\r\n"], [b"\n", b"\r\n"]])
    out = b""
    rows = rng.randint(1, 5)

    def piece():
        if long and rng.random() < 0.5:
            return bytes(rng.choice(b"abc")
                         for _ in range(gen.edge_length(rng, 300)))
        return rng.choice([b"", b"a", b"xy", b"foo", b"1"])
    for r in range(rows):
        fs = []
        left = rng.randint(*joins)
        for _ in range(rng.randint(1, 3)):
            f = piece()
            mode = rng.choice("qe" if doc.q and doc.e
                              else "q" if doc.q else "e")
            n = rng.randint(0, left)
            left -= n
            for _ in range(n):
                eol = rng.choice(eols)
                if mode == "e" or (doc.e and rng.random() < 0.3):
                    f += doc.e[:1] * rng.choice([1, 1, 1, 3])
                f += eol + piece()
                if rng.random() < 0.15 and doc.q:
                    f += doc.q[:1] * 2
                if rng.random() < 0.15 and doc.e:
                    f += doc.e[:1] + rng.choice([b"a", doc.e[:1], b'"'])
            if mode == "q":
                f = doc.q[:1] + f
                if rng.random() < 0.95:
                    f += doc.q[:1]
                if rng.random() < 0.05:
                    f += b"x"
            fs.append(f)
        out += doc.D.join(fs)
        if r < rows - 1 or rng.random() < 0.6:
            out += rng.choice(eols)
        while rng.random() < 0.1:
            out += rng.choice(eols)
    return out


def ml_family(c, setups, joins, quick, delims=(b",", b"::", b"aab")):
    caps = [Cap(s, em, STR, STR, probe=True) for s, em in modes(c, setups)]
    units = [Unit(x.setup, x.em, ["str"], loops=["str"], chains=["probe"])
             for x in caps]
    for long in (False, True):
        c.explore("rows of several lines" + (", long" if long else ""), units,
                  parser_docs("L" if long else "m", caps, delims,
                              weights=READS,
                              maker=lambda rng, d: ml_doc(rng, d, joins, long)),
                  quick // 3 if long else quick)
    c.explore("documents", units,
              parser_docs("d", caps, delims, weights=READS, cols=(1, 6)),
              quick // 2)


@prop("P05")
def p05(c):
    c.model("MCReader", {"Alphabet": "{97, 34, 92, 10}", "MaxLen": c.n(6, 8),
                         "MCSetup": "<- SetupMulti", "Delim": "<- Comma"},
            ["Refines", "Whole", "Original", "CursorTrue", "Fits"],
            properties=["Ends"])
    c.model("MCReader", {"Alphabet": "{34, 92, 10, 13}", "MaxLen": c.n(5, 7),
                         "MCSetup": "<- SetupMulti", "Delim": "<- Comma"},
            ["Refines", "Whole", "Original"])
    all_docs(c, "every document",
             [("qm", b'a,"\n', c.n(6, 7)), ("em", b"a,\\\n", c.n(6, 7)),
              ("qem", b'a"\\\n', c.n(6, 8)), ("qem", b'a,"\\\n', c.n(5, 6)),
              ("qetm", b'a"\\ \n', c.n(5, 6)), ("qem", b'"\\\r\n', c.n(6, 7)),
              ("qemie", b'a"\\\n', c.n(5, 6))])
    all_docs(c, "every document, from a file, with reports",
             [("qem", b'a"\\\n', c.n(5, 6)), ("qm", b'"\r\na', c.n(5, 6))],
             em="s", srcs=("file",))
    some = c.n((254, 256, 300), (254, 255, 256, 257, 300, 1000))
    c.conform("rows of many lines", [Unit("qem", "b", ["str"])], chained(
        big_fields(c, "j", "qem", "b", joined(b"\r\n"), some),
        big_fields(c, "e", "qem", "b", joined_escaped, some),
        big_fields(c, "l", "qem", "b", joined(b"\n", b"l" * 230), (300,))))
    ml_family(c, ["qm", "em", "qem", "qetm", "qe2m", "qetmie", "qxm"], (0, 6),
              c.n(1500))


@prop("P06")
def p06(c):
    for k, name in ((1, "SetupMulti1"), (2, "SetupMulti2")):
        c.model("MCReader", {"Alphabet": "{97, 34, 92, 10}",
                             "MaxLen": c.n(6, 8), "MCSetup": f"<- {name}",
                             "Delim": "<- Comma"},
                ["Refines", "Limited", "Whole"], properties=["Ends"])
    all_docs(c, "every document",
             [("qm1", b'a"\n', c.n(7, 8)), ("qem1", b'a"\\\n', c.n(6, 7)),
              ("qem2", b'a"\\\n', c.n(6, 7)), ("em3", b"a\\\n", c.n(8, 9)),
              ("qm3", b'a"\n', c.n(6, 8)), ("qem2ie", b'"\\\n', c.n(7, 8))])
    all_docs(c, "every document, from a file, with reports",
             [("qem1", b'"\\\n', c.n(7, 8)), ("qem2", b'"\\\n', c.n(7, 8))],
             em="s", srcs=("file",))

    def far(em):
        for k, n in enumerate((255, 256, 257, 259, 260, 261, 262, 521)):
            for j, row in enumerate((joined(b"\n")(n)[0],
                                     joined_escaped(n)[0])):
                sc = Scenario(f"F{em}{k}_{j}", f"qem260/{em}")
                i = sc.new("qem260", em, row + b"\na\n" + row + b"\n",
                           ("buffer", "file")[j])
                for _ in range(4):
                    sc.get(i, "S1")
                yield sc
    c.conform("a far limit", [Unit("qem260", em, ["str"]) for em in "bst"],
              chained(*[far(em) for em in c.n("s", "bst")]))
    ml_family(c, ["qm1", "qem1", "qem2", "qm3", "em3", "qetm3", "qem5",
                  "qem2ie"], (0, 9), c.n(1800))


# --------------------------------------------------------------------------
# P07, P08, P09: whole documents, all calls

ALL = {"get": 10, "loop": 1.5, "chain": 3, "probe": 2, "ignore": 1.5,
       "raw": 0.7, "hdr": 0.7, "fexists": 0.7, "use": 1.5, "query": 0.5,
       "move": 0.7}

MIX = names("mix")


def typed_caps(setups, ems="bst", gets=None, loops=True, chains=True):
    gets = gets or MIX + ["S1", "S2", "S3"]
    return [Cap(s, em, gets, gets if loops else [],
                [n for n, (g, _) in CHAINS.items() if g == "chain"]
                if chains else []) for s in setups for em in ems]


def typed_units(caps, groups=("str", "mix"), loops=("str", "mix"),
                chains=("chain",)):
    return [Unit(x.setup, x.em, groups, loops=loops if x.loops else (),
                 chains=chains if x.chains else ()) for x in caps]


def header_line(rng, doc, fields=(b"a", b"b", b"c")):
    n = rng.randint(1, len(fields))
    fs = list(fields)
    rng.shuffle(fs)
    fs = fs[:n]
    if rng.random() < 0.1:
        fs.append(rng.choice(fs))
    if rng.random() < 0.05:
        fs.append(b"")
    return doc.D.join(doc.encode(f) if rng.random() < 0.3 else f for f in fs)


def typed_docs(prefix, caps, delims=(b",",), weights=None, p_bad=0.15,
               p_cols=0.1, p_mal=0.1, rows=(0, 8), calls=None, src=None):
    def make(rng, n):
        for k in range(n):
            cap = rng.choice(caps)
            delim = rng.choice(delims)
            doc = Doc(rng, cap.setup, delim)
            lists = rng.sample(cap.gets, min(len(cap.gets),
                                             rng.randint(1, 2)))
            m = rng.randint(*rows)
            data = doc.typed_doc(
                lists, m, header_line(rng, doc) if rng.random() < 0.4
                else None, p_bad, p_cols,
                rng.choice([0, 0.05, 0.3]), p_mal)
            if doc.ml and rng.random() < 0.3:
                data += ml_doc(rng, doc)
            sc, i = start(rng, f"{prefix}{k}", cap, data, delim, src)
            # mostly asked for in the types it has
            mine = Cap(cap.setup, cap.em,
                       lists * 3 + [rng.choice(cap.gets)],
                       [x for x in lists if x in cap.loops], cap.chains,
                       cap.probe, cap.fields)
            for _ in range((calls or m) + rng.randint(1, 3)):
                gen.call(rng, sc, i, mine, weights)
            yield sc
    return make


@prop("P07")
def p07(c):
    c.model("MCParser", {"Alphabet": "{97, 44, 34, 10}", "MaxLen": c.n(4, 5),
                         "MCSetup": "<- SetupQ", "Mode": '"b"'},
            ["Isolated", "Cursor", "Truthful"], properties=["Forward"])
    c.model("MCParser", {"Alphabet": "{97, 34, 10}", "MaxLen": c.n(4, 6),
                         "MCSetup": "<- SetupQm1", "Mode": '"t"'},
            ["Isolated", "Cursor", "Truthful"], properties=["Forward"])
    caps = typed_caps(["n", "qe", "qet", "qem", "qem2", "qetmie"])
    c.explore("rows good and bad", typed_units(caps),
              typed_docs("a", caps, weights={**ALL, "use": 0.2}, p_bad=0.25,
                         p_cols=0.2, p_mal=0.25, rows=(3, 10)), c.n(3500))
    docs = [b'1,a\n"2"x,b\n3\n\n4,d\n"5,"e"\n6,f', b'"a\nb",1\n\n"c\nd\ne\nf,2\n3,g',
            b"1,a\r\n\\\r\nx,b\r\nzz,c\r\n4,d,e\r\n5,f\r\n",
            b'1,"a\n\n2,"b"\n']

    def reads(sc, objs, em):
        i, = objs
        sc.get(i, "is")
        sc.get(i, "si")
        sc.get(i, "S1")
        sc.loop(i, "is", 2, 1)
        sc.ignore(i)
        sc.move(i)
        if em != "t":
            sc.chain(i, "c_is_s2", 1, [False, True])
    c.tour("tour of rows good and bad", typed_units(caps), menu(
        [(x.setup, x.em, [d], b",") for x in caps for d in docs], reads),
        c.n(6, 8), limit=c.n(2500))
    scaps = [Cap(s, em, STR, STR, probe=True)
             for s in ("q", "qe", "qet", "qm1", "qem1", "qem2ie")
             for em in "bst"]
    c.explore("malformed rows",
              [Unit(x.setup, x.em, ["str"], loops=["str"], chains=["probe"])
               for x in scaps],
              parser_docs("m", scaps, [b",", b"::"], weights=READS,
                          cols=(1, 4), p_bad=0.3, p_wild=0.2), c.n(2500))


@prop("P08")
def p08(c):
    c.model("MCModes", {"Alphabet": "{97, 44, 34, 10}", "MaxLen": c.n(4, 5),
                        "MCSetup": "<- SetupQ", "Mode": '"b"'},
            ["Agree", "LoopsAgree"], spec="SpecM")
    setups = ["n", "qe", "qetm", "qem2", "qetmie", "ih"]
    caps = typed_caps(setups, chains=False)

    def make(rng, n):
        for k in range(n):
            s = rng.choice(setups)
            seed = rng.random()
            for cap in caps:
                if cap.setup != s:
                    continue
                import random
                r = random.Random(seed)
                g = typed_docs(f"k{k}{cap.em}", [cap],
                               weights={**ALL, "use": 0.7, "loop": 0.5},
                               p_bad=0.2, p_mal=0.15)(r, 1)
                yield from g
    docs = [b'a,b\n1,"x\ny"\n"2"x,b\n\n3\n', b"1,a\r\nzz,c\r\n\r\n4,d,e"]

    def calls(sc, objs, em):
        i, = objs
        sc.get(i, "is")
        sc.get(i, "S1")
        sc.loop(i, "is", 2, 0)
        sc.ignore(i)
        sc.query(i)
        if SETUPS[sc.tag[:-2]].ih:
            return
        sc.use(i, [b"b"])
        sc.use(i, [b"nope"])
        sc.hdr(i)
        sc.fexists(i, b"a")
    c.tour("tour in every mode", typed_units(caps), menu(
        [(x.setup, x.em, [d], b",") for x in caps for d in docs], calls),
        c.n(5, 7), limit=c.n(2500))
    c.explore("the same calls in every mode", typed_units(caps), make,
              c.n(1800))


EVERY = ["n", "q", "qet", "qem", "qem2", "ie", "ih", "ieih", "qetie", "qemie",
         "qem2ie", "qemih", "qemieih"]


@prop("P09")
def p09(c):
    c.model("MCParser", {"Alphabet": "{97, 44, 10, 13}", "MaxLen": c.n(4, 5),
                         "MCSetup": "<- SetupIgnoreEmpty", "Mode": '"b"'},
            ["Cursor", "EofTight"], properties=["Forward", "Ends"])
    c.model("MCParser", {"Alphabet": "{97, 34, 10}", "MaxLen": c.n(4, 6),
                         "MCSetup": "<- SetupMultiIgnoreEmpty", "Mode": '"b"'},
            ["Cursor", "EofTight"], properties=["Forward", "Ends"])
    c.model("MCReader", {"Alphabet": "{97, 34, 92, 10}", "MaxLen": c.n(5, 7),
                         "MCSetup": "<- SetupMultiIgnoreEmpty",
                         "Delim": "<- Comma"}, ["Refines", "CursorTrue"])
    m = c.n(5, 7)
    all_docs(c, "every document",
             [("qem", b'a"\\\n', m), ("qemie", b'a"\n', m + 1),
              ("ie", b"a\r\n", m + 1), ("qem2ie", b'"\\\n', m + 1)],
             srcs=("buffer", "file"))
    caps = [Cap(s, em, STR, STR, probe=True) for s in EVERY for em in "bst"]
    units = [Unit(x.setup, x.em, ["str"], loops=["str"], chains=["probe"])
             for x in caps]
    c.conform("many lines", [Unit("ie", "b", ["str"], loops=["str"])],
              big_counts(Cap("ie", "b"), "file"))
    docs = [b'\n\r\n\na\n\n\nb,"c\n\nd"\n\n', b'h\r\n\r\n"x\r\ny\r\nz",1\r\n\r\n2',
            b"a\\\n\\\n\\\nb\n\n", b'"a\n\n\n\n']

    def calls(sc, objs, em):
        i, = objs
        sc.get(i, "S1")
        sc.get(i, "S2")
        sc.loop(i, "S1", 1, 2)
        sc.loop(i, "S2", 3, 1)
        sc.loopwith(i, "S1", 3)
        sc.ignore(i)
        if em != "t":
            sc.chain(i, "probe")
        if not SETUPS[sc.tag[:-2]].ih:
            sc.use(i, [b"h"])
            sc.use(i, [b"a"])
            sc.fexists(i, b"a")
    c.tour("tour", units, menu(
        [(x.setup, x.em, [d], b",") for x in caps for d in docs], calls),
        c.n(6, 9), limit=c.n(4000))
    c.explore("all calls", units,
              parser_docs("d", caps, [b",", b"::"],
                          weights={**ALL, "ignore": 4, "query": 1},
                          p_blank=0.25, cols=(1, 3)), c.n(5000))


# --------------------------------------------------------------------------
# P10, P11 headers

HEADERS = ["n", "qet", "qe2t2", "ie", "qem", "qetmie", "qem2"]


def header_docs(prefix, caps, delims, weights, pool, first=None):
    def make(rng, n):
        for k in range(n):
            cap = rng.choice(caps)
            delim = rng.choice(delims)
            doc = Doc(rng, cap.setup, delim)
            fs = rng.sample(pool, rng.randint(1, min(5, len(pool))))
            r = rng.random()
            if r < 0.12:
                fs.insert(rng.randint(0, len(fs)), rng.choice(fs))
            elif r < 0.2:
                fs.insert(rng.randint(0, len(fs)), b"")
            hs = [doc.encode(f) for f in fs]
            if rng.random() < 0.06:
                hs[rng.randrange(len(hs))] = doc.bad_field()
            header = delim.join(hs)
            eol = rng.choice([b"\n", b"\r\n"])
            data = b""
            while rng.random() < 0.15:
                data += eol
            data += header + (eol if rng.random() < 0.95 else b"")
            if data.endswith(eol):
                for _ in range(rng.randint(0, 5)):
                    while rng.random() < 0.1:
                        data += eol
                    m = len(fs) if rng.random() < 0.85 else rng.randint(1, 6)
                    if rng.random() < 0.9:
                        data += delim.join(
                            doc.encode(gen.bts(rng.choice(
                                ["1", "2", "-7", "x", "yy", "c", "1.5", "true",
                                 "", "foo"]))) for _ in range(m))
                    else:
                        data += doc.line(m, 0.5, eol)
                    data += eol if rng.random() < 0.97 else b""
            sc, i = start(rng, f"{prefix}{k}", cap, data, delim)
            mine = Cap(cap.setup, cap.em, cap.gets, cap.loops, cap.chains,
                       cap.probe, fs * 3 + [rng.choice(pool)])
            if first:
                first(rng, sc, i, mine, fs)
            for _ in range(rng.randint(2, 9)):
                gen.call(rng, sc, i, mine, weights)
            yield sc
    return make


POOL = [b"a", b"b", b"id", b"name", b"x y", b'q"q', b"e\\e", b"n,m", b"::",
        b"A", b" ", b"aa", b"\xe4", b"1", b"7"]


@prop("P10")
def p10(c):
    c.model("MCParser", {"Alphabet": "{97, 98, 44, 10}", "MaxLen": c.n(4, 5),
                         "MCSetup": "<- SetupPlain", "Mode": '"b"'},
            ["Mapped", "Delivered", "Cursor"],
            properties=["Forward", "UsePasses", "MappingStays"])
    gets = ["S1", "S2", "S3", "t_i32", "is", "si", "isc", "obj_is", "tup_is",
            "ivs", "vi", "svvc", "vsv", "vvs", "vivsv", "vsss", "svsi", "S4",
            "S5"]
    caps = [Cap(s, em, gets, ["S1", "S2"], ["c_is_s2", "c_obj"])
            for s in HEADERS for em in "bst"]
    units = [Unit(x.setup, x.em, ["str", "mix", "shape", "conv"],
                  loops=["str"], chains=["chain"] if x.chains else [])
             for x in caps]

    docs = [b"b,a\n1,2\n\n3,4\nx,y,z\n5,6\n7", b"a\n1\n2\n3\n",
            b"a,b,c\r\n1,2,3\r\n4,5\r\n6,7,8", b'"a",b,a\n1,2,3\n',
            b"d,c,b,a\n1,2,3,4\n5,6,7,8\n"]

    def calls(sc, objs, em):
        i, = objs
        for fs in ([b"a"], [b"a", b"b"], [b"b"], [b"a", b"a"], [b"z", b"a"],
                   [], [b"a", b"b", b"c"], [b"a", b"b", b"c", b"d"],
                   [b"b", b"d", b"a"]):
            sc.use(i, fs)
        sc.get(i, "S1")
        sc.get(i, "S2")
        sc.get(i, "vsv")
        sc.get(i, "vsss")
        sc.get(i, "svsi")
        sc.get(i, "t_i32")
        sc.ignore(i)
        sc.fexists(i, b"b")
        sc.move(i)
    c.tour("tour of mappings", units, menu(
        [(x.setup, x.em, [d], b",") for x in caps for d in docs], calls),
        c.n(4, 7), limit=c.n(3500))

    def use(rng, sc, i, cap, fs):
        while rng.random() < 0.25:
            gen.call(rng, sc, i, cap, {"use": 0})
        k = rng.randint(1, min(4, len(fs)))
        sc.use(i, rng.sample(fs, k))
        for _ in range(rng.randint(0, 3)):
            if rng.random() < 0.8:
                sc.get(i, rng.choice(
                    [n for n in cap.gets if len(LISTS[n].types) == k] or
                    cap.gets))
    c.conform("many columns", [Unit("n", "b", ["str"], converter=True)],
              big_columns(c, "n", "b"))
    wide_docs(c, c.n(300))
    c.explore("columns by name", units,
              header_docs("h", caps, [b",", b";", b"::"],
                          {**ALL, "use": 4, "get": 8, "loop": 1}, POOL, use),
              c.n(3500))


@prop("P11")
def p11(c):
    c.model("MCParser", {"Alphabet": "{97, 98, 44, 10}", "MaxLen": c.n(4, 5),
                         "MCSetup": "<- SetupPlain", "Mode": '"s"'},
            ["HeaderTrue"], properties=["QueriesChangeNothing"])
    c.model("MCParser", {"Alphabet": "{97, 34, 44, 10}", "MaxLen": c.n(3, 5),
                         "MCSetup": "<- SetupMulti", "Mode": '"b"'},
            ["HeaderTrue"], properties=["QueriesChangeNothing"])
    caps = [Cap(s, em, ["S1", "S2", "S3"], ["S1"]) for s in HEADERS
            for em in "bst"]
    units = [Unit(x.setup, x.em, ["str"], loops=["str"]) for x in caps]
    w = {**ALL, "raw": 4, "hdr": 5, "fexists": 8, "use": 4, "get": 4,
         "loop": 0.3}
    c.explore("header calls", units,
              header_docs("h", caps, [b",", b";", b"::", b"aab"], w, POOL),
              c.n(3500))
    def calls(sc, objs, em):
        i, = objs
        sc.hdr(i)
        sc.raw(i)
        for f in (b"a", b"", b"b\nc"):
            sc.fexists(i, f)
        sc.use(i, [b"a"])
        sc.use(i, [b"nope"])
        sc.get(i, "S1")
        sc.loop(i, "S1", 2)
        sc.ignore(i)
        sc.move(i)
    c.tour("tour of header calls", units, menu(
        [(x.setup, x.em, [d], b",") for x in caps
         for d in (b"a,b\n1\n2,3\n", b'"a""x,a\r\n1\r\n', b"\n\na\nb\n",
                   b'"b\nc",a\n1,2\n', b"a,a\n1\n")], calls),
        c.n(4, 6), limit=c.n(3500))
    docs = list(words(gen.chars(b"a,\n"), 0, c.n(5, 6))) + \
        list(words(gen.chars(b'a"\\,'), 0, c.n(4, 5)))

    def every():
        for k, d in enumerate(docs):
            for em in "bst":
                sc = Scenario(f"e{k}{em}", "qem/" + em)
                i = sc.new("qem", em, d)
                sc.raw(i)
                sc.hdr(i)
                sc.fexists(i, b"a")
                sc.fexists(i, b"")
                sc.use(i, [b"a"])
                sc.get(i, "S1")
                sc.hdr(i)
                sc.raw(i)
                yield sc
    c.conform("every header", units, every())


# --------------------------------------------------------------------------
# P12 - P15 values

def field_scenarios(prefix, setup, em, cases, per=60):
    """cases: (list of types, fields); converted by a fresh converter each
    time the scenario begins"""
    sc = None
    for k, (tl, fs) in enumerate(cases):
        if k % per == 0:
            if sc:
                yield sc
            sc = Scenario(f"{prefix}{k}", f"{setup}/{em}")
            i = sc.conv_new(setup, em)
        sc.convfields(i, tl, fs)
    if sc:
        yield sc


def line_scenarios(prefix, setup, em, cases, delim=b",", per=60):
    sc = None
    for k, (tl, line) in enumerate(cases):
        if k % per == 0:
            if sc:
                yield sc
            sc = Scenario(f"{prefix}{k}", f"{setup}/{em}")
            i = sc.conv_new(setup, em)
        sc.conv(i, tl, line, delim)
    if sc:
        yield sc


INTS = ["i16", "u16", "i32", "u32", "i64", "u64", "ill", "ull", "i8", "u8"]


def near_limits(t):
    """texts around the limits of an integer type, digit by digit"""
    out = set()
    for lim in {t.hi, t.lo, 127, 128, 255, 256, 32767, 65535, 2 ** 31, 2 ** 32,
                2 ** 63, 2 ** 64}:
        for delta in range(-3, 4):
            for sign in ("", "-"):
                s = str(abs(lim) + delta) if abs(lim) + delta >= 0 else "0"
                out |= {sign + s, sign + "0" + s, sign + "0" * 25 + s}
        s = str(abs(lim))
        for k in range(len(s)):
            for d in "0123456789":
                out |= {s[:k] + d + s[k + 1:], "-" + s[:k] + d + s[k + 1:]}
            out |= {s[:k] + s[k + 1:], s[:k] + "a" + s[k + 1:]}
        for d in "0123456789":
            out |= {s + d, d + s, "-" + s + d, "-" + d + s}
        for k in range(1, 11):
            out |= {str(abs(lim) * k), str(abs(lim) * k + 1),
                    "-" + str(abs(lim) * k)}
    return sorted(out)


@prop("P12")
def p12(c):
    c.model("MCInt", {"MaxLen": c.n(4, 5)}, ["Exact8", "Refines"],
            properties=["Decides"])
    cases = [("t_" + n, [gen.bts(s)]) for n in INTS
             for s in near_limits(TYPES[n])]
    shorts = list(words(gen.chars(b"-+ 019a.\x00"), 0, 3))
    cases += [("t_" + n, [s]) for n in INTS for s in
              (shorts if n in ("i8", "u8", "i16", "u64") else shorts[:120])]
    eights = [gen.bts(f"{z}{v}") for v in range(-1100, 1101, 1)
              for z in ("",)]
    cases += [("t_" + n, [s]) for n in ("i8", "u8") for s in eights]
    singles = [bytes([x]) for x in range(256)]
    cases += [("t_" + n, [s]) for n in INTS for s in singles]
    cases += [("t_" + n, [b"1" + s]) for n in ("i32", "u64", "i8")
              for s in singles]
    units = [Unit("n", em, ["conv"], parser=False, converter=True)
             for em in "bst"]
    if not c.quick:
        cases += [("t_" + n, [gen.bts(str(v))]) for n in ("i16", "u16")
                  for v in range(-70000, 70001)]
    c.conform("limits and short texts", units,
              field_scenarios("l", "n", "b", cases))
    step = c.n(7, 1)
    c.conform("limits and short texts, reported", units, chained(
        field_scenarios("s", "n", "s", cases[::step]),
        field_scenarios("t", "n", "t", cases[3::step])))

    def texts(rng, n):
        for k in range(n):
            em = rng.choice("bst")
            sc = Scenario(f"r{k}", "n/" + em)
            i = sc.conv_new("n", em)
            for _ in range(40):
                x = rng.choice(INTS)
                sc.convfields(i, "t_" + x, [gen.int_text(rng, TYPES[x])])
            yield sc
    c.explore("random texts", units, texts, c.n(600))
    caps = [Cap("n", em, ["t_" + n for n in INTS], ["t_" + n for n in INTS])
            for em in "bst"]
    c.explore("columns of integers",
              [Unit("n", em, ["conv"], loops=["conv"]) for em in "bst"],
              typed_docs("d", caps, weights={"use": 0.1, "probe": 0}),
              c.n(600))


@prop("P13")
def p13(c):
    c.model("MCValues", {"MaxLen": c.n(3, 4)},
            ["FirstAccepts", "OptionalTotal", "BoolExact", "TextExact",
             "Defaulted"])
    ls = [n for n in names("conv") if TYPES[LISTS[n].types[0]].kind in
          ("char", "bool", "enum", "opt", "var")] + ["t_sv"]
    units = [Unit("n", em, ["conv", "str"], parser=False, converter=True)
             for em in "bst"]
    base = [bytes([x]) for x in range(256)] + \
        list(words(gen.chars(b"10tf -"), 0, 3)) + \
        [w.encode() for w in
         ("true", "false", "True", "TRUE", "FALSE", "False", "tru", "truee",
          "fals", "falsee", " true", "true ", "t", "f", "yes", "no", "on",
          "circle", "circl", "circlee", "square", "sq", "squ", "Circle",
          "abc", "1.5", "-1.5", "2.0", "300", "-300", "70000", "-129", "128",
          "255", "256", "32768", "2147483648", "-2147483649", "99999999999",
          "18446744073709551616", "1e3", "truefalse", "01", "00", "10")]
    cases = [(tl, [s]) for tl in ls + ["S1"] for s in base]
    c.conform("short texts", units, chained(
        field_scenarios("b", "n", "b", cases),
        field_scenarios("s", "n", "s", cases[::c.n(5, 1)]),
        field_scenarios("t", "n", "t", cases[2::c.n(5, 1)])))

    def texts(rng, n):
        for k in range(n):
            em = rng.choice("bst")
            sc = Scenario(f"r{k}", "n/" + em)
            i = sc.conv_new("n", em)
            for _ in range(40):
                x = rng.choice(ls)
                sc.convfields(i, x, [gen.text_for(rng, LISTS[x].types[0],
                                                  0.4)])
            yield sc
    c.explore("random texts", units, texts, c.n(400))
    caps = [Cap("qet", em, ls + ["ooo", "vsi", "iob"], ls + ["ooo", "iob"])
            for em in "bst"]
    c.explore("documents",
              [Unit("qet", em, ["conv", "mix"], loops=["conv", "mix"])
               for em in "bst"],
              typed_docs("d", caps, weights={"use": 0.1}), c.n(1000))


def beyond(s, top):
    """a numeral that may not be in the range of the type"""
    _, _, e = s.lower().partition(b"e")
    try:
        return int(e or b"0") > top - 6
    except ValueError:
        return False


@prop("P14")
def p14(c):
    c.model("MCNumeral", {"MaxLen": c.n(5, 6)},
            ["Grammar", "Ordered", "Between"])
    for variant in ("headers", "plainfloat"):
        units = [Unit("n", em, ["flt", "conv"], parser=False, converter=True)
                 for em in "bst"]
        shorts = list(words(gen.chars(b"-.1e05"), 0, c.n(4, 5)))
        shorts += list(words(gen.chars(b"-.1e+ x,"), 0, 3))
        cases = [(tl, [s]) for tl, top in (("t_f64", 308), ("t_f32", 38))
                 for s in shorts if not beyond(s, top)]
        c.conform("short texts, " + variant, units, chained(
            field_scenarios("b", "n", "b", cases),
            field_scenarios("s", "n", "s", cases[::c.n(9, 2)]),
            field_scenarios("t", "n", "t", cases[1::c.n(9, 2)])), variant)

        def texts(rng, n):
            for k in range(n):
                em = rng.choice("bst")
                sc = Scenario(f"r{k}", "n/" + em)
                i = sc.conv_new("n", em)
                for _ in range(30):
                    tl, bits = rng.choice([("t_f64", 53), ("t_f32", 24)])
                    sc.convfields(i, tl, [gen.flt_text(rng, bits)])
                for _ in range(4):
                    sc.convfields(i, rng.choice(["t_o_f64", "t_v_f64_i32"]),
                                  [gen.flt_text(rng, 53)])
                yield sc
        c.explore("random numerals, " + variant, units, texts, c.n(500),
                  variant)


@prop("P15")
def p15(c):
    c.model("MCRestrict", {"Bound": c.n(12, 40)},
            ["Relations", "Unchanged", "Chars", "Wide"])
    ls = names("restr")
    groups = ["restr", "rmix"]
    units = [Unit("n", em, groups, parser=False, converter=True)
             for em in "bst"]
    nums = [gen.bts(str(v)) for v in range(-130, 131)] + \
        [b"", b"-", b"a", b"1a", b"300", b"-300", b"99999", b"2147483648"]
    chs = [bytes([x]) for x in range(256)] + [b"", b"xx"]
    flts = [gen.bts(f"{s}{a}{f}") for s in ("", "-") for a in range(5)
            for f in ("", ".0", ".5", ".0001", ".9999", ".25")] + [b"", b"x"]
    strs = [b"", b"a", b"abc", b"abcd", b"abcde", b" ", b"0"]
    cases = []
    for n in ls:
        t = TYPES[LISTS[n].types[0]]
        of = TYPES[t.of].kind
        pool = {"int": nums, "char": chs, "flt": flts,
                "bool": [b"0", b"1", b"true", b"false", b"2", b""],
                "str": strs}[of]
        cases += [(n, [s]) for s in pool]
        if of == "int":
            near = {v + d for v in [*map(int, t.args), 2 ** 15, 2 ** 16,
                                    2 ** 31, 2 ** 32, 2 ** 63, 2 ** 64]
                    for v in (v, -v, v % 2 ** 32, v % 2 ** 16, v % 2 ** 8,
                              v + 2 ** 32) for d in (-1, 0, 1)}
            cases += [(n, [gen.bts(str(v))]) for v in sorted(near)]
    c.conform("values near the bounds", units, chained(
        field_scenarios("b", "n", "b", cases),
        field_scenarios("s", "n", "s", cases),
        field_scenarios("t", "n", "t", cases)))
    mixed = names("rmix")

    def texts(rng, n):
        for k in range(n):
            em = rng.choice("bst")
            sc = Scenario(f"r{k}", "n/" + em)
            i = sc.conv_new("n", em)
            for _ in range(30):
                x = rng.choice(mixed)
                sc.convfields(i, x, [gen.text_for(rng, t, 0.15)
                                     for t in LISTS[x].types])
            yield sc
    c.explore("columns with restrictions", units, texts, c.n(600))
    caps = [Cap(s, em, mixed + ["t_gt_i", "t_even", "t_ne_s", "t_ax_c"],
                mixed, ["c_r"]) for s in ("n", "qet") for em in "bst"]
    c.explore("documents",
              [Unit(x.setup, x.em, groups + ["conv"], loops=["rmix"],
                    chains=["chain"] if x.chains else []) for x in caps],
              typed_docs("d", caps, p_bad=0.15, p_mal=0.03,
                         weights={"use": 0.3}), c.n(2000))


# --------------------------------------------------------------------------
# P16 - P18 shapes, chains, loops

@prop("P16")
def p16(c):
    c.model("MCConvert", {"MaxCols": c.n(2, 3)},
            ["AllOrNothing", "Voids", "FirstNamed", "Irrelevant"])
    ls = names("shape", "mix") + ["S1", "S2", "S3", "S7"]
    caps = [Cap(s, em, ls, ls) for s in ("n", "qet", "qem") for em in "bst"]
    units = [Unit(x.setup, x.em, ["shape", "mix", "str"],
                  loops=["shape", "mix", "str"]) for x in caps]
    c.explore("rows of every shape", units,
              typed_docs("d", caps, p_bad=0.12, p_cols=0.2, p_mal=0.05,
                         weights={"use": 0.7, "loop": 1}), c.n(3500))
    conv = [Unit("qet", em, ["shape", "mix", "str", "rmix", "wide"],
                 parser=False, converter=True) for em in "bst"]
    lists = names("shape", "mix", "str", "rmix", "wide")

    def lines(rng, n):
        for k in range(n):
            em = rng.choice("bst")
            doc = Doc(rng, "qet", b",")
            sc = Scenario(f"r{k}", "qet/" + em)
            i = sc.conv_new("qet", em)
            for _ in range(20):
                x = rng.choice(lists)
                sc.conv(i, x, doc.typed_line(LISTS[x].types, 0.1, 0.15, 0.05))
            yield sc
    c.explore("single lines", conv, lines, c.n(700))

    # every number of columns against every list, one bad value at every place
    def counts():
        for em in "bst":
            for x in lists:
                ts = LISTS[x].types
                rng = c.rng("counts" + em + x)
                good = [gen.text_for(rng, t, 0).strip() or b"1" for t in ts]
                good = [g.replace(b",", b"") for g in good]
                sc = Scenario(f"c{em}{x}", "qet/" + em)
                i = sc.conv_new("qet", em)
                for n in range(0, len(ts) + 3):
                    sc.conv(i, x, b",".join((good + [b"1"] * 9)[:n]))
                for k in range(len(ts)):
                    for bad in (b"", b"zzzz", b"99999999999"):
                        sc.conv(i, x, b",".join(
                            good[:k] + [bad] + good[k + 1:]))
                yield sc
    c.conform("every number of columns", conv, counts())
    wide_docs(c, c.n(300), use=False)


@prop("P17")
def p17(c):
    c.model("MCChain", {"Lengths": c.n("{1, 2}", "{1, 2, 3}")},
            ["Refines", "FirstWins", "OnceEach", "Handlers"])
    setups = ["n", "qet", "qem", "qem1"]
    chains = [n for n, (g, _) in CHAINS.items() if g == "chain"]
    caps = [Cap(s, em, ["is", "S2", "si"], [], chains, True)
            for s in setups for em in "bs"]
    units = [Unit(x.setup, x.em, ["str", "mix"], chains=["chain", "probe"])
             for x in caps]

    def make(rng, n):
        for k in range(n):
            cap = rng.choice(caps)
            doc = Doc(rng, cap.setup)
            name = rng.choice(chains)
            lists = CHAINS[name][1]
            rows = rng.randint(1, 7)
            data = doc.typed_doc(lists, rows, None, 0.15, 0.1,
                                 rng.choice([0, 0, 0.2]), 0.1)
            sc, i = start(rng, f"c{k}", cap, data)
            for _ in range(rows + rng.randint(0, 2)):
                if rng.random() < 0.8:
                    gen.chain(rng, sc, i, name, rng.choice([0.2, 0.5, 0.9]))
                else:
                    gen.call(rng, sc, i, cap, {"use": 0.1, "chain": 5})
            yield sc
    docs = [b'1,a\n7,x,y\n"2"z,b\nq,r\n5\n1.5\n', b"12,a\n"]

    def calls(sc, objs, em):
        i, = objs
        for name in ("c_is_s2", "c_ic_f_s", "c_one", "c_r"):
            n = len(CHAINS[name][1])
            for v in range(len(gen.CBKINDS)):
                for k in range(n + 1):
                    # the callbacks from alternative k on accept
                    sc.chain(i, name, v, [j >= k for j in range(n)],
                             [(j + v) % 3 != 0 for j in range(n)])
        sc.get(i, "is")
        sc.ignore(i)
    c.tour("tour of chains", units, menu(
        [(x.setup, x.em, [d], b",") for x in caps for d in docs], calls),
        c.n(4, 7), limit=c.n(3000))
    c.explore("chains", units, make, c.n(3500))


@prop("P18")
def p18(c):
    c.model("MCLoop", {"Alphabet": "{97, 44, 34, 10}", "MaxLen": c.n(4, 5),
                       "MCSetup": "<- SetupQ", "Mode": '"b"'},
            ["SameAsReads", "BodiesToo"])
    setups = ["n", "qet", "qem2ie", "qemih", "ieih"]
    ls = ["S1", "S2", "is", "si", "tup_is", "obj_is", "obj_s", "vsv", "iob",
          "tied_isc", "objtied_isc", "objtup_is"]
    caps = [Cap(s, em, ls, ls) for s in setups for em in "bst"]
    units = [Unit(x.setup, x.em, ["str", "mix", "shape"],
                  loops=["str", "mix", "shape"]) for x in caps]
    ldocs = [b'1,a\n2,b\n\n"3"x,c\n4,"d\ne"\n5,f\n', b"1,a\n", b"",
             b"\n\n1,a\r\n\r\n2,b\r\n\r\n"]

    def calls(sc, objs, em):
        i, = objs
        for n, style in ((0, 0), (1, 0), (1, 2), (2, 1), (3, 3), (50, 0),
                         (50, 3), (2, 4), (50, 5)):
            sc.loop(i, "is", n, style)
        sc.loop(i, "S1", 2, 0)
        sc.loop(i, "obj_is", 2, 2)
        for n, body in ((2, ""), (50, ""), (2, "S1"), (50, "is")):
            sc.loopwith(i, "is", n, body)
        sc.get(i, "is")
        sc.ignore(i)
        if not SETUPS[sc.tag[:-2]].ih:
            sc.use(i, [b"a"])
    c.tour("tour of loops and reads", units, menu(
        [(x.setup, x.em, [d], b",") for x in caps for d in ldocs], calls),
        c.n(5, 8), limit=c.n(3000))
    c.explore("loops and reads", units,
              typed_docs("l", caps, weights={**ALL, "loop": 12, "get": 5},
                         p_bad=0.12, p_cols=0.08, p_mal=0.06, rows=(0, 9),
                         calls=5), c.n(3000))
    docs = list(words(gen.chars(b'a,\n"'), 0, c.n(4, 5)))

    def every():
        for k, d in enumerate(docs):
            for em in "bst":
                sc = Scenario(f"e{k}{em}", "qet/" + em)
                i = sc.new("qet", em, d)
                sc.loop(i, "S1", 50, k % 6)
                if em == "t":
                    sc.loop(i, "S2", 50, k % 5)
                sc.loop(i, "S1", 50, (k + 4) % 6)
                sc.get(i, "S1")
                yield sc
                sc = Scenario(f"f{k}{em}", "qet/" + em)
                i = sc.new("qet", em, d)
                for _ in range(2 if em == "t" else 1):
                    sc.loopwith(i, "S1", 50, ("", "S1", "S2")[k % 3])
                sc.get(i, "S1")
                yield sc
    c.conform("every document", units, every())


# --------------------------------------------------------------------------
# P19 moves, P20 independence

def move_docs(prefix, caps, delims, resources):
    """several parsers of one kind, moved and assigned while they are read"""
    def make(rng, n):
        for k in range(n):
            cap = rng.choice(caps)
            sc = Scenario(f"{prefix}{k}", f"{cap.setup}/{cap.em}")
            sc.resources = resources
            alive = []
            near = delims if rng.random() < 0.6 else gen.kindred(rng)

            def fresh():
                delim = rng.choice(near)
                doc = Doc(rng, cap.setup, delim)
                r = rng.random()
                if r < 0.05:
                    i = sc.new(cap.setup, cap.em, b"",
                               rng.choice(["missing", "null"]), delim)
                    if cap.em != "t":
                        alive.append(i)
                    return
                if r < 0.6:
                    d = doc.typed_doc(
                        rng.sample(cap.gets, 2), rng.randint(0, 6),
                        header_line(rng, doc) if rng.random() < 0.7 else None,
                        0.1, 0.1, 0.05, 0.1)
                elif doc.ml:
                    d = ml_doc(rng, doc, long=rng.random() < 0.3)
                else:
                    d = doc.doc(rng.randint(0, 6))
                alive.append(sc.new(cap.setup, cap.em, d,
                                    rng.choice(["buffer", "file"]), delim))
            for _ in range(rng.randint(1, 3)):
                fresh()
            for _ in range(rng.randint(4, 14)):
                if not alive:
                    fresh()
                    continue
                r = rng.random()
                i = rng.choice(alive)
                if r < 0.15:
                    sc.move(i)
                elif r < 0.35 and len(alive) > 1:
                    j = rng.choice([x for x in alive if x != i])
                    sc.assign(i, j)
                    alive.remove(j)
                elif r < 0.42 and len(alive) > 1:
                    sc.swap(i, rng.choice([x for x in alive if x != i]))
                elif r < 0.46:
                    sc.delete(i)
                    alive.remove(i)
                elif r < 0.51 and sc.n < 6:
                    fresh()
                else:
                    gen.call(rng, sc, i, cap, {**ALL, "use": 2.5})
            yield sc
    return make


def pick_length(rng):
    """of a row: within the first buffer, or far beyond"""
    return rng.choice([rng.randint(0, 30), rng.randint(30, 140),
                       rng.randint(140, 600), rng.randint(600, 6000)])


def large_moves(prefix, caps, *lists):
    def make(rng, n):
        for k in range(n):
            cap = rng.choice(caps)
            sc = Scenario(f"{prefix}{k}", f"{cap.setup}/{cap.em}")
            quoted = SETUPS[cap.setup].ml is not None

            def row():
                m = pick_length(rng)
                if not quoted or rng.random() < 0.2:
                    return b"x" * m
                out = b'"' + b"y" * rng.choice([0, 1, 5, m])
                for _ in range(rng.randint(1, 2)):
                    out += b"\n" + b"z" * pick_length(rng)
                return out + b'"'
            alive = []
            for _ in range(rng.randint(2, 3)):
                d = b"\n".join(row() for _ in range(rng.randint(2, 4)))
                alive.append(sc.new(cap.setup, cap.em, d,
                                    rng.choice(["buffer", "file"]), BAR))
            for _ in range(rng.randint(4, 9)):
                i = rng.choice(alive)
                r = rng.random()
                if r < 0.3 and len(alive) > 1:
                    j = rng.choice([x for x in alive if x != i])
                    sc.assign(i, j)
                    alive.remove(j)
                elif r < 0.4:
                    sc.move(i)
                elif r < 0.5 and len(alive) > 1:
                    sc.swap(i, rng.choice([x for x in alive if x != i]))
                else:
                    sc.get(i, rng.choice(lists))
            yield sc
    return make


MOVES = ["n", "qet", "qem", "qem2ie", "ieih"]


@prop("P19")
def p19(c):
    c.model("MCSystem", {"Alphabet": "{97, 44, 10}", "MaxLen": 3,
                         "MaxCalls": c.n(3, 4)},
            ["Independent"], properties=["MoveKeeps"])
    caps = [Cap(s, em, ["S1", "S2", "is", "V1", "V2", "V3"], ["S1", "S2"],
                ["c_is_s2"], True) for s in MOVES for em in "bst"]
    units = [Unit(x.setup, x.em, ["str", "view", "mix"], loops=["str"],
                  chains=["chain", "probe"] if x.chains else [])
             for x in caps]

    def calls(sc, objs, em):
        for i in objs:
            sc.get(i, "S1")
            sc.get(i, "V2")
            sc.move(i)
            sc.delete(i)
            for j in objs:
                if i != j:
                    sc.assign(i, j)
                if i < j:
                    sc.swap(i, j)
            if not SETUPS[sc.tag[:-2]].ih:
                sc.use(i, [b"b"])
                sc.fexists(i, b"a")
        sc.ignore(objs[0])
    pairs = [(b'a,b\n1,"x\ny"\n\n2,3', b"b;c\r\n4;\\\r\n5\r\n6"),
             (b'"h\n', b"b\n1;2\n")]
    c.tour("tour of moves", units, menu(
        [(x.setup, x.em, ds, [b",", b";"]) for x in caps for ds in pairs], calls),
        c.n(3, 5), limit=c.n(3000))
    c.tour("walks among moves", units, menu(
        [(x.setup, x.em, (*pairs[0], pairs[1][1]), [b",", b";", b";"]) for x in caps],
        calls), 10, walks=c.n(1200, 20000))
    delims = [b",", b"::", b";", b"<=================>"]
    c.explore("moves", units, move_docs("m", caps, delims, False), c.n(2000))
    c.explore("moves, resources", units,
              move_docs("r", caps, delims, True), c.n(700))

    lcaps = [x for x in caps if x.setup in ("n", "qem", "qem2ie")]

    c.explore("moves, rows of very different lengths", units,
              large_moves("a", lcaps, "S1", "V1"), c.n(1000))

    def views(rng, n):
        for k in range(n):
            cap = rng.choice(caps)
            doc = Doc(rng, cap.setup)
            if doc.ml and rng.random() < 0.5:
                d = ml_doc(rng, doc, long=True)
            else:
                d = doc.doc(rng.randint(1, 8), cols=(1, 3))
            sc, i = start(rng, f"v{k}", cap, d)
            for _ in range(lines_of(d) + 1):
                sc.get(i, rng.choice(["V1", "V2", "V3", "S1"]))
                if not SETUPS[cap.setup].ih:
                    for _ in range(rng.randint(0, 2)):
                        rng.choice([sc.raw, sc.hdr, sc.query,
                                    lambda i: sc.fexists(i, b"a")])(i)
                if rng.random() < 0.2:
                    sc.move(i)
            yield sc
    c.explore("views", units, views, c.n(1500))


@prop("P20")
def p20(c):
    c.model("MCSystem", {"Alphabet": "{97, 44, 10}", "MaxLen": 3,
                         "MaxCalls": c.n(3, 4)}, ["Independent"])
    c.model("MCConverter", {"Alphabet": "{97, 44, 34}", "MaxLen": 2,
                            "MaxCalls": c.n(2, 3)},
            ["Memoryless", "CacheTrue", "FieldsTrue"])
    setups = ["n", "qet", "qe", "qem", "qem2ie"]
    caps = {(s, em): Cap(s, em, ["S1", "S2", "S3", "is", "iob", "t_i32"],
                         ["S1", "is"], ["c_i_is_isc"], True)
            for s in setups for em in "bst"}
    units = [Unit(s, em, ["str", "mix", "conv", "rmix"], converter=True,
                  loops=["str", "mix"],
                  chains=["chain", "probe"] if em != "t" else [])
             for s, em in caps]
    clists = names("str", "mix") + ["t_i32", "t_u8", "t_o_i32", "r_mix",
                                    "t_v_i32_f64_s"]

    def converters(rng, n, keys=list(caps)):
        for k in range(n):
            s, em = rng.choice(keys)
            delims = rng.choice([[b","], [b"::"], [b",", b";", b"::", b":"],
                                 gen.kindred(rng), gen.kindred(rng)])
            docs = [Doc(rng, s, d) for d in delims]
            sc = Scenario(f"c{k}", f"{s}/{em}")
            objs = [sc.conv_new(s, em) for _ in range(rng.randint(1, 3))]
            for _ in range(rng.randint(6, 25)):
                doc = rng.choice(docs)
                i = rng.choice(objs)
                r = rng.random()
                x = rng.choice(clists)
                if r < 0.5:
                    if rng.random() < 0.7:
                        line = doc.typed_line(LISTS[x].types, 0.1, 0.1, 0.1)
                    else:
                        line = doc.wild(rng.randint(0, 12))
                    if rng.random() < 0.2:
                        # the delimiters of other lines within
                        line = b"".join(gen.text_for(rng, t, 0.1) +
                                        rng.choice([doc.D] * 3 + delims)
                                        for t in LISTS[x].types)
                        line = line.replace(b"\0", b"")
                        if line.endswith(doc.D):
                            line = line[:-len(doc.D)]
                    if rng.random() < 0.05:
                        line = b""
                    sc.conv(i, x, line, doc.D)
                elif r < 0.65:
                    sc.split(i, doc.line(rng.randint(1, 5), 0.2)
                             if rng.random() < 0.8 else doc.wild(8), doc.D)
                elif r < 0.85:
                    sc.convlast(i, x)
                else:
                    sc.convfields(i, x, [gen.text_for(rng, t, 0.1)
                                         for t in LISTS[x].types])
            yield sc
    c.explore("one converter, many lines", units, converters, c.n(1000))

    # converters and parsers side by side, all sequences of few calls
    starts = []
    for s, em in caps:
        new = Scenario("start", f"{s}/{em}")
        a, b = new.conv_new(s, em), new.conv_new(s, em)
        p = new.new(s, em, b'a,b\n1,"x\ny"\n2,3\n', "buffer")
        q = new.new(s, em, b'7,8\n"\n9,1\n', "file")
        each = new.copy("calls")
        each.lines, each.args = [], []
        for i in (a, b):
            each.conv(i, "is", b"1,x")
            each.conv(i, "S2", b'"1,x')
            each.conv(i, "t_i32", b"z")
            each.split(i, b'"4,5",6')
            each.split(i, b"7")
            each.split(i, b"4,5;6", b";")
            each.convlast(i, "S1")
            each.convlast(i, "is")
            each.convfields(i, "is", [b"8", b"y"])
        for i in (p, q):
            each.get(i, "is")
            each.get(i, "S1")
            each.use(i, [b"b"])
        starts.append((new, each))
    c.tour("tour of interleavings", units, starts, c.n(2, 3),
           limit=c.n(2000))
    c.tour("walks of interleavings", units, starts, 12,
           walks=c.n(1500, 20000))

    def parsers(rng, n, keys=list(caps)):
        for k in range(n):
            sc = Scenario(f"p{k}", "mixed")
            sc.files = 6 * (k % THREADS)
            delims = rng.choice([[b",", b",", b";", b"::"], gen.kindred(rng)])
            objs = []
            for _ in range(rng.randint(2, 4)):
                s, em = rng.choice(keys)
                if objs and rng.random() < 0.5:
                    s, em = objs[0][1].setup, objs[0][1].em
                cap = caps[s, em]
                doc = Doc(rng, s, rng.choice(delims))
                d = doc.typed_doc(rng.sample(cap.gets, 2), rng.randint(0, 6),
                                  header_line(rng, doc)
                                  if rng.random() < 0.4 else None,
                                  0.1, 0.1, 0.05, 0.1)
                objs.append((sc.new(s, em, d,
                                    rng.choice(["buffer", "file"]), doc.D),
                             cap))
            for _ in range(rng.randint(5, 20)):
                i, cap = rng.choice(objs)
                gen.call(rng, sc, i, cap, {**ALL, "move": 0.2})
            yield sc
    c.explore("parsers interleaved", units, parsers, c.n(1000))

    # objects of several threads: nothing is shared between them
    def threads(rng, n):
        yield from converters(rng, n, list(few))
        yield from parsers(rng, n, list(few))

    few = {(u.setup, u.em): u for u in units if (u.setup, u.em) in
           (("n", "b"), ("qet", "t"), ("qem2ie", "s"))}
    for v in ("headers", "plainfloat") if c.quick else VARIANTS:
        c.threads("threads, " + v, list(few.values()), threads, 400, v)


# --------------------------------------------------------------------------
# P21 build variants

VARIANTS = ["headers", "single", "generated", "portable", "plainfloat"]


@prop("P21")
def p21(c):
    c.model("MCGetline", {"Alphabet": "{97, 0, 10}", "MaxLen": c.n(7, 9),
                          "Chunk": 3}, ["Refines", "Fits"],
            properties=["Ends"])
    setups = ["n", "qet", "qem2ie", "ieih"]
    gets = ["is", "S2", "S3", "isf", "iob", "t_f64", "vsi", "t_u8"]
    caps = [Cap(s, em, gets, ["is", "S2"], ["c_is_s2", "c_ic_f_s"])
            for s in setups for em in "bst"
            if (s, em) in (("n", "b"), ("qet", "t"), ("qem2ie", "s"),
                           ("ieih", "b")) or not c.quick]
    units = [Unit(x.setup, x.em, ["str", "mix", "flt", "conv"],
                  loops=["str", "mix"],
                  chains=["chain", "probe"] if x.chains else [],
                  converter=True) for x in caps]
    lcaps = [Cap(x.setup, x.em, ["S1", "S2"], ["S1"]) for x in caps]

    def numbers(rng, n):
        for k in range(n):
            cap = rng.choice(caps)
            sc = Scenario(f"n{k}", f"{cap.setup}/{cap.em}")
            i = sc.conv_new(cap.setup, cap.em)
            for _ in range(30):
                x = rng.choice(["t_f64", "t_f32", "t_i32", "t_u64", "t_u8",
                                "t_o_f64", "t_v_f64_i32", "t_b", "t_c"])
                sc.convfields(i, x, [gen.text_for(rng, LISTS[x].types[0],
                                                  0.2)])
            yield sc

    def long_lines(prefix, src):
        # every length around the growth points of the line buffers
        k = 0
        for n in gen.EDGES:
            for tail in (b"\n", b"\r\n", b""):
                for first in (b"", b"x\n"):
                    cap = lcaps[k % len(lcaps)]
                    k += 1
                    sc = Scenario(f"{prefix}{k}", f"{cap.setup}/{cap.em}")
                    i = sc.new(cap.setup, cap.em,
                               first + b"y" * n + tail, src, BAR)
                    for _ in range(3):
                        sc.get(i, "S1")
                    yield sc

    for v in VARIANTS:
        if v == "generated" and c.same_text():
            c.extra["generated"] = "the same text as ssp.hpp"
            continue
        c.conform("lengths of lines, " + v, units, dedup(chained(
            long_lines("f", "file"), long_lines("b", "buffer"),
            docs_scenarios("a", "n", "b", words(gen.chars(b"a\n\r"), 0,
                                                c.n(5, 7)), src="file"),
            docs_scenarios("q", "qem2ie", "s",
                           words(gen.chars(b'a"\n'), 0, c.n(5, 7)),
                           src="file"))), v)
        c.explore("long lines, " + v, units,
                  lambda rng, n: long_line_docs(rng, n, "l", lcaps, top=2100),
                  c.n(120), v)
        c.explore("documents, " + v, units,
                  typed_docs("d", caps, [b",", b"::"], weights=ALL,
                             rows=(0, 8)), c.n(400), v)
        c.explore("numbers, " + v, units, numbers, c.n(80), v)
        c.explore("moves, " + v, units, large_moves("a", [
            x for x in lcaps if SETUPS[x.setup].ml is not None], "S1"),
                  c.n(200), v)


# --------------------------------------------------------------------------
# P22 lists of options


def probes_of_setup(rng, k, cap, n):
    """documents which tell setups apart, read to the end"""
    doc = Doc(rng, cap.setup)
    for j in range(n):
        if j == 0:
            d = (b"h,i\n\n\"a,b\", c\n'd,e' ,_f\n\\,,^,\n"
                 b"\"x\ny\",z\n\"1\n2\n3\n4\",w\n'p\nq\nr\ns',t\n"
                 b"g\\\nh,^\ni\n\n_k_,\tl\t\n\"m\"n,o\n last , one ")
        elif doc.ml:
            d = ml_doc(rng, doc, (0, 4))
        else:
            d = doc.doc(5, cols=(1, 3), p_bad=0.2)
        sc, i = start(rng, f"s{k}_{j}", cap, d)
        for _ in range(lines_of(d) + 1):
            if j % 2 == 0:
                sc.get(i, rng.choice(["S2", "S2", "S1"]))
            else:
                gen.call(rng, sc, i, cap, {"get": 6, "loop": 0.5, "move": 0.2,
                                           "ignore": 0.3, "use": 0.1})
        yield sc


@prop("P22")
def p22(c):
    every = tla_names(setups.OPTIONS)
    law = ("OrderFree", "Repairs", "Distinct")
    c.model("MCSetupSpec", {"MaxOptions": 3, "Names": every}, law)
    lists = c.generate("MCSetupSpec", {"MaxOptions": c.n(2, 3),
                                       "Names": every}, law + ("Show",),
                       tag="LIST")
    longer = []
    for depth in (5, 8):
        longer += c.generate(
            "MCSetupSpec", {"MaxOptions": 9, "Names": every},
            law + ("Show",), tag="LIST", spec="SpecConsistent",
            simulate=(c.n(40, 1500), depth + 1))
    # one option too many, or an inconsistent one, in a list that is long
    rng = c.rng("lists")
    seen = {tuple(x["names"]) for x in lists}
    more = []
    for x in longer:
        if len(x["names"]) > 2 and tuple(x["names"]) not in seen:
            seen.add(tuple(x["names"]))
            more.append(x)
    longer = sample(rng, more, c.n(300, 6000))
    for k, x in enumerate(sample(rng, more, c.n(150, 3000))):
        names = list(x["names"])
        names.insert(rng.randint(0, len(names)),
                     rng.choice(list(setups.OPTIONS)))
        if tuple(names) not in seen:
            seen.add(tuple(names))
            longer.append({"names": names, "ok": None})
    verdicts(c, longer)
    counts = {}
    for form, ls in (("setup", lists + longer), ("nested", lists + longer),
                     ("converter", lists + longer[::2]),
                     ("parser", lists + longer[1::2]),
                     ("parser of setup", longer[::4])):
        ls = [x for x in ls if x["names"]]
        diff, good, bad, alone = setups.decide(form, ls)
        counts[form] = {"accepted": good, "rejected": bad,
                        "compiled alone": alone}
        c.log(f"{form}: {good} lists accepted, {bad} rejected")
        if diff:
            form, names, ok, err = diff[0]
            raise Violation("option list", {
                "kind": "setup", "form": form, "options": names,
                "expected": "accepted" if ok else "rejected",
                "account": f"as {form}: the list <{setups.text(names)}> "
                           f"should be {'accepted' if ok else 'rejected'}\n"
                           f"{err}"})
    c.extra["option_lists"] = counts
    # what accepted lists mean
    good = [x for x in lists if x["ok"] and len(x["names"]) == 2] + \
        [x for x in longer if x["ok"]]
    by_length = {}
    for x in good:
        by_length.setdefault(len(x["names"]), []).append(x)
    chosen = []
    for n, xs in sorted(by_length.items()):
        chosen += sample(rng, xs, c.n(8, 80) if n < 6 else c.n(9, 150))
    caps = []
    for k, x in enumerate(chosen):
        s = setups.Listed(f"L{k}", x["names"], k % 3 == 2).register()
        caps.append(Cap(s.name, s.em, ["S1", "S2", "S3"], ["S1", "S2"]))
    step = 60
    for a in range(0, len(caps), step):
        part = caps[a:a + step]
        units = [Unit(x.setup, x.em, ["str"], loops=["str"]) for x in part]
        c.conform("meaning of lists", units, chained(*[
            probes_of_setup(c.rng(x.setup), a + k, x, c.n(6, 12))
            for k, x in enumerate(part)]))
    # the same setups written in different ways
    same = [("qetm", "qetm_r", "qetm_n"), ("qem2ie", "qem2ie_r", "qem2ie_n"),
            ("qelr", "qelr_r", "qelr_n")]
    scaps = [Cap(s, em, STR, ["S1", "S2"]) for k, g in enumerate(same)
             for s in g for em in ("bst"[k] if c.quick else "bst")]
    c.explore("setups written in different ways",
              [Unit(x.setup, x.em, ["str"], loops=["str"]) for x in scaps],
              parser_docs("w", scaps, weights=ALL, cols=(1, 4)), c.n(600))


def verdicts(c, lists):
    """lets the specification decide lists made here"""
    todo = [x for x in lists if x["ok"] is None]
    if not todo:
        return
    got = c.evaluate("EvalSetups", [x["names"] for x in todo])
    for x, g in zip(todo, got):
        x["ok"], x["em"] = g["ok"], g["em"]


def tla_names(xs):
    return "{" + ", ".join(f'"{x}"' for x in xs) + "}"


# --------------------------------------------------------------------------
# P23, P24

@prop("P23")
def p23(c):
    c.model("MCParser", {"Alphabet": "{0, 34, 10}", "MaxLen": c.n(4, 6),
                         "MCSetup": "<- SetupQ", "Mode": '"b"'},
            ["Cursor", "EofTight"], properties=["Forward", "Ends"])
    every = list(SETUPS)
    plain = [s for s in every if SETUPS[s].ml is None and
             not SETUPS[s].opts][:14]
    multi = [s for s in every if SETUPS[s].ml is not None and
             not SETUPS[s].opts]
    chosen = plain + multi
    caps = {(s, em): Cap(s, em, ["S1", "S2", "S3", "V2"], ["S1", "S2"],
                         probe=True) for s in chosen
            for em in ("b" if c.quick else "bst")}
    for s in ("qet", "qem", "qem2ie"):
        for em in "bst":
            caps[s, em] = Cap(s, em, ["S1", "S2", "S3", "V2"], ["S1", "S2"],
                              probe=True)
    units = [Unit(s, em, ["str", "view"], loops=["str"],
                  chains=["probe"] if em != "t" else []) for s, em in caps]
    keys = list(caps)

    def make(rng, n):
        for k in range(n):
            cap = caps[rng.choice(keys)]
            doc = Doc(rng, cap.setup)
            r = rng.random()
            m = gen.edge_length(rng, 400)
            if r < 0.25:
                d = bytes(rng.randrange(256) for _ in range(m))
            elif r < 0.5:
                ab = doc.special() + b"\n\n\r\xff\x80\x01\x7f"
                d = bytes(rng.choice(ab) for _ in range(m))
            elif r < 0.8:
                d = bytearray(doc.doc(rng.randint(1, 8), p_wild=0.3,
                                      p_bad=0.3))
                for _ in range(rng.randint(0, 4)):
                    if d:
                        d[rng.randrange(len(d))] = rng.randrange(256)
                d = bytes(d)
            else:
                d = b"".join(rng.choice([
                    doc.q[:1], doc.e[:1], b"\n", b"\r\n", doc.D,
                    b"x" * gen.edge_length(rng, 140)])
                    for _ in range(rng.randint(1, 20)))
            d = d.replace(b"\x00", b"")
            sc, i = start(rng, f"x{k}", cap, d)
            if cap.em == "t" or rng.random() < 0.3:
                for _ in range(min(lines_of(d), 60) + 1):
                    gen.call(rng, sc, i, cap, {"get": 15, "move": 0.3})
            else:
                sc.loop(i, "S2", 100000)
                sc.get(i, "S1")
            yield sc
    c.explore("bytes", units, make, c.n(2500))
    # lines which end in a part of the delimiter, where the buffer ends
    pcaps = [caps[k] for k in caps if k[0] in ("n", "q", "qet", "qem2ie")]

    def parts(rng, n):
        for k in range(n):
            cap = rng.choice(pcaps)
            delim = rng.choice([b"::", b";;;", b"aab", b"abcabcabd",
                                b";" * rng.choice([16, 33, 64, 130]),
                                b"ab" * rng.choice([8, 20, 60]) + b"c"])
            d = b""
            for _ in range(rng.randint(1, 4)):
                m = gen.edge_length(rng, 560)
                part = delim[:rng.randint(0, len(delim) - 1)]
                fill = rng.choice([b"x", delim[:1], b"x," + delim])
                line = (fill * m)[:max(0, m - len(part))] + part
                if rng.random() < 0.3:
                    line = line[:-1]
                if rng.random() < 0.2 and SETUPS[cap.setup].q:
                    line = SETUPS[cap.setup].q[:1].encode() + line
                d += line + rng.choice([b"\n", b"\r\n"])
            if rng.random() < 0.5:
                d = d.rstrip(b"\r\n")
            sc, i = start(rng, f"p{k}", cap, d, delim)
            for _ in range(lines_of(d) + 1):
                sc.get(i, rng.choice(["S1", "S2", "V2"]))
            yield sc
    c.explore("parts of delimiters", units, parts, c.n(600))
    # what rows with NUL mean is left open; they are read to the end all the
    # same
    nul = list(words([b"\x00", b'"', b"\n", b"a"], 0, c.n(5, 6))) + \
        list(words([b"\x00", b"\\", b"\r", b"\n"], 0, c.n(4, 6)))
    caps2 = [k for k in keys if k[1] == "b" and k[0] in
             ("n", "qet", "ie", "qem", "qem2ie", "qetmie")]

    def closed():
        for s, em in caps2:
            for k, d in enumerate(nul):
                sc = Scenario(f"z{s}{k}", s)
                i = sc.new(s, em, d, "buffer" if k % 2 else "file")
                sc.drain(i, "S1", lines_of(d))
                yield sc
    c.conform("NUL is read to the end", units, closed())
    lkeys = [k for k in keys if SETUPS[k[0]].ml is None]
    lunits = [Unit(s, em, ["str"]) for s, em in lkeys]

    def one_by_one(src):
        for k, d in enumerate(nul):
            s, em = lkeys[k % len(lkeys)]
            sc = Scenario(f"o{src}{k}", f"{s}/{em}")
            i = sc.new(s, em, d, src)
            for j in range(lines_of(d) + 1):
                if (j + k // 2) % 3 == 0:
                    sc.ignore(i)
                else:
                    sc.take(i, "S1")
            yield sc
    for v in ("headers", "portable"):
        c.conform("lines with NUL, " + v, lunits, dedup(chained(
            one_by_one("file"), one_by_one("buffer"))), v)

    def raw(rng, n):
        for k in range(n):
            s, em = rng.choice(keys)
            d = bytes(rng.randrange(256) if rng.random() < 0.8 else
                      rng.choice(b"\x00\n\r\",") for _ in range(
                          gen.edge_length(rng, 600)))
            sc = Scenario(f"y{k}", f"{s}/{em}")
            i = sc.new(s, em, d, rng.choice(["buffer", "file"]))
            sc.drain(i, "S2", lines_of(d))
            yield sc
    c.explore("bytes with NUL", units, raw, c.n(1000))

    def longer(rng, n):
        for k in range(n):
            s, em = rng.choice(lkeys)
            d = b""
            for _ in range(rng.randint(1, 5)):
                m = gen.edge_length(rng, 600)
                line = bytearray(b"x" * m)
                for _ in range(rng.choice([1, 1, 2, 5])):
                    if m:
                        line[rng.choice([0, m - 1, rng.randrange(m)])] = \
                            rng.choice(b"\x00\x00\x00\xff\r,\"")
                d += bytes(line) + rng.choice([b"\n", b"\r\n"])
            if rng.random() < 0.5:
                d = d[:-1]
            sc = Scenario(f"l{k}", f"{s}/{em}")
            i = sc.new(s, em, d, rng.choice(["buffer", "file", "file"]))
            for _ in range(lines_of(d) + 1):
                if rng.random() < 0.2:
                    sc.ignore(i)
                else:
                    sc.take(i, rng.choice(["S1", "S2"]))
            yield sc
    for v in ("headers", "portable"):
        c.explore("long lines with NUL, " + v, lunits, longer, c.n(300), v)


@prop("P24")
def p24(c):
    c.model("MCReport", {"MaxLen": c.n(4, 5)}, ["Named", "LineNamed", "Discerning"])
    setups = ["n", "qe", "qet", "qem", "qem2", "ie", "qem2ie"]
    lists = ["is", "isc", "iiiii", "S1", "S2", "S3", "t_i32", "r_mix",
             "r_mix2", "r_user", "r_user2", "ivs", "vi"]
    caps = [Cap(s, em, lists, ["is", "S2"],
                ["c_is_s2", "c_i_is_isc", "c_r", "c_obj"])
            for s in setups for em in "st"]
    units = [Unit(x.setup, x.em, ["str", "mix", "conv", "rmix", "shape"],
                  loops=["str", "mix"],
                  chains=["chain"] if x.chains else []) for x in caps]
    docs = [b'a,b\n1,x\nq,x\n\n3\n4,"y\nz"w,\n5,6,7\n8,"',
            b"a,a\r\n99999999999,x\r\n", b'"a"b\n1\n']

    def calls(sc, objs, em):
        i, = objs
        sc.get(i, "is")
        sc.get(i, "S1")
        sc.get(i, "r_mix2")
        sc.get(i, "ivs")
        sc.loop(i, "is", 2)
        sc.ignore(i)
        sc.hdr(i)
        sc.fexists(i, b"a")
        sc.use(i, [b"b"])
        sc.use(i, [b"nope"])
        sc.use(i, [b"a", b"a"])
        sc.use(i, [])
        if em != "t":
            sc.chain(i, "c_is_s2", 0, [False, False])
    c.tour("tour of failures", units, menu(
        [(x.setup, x.em, [d], b",") for x in caps for d in docs], calls),
        c.n(5, 7), limit=c.n(3000))
    c.conform("failures far behind", units, big_counts(caps[[
        (x.setup, x.em) for x in caps].index(("ie", "s"))], "buffer"))
    c.explore("failures of rows", units,
              typed_docs("f", caps, p_bad=0.3, p_cols=0.25, p_mal=0.25,
                         rows=(1, 14), weights={**ALL, "use": 0.5}),
              c.n(2500))
    wide_docs(c, c.n(300))
    c.explore("failures of headers", units,
              header_docs("h", caps, [b",", b"::"],
                          {**ALL, "hdr": 4, "fexists": 4, "use": 6}, POOL),
              c.n(2000))

    def opening():
        for s in setups:
            for em in "st":
                for src in ("missing", "null"):
                    sc = Scenario(f"o{s}{em}{src}", f"{s}/{em}")
                    i = sc.new(s, em, b"", src)
                    if em == "s":
                        sc.query(i)
                        sc.get(i, "S2")
                        sc.raw(i)
                        sc.hdr(i)
                        sc.fexists(i, b"a")
                        sc.use(i, [b"a"])
                        sc.loop(i, "S2", 3)
                        sc.ignore(i)
                        sc.move(i)
                        sc.get(i, "S1")
                    yield sc
    c.conform("files and buffers that are not there", units, opening())
