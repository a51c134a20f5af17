"""Generators of texts, documents and call sequences for the conformance
checks.  Everything random is drawn from a generator given by the caller.

The generators keep to what the specification gives a meaning to: no NUL in
documents, no delimiter made of special characters, floating point texts that
are decimal numerals in the range of the type or clearly not numerals."""
import itertools

from .catalog import CBKINDS, CHAINS, LISTS, SETUPS, TYPES
from .scen import Scenario


def bts(s):
    return s if isinstance(s, bytes) else s.encode("latin-1")


def pick(rng, weighted):
    """weighted: list of (weight, value)"""
    total = sum(w for w, _ in weighted)
    x = rng.random() * total
    for w, v in weighted:
        x -= w
        if x < 0:
            return v
    return weighted[-1][1]


def words(alphabet, lo, hi):
    """all words over the alphabet (a list of bytes) of length lo..hi"""
    for n in range(lo, hi + 1):
        for w in itertools.product(alphabet, repeat=n):
            yield b"".join(w)


def chars(s):
    return [bytes([c]) for c in bts(s)]


# --------------------------------------------------------------------------
# values


def int_text(rng, t, p_bad=0.5):
    """text for an integer type, often at the limits of its range"""
    r = rng.random()
    if r >= p_bad:
        v = pick(rng, [(3, rng.randint(t.lo, t.hi)), (2, rng.randint(-5, 12)),
                       (1, t.lo), (1, t.hi), (1, t.hi - rng.randint(0, 3)),
                       (1, t.lo + rng.randint(0, 3)),
                       (1, rng.randint(0, 10 ** rng.randint(1, 19)))])
        v = max(t.lo, min(t.hi, v))
        s = str(abs(v))
        if rng.random() < 0.15:
            s = "0" * rng.randint(1, 30) + s
        return bts(("-" if v < 0 else "") + s)
    bits = [8, 16, 32, 63, 64, 65]
    return bts(pick(rng, [
        (2, str(t.hi + rng.randint(1, 3))), (2, str(t.lo - rng.randint(1, 3))),
        (2, str(t.hi * 10 + rng.randint(0, 9))),
        (2, str(t.hi) + str(rng.randint(0, 9))),
        (2, str(rng.choice([1, -1]) * (2 ** rng.choice(bits) +
                                       rng.randint(-2, 2)))),
        (2, str(rng.choice([1, -1]) * (rng.randint(1, 30) * (t.hi + 1) +
                                       rng.randint(-2, 2)))),
        (1, str(rng.randint(0, 10 ** 25))), (1, ""), (1, "-"), (1, "--1"),
        (1, "+1"), (1, " 1"), (1, "1 "), (1, "1-"), (1, "-0"), (1, "1.0"),
        (1, "0x1"), (1, "1a"), (1, "a1"), (1, "1e2"), (1, "-" + "9" * 25),
        (1, "9" * rng.randint(1, 40)), (1, "1/"), (1, "1:"), (1, "- 1"),
        (1, "0" * 70 + "1"), (1, "\xff1"), (1, "1\x00"), (1, "\xb9")]))


def flt_text(rng, bits, p_bad=0.3):
    """decimal numeral in range of the type, or no numeral"""
    if rng.random() < p_bad:
        return bts(rng.choice(["", "-", ".", "-.", "e5", ".e1", "1.2.3", "1e",
                               "1e+", "1e-", "--1", "1..2", "1-", "1.5x",
                               "x1.5", "1,5", "1 5", "1.5 ", "1e5.5", "1e5e5",
                               "abc", "-e", "1.-5", " 1.5", "+1.5", "0x10",
                               "1_0", "1.5f", "..", "e", "1e 5", "0x"]))
    sign = "-" if rng.random() < 0.3 else ""
    style = rng.randrange(11)
    top = 37 if bits == 24 else 307
    if style == 0:
        s = str(rng.randint(0, 99999))
    elif style == 1:
        s = f"{rng.randint(0, 9999)}.{rng.randint(0, 9999)}"
    elif style == 2:
        n = rng.randint(1, 40 if bits == 53 else 25)
        s = "".join(rng.choice("0123456789") for _ in range(n))
        k = rng.randint(0, n)
        s = s[:k] + "." + s[k:]
    elif style == 3:
        s = str(rng.randint(1, 9)) + "." + "".join(
            rng.choice("0123456789") for _ in range(rng.randint(1, 20))) + \
            rng.choice("eE") + rng.choice(["", "+", "-"]) + \
            str(rng.randint(0, top - 2))
    elif style == 4:
        # exactly between two neighbours, or next to it
        e = rng.randint(-20, 30)
        m = (1 << (bits - 1)) + rng.randrange(1 << (bits - 1))
        s = exact_decimal(2 * m + 1, e)
        r = rng.random()
        if r < 0.3:
            s = s + ("" if "." in s else ".") + "0" * rng.randint(0, 40) + "1"
        elif r < 0.6:
            s = below(s)
    elif style == 8:
        # the same far away from the ends of doubles, and next to them
        lo, hi = (-149, 103) if bits == 24 else (-1074, 970)
        e = rng.choice([rng.randint(lo, hi), rng.randint(lo, lo + 5),
                        rng.randint(hi - 5, hi)]) if rng.random() < 0.3 else \
            rng.randint(-60, 60)
        m = rng.choice([(1 << bits) - 1, 1 << (bits - 1),
                        (1 << (bits - 1)) + rng.randrange(1 << (bits - 1))])
        if e == lo:         # no normal number has this exponent
            m = rng.randrange(1, 1 << rng.randint(1, bits - 1))
        if e == hi:
            m = min(m, (1 << bits) - 2)
        s = exact_decimal(2 * m + 1, e - 1)
        if rng.random() < 0.5:
            s = below(s) if rng.random() < 0.5 and m else \
                s + ("" if "." in s else ".") + "01"
    elif style in (9, 10):
        # zeros on one side and an exponent which takes them back
        z = rng.choice([0, 1, 5, 20, 39, 60, 64, 310, 330, 400])
        d = str(rng.randint(1, 10 ** rng.randint(1, 18)))
        k = rng.randint(-8, 8)
        if style == 9:
            s, k = d + "0" * z, k - z
        else:
            s, k = "0." + "0" * z + d, k + z
        s += rng.choice("eE") + ("-" if k < 0 else rng.choice(["", "+"])) + \
            "0" * rng.choice([0, 0, 1, 3, 70]) + str(abs(k))
    elif style == 5:
        # long numerals, around the length of buffers
        n = rng.choice([20, 30, 60, 62, 63, 64, 65, 66, 100, 127, 128, 129,
                        200, 300, 500])
        ip = rng.randint(0, min(n - 2, 30))
        d = "".join(rng.choice("0123456789") for _ in range(n))
        s = d[:ip] + "." + d[ip:n - 1]
    elif style == 6:
        # leading or trailing zeros
        s = "0" * rng.randint(0, 60) + str(rng.randint(0, 999)) + \
            rng.choice(["", ".", "." + "0" * rng.randint(1, 60)])
    elif style == 7:
        s = rng.choice(["0", "0.0", "-0", ".0", "0.", "1", "9007199254740993",
                        "16777217", "9007199254740992", "16777216",
                        "0.1", "0.2", "0.3", "1e22", "1e23", "123456789",
                        "8388609.5", "4503599627370497.5", "1e0", "1E10",
                        "2.2250738585072014e-308" if bits == 53
                        else "1.17549435e-38",
                        "4.9406564584124654e-324" if bits == 53
                        else "1.4e-45",
                        "2.2250738585072011e-308" if bits == 53
                        else "1.17549428e-38",
                        "1.7976931348623157e308" if bits == 53
                        else "3.4028234e38"])
    if s.startswith("-"):
        sign = ""
    return bts(sign + s)


def exact_decimal(m, e):
    """m * 2**e as a decimal"""
    if e >= 0:
        return str(m << e)
    s = str(m * 5 ** (-e)).rjust(-e + 1, "0")
    return s[:e] + "." + s[e:]


def below(s):
    """a decimal a little less than s (which is positive)"""
    if "." not in s:
        return str(int(s) - 1) + ".9999"
    ip, fp = s.split(".")
    n = int(ip + fp) - 1
    t = str(n).rjust(len(fp) + 1, "0")
    return t[:-len(fp)] + "." + t[-len(fp):] + "9" * 5


WORDS = ["a", "b", "x", "xy", "foo", "hello", "word", "q", "A", "z"]


def str_text(rng):
    return bts(pick(rng, [(6, rng.choice(WORDS)), (2, str(rng.randint(-20, 20))),
                          (1, ""), (1, rng.choice(WORDS) * 3),
                          (1, "\xe4\xff"), (1, "1.5")]))


def text_for(rng, name, p_bad=0.2):
    """text for a type of the catalogue"""
    t = TYPES[name]
    if t.kind == "int":
        return int_text(rng, t, p_bad)
    if t.kind == "flt":
        return flt_text(rng, t.bits, p_bad)
    if t.kind == "char":
        return bts(rng.choice("xyzABdmn1-\xff\xe4~ ")) if rng.random() >= p_bad \
            else bts(rng.choice(["", "ab", "xx", "1234", "\xff\xff"]))
    if t.kind == "bool":
        return bts(rng.choice(["1", "0", "true", "false"])) \
            if rng.random() >= p_bad else \
            bts(rng.choice(["", "2", "00", "01", "10", "True", "FALSE", "tru",
                            "true ", " true", "truee", "f", "t", "falsee",
                            "yes", "11"]))
    if t.kind in ("str", "void"):
        return str_text(rng)
    if t.kind == "enum":
        return bts(rng.choice(t.names)) if rng.random() >= p_bad else \
            bts(rng.choice(["", "circl", "circlee", "squar", "s", "none"]))
    if t.kind == "opt":
        return text_for(rng, t.of, 0.5) if rng.random() < 0.8 else str_text(rng)
    if t.kind == "var":
        return text_for(rng, rng.choice(t.of), p_bad) if rng.random() < 0.85 \
            else str_text(rng)
    # restrictions
    of = TYPES[t.of]
    r = rng.random()
    if r < p_bad / 2:
        return text_for(rng, t.of, 1.0)
    if of.kind == "int":
        if r < 0.25:
            return int_text(rng, of, 0)
        base = rng.choice([int(a) for a in t.args] or [0])
        v = base + rng.choice([0, 0, 1, -1, 2, -2, 3, 10])
        if not of.lo <= v <= of.hi:
            v = base
        return bts(str(v))
    if of.kind == "flt":
        a = rng.choice(t.args)
        return bts(rng.choice([str(a), f"{a}.0", f"{a}.5", f"{a}.0001",
                               f"{a - 1}.9999" if a > 0 else f"{a}.25",
                               f"-{abs(a)}.0001", f"-{abs(a)}", "0", "-0",
                               f"{abs(a) - 1}.9999", f"-{abs(a) - 1}.9999",
                               f"{a}e0", f"{a + 1}", f"{a - 1}"]))
    if of.kind == "char":
        a = ord(rng.choice(t.args))
        return bytes([rng.choice([a, a + 1, a - 1, 120, 255, 200, 65])])
    if of.kind == "bool":
        return bts(rng.choice(["1", "0", "true", "false"]))
    return bts(rng.choice(["", "a", "ab", "abc", "abcd", "abcde", " ", "0"]))


# --------------------------------------------------------------------------
# rows and documents


def kindred(rng, n=4):
    """delimiters which are nearly the same"""
    size = pick(rng, [(1, 1), (2, 2), (3, 3), (rng.randint(4, 14), 2),
                      (rng.randint(15, 34), 2)])
    first = bytes(rng.choice(b";:|-=>") for _ in range(size))
    out = [first]
    while len(out) < n:
        d = bytearray(rng.choice(out))
        k = rng.randrange(len(d) + 1)
        how = rng.random()
        if how < 0.6 and k < len(d):
            d[k] = rng.choice(b";:|-=>")
        elif how < 0.75:
            d.insert(k, rng.choice(b";:|-=>"))
        elif how < 0.9 and len(d) > 1 and k < len(d):
            del d[k]
        else:
            d.reverse()
        out.append(bytes(d))
    return out


class Doc:
    """texts for a setup and a delimiter"""

    def __init__(self, rng, setup, delim=b","):
        self.rng, self.D = rng, bts(delim)
        self.S = SETUPS[setup]
        self.q, self.e = bts(self.S.q), bts(self.S.e)
        self.tl, self.tr = bts(self.S.tl), bts(self.S.tr)
        self.ml = self.S.ml is not None

    def special(self):
        return self.q + self.e + self.tl + self.tr + self.D

    def alphabet(self, eol=False):
        return chars(bytes(dict.fromkeys(self.special() + b"ab1"))) + \
            ([b"\n", b"\r\n", b"\r"] if eol else [])

    def wild(self, n, eol=False):
        """random text made of special characters"""
        rng = self.rng
        ab = self.alphabet(eol)
        heavy = chars(self.q * 3 + self.e * 2 + self.tl + self.tr) + \
            [self.D] * 2
        return b"".join(rng.choice(heavy) if rng.random() < 0.5 and heavy
                        else rng.choice(ab) for _ in range(n))

    def encode(self, value, force=None):
        """a field which is read as value, if the setup has a way to write it
        (otherwise the value itself)"""
        rng = self.rng
        need = any(bytes([c]) in value for c in
                   self.q + self.e + self.tl + self.tr) or \
            (self.D and self.D in value) or b"\n" in value or b"\r" in value \
            or (self.D and value.endswith(self.D[:1]))
        ways = []
        if self.q:
            ways.append("quote")
        if self.e and not b"\r\n" in value:
            ways.append("escape")
        if not need:
            ways += ["plain", "plain"]
        if not ways:
            return value
        way = force if force in ways else rng.choice(ways)
        lone = lambda v: v
        if way == "quote":
            out = b""
            qc = bytes([rng.choice(self.q)])
            for c in value:
                b = bytes([c])
                if b in chars(self.q):
                    out += (bytes([rng.choice(self.e)]) + b
                            if self.e and rng.random() < 0.5 else b + b)
                elif b in chars(self.e):
                    out += bytes([rng.choice(self.e)]) + b
                elif self.e and rng.random() < 0.05 and c not in b"\r\n":
                    out += bytes([rng.choice(self.e)]) + b
                else:
                    out += b
            f = qc + out + qc
        elif way == "escape":
            f = b""
            for c in value:
                b = bytes([c])
                if c in self.special() + b"\r\n" or rng.random() < 0.1:
                    f += bytes([rng.choice(self.e)])
                f += b
        else:
            f = value
        if self.tl and rng.random() < 0.3 and not (way == "plain" and not f):
            f = bytes([rng.choice(self.tl)]) * rng.randint(1, 3) + f
        if self.tr and rng.random() < 0.3:
            f = f + bytes([rng.choice(self.tr)]) * rng.randint(1, 3)
        return lone(f)

    def value(self, eol=None):
        """value of a field, with special characters; eol: line ending to use
        if the value may have more than one line"""
        rng = self.rng
        r = rng.random()
        if r < 0.5:
            v = str_text(rng)
        else:
            v = self.wild(rng.randint(0, 6))
        if eol and rng.random() < 0.4:
            k = rng.randint(0, len(v))
            v = v[:k] + eol * rng.randint(1, 3) + v[k:]
        if not (self.q or self.e):
            for c in self.D[:1] + self.tl + self.tr:
                v = v.replace(bytes([c]), b"")
        return v

    def bad_field(self, eol=None):
        """something malformed, or close to it"""
        rng = self.rng
        opts = [self.wild(rng.randint(1, 5))]
        if self.q:
            q = bytes([rng.choice(self.q)])
            opts += [q + b"a" + q + b"b", q + b"a", q, q + q + q, b"a" + q,
                     q + b"a" + q + b" " + q, q + b"a" + q + q,
                     q + b"a" + q + self.tr + b"x",
                     q + self.wild(3), q + b"x" + q + self.D[:1] + b"y"]
        if self.e:
            e = bytes([rng.choice(self.e)])
            opts += [e, b"a" + e, e + e + e, b"a" + e * 5]
            if self.q:
                opts += [q + b"a" + e, q + e + q, q + b"a" + q + e + b"b",
                         q + b"a" + q + e]
        return rng.choice(opts)

    def line(self, cols, p_bad=0.1, eol=None):
        rng = self.rng
        fs = []
        for _ in range(cols):
            if rng.random() < p_bad:
                fs.append(self.bad_field(eol))
            else:
                fs.append(self.encode(self.value(eol if self.ml else None)))
        return self.D.join(fs)

    def doc(self, rows, cols=(1, 4), p_bad=0.1, p_blank=0.1, p_wild=0.1,
            final=None, eols=None):
        """a document; cols: range of numbers of columns"""
        rng = self.rng
        eols = eols or rng.choice([[b"\n"], [b"\r\n"], [b"\n", b"\r\n"],
                                   [b"\n"], [b"\n", b"\r\n", b"\r\n"]])
        out = b""
        for k in range(rows):
            while rng.random() < p_blank:
                out += rng.choice(eols)
            eol = rng.choice(eols)
            if rng.random() < p_wild:
                text = self.wild(rng.randint(1, 12), eol=self.ml)
            else:
                text = self.line(rng.randint(*cols), p_bad, eol)
            out += text
            last = k == rows - 1
            if not last or (final if final is not None
                            else rng.random() < 0.6):
                out += eol
        while rng.random() < p_blank:
            out += rng.choice(eols)
        return out

    def typed_line(self, types, p_bad=0.1, p_cols=0.1, p_mal=0.05):
        rng = self.rng
        vs = [text_for(rng, t, p_bad) for t in types]
        vs = [v.replace(b"\n", b"").replace(b"\r", b"") for v in vs]
        vs = [v.replace(b"\x00", b"") for v in vs]
        r = rng.random()
        if r < p_cols / 2 and len(vs) > 1:
            del vs[rng.randrange(len(vs))]
        elif r < p_cols:
            vs.insert(rng.randint(0, len(vs)), str_text(rng))
        fs = [self.encode(v) for v in vs]
        if rng.random() < p_mal:
            fs[rng.randrange(len(fs))] = self.bad_field()
        return self.D.join(fs)

    def typed_doc(self, lists, rows, header=None, p_bad=0.1, p_cols=0.1,
                  p_blank=0.05, p_mal=0.05):
        """rows for lists of types (names of the catalogue)"""
        rng = self.rng
        eols = rng.choice([[b"\n"], [b"\r\n"], [b"\n", b"\r\n"]])
        ls = []
        if header is not None:
            ls.append(header)
        for _ in range(rows):
            while rng.random() < p_blank:
                ls.append(b"")
            ls.append(self.typed_line(LISTS[rng.choice(lists)].types, p_bad,
                                      p_cols, p_mal))
        out = b""
        for k, x in enumerate(ls):
            out += x
            if k < len(ls) - 1 or rng.random() < 0.5:
                out += rng.choice(eols)
        return out


# lengths at which buffers grow
EDGES = [1, 2, 3, 15, 16, 17, 30, 31, 32, 33, 60, 61, 62, 63, 64, 65, 66, 117,
         118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131,
         190, 191, 192, 238, 239, 240, 241, 242, 250, 251, 252, 253, 254, 255,
         256, 257, 258, 259, 260, 383, 384, 385, 510, 511, 512, 513, 514, 1022,
         1023, 1024, 1025, 1026, 2047, 2048, 2049, 4094, 4095, 4096, 4097,
         4098]


def edge_length(rng, top=600):
    n = rng.choice([x for x in EDGES if x <= top])
    return n if rng.random() < 0.7 else rng.randint(1, top)


# --------------------------------------------------------------------------
# call sequences


class Cap:
    """what a harness is built with, for one setup and error mode"""

    def __init__(self, setup, em, gets=(), loops=(), chains=(), probe=False,
                 fields=(b"a", b"b", b"c")):
        self.setup, self.em = setup, em
        self.gets, self.loops = list(gets), list(loops)
        self.chains = list(chains) if em != "t" else []
        self.probe = probe and em != "t"
        self.header = not SETUPS[setup].ih
        self.fields = list(fields)


CALLS = {"get": 10, "loop": 1.5, "chain": 3, "probe": 3, "ignore": 1.5,
         "raw": 0.7, "hdr": 0.7, "fexists": 1, "use": 1.5, "query": 0.5,
         "move": 1}


def call(rng, sc, i, cap, weights=None):
    """adds a random call on parser i"""
    w = dict(CALLS)
    w.update(weights or {})
    if not cap.gets:
        w["get"] = 0
    if not cap.loops:
        w["loop"] = 0
    if not cap.chains:
        w["chain"] = 0
    if not cap.probe:
        w["probe"] = 0
    if not cap.header:
        for k in ("raw", "hdr", "fexists", "use"):
            w[k] = 0
    k = pick(rng, [(v, n) for n, v in w.items() if v > 0])
    if k == "get":
        sc.get(i, rng.choice(cap.gets))
    elif k == "loop":
        x = rng.choice(cap.loops)
        if rng.random() < 0.3:
            sc.loopwith(i, x, rng.choice([0, 1, 2, 3, 50]),
                        rng.choice(["", rng.choice(cap.gets)]))
            return
        sc.loop(i, x, rng.choice([0, 1, 1, 2, 3, 50]),
                rng.randrange(5 if "sv" in LISTS[x].types else 6))
    elif k == "probe":
        sc.chain(i, "probe")
    elif k == "chain":
        chain(rng, sc, i, rng.choice(cap.chains))
    elif k == "fexists":
        sc.fexists(i, rng.choice(cap.fields + [b"", b"nope"]))
    elif k == "use":
        n = pick(rng, [(0.3, 0), (3, 1), (3, 2), (2, 3), (0.3, 4)])
        fs = [rng.choice(cap.fields) for _ in range(n)]
        if rng.random() < 0.7:
            fs = list(dict.fromkeys(fs))
        if rng.random() < 0.1 and fs:
            fs[rng.randrange(len(fs))] = b"nope"
        sc.use(i, fs)
    elif k == "ignore":
        sc.ignore(i)
    elif k == "raw":
        sc.raw(i)
    elif k == "hdr":
        sc.hdr(i)
    elif k == "query":
        sc.query(i)
    else:
        sc.move(i)
    return k


def chain(rng, sc, i, name, p_true=0.6):
    n = len(CHAINS[name][1])
    sc.chain(i, name, rng.randrange(len(CBKINDS)),
             [rng.random() < p_true for _ in range(n)],
             [rng.random() < 0.7 for _ in range(n)])


def ids(prefix):
    n = 0
    while True:
        n += 1
        yield f"{prefix}{n}"


def start(rng, sid, cap, data, delim=b",", src=None):
    sc = Scenario(sid, f"{cap.setup}/{cap.em}")
    i = sc.new(cap.setup, cap.em, data, src or rng.choice(["buffer", "file"]),
               delim)
    return sc, i
