"""The catalogue shared by specification and harness: setups, types, lists of
types and chains.  Run as a program it writes spec/Catalog.tla and
harness/catalog.hpp."""
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# --------------------------------------------------------------------------
# setups


class Setup:
    def __init__(self, name, q="", e="", tl="", tr="", ml=None, ie=False,
                 ih=False, opts=None):
        self.name, self.q, self.e, self.tl, self.tr = name, q, e, tl, tr
        self.ml, self.ie, self.ih = ml, ie, ih
        self.opts = opts

    @property
    def trim(self):
        return self.tl or self.tr

    def cpp(self, em):
        """the option list of the setup in error mode em"""
        lit = lambda cs: ", ".join(
            "'\\''" if c == "'" else "'\\\\'" if c == "\\" else
            "'\\t'" if c == "\t" else f"'{c}'" if " " <= c <= "~" else
            f"'\\x{ord(c):02x}'" for c in cs)
        o = []
        if self.q:
            o.append(f"ss::quote<{lit(self.q)}>")
        if self.e:
            o.append(f"ss::escape<{lit(self.e)}>")
        if self.tl and self.tl == self.tr:
            o.append(f"ss::trim<{lit(self.tl)}>")
        else:
            if self.tl:
                o.append(f"ss::trim_left<{lit(self.tl)}>")
            if self.tr:
                o.append(f"ss::trim_right<{lit(self.tr)}>")
        if self.ml is not None:
            o.append("ss::multiline" if self.ml == 0
                     else f"ss::multiline_restricted<{self.ml}>")
        if self.ie:
            o.append("ss::ignore_empty")
        if self.ih:
            o.append("ss::ignore_header")
        o += {"b": [], "s": ["ss::string_error"],
              "t": ["ss::throw_on_error"]}[em]
        if self.opts == "reversed":
            o.reverse()
        elif self.opts == "rotated":
            o = o[len(o) // 2:] + o[:len(o) // 2]
        elif self.opts == "nested":
            o = [f"ss::setup<{', '.join(o)}>"]
        elif self.opts == "nested2":
            o = [f"ss::setup<ss::setup<{', '.join(reversed(o))}>>"]
        return ", ".join(o)

    def tla(self):
        st = lambda cs: "{" + ", ".join(str(ord(c)) for c in cs) + "}"
        b = lambda x: "TRUE" if x else "FALSE"
        return (f"[q |-> {st(self.q)}, e |-> {st(self.e)}, "
                f"tl |-> {st(self.tl)}, tr |-> {st(self.tr)}, "
                f"ml |-> {b(self.ml is not None)}, lim |-> {self.ml or 0}, "
                f"ie |-> {b(self.ie)}, ih |-> {b(self.ih)}]")


_S = [
    Setup("n"),
    Setup("q", q='"'),
    Setup("e", e="\\"),
    Setup("qe", q='"', e="\\"),
    Setup("t", tl=" ", tr=" "),
    Setup("qt", q='"', tl=" ", tr=" "),
    Setup("et", e="\\", tl=" ", tr=" "),
    Setup("qet", q='"', e="\\", tl=" ", tr=" "),
    Setup("qetl", q='"', e="\\", tl=" "),
    Setup("qetr", q='"', e="\\", tr=" "),
    Setup("qelr", q='"', e="\\", tl="_", tr=" "),
    Setup("qe2t2", q="'", e="\\^", tl=" \t", tr=" \t"),
    # characters which are negative, or control characters
    Setup("qx", q="\xe9", e="\xff\x01", tl="\xa0\x80", tr="\xa0\x80"),
    Setup("qxm", q="\xff", e="\x80", tl="\x02", tr="\xc2", ml=0, ie=True),
    Setup("tl", tl="_ "),
    Setup("tr", tr="_ "),
    Setup("qm", q='"', ml=0),
    Setup("em", e="\\", ml=0),
    Setup("qem", q='"', e="\\", ml=0),
    Setup("qetm", q='"', e="\\", tl=" ", tr=" ", ml=0),
    Setup("qe2m", q="'", e="\\^", ml=0),
    Setup("qm1", q='"', ml=1),
    Setup("qem1", q='"', e="\\", ml=1),
    Setup("qem2", q='"', e="\\", ml=2),
    Setup("qm3", q='"', ml=3),
    Setup("em3", e="\\", ml=3),
    Setup("qetm3", q='"', e="\\", tl=" ", tr=" ", ml=3),
    Setup("qem5", q='"', e="\\", ml=5),
    Setup("qem260", q='"', e="\\", ml=260),
    Setup("ie", ie=True),
    Setup("ih", ih=True),
    Setup("ieih", ie=True, ih=True),
    Setup("qetie", q='"', e="\\", tl=" ", tr=" ", ie=True),
    Setup("qemie", q='"', e="\\", ml=0, ie=True),
    Setup("qetmie", q='"', e="\\", tl=" ", tr=" ", ml=0, ie=True),
    Setup("qem2ie", q='"', e="\\", ml=2, ie=True),
    Setup("qemih", q='"', e="\\", ml=0, ih=True),
    Setup("qemieih", q='"', e="\\", ml=0, ie=True, ih=True),
    # the same as others, options given in other ways
    Setup("qetm_r", q='"', e="\\", tl=" ", tr=" ", ml=0, opts="reversed"),
    Setup("qetm_n", q='"', e="\\", tl=" ", tr=" ", ml=0, opts="nested"),
    Setup("qem2ie_r", q='"', e="\\", ml=2, ie=True, opts="rotated"),
    Setup("qem2ie_n", q='"', e="\\", ml=2, ie=True, opts="nested2"),
    Setup("qelr_r", q='"', e="\\", tl="_", tr=" ", opts="reversed"),
    Setup("qelr_n", q='"', e="\\", tl="_", tr=" ", opts="nested"),
    Setup("qemieih_r", q='"', e="\\", ml=0, ie=True, ih=True, opts="rotated"),
    Setup("qemieih_n", q='"', e="\\", ml=0, ie=True, ih=True, opts="nested"),
]
SETUPS = {s.name: s for s in _S}

# --------------------------------------------------------------------------
# types


class Type:
    def __init__(self, cpp, tla, kind, **kw):
        self.cpp, self.tla, self.kind = cpp, tla, kind
        self.__dict__.update(kw)


def digits(n):
    n = abs(n)
    return "<<" + ", ".join(str(ord(c)) for c in (str(n) if n else "")) + ">>"


def text(s):
    return "<<" + ", ".join(str(b) for b in s.encode()) + ">>"


def integer(cpp, bits, signed):
    lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed \
        else (0, (1 << bits) - 1)
    return Type(cpp, f'[k |-> "int", sg |-> {"TRUE" if signed else "FALSE"}, '
                f'min |-> {digits(lo)}, max |-> {digits(hi)}]', "int",
                lo=lo, hi=hi, signed=signed)


TYPES = {
    "i16": integer("short", 16, True),
    "u16": integer("unsigned short", 16, False),
    "i32": integer("int", 32, True),
    "u32": integer("unsigned int", 32, False),
    "i64": integer("long", 64, True),
    "u64": integer("unsigned long", 64, False),
    "ill": integer("long long", 64, True),
    "ull": integer("unsigned long long", 64, False),
    "i8": integer("ss::int8", 8, True),
    "u8": integer("ss::uint8", 8, False),
    "c": Type("char", '[k |-> "char"]', "char"),
    "c8": Type("int8_t", '[k |-> "char"]', "char"),
    "uc8": Type("uint8_t", '[k |-> "char"]', "char"),
    "b": Type("bool", '[k |-> "bool"]', "bool"),
    "s": Type("std::string", '[k |-> "str"]', "str"),
    "sv": Type("std::string_view", '[k |-> "str"]', "str"),
    "f32": Type("float", '[k |-> "flt"]', "flt", bits=24),
    "f64": Type("double", '[k |-> "flt"]', "flt", bits=53),
    "shape": Type("vf::shape", '[k |-> "enum", names |-> <<%s>>]' % ", ".join(
        text(x) for x in ("circle", "square", "sq")), "enum",
        names=("circle", "square", "sq")),
    "void": Type("void", '[k |-> "void"]', "void"),
}


def opt(n):
    t = TYPES[n]
    TYPES["o_" + n] = Type(f"std::optional<{t.cpp}>",
                           f'[k |-> "opt", of |-> {t.tla}]', "opt", of=n)


def var(*ns):
    TYPES["v_" + "_".join(ns)] = Type(
        "std::variant<%s>" % ", ".join(TYPES[n].cpp for n in ns),
        '[k |-> "var", of |-> <<%s>>]' % ", ".join(TYPES[n].tla for n in ns),
        "var", of=ns)


def restrict(name, k, of, *args):
    """ax, nx, gt, ... of a type; characters may be given as arguments"""
    t = TYPES[of]
    lit = lambda a: f"'{a}'" if isinstance(a, str) else \
        ("true" if a else "false") if isinstance(a, bool) else \
        f"{a}" + ("ul" if a > 2 ** 31 - 1 else "l" if a < -2 ** 31 else "")
    wide = any(not isinstance(a, (str, bool)) and abs(a) >= 2 ** 30
               for a in args)
    num = lambda a: text(str(a)) if wide else \
        str(ord(a)) if isinstance(a, str) else str(int(a))
    cpp = {"even": "vf::even", "short": "vf::short_text"}.get(k) or \
        f"ss::{k}<" + ", ".join([t.cpp] + [lit(a) for a in args]) + ">"
    TYPES[name] = Type(cpp, f'[k |-> "{k}", of |-> {t.tla}, ' +
                       ("wide |-> TRUE, " if wide else "") + "args |-> <<%s>>]" %
                       ", ".join(num(a) for a in args), "restr", of=of,
                       rk=k, args=args)


for _n in ("i32", "s", "c", "b", "f64", "i8", "u64", "shape"):
    opt(_n)
var("i32", "f64", "s")
var("b", "c", "i32")
var("u8", "i8", "i16", "s")
var("c", "s")
var("f64", "i32")
var("i32", "b")
var("shape", "u32")
TYPES["v_o"] = Type("std::variant<int, std::optional<char>, std::string>",
                    '[k |-> "var", of |-> <<%s, %s, %s>>]' % tuple(
                        TYPES[t].tla for t in ("i32", "o_c", "s")), "var",
                    of=("i32", "o_c", "s"))

restrict("ax_i", "ax", "i32", 1, 5, -3)
restrict("ax_i1", "ax", "i32", 7)
restrict("ax_c", "ax", "c", "x", "y")
restrict("nx_i", "nx", "i32", 1, 5, -3)
restrict("nx_c", "nx", "c", "A", "B", "z")
restrict("nx_b", "nx", "b", True)
restrict("gt_i", "gt", "i32", 10)
restrict("gte_i", "gte", "i32", 10)
restrict("lt_i", "lt", "i32", -10)
restrict("lte_i", "lte", "i32", -10)
restrict("ir_i", "ir", "i32", -2, 7)
restrict("oor_i", "oor", "i32", -2, 7)
restrict("gt_u8", "gt", "u8", 100)
restrict("lte_i8", "lte", "i8", -100)
restrict("ir_i64", "ir", "i64", -5, 5)
restrict("gt_u64", "gt", "u64", 10 ** 10)
restrict("lte_u64", "lte", "u64", 2 ** 63)
restrict("ir_ull", "ir", "ull", 2 ** 32 - 1, 2 ** 63 + 5)
restrict("oor_i64b", "oor", "i64", -10 ** 10, -5)
restrict("gte_ill", "gte", "ill", -2 ** 40)
restrict("ax_i64", "ax", "i64", -2 ** 33, 0, -1, 7)
restrict("nx_u32", "nx", "u32", 3, 2 ** 32 - 1, 2 ** 31)
restrict("lt_u32", "lt", "u32", 3 * 10 ** 9)
restrict("gt_i16", "gt", "i16", -300)
restrict("oor_u16", "oor", "u16", 255, 40000)
restrict("ir_c", "ir", "c", "d", "m")
restrict("oor_c", "oor", "c", "d", "m")
restrict("gt_f", "gt", "f64", 2)
restrict("gte_f", "gte", "f64", 2)
restrict("lt_f", "lt", "f64", -3)
restrict("lte_f", "lte", "f64", -3)
restrict("ir_f", "ir", "f64", -1, 1)
restrict("oor_f", "oor", "f32", -1, 1)
restrict("ax_f", "ax", "f64", 1, 2)
restrict("nx_f", "nx", "f64", 1, 2)
restrict("ne_s", "ne", "s")
restrict("ne_sv", "ne", "sv")
restrict("even", "even", "i32")
restrict("short", "short", "s")

# --------------------------------------------------------------------------
# lists of types: name -> (group, form, types); form: how it is asked for


class TypeList:
    def __init__(self, name, group, form, types):
        self.name, self.group, self.form, self.types = name, group, form, types

    def cpp(self):
        cs = ", ".join(TYPES[t].cpp for t in self.types)
        vs = ", ".join(TYPES[TYPES[t].of].cpp if TYPES[t].kind == "restr"
                       else TYPES[t].cpp
                       for t in self.types if t != "void")
        if self.form == "plain":
            return f"vf::Plain<{cs}>"
        if self.form == "tuple":
            return f"vf::Plain<std::tuple<{cs}>>"
        if self.form == "tied":
            return f"vf::Plain<vf::Tied<{cs}>>"
        if self.form == "obj":       # constructor
            return f"vf::Object<vf::Obj<{vs}>, {cs}>"
        if self.form == "objtied":   # object with tied method, types given
            return f"vf::Object<vf::Tied<{vs}>, {cs}>"
        if self.form == "objtuple":  # types given as a tuple
            return f"vf::Object<vf::Obj<{vs}>, std::tuple<{cs}>>"
        raise ValueError(self.form)

    def tla(self):
        return "<<" + ", ".join(TYPES[t].tla for t in self.types) + ">>"


LISTS = {}


def tl(name, group, types, form="plain"):
    LISTS[name] = TypeList(name, group, form, types.split())


for _i in range(1, 8):
    tl(f"S{_i}", "str", " ".join(["s"] * _i))
for _i in range(1, 4):
    tl(f"V{_i}", "view", " ".join(["sv"] * _i))
tl("V6", "view", "sv sv sv sv sv sv")

for _n, _t in TYPES.items():
    if _t.kind in ("int", "char", "bool", "enum", "opt", "var") or _n == "sv":
        tl("t_" + _n, "conv", _n)
    elif _t.kind == "flt":
        tl("t_" + _n, "flt", _n)
    elif _t.kind == "restr":
        tl("t_" + _n, "restr", _n)

# mixed lists
tl("is", "mix", "i32 s")
tl("si", "mix", "s i32")
tl("isc", "mix", "i32 s c")
tl("isf", "mix", "i32 s f64")
tl("ooo", "mix", "o_i32 o_s o_b")
tl("iob", "mix", "i32 o_i32 b")
tl("vsi", "mix", "v_i32_f64_s v_c_s i32")
tl("iiiii", "mix", "i32 i32 i32 i32 i32")
tl("ccc", "mix", "c c c")

# shapes
tl("vi", "shape", "void i32")
tl("iv", "shape", "i32 void")
tl("vsv", "shape", "void s void")
tl("ivs", "shape", "i32 void s")
tl("svvc", "shape", "s void void c")
tl("vvs", "shape", "void void s")
tl("vivsv", "shape", "void i32 void s void")
tl("vsss", "shape", "void s s s")
tl("svsi", "shape", "s void s i32")
tl("tup_is", "shape", "i32 s", "tuple")
tl("tup_s", "shape", "s", "tuple")
tl("tup_ivs", "shape", "i32 void s", "tuple")
tl("tied_isc", "shape", "i32 s c", "tied")
tl("tied_si", "shape", "s i32", "tied")
tl("obj_is", "shape", "i32 s", "obj")
tl("obj_isc", "shape", "i32 s c", "obj")
tl("obj_ivs", "shape", "i32 void s", "obj")
tl("obj_s", "shape", "s", "obj")
tl("obj_i", "shape", "i32", "obj")
tl("objtied_isc", "shape", "i32 s c", "objtied")
tl("objtup_is", "shape", "i32 s", "objtuple")

# more types than a digit, a byte or a word of bits counts
tl("w12", "wide", "i32 s c b f64 i32 void s i32 s u8 i64")
tl("w36", "wide", " ".join(["i32 s void c", "s i32 void u8", "b s s o_i32"] * 3))
tl("S36", "wide", " ".join(["s"] * 36))
tl("S12", "wide", " ".join(["s"] * 12))
tl("obj_12", "wide", "i32 s i32 s i32 s i32 s i32 s i32 s", "obj")

# restrictions in lists
tl("r_mix", "rmix", "ir_i ne_s ax_c")
tl("r_mix2", "rmix", "s gt_i void lte_i")
tl("r_user", "rmix", "even short")
tl("r_user2", "rmix", "short void even i32")
tl("r_obj", "rmix", "gte_i ne_s", "obj")
tl("r_tup", "rmix", "nx_i s", "tuple")

# --------------------------------------------------------------------------
# chains: name -> (group, lists)
CHAINS = {
    "probe": ("str", ["S1", "S2", "S3", "S4", "S5", "S6", "S7"]),
    "c_is_s2": ("chain", ["is", "S2"]),
    "c_i_is_isc": ("chain", ["t_i32", "is", "isc"]),
    "c_ic_f_s": ("chain", ["t_i32", "t_f64", "S1"]),
    "c_obj": ("chain", ["obj_is", "si", "obj_isc", "S3"]),
    "c_r": ("chain", ["t_gte_i", "t_even", "t_c"]),
    "c_tied": ("chain", ["tied_isc", "tup_is", "svvc", "S2"]),
    "c_one": ("chain", ["is"]),
}
# static kinds of callbacks: none; zero, one or all arguments x void or bool
CBKINDS = ["none", "zv", "ob", "av", "zb", "ov", "ab"]


def cb_kind(chain, variant, i):
    return CBKINDS[(variant + 3 * i) % len(CBKINDS)] if variant >= 0 else "none"


DELIMS = {"comma": b",", "semicolon": b";", "colons": b"::", "aab": b"aab",
          "aba": b"aba"}


def lists_of_group(g):
    return [x for x in LISTS.values() if x.group == g]


def write_if_changed(path, s):
    try:
        if open(path).read() == s:
            return
    except OSError:
        pass
    with open(path, "w") as f:
        f.write(s)


def main():
    o = ["---------------------------- MODULE Catalog ----------------------------",
         "(* generated by vf/catalog.py: the setups and lists of types the harness"
         " is\n   built for *)", "EXTENDS Integers, Sequences", ""]
    o.append("Setups == [")
    o.append(",\n".join(f"  {s.name} |-> {s.tla()}" for s in _S))
    o.append("]\n")
    o.append("Delims == [" + ", ".join(
        f"{n} |-> <<{', '.join(map(str, d))}>>" for n, d in DELIMS.items())
        + "]\n")
    used = sorted({t for x in LISTS.values() for t in x.types},
                  key=list(TYPES).index)
    for t in used:
        o.append(f"T_{t} == {TYPES[t].tla}")
    o.append("\nTypeLists == [")
    o.append(",\n".join(
        f"  {x.name} |-> <<" + ", ".join("T_" + t for t in x.types) + ">>"
        for x in LISTS.values()))
    o.append("]")
    o.append("=" * 72)
    write_if_changed(os.path.join(ROOT, "spec", "Catalog.tla"), "\n".join(o) + "\n")

    h = ["// generated by vf/catalog.py", "#pragma once"]
    groups = {}
    for x in LISTS.values():
        groups.setdefault(x.group, []).append(x)
    h.append("namespace vf {")
    for x in LISTS.values():
        h.append(f"using L_{x.name} = {x.cpp()};")
    h.append("}")
    for g, xs in groups.items():
        h.append(f"#define VF_LISTS_{g}(X) " + " ".join(
            f"X({x.name})" for x in xs))
    cg = {}
    for n, (g, ls) in CHAINS.items():
        cg.setdefault(g, []).append((n, ls))
    for g, cs in cg.items():
        h.append(f"#define VF_CHAINS_{g}(X) " + " ".join(
            f"X({n}, " + ", ".join("L_" + x for x in ls) + ")" for n, ls in cs))
    write_if_changed(os.path.join(ROOT, "harness", "catalog.hpp"), "\n".join(h) + "\n")


if __name__ == "__main__":
    main()
