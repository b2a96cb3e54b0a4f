"""Service descriptions that exercise every construct of the description language in every position, and the code that the
interface generator of the tree writes for them.

The generator is used as the build uses it: to obtain the C source of the stubs, which is then analysed like any other source
of the tree. The corpus is systematic in the constructs (each built-in type, enumerations, external types, strings, structures,
extension, variants, arrays, nesting, imports, several services, events in both forms), as a parameter, as a result, as an event
argument and as a structure member."""
import os
from . import build, engine, ir

SCALARS = ["uint8", "int8", "uint16", "int16", "uint32", "int32", "uint64", "int64", "uint", "int", "long", "ulong", "bool",
           "float", "double"]


class V:
    """a parameter or structure member of a description"""

    def __init__(self, ty, name, arr=False):
        self.ty, self.name, self.arr = ty, name, arr

    def text(self):
        return "%s%s %s" % (self.ty, "[]" if self.arr else "", self.name)


class Variant:
    def __init__(self, name, entries):
        self.name, self.entries = name, entries


class Struct:
    def __init__(self, ns, name, members, extends=None):
        self.ns, self.name, self.members, self.extends = ns, name, members, extends or []

    def text(self):
        o = ["struct %s {" % self.name]
        for e in self.extends:
            o.append("    %s;" % e)
        for m in self.members:
            if isinstance(m, Variant):
                o.append("    variant %s {" % m.name)
                for e in m.entries:
                    o.append("        %s;" % e.text())
                o.append("    }")
            else:
                o.append("    %s;" % m.text())
        return "\n".join(o + ["}"])


class Func:
    def __init__(self, name, params, results, hexid=False):
        self.name, self.params, self.results, self.hexid = name, params, results, hexid


class Event:
    def __init__(self, name, params, form="tuple"):
        self.name, self.params, self.form = name, params, form


class Service:
    def __init__(self, ns, name, sid, members):
        self.ns, self.name, self.sid, self.members = ns, name, sid, members
        for k, m in enumerate(members):
            m.id = (k * 37 + 11) % 251 + 1      # distinct, in no order

    def text(self):
        o = ["service %s (%s) {" % (self.name, self.sid)]
        for m in self.members:
            i = ("0x%x" % m.id) if m.id % 3 == 2 else ("0x%X" % m.id if m.id % 3 == 1 else str(m.id))
            if isinstance(m, Func):
                o.append("    func %s(%s) : (%s) = %s;" % (m.name, ", ".join(p.text() for p in m.params),
                                                          ", ".join(p.text() for p in m.results), i))
            elif m.form == "tuple":
                o.append("    event %s : (%s) = %s; // event" % (m.name, ", ".join(p.text() for p in m.params), i))
            else:
                o.append("    event %s : %s = %s;" % (m.name, m.params[0].ty, i))
        return "\n".join(o + ["}"])


class Corpus:
    """one root description file with what it declares"""

    def __init__(self, tag, ns, head, structs, enums, services, extra_files=None, tail_structs=()):
        self.tag, self.ns, self.services, self.extra = tag, ns, services, extra_files or {}
        self.structs = list(structs)
        t = ["/**\n * generated by the checks\n */", head]
        for e in enums:
            t.append(e)
        for s in structs:
            t.append(s.text())
        for s in services:
            t.append(s.text())
        self.text = "\n\n".join(t) + "\n"


def corpora(tier="quick"):
    out = []
    # every type as parameter, result and event argument, alone, in pairs and as arrays
    ms = []
    en = "enum color {\n    red = 1,\n    green,\n    blue = -3\n}"
    plain = SCALARS + ["string", "color", "intptr_t"]
    for t in plain:
        ms.append(Func("f_" + t, [V(t, "a"), V("uint8", "g"), V(t, "b")], [V(t, "r"), V("uint16", "h"), V(t, "s")]))
        ms.append(Event("e_" + t, [V(t, "a"), V("uint64", "g"), V(t, "b")]))
    for t in SCALARS + ["color", "intptr_t"]:
        ms.append(Func("v_" + t, [V(t, "a", True), V(t, "g"), V(t, "b", True)], [V(t, "r", True), V(t, "h"), V(t, "s", True)]))
        ms.append(Event("w_" + t, [V(t, "a", True), V("string", "g"), V(t, "b", True)]))
    ms.append(Func("nothing", [], []))
    ms.append(Func("only_in", [V("int", "a")], []))
    ms.append(Func("only_out", [], [V("string", "r")]))
    ms.append(Event("empty_tail", [V("int", "n")]))
    out.append(Corpus("types", "corp", "namespace corp\n\ndefine intptr_t from \"stdint.h\"\n", [], [en],
                      [Service("corp", "types", "0xf0", ms)]))
    # structures
    en2 = "enum mood {\n    good,\n    bad = 7\n}"
    ss = []
    ss.append(Struct("shape", "flat", [V(t, "m_" + t) for t in SCALARS] + [V("mood", "m_mood"), V("ptrdiff_t", "m_ext")]))
    ss.append(Struct("shape", "text", [V("string", "one"), V("uint8", "mid"), V("string", "two")]))
    ss.append(Struct("shape", "rows", [V(t, "m_" + t, True) for t in ("uint8", "int16", "uint32", "double")] +
                     [V("uint8", "last")]))
    ss.append(Struct("shape", "moods", [V("mood", "m", True), V("ptrdiff_t", "x", True), V("uint64", "l", True)]))
    ss.append(Struct("shape", "nest", [V("text", "t"), V("flat", "f"), V("rows", "r")]))
    ss.append(Struct("shape", "list", [V("text", "t", True), V("uint16", "tag"), V("rows", "r", True)]))
    ss.append(Struct("shape", "base", [V("uint32", "id"), V("string", "label")]))
    ss.append(Struct("shape", "derived", [V("text", "t"), V("uint8", "bytes", True)], ["base"]))
    ss.append(Struct("shape", "twice", [V("int8", "z")], ["derived"]))
    ss.append(Struct("shape", "either", [Variant("pick", [V("text", "t"), V("derived", "d"), V("string", "s"), V("uint64", "n"),
                                                          V("mood", "m"), V("uint8", "b"), V("double", "f")])]))
    ss.append(Struct("shape", "mixed", [V("uint16", "pre"), Variant("left", [V("string", "a"), V("int", "b")]), V("string", "mid"),
                                        Variant("right", [V("list", "l"), V("uint8", "c")]), V("int64", "post", True)]))
    ss.append(Struct("shape", "choices", [V("either", "e", True), V("mixed", "m")]))
    ms = []
    for s in ss:
        ms.append(Func("p_" + s.name, [V(s.name, "a"), V("uint8", "g"), V(s.name, "b")], [V(s.name, "r"), V("uint16", "h"), V(s.name, "s")]))
        ms.append(Func("q_" + s.name, [V(s.name, "a", True), V("string", "g"), V(s.name, "b", True)],
                       [V(s.name, "r", True), V("uint64", "h"), V(s.name, "s", True)]))
        ms.append(Event("x_" + s.name, [V(s.name, s.name)], "struct"))
        ms.append(Event("y_" + s.name, [V("int", "n"), V(s.name, "a"), V(s.name, "c", True), V("string", "t")]))
    out.append(Corpus("shape", "shape", "namespace shape\n\ndefine ptrdiff_t from \"stddef.h\"\n", ss, [en2],
                      [Service("shape", "kinds", "17", ms)]))
    # imports, several services in one file, only events, only functions, descriptions without namespace
    imp = ("namespace common\n\nenum level {\n    low,\n    high = 9\n}\n\nstruct parent {\n    string name;\n    level lvl;\n}\n\n"
           "struct point {\n    int x;\n    int y;\n}\n")
    late = Struct("multi", "late_child", [V("point", "p", True), V("late_parent", "q")], ["late_parent"])
    late_parent = Struct("multi", "late_parent", [V("parent", "who"), V("uint8", "raw", True)])
    ss = [late_parent, late]
    s1 = Service("multi", "first", "1", [Func("ping", [V("point", "a"), V("level", "l")], [V("parent", "r", True)]),
                                         Func("push", [V("late_child", "a", True)], [])])
    s2 = Service("multi", "second", "254", [Event("moved", [V("point", "to")]), Event("named", [V("parent", "parent")], "struct")])
    c = Corpus("multi", "multi", "import \"common_part\"\nnamespace multi\n", ss, [], [s1, s2], {"common_part.gr": imp})
    c.imported = [Struct("common", "parent", [V("string", "name"), V("level", "lvl")]),
                  Struct("common", "point", [V("int", "x"), V("int", "y")])]
    out.append(c)
    c = Corpus("anon", "anon", "", [Struct("anon", "cell", [V("string", "s"), V("int", "v")])], [],
               [Service("anon", "bare", "2", [Func("set", [V("cell", "c")], [V("cell", "c")]), Event("changed", [V("cell", "c", True)])])])
    out.append(c)
    return out


def write(ctx, c):
    d = os.path.join(ctx.scratch, "corpus-" + c.tag)
    os.makedirs(d, exist_ok=True)
    for n, t in c.extra.items():
        open(os.path.join(d, n), "w").write(t)
    p = os.path.join(d, c.tag + ".gr")
    open(p, "w").write(c.text)
    return p


def tree_files():
    """the descriptions the repository itself ships"""
    out = []
    for r, ds, fs in os.walk(build.REPO):
        ds[:] = [x for x in ds if x not in (".git", "_build", "build")]
        for f in fs:
            if f.endswith(".gr"):
                p = os.path.join(r, f)
                if "service" in open(p, errors="replace").read().replace("/*", " "):
                    out.append(p)
    return sorted(out)


def codec_names(c):
    """the serializers and the functions of the structures"""
    prim = SCALARS + ["string", "string_copy", "string_nocopy", "intptr_t", "ptrdiff_t"]
    out = ["serialize_" + p for p in prim] + ["deserialize_" + p for p in prim]
    for s in c.structs + getattr(c, "imported", []):
        n = "%s_%s" % (s.ns, s.name)
        out += ["serialize_" + n, "deserialize_" + n, n + "_init", n + "_copy", n + "_destroy"]
        for m in s.members:
            if isinstance(m, Variant):
                out.append("%s_%s_clear" % (n, m.name))
                for e in m.entries:
                    out += ["%s_%s_is_%s" % (n, m.name, e.ty), "%s_%s_set_%s" % (n, m.name, e.ty)]
            elif m.arr:
                out += ["%s_%s_add" % (n, m.name), "%s_%s_get" % (n, m.name)]
    return out


class Unit:
    """one generated C file, exported"""

    def __init__(self, corpus, service, side, mod, eff):
        self.corpus, self.service, self.side, self.mod, self.eff = corpus, service, side, mod, eff


def units(ctx, anchors, sides=("client", "server"), tag="g"):
    """the generated code of the corpus; anchors: names kept as functions"""
    out = []
    for c in corpora(ctx.tier):
        d = build.generate(ctx.scratch, write(ctx, c), c.tag)
        for s in c.services:
            for side in sides:
                src = os.path.join(d, "%s_%s_service_%s.c" % (s.ns, s.name, side))
                if not os.path.exists(src):
                    raise build.Rejected("the generator wrote no %s code for service %s" % (side, s.name))
                o = src[:-2] + ".bc"
                if not os.path.exists(o):
                    compile_one(d, src, o)
                out.append((c, s, side, o))
    res = []
    for k, (c, s, side, o) in enumerate(out):
        an = anchors(c, s, side) if callable(anchors) else anchors
        m = ir.Module(build.export([o], an, ctx.scratch, "%s-%d" % (tag, k)))
        res.append(Unit(c, s, side, m, engine.Effects(m, [])))
    ctx.extra["generated_units"] = ["%s/%s_%s" % (u.corpus.tag, u.service.name, u.side) for u in res]
    return res


def compile_one(d, src, o):
    build.run([build.CLANG, "-O0", "-g", "-Xclang", "-disable-O0-optnone", "-fno-discard-value-names", "-w", "-emit-llvm", "-c", src,
               "-o", o, "-I", d, "-I", os.path.join(build.REPO, "include")], error=build.Rejected)


def client_stubs(ctx, monitor):
    """runs an automaton over every function of the generated client code"""
    n = 0
    for u in units(ctx, lambda c, s, side: codec_names(c), ("client",), "stub"):
        fs = [f for f in u.mod.fn.values() if not f.decl and not f.internal]
        n += len(fs)
        ctx.run(lambda f: monitor(u.mod), fs, mod=u.mod, eff=u.eff)
    ctx.need(n > 20, "no generated client functions")
    ctx.extra["generated_client_functions"] = n
