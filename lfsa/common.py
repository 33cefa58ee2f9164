"""Shared by the checks: loading modules, known names, the report of a check."""
import os
from . import build, ir, flow
from .build import AnalysisBroken

HERE = os.path.dirname(os.path.abspath(__file__))
KNOWN = set(open(os.path.join(HERE, "known.txt")).read().split())
# always seen through, although they have external linkage
SEE_THROUGH = {"lf_critical_section_enter", "lf_critical_section_exit", "lf_is_tag_after_stop_tag"}
_progs = {}


def linkage(bc):
    r = build.run(["/usr/lib/llvm-18/bin/llvm-nm", "--defined-only", bc])
    out = {}
    for l in r.stdout.splitlines():
        p = l.split()
        if len(p) >= 2:
            out[p[-1]] = p[-2]
    return out


def program(config, inline=frozenset(), keep=frozenset(), raw=False):
    """The analysed program of a configuration: internal functions, functions that are not in the table of known
    names, and the functions of `inline` are inlined into their callers, except those of `keep`."""
    k = (config, frozenset(inline), frozenset(keep), raw)
    p = _progs.get(k)
    if p is None:
        bc, files = build.link(config)
        link = linkage(bc)

        def pred(n):
            if raw or n in keep or n == "main":
                return False
            return link.get(n) == "t" or n in inline or n in SEE_THROUGH or n not in KNOWN
        path, files = build.emit(config, pred, "m%d" % len(_progs))
        m = ir.Module(path, config)
        os.unlink(path)
        if not m.funcs:
            raise AnalysisBroken("no function in configuration " + config)
        p = _progs[k] = flow.Program(m)
        p.files = files
    return p


def address_taken(m):
    """functions whose address is used other than by a direct call"""
    out = {}

    def walk(op, where):
        if op[0] == "@" and op[1] in m.funcs:
            out.setdefault(op[1], []).append(where)
        elif op[0] in ("cgep", "agg"):
            for x in op[2] if op[0] == "cgep" else [v for _, v in op[1]]:
                walk(x, where)
    for f in m.funcs.values():
        for i in f.instrs():
            for o in i.ops:
                walk(o, i)
            if i.op == "phi":
                for o, _ in i.x:
                    walk(o, i)
    for g in m.globals.values():
        if g["init"]:
            walk(g["init"], None)
    return out


class Report:
    def __init__(self):
        self.viol = []
        self.counts = {}
        self.analysed = {}
        self.notes = []
        self.samples = []

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def violation(self, key, msg, path=()):
        """key: stable identity (rule, function, construct); msg: diagnosable text"""
        for v in self.viol:
            if v["key"] == key:
                if msg not in v["msg"] and len(v["msg"]) < 4000:
                    v["more"] = v.get("more", 0) + 1
                return
        self.viol.append({"key": key, "msg": msg, "path": list(path)})

    def need(self, what, n, least):
        if n < least:
            raise AnalysisBroken("anchor lost: %s: %d found, at least %d expected" % (what, n, least))


def trace_text(prog, st, n=25):
    out = []
    for dbg, what in st.path(n):
        l = prog.mod.loc(dbg)
        if l:
            out.append("%s:%d in %s() [%s]" % (l[0][0], l[0][1], l[0][2], what))
    return out


def fname(prog, fn):
    return fn.name


def srcfn(ins):
    """source function that contains an instruction (innermost inlined scope)"""
    l = ins.fn.mod.loc(ins.dbg)
    return l[0][2] if l else ins.fn.name
