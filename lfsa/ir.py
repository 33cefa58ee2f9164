"""A reader for the textual LLVM IR that build.emit produces: functions, blocks, instructions, types with their x86-64
layout, and the debug metadata that gives field names and source locations."""
import re

NORETURN = {"lf_print_error_and_exit", "lf_print_error_system_failure", "exit", "abort", "__assert_fail", "_exit",
            "pthread_exit"}

_TOK = re.compile(r'''
  (?P<sp>[ \t]+)
 |(?P<loc>%(?:"(?:[^"\\]|\\.)*"|[-\w$.]+))
 |(?P<glob>@(?:"(?:[^"\\]|\\.)*"|[-\w$.]+))
 |(?P<md>!(?:"(?:[^"\\]|\\.)*"|[\w.]+)?)
 |(?P<attr>\#\d+)
 |(?P<str>c?"(?:[^"\\]|\\.)*")
 |(?P<hex>0x[0-9A-FKLMHR]*[0-9A-F]+)
 |(?P<flt>-?\d+\.\d*(?:e[-+]?\d+)?)
 |(?P<int>-?\d+)
 |(?P<word>[A-Za-z_$][\w$.-]*)
 |(?P<dots>\.\.\.)
 |(?P<p>[,()\[\]{}<>=*:|])
''', re.X)


_DBGV = re.compile(r'@llvm\.dbg\.(value|declare)\(metadata ptr (%(?:"[^"]*"|[-\w$.]+)), metadata (!\d+), '
                   r'metadata !DIExpression\(\)\)')


def tokenize(s):
    out = []
    i, n = 0, len(s)
    m = _TOK.match
    while i < n:
        if s[i] == ';':
            break
        t = m(s, i)
        if not t:
            raise ValueError("cannot tokenize: %r at %d" % (s, i))
        k = t.lastgroup
        if k != "sp":
            out.append((k, t.group()))
        i = t.end()
    return out


# ---- types -------------------------------------------------------------------------------------------------------
# ('i',n) 'ptr' 'void' 'float' 'double' ('arr',n,t) ('s',name) ('lit',(t...)) ('vec',n,t) ('fn',)
class Types:
    def __init__(self):
        self.named = {}      # name -> tuple of types | None (opaque)
        self._lay = {}

    def layout(self, t):
        """(size, align, [offsets]) ; offsets only for structs"""
        r = self._lay.get(t)
        if r:
            return r
        r = self._layout(t)
        self._lay[t] = r
        return r

    def _layout(self, t):
        if t == "ptr":
            return (8, 8, None)
        if t == "double":
            return (8, 8, None)
        if t == "float":
            return (4, 4, None)
        if t == "x86_fp80":
            return (16, 16, None)
        if t in ("void", "metadata", "label"):
            return (0, 1, None)
        k = t[0]
        if k == "i":
            s = (t[1] + 7) // 8
            p = 1
            while p < s:
                p *= 2
            return (p, min(p, 16), None)
        if k == "arr" or k == "vec":
            s, a, _ = self.layout(t[2])
            return (s * t[1], a, None)
        if k in ("s", "lit"):
            el = self.named.get(t[1]) if k == "s" else t[1]
            if el is None:
                return (0, 1, [])
            off, al, offs = 0, 1, []
            for e in el:
                s, a, _ = self.layout(e)
                off = (off + a - 1) // a * a
                offs.append(off)
                off += s
                al = max(al, a)
            return ((off + al - 1) // al * al, al, offs)
        return (0, 1, None)

    def fields(self, t):
        if t[0] == "s":
            return self.named.get(t[1]) or ()
        if t[0] == "lit":
            return t[1]
        return ()


PARAM_ATTRS = {"noundef", "zeroext", "signext", "nonnull", "inreg", "nocapture", "readonly", "writeonly", "noalias",
               "dead_on_unwind", "writable", "returned", "immarg", "readnone", "nofree", "nest", "swiftself", "inrange", "allocalign", "allocptr"}


class P:
    """token-stream parser"""
    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.mod = mod

    def peek(self):
        return self.t[self.i][1] if self.i < len(self.t) else None

    def next(self):
        v = self.t[self.i][1]
        self.i += 1
        return v

    def accept(self, v):
        if self.i < len(self.t) and self.t[self.i][1] == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        if not self.accept(v):
            raise ValueError("expected %r at %s in %s" % (v, self.peek(), " ".join(x[1] for x in self.t)))

    def type(self):
        k, v = self.t[self.i]
        self.i += 1
        if k == "loc":
            t = ("s", unq(v))
        elif v == "[" or v == "<":
            n = int(self.next())
            self.expect("x")
            e = self.type()
            self.expect("]" if v == "[" else ">")
            t = ("arr" if v == "[" else "vec", n, e)
        elif v == "{":
            l = []
            while not self.accept("}"):
                l.append(self.type())
                self.accept(",")
            t = ("lit", tuple(l))
        elif v[0] == "i" and v[1:].isdigit():
            t = ("i", int(v[1:]))
        else:
            t = v
        if self.peek() == "(" and k != "glob":      # function type
            d = 0
            while True:
                x = self.next()
                if x == "(":
                    d += 1
                elif x == ")":
                    d -= 1
                    if d == 0:
                        break
            t = ("fn", t)
        return t

    def attrs(self):
        byval = None
        while True:
            v = self.peek()
            if v in PARAM_ATTRS:
                self.i += 1
            elif v in ("align", "dereferenceable", "dereferenceable_or_null"):
                self.i += 1
                if self.accept("("):
                    while not self.accept(")"):
                        self.i += 1
                else:
                    self.i += 1
            elif v in ("byval", "sret", "elementtype"):
                self.i += 1
                self.expect("(")
                byval = (v, self.type())
                self.expect(")")
            elif v in ("memory", "captures", "range"):
                self.i += 1
                d = 0
                while True:
                    x = self.next()
                    if x == "(":
                        d += 1
                    if x == ")":
                        d -= 1
                        if d == 0:
                            break
            else:
                return byval

    def value(self, ty):
        k, v = self.t[self.i]
        self.i += 1
        if k == "loc":
            return ("%", unq(v))
        if k == "glob":
            return ("@", unq(v))
        if k == "int":
            return ("c", int(v))
        if k == "flt" or k == "hex":
            return ("f", v)
        if v == "true":
            return ("c", 1)
        if v in ("false", "null"):
            return ("c", 0)
        if v in ("undef", "poison"):
            return ("undef",)
        if v == "zeroinitializer":
            return ("zero",)
        if k == "str":
            return ("str", v)
        if v in ("{", "["):
            close = "}" if v == "{" else "]"
            l = []
            while not self.accept(close):
                t = self.type()
                l.append((t, self.value(t)))
                self.accept(",")
            return ("agg", tuple(l))
        if v == "<":
            if self.accept("{"):
                l = []
                while not self.accept("}"):
                    t = self.type()
                    l.append((t, self.value(t)))
                    self.accept(",")
                self.expect(">")
                return ("agg", tuple(l))
            while not self.accept(">"):
                self.i += 1
            return ("undef",)
        if v == "getelementptr":
            while self.peek() in ("inbounds", "nuw", "nusw"):
                self.i += 1
            self.expect("(")
            st = self.type()
            self.expect(",")
            ops = []
            while True:
                while self.peek() == "inrange":
                    self.i += 1
                t = self.type()
                ops.append(self.value(t))
                if not self.accept(","):
                    break
            self.expect(")")
            return ("cgep", st, tuple(ops))
        if v in ("ptrtoint", "inttoptr", "bitcast", "trunc", "zext", "sext"):
            self.expect("(")
            t = self.type()
            x = self.value(t)
            self.expect("to")
            self.type()
            self.expect(")")
            return x
        if v in ("sub", "add", "mul", "shl", "and", "or", "xor"):
            while self.peek() in ("nsw", "nuw"):
                self.i += 1
            self.expect("(")
            t = self.type()
            a = self.value(t)
            self.expect(",")
            t = self.type()
            b = self.value(t)
            self.expect(")")
            return ("cbin", v, a, b)
        raise ValueError("value %r in %s" % (v, " ".join(x[1] for x in self.t)))

    def tv(self):
        t = self.type()
        self.attrs()
        return t, self.value(t)


def unq(v):
    v = v[1:]
    return v[1:-1] if v[:1] == '"' else v


class Instr:
    __slots__ = ("id", "op", "res", "ty", "ops", "tys", "x", "dbg", "bb", "fn", "idx")

    def __repr__(self):
        return "<%s %s %s %s>" % (self.op, self.res, self.ops, self.x)

    def where(self):
        return self.fn.mod.where(self.dbg)

    @property
    def callee(self):
        """the name of the directly called function, or None"""
        return self.x if self.op == "call" else None


class Block:
    __slots__ = ("name", "ins", "succ", "pred", "fn", "idx", "phis")


class Function:
    __slots__ = ("name", "args", "argtys", "ret", "blocks", "entry", "defs", "mod", "dbg", "linkage", "_loops", "byval",
                 "users_", "varargs", "hints", "cache", "noalias")

    def instrs(self):
        for b in self.blocks.values():
            for i in b.ins:
                yield i

    def calls(self, *names):
        for i in self.instrs():
            if i.op == "call" and (not names or i.x in names):
                yield i


class Module:
    def __init__(self, path, config=""):
        self.config = config
        self.types = Types()
        self.funcs = {}
        self.decls = {}
        self.globals = {}       # name -> dict(type, init, const, linkage, dbg)
        self.md = {}
        self._nid = 0
        self._wh = {}
        self._di = None
        self._parse(path)

    # -- parsing -------------------------------------------------------------------------------------------------
    def _parse(self, path):
        lines = open(path, encoding="utf-8", errors="replace").read().split("\n")
        i, n = 0, len(lines)
        fdefs = []
        while i < n:
            l = lines[i]
            c = l[:1]
            if c == "%":
                nm, rest = l.split(" = type ", 1)
                nm = unq(nm)
                if rest == "opaque":
                    self.types.named[nm] = None
                else:
                    p = P(tokenize(rest), self)
                    packed = rest.startswith("<{")
                    if packed:
                        p.i = 1
                    t = p.type()
                    self.types.named[nm] = t[1] if isinstance(t, tuple) and t[0] == "lit" else (t,)
            elif c == "@":
                self._global(l)
            elif c == "!":
                k, _, v = l.partition(" = ")
                self.md[k] = v
            elif l.startswith("declare"):
                m = re.search(r'@("[^"]*"|[-\w$.]+)\(', l)
                self.decls[unq("@" + m.group(1))] = l
            elif l.startswith("define"):
                j = i
                while lines[j] != "}":
                    j += 1
                fdefs.append((i, j))
                i = j
            i += 1
        for a, b in fdefs:
            self._function(lines, a, b)

    def _global(self, l):
        m = re.match(r'(@(?:"[^"]*"|[-\w$.]+)) = (.*)', l)
        name, rest = unq(m.group(1)), m.group(2)
        m = re.match(r'((?:[a-z_]+(?:\([^)]*\))? )*?)(global|constant|alias) (.*)', rest)
        if not m:
            return
        link, kind, body = m.groups()
        dbg = re.search(r', !dbg (!\d+)', body)
        g = {"const": kind == "constant", "linkage": link, "dbg": dbg.group(1) if dbg else None, "type": None,
             "init": None, "external": "external" in link}
        try:
            p = P(tokenize(body.split(", align")[0].split(", section")[0]), self)
            g["type"] = p.type()
            if p.i < len(p.t) and p.peek() != ",":
                g["init"] = p.value(g["type"])
        except (ValueError, IndexError):
            pass
        self.globals[name] = g

    def _function(self, lines, a, b):
        head = lines[a]
        f = Function()
        f.mod = self
        f.linkage = "internal" if re.match(r"define (internal|private)", head) else "external"
        m = re.search(r'!dbg (!\d+)', head)
        f.dbg = m.group(1) if m else None
        m = re.search(r'@("[^"]*"|[-\w$.]+)\(', head)
        f.name = unq("@" + m.group(1))
        # return type: last token sequence before @name
        pre = head[:m.start()]
        toks = tokenize(pre)
        p = P(toks, self)
        while True:
            k, v = toks[p.i]
            if k == "word" and not (v in ("void", "ptr", "float", "double") or re.match(r"i\d+$", v)):
                p.i += 1
                if p.peek() == "(":
                    while not p.accept(")"):
                        p.i += 1
            else:
                break
        p.attrs()
        f.ret = p.type()
        # args
        d, j = 0, m.end() - 1
        for j in range(m.end() - 1, len(head)):
            if head[j] == "(":
                d += 1
            elif head[j] == ")":
                d -= 1
                if d == 0:
                    break
        p = P(tokenize(head[m.end():j]), self)
        f.args, f.argtys, f.byval, f.varargs = [], [], {}, False
        f.noalias = set()
        while p.i < len(p.t):
            if p.accept("..."):
                f.varargs = True
                break
            t = p.type()
            k = p.i
            bv = p.attrs()
            own = any(t[1] == "noalias" for t in p.t[k:p.i])
            nm = unq(p.next())
            if bv:
                f.byval[nm] = bv
            if own:
                f.noalias.add(nm)
            f.args.append(nm)
            f.argtys.append(t)
            p.accept(",")
        f.blocks, f.defs, f._loops = {}, {}, None
        f.users_, f.cache = None, {}
        f.hints = {}            # SSA name -> (DILocalVariable, is the variable's address)
        cur = None
        i = a + 1
        while i < b:
            l = lines[i]
            if not l or l.startswith(";"):
                i += 1
                continue
            if l[0] != " ":
                nm = l.split(":")[0] if l[0] != '"' else l[1:l.index('"', 1)]
                cur = Block()
                cur.name, cur.ins, cur.succ, cur.pred, cur.fn, cur.phis = nm, [], [], [], f, []
                cur.idx = len(f.blocks)
                f.blocks[nm] = cur
                i += 1
                continue
            if "@llvm.dbg.value(metadata ptr %" in l or "@llvm.dbg.declare(metadata ptr %" in l:
                m = _DBGV.search(l)
                if m:
                    f.hints.setdefault(unq(m.group(2)), (m.group(3), m.group(1) == "declare"))
            if "@llvm.dbg." in l or "@llvm.lifetime" in l or "@llvm.va_" in l:
                if not ("= " in l[:40]):
                    i += 1
                    continue
            if l.lstrip().startswith("switch ") and l.rstrip().endswith("["):
                i += 1
                while not lines[i].lstrip().startswith("]"):
                    l += lines[i]
                    i += 1
                l += lines[i]
            ins = self._instr(l, f, cur)
            ins.idx = len(cur.ins)
            cur.ins.append(ins)
            if ins.op == "phi":
                cur.phis.append(ins)
            if ins.res is not None:
                f.defs[ins.res] = ins
            i += 1
        for bl in f.blocks.values():
            t = bl.ins[-1]
            if t.op == "br":
                bl.succ = list(t.x)
            elif t.op == "switch":
                bl.succ = [t.x[0]] + [d for _, d in t.x[1]]
            bl.succ = list(dict.fromkeys(bl.succ))
        for bl in f.blocks.values():
            for s in bl.succ:
                f.blocks[s].pred.append(bl.name)
        f.entry = next(iter(f.blocks))
        self.funcs[f.name] = f

    def _instr(self, l, f, bb):
        ins = Instr()
        self._nid += 1
        ins.id, ins.fn, ins.bb = self._nid, f, bb
        ins.x, ins.ops, ins.tys, ins.res, ins.ty = None, (), (), None, None
        k = l.rfind(", !dbg !")
        if k >= 0:
            e = l.find(",", k + 6)
            ins.dbg = l[k + 7:(e if e > 0 else len(l))].strip()
            l2 = l[:k]
        else:
            ins.dbg = None
            k = l.find(" !dbg !")
            if k >= 0:
                ins.dbg = l[k + 6:].split(",")[0].strip()
                l2 = l[:k]
            else:
                l2 = l
        k = l2.find(", !srcloc")
        if k >= 0:
            l2 = l2[:k]
        k = l2.find(", !llvm.loop")
        if k >= 0:
            l2 = l2[:k]
        p = P(tokenize(l2), self)
        if p.t[0][0] == "loc" and len(p.t) > 1 and p.t[1][1] == "=":
            ins.res = unq(p.t[0][1])
            p.i = 2
        op = p.next()
        if op in ("tail", "musttail", "notail"):
            op = p.next()
        ins.op = op
        getattr(self, "_i_" + op, self._i_misc)(ins, p)
        return ins

    def _i_misc(self, ins, p):
        raise ValueError("unknown instruction %s" % ins.op)

    def _i_load(self, ins, p):
        ins.x = p.accept("atomic")
        p.accept("volatile")
        ins.ty = p.type()
        p.expect(",")
        t, v = p.tv()
        ins.ops, ins.tys = (v,), (t,)

    def _i_store(self, ins, p):
        ins.x = p.accept("atomic")
        p.accept("volatile")
        t, v = p.tv()
        p.expect(",")
        t2, v2 = p.tv()
        ins.ops, ins.tys = (v, v2), (t, t2)

    def _i_alloca(self, ins, p):
        ins.x = p.type()
        ins.ty = "ptr"
        if p.accept(",") and p.peek() != "align":
            t, v = p.tv()
            ins.ops, ins.tys = (v,), (t,)

    def _i_getelementptr(self, ins, p):
        while p.peek() in ("inbounds", "nuw", "nusw"):
            p.i += 1
        ins.x = p.type()
        ins.ty = "ptr"
        ops, tys = [], []
        while p.accept(","):
            t, v = p.tv()
            ops.append(v)
            tys.append(t)
        ins.ops, ins.tys = tuple(ops), tuple(tys)

    def _i_call(self, ins, p):
        while True:
            v = p.peek()
            if v in ("fastcc", "nnan", "ninf", "nsz", "reassoc", "fast", "dso_local"):
                p.i += 1
            else:
                break
        p.attrs()
        ins.ty = p.type()
        if isinstance(ins.ty, tuple) and ins.ty[0] == "fn":
            ins.ty = ins.ty[1]
        if p.peek() == "asm":
            ins.x = "asm"
            return
        cal = p.value("ptr")
        if cal[0] == "@":
            ins.x = cal[1]
        else:
            ins.x = None
        p.expect("(")
        ops, tys, bv = [], [], []
        while not p.accept(")"):
            t = p.type()
            if t == "metadata":
                d = 0
                while not (d == 0 and p.peek() in (",", ")")):
                    x = p.next()
                    d += x == "("
                    d -= x == ")"
                ops.append(("undef",))
                tys.append(t)
                p.accept(",")
                continue
            b = p.attrs()
            ops.append(p.value(t))
            tys.append(("byval", b[1]) if b and b[0] == "byval" else ("sret", b[1]) if b and b[0] == "sret" else t)
            p.accept(",")
        ins.ops, ins.tys = tuple(ops), tuple(tys)
        if ins.x is None:
            ins.ops = ins.ops + (cal,)          # indirect: the last operand is the function pointer
            ins.tys = ins.tys + ("fnptr",)

    def _i_br(self, ins, p):
        if p.accept("label"):
            ins.x = (unq(p.next()),)
        else:
            t, v = p.tv()
            ins.ops = (v,)
            p.expect(",")
            p.expect("label")
            a = unq(p.next())
            p.expect(",")
            p.expect("label")
            b = unq(p.next())
            ins.x = (a, b)

    def _i_switch(self, ins, p):
        t, v = p.tv()
        ins.ops, ins.tys = (v,), (t,)
        p.expect(",")
        p.expect("label")
        d = unq(p.next())
        p.expect("[")
        cs = []
        while not p.accept("]"):
            t, v = p.tv()
            p.expect(",")
            p.expect("label")
            cs.append((v[1], unq(p.next())))
        ins.x = (d, cs)

    def _i_ret(self, ins, p):
        if p.peek() != "void":
            t, v = p.tv()
            ins.ops, ins.tys = (v,), (t,)

    def _i_unreachable(self, ins, p):
        pass

    def _i_phi(self, ins, p):
        ins.ty = p.type()
        inc = []
        while True:
            p.expect("[")
            v = p.value(ins.ty)
            p.expect(",")
            b = unq(p.next())
            p.expect("]")
            inc.append((v, b))
            if not p.accept(","):
                break
        ins.x = inc

    def _bin(self, ins, p):
        while p.peek() in ("nsw", "nuw", "exact", "disjoint", "nnan", "ninf", "nsz", "fast"):
            p.i += 1
        ins.ty = p.type()
        a = p.value(ins.ty)
        p.expect(",")
        b = p.value(ins.ty)
        ins.ops, ins.tys = (a, b), (ins.ty, ins.ty)
    for _o in ("add sub mul udiv sdiv urem srem shl lshr ashr and or xor fadd fsub fmul fdiv frem").split():
        locals()["_i_" + _o] = _bin

    def _i_icmp(self, ins, p):
        ins.x = p.next()
        t = p.type()
        a = p.value(t)
        p.expect(",")
        b = p.value(t)
        ins.ty = ("i", 1)
        ins.ops, ins.tys = (a, b), (t, t)
    _i_fcmp = _i_icmp

    def _cast(self, ins, p):
        while p.peek() in ("nneg", "nuw", "nsw"):
            p.i += 1
        t, v = p.tv()
        p.expect("to")
        ins.ty = p.type()
        ins.ops, ins.tys = (v,), (t,)
    for _o in ("trunc zext sext ptrtoint inttoptr bitcast sitofp uitofp fptosi fptoui fpext fptrunc").split():
        locals()["_i_" + _o] = _cast

    def _i_fneg(self, ins, p):
        t, v = p.tv()
        ins.ty, ins.ops, ins.tys = t, (v,), (t,)

    _i_freeze = _i_fneg

    def _i_select(self, ins, p):
        ops, tys = [], []
        while True:
            t, v = p.tv()
            ops.append(v)
            tys.append(t)
            if not p.accept(","):
                break
        ins.ops, ins.tys, ins.ty = tuple(ops), tuple(tys), tys[1]

    def _i_extractvalue(self, ins, p):
        t, v = p.tv()
        idx = []
        while p.accept(","):
            idx.append(int(p.next()))
        ins.ops, ins.tys, ins.x = (v,), (t,), tuple(idx)
        for k in idx:
            t = self.types.fields(t)[k] if t[0] in ("s", "lit") else t[2]
        ins.ty = t

    def _i_insertvalue(self, ins, p):
        t, v = p.tv()
        p.expect(",")
        t2, v2 = p.tv()
        idx = []
        while p.accept(","):
            idx.append(int(p.next()))
        ins.ops, ins.tys, ins.x, ins.ty = (v, v2), (t, t2), tuple(idx), t

    def _i_cmpxchg(self, ins, p):
        p.accept("weak")
        p.accept("volatile")
        t, v = p.tv()
        p.expect(",")
        t2, v2 = p.tv()
        p.expect(",")
        t3, v3 = p.tv()
        ins.ops, ins.tys = (v, v2, v3), (t, t2, t3)
        ins.ty = ("lit", (t2, ("i", 1)))

    def _i_atomicrmw(self, ins, p):
        p.accept("volatile")
        ins.x = p.next()
        t, v = p.tv()
        p.expect(",")
        t2, v2 = p.tv()
        ins.ops, ins.tys, ins.ty = (v, v2), (t, t2), t2

    def _i_fence(self, ins, p):
        pass

    def _i_va_arg(self, ins, p):
        t, v = p.tv()
        p.expect(",")
        ins.ty = p.type()
        ins.ops, ins.tys = (v,), (t,)

    # -- metadata ------------------------------------------------------------------------------------------------
    def mdfield(self, ref, key):
        s = self.md.get(ref)
        if s is None:
            return None
        m = re.search(r'[(,] ?%s: ("(?:[^"\\]|\\.)*"|[^,()]+)' % key, s)
        if not m:
            return None
        v = m.group(1)
        return v[1:-1] if v[0] == '"' else v

    def _file_of(self, scope):
        for _ in range(60):
            if scope is None or scope == "null":
                return "?"
            f = self.mdfield(scope, "file")
            if f:
                from . import build
                n = self.mdfield(f, "filename")
                d = self.mdfield(f, "directory") or ""
                import os
                n = os.path.normpath(os.path.join(d, n))
                return n[len(build.REPO) + 1:] if n.startswith(build.REPO + "/") else n
            scope = self.mdfield(scope, "scope")
        return "?"

    def loc(self, dbg):
        """[(file, line, function)] innermost first, following inlinedAt"""
        r = self._wh.get(dbg)
        if r is not None:
            return r
        out, d = [], dbg
        while d and d in self.md and "DILocation" in self.md[d]:
            sc = self.mdfield(d, "scope")
            line = int(self.mdfield(d, "line") or 0)
            s2 = sc
            while s2 and "DISubprogram" not in self.md.get(s2, ""):
                s2 = self.mdfield(s2, "scope")
            out.append((self._file_of(sc), line, self.mdfield(s2, "name") if s2 else "?"))
            d = self.mdfield(d, "inlinedAt")
        self._wh[dbg] = out
        return out

    def where(self, dbg):
        l = self.loc(dbg)
        if not l:
            return "?"
        s = "%s:%d in %s()" % l[0]
        if len(l) > 1:
            s += " (inlined at %s:%d in %s())" % l[1]
        return s

    def fwhere(self, f):
        if not f.dbg:
            return f.name
        return "%s:%s" % (self._file_of(f.dbg), self.mdfield(f.dbg, "line"))

    def ffile(self, f):
        return self._file_of(f.dbg) if f.dbg else "?"

    # -- struct fields -------------------------------------------------------------------------------------------
    def _build_di(self):
        """(stem, size) -> {offset: [(name, size, type ref)]}"""
        self._di = {}
        names = {}
        for k, v in self.md.items():
            if "DIDerivedType(tag: DW_TAG_typedef" in v:
                b = self.mdfield(k, "baseType")
                if b and "DICompositeType" in self.md.get(b, "") and not self.mdfield(b, "name"):
                    names.setdefault(b, self.mdfield(k, "name"))
        for k, v in self.md.items():
            if "DICompositeType(tag: DW_TAG_structure_type" in v or "DICompositeType(tag: DW_TAG_union_type" in v:
                nm = self.mdfield(k, "name") or names.get(k)
                el = self.mdfield(k, "elements")
                if not nm or not el:
                    continue
                size = int(self.mdfield(k, "size") or 0) // 8
                fl = {}
                for e in re.findall(r"!\d+", self.md.get(el, "")):
                    off = int(self.mdfield(e, "offset") or 0)
                    fl.setdefault(off // 8, (self.mdfield(e, "name") or "?", int(self.mdfield(e, "size") or 0) // 8,
                                             self.mdfield(e, "baseType")))
                self._di.setdefault((nm, size), fl)

    @staticmethod
    def stem(name):
        """struct.environment_t.10 -> environment_t"""
        n = re.sub(r"^(struct|union|class)\.", "", name)
        return re.sub(r"\.\d+$", "", n)

    def field_name(self, t, idx):
        """(struct stem, field name) of element idx of named struct type t"""
        if self._di is None:
            self._build_di()
        st = self.stem(t[1]) if t[0] == "s" else "anon"
        size, _, offs = self.types.layout(t)
        off = offs[idx] if idx < len(offs) else -1
        fl = self._di.get((st, size))
        if fl is None and st == "anon" or (fl is None and "anon" in st):
            for (n, s), cand in self._di.items():
                if s == size and False:
                    fl = cand
        if fl and off in fl:
            return (st, fl[off][0])
        return (st, "#%d" % off)

    def has_field(self, stem, field):
        if self._di is None:
            self._build_di()
        return any(n == stem and any(x[0] == field for x in fl.values()) for (n, s), fl in self._di.items())

    def struct_fields(self, stem):
        if self._di is None:
            self._build_di()
        return [(s, fl) for (n, s), fl in self._di.items() if n == stem]

    # -- debug-info types ----------------------------------------------------------------------------------------
    def di_strip(self, ref):
        """peel typedefs and cv-qualifiers"""
        for _ in range(20):
            s = self.md.get(ref, "") if ref else ""
            if "DW_TAG_typedef" in s or "DW_TAG_const_type" in s or "DW_TAG_volatile_type" in s \
                    or "DW_TAG_restrict_type" in s or "DW_TAG_atomic_type" in s:
                b = self.mdfield(ref, "baseType")
                if "DW_TAG_typedef" in s and b and "DICompositeType" in self.md.get(b, "") \
                        and not self.mdfield(b, "name"):
                    self._di_tdname = (b, self.mdfield(ref, "name"))
                ref = b
            else:
                return ref
        return ref

    def di_pointee(self, ref):
        """the LLVM type that a pointer of DI type `ref` points to, or None"""
        r = self.di_strip(ref)
        if not r or "DW_TAG_pointer_type" not in self.md.get(r, ""):
            return None
        return self.di_type(self.mdfield(r, "baseType"))

    def di_type(self, ref):
        self._di_tdname = None
        r = self.di_strip(ref)
        s = self.md.get(r, "") if r else ""
        if "DICompositeType" in s and ("structure_type" in s or "union_type" in s):
            nm = self.mdfield(r, "name") or (self._di_tdname and self._di_tdname[0] == r and self._di_tdname[1])
            size = int(self.mdfield(r, "size") or 0) // 8
            if not nm:
                return None
            return self.named_type(nm, size)
        if "DW_TAG_pointer_type" in s:
            return "ptr"
        if "DIBasicType" in s:
            n = int(self.mdfield(r, "size") or 0)
            e = self.mdfield(r, "encoding") or ""
            return ("double" if n == 64 else "float") if "float" in e else ("i", n)
        if "enumeration_type" in s:
            return ("i", int(self.mdfield(r, "size") or 32))
        return None

    def named_type(self, stem, size=None):
        if not hasattr(self, "_bystem"):
            self._bystem = {}
            for n in self.types.named:
                self._bystem.setdefault(self.stem(n), []).append(n)
        for n in self._bystem.get(stem, ()):
            t = ("s", n)
            if self.types.named[n] is not None and (size is None or self.types.layout(t)[0] == size):
                return t
        return None

    def field_di(self, t, idx):
        if self._di is None:
            self._build_di()
        size, _, offs = self.types.layout(t)
        fl = self._di.get((self.stem(t[1]), size)) if t[0] == "s" else None
        off = offs[idx] if idx < len(offs) else -1
        return fl[off][2] if fl and off in fl else None

    def arg_di(self, f):
        """DI types of the parameters, from the subprogram type (None when coerced)"""
        st = self.mdfield(f.dbg, "type") if f.dbg else None
        ty = self.mdfield(st, "types") if st else None
        if not ty:
            return []
        return re.findall(r"!\d+|null", self.md.get(ty, ""))
