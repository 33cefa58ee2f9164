"""Numbers in messages: which bit of the number each bit of the buffer is, by propagation of bits and constants."""
from ..common import *

TOP = None


class Unknown(Exception):
    pass


class Bits:
    """bits of what a function was given, followed through its instructions; loops are followed as long as their
    conditions are constant"""

    def __init__(self, prog):
        self.prog, self.ty, self.steps, self.fresh = prog, prog.mod.types, 0, 0
        self.mem, self.ptrs = {}, {}

    def width(self, t):
        if t[0] != "i" or isinstance(t, str):
            raise Unknown("type %s" % (t,))
        return t[1]

    def const(self, v, w):
        return tuple((v >> k) & 1 for k in range(w))

    def num(self, b):
        if any(x not in (0, 1) for x in b):
            raise Unknown("a value that is not constant")
        return sum(x << k for k, x in enumerate(b))

    def snum(self, b):
        n = self.num(b)
        return n - (1 << len(b)) if b[-1] else n

    # -- operands -----------------------------------------------------------------------------------------------------
    def val(self, env, op, t):
        k = op[0]
        if k == "%":
            return env[op[1]]
        if k == "@":
            return ("p", "@" + op[1], 0)
        if k in ("c", "zero"):
            n = op[1] if k == "c" else 0
            if isinstance(t, tuple) and t[0] == "i":
                return self.const(n, t[1])
            if t == "ptr":
                return ("p", "null", n)
            return self.zero(t)
        if k == "undef" or k == "poison":
            return self.undef(t)
        if k == "cgep":
            return self.gep(env, op[1], [self.val(env, op[2][0], "ptr")], op[2][1:])
        if k == "agg":
            return [self.val(env, v, tt) for (tt, v) in op[1]]
        raise Unknown("operand %s" % (op,))

    def zero(self, t):
        if isinstance(t, tuple) and t[0] == "i":
            return self.const(0, t[1])
        if isinstance(t, tuple) and t[0] in ("s", "lit"):
            return [self.zero(x) for x in self.ty.fields(t)]
        if isinstance(t, tuple) and t[0] == "arr":
            return [self.zero(t[2]) for _ in range(t[1])]
        return ("p", "null", 0)

    def undef(self, t):
        if isinstance(t, tuple) and t[0] == "i":
            return (TOP,) * t[1]
        if isinstance(t, tuple) and t[0] in ("s", "lit"):
            return [self.undef(x) for x in self.ty.fields(t)]
        if isinstance(t, tuple) and t[0] == "arr":
            return [self.undef(t[2]) for _ in range(t[1])]
        return ("p", "?", 0)

    def gep(self, env, t, base, ops):
        p = base[0]
        if p[0] != "p":
            raise Unknown("address")
        off = p[2]
        for n, i in enumerate(ops):
            if n and isinstance(t, tuple) and t[0] in ("s", "lit"):
                off += self.ty.layout(t)[2][i[1]]
                t = self.ty.fields(t)[i[1]]
                continue
            if n:
                t = t[2]
            b = self.val(env, i, ("i", 64))
            off += self.snum(b) * self.ty.layout(t)[0]
        return ("p", p[1], off)

    # -- memory -------------------------------------------------------------------------------------------------------
    def read(self, p, t):
        if p[0] != "p":
            raise Unknown("address")
        if isinstance(t, tuple) and t[0] == "i":
            out = ()
            for k in range((t[1] + 7) // 8):
                out += self.byte(p[1], p[2] + k)
            return out[:t[1]]
        if isinstance(t, tuple) and t[0] in ("s", "lit"):
            return [self.read(("p", p[1], p[2] + o), f) for o, f in zip(self.ty.layout(t)[2], self.ty.fields(t))]
        if isinstance(t, tuple) and t[0] == "arr":
            n = self.ty.layout(t[2])[0]
            return [self.read(("p", p[1], p[2] + k * n), t[2]) for k in range(t[1])]
        if t == "ptr" and (p[1], p[2]) in self.ptrs:
            return self.ptrs[(p[1], p[2])]
        raise Unknown("load of %s" % (t,))

    def byte(self, r, o):
        b = self.mem.get((r, o))
        if b is None:
            b = tuple(((r, o), k) for k in range(8)) if r.startswith("in:") else (TOP,) * 8
        return b

    def write(self, p, t, v):
        if p[0] != "p":
            raise Unknown("address")
        if isinstance(t, tuple) and t[0] == "i":
            v = v + (0,) * (-len(v) % 8)
            for k in range(len(v) // 8):
                self.mem[(p[1], p[2] + k)] = v[8 * k:8 * k + 8]
        elif isinstance(t, tuple) and t[0] in ("s", "lit"):
            for o, f, x in zip(self.ty.layout(t)[2], self.ty.fields(t), v):
                self.write(("p", p[1], p[2] + o), f, x)
        elif isinstance(t, tuple) and t[0] == "arr":
            n = self.ty.layout(t[2])[0]
            for k in range(t[1]):
                self.write(("p", p[1], p[2] + k * n), t[2], v[k])
        elif t == "ptr":
            self.ptrs[(p[1], p[2])] = v
        else:
            raise Unknown("store of %s" % (t,))

    # -- instructions -------------------------------------------------------------------------------------------------
    def bin(self, op, a, b):
        w = len(a)
        if op == "and":
            return tuple(0 if 0 in (x, y) else y if x == 1 else x if y == 1 else x if x == y else TOP for x, y in zip(a, b))
        if op == "or":
            return tuple(1 if 1 in (x, y) else y if x == 0 else x if y == 0 else x if x == y else TOP for x, y in zip(a, b))
        if op == "xor":
            return tuple(y if x == 0 else x if y == 0 else 0 if x is not TOP and x == y else 1 if {x, y} == {0, 1} else TOP for x, y in zip(a, b))
        if op in ("shl", "lshr", "ashr"):
            n = self.num(b)
            if n >= w:
                return (TOP,) * w
            if op == "shl":
                return (0,) * n + a[:w - n]
            return a[n:] + ((0,) if op == "lshr" else (a[-1],)) * n
        if op in ("add", "or") and all(0 in (x, y) for x, y in zip(a, b)):
            return self.bin("or", a, b)
        if op in ("udiv", "urem", "mul") and all(x in (0, 1) for x in b):
            n = self.num(b)
            if n and n & (n - 1) == 0:
                k = n.bit_length() - 1
                if op == "urem":
                    return a[:k] + (0,) * (w - k)
                return self.bin("shl" if op == "mul" else "lshr", a, self.const(k, w))
        if op in ("add", "sub", "mul", "udiv", "urem"):
            x, y = self.num(a), self.num(b)
            if op in ("udiv", "urem") and y == 0:
                raise Unknown("division")
            return self.const({"add": x + y, "sub": x - y, "mul": x * y, "udiv": x // y if y else 0, "urem": x % y if y else 0}[op], w)
        if op in ("sdiv", "srem"):
            x, y = self.snum(a), self.snum(b)
            if y == 0:
                raise Unknown("division")
            q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
            return self.const(q if op == "sdiv" else x - q * y, w)
        raise Unknown(op)

    def cmp(self, pred, a, b):
        if a and a[0] == "p":
            if a[1] != b[1] and "null" not in (a[1], b[1]):
                raise Unknown("comparison of addresses")
            x, y = ((a[1], a[2]), (b[1], b[2])) if a[1] != b[1] else (a[2], b[2])
            if a[1] != b[1] and pred not in ("eq", "ne"):
                raise Unknown("comparison of addresses")
        elif pred[0] == "s":
            x, y = self.snum(a), self.snum(b)
        else:
            x, y = self.num(a), self.num(b)
        p = pred[-2:]
        return (int({"eq": x == y, "ne": x != y} [p] if p in ("eq", "ne") else {"lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[p]),)

    def run(self, f, args, depth=0):
        if depth > 12:
            raise Unknown("recursion")
        self.fresh += 1
        me = self.fresh
        env = dict(zip(f.args, args))
        bb, frm = next(iter(f.blocks.values())), None
        while True:
            new = {}
            for i in bb.phis:
                for o, pb in i.x:
                    if pb == frm:
                        new[i.res] = self.val(env, o, i.ty)
            env.update(new)
            nxt = None
            for i in bb.ins:
                self.steps += 1
                if self.steps > 20000:
                    raise Unknown("too long")
                op = i.op
                if op == "phi":
                    continue
                if op == "ret":
                    return self.val(env, i.ops[0], i.tys[0]) if i.ops else None
                if op == "br":
                    nxt = i.x[0] if not i.ops else i.x[0] if self.num(self.val(env, i.ops[0], ("i", 1))) else i.x[1]
                    break
                if op == "switch":
                    v = self.val(env, i.ops[0], i.tys[0])
                    n = self.num(v)
                    d, cases = i.x
                    nxt = d
                    for c, dest in cases:
                        if c & ((1 << len(v)) - 1) == n:
                            nxt = dest
                    break
                if op == "unreachable":
                    raise Unknown("abort")
                r = self.ins(env, i, me, depth)
                if i.res is not None:
                    env[i.res] = r
            frm, bb = bb.name, f.blocks[nxt]

    def ins(self, env, i, me, depth):
        V = lambda k: self.val(env, i.ops[k], i.tys[k])
        op = i.op
        if op == "alloca":
            return ("p", "al:%d:%s" % (me, i.res), 0)
        if op == "load":
            return self.read(V(0), i.ty)
        if op == "store":
            return self.write(V(1), i.tys[0], V(0))
        if op == "getelementptr":
            return self.gep(env, i.x, [V(0)], i.ops[1:])
        if op == "icmp":
            return self.cmp(i.x, V(0), V(1))
        if op == "select":
            return V(1) if self.num(V(0)) else V(2)
        if op == "freeze" or op == "bitcast":
            return V(0)
        if op in ("trunc", "zext", "sext"):
            a, w = V(0), self.width(i.ty)
            return a[:w] if op == "trunc" else a + ((0,) if op == "zext" else (a[-1],)) * (w - len(a))
        if op in ("extractvalue", "insertvalue"):
            a = V(0)
            if op == "extractvalue":
                for k in i.x:
                    a = a[k]
                return a
            if len(i.x) != 1:
                raise Unknown(op)
            a = list(a)
            a[i.x[0]] = V(1)
            return a
        if op == "call":
            n = i.x
            if n is None:
                raise Unknown("indirect call")
            if n.startswith("llvm.dbg") or n.startswith("llvm.lifetime"):
                return None
            if n == "host_is_big_endian":
                return self.const(0, 32)
            if n in ("memcpy", "memmove") or n.startswith(("llvm.memcpy", "llvm.memmove")):
                d, s = V(0), V(1)
                k = self.num(V(2))
                bs = [self.byte(s[1], s[2] + j) for j in range(k)]
                for j, b in enumerate(bs):
                    self.mem[(d[1], d[2] + j)] = b
                return d
            if n.startswith("llvm.bswap"):
                a = V(0)
                return sum((a[k:k + 8] for k in range(len(a) - 8, -1, -8)), ())
            if n.startswith("llvm.memset") or n == "memset":
                d, b, k = V(0), V(1)[:8], self.num(V(2))
                for j in range(k):
                    self.mem[(d[1], d[2] + j)] = b
                return d
            f = self.prog.mod.funcs.get(n)
            if f is None:
                raise Unknown("call of %s" % n)
            return self.run(f, [V(k) for k in range(len(i.ops))], depth + 1)
        if op in ("ptrtoint", "inttoptr"):
            return V(0)
        if len(i.ops) != 2:
            raise Unknown(op)
        a, b = V(0), V(1)
        if a and b and "p" in (a[0], b[0]):
            if op == "sub" and a[:2] == b[:2]:
                return self.const(a[2] - b[2], self.width(i.ty))
            raise Unknown("arithmetic on addresses")
        return self.bin(op, a, b)


def named(name, w):
    return tuple(((name, 0), k) for k in range(w))


def at(off, n):
    return sum((tuple((("in:b", off + k), j) for j in range(8)) for k in range(n)), ())


PUT = {"encode_int64": 8, "encode_int32": 4, "encode_uint32": 4, "encode_uint16": 2}
GET = {"extract_int64": 8, "extract_int32": 4, "extract_uint32": 4, "extract_uint16": 2}


def codecs(config, tier, rep):
    prog = program(config)
    rep.count("functions that put numbers into messages or take them out", 0)
    done = 0
    for name in list(PUT) + list(GET) + ["encode_tag", "extract_tag", "extract_header", "extract_timed_header"]:
        f = prog.mod.funcs.get(name)
        if f is None:
            continue
        m = Bits(prog)
        buf = ("p", "in:b", 0)
        bad = None
        try:
            if name in PUT:
                n = PUT[name]
                m.run(f, [named("value", 8 * n), buf])
                bad = put(m, [("value", n)])
            elif name == "encode_tag":
                m.run(f, tagargs(f, buf))
                bad = put(m, [("time", 8), ("microstep", 4)])
            elif name in GET:
                r = m.run(f, [buf])
                bad = r != at(0, GET[name])
            elif name == "extract_tag":
                r = m.run(f, [buf])
                bad = not (isinstance(r, list) and len(r) >= 2 and r[0] == at(0, 8) and r[1][:32] == at(8, 4))
            else:
                n = len(f.args)
                outs = [("p", "out:%d" % k, 0) for k in range(n - 1)]
                m.run(f, [buf] + outs)
                got = [m.read(outs[0], ("i", 16)), m.read(outs[1], ("i", 16)), m.read(outs[2], ("i", 64))]
                want = [at(0, 2), at(2, 2), at(4, 4) + (0,) * 32]
                if name == "extract_timed_header":
                    got += [m.read(outs[3], ("i", 64)), m.read(("p", outs[3][1], 8), ("i", 32))]
                    want += [at(8, 8), at(16, 4)]
                bad = got != want
        except (Unknown, KeyError, IndexError, TypeError) as x:
            rep.notes.append("%s(): not decided (%s)" % (name, x))
            continue
        done += 1
        rep.count("functions that put numbers into messages or take them out")
        rep.count("instructions followed", m.steps)
        if bad:
            rep.violation("codec/%s" % name, "%s() at %s does not %s a message exactly the bytes of the number, the least significant one first" % (
                name, f.where() if hasattr(f, "where") else "core/federated/network/net_util.c", "put into" if name.startswith("encode") else
                "take out of"), "function %s\ndecided by following each bit through its %d instructions" % (name, m.steps))
    rep.need("functions decided in " + config, done, 6)


def put(m, parts):
    o = 0
    for name, n in parts:
        for k in range(n):
            if m.mem.get(("in:b", o)) != tuple(((name, 0), 8 * k + j) for j in range(8)):
                return True
            o += 1
    return any(r == "in:b" and not 0 <= x < o for r, x in m.mem)


def tagargs(f, buf):
    out, k = [], 0
    tag = [named("time", 64), named("microstep", 32) + (0,) * 32]
    for a, t in zip(f.args, f.argtys):
        if k == 0:
            out.append(buf)
        elif isinstance(t, tuple) and t[0] == "i":
            out.append(tag[k - 1][:t[1]])
        else:
            out.append([tag[0], tag[1][:32]])
        k += 1
    return out
