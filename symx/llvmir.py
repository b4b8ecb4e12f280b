"""C code on terms: the C source is compiled by clang to LLVM IR (memory to registers, branches of
selections to selects) and the IR is interpreted instruction by instruction.  Doubles are terms (or numbers),
integers are concrete or truth values, memory is blocks of bytes with bounds and initialisation checked;
a branch on a symbolic condition forks the run as a branch in python does."""
import hashlib
import os
import re
import struct
import subprocess
import tempfile

import numpy as np

from . import term as T
from .term import Sym

_CACHE = {}
_F1 = {"sin", "cos", "tan", "asin", "acos", "atan", "exp", "log", "sqrt", "sinh", "cosh", "tanh"}


class BadAccess(Exception):
    """memory used out of bounds or before it was written"""


def compile_c(path, include=()):
    """-> parsed module of a C file (cached by content)"""
    with open(path, "rb") as f:
        src = f.read()
    key = hashlib.sha256(src + repr(include).encode()).hexdigest()
    if key not in _CACHE:
        with tempfile.TemporaryDirectory(prefix="symxir") as d:
            a, b, c = (os.path.join(d, x) for x in ("x.c", "v0.ll", "v1.ll"))
            with open(a, "wb") as f:
                f.write(src)
            cmd = ["clang", "-O0", "-Xclang", "-disable-O0-optnone", "-ffp-contract=off", "-S", "-emit-llvm", "-w"]
            for cmd in (cmd + [f"-I{i}" for i in include] + [a, "-o", b],
                        ["opt-18", "-S", "-passes=function(mem2reg,simplifycfg)", b, "-o", c]):
                r = subprocess.run(cmd, capture_output=True, text=True)
                if r.returncode:
                    raise RuntimeError("the C code does not compile: " + r.stderr[-500:])
            with open(c) as f:
                _CACHE[key] = Module(f.read())
    return _CACHE[key]


# ---- text -> instructions -------------------------------------------------------------------------

_TOK = re.compile(r'\s*(c"(?:[^"\\]|\\[0-9A-Fa-f]{2})*"|[%@][-\w.$]+|[%@]"[^"]*"|0x[0-9A-Fa-f]+|-?\d+\.\d+(?:e[+-]?\d+)?'
                  r'|-?\d+|[A-Za-z_][\w.]*|\.\.\.|![\w.]*|[(){}\[\],=*<>:#]|#\d+)')
_SIZE = {"double": 8, "float": 4, "i64": 8, "i32": 4, "i16": 2, "i8": 1, "i1": 1, "ptr": 8}
_ATTR = {"noundef", "nonnull", "signext", "zeroext", "nocapture", "readonly", "noalias", "inbounds", "nsw", "nuw", "exact",
         "nneg", "tail", "fast", "nnan", "ninf", "nsz", "volatile", "immarg", "writeonly", "musttail", "notail"}


class _Line:
    def __init__(self, s):
        self.t = []
        i = 0
        s = s.strip()
        while i < len(s):
            m = _TOK.match(s, i)
            if not m:
                raise NotImplementedError("LLVM IR: " + s)
            self.t.append(m.group(1))
            i = m.end()
        self.i = 0

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def next(self):
        self.i += 1
        return self.t[self.i - 1]

    def skip(self, *w):
        while self.peek() in _ATTR or self.peek() in w:
            self.i += 1
            if self.t[self.i - 1] in ("align", "dereferenceable"):
                self.i += 1

    def want(self, w):
        x = self.next()
        if x != w:
            raise NotImplementedError(f"LLVM IR: {' '.join(self.t)} ({x} for {w})")

    def type(self):
        self.skip()
        x = self.next()
        if x == "[":
            n = int(self.next())
            self.want("x")
            e = self.type()
            self.want("]")
            return ("arr", n, e)
        if x in _SIZE or x == "void":
            return x
        raise NotImplementedError("LLVM type " + x)

    def operand(self, ty):
        """-> ('%', name) | ('@', name) | ('v', value) | ('gep', base, offset)"""
        x = self.next()
        if x[0] == "%":
            return ("%", x)
        if x[0] == "@":
            return ("@", x)
        if x == "null":
            return ("v", (None, 0))
        if x in ("undef", "poison"):
            return ("undef",)
        if x in ("true", "false"):
            return ("v", x == "true")
        if x == "getelementptr":
            self.skip()
            self.want("(")
            t = self.type()
            self.want(",")
            self.type()
            base = self.operand("ptr")
            idx = []
            while self.peek() == ",":
                self.next()
                it = self.type()
                idx.append(self.operand(it))
            self.want(")")
            return ("gep", t, base, idx)
        if ty == "double" or ty == "float":
            if x.startswith("0x"):
                return ("v", struct.unpack(">d", bytes.fromhex(x[2:].rjust(16, "0")))[0])
            return ("v", float(x))
        if ty in _SIZE:
            return ("v", int(x))
        raise NotImplementedError("LLVM operand " + x)


def size(t):
    return t[1] * size(t[2]) if isinstance(t, tuple) else _SIZE[t]


class Block:
    __slots__ = ("n", "d", "name", "const", "dead")

    def __init__(self, n, name=""):
        self.n, self.d, self.name, self.const, self.dead = n, {}, name, False, False


class Module:
    def __init__(self, text):
        self.fns, self.globals, self.addr = {}, {}, {}
        lines = text.split("\n")
        i = 0
        while i < len(lines):
            s = lines[i]
            if s.startswith("@"):
                self._global(s)
            elif s.startswith("define"):
                j = i
                while lines[j] != "}":
                    j += 1
                self._function(lines[i:j])
                i = j
            i += 1

    def _global(self, s):
        m = re.match(r'(@[-\w.$]+) = (.*)$', s)
        name, rest = m.group(1), m.group(2)
        rest = re.sub(r'\b(private|internal|unnamed_addr|local_unnamed_addr|dso_local|common|external|hidden|thread_local)\b ?', '', rest)
        l = _Line(re.sub(r', !.*$', '', rest))
        kind = l.next()
        if kind not in ("constant", "global"):
            raise NotImplementedError("LLVM global: " + s[:80])
        t = l.type()
        b = Block(size(t), name)
        self._init(l, t, b, 0)
        b.const = kind == "constant"
        self.globals[name] = b

    def _init(self, l, t, b, off):
        x = l.peek()
        if x is None or x == ",":
            return
        if x == "zeroinitializer":
            l.next()
            self._zero(t, b, off)
        elif x == "[":
            l.next()
            for k in range(t[1]):
                l.type()
                self._init(l, t[2], b, off + k * size(t[2]))
                if l.peek() == ",":
                    l.next()
            l.want("]")
        elif x.startswith('c"'):
            raw = re.sub(r'\\([0-9A-Fa-f]{2})', lambda m: chr(int(m.group(1), 16)), l.next()[2:-1])
            for k, ch in enumerate(raw):
                b.d[off + k] = (1, ord(ch))
        else:
            v = l.operand(t)
            if v[0] == "@":
                b.d[off] = (8, v)
            elif v[0] == "v":
                b.d[off] = (size(t), v[1])

    def _zero(self, t, b, off):
        if isinstance(t, tuple):
            for k in range(t[1]):
                self._zero(t[2], b, off + k * size(t[2]))
        else:
            b.d[off] = (size(t), 0.0 if t in ("double", "float") else ((None, 0) if t == "ptr" else 0))

    def _function(self, lines):
        head = lines[0]
        m = re.search(r'(@[-\w.$]+)\((.*?)\)', head)
        name = m.group(1)
        params = [p.split()[-1] for p in m.group(2).split(",")] if m.group(2).strip() else []
        # the first block is unnamed: its number follows the parameters
        blocks, cur = {}, []
        entry = "%" + str(len(params))
        blocks[entry] = cur
        k = 1
        while k < len(lines):
            s = lines[k].split(";")[0].rstrip() if "c\"" not in lines[k] else lines[k]
            k += 1
            if not s.strip():
                continue
            lab = re.match(r'([-\w.$]+):', s)
            if lab:
                if not blocks[entry] and cur is blocks[entry]:
                    del blocks[entry]
                    entry = "%" + lab.group(1)
                cur = blocks["%" + lab.group(1)] = []
                continue
            if s.strip().startswith("switch"):
                while "]" not in s.split("[", 1)[1]:
                    s += " " + lines[k].strip()
                    k += 1
            cur.append(s.strip())
        self.fns[name] = Fn(name, params, entry, blocks)

    def new_block(self, n, name=""):
        return (Block(n, name), 0)

    def call(self, name, *args):
        return _Run(self).call("@" + name, list(args), 0)

    def peek(self, ptr, k, width=8):
        return _Run(self).load((ptr[0], ptr[1] + k * width), width)


class Fn:
    def __init__(self, name, params, entry, blocks):
        self.name, self.params, self.entry, self.raw, self.code = name, params, entry, blocks, {}

    def block(self, b):
        if b not in self.code:
            self.code[b] = [_instr(s) for s in self.raw[b]]
        return self.code[b]


def _instr(s):
    s = re.sub(r'(, !\S+ !\d+|, !\S+)*$', '', s)
    s = re.sub(r' #\d+$', '', s)
    l = _Line(s)
    dst = None
    if l.peek()[0] == "%" and len(l.t) > 1 and l.t[1] == "=":
        dst = l.next()
        l.next()
    l.skip()
    op = l.next()
    l.skip()
    if op in ("fadd", "fsub", "fmul", "fdiv", "frem", "add", "sub", "mul", "sdiv", "srem", "udiv", "urem", "and", "or", "xor",
              "shl", "ashr", "lshr"):
        t = l.type()
        a = l.operand(t)
        l.want(",")
        return (op, dst, t, a, l.operand(t))
    if op == "fneg":
        t = l.type()
        return (op, dst, t, l.operand(t))
    if op in ("fcmp", "icmp"):
        c = l.next()
        t = l.type()
        a = l.operand(t)
        l.want(",")
        return (op, dst, c, t, a, l.operand(t))
    if op == "alloca":
        t = l.type()
        n = ("v", 1)
        if l.peek() == ",":
            l.next()
            if l.peek() != "align":
                it = l.type()
                n = l.operand(it)
        return (op, dst, t, n)
    if op == "load":
        t = l.type()
        l.want(",")
        l.type()
        return (op, dst, t, l.operand("ptr"))
    if op == "store":
        t = l.type()
        v = l.operand(t)
        l.want(",")
        l.type()
        return (op, None, t, v, l.operand("ptr"))
    if op == "getelementptr":
        t = l.type()
        l.want(",")
        l.type()
        base = l.operand("ptr")
        idx = []
        while l.peek() == ",":
            l.next()
            it = l.type()
            idx.append(l.operand(it))
        return (op, dst, t, base, idx)
    if op == "br":
        if l.peek() == "label":
            l.next()
            return ("jmp", None, l.next())
        t = l.type()
        c = l.operand(t)
        l.want(",")
        l.want("label")
        a = l.next()
        l.want(",")
        l.want("label")
        return (op, None, c, a, l.next())
    if op == "switch":
        t = l.type()
        v = l.operand(t)
        l.want(",")
        l.want("label")
        d = l.next()
        l.want("[")
        cases = {}
        while l.peek() != "]":
            it = l.type()
            c = l.operand(it)[1]
            l.want(",")
            l.want("label")
            cases[c] = l.next()
        return (op, None, v, d, cases)
    if op == "phi":
        t = l.type()
        inc = {}
        while l.peek() == "[":
            l.next()
            v = l.operand(t)
            l.want(",")
            inc[l.next()] = v
            l.want("]")
            if l.peek() == ",":
                l.next()
        return (op, dst, t, inc)
    if op == "select":
        ct = l.type()
        c = l.operand(ct)
        l.want(",")
        t = l.type()
        a = l.operand(t)
        l.want(",")
        l.type()
        return (op, dst, t, c, a, l.operand(t))
    if op == "ret":
        t = l.type()
        return (op, None, None if t == "void" else l.operand(t))
    if op == "unreachable":
        return (op, None)
    if op in ("zext", "sext", "trunc", "sitofp", "uitofp", "fptosi", "fpext", "fptrunc", "bitcast", "ptrtoint", "inttoptr", "freeze"):
        t = l.type()
        v = l.operand(t)
        if op == "freeze":
            return (op, dst, t, v, t)
        l.want("to")
        return (op, dst, t, v, l.type())
    if op == "call":
        t = l.type()
        if l.peek() == "(":  # variadic: type of the parameters
            while l.next() != ")":
                pass
        f = l.next()
        l.want("(")
        args = []
        while l.peek() != ")":
            at = l.type()
            l.skip("align", "dereferenceable")
            args.append(l.operand(at))
            if l.peek() == ",":
                l.next()
        return (op, dst, t, f, args)
    raise NotImplementedError("LLVM instruction: " + s)


def _select(c, a, b):
    """where x is neither negative nor positive it is zero: x < 0 ? a : (x > 0 ? b : x)"""
    if c.op == "lt" and b.op == "ite" and b.args[0].op == "lt":
        x, y = c.args, b.args[0].args
        if x[0] is y[1] and x[1] is y[0]:
            zero = T.C(0)
            v = [q for q in x if q is not zero]
            if len(v) == 1 and b.args[2] is v[0]:
                # (the order of T.sign, the conditions exclude each other)
                p, n = (c, b.args[0]) if x[0] is zero else (b.args[0], c)
                at = {c: a, b.args[0]: b.args[1]}
                return T.ite(p, at[p], T.ite(n, at[n], zero))
    return T.ite(c, a, b)


# ---- running ---------------------------------------------------------------------------------------

def _num(v):
    return T.lift(v) if isinstance(v, Sym) else v


def _issym(*v):
    return any(isinstance(x, Sym) for x in v)


def _truth(v):
    """symbolic truth value of an integer that came from one"""
    return v


_MAXSTEPS = 30_000_000


class _Run:
    def __init__(self, mod):
        self.m, self.steps = mod, 0

    # memory
    def load(self, p, n):
        b, o = p
        if b is None:
            raise BadAccess("null pointer read")
        if o < 0 or o + n > b.n:
            raise BadAccess(f"read of {n} bytes at {o} of {b.n} {b.name}")
        if b.dead:
            raise BadAccess("read of released memory")
        c = b.d.get(o)
        if c is None or c[0] != n:
            raise BadAccess(f"read before it was written, byte {o} of {b.n} {b.name}")
        v = c[1]
        if isinstance(v, tuple) and v[0] == "@":
            return (self.m.globals[v[1]], 0)
        return v

    def store(self, p, n, v):
        b, o = p
        if b is None:
            raise BadAccess("null pointer write")
        if b.const:
            raise BadAccess("write into constant " + b.name)
        if o < 0 or o + n > b.n:
            raise BadAccess(f"write of {n} bytes at {o} of {b.n} {b.name}")
        b.d[o] = (n, v)

    def val(self, env, x):
        k = x[0]
        if k == "%":
            return env[x[1]]
        if k == "v":
            return x[1]
        if k == "@":
            return (self.m.globals[x[1]], 0)
        if k == "gep":
            return self.gep(env, x[1], x[2], x[3])
        raise BadAccess("undefined value used")

    def gep(self, env, t, base, idx):
        b, o = self.val(env, base)
        for k, i in enumerate(idx):
            v = self.val(env, i)
            if isinstance(v, Sym):
                raise NotImplementedError("symbolic address")
            if k:
                t = t[2]
            o += v * size(t)
        return (b, o)

    def call(self, name, args, depth):
        f = self.m.fns.get(name)
        if f is None:
            return _library(self, name, args)
        env = dict(zip(f.params, args))
        cur, prev = f.entry, None
        allocs = []
        while True:
            code = f.block(cur)
            # the phis of a block read the values of the block left at once
            n = 0
            news = []
            while n < len(code) and code[n][0] == "phi":
                news.append((code[n][1], self.val(env, code[n][3][prev])))
                n += 1
            for d, v in news:
                env[d] = v
            nxt = None
            for ins in code[n:] if n else code:
                self.steps += 1
                op = ins[0]
                if op == "load":
                    env[ins[1]] = self.load(self.val(env, ins[3]), size(ins[2]))
                elif op == "store":
                    self.store(self.val(env, ins[4]), size(ins[2]), self.val(env, ins[3]))
                elif op == "getelementptr":
                    env[ins[1]] = self.gep(env, ins[2], ins[3], ins[4])
                elif op in _BIN:
                    env[ins[1]] = _BIN[op](self.val(env, ins[3]), self.val(env, ins[4]), ins[2])
                elif op == "fcmp":
                    env[ins[1]] = _fcmp(ins[2], self.val(env, ins[4]), self.val(env, ins[5]))
                elif op == "icmp":
                    env[ins[1]] = _icmp(ins[2], self.val(env, ins[4]), self.val(env, ins[5]))
                elif op == "call":
                    r = self.call(ins[3], [self.val(env, a) for a in ins[4]], depth + 1)
                    if ins[1]:
                        env[ins[1]] = r
                elif op == "jmp":
                    nxt = ins[2]
                elif op == "br":
                    nxt = ins[3] if bool(self.val(env, ins[2])) else ins[4]
                elif op == "switch":
                    nxt = ins[4].get(self.val(env, ins[2]), ins[3])
                elif op == "ret":
                    for b in allocs:
                        b.dead = True
                    return None if ins[2] is None else self.val(env, ins[2])
                elif op == "select":
                    env[ins[1]] = self.select(env, ins)
                elif op == "fneg":
                    v = self.val(env, ins[3])
                    env[ins[1]] = T.mul(T.C(-1), v) if isinstance(v, Sym) else -v
                elif op == "alloca":
                    b = Block(size(ins[2]) * self.val(env, ins[3]), f"local of {f.name}")
                    allocs.append(b)
                    env[ins[1]] = (b, 0)
                elif op in ("zext", "sext", "trunc", "sitofp", "uitofp", "fptosi", "freeze", "bitcast", "fpext"):
                    env[ins[1]] = _convert(op, self.val(env, ins[3]), ins[2], ins[4])
                else:
                    raise NotImplementedError("LLVM " + op)
            if self.steps > _MAXSTEPS:
                raise NotImplementedError("C code runs too long")
            prev, cur = cur, nxt

    def select(self, env, ins):
        c = self.val(env, ins[3])
        if not isinstance(c, Sym):
            return self.val(env, ins[4] if c else ins[5])
        a, b = self.val(env, ins[4]), self.val(env, ins[5])
        if ins[2] == "double":
            return _select(T.asbool(c), T.lift(a), T.lift(b))
        if a is b or (not _issym(a, b) and a == b):
            return a
        if ins[2] == "i1":
            c, a, b = (T.asbool(T.lift(x)) for x in (c, a, b))
            return T.or_(T.and_(c, a), T.and_(T.neg(c), b))
        return self.val(env, ins[4] if bool(c) else ins[5])


def _fop(f, g):
    def op(a, b, t):
        if _issym(a, b):
            return f(T.lift(a), T.lift(b))
        return g(a, b)
    return op


def _fdiv(a, b):
    with np.errstate(all="ignore"):
        return float(np.float64(a) / np.float64(b))


def _wrap(v, t):
    n = 8 * _SIZE[t] if t != "i1" else 1
    if n == 1:
        return bool(v & 1)
    v &= (1 << n) - 1
    return v - (1 << n) if v >> (n - 1) else v


def _iop(g):
    def op(a, b, t):
        if _issym(a, b):
            raise NotImplementedError("symbolic integer arithmetic")
        return _wrap(g(int(a), int(b)), t)
    return op


def _logic(f, g):
    def op(a, b, t):
        if _issym(a, b):
            # truth values only
            return f(T.asbool(T.lift(a)), T.asbool(T.lift(b)))
        return _wrap(g(int(a), int(b)), t)
    return op


def _xor(a, b):
    return T.or_(T.and_(a, T.neg(b)), T.and_(T.neg(a), b))


def _tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


_BIN = {
    "fadd": _fop(T.add, lambda a, b: a + b), "fsub": _fop(T.sub, lambda a, b: a - b),
    "fmul": _fop(T.mul, lambda a, b: a * b), "fdiv": _fop(T.div, _fdiv),
    "add": _iop(lambda a, b: a + b), "sub": _iop(lambda a, b: a - b), "mul": _iop(lambda a, b: a * b),
    "sdiv": _iop(_tdiv), "srem": _iop(lambda a, b: a - b * _tdiv(a, b)),
    "shl": _iop(lambda a, b: a << b), "ashr": _iop(lambda a, b: a >> b),
    "and": _logic(T.and_, lambda a, b: a & b), "or": _logic(T.or_, lambda a, b: a | b), "xor": _logic(_xor, lambda a, b: a ^ b),
}


def _fcmp(c, a, b):
    if not _issym(a, b):
        if a != a or b != b:
            return c[0] == "u"
        return {"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[c[1:]] if c != "ord" else True
    a, b = T.lift(a), T.lift(b)
    k = c[1:]
    if k == "eq":
        return T.eq(a, b)
    if k == "ne":
        return T.neg(T.eq(a, b))
    if k == "lt":
        return T.lt(a, b)
    if k == "le":
        return T.le(a, b)
    if k == "gt":
        return T.lt(b, a)
    if k == "ge":
        return T.le(b, a)
    raise NotImplementedError("fcmp " + c)


def _icmp(c, a, b):
    if isinstance(a, tuple) or isinstance(b, tuple):
        if c in ("eq", "ne"):
            return ((a[0] is b[0] and a[1] == b[1]) == (c == "eq"))
        if a[0] is b[0]:
            return _icmp(c, a[1], b[1])
        raise NotImplementedError("order of pointers")
    if _issym(a, b):
        s, k = (a, b) if isinstance(a, Sym) else (b, a)
        if not isinstance(k, Sym) and c in ("eq", "ne") and k in (0, 1):
            s = T.asbool(s)
            return s if (c == "ne") == (k == 0) else T.neg(s)
        raise NotImplementedError("icmp on symbolic integers")
    a, b = int(a), int(b)
    if c[0] == "u" and (a < 0 or b < 0):
        a, b = a & (2 ** 64 - 1), b & (2 ** 64 - 1)
    return {"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[c[-2:]]


def _convert(op, v, t, to):
    if isinstance(v, Sym):
        if op in ("sitofp", "uitofp"):
            return T.ite(T.asbool(v), T.C(1), T.C(0))
        if op in ("freeze", "fpext") or (op == "zext" and t in ("i1", "i8", "i32")):
            return v  # (a truth value stays one)
        if op == "trunc" and to in ("i1", "i8"):
            return v
        raise NotImplementedError("conversion of a symbolic value: " + op)
    if op in ("sitofp", "uitofp"):
        return float(int(v))
    if op == "fptosi":
        return int(v)
    if op == "zext":
        return int(v) if t == "i1" else int(v) & ((1 << 8 * _SIZE[t]) - 1)
    if op == "sext":
        return -int(v) if t == "i1" else int(v)
    if op == "trunc":
        return _wrap(int(v), to)
    return v


def _library(run, name, a):
    import math
    n = name[1:]
    m = re.match(r'llvm\.(\w+)\.', n)
    k = m.group(1) if m else n
    if k in ("memset", "memcpy", "memmove"):
        n = a[2]
        if k == "memset":
            if a[1] != 0:
                raise NotImplementedError("memset to something else than zero")
            for o in range(0, n, 8):
                run.store((a[0][0], a[0][1] + o), 8, 0.0)
        else:
            vs = [run.load((a[1][0], a[1][1] + o), 8) for o in range(0, n, 8)]
            for o, v in zip(range(0, n, 8), vs):
                run.store((a[0][0], a[0][1] + o), 8, v)
        return a[0]
    if k in ("lifetime", "assume", "dbg"):
        return None
    if k in ("maxnum", "fmax"):
        return T.smax(T.lift(a[0]), T.lift(a[1])) if _issym(*a) else max(a)
    if k in ("minnum", "fmin"):
        return T.smin(T.lift(a[0]), T.lift(a[1])) if _issym(*a) else min(a)
    if k == "fabs":
        return abs(a[0])
    if k == "fmuladd" or k == "fma":
        return _BIN["fadd"](_BIN["fmul"](a[0], a[1], "double"), a[2], "double")
    if k == "pow":
        return T.power(T.lift(a[0]), T.lift(a[1])) if _issym(*a) else math.pow(*a)
    if k == "atan2":
        return T.fn("atan2", T.lift(a[0]), T.lift(a[1])) if _issym(*a) else math.atan2(*a)
    if k == "hypot":
        s = _BIN["fadd"](_BIN["fmul"](a[0], a[0], ""), _BIN["fmul"](a[1], a[1], ""), "")
        return T.fn("sqrt", s) if _issym(s) else math.sqrt(s)
    if k == "log1p":
        return T.fn("log", T.add(T.C(1), T.lift(a[0]))) if _issym(*a) else math.log1p(a[0])
    if k == "expm1":
        return T.sub(T.fn("exp", T.lift(a[0])), T.C(1)) if _issym(*a) else math.expm1(a[0])
    if k == "copysign" and _issym(*a):
        x, s = abs(T.lift(a[0])), T.lift(a[1])
        return T.ite(T.lt(s, T.C(0)), T.mul(T.C(-1), x), x)
    if k in _F1:
        return T.fn(k, T.lift(a[0])) if _issym(*a) else float(getattr(np, {"asin": "arcsin", "acos": "arccos", "atan": "arctan"}.get(k, k))(a[0]))
    raise NotImplementedError("C function " + n)


# ---- functions generated by casadi ---------------------------------------------------------------------

class CFunction:
    """a function of casadi's C interface, by name"""

    def __init__(self, mod, name):
        if "@" + name not in mod.fns:
            raise RuntimeError(f"no function '{name}' in the C code")
        self.mod, self._name, self._sp = mod, name, {}

    def name(self):
        return self._name

    def n_in(self):
        return self.mod.call(self._name + "_n_in")

    def n_out(self):
        return self.mod.call(self._name + "_n_out")

    def _sparsity(self, which, i):
        if (which, i) not in self._sp:
            self._sp[which, i] = self._read_sparsity(which, i)
        return self._sp[which, i]

    def _read_sparsity(self, which, i):
        import casadi
        p = self.mod.call(f"{self._name}_sparsity_{which}", i)
        if p[0] is None:
            raise RuntimeError("no such argument")
        n = p[0].n // 8
        v = [self.mod.peek(p, k) for k in range(n)]
        nr, nc = v[0], v[1]
        if v[2] == 1 and len(v) == 3:  # dense, written short
            return casadi.Sparsity.dense(nr, nc)
        colind = v[2:2 + nc + 1]
        return casadi.Sparsity(nr, nc, colind, v[2 + nc + 1:2 + nc + 1 + colind[-1]])

    def sparsity_in(self, i):
        return self._sparsity("in", i)

    def sparsity_out(self, i):
        return self._sparsity("out", i)

    def size_in(self, i):
        return self.sparsity_in(i).shape

    def size_out(self, i):
        return self.sparsity_out(i).shape

    def nnz_out(self, i):
        return self.sparsity_out(i).nnz()

    def is_a(self, *a):
        return False

    def names(self, which):
        out = []
        for i in range(self.n_in() if which == "in" else self.n_out()):
            p = self.mod.call(f"{self._name}_name_{which}", i)
            s, k = "", 0
            while self.mod.peek(p, k, 1):
                s += chr(self.mod.peek(p, k, 1))
                k += 1
            out.append(s)
        return out

    def run(self, args):
        """args: matrices in the shapes of the inputs -> matrices of the outputs"""
        mod = self.mod
        sz = []
        ptrs = [mod.new_block(8, "work size") for _ in range(4)]
        mod.call(self._name + "_work", *ptrs)
        sz = [p[0].d[0][1] for p in ptrs]
        ni, no = self.n_in(), self.n_out()
        arg, res = mod.new_block(8 * max(sz[0], ni), "arg"), mod.new_block(8 * max(sz[1], no), "res")
        iw, w = mod.new_block(8 * sz[2], "iw"), mod.new_block(8 * sz[3], "w")
        for i in range(ni):
            sp = self.sparsity_in(i)
            r, c = sp.get_triplet()
            b = mod.new_block(8 * len(r), f"input {i}")
            for k, (x, y) in enumerate(zip(r, c)):
                v = args[i][x, y]
                b[0].d[8 * k] = (8, v if isinstance(v, Sym) else float(v))
            b[0].const = True
            arg[0].d[8 * i] = (8, b)
        outs = []
        for i in range(no):
            b = mod.new_block(8 * self.sparsity_out(i).nnz(), f"output {i}")
            outs.append(b)
            res[0].d[8 * i] = (8, b)
        code = mod.call(self._name, arg, res, iw, w, 0)
        if code:
            raise RuntimeError(f"the C function returns {code}")
        ms = []
        for i, b in enumerate(outs):
            sp = self.sparsity_out(i)
            m = np.zeros(sp.shape, dtype=object)
            m[...] = 0.0
            r, c = sp.get_triplet()
            for k, (x, y) in enumerate(zip(r, c)):
                m[x, y] = mod.peek(b, k)
            ms.append(m)
        return ms


def program(path, name, include=()):
    """what casadi.external(name, library) is, for a library given by its C source"""
    from . import backends

    class CProgram(backends.Program):
        def _one(self, args):
            return self.f.run(args)
    return CProgram(CFunction(compile_c(path, include), name))
