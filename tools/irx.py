#!/usr/bin/env python3-vt
"""Symbolic execution of rustc's LLVM IR, unwinding included.

Every function of the loaded modules is executed from its IR. Values are Python integers or Z3 bit vectors; a branch on
a bit vector asks Z3 for both sides and explores each that is satisfiable (the process is copied). `invoke`, `landingpad` and `resume` are executed, so a panic runs the real cleanup code.

Memory is a set of objects of bytes, each byte an integer, a Z3 expression or undefined. Objects never share or reuse
addresses. Checked on every access: within one live object, alignment, not a store to a constant; on use in a branch,
comparison or arithmetic: not undefined; on release: a live heap block with the size and alignment it was requested with.
"""
import bisect, ctypes, gc, json, multiprocessing, os, re, sys, time
import z3

sys.setrecursionlimit(20000)


class Throw(Exception): pass            # a panic that unwinds
class PathEnd(Exception): pass          # vp_assume failed
class NoVerdict(Exception): pass        # something this executor does not encode


class Violation(Exception):
    pass


class Raw:
    """A value with undefined bytes."""
    __slots__ = ("b",)
    def __init__(self, b): self.b = b


M64 = (1 << 64) - 1

# ---------------------------------------------------------------------------------------------- types

I = {n: ("i", n) for n in (1, 8, 16, 32, 64, 128)}
PTR = ("p",)
VOID = ("v",)


def size_align(t, memo={}):
    r = memo.get(t)
    if r: return r
    k = t[0]
    if k == "p": r = (8, 8)
    elif k == "i":
        n = (t[1] + 7) // 8
        p = 1
        while p < n: p *= 2
        r = (p, min(p, 16))
    elif k == "f": r = (t[1] // 8, t[1] // 8)
    elif k == "a":
        s, a = size_align(t[2])
        r = (s * t[1], a)
    elif k == "s":
        o, al = 0, 1
        for f in t[1]:
            s, a = size_align(f)
            if t[2]: a = 1
            o = (o + a - 1) // a * a + s
            al = max(al, a)
        r = ((o + al - 1) // al * al, al)
    else: raise NoVerdict(f"size of type {t}")
    memo[t] = r
    return r


def offsets(t):
    """[(offset, type)] of the members of an aggregate"""
    if t[0] == "a":
        s, _ = size_align(t[2])
        return [(i * s, t[2]) for i in range(t[1])]
    o, r = 0, []
    for f in t[1]:
        s, a = size_align(f)
        if t[2]: a = 1
        o = (o + a - 1) // a * a
        r.append((o, f))
        o += s
    return r


# ---------------------------------------------------------------------------------------------- parser

TOK = re.compile(r'\s*(?:(c"(?:[^"\\]|\\.)*")|([%@](?:"[^"]*"|[-\w.$]+))|(-?\d+)|([A-Za-z_][\w.]*)|(<\{|\}>|\.\.\.|![\w.]*|#\d+|.))')
META = re.compile(r', ![a-z_.A-Z]+ ![0-9]+')
VALUE_WORDS = {"null", "true", "false", "undef", "poison", "zeroinitializer", "inttoptr", "getelementptr", "ptrtoint", "bitcast", "none", "sub", "add"}


class Parser:
    def __init__(self, text, mod):
        self.t = [m.group(m.lastindex) for m in TOK.finditer(text)]
        self.p = 0
        self.mod = mod

    def peek(self, k=0): return self.t[self.p + k] if self.p + k < len(self.t) else None
    def next(self):
        self.p += 1
        return self.t[self.p - 1]
    def eat(self, x):
        if self.peek() == x:
            self.p += 1
            return True
        return False
    def need(self, x):
        if not self.eat(x): raise NoVerdict(f"parse: expected {x} at {' '.join(self.t[self.p:self.p + 12])} in {' '.join(self.t)[:300]}")

    def type(self):
        w = self.next()
        if w == "ptr": return PTR
        if w == "void": return VOID
        if re.fullmatch(r"i\d+", w): return ("i", int(w[1:]))
        if w in ("float", "double", "half"): return ("f", {"half": 16, "float": 32, "double": 64}[w])
        if w == "[":
            n = int(self.next()); self.need("x"); t = self.type(); self.need("]")
            return ("a", n, t)
        if w in ("{", "<{"):
            end = {"{": "}", "<{": "}>"}[w]
            fs = []
            while not self.eat(end):
                fs.append(self.type())
                self.eat(",")
            return ("s", tuple(fs), w == "<{")
        if w[0] == "%" and w in self.mod.types:
            t = self.mod.types[w]
            if isinstance(t, str): t = self.mod.types[w] = Parser(t, self.mod).type()
            return t
        raise NoVerdict(f"parse: type {w} in {' '.join(self.t)[:300]}")

    def skip_parens(self):
        d = 0
        while True:
            w = self.next()
            if w == "(": d += 1
            elif w == ")":
                d -= 1
                if not d: return

    def attrs(self):
        while True:
            w = self.peek()
            if w is None or w in VALUE_WORDS or w[0] in "%@[{<" or w.startswith('c"') or re.fullmatch(r"-?\d+", w) or w in (",", ")"): return
            self.next()
            if w == "align" and re.fullmatch(r"\d+", self.peek() or ""): self.next()
            elif self.peek() == "(": self.skip_parens()

    def value(self, t):
        """an operand: ('r', name) or ('c', value) (constants are resolved when the modules are linked)"""
        w = self.next()
        if w[0] == "%": return ("r", w)
        if w[0] == "@": return ("g", w, self.mod)
        if re.fullmatch(r"-?\d+", w): return ("c", int(w) & ((1 << t[1]) - 1))
        if w in ("null", "none"): return ("c", 0)
        if w == "true": return ("c", 1)
        if w == "false": return ("c", 0)
        if w in ("undef", "poison"): return ("c", undef_of(t))
        if w == "zeroinitializer": return ("c", zero_of(t))
        if w.startswith('c"'):
            out, s, i = [], w[2:-1], 0
            while i < len(s):
                if s[i:i + 2] == "\\\\":
                    out.append(92); i += 2
                elif s[i] == "\\":
                    out.append(int(s[i + 1:i + 3], 16)); i += 3
                else:
                    out.append(ord(s[i])); i += 1
            return ("c", out)
        if w in ("{", "<{", "["):
            end = {"{": "}", "<{": "}>", "[": "]"}[w]
            xs = []
            while not self.eat(end):
                ty = self.type()
                xs.append(self.value(ty))
                self.eat(",")
            return ("l", xs)
        if w in ("inttoptr", "ptrtoint", "bitcast"):
            self.need("(")
            ty = self.type(); v = self.value(ty)
            self.need("to"); self.type(); self.need(")")
            return v
        if w == "getelementptr":
            while self.peek() != "(": self.next()
            self.need("(")
            ty = self.type(); self.need(",")
            pt = self.type(); base = self.value(pt)
            idx = []
            while self.eat(","):
                it = self.type(); idx.append((it, self.value(it)))
            self.need(")")
            return ("gep", ty, base, idx)
        raise NoVerdict(f"parse: value {w} in {' '.join(self.t)[:300]}")


def store_size(t):
    """Bytes read and written for a scalar (an i24 occupies four, of which three are written)."""
    return (t[1] + 7) // 8 if t[0] == "i" else size_align(t)[0]


def undef_of(t):
    if t[0] in "as": return [undef_of(f) for _, f in offsets(t)]
    return Raw([None] * store_size(t))


def zero_of(t):
    if t[0] in "as": return [zero_of(f) for _, f in offsets(t)]
    return 0


class Func:
    __slots__ = ("name", "pretty", "params", "ret", "blocks", "at", "mod", "addr", "entry")


NAME = r'(?:"[^"]*"|[-\w.$]+)'


class Module:
    """A file of IR. It is indexed at first; what is used of it is parsed by `Program.prepare`, and the rest forgotten."""
    def __init__(self, path):
        self.path, self.text = path, open(path).read()
        self.funcs, self.globals, self.types = {}, {}, {}
        for m in re.finditer(r'^(?:define [^\n]*?(@%s)\(|(@%s) = ([^\n]*)|(%%%s) = type ([^\n]*))' % (NAME, NAME, NAME), self.text, re.M):
            if m.group(1):
                f = Func()
                f.name, f.pretty, f.mod, f.at, f.blocks, f.params = m.group(1), m.group(1)[1:], self, (m.start(), m.end() - 1), None, None
                self.funcs[f.name] = f
            elif m.group(2): self.globals[m.group(2)] = m.span(3)
            else: self.types[m.group(4)] = m.group(5)

    def exported(self, name):
        a, b = self.globals[name]
        return not re.match(r"(private|internal|external)\b", self.text[a:a + 10])


def decode(f):
    """the instructions of a function, as tuples, by block"""
    whole = f.mod.text
    start, paren = f.at
    k = whole.index("\n", paren)
    for l in reversed(whole[max(0, start - 9000):start].splitlines()):       # the comments above it
        if not l.startswith(";"): break
        if not l.startswith("; Function Attrs"): f.pretty = l[2:].strip()
    p = Parser(whole[paren:k], f.mod)
    p.need("(")
    f.params = []
    while not p.eat(")"):
        t = p.type(); p.attrs()
        f.params.append((t, p.next()))
        p.eat(",")
    text = []
    for l in whole[k + 1:whole.index("\n}\n", k)].split("\n"):
        if not l.strip() or l.lstrip()[0] == ";": continue
        if l.startswith("          ") and text: text[-1] += " " + l.strip()
        elif text and text[-1].lstrip().startswith("switch") and "]" not in text[-1]: text[-1] += " " + l.strip()
        else: text.append(l)
    f.blocks, cur, first = {}, None, None
    for s in text:
        m = re.match(r'("[^"]*"|[-\w.$]+):', s)
        if m and s[0] != " ":
            cur = f.blocks["%" + m.group(1)] = []
            first = first or "%" + m.group(1)
            continue
        if cur is None:
            first = "%" + str(len(f.params))
            cur = f.blocks[first] = []
        cur.append(instr(META.sub("", s.strip()), f.mod))
    f.entry = first


CASTS = ("trunc", "zext", "sext", "ptrtoint", "inttoptr", "bitcast")
BIN = ("add", "sub", "mul", "udiv", "urem", "sdiv", "srem", "and", "or", "xor", "shl", "lshr", "ashr")


def instr(s, mod):
    p = Parser(s, mod)
    dst = None
    if p.peek()[0] == "%" and p.peek(1) == "=":
        dst = p.next(); p.next()
    op = p.next()
    while op in ("tail", "musttail", "notail"): op = p.next()
    if op == "alloca":
        t = p.type()
        al = size_align(t)[1]
        while p.peek():
            if p.next() == "align": al = int(p.next())
        return ("alloca", dst, size_align(t)[0], al)
    if op == "load":
        p.eat("volatile")
        if p.eat("atomic"): pass
        t = p.type(); p.need(","); p.type(); v = p.value(PTR)
        al = 1
        while p.peek():
            if p.next() == "align": al = int(p.next())
        return ("load", dst, t, v, al)
    if op == "store":
        p.eat("volatile"); p.eat("atomic")
        t = p.type(); v = p.value(t); p.need(","); p.type(); a = p.value(PTR)
        al = 1
        while p.peek():
            if p.next() == "align": al = int(p.next())
        return ("store", t, v, a, al)
    if op == "getelementptr":
        while p.peek() in ("inbounds", "nuw", "nusw"): p.next()
        t = p.type(); p.need(","); p.type(); b = p.value(PTR)
        idx = []
        while p.eat(","):
            it = p.type(); idx.append((it, p.value(it)))
        return ("gep", dst, t, b, idx)
    if op in BIN:
        flags = set()
        while p.peek() in ("nuw", "nsw", "exact", "disjoint"): flags.add(p.next())
        t = p.type(); a = p.value(t); p.need(","); b = p.value(t)
        return ("bin", dst, op, t, a, b, flags)
    if op == "icmp":
        p.eat("samesign")
        c = p.next(); t = p.type(); a = p.value(t); p.need(","); b = p.value(t)
        return ("icmp", dst, c, t, a, b)
    if op in CASTS:
        flags = set()
        while p.peek() in ("nuw", "nsw", "nneg"): flags.add(p.next())
        t = p.type(); v = p.value(t); p.need("to"); u = p.type()
        return ("cast", dst, op, t, v, u, flags)
    if op == "select":
        p.type(); c = p.value(I[1]); p.need(","); t = p.type(); a = p.value(t); p.need(","); p.type(); b = p.value(t)
        return ("select", dst, c, a, b, t)
    if op == "extractvalue":
        t = p.type(); v = p.value(t); ix = []
        while p.eat(","): ix.append(int(p.next()))
        return ("extract", dst, v, ix)
    if op == "insertvalue":
        t = p.type(); v = p.value(t); p.need(","); et = p.type(); e = p.value(et); ix = []
        while p.eat(","): ix.append(int(p.next()))
        return ("insert", dst, v, e, ix)
    if op == "freeze":
        t = p.type(); return ("freeze", dst, p.value(t), t)
    if op == "br":
        if p.eat("label"): return ("jmp", p.next())
        p.type(); c = p.value(I[1]); p.need(","); p.need("label"); a = p.next(); p.need(","); p.need("label")
        return ("br", c, a, p.next())
    if op == "switch":
        t = p.type(); v = p.value(t); p.need(","); p.need("label"); d = p.next(); p.need("[")
        cases = []
        while not p.eat("]"):
            ty = p.type(); c = p.value(ty); p.need(","); p.need("label")
            cases.append((c[1], p.next()))
        return ("switch", v, d, cases, t)
    if op == "ret":
        t = p.type()
        return ("ret", None if t == VOID else p.value(t))
    if op == "unreachable": return ("unreachable",)
    if op == "resume": return ("resume",)
    if op == "phi":
        t = p.type(); xs = {}
        while True:
            p.need("["); v = p.value(t); p.need(","); b = p.next(); p.need("]")
            xs[b] = v
            if not p.eat(","): break
        return ("phi", dst, xs)
    if op == "landingpad":
        p.type()
        kind = "cleanup"
        rest = s[s.index("landingpad"):]
        if "filter" in rest: kind = "filter"
        elif "catch" in rest: kind = "catch"
        return ("landingpad", dst, kind)
    if op in ("call", "invoke"):
        p.mod = mod
        while True:          # calling convention, return attributes
            w = p.peek()
            if w in ("ptr", "void", "[", "{", "<{", "float", "double", "half") or re.fullmatch(r"i\d+", w): break
            p.next()
            if w == "align": p.next()
            elif p.peek() == "(": p.skip_parens()
        rt = p.type()
        if p.peek() == "(": p.skip_parens()      # a variadic function type
        if p.peek() == "asm": raise NoVerdict("inline assembly: " + s[:200])
        callee = p.value(PTR)
        p.need("(")
        args = []
        while not p.eat(")"):
            t = p.type()
            if t == ("m",): pass
            p.attrs()
            args.append((t, p.value(t)))
            p.eat(",")
        if op == "call": return ("call", dst, rt, callee, args)
        while p.peek() != "to": p.next()
        p.need("to"); p.need("label"); n = p.next(); p.need("unwind"); p.need("label")
        return ("invoke", dst, rt, callee, args, n, p.next())
    raise NoVerdict("instruction: " + s[:200])


# ---------------------------------------------------------------------------------------------- program

class Obj:
    __slots__ = ("base", "size", "align", "data", "live", "kind", "name")


FN_BASE = 0x1000


def PANICS(n):
    """functions that panic, which are not run but modelled"""
    return any(x in n for x in ("core9panicking", "expect_failed", "unwrap_failed", "len_mismatch_fail", "handle_error", "handle_alloc_error", "capacity_overflow",
                                "panic", "_fail", "slice_error_fail", "5index16slice_"))


class Program:
    def __init__(self, paths):
        self.mods = [Module(p) for p in paths]
        for m in self.mods:
            if os.path.basename(m.path) in ("core.ll", "alloc.ll"):
                for n in [n for n in m.funcs if PANICS(n)]: del m.funcs[n]
        self.by_name, self.fn_at = {}, {}
        n = FN_BASE
        for m in self.mods:
            for f in m.funcs.values():
                self.by_name.setdefault(f.name, f)
                f.addr = n
                self.fn_at[n] = f
                n += 16
        self.ext_addr, self.next_fn = {}, n
        # The image of the globals: each is given a place when it is first named, and its content when it is first used.
        # `global`s, unlike constants, are copied into the path that uses them.
        self.gobjs, self.gbases, self.gaddr, self.ginit = {}, [], {}, {}
        self.gmod, self.gin = {}, {}
        for m in self.mods:
            for name in m.globals:
                if name not in self.gmod and m.exported(name): self.gmod[name] = m
        self.gnext = 0x10000000
        self.heap_base = 0x100000000

    def gplace(self, m, name):
        """the address of a global as `m` names it, or None"""
        a = self.gaddr.get((m, name))
        if a is not None: return a
        for d in (m, self.gmod.get(name)):
            if d is None or d.text is None or name not in d.globals: continue
            text = d.text[slice(*d.globals[name])]
            g = re.match(r'(.*?)\b(constant|global)\b (.*)$', text)
            if not g or "external" in g.group(1) or re.search(r"\balias\b", g.group(1)): continue
            a = self.gaddr.get((d, name))
            if a is None:
                p = Parser(META.sub("", g.group(3)), d)
                t = p.type()
                al = size_align(t)[1]
                k = re.search(r', align (\d+)', text)
                if k: al = int(k.group(1))
                o = Obj()
                o.size, o.align, o.live, o.kind, o.name, o.data = size_align(t)[0], al, True, ("const" if g.group(2) == "constant" else "global"), name, None
                a = o.base = place(self.gnext, al)
                self.gnext = a + o.size + 256
                self.gobjs[a] = o
                self.gbases.append(a)
                self.ginit[a] = (t, p)
                self.gaddr[(d, name)], self.gin[a] = a, d
            self.gaddr[(m, name)] = a
            return a
        return None

    def prepare(self, entries):
        """Decode what the entries can reach; forget the rest."""
        seen, todo, done = set(), [(f.mod, f.name) for f in (self.by_name["@" + e] for e in entries)], set()
        names = re.compile("@" + NAME)
        while todo:
            m, n = todo.pop()
            f = m.funcs.get(n)
            a = self.gplace(m, n) if f is None and n in m.globals else None
            if f is None and a is None:
                f = self.by_name.get(n)
                if f is None: a = self.gplace(m, n)
            if f is not None and f not in seen:
                seen.add(f)
                try: decode(f)
                except NoVerdict as e: f.blocks, f.entry = None, str(e)
                text = f.mod.text[f.at[1]:f.mod.text.index("\n}\n", f.at[1])]
                todo += [(f.mod, x) for x in set(names.findall(text))]
            elif a is not None and a not in done:
                done.add(a)
                d = self.gin[a]
                todo += [(d, x) for x in names.findall(d.text[slice(*d.globals[n])])]
        for a in done:
            try: self.gobj(a)
            except NoVerdict: pass
        for m in self.mods: m.text = None
        for f in [f for m in self.mods for f in m.funcs.values() if f not in seen]:
            del f.mod.funcs[f.name]
            del self.fn_at[f.addr]
            if self.by_name.get(f.name) is f: del self.by_name[f.name]

    def gobj(self, base):
        o = self.gobjs[base]
        if o.data is None:
            t, p = self.ginit.pop(base)
            o.data = [None] * o.size
            self.init(o.data, 0, t, p.value(t))
        return o

    def symbol(self, m, name):
        if name in m.funcs: return m.funcs[name].addr
        a = self.gplace(m, name) if name in m.globals else None
        if a is not None: return a
        f = self.by_name.get(name)
        if f: return f.addr
        a = self.gplace(m, name)
        if a is not None: return a
        if name not in self.ext_addr:
            self.ext_addr[name] = self.next_fn
            self.fn_at[self.next_fn] = name
            self.next_fn += 16
        return self.ext_addr[name]

    def const(self, v):
        k = v[0]
        if k == "c": return v[1]
        if k == "g": return self.symbol(v[2], v[1])
        if k == "l": return [self.const(x) for x in v[1]]
        if k == "gep":
            a = self.const(v[2])
            return (a + gep_offset(v[1], [(t, self.const(x)) for t, x in v[3]])) & M64
        raise NoVerdict(f"constant {v}")

    def init(self, data, off, t, v):
        v = self.const(v) if isinstance(v, tuple) else v
        if t[0] in "as":
            if isinstance(v, Raw): return
            for (o, f), x in zip(offsets(t), v): self.init(data, off + o, f, x)
        elif isinstance(v, Raw):
            pass
        else:
            s = size_align(t)[0]
            data[off:off + s] = list((v & ((1 << 8 * s) - 1)).to_bytes(s, "little"))


def place(n, al):
    """an address aligned to `al` and to nothing more"""
    return (n + 2 * al - 1) // (2 * al) * (2 * al) + al


def signed(v, n):
    return v - (1 << n) if v >> (n - 1) else v


def gep_offset(t, idx):
    off = signed(idx[0][1], idx[0][0][1]) * size_align(t)[0]
    for ty, i in idx[1:]:
        if t[0] == "a":
            off += signed(i, ty[1]) * size_align(t[2])[0]
            t = t[2]
        else:
            o, t = offsets(t)[i]
            off += o
    return off


# ---------------------------------------------------------------------------------------------- execution

class Path:
    """one path; where it branches, a copy of the process goes the other way"""

    def __init__(self, prog, pool, limit):
        self.prog, self.pool, self.limit = prog, pool, limit
        self.solver = z3.Solver()
        self.nsym = 0
        self.syms = []                   # what the replay needs, in the order it is asked for
        self.objs, self.bases, self.globals = {}, [], {}
        self.next = prog.heap_base
        self.live = 0
        self.stack = []
        self.armed, self.thrown, self.points, self.k = False, False, 0, None
        self.ever = False                # user code has panicked
        self.unwinding = False           # a panic is on its way to its catch
        self.steps = 0

    # ---- solver

    def check(self, *cs):
        t = time.time()
        r = self.solver.check(*cs)
        self.pool.stats["solver_s"] += time.time() - t
        self.pool.stats["queries"] += 1
        if r == z3.unknown: raise NoVerdict("the solver gave no answer")
        return r == z3.sat

    def fork(self, cond):
        """cond: a Z3 Bool. Which way this path goes; a new process takes the other one, if there is one."""
        cond = z3.simplify(cond)
        if z3.is_true(cond): return True
        if z3.is_false(cond): return False
        t, f = self.check(cond), self.check(z3.Not(cond))
        if t and f and self.pool.split(self): t = False
        elif not t and not f: raise PathEnd("infeasible")
        self.solver.add(cond if t else z3.Not(cond))
        return t

    def concrete(self, v, what):
        if isinstance(v, int): return v
        if isinstance(v, Raw): raise Violation(f"undefined bytes used as {what}")
        while True:
            if not self.check(): raise PathEnd("infeasible")
            x = self.solver.model().eval(v, model_completion=True).as_long()
            if self.check(v != x) and self.pool.split(self):
                self.solver.add(v != x)
                continue
            self.solver.add(v == x)
            return x

    def sym(self, bits, tag):
        v = z3.BitVec(f"v{self.nsym}", bits)
        self.nsym += 1
        self.syms.append((tag, v))
        return v

    # ---- memory

    def new(self, size, align, kind, name):
        o = Obj()
        o.base = place(self.next, align)
        self.next = o.base + size + 4096
        o.size, o.align, o.data, o.live, o.kind, o.name = size, align, [None] * size, True, kind, name
        self.objs[o.base] = o
        self.bases.append(o.base)
        return o

    def global_(self, base):
        o = self.globals.get(base)
        if o is None:
            g = o = self.prog.gobj(base)
            if g.kind == "global":
                o = Obj()
                o.base, o.size, o.align, o.data, o.live, o.kind, o.name = g.base, g.size, g.align, list(g.data), True, g.kind, g.name
            self.globals[base] = o
        return o

    def find(self, addr, n, al, what):
        if isinstance(addr, Raw): raise Violation(f"{what} through an undefined pointer")
        if not isinstance(addr, int): addr = self.concrete(addr, "an address")
        if addr < self.prog.heap_base:
            i = bisect.bisect_right(self.prog.gbases, addr) - 1
            o = self.global_(self.prog.gbases[i]) if i >= 0 else None
        else:
            i = bisect.bisect_right(self.bases, addr) - 1
            o = self.objs[self.bases[i]] if i >= 0 else None
        if o is None or addr + n > o.base + o.size:
            if o is not None and addr - o.base < o.size + 4096: raise Violation(f"{what} of {n} bytes at offset {addr - o.base} of {o.name} of {o.size} bytes")
            raise Violation(f"{what} of {n} bytes at {addr:#x}, which is in no object")
        if not o.live: raise Violation(f"{what} of {n} bytes in {o.name}, which has been released")
        if addr % al: raise Violation(f"{what} of {n} bytes at {addr:#x}, which is not aligned to {al}")
        return o, addr - o.base

    def load(self, t, addr, al):
        if t[0] in "as":
            addr = self.concrete(addr, "an address")
            return [self.load(f, addr + o, 1) for o, f in offsets(t)]
        n = store_size(t)
        o, off = self.find(addr, n, al, "read")
        b = o.data[off:off + n]
        return self.pack(b, t)

    def pack(self, b, t):
        r, sh, ok = 0, 0, True
        for x in b:
            if x.__class__ is not int:
                ok = False
                break
            r |= x << sh
            sh += 8
        if ok:
            return r & ((1 << t[1]) - 1) if t[0] == "i" else r
        if any(x is None for x in b): return Raw(b)
        v = z3.Concat(*[z3.BitVecVal(x, 8) if isinstance(x, int) else x for x in reversed(b)]) if len(b) > 1 else b[0]
        v = z3.simplify(v)
        if t[0] == "i" and t[1] < 8 * len(b): v = z3.simplify(z3.Extract(t[1] - 1, 0, v))
        return v.as_long() if z3.is_bv_value(v) else v

    def unpack(self, v, t):
        n = store_size(t)
        if isinstance(v, int): return list((v & ((1 << 8 * n) - 1)).to_bytes(n, "little"))
        if isinstance(v, Raw): return (v.b + [None] * n)[:n]
        if v.size() < 8 * n: v = z3.ZeroExt(8 * n - v.size(), v)
        out = []
        for i in range(n):
            e = z3.simplify(z3.Extract(8 * i + 7, 8 * i, v))
            out.append(e.as_long() if z3.is_bv_value(e) else e)
        return out

    def store(self, t, v, addr, al):
        if t[0] in "as":
            addr = self.concrete(addr, "an address")
            if isinstance(v, Raw): v = undef_of(t)
            for (o, f), x in zip(offsets(t), v): self.store(f, x, addr + o, 1)
            return
        n = store_size(t)
        o, off = self.find(addr, n, al, "write")
        if o.kind == "const": raise Violation(f"write to the constant {o.name}")
        o.data[off:off + n] = self.unpack(v, t)

    def copy(self, d, s, n, overlap):
        n = self.concrete(n, "a length")
        if n == 0: return
        so, soff = self.find(s, n, 1, "read")
        do, doff = self.find(d, n, 1, "write")
        if do.kind == "const": raise Violation(f"write to the constant {do.name}")
        if so is do and not overlap and soff != doff and abs(soff - doff) < n: raise Violation("copy between overlapping regions")
        do.data[doff:doff + n] = so.data[soff:soff + n]

    def heap(self, size, al):
        size, al = self.concrete(size, "a size"), self.concrete(al, "an alignment")
        if size == 0: raise Violation("allocation of no bytes")
        if size > 1 << 24: raise NoVerdict(f"allocation of {size} bytes")
        self.live += 1
        return self.new(size, al, "heap", f"heap block {self.live}")

    def release(self, p, size, al):
        p, size, al = self.concrete(p, "a pointer"), self.concrete(size, "a size"), self.concrete(al, "an alignment")
        o = self.objs.get(p)
        if o is None or o.kind != "heap": raise Violation("release of something that is no heap block")
        if not o.live: raise Violation("release of a heap block already released")
        if (size, al) != (o.size, o.align): raise Violation(f"heap block of {o.size} bytes aligned to {o.align} released as {size} bytes aligned to {al}")
        o.live = False
        self.live -= 1
        return o

    # ---- values

    def val(self, fr, v):
        k = v[0]
        if k == "r": return fr[v[1]]
        if k == "c": return v[1]
        return self.prog.const(v)

    def num(self, v, what):
        if isinstance(v, Raw): raise Violation(f"undefined bytes used in {what}")
        return v

    def bv(self, v, n): return z3.BitVecVal(v, n) if isinstance(v, int) else v

    def simp(self, e):
        e = z3.simplify(e)
        return e.as_long() if z3.is_bv_value(e) else e

    def boolv(self, c):
        c = z3.simplify(c)
        if z3.is_true(c): return 1
        if z3.is_false(c): return 0
        return z3.If(c, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))

    def truth(self, v, what):
        if isinstance(v, int): return bool(v)
        self.num(v, what)
        return self.fork(v == 1)

    def binop(self, op, t, a, b, flags):
        n = t[1]
        if isinstance(a, Raw) or isinstance(b, Raw):
            raise Violation(f"undefined bytes used in arithmetic ({op})")
        m = (1 << n) - 1
        if op in ("udiv", "urem", "sdiv", "srem"):
            if isinstance(b, int):
                if b == 0: raise Violation("division by zero")
            elif self.fork(b == 0): raise Violation("division by zero")
        if isinstance(a, int) and isinstance(b, int):
            if op == "add":
                r = a + b
                if "nuw" in flags and r > m: raise Violation("unchecked addition overflows")
                return r & m
            if op == "sub":
                if "nuw" in flags and b > a: raise Violation("unchecked subtraction overflows")
                return (a - b) & m
            if op == "mul":
                if "nuw" in flags and a * b > m: raise Violation("unchecked multiplication overflows")
                return (a * b) & m
            if op == "udiv":
                if "exact" in flags and a % b: raise Violation("division that should be exact is not")
                return a // b
            if op == "urem": return a % b
            if op == "and": return a & b
            if op == "or": return a | b
            if op == "xor": return a ^ b
            if op == "shl": return (a << b) & m if b < n else 0
            if op == "lshr": return a >> b
            if op == "ashr": return (signed(a, n) >> b) & m
            sa, sb = signed(a, n), signed(b, n)
            q = abs(sa) // abs(sb) * (1 if (sa < 0) == (sb < 0) else -1)
            if op == "sdiv":
                if "exact" in flags and q * sb != sa: raise Violation("division that should be exact is not")
                return q & m
            return (sa - q * sb) & m
        x, y = self.bv(a, n), self.bv(b, n)
        r = {"add": lambda: x + y, "sub": lambda: x - y, "mul": lambda: x * y, "udiv": lambda: z3.UDiv(x, y), "urem": lambda: z3.URem(x, y),
             "sdiv": lambda: x / y, "srem": lambda: z3.SRem(x, y), "and": lambda: x & y, "or": lambda: x | y, "xor": lambda: x ^ y,
             "shl": lambda: x << y, "lshr": lambda: z3.LShR(x, y), "ashr": lambda: x >> y}[op]()
        return self.simp(r)

    def cmp(self, c, t, a, b):
        if isinstance(a, Raw) or isinstance(b, Raw): raise Violation("undefined bytes compared")
        n = 64 if t == PTR else t[1]
        if isinstance(a, int) and isinstance(b, int):
            if c[0] == "s": a, b = signed(a, n), signed(b, n)
            c = c if c in ("eq", "ne") else c[1:]
            return int({"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[c])
        x, y = self.bv(a, n), self.bv(b, n)
        return self.boolv({"eq": lambda: x == y, "ne": lambda: x != y, "ult": lambda: z3.ULT(x, y), "ule": lambda: z3.ULE(x, y),
                           "ugt": lambda: z3.UGT(x, y), "uge": lambda: z3.UGE(x, y), "slt": lambda: x < y, "sle": lambda: x <= y,
                           "sgt": lambda: x > y, "sge": lambda: x >= y}[c]())

    def cast(self, op, t, v, u, flags):
        if isinstance(v, list): raise NoVerdict("cast of an aggregate")
        if isinstance(v, Raw):
            if op in ("ptrtoint", "inttoptr", "bitcast") and size_align(t) == size_align(u): return v
            raise Violation(f"undefined bytes converted ({op})")
        a = 64 if t == PTR else t[1]
        b = 64 if u == PTR else u[1]
        if op == "trunc":
            if isinstance(v, int):
                if "nuw" in flags and v >> b: raise Violation(f"the value {v} where only {b} bits may be set")
                return v & ((1 << b) - 1)
            return self.simp(z3.Extract(b - 1, 0, v))
        if op == "zext" or op in ("ptrtoint", "inttoptr", "bitcast"):
            if isinstance(v, int): return v & ((1 << b) - 1)
            if b > a: return self.simp(z3.ZeroExt(b - a, v))
            return self.simp(z3.Extract(b - 1, 0, v)) if b < a else v
        if op == "sext":
            if isinstance(v, int): return signed(v, a) & ((1 << b) - 1)
            return self.simp(z3.SignExt(b - a, v))

    # ---- calls

    def call_any(self, callee, args, rt):
        if callee[0] == "g":
            name = callee[1]
            f = callee[2].funcs.get(name) or self.prog.by_name.get(name)
            if f is None: return self.external(name, args, rt)
        else:
            pass
        if callee[0] != "g":
            a = self.concrete(callee[1], "a function pointer")
            f = self.prog.fn_at.get(a)
            if f is None: raise Violation(f"call of {a:#x}, which is no function")
            if isinstance(f, str): return self.external(f, args, rt)
        return self.call(f, args)

    def call(self, f, args):
        if f.blocks is None: raise NoVerdict(f.entry)
        self.pool.stats["functions"].add(f.pretty)
        if len(args) != len(f.params): raise Violation(f"call of {f.pretty} with {len(args)} arguments")
        fr = {}
        for (t, n), a in zip(f.params, args): fr[n] = a
        if len(self.stack) > 400: raise NoVerdict("recursion deeper than 400 calls")
        self.stack.append(f)
        allocas = []
        try:
            r = self.run(f, fr, allocas)
        except (Throw, PathEnd):
            for o in allocas: o.live = False
            self.stack.pop()
            raise
        for o in allocas: o.live = False
        self.stack.pop()
        return r

    def run(self, f, fr, allocas):
        blocks, val = f.blocks, self.val
        cur, prev = f.entry, None
        depth = len(self.stack)
        while True:
            block = blocks[cur]
            nxt = None
            for ins in block:
                op = ins[0]
                if op == "load": fr[ins[1]] = self.load(ins[2], val(fr, ins[3]), ins[4])
                elif op == "store": self.store(ins[1], val(fr, ins[2]), val(fr, ins[3]), ins[4])
                elif op == "gep":
                    b = val(fr, ins[3])
                    if isinstance(b, Raw): raise Violation("arithmetic on an undefined pointer")
                    ix = [(t, self.num(val(fr, v), "pointer arithmetic")) for t, v in ins[4]]
                    if all(isinstance(i, int) for _, i in ix):
                        fr[ins[1]] = (b + gep_offset(ins[2], ix)) & M64 if isinstance(b, int) else self.simp(b + gep_offset(ins[2], ix))
                    else:
                        if len(ix) > 1: ix = [(t, self.concrete(i, "an index")) for t, i in ix]; fr[ins[1]] = self.simp(self.bv(b, 64) + gep_offset(ins[2], ix))
                        else: fr[ins[1]] = self.simp(self.bv(b, 64) + (ix[0][1] if ix[0][1].size() == 64 else z3.SignExt(64 - ix[0][1].size(), ix[0][1])) * size_align(ins[2])[0])
                elif op == "call" or op == "invoke":
                    c = ins[3]
                    if c[0] == "r": c = ("p", fr[c[1]])
                    elif c[0] != "g": c = ("p", val(fr, c))
                    args = [val(fr, v) for _, v in ins[4]]
                    if op == "call":
                        r = self.call_any(c, args, ins[2])
                    else:
                        try:
                            r = self.call_any(c, args, ins[2])
                            nxt = ins[5]
                        except Throw:
                            del self.stack[depth:]
                            nxt = ins[6]
                            r = None
                    if ins[1]: fr[ins[1]] = r
                elif op == "icmp": fr[ins[1]] = self.cmp(ins[2], ins[3], val(fr, ins[4]), val(fr, ins[5]))
                elif op == "br": nxt = ins[2] if self.truth(val(fr, ins[1]), "a branch") else ins[3]
                elif op == "jmp": nxt = ins[1]
                elif op == "alloca":
                    o = self.new(ins[2], ins[3], "stack", f"local {ins[1]} of {f.pretty}")
                    allocas.append(o)
                    fr[ins[1]] = o.base
                elif op == "bin": fr[ins[1]] = self.binop(ins[2], ins[3], val(fr, ins[4]), val(fr, ins[5]), ins[6])
                elif op == "cast": fr[ins[1]] = self.cast(ins[2], ins[3], val(fr, ins[4]), ins[5], ins[6])
                elif op == "extract":
                    v = val(fr, ins[2])
                    for i in ins[3]: v = v[i]
                    fr[ins[1]] = v
                elif op == "insert":
                    def put(v, ix, e):
                        v = list(v)
                        v[ix[0]] = e if len(ix) == 1 else put(v[ix[0]], ix[1:], e)
                        return v
                    fr[ins[1]] = put(val(fr, ins[2]), ins[4], val(fr, ins[3]))
                elif op == "select":
                    c = val(fr, ins[2])
                    a, b = val(fr, ins[3]), val(fr, ins[4])
                    if isinstance(c, int): fr[ins[1]] = a if c else b
                    elif ins[5][0] == "i" and not isinstance(c, Raw) and not isinstance(a, Raw) and not isinstance(b, Raw):
                        fr[ins[1]] = self.simp(z3.If(c == 1, self.bv(a, ins[5][1]), self.bv(b, ins[5][1])))
                    else: fr[ins[1]] = a if self.truth(c, "a selection") else b
                elif op == "ret":
                    self.steps += len(block)
                    return None if ins[1] is None else val(fr, ins[1])
                elif op == "switch":
                    v = self.num(val(fr, ins[1]), "a switch")
                    nxt = ins[2]
                    for c, l in ins[3]:
                        if (v == c) if isinstance(v, int) else self.fork(v == c):
                            nxt = l
                            break
                elif op == "phi": fr[ins[1]] = val(fr, ins[2][prev])
                elif op == "landingpad":
                    # selectors: 0 = cleanup, 1 = catch, -1 = filter (a function that may not unwind)
                    fr[ins[1]] = [1, {"cleanup": 0, "catch": 1, "filter": (1 << 32) - 1}[ins[2]]]
                elif op == "resume": raise Throw()
                elif op == "freeze":
                    v = val(fr, ins[2])
                    fr[ins[1]] = self.sym(ins[3][1], "freeze") if isinstance(v, Raw) else v
                elif op == "unreachable": raise Violation("code marked unreachable is reached")
                else: raise NoVerdict(f"instruction {op}")
            self.steps += len(block)
            if self.steps > self.limit: raise NoVerdict(f"more than {self.limit} instructions on one path")
            prev, cur = cur, nxt

    def external(self, name, a, rt):
        n = name.strip('@"')
        if n.startswith("llvm."):
            if n.startswith(("llvm.lifetime.start", "llvm.lifetime.end")):
                p = a[-1]
                if isinstance(p, int):
                    o = self.objs.get(p)
                    if o is not None and o.kind == "stack":
                        o.data = [None] * o.size
                        o.live = "start" in n
                return None
            if n.startswith(("llvm.dbg", "llvm.experimental.noalias")): return None
            if n.startswith("llvm.assume"):
                if isinstance(a[0], int):
                    if not a[0]: raise Violation("a false assumption is given to the optimiser")
                elif not self.fork(self.num(a[0], "an assumption") == 1): raise Violation("a false assumption is given to the optimiser")
                return None
            if n.startswith("llvm.expect"): return a[0]
            if n.startswith("llvm.is.constant"): return 0
            if n.startswith("llvm.memcpy"): return self.copy(a[0], a[1], a[2], False)
            if n.startswith("llvm.memmove"): return self.copy(a[0], a[1], a[2], True)
            if n.startswith("llvm.memset"):
                k = self.concrete(a[2], "a length")
                if k:
                    o, off = self.find(a[0], k, 1, "write")
                    if o.kind == "const": raise Violation("write to a constant")
                    o.data[off:off + k] = [None if isinstance(a[1], Raw) else a[1]] * k
                return None
            m = re.match(r"llvm\.([us])(max|min)\.i(\d+)", n)
            if m:
                w = int(m.group(3))
                c = self.cmp(m.group(1) + ("gt" if m.group(2) == "max" else "lt"), I[w], a[0], a[1])
                if isinstance(c, int): return a[0] if c else a[1]
                return self.simp(z3.If(c == 1, self.bv(a[0], w), self.bv(a[1], w)))
            m = re.match(r"llvm\.u(add|sub|mul)\.with\.overflow\.i(\d+)", n)
            if m:
                w = int(m.group(2)); k = m.group(1)
                x, y = self.num(a[0], "arithmetic"), self.num(a[1], "arithmetic")
                if isinstance(x, int) and isinstance(y, int):
                    r = {"add": x + y, "sub": x - y, "mul": x * y}[k]
                    return [r & ((1 << w) - 1), int(not 0 <= r < 1 << w)]
                X, Y = z3.ZeroExt(w, self.bv(x, w)), z3.ZeroExt(w, self.bv(y, w))
                r = {"add": X + Y, "sub": X - Y, "mul": X * Y}[k]
                return [self.simp(z3.Extract(w - 1, 0, r)), self.boolv(z3.Extract(2 * w - 1, w, r) != 0)]
            m = re.match(r"llvm\.s(add|sub|mul)\.with\.overflow\.i(\d+)", n)
            if m:
                w = int(m.group(2)); k = m.group(1)
                x, y = self.num(a[0], "arithmetic"), self.num(a[1], "arithmetic")
                X, Y = z3.SignExt(w, self.bv(x, w)), z3.SignExt(w, self.bv(y, w))
                r = {"add": X + Y, "sub": X - Y, "mul": X * Y}[k]
                lo = z3.simplify(z3.Extract(w - 1, 0, r))
                return [lo.as_long() if z3.is_bv_value(lo) else lo, self.boolv(z3.SignExt(w, lo) != r)]
            m = re.match(r"llvm\.s(add|sub)\.sat\.i(\d+)", n)
            if m:
                w = int(m.group(2))
                x, y = signed(self.concrete(a[0], "arithmetic"), w), signed(self.concrete(a[1], "arithmetic"), w)
                r = x + y if m.group(1) == "add" else x - y
                return max(min(r, (1 << (w - 1)) - 1), -(1 << (w - 1))) & ((1 << w) - 1)
            m = re.match(r"llvm\.abs\.i(\d+)", n)
            if m:
                w = int(m.group(1))
                return abs(signed(self.concrete(a[0], "arithmetic"), w)) & ((1 << w) - 1)
            m = re.match(r"llvm\.ptrmask\.", n)
            if m: return self.concrete(a[0], "a pointer") & self.concrete(a[1], "a mask")
            if n.startswith(("llvm.prefetch", "llvm.invariant", "llvm.launder", "llvm.strip", "llvm.sideeffect", "llvm.donothing")):
                return a[0] if rt != VOID and a else None
            m = re.match(r"llvm\.u(add|sub)\.sat\.i(\d+)", n)
            if m:
                w = int(m.group(2))
                x, y = self.concrete(a[0], "arithmetic"), self.concrete(a[1], "arithmetic")
                return min(x + y, (1 << w) - 1) if m.group(1) == "add" else max(x - y, 0)
            m = re.match(r"llvm\.(ctpop|ctlz|cttz|fshl|fshr|bswap)\.i(\d+)", n)
            if m:
                w = int(m.group(2))
                k = m.group(1)
                if k in ("fshl", "fshr"):
                    x, y, s = a
                    if not isinstance(s, int): s = self.concrete(s, "a shift")
                    s %= w
                    if k == "fshr": s = (w - s) % w
                    if isinstance(x, int) and isinstance(y, int): return ((x << s) | (y >> (w - s))) & ((1 << w) - 1) if s else x
                    if s == 0: return x
                    return self.simp((self.bv(x, w) << s) | z3.LShR(self.bv(y, w), w - s))
                x = self.concrete(a[0], "a bit count")
                if k == "ctpop": return bin(x).count("1")
                if k == "ctlz": return w - x.bit_length()
                if k == "cttz": return w if x == 0 else (x & -x).bit_length() - 1
                return int.from_bytes(x.to_bytes(w // 8, "little"), "big")
            if n.startswith("llvm.trap"): raise Violation("the process is aborted")
            raise NoVerdict(f"intrinsic {n}")
        # the harness's own primitives
        if n == "vp_more": return MORE
        if n == "vp_any": return self.sym(8, "any")
        if n == "vp_choose":
            v = self.sym(8, "any")
            self.solver.add(z3.And(z3.UGE(v, a[0]), z3.ULE(v, a[1])))
            return self.concrete(v, "a choice")
        if n == "vp_assume":
            if not self.truth(a[0], "an assumption"): raise PathEnd("assume")
            return None
        if n == "vp_check":
            if not self.truth(a[0], "a check"): raise Violation(f"check {self.text(a[1], a[2])}")
            return None
        if n == "vp_arm":
            self.armed, self.k, self.points, self.thrown = True, self.sym(8, "any"), 0, False
            return None
        if n == "vp_disarm":
            self.armed = False
            return None
        if n == "vp_point":
            if self.armed and not self.thrown:
                self.points += 1
                if self.fork(self.k == self.points):
                    self.thrown = self.ever = self.unwinding = True
                    raise Throw()
            return None
        if n == "vp_catch":
            depth = len(self.stack)
            try:
                self.call_any(("p", a[0]), [a[1]], VOID)
                return 0
            except Throw:
                del self.stack[depth:]
                self.unwinding = False
                return 1
        if n == "vp_live": return self.live
        if n == "vp_thrown": return int(self.ever)
        if n == "vp_witness":
            self.pool.stats["witness"].add(self.concrete(a[0], "a witness"))
            return None
        # the allocator
        if "___rust_alloc_zeroed" in n or n == "__rust_alloc_zeroed":
            o = self.heap(a[0], a[1])
            o.data = [0] * o.size
            return o.base
        if "___rust_alloc" in n and "error" not in n: return self.heap(a[0], a[1]).base
        if "___rust_dealloc" in n:
            self.release(a[0], a[1], a[2])
            return None
        if "___rust_realloc" in n:
            old = self.release(a[0], a[1], a[2])
            o = self.heap(a[3], a[2])
            k = min(o.size, old.size)
            o.data[:k] = old.data[:k]
            return o.base
        if "___rust_no_alloc_shim" in n: return None
        # panics of the standard library and of dync
        if "panic_in_cleanup" in n or "panic_nounwind" in n or "panic_cannot_unwind" in n: raise Violation(f"a panic that may not unwind aborts the process ({n})")
        if PANICS(n):
            self.pool.stats["panics"].add(n)
            if self.unwinding: raise Violation(f"a panic while unwinding aborts the process ({n})")
            self.unwinding = True
            raise Throw()
        if n in ("memcmp", "bcmp"):
            k = self.concrete(a[2], "a length")
            if k == 0: return 0
            x, xo = self.find(a[0], k, 1, "read")
            y, yo = self.find(a[1], k, 1, "read")
            for i in range(k):
                p, q = x.data[xo + i], y.data[yo + i]
                if p is None or q is None: raise Violation("undefined bytes compared")
                if isinstance(p, int) and isinstance(q, int):
                    if p != q: return 1 if p > q else (1 << 32) - 1
                elif not self.fork(self.bv(p, 8) == self.bv(q, 8)):
                    return 1 if self.fork(z3.UGT(self.bv(p, 8), self.bv(q, 8))) else (1 << 32) - 1
            return 0
        raise NoVerdict(f"external function {n}")

    def text(self, p, n):
        o, off = self.find(p, n, 1, "read")
        return bytes(o.data[off:off + n]).decode("utf8", "replace")


class Stop(Exception): pass             # a violation was found elsewhere, or time is up


class Processes:
    """The paths of a harness as a tree of processes: at most JOBS run at a time.

    A process that branches forks; the copy takes the other side. With a free slot both run on; otherwise the
    original waits for its copy. What a process saw since it was forked it appends to a file, as one line.
    """

    def __init__(self, harnesses, end, jobs, out):
        ctx = multiprocessing.get_context("fork")
        self.slots = ctx.Semaphore(jobs)
        self.alive = ctx.Array("q", len(harnesses))         # processes of each harness
        self.stop = ctx.Array("b", len(harnesses), lock=False)
        self.out, self.end, self.k = out, end, None
        self.fresh()

    def fresh(self):
        self.stats = {"queries": 0, "solver_s": 0.0, "forks": 0, "functions": set(), "panics": set(), "witness": set()}
        self.began, self.steps0 = time.process_time(), 0

    def fork(self, own, wait):
        """-> True in the copy"""
        with self.alive.get_lock(): self.alive[self.k] += 1
        pid = os.fork()
        if pid == 0:
            self.own = own
            self.fresh()
            return True
        if wait: os.waitpid(pid, 0)
        return False

    def split(self, path):
        if self.stop[self.k] or time.time() > self.end: raise Stop()
        self.stats["forks"] += 1
        own = self.slots.acquire(block=False)
        if not self.fork(own, not own): return False
        self.steps0 = path.steps
        return True

    def leave(self, res):
        try: os.write(self.out, (json.dumps(res) + "\n").encode())
        finally:
            with self.alive.get_lock(): self.alive[self.k] -= 1
            if self.own: self.slots.release()
            os._exit(0)


def explore(prog, entry, pool, limit):
    """The paths of one harness, in this process and its copies; does not return."""
    res = dict(paths=0, thrown=0, calm=0, skipped=0, found=[])
    p = Path(prog, pool, limit)
    try:
        msg = None
        try:
            p.call(prog.by_name["@" + entry], [])
            res["thrown" if p.ever else "calm"] = 1
        except Throw: msg = "a panic nobody asked for leaves the harness"
        except PathEnd: res["skipped"] = 1
        except Violation as e: msg = str(e)
        res["paths"] = 1
        if msg is not None and p.check():
            m = p.solver.model()
            res["found"].append({"what": msg, "stack": [g.pretty for g in p.stack][::-1][:12],
                                 "values": [m.eval(v, model_completion=True).as_long() for t, v in p.syms if t == "any"]})
            pool.stop[pool.k] += 1
    except NoVerdict as e:
        res["no_verdict"] = f"{e} (in {' < '.join(g.pretty for g in p.stack[:-4:-1])})"
    except Stop:
        if time.time() > pool.end: res["no_verdict"] = "out of time"
    except BaseException:
        import traceback
        res["no_verdict"] = "the executor failed: " + traceback.format_exc()[-600:]
    if "no_verdict" in res: pool.stop[pool.k] = 1
    st = pool.stats
    res.update(harness=entry, steps=p.steps - pool.steps0, seconds=time.process_time() - pool.began, queries=st["queries"], solver_s=st["solver_s"], forks=st["forks"],
               witness=sorted(st["witness"]), functions=sorted(x for x in st["functions"] if "dync" in x))
    pool.leave(res)


MORE = int(os.environ.get("VP_MORE", "0"))


def main(harnesses, seconds, jobs, files):
    """one JSON line per harness, within `seconds` altogether"""
    prog, end = Program(files), time.time() + seconds
    prog.prepare(harnesses)
    ctypes.CDLL(None).prctl(36, 1, 0, 0, 0)      # PR_SET_CHILD_SUBREAPER: processes whose original has ended are still ours
    gc.freeze()
    gc.disable()
    path = os.path.join(os.environ.get("TMPDIR", "/tmp"), "irx-%d.jsonl" % os.getpid())
    out = os.open(path, os.O_RDWR | os.O_CREAT | os.O_EXCL | os.O_APPEND, 0o600)
    os.unlink(path)
    pool = Processes(harnesses, end, jobs, out)
    total = {h: dict(harness=h, paths=0, steps=0, thrown=0, calm=0, skipped=0, found=[], seconds=0, queries=0, solver_s=0, forks=0,
                     witness=set(), functions=set(), open=True) for h in harnesses}
    at, lost, queue, reader = 0, None, list(enumerate(harnesses)), os.dup(out)

    def collect():
        nonlocal at
        data = os.pread(reader, 1 << 24, at)
        while b"\n" in data:
            n = data.rindex(b"\n") + 1
            at += n
            for line in data[:n].splitlines():
                r = json.loads(line)
                t = total[r["harness"]]
                for k in ("paths", "steps", "thrown", "calm", "skipped", "seconds", "queries", "solver_s", "forks"): t[k] += r[k]
                t["witness"].update(r["witness"])
                t["functions"].update(r["functions"])
                t["found"] = (t["found"] + r["found"])[:3]
                if "no_verdict" in r and not t.get("no_verdict"): t["no_verdict"] = r["no_verdict"]
            data = os.pread(reader, 1 << 24, at)

    def reap():
        nonlocal lost
        try:
            while True:
                pid, st = os.waitpid(-1, os.WNOHANG)
                if not pid: return
                if st: lost = "a process of the executor was lost (status %d)" % st
        except ChildProcessError: pass

    while any(t["open"] for t in total.values()):
        if queue and pool.slots.acquire(timeout=0.02):
            pool.k, h = queue.pop(0)
            total[h]["started"] = True
            if pool.fork(True, False): explore(prog, h, pool, 40_000_000)
        elif not queue: time.sleep(0.02)
        reap()
        done = [k for k, h in enumerate(harnesses) if total[h]["open"] and total[h].get("started") and (pool.alive[k] == 0 or lost or time.time() > end + 20)]
        collect()
        for k in done:
            t = total[harnesses[k]]
            t["open"] = False
            if pool.alive[k]: t.setdefault("no_verdict", lost or "out of time")
            for x in ("open", "started"): del t[x]
            r = dict(t, witness=sorted(t["witness"]), functions=sorted(t["functions"]), seconds=round(t["seconds"], 1), solver_s=round(t["solver_s"], 2))
            print(json.dumps(r), flush=True)
            t["open"] = False


if __name__ == "__main__":
    # irx.py HARNESS[,HARNESS..] SECONDS JOBS FILE.ll..
    main(sys.argv[1].split(","), float(sys.argv[2]), int(sys.argv[3]), sys.argv[4:])
