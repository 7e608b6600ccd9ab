"""Symbolic execution of Python functions by re-execution: inputs are proxy objects holding z3 terms; every branch on a proxy asks z3
which outcomes are feasible under the path condition, and each feasible one is followed. Obligations are decided by z3 for all values of a path."""
import z3, re, json, io, builtins, os, sys, time
class Unsupported(Exception): pass
class Violated(Exception): pass
class Known(Exception): pass
LISTED = {k["id"] for k in json.load(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json"))) if k.get("status") == "known"}
class Engine:
    def __init__(self): self.sol = None; self.concrete = None; self.reset()
    def reset(self):
        self.paths = 0; self.queries = 0; self.obligations = 0; self.discharged = 0; self.folded = 0; self.solver_s = 0.0; self.branches = 0; self.violations = []; self.covers = set(); self.samples = []; self.known = set()
    # -------- one run
    def begin(self, prefix, concrete=None):
        self.sol = z3.Solver(); self.prefix = prefix; self.pos = 0; self.inputs = []; self.concrete = concrete; self.names = {}; self.tr = []; self.tokens = {}; self.failed = None
    def sat(self, *c):
        t = time.time(); self.queries += 1; r = self.sol.check(*c); self.solver_s += time.time() - t
        if r == z3.unknown: raise Unsupported("solver gave no answer")
        return r == z3.sat
    def branch(self, c):
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        self.branches += 1
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]; self.pos += 1
        else:
            t = self.sat(c); f = self.sat(z3.Not(c)) if t else True
            d = t
            if t and f: self.todo.append(self.prefix[:self.pos] + [False])
            self.prefix = self.prefix[:self.pos] + [d]; self.pos += 1
        self.sol.add(c if d else z3.Not(c)); return d
    def int(self, name, lo, hi):
        k = self.names.get(name, 0); self.names[name] = k + 1
        if k: name = "%s#%d" % (name, k)
        if self.concrete is not None:
            v = self.concrete.get(name, lo); self.inputs.append((name, v)); return v
        x = z3.Int(name); self.sol.add(x >= lo, x <= hi); self.inputs.append((name, x)); return SInt(x)
    def bool(self, name): return bool(self.int(name, 0, 1) == 1)
    def choice(self, name, n):
        """a symbolic choice, decided by forking"""
        x = self.int(name, 0, n - 1)
        for i in range(n - 1):
            if x == i: return i
        return n - 1
    def check(self, c, msg):
        if isinstance(c, SBool): c = c.e
        self.obligations += 1
        if self.concrete is not None:
            if not c: raise Violated(msg)
            return
        if not z3.is_expr(c):
            if c: self.folded += 1; self.discharged += 1; return
            c = z3.BoolVal(False)
        if self.sat(z3.Not(c)): self.violations.append((msg, self.model(z3.Not(c)))); raise Violated(msg)
        self.discharged += 1
    def model(self, *c):
        self.sol.push(); self.sol.add(*c); self.sat(); m = self.sol.model(); self.sol.pop()
        return [(n, m.eval(x, model_completion=True).as_long()) for n, x in self.inputs]
    def finding(self, fid, msg):
        """a listed defect shows: this path ends without an alarm; an unlisted one is a violation"""
        if fid in LISTED: self.known.add(fid); raise Known(fid)
        self.check(False, msg)
    def cover(self, name): self.covers.add(name)
    def trace(self, name, v): self.tr.append((name, v))
    # -------- all runs
    def explore(self, harness, limit_s, nsamples=4):
        self.reset(); self.todo = [[]]; t0 = time.time(); self.ends = 0
        while self.todo:
            if time.time() - t0 > limit_s: raise Unsupported("time limit with %d paths open" % len(self.todo))
            self.begin(self.todo.pop()); self.paths += 1
            try:
                harness(self); self.ends += 1
                if len(self.samples) < nsamples and self.paths % 7 == 1 or len(self.samples) == 0:
                    m = self.model(); sub = [(x, z3.IntVal(v)) for (n, x), (_, v) in zip(self.inputs, m)]
                    self.samples.append((m, [(n, ev(v, sub)) for n, v in self.tr]))
            except Violated:
                if len(self.violations) >= 4: return
            except Known: pass
            except Unsupported: raise
            except Exception as e:
                self.violations.append(("unexpected %s: %s" % (type(e).__name__, str(e)[:200]), self.model()))
                if len(self.violations) >= 4: return
    def replay(self, harness, inp):
        self.begin([], dict(inp))
        try: harness(self)
        except Violated as e: return "failed: " + str(e)
        except Known: return None
        except Exception as e: return "unexpected %s: %s" % (type(e).__name__, str(e)[:200])
        return None
    # numbers as opaque digit strings: the text stays an ordinary str, int() of it gives the symbolic number back
    def token(self, v):
        if not isinstance(v, SInt): return str(v)
        t = "97%08d" % (len(self.tokens) + 1); self.tokens[t] = v; return t
E = Engine()
def ev(v, sub):
    if isinstance(v, (SInt, SBool)):
        r = z3.simplify(z3.substitute(v.e, *sub)); return r.as_long() if z3.is_int_value(r) else z3.is_true(r)
    if isinstance(v, SStr): return "".join(chr(ev(c, sub)) for c in v.c)
    if isinstance(v, (list, tuple)): return [ev(x, sub) for x in v]
    return v
def term(v):
    if isinstance(v, (SInt, SBool)): return v.e
    if isinstance(v, bool): return z3.BoolVal(v)
    if isinstance(v, int): return z3.IntVal(v)
    return None
class SBool:
    def __init__(self, e): self.e = e
    def __bool__(self): return E.branch(self.e)
    def __eq__(self, o): return SBool(self.e == term(o)) if isinstance(o, (SBool, bool)) else NotImplemented
    def __and__(self, o): return SBool(z3.And(self.e, term(o)))
    def __or__(self, o): return SBool(z3.Or(self.e, term(o)))
    def __invert__(self): return SBool(z3.Not(self.e))
    __rand__, __ror__ = __and__, __or__
    def __hash__(self): return 5
def _i(v): return isinstance(v, (SInt, int)) and not isinstance(v, SBool)
class SInt:
    def __init__(self, e): self.e = e
    def __hash__(self): return 7
    def __eq__(self, o): return SBool(self.e == term(o)) if _i(o) else False if not isinstance(o, float) else NotImplemented
    def __ne__(self, o): return SBool(self.e != term(o)) if _i(o) else True
    def __lt__(self, o): return SBool(self.e < term(o)) if _i(o) else NotImplemented
    def __le__(self, o): return SBool(self.e <= term(o)) if _i(o) else NotImplemented
    def __gt__(self, o): return SBool(self.e > term(o)) if _i(o) else NotImplemented
    def __ge__(self, o): return SBool(self.e >= term(o)) if _i(o) else NotImplemented
    def __add__(self, o): return SInt(self.e + term(o)) if _i(o) else NotImplemented
    def __radd__(self, o): return SInt(term(o) + self.e) if _i(o) else NotImplemented
    def __sub__(self, o): return SInt(self.e - term(o)) if _i(o) else NotImplemented
    def __rsub__(self, o): return SInt(term(o) - self.e) if _i(o) else NotImplemented
    def __mul__(self, o): return SInt(self.e * term(o)) if _i(o) else NotImplemented
    __rmul__ = __mul__
    def __neg__(self): return SInt(-self.e)
    def __pos__(self): return self
    def __abs__(self): return self if self >= 0 else -self
    def __bool__(self): return E.branch(self.e != 0)
    def conc(self):
        s = z3.simplify(self.e)
        if z3.is_int_value(s): return s.as_long()
        while True:
            if not E.sat(): raise Unsupported("no value")
            v = E.sol.model().eval(self.e, model_completion=True).as_long()
            # replayed prefixes have to meet the same questions: ask from the smallest value on
            while E.sat(self.e < v): E.sol.push(); E.sol.add(self.e < v); E.sat(); w = E.sol.model().eval(self.e, model_completion=True).as_long(); E.sol.pop(); v = w
            if E.branch(self.e == v): return v
    def __index__(self): return self.conc()
    __int__ = __index__
    def __float__(self): return float(self.conc())
    def __floordiv__(self, o): return self.conc() // o
    def __truediv__(self, o): return self.conc() / o
    def __mod__(self, o): return self.conc() % o
    def __str__(self): return E.token(self)
    def __repr__(self): return E.token(self)
    def __format__(self, spec): return format(E.token(self), re.sub("d$", "", spec))
class IntMeta(type):
    def __instancecheck__(cls, v): return isinstance(v, (builtins.int, SInt))
class sym_int(metaclass=IntMeta):
    """stands for int in the modules under test"""
    def __new__(cls, v=0, *a):
        if isinstance(v, SInt): return v
        if isinstance(v, str) and v.strip() in E.tokens: return E.tokens[v.strip()]
        if isinstance(v, SStr): v = v.conc()
        return builtins.int(v, *a)
WS = [9, 10, 11, 12, 13, 32]
class SStr:
    """text of known length with symbolic characters"""
    def __init__(self, c): self.c = [x if isinstance(x, SInt) else SInt(z3.IntVal(x)) for x in c]
    @staticmethod
    def of(v): return v if isinstance(v, SStr) else SStr([ord(x) for x in v])
    def conc(self): return "".join(chr(x.conc()) for x in self.c)
    def __hash__(self): return 11
    def __len__(self): return len(self.c)
    def __bool__(self): return len(self.c) > 0
    def eqx(self, o):
        o = SStr.of(o)
        return z3.BoolVal(False) if len(o.c) != len(self.c) else z3.And([a.e == b.e for a, b in zip(self.c, o.c)])
    def __eq__(self, o): return bool(SBool(self.eqx(o))) if isinstance(o, (str, SStr)) else NotImplemented
    def __ne__(self, o): return not self == o if isinstance(o, (str, SStr)) else NotImplemented
    def __lt__(self, o): return self.conc() < (o.conc() if isinstance(o, SStr) else o)
    def __gt__(self, o): return self.conc() > (o.conc() if isinstance(o, SStr) else o)
    def __iter__(self): return iter(SStr([x]) for x in self.c)
    def __getitem__(self, i): return SStr(self.c[i] if isinstance(i, slice) else [self.c[i]])
    def __add__(self, o): return SStr(self.c + SStr.of(o).c)
    def __radd__(self, o): return SStr(SStr.of(o).c + self.c)
    def at(self, o, i): return i + len(o) <= len(self.c) and SStr(self.c[i:i + len(o)]) == o
    def find(self, o, s=0):
        return next((i for i in range(s, len(self.c) - len(o) + 1) if self.at(o, i)), -1)
    def __contains__(self, o): return self.find(o) >= 0
    def startswith(self, o): return any(self.startswith(x) for x in o) if isinstance(o, tuple) else bool(self.at(o, 0))
    def endswith(self, o): return len(o) <= len(self.c) and bool(self.at(o, len(self.c) - len(o)))
    def removeprefix(self, o): return SStr(self.c[len(o):]) if self.startswith(o) else self
    def removesuffix(self, o): return SStr(self.c[:len(self.c) - len(o)]) if len(o) and self.endswith(o) else self
    def replace(self, o, n, count=-1):
        out = []; i = 0
        while i < len(self.c):
            if count != 0 and len(o) and self.at(o, i): out += SStr.of(n).c; i += len(o); count -= 1
            else: out.append(self.c[i]); i += 1
        return SStr(out)
    def _ws(self, x, chars): return bool(SBool(z3.Or([x.e == (ord(k) if isinstance(k, str) else k) for k in (chars if chars is not None else WS)])))
    def lstrip(self, chars=None):
        i = 0
        while i < len(self.c) and self._ws(self.c[i], chars): i += 1
        return SStr(self.c[i:])
    def rstrip(self, chars=None):
        i = len(self.c)
        while i > 0 and self._ws(self.c[i - 1], chars): i -= 1
        return SStr(self.c[:i])
    def strip(self, chars=None): return self.lstrip(chars).rstrip(chars)
    def isspace(self): return len(self.c) > 0 and len(self.strip()) == 0
    def isdigit(self): return len(self.c) > 0 and all(bool(SBool(z3.And(x.e >= 48, x.e <= 57))) for x in self.c)
    def __str__(self): return self.conc()
    def __repr__(self): return repr(self.conc())
    def __format__(self, spec): return format(self.conc(), spec)
    def __getattr__(self, n):
        if n.startswith("__"): raise AttributeError(n)
        return getattr(self.conc(), n)
def sym_ord(v):
    if isinstance(v, SStr): return v.c[0]
    return builtins_ord(v)
builtins_ord = builtins.ord
class JText:
    """the text json.dumps makes of a structure that may hold symbolic parts"""
    def __init__(self, o): self.o = o
    def __str__(self): return real_dumps(plain(self.o))
    __format__ = lambda self, spec: format(str(self), spec)
    def __radd__(self, o): return o + str(self)
    def __add__(self, o): return str(self) + o
def plain(o):
    if isinstance(o, dict): return {plain(k): plain(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)): return [plain(x) for x in o]
    if isinstance(o, (SStr, SInt)): return o.conc()
    return o
import re._parser as rp, re._constants as rc
def re_wrap(name, f):
    """a match whose pattern begins with a literal first asks for that character; other texts with symbolic parts are made concrete value by value"""
    def g(*a, **k):
        if name in ("match", "fullmatch") and len(a) == 2 and isinstance(a[1], SStr) and isinstance(a[0], str):
            p = list(rp.parse(a[0]))
            for i, (op, v) in enumerate(p):
                if op is not rc.LITERAL: break
                if i >= len(a[1].c) or not a[1].c[i] == v: return None
        return f(*[x.conc() if isinstance(x, SStr) else x for x in a], **k)
    return g
real_dumps, real_open, real_re = json.dumps, builtins.open, {n: getattr(re, n) for n in ("match", "search", "fullmatch", "sub", "split", "findall")}
class InFile:
    def __init__(self, lines): self.l = lines; self.i = 0
    def __enter__(self): return self
    def __exit__(self, *a): return False
    def __iter__(self): return self
    def __next__(self):
        if self.i >= len(self.l): raise StopIteration
        self.i += 1; return self.l[self.i - 1]
    def readline(self): return next(self, "")
    def readlines(self): r = self.l[self.i:]; self.i = len(self.l); return list(r)
    def read(self):
        r = SStr([])
        for x in self.readlines(): r = r + x
        return r
    def close(self): pass
class OutFile:
    def __init__(self, parts): self.p = parts
    def __enter__(self): return self
    def __exit__(self, *a): return False
    def write(self, x): self.p.append(x)
    def writelines(self, x): self.p.extend(x)
    def flush(self): pass
    def close(self): pass
class Files:
    """virtual files: reads of registered paths give symbolic lines, writes below the scratch folder are recorded"""
    def __init__(self, scratch, virtual_out=True): self.scratch = os.path.realpath(scratch); self.inp = {}; self.out = {}; self.v = virtual_out
    def open(self, path, mode="r", *a, **k):
        if isinstance(path, builtins.int): return real_open(path, mode, *a, **k)
        p = os.path.realpath(path)
        if p in self.inp and "r" in mode: return InFile(self.inp[p])
        if any(c in mode for c in "wxa"):
            if not p.startswith(self.scratch + os.sep): raise Unsupported("write outside the scratch folder: " + p)
            if self.v:
                if "a" not in mode or p not in self.out: self.out[p] = []
                return OutFile(self.out[p])
        return real_open(path, mode, *a, **k)
    def __enter__(self):
        builtins.open = self.open; io.open = self.open
        json.dumps = lambda o, *a, **k: JText(o)
        self.dump = json.dump; json.dump = lambda o, f, *a, **k: f.write(JText(o))
        for n, f in real_re.items(): setattr(re, n, re_wrap(n, f))
        return self
    def __exit__(self, *a):
        builtins.open = real_open; io.open = real_open; json.dumps = real_dumps; json.dump = self.dump
        for n, f in real_re.items(): setattr(re, n, f)
        return False
