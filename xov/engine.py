"""xov engine: a deductive verifier (verification-condition generator) for LLVM IR compiled from the real
sources in /repo.  See DESIGN.md for the semantics and the trusted base.

A proof harness (C++ function named xovproof_*) states a contract around real code: it creates arbitrary
inputs, assumes the precondition, runs the real function, and checks the postcondition.  The engine executes
it symbolically over SMT terms: all inputs at once; loops are cut by inductive invariants that are themselves
checked (initiation + consecution), never unrolled to an arbitrary bound.
"""
import poly
import os, json, time, subprocess, itertools, os, sys, re, hashlib
from fractions import Fraction
import z3

sys.setrecursionlimit(20000)

INT = z3.IntSort(); REAL = z3.RealSort(); BOOL = z3.BoolSort()
_S = z3.Datatype('Str'); _S.declare('mk', ('slen', INT), ('sdata', z3.ArraySort(INT, INT))); STR = _S.create()
ANY = z3.DeclareSort('Any')

class Unsupported(Exception): pass
class LoadChoice(Unsupported):
    def __init__(s, vals): super().__init__('symbolic offset to pointers'); s.vals = vals
class Abort(Exception): pass   # path ended (assume false)

class Ptr:
    __slots__ = ('r', 'i', 'o')
    def __init__(s, r, i=0, o=0): s.r = r; s.i = i; s.o = o
    def __repr__(s): return f'Ptr({s.r},{s.i},{s.o})'
NULL = Ptr(None)
class Fn:
    __slots__ = ('name',)
    def __init__(s, n): s.name = n
class PInt:      # ptrtoint
    __slots__ = ('p',)
    def __init__(s, p): s.p = p
class PDiff:     # difference of two pointers, in elements of stride S plus bytes
    __slots__ = ('d', 'S', 'o')
    def __init__(s, d, S, o): s.d = d; s.S = S; s.o = o

class Region:
    """arr: idx -> leaf arrays; flat: byte offset -> value"""
    __slots__ = ('rid', 'kind', 'S', 'leaves', 'n', 'cells', 'freed', 'vec', 'aty', 'name', 'const', 'base')
    def __init__(s, rid, kind, S, leaves, n, cells, vec=False, aty=None, name='', const=False, base=None):
        s.rid = rid; s.kind = kind; s.S = S; s.leaves = leaves; s.n = n; s.cells = cells
        s.freed = False; s.vec = vec; s.aty = aty; s.name = name; s.const = const; s.base = base
    def copy(s):
        r = Region(s.rid, s.kind, s.S, s.leaves, s.n, dict(s.cells), s.vec, s.aty, s.name, s.const, s.base); r.freed = s.freed
        return r

class State:
    __slots__ = ('pc', 'qf', 'regs', 'exc', 'trace', 'choices', 'loops')
    def __init__(s): s.pc = []; s.qf = []; s.regs = {}; s.exc = None; s.trace = []; s.choices = []; s.loops = 0
    def fork(s):
        t = State(); t.pc = list(s.pc); t.qf = list(s.qf); t.regs = dict(s.regs); t.exc = s.exc; t.trace = list(s.trace); t.choices = list(s.choices); t.loops = s.loops; return t

def is_c(x): return isinstance(x, (int, Fraction))
def simp(x):
    if isinstance(x, z3.ExprRef):
        if z3.is_int_value(x): return x.as_long()
        if z3.is_true(x): return True
        if z3.is_false(x): return False
        if z3.is_rational_value(x): return Fraction(x.numerator_as_long(), x.denominator_as_long())
    return x
def zi(x): return z3.IntVal(x) if isinstance(x, int) and not isinstance(x, bool) else (z3.If(x, 1, 0) if isinstance(x, z3.BoolRef) else (z3.IntVal(int(x)) if isinstance(x, bool) else x))
def zr(x):
    if isinstance(x, (int, Fraction)): return z3.RealVal(x) if not isinstance(x, Fraction) else z3.Q(x.numerator, x.denominator)
    return x
def zb(x): return z3.BoolVal(x) if isinstance(x, bool) else x
def And(*a):
    a = [x for x in a if x is not True]
    if any(x is False for x in a): return False
    if not a: return True
    return a[0] if len(a) == 1 else z3.And(*a)
def Or(*a):
    a = [x for x in a if x is not False]
    if any(x is True for x in a): return True
    if not a: return False
    return a[0] if len(a) == 1 else z3.Or(*a)
def Not(a): return (not a) if isinstance(a, bool) else (a.arg(0) if z3.is_not(a) else z3.Not(a))
def Implies(a, b): return Or(Not(a), b)
def Ite(c, a, b):
    if c is True: return a
    if c is False: return b
    if isinstance(a, bool) or isinstance(b, bool) or isinstance(a, z3.BoolRef):
        if a is True and b is False: return c
        if a is False and b is True: return Not(c)
        return z3.If(c, zb(a), zb(b))
    if isinstance(a, (int, z3.ArithRef)) and isinstance(b, (int, z3.ArithRef)):
        if isinstance(a, int) and isinstance(b, int) and a == b: return a
        if (isinstance(a, z3.ExprRef) and a.sort() == REAL) or (isinstance(b, z3.ExprRef) and b.sort() == REAL): return z3.If(c, zr(a), zr(b))
        return z3.If(c, zi(a), zi(b))
    if isinstance(a, Fraction) or isinstance(b, Fraction): return z3.If(c, zr(a), zr(b))
    return z3.If(c, a, b)

_qc = {}
def has_quant(e):
    if not isinstance(e, z3.ExprRef): return False
    k = e.get_id(); r = _qc.get(k)
    if r is not None and r[1].eq(e): return r[0]
    stack = [e]; seen = set(); res = False
    while stack:
        x = stack.pop(); i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_quantifier(x): res = True; break
        stack.extend(x.children())
    _qc[k] = (res, e)
    return res

def wsort(ty):
    """SMT sort for an IR scalar type"""
    if ty in ('float', 'double', 'fp128'): return REAL
    if ty == 'i96': return STR
    if ty == 'i97': return ANY
    if ty == 'i1': return BOOL
    if ty[0] == 'i': return INT
    raise Unsupported('sort of ' + ty)

def trunc_int(v, w):
    v &= (1 << w) - 1
    return v - (1 << w) if v >> (w - 1) else v

class Obl:
    def __init__(s, name, kind, status, detail='', t=0.0, solver='', model=None, pc=0): s.name = name; s.kind = kind; s.status = status; s.detail = detail; s.t = t; s.solver = solver; s.model = model; s.loops = 0

LIBM1 = {'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'exp', 'log', 'log2', 'log10', 'exp2', 'cbrt', 'sinh', 'cosh', 'tanh'}
LIBM2 = {'atan2', 'pow', 'hypot', 'fmod', 'remainder'}

class Engine:
    def __init__(s, mod, opts=None):
        s.m = mod; s.F = mod['functions']; s.G = mod['globals']; s.o = dict(budget=120.0, qtime=8000, rl=30000000, unroll=64, maxpaths=4000, cvc5=True, overflow=False)
        if opts: s.o.update(opts)
        s.nid = itertools.count(1); s.bounds = {}; s.obls = {}; s.suppress = 0; s.modonly = 0; s.outer = []; s.wits = set(); s.failedc = {}; s.covers = {}; s.choices = []; s.glob = {}; s.hints = []
        s.dem = {n: f['demangled'] for n, f in s.F.items()}
        s.funcs_used = set(); s.assumed = set(); s.stubs_used = set(); s.solver_time = 0.0; s.nq = 0; s.t0 = time.time(); s.depth = 0
        s.backends = {}; s.curfn = []; s.strcache = {}; s.charcache = {}; s.bvof = {}; s.memo = {}; s.loopinfo = {}; s.t_axiom = set(); s.unknown_time = False
        s.stubs = []; s.defax = {}; s.deps = {}; s.arrinit = {}
        for gn, g in s.G.items():
            if gn.startswith('_ZL10xovstub_') or 'xovstub_' in gn:
                init = {o: v for o, t, z, v in g.get('init', [])}
                if not init: continue
                nm = s.cstr(init[0][1] if init[0][0] == 'g' else None); fn = init[8]; ex = s.cstr(init[16][1]) if 16 in init and init[16][0] == 'g' else ''
                if nm and fn[0] == 'g': s.stubs.append((nm, fn[1], ex))
        s.proof = ''
    # ---------- utilities
    def cstr(s, g):
        if g is None or g not in s.G: return None
        by = [int(v[1]) & 255 for o, t, z, v in s.G[g].get('init', []) if t == 'i8' and v[0] == 'i']
        if not by:
            return ''
        if 0 in by: by = by[:by.index(0)]
        return bytes(by).decode('latin1')
    def fresh(s, name, sort):
        return z3.Const(f'{name}!{next(s.nid)}', sort)
    def fint(s, name, lo=None, hi=None, st=None):
        v = s.fresh(name, INT); s.bounds[v.get_id()] = (lo, hi, v)
        if st is not None:
            if lo is not None: s.add(st, v >= lo)
            if hi is not None: s.add(st, v <= hi)
        return v
    def fval(s, ty, name, st):
        if ty in ('float', 'double', 'fp128'): return s.fresh(name, REAL)
        if ty == 'i1': return s.fresh(name, BOOL)
        if ty == 'i96': return s.fresh_str(st, name)
        if ty == 'i97': return s.fresh(name, ANY)
        if ty == 'ptr': return Ptr(('undef', next(s.nid)))
        w = int(ty[1:]); return s.fint(name, -(1 << (w - 1)), (1 << (w - 1)) - 1, st)
    def fresh_str(s, st, name='str'):
        v = s.fresh(name, STR); k = z3.Int('k!c')
        d = STR.sdata(v); n = STR.slen(v)
        s.add(st, And(n >= 0, n < 2 ** 40), True)
        s.add(st, z3.ForAll([k], z3.And(z3.Implies(z3.Or(k < 0, k >= n), d[k] == 0), d[k] >= -128, d[k] <= 127), patterns=[d[k]]), True)
        return v
    def add(s, st, c, defn=False):
        c = simp(c) if isinstance(c, z3.ExprRef) else c
        if defn and isinstance(c, z3.ExprRef): s.defax[c.get_id()] = c
        if c is True: return
        if c is False: c = z3.BoolVal(False)
        if z3.is_and(c):
            for x in c.children(): s.add(st, x, defn)
            return
        st.pc.append(c)
        if not has_quant(c): st.qf.append(c)
    # ---------- interval knowledge
    def iv(s, t, d=0):
        if isinstance(t, bool): return (int(t), int(t))
        if isinstance(t, int): return (t, t)
        b = s.bounds.get(t.get_id())
        if b and b[2].eq(t): return (b[0], b[1])
        if d > 12: return (None, None)
        if z3.is_int_value(t): v = t.as_long(); return (v, v)
        k = t.decl().kind()
        if k == z3.Z3_OP_ADD:
            lo = hi = 0
            for c in t.children():
                a, b = s.iv(c, d + 1)
                lo = None if lo is None or a is None else lo + a
                hi = None if hi is None or b is None else hi + b
            return (lo, hi)
        if k == z3.Z3_OP_SUB:
            a = s.iv(t.arg(0), d + 1); b = s.iv(t.arg(1), d + 1)
            return (None if a[0] is None or b[1] is None else a[0] - b[1], None if a[1] is None or b[0] is None else a[1] - b[0])
        if k == z3.Z3_OP_UMINUS:
            a = s.iv(t.arg(0), d + 1); return (None if a[1] is None else -a[1], None if a[0] is None else -a[0])
        if k == z3.Z3_OP_MUL and t.num_args() == 2:
            a = s.iv(t.arg(0), d + 1); b = s.iv(t.arg(1), d + 1)
            if None in a or None in b: return (None, None)
            ps = [x * y for x in a for y in b]; return (min(ps), max(ps))
        if k == z3.Z3_OP_ITE:
            a = s.iv(t.arg(1), d + 1); b = s.iv(t.arg(2), d + 1)
            return (None if a[0] is None or b[0] is None else min(a[0], b[0]), None if a[1] is None or b[1] is None else max(a[1], b[1]))
        if k == z3.Z3_OP_MOD:
            b = s.iv(t.arg(1), d + 1)
            if b[0] is not None and b[1] is not None and b[0] > 0: return (0, b[1] - 1)
        if k in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV):
            a = s.iv(t.arg(0), d + 1); b = s.iv(t.arg(1), d + 1)
            if a[0] is not None and a[0] >= 0 and b[0] is not None and b[0] > 0: return (0, a[1])
        if z3.is_app(t) and t.decl().eq(STR.slen): return (0, 2 ** 40)
        if k == z3.Z3_OP_SELECT and z3.is_app(t.arg(0)) and t.arg(0).decl().eq(STR.sdata): return (-128, 127)
        return (None, None)
    # ---------- solver
    def _check(s, asserts, tmo, rl=None):
        s.nq += 1; t = time.time()
        sv = z3.Solver()
        sv.set('timeout', int(tmo))
        if rl: sv.set('rlimit', rl)
        for a in asserts: sv.add(a)
        r = sv.check(); s.solver_time += time.time() - t
        return r, sv
    def feasible(s, st, c):
        if c is True: return True
        if c is False: return False
        key = (tuple(x.get_id() for x in st.qf), c.get_id())
        if key in s.memo: return s.memo[key][0]
        r, _ = s._check(st.qf + [c], 600)
        res = r != z3.unsat
        if r == z3.unknown and s.polyrefute(st, st.qf + [c]): res = False
        s.memo[key] = (res, c, list(st.qf))
        return res
    def polyrefute(s, st, A):
        t = time.time()
        try: return poly.refute(A, lambda c: s._check(st.qf + [z3.Not(c)], 300)[0] == z3.unsat)
        finally: s.solver_time += time.time() - t
    def valid_quick(s, st, c, tmo=400):
        if isinstance(c, bool): return c
        r, _ = s._check(st.qf + [z3.Not(c)], tmo)
        return r == z3.unsat
    def prove(s, st, goal, tmo=None, want_model=True):
        """returns (status, backend, model, detail); status in proved/refuted/unknown/timeout"""
        if goal is True: return 'proved', 'trivial', None, ''
        tmo = tmo or s.o['qtime']
        neg = z3.Not(zb(goal)) if goal is not False else z3.BoolVal(True)
        left = s.o['budget'] - (time.time() - s.t0)
        if left <= 0: return 'timeout', '', None, 'proof budget exhausted'
        A = st.pc + [neg]
        res = None
        # quantifier-free facts alone first (fewer assumptions: sound)
        if len(st.qf) < len(st.pc) and not has_quant(neg) and s._check(st.qf + [neg], 150)[0] == z3.unsat: return 'proved', 'z3', None, ''
        r, sv = s._check(A, min(tmo, 2500))
        if r == z3.unsat: return 'proved', 'z3', None, ''
        if r == z3.sat:
            return 'refuted', 'z3', sv.model() if want_model else None, ''
        why = sv.reason_unknown()
        if s.polyrefute(st, A): return 'proved', 'polynomial', None, ''
        quant = any(has_quant(a) for a in A)
        nonlin = 'nonlinear' in why or 'nl' in why
        # second: z3 without mbqi / with different arith
        if quant:
            t = time.time(); sv2 = z3.Solver(); sv2.set('timeout', int(min(tmo, 4000))); sv2.set('smt.mbqi', False); sv2.set('smt.auto_config', False)
            for a in A: sv2.add(a)
            r = sv2.check(); s.solver_time += time.time() - t
            if r == z3.unsat: return 'proved', 'z3/ematch', None, ''
            why2 = sv2.reason_unknown()
        else: why2 = why
        if s.o['cvc5'] and tmo >= 2000:
            t = time.time(); r = s.cvc5_check(A, tmo / 1000.0); s.solver_time += time.time() - t
            if r == 'unsat': return 'proved', 'cvc5', None, ''
            if r == 'sat': return 'refuted', 'cvc5', None, ''
        if not quant:
            t = time.time()
            try:
                tac = z3.Then('simplify', 'solve-eqs', 'purify-arith', 'nlsat') if False else z3.Tactic('qfnra-nlsat')
                sv3 = tac.solver(); sv3.set('timeout', int(tmo))
                for a in A: sv3.add(a)
                r = sv3.check(); s.solver_time += time.time() - t
                if r == z3.unsat: return 'proved', 'z3/nlsat', None, ''
                if r == z3.sat: return 'refuted', 'z3/nlsat', sv3.model(), ''
            except z3.Z3Exception: pass
        st_ = 'timeout' if ('timeout' in why2 or 'canceled' in why2 or 'resource' in why2) else 'unknown'
        return st_, '', None, why + ' / ' + why2
    def cvc5_check(s, A, tmo):
        sv = z3.Solver()
        for a in A: sv.add(a)
        txt = '(set-logic ALL)\n' + sv.to_smt2()
        try:
            p = subprocess.run(['cvc5', '--lang=smt2', f'--tlimit={int(tmo*1000)}', '--full-saturate-quant', '-q', '-'], input=txt, capture_output=True, text=True, timeout=tmo + 5)
            o = p.stdout.strip().split('\n')[0]
            return o
        except Exception: return 'unknown'
    # ---------- obligations
    def oblige(s, st, goal, name, kind):
        if s.suppress: return
        fn = s.curfn[-1] if s.curfn else ''
        full = name
        if goal is True:
            o = s.obls.setdefault(full, Obl(full, kind, 'proved')); o.solver = o.solver or 'trivial'; s.backends['trivial'] = s.backends.get('trivial', 0) + 1
            return
        t = time.time(); status, be, model, det = s.prove(st, goal)
        dt = time.time() - t
        if be: s.backends[be] = s.backends.get(be, 0) + 1
        o = s.obls.get(full)
        if o is None: o = s.obls[full] = Obl(full, kind, status, det, dt, be)
        else: o.t += dt
        rank = {'proved': 0, 'timeout': 1, 'unknown': 2, 'refuted': 3}
        if rank[status] >= rank[o.status]:
            if rank[status] > rank[o.status]: o.detail = det
            o.status = status; o.solver = be or o.solver
            if status == 'refuted':
                o.detail = 'path: ' + ' '.join(st.trace[-12:])
                o.loops = st.loops
                if model is not None and o.model is None: o.model = s.extract(model, st)
        # assume afterwards (standard assert-then-assume)
        if goal is not False: s.add(st, goal)
        else: raise Abort()
    def extract(s, model, st):
        """input values of the counterexample, in the order the native driver replays them; None if not replayable"""
        out = []
        def num(t):
            v = simp(model.eval(t if isinstance(t, z3.ExprRef) else (zi(t)), model_completion=True))
            if isinstance(v, bool): return str(int(v))
            if isinstance(v, int): return str(v)
            if isinstance(v, Fraction): return repr(float(v)) if float(v) == v else f'{v.numerator}/{v.denominator}'
            if z3.is_algebraic_value(v): return v.approx(20).as_fraction().limit_denominator(10**12).__str__()
            raise ValueError
        try:
            for k, t in st.choices:
                if k in ('int', 'bool', 'real'): out.append(num(t))
                elif k == 'str':
                    n = int(num(STR.slen(t)))
                    if n > 2000: return None
                    out.append(str(n)); out += [num(STR.sdata(t)[i]) for i in range(n)]
                elif k == 'arr':
                    rid, n, leaves = t; n = int(num(n))
                    if n > 2000: return None
                    for i in range(n):
                        for l in leaves:
                            a = s.arrinit.get((rid, l[0]))
                            if a is None: out.append('0'); continue
                            e = a[i]
                            if e.sort() == STR:
                                m = int(num(STR.slen(e)))
                                if m > 2000: return None
                                out.append(str(m)); out += [num(STR.sdata(e)[j]) for j in range(m)]
                            else: out.append(num(e))
            return out
        except Exception: return None
    # ---------- memory
    def new_region(s, st, kind, S, leaves, n, vec=False, aty=None, name='', cells=None):
        rid = next(s.nid); st.regs[rid] = Region(rid, kind, S, leaves, n, cells or {}, vec, aty, name); return rid
    def global_region(s, st, g):
        if g in s.glob and s.glob[g] in st.regs: return s.glob[g]
        if g not in s.G: raise Unsupported('global ' + g)
        go = s.G[g]; rid = s.glob.setdefault(g, ('g', g))
        r = Region(rid, 'flat', go['layout']['size'], go['layout']['leaves'], 1, {}, False, go['type'], g, go['const'])
        if 'init' in go:
            for o, ty, z, v in go['init']:
                r.cells[o] = (ty, z, v)   # lazily evaluated raw constant, marked below
            r.cells = {o: (ty, z, s.const(st, v)) for o, (ty, z, v) in r.cells.items() if v[0] != 'unk'}
        st.regs[rid] = r
        return rid
    def const(s, st, v):
        k = v[0]
        if k == 'i': return bool(int(v[1]) & 1) if v[2] == 1 else int(v[1])
        if k == 'f':
            f = float.fromhex(v[1]) if 'inf' not in v[1] and 'nan' not in v[1] else v[1]
            if isinstance(f, str):
                if 'inf' in f: return z3.Real('INF') if f[0] != '-' else -z3.Real('INF')
                return z3.Real('NAN')
            return Fraction(f)
        if k == 'null': return NULL
        if k == 'undef':
            ty = v[1]
            if ty.startswith('{') or ty.startswith('[') or ty.startswith('%') or ty.startswith('<'): return None
            return s.fval(ty, 'undef', st)
        if k == 'zero': return ('zero', v[1])
        if k == 'g':
            if v[1] in s.F: return Fn(v[1])
            return Ptr(s.global_region(st, v[1]), 0, 0)
        if k == 'gep': return s.gep(st, v[1], None)
        if k == 'agg': return [s.const(st, x) for x in v[1]]
        if k == 'ce' and v[1] == 'ptrtoint' and v[2][0] == 'g' and v[2][1] in s.F: return s.fresh('fnaddr', INT)
        raise Unsupported('const ' + str(v)[:80])
    def val(s, st, env, v):
        if isinstance(v, int): return env[v]
        return s.const(st, v)
    def gep(s, st, g, env):
        p = s.val(st, env, g['base']); 
        if isinstance(p, tuple) and p[0] == 'fork': raise Unsupported('fork in gep')
        if isinstance(p, Fn): raise Unsupported('gep on function')
        off = g['off']; idxs = [(s.val(st, env, v), sz) for v, sz, w in g['vars']]
        return s.padd(st, p, off, idxs)
    def padd(s, st, p, off, idxs):
        if p.r is None:
            if off == 0 and all(isinstance(x, int) and x == 0 for x, _ in idxs): return p
            return Ptr(('undef', 0))
        if isinstance(p.r, tuple) and p.r[0] == 'undef': return p
        if isinstance(p.r, tuple) and p.r[0] == 'str': 
            i = p.i
            for x, sz in idxs: i = s.iadd(i, s.imul(x, sz))
            return Ptr(p.r, s.iadd(i, off), 0)
        R = st.regs[p.r]; S = R.S
        i, o = p.i, p.o
        for x, sz in idxs:
            if isinstance(x, bool): x = int(x)
            if isinstance(x, PDiff): x = s.pd2int(x)
            if isinstance(x, int): off += x * sz
            elif R.kind == 'arr' and S and sz % S == 0: i = s.iadd(i, s.imul(x, sz // S))
            else: o = s.iadd(o, s.imul(x, sz))
        if isinstance(o, int):
            o += off
            if R.kind == 'arr' and S:
                q, o = divmod(o, S)
                if q: i = s.iadd(i, q)
        else: o = s.iadd(o, off)
        return Ptr(p.r, i, o)
    def iadd(s, a, b):
        if is_c(a) and is_c(b): return a + b
        if is_c(a) and a == 0: return b
        if is_c(b) and b == 0: return a
        # normalise (x + c1) + c2
        if is_c(b) and z3.is_add(a) and a.num_args() == 2 and z3.is_int_value(a.arg(1)):
            c = a.arg(1).as_long() + b
            return a.arg(0) if c == 0 else a.arg(0) + c
        if is_c(a): return s.iadd(b, a)
        return a + b
    def isub(s, a, b):
        if is_c(a) and is_c(b): return a - b
        if is_c(b): return s.iadd(a, -b)
        if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
            if a.eq(b): return 0
            if z3.is_add(a) and a.num_args() == 2:
                if a.arg(0).eq(b): return simp(a.arg(1))
                if a.arg(1).eq(b): return simp(a.arg(0))
            if z3.is_sub(a) is False and False: pass
        return a - b
    def imul(s, a, b):
        if is_c(a) and is_c(b): return a * b
        if is_c(a): a, b = b, a
        if is_c(b):
            if b == 1: return a
            if b == 0: return 0
        return a * b
    def pd2int(s, x): return s.iadd(s.imul(x.d, x.S), x.o)
    def leaf_arr(s, st, R, o, ty):
        """array term for leaf at offset o of region R"""
        c = R.cells.get(o)
        if c is None:
            lf = next((l for l in R.leaves if l[0] == o), None)
            if lf is None and R.aty == 'heap' and 0 <= o < R.S:
                lf = (o, ty, {'float': 4, 'double': 8, 'ptr': 8, 'i1': 1, 'i96': 32}.get(ty) or (int(ty[1:]) + 7) // 8); R.leaves.append(lf)
            if lf is None: raise Unsupported(f'no leaf at {o} in {R.name} {R.leaves[:6]} for {ty}')
            if lf[1] == 'ptr': raise Unsupported('pointer cell in symbolic array')
            so = wsort(lf[1]); a = s.arrinit.get((R.rid, o))   # initial content: the same on every path
            if a is None or a.sort() != z3.ArraySort(INT, so): a = s.fresh(f'{R.name or "A"}@{o}', z3.ArraySort(INT, so))
            s.arr_range(st, a, lf[1])
            s.arrinit[(R.rid, o)] = a
            R2 = R.copy(); R2.cells[o] = (lf[1], lf[2], a); st.regs[R.rid] = R2; c = R2.cells[o]
        if c[0] != ty:
            if c[1] in (1, 4, 8) and ty in ('i8', 'i1') and c[0] in ('i1', 'i8'): return c
            raise Unsupported(f'type pun {c[0]} as {ty}')
        return c
    def arr_range(s, st, a, ty):
        k = z3.Int('k!r')
        if ty == 'i96':
            n = STR.slen(a[k]); j = z3.Int('j!r'); d = STR.sdata(a[k])
            s.add(st, z3.ForAll([k], z3.And(n >= 0, n < 2 ** 40), patterns=[a[k]]), True)
            s.add(st, z3.ForAll([k, j], z3.And(z3.Implies(z3.Or(j < 0, j >= n), d[j] == 0), d[j] >= -128, d[j] <= 127), patterns=[d[j]]), True)
        elif ty[0] == 'i' and ty not in ('i1', 'i97'):
            w = int(ty[1:])
            if w <= 64: s.add(st, z3.ForAll([k], z3.And(a[k] >= -(1 << (w - 1)), a[k] < (1 << (w - 1))), patterns=[a[k]]), True)
    def deref_ok(s, st, p, size, what):
        if p.r is None: s.oblige(st, False, f'{s.where()}: null dereference', 'safety'); raise Abort()
        if isinstance(p.r, tuple) and p.r[0] == 'undef': s.oblige(st, False, f'{s.where()}: dangling/undefined pointer dereference', 'safety'); raise Abort()
        if isinstance(p.r, tuple) and p.r[0] == 'str': return
        R = st.regs.get(p.r)
        if R is None: raise Unsupported('region gone')
        if R.freed: s.oblige(st, False, f'{s.where()}: access to invalidated element storage', 'safety'); raise Abort()
        if R.kind == 'arr':
            c = And(zi(p.i) >= 0, zi(p.i) < zi(R.n)) if not (is_c(p.i) and is_c(R.n)) else (0 <= p.i < R.n)
            if c is not True: s.oblige(st, c, f'{s.where()}: element access in range', 'safety')
    def where(s):
        fn = s.curfn[-1] if s.curfn else ''
        d = s.dem.get(fn, fn); d = re.sub(r'\[abi:\w+\]', '', d)
        return s.short(d)
    def short(s, d):
        # strip template args and parameter list for naming
        out = ''; depth = 0
        for ch in d:
            if ch == '<': depth += 1
            elif ch == '>': depth = max(0, depth - 1)
            elif depth == 0: out += ch
        out = out.split('(')[0].strip()
        return out.split(' ')[-1] if ' ' in out else out
    def load1(s, st, p, ty, size):
        """load a scalar; p.o may be symbolic for flat regions -> ite chain"""
        if isinstance(p.r, tuple) and p.r[0] == 'str':
            base = p.r[1]; sv = s.load1(st, base, 'i96', 16)
            return simp(z3.simplify(STR.sdata(sv))[zi(p.i)]) if False else s.str_at(sv, p.i)
        R = st.regs[p.r]
        if R.kind == 'arr':
            if not is_c(p.o):
                cands = [l for l in R.leaves if l[1] == ty]
                res = None
                for l in cands:
                    v = s.load1(st, Ptr(p.r, p.i, l[0]), ty, size)
                    res = v if res is None else Ite(zi(p.o) == l[0], v, res)
                if res is None: raise Unsupported('symbolic inner offset')
                s.oblige(st, Or(*[zi(p.o) == l[0] for l in cands]), f'{s.where()}: inner element access in range', 'safety')
                return res
            c = s.leaf_arr(st, R, p.o, ty)
            if is_c(p.i):
                t = c[2]; n = 0
                while z3.is_app_of(t, z3.Z3_OP_STORE) and n < 400:
                    k = t.arg(1)
                    if not z3.is_int_value(k): break
                    if k.as_long() == p.i: return simp(t.arg(2))
                    t = t.arg(0); n += 1
                return t[z3.IntVal(p.i)]
            return c[2][zi(p.i)]
        o = p.o if is_c(p.i) and p.i == 0 else s.iadd(s.imul(p.i, R.S), p.o)
        if not is_c(o):
            cands = [l for l in R.leaves if l[1] == ty or (l[1], ty) in (('i8', 'i1'),)]
            if len(cands) > 128 or not cands: raise Unsupported('symbolic offset in flat region')
            vals = [(l[0], s.load1(st, Ptr(p.r, 0, l[0]), ty, size)) for l in cands]
            s.oblige(st, Or(*[zi(o) == a for a, _ in vals]), f'{s.where()}: array access in range', 'safety')
            if any(isinstance(v, (Ptr, Fn)) for _, v in vals): raise LoadChoice([(zi(o) == a, v) for a, v in vals])
            res = vals[-1][1]
            for a, v in reversed(vals[:-1]): res = Ite(zi(o) == a, v, res)
            return res
        c = R.cells.get(o)
        if c is None:
            if R.const or isinstance(p.r, tuple):
                if R.leaves and o >= R.S or o < 0: s.oblige(st, False, f'{s.where()}: global array access in range', 'safety'); raise Abort()
            lf = next((l for l in R.leaves if l[0] == o), None)
            if lf is None:
                s.oblige(st, False, f'{s.where()}: object access in range', 'safety') if (o < 0 or o >= R.S) else None
                if o < 0 or o >= R.S: raise Abort()
                raise Unsupported(f'no cell at {o} of {R.aty}')
            if lf[1] != ty and not (lf[1] == 'i8' and ty == 'i1'): raise Unsupported(f'pun load {lf[1]} as {ty}')
            v = s.fval(ty, f'uninit_{R.name}@{o}', st)
            R2 = st.regs[p.r].copy(); R2.cells[o] = (ty, size, v); st.regs[p.r] = R2
            return v
        if c[0] != ty:
            if ty == 'i1' and c[0] == 'i8': 
                return (c[2] != 0) if is_c(c[2]) else (c[2] % 2 == 1)
            if ty == 'i8' and c[0] == 'i1': return Ite(c[2], 1, 0)
            if ty == 'ptr' and isinstance(c[2], PInt): return c[2].p
            if c[1] == size and ty[0] == 'i' and c[0] == 'ptr': return PInt(c[2])
            raise Unsupported(f'pun load {c[0]} as {ty} in {R.aty}')
        v = c[2]
        if isinstance(v, tuple) and v[0] == 'zero': v = s.zero(ty)
        return v
    def zero(s, ty):
        if ty == 'ptr': return NULL
        if ty in ('float', 'double', 'fp128'): return Fraction(0)
        if ty == 'i1': return False
        if ty == 'i96': return s.str_lit('')
        return 0
    def store1(s, st, p, ty, size, v):
        if isinstance(p.r, tuple) and p.r[0] == 'str':
            base = p.r[1]; sv = s.load1(st, base, 'i96', 16)
            s.oblige(st, And(zi(p.i) >= 0, zi(p.i) < STR.slen(sv)), f'{s.where()}: string element write in range', 'safety')
            nv = STR.mk(STR.slen(sv), z3.Store(STR.sdata(sv), zi(p.i), zi(v)))
            s.store1(st, base, 'i96', 16, nv); return
        R = st.regs[p.r]
        if R.const: s.oblige(st, False, f'{s.where()}: write to constant', 'safety'); raise Abort()
        if R.kind == 'arr':
            if not is_c(p.o):
                cands = [l for l in R.leaves if l[1] == ty]
                s.oblige(st, Or(*[zi(p.o) == l[0] for l in cands]), f'{s.where()}: inner element write in range', 'safety')
                for l in cands:
                    q = Ptr(p.r, p.i, l[0]); s.store1(st, q, ty, size, Ite(zi(p.o) == l[0], v, s.load1(st, q, ty, size)))
                return
            c = s.leaf_arr(st, R, p.o, ty); R = st.regs[p.r]; R2 = R.copy()
            srt = wsort(c[0]); vv = zr(v) if srt == REAL else zb(v) if srt == BOOL else zi(v) if srt == INT else v
            if isinstance(vv, (Ptr, PInt, PDiff, Fn)): raise Unsupported('pointer stored in symbolic array')
            R2.cells[p.o] = (c[0], c[1], z3.Store(c[2], zi(p.i), vv)); st.regs[p.r] = R2; return
        o = p.o if is_c(p.i) and p.i == 0 else s.iadd(s.imul(p.i, R.S), p.o)
        if not is_c(o):
            cands = [l for l in R.leaves if l[1] == ty]
            if len(cands) > 128 or not cands: raise Unsupported('symbolic offset store in flat region')
            s.oblige(st, Or(*[zi(o) == l[0] for l in cands]), f'{s.where()}: array write in range', 'safety')
            for l in cands:
                q = Ptr(p.r, 0, l[0]); s.store1(st, q, ty, size, Ite(zi(o) == l[0], v, s.load1(st, q, ty, size)))
            return
        if o < 0 or o + size > max(R.S, 1): s.oblige(st, False, f'{s.where()}: object write in range', 'safety'); raise Abort()
        R2 = R.copy()
        if o not in R2.cells:
            for k in [k for k, c in R2.cells.items() if k < o + size and o < k + c[1]]: del R2.cells[k]
        R2.cells[o] = (ty, size, v); st.regs[p.r] = R2
    def load(s, st, p, lay, ty):
        s.deref_ok(st, p, lay['size'], 'load')
        L = lay['leaves']
        if len(L) == 1 and L[0][1] == ty: return s.load1(st, p, ty, L[0][2])
        return [s.load1(st, s.padd(st, p, l[0], []), l[1], l[2]) for l in L]
    def store(s, st, p, lay, ty, v):
        s.deref_ok(st, p, lay['size'], 'store')
        L = lay['leaves']
        if len(L) == 1 and L[0][1] == ty: return s.store1(st, p, ty, L[0][2], v)
        fl = s.flatten(v)
        if isinstance(v, tuple) and v and v[0] == 'zero': fl = [s.zero(l[1]) for l in L]
        if fl is None or len(fl) != len(L): raise Unsupported('aggregate store')
        for l, x in zip(L, fl): s.store1(st, s.padd(st, p, l[0], []), l[1], l[2], x)
    def flatten(s, v):
        if isinstance(v, list):
            out = []
            for x in v: out += s.flatten(x)
            return out
        return [v]
    def copy_bytes(s, st, d, sr, n):
        if not is_c(n):
            # elementwise block move: only whole elements between element regions
            raise Unsupported('memcpy of symbolic size')
        if n == 0: return
        s.deref_ok(st, sr, n, 'copy'); s.deref_ok(st, d, n, 'copy')
        R = st.regs[sr.r]
        done = 0; lv = []
        if R.kind == 'arr':
            if not is_c(sr.o) or sr.o + n > R.S: raise Unsupported('memcpy across elements')
            ls = [l for l in R.leaves if sr.o <= l[0] < sr.o + n]
        else:
            so = sr.o if is_c(sr.i) and sr.i == 0 else s.iadd(s.imul(sr.i, R.S), sr.o)
            if not is_c(so): raise Unsupported('memcpy from symbolic offset')
            ls = [l for l in R.leaves if so <= l[0] < so + n]; sr = Ptr(sr.r, 0, so)
            if R.kind == 'flat' and not R.leaves: ls = [(o,) + R.cells[o][:2] for o in sorted(k for k in R.cells if isinstance(k, int)) if so <= o < so + n]  # untyped heap block: what was stored
        vals = []
        for l in ls:
            rel = l[0] - sr.o
            if R.kind == 'flat' and l[0] not in R.cells:
                ty = l[1]; 
                if ty == 'i8' and len(ls) > 16: continue
                if ty == 'ptr': vals.append((rel, ty, l[2], Ptr(('undef', next(s.nid))))); continue
                vals.append((rel, ty, l[2], s.load1(st, Ptr(sr.r, sr.i, l[0]), ty, l[2]))); continue
            ty = R.cells[l[0]][0] if R.kind == 'flat' else l[1]; z = R.cells[l[0]][1] if R.kind == 'flat' else l[2]
            vals.append((rel, ty, z, s.load1(st, Ptr(sr.r, sr.i, l[0]), ty, l[2])))
        for rel, ty, z, v in vals: s.store1(st, s.padd(st, d, rel, []), ty, z, v)
    # ---------- strings
    def str_lit(s, t):
        key = ('lit', t)
        if key in s.strcache: return s.strcache[key]
        a = z3.K(INT, z3.IntVal(0))
        for i, ch in enumerate(t): a = z3.Store(a, i, trunc_int(ord(ch), 8))
        v = STR.mk(len(t), a); s.strcache[key] = v; return v
    def str_lit_of(s, v):
        """python str if v is a literal"""
        if z3.is_app(v) and v.decl().eq(STR.mk) and z3.is_int_value(v.arg(0)):
            n = v.arg(0).as_long(); out = {}; a = v.arg(1)
            while z3.is_store(a):
                if not (z3.is_int_value(a.arg(1)) and z3.is_int_value(a.arg(2))): return None
                out.setdefault(a.arg(1).as_long(), a.arg(2).as_long()); a = a.arg(0)
            if z3.is_K(a): return ''.join(chr(out.get(i, 0) & 255) for i in range(n))
        return None
    def str_chars(s, v):
        """list of characters (ints or terms) if the length is known"""
        if z3.is_app(v) and v.decl().eq(STR.mk) and z3.is_int_value(v.arg(0)) and v.arg(0).as_long() <= s.o.get('charmax', 64):
            h = s.charcache.get(v.get_id())
            if h is not None: return h[1]
            n = v.arg(0).as_long(); out = {}; a = v.arg(1); r = None
            while z3.is_store(a):
                if not z3.is_int_value(a.arg(1)): break
                out.setdefault(a.arg(1).as_long(), simp(a.arg(2))); a = a.arg(0)
            if z3.is_K(a): r = [out.get(i, 0) for i in range(n)]
            s.charcache[v.get_id()] = (v, r)
            return r
        return None
    def str_mk(s, chars):
        if all(is_c(c) for c in chars): return s.str_lit(''.join(chr(c & 255) for c in chars))
        a = z3.K(INT, z3.IntVal(0))
        for i, c in enumerate(chars): a = z3.Store(a, i, zi(c))
        return STR.mk(len(chars), a)
    def str_len(s, v):
        if z3.is_app(v) and v.decl().eq(STR.mk): return simp(v.arg(0))
        return STR.slen(v)
    def str_at(s, v, i):
        l = s.str_lit_of(v)
        if l is not None and is_c(i): return trunc_int(ord(l[i]), 8) if 0 <= i < len(l) else 0
        if is_c(i):
            ch = s.str_chars(v)
            if ch is not None: return ch[i] if 0 <= i < len(ch) else 0
        return STR.sdata(v)[zi(i)] if not (z3.is_app(v) and v.decl().eq(STR.mk)) else v.arg(1)[zi(i)]
    def str_def(s, st, key, length, body, deps):
        """fresh canonical string r with len and forall k: r[k] = body(k)"""
        ck = (key,) + tuple(d.get_id() if isinstance(d, z3.ExprRef) else d for d in deps)
        c = s.strcache.get(ck)
        if c is None:
            r = s.fresh('s_' + key, STR); k = z3.Int('k!d')
            ax = [STR.slen(r) == zi(length), STR.slen(r) >= 0, z3.ForAll([k], STR.sdata(r)[k] == z3.If(z3.And(k >= 0, k < zi(length)), zi(body(k)), 0), patterns=[STR.sdata(r)[k]])]
            c = s.strcache[ck] = (r, ax, deps); s.deps[str(r)] = [d for d in list(deps) + [length] if isinstance(d, z3.ExprRef)]
        for a in c[1]:
            if not any(a.eq(x) for x in st.pc[-400:]): s.add(st, a, True)
        return c[0]
    def str_concat(s, st, a, b):
        la, lb = s.str_lit_of(a), s.str_lit_of(b)
        if la is not None and lb is not None: return s.str_lit(la + lb)
        if la == '': return b
        if lb == '': return a
        ca, cb = s.str_chars(a), s.str_chars(b)
        if ca is not None and cb is not None and len(ca) + len(cb) <= s.o.get('charmax', 64): return s.str_mk(ca + cb)
        n = s.str_len(a); m = s.str_len(b); da = lambda k: s.str_at(a, k); db = lambda k: s.str_at(b, k)
        return s.str_def(st, 'cat', s.iadd(n, m), lambda k: z3.If(k < zi(n), zi(da(k)), zi(db(k - zi(n)))), [a, b])
    def str_substr(s, st, a, pos, cnt):
        """requires 0<=pos<=len; result length = min(cnt, len-pos)"""
        la = s.str_lit_of(a)
        n = s.str_len(a); rem = s.isub(n, pos)
        if la is not None and is_c(pos) and is_c(cnt): return s.str_lit(la[pos:pos + cnt] if cnt >= 0 else la[pos:])
        ca = s.str_chars(a)
        if ca is not None and is_c(pos) and is_c(cnt): return s.str_mk(ca[pos:pos + cnt] if cnt >= 0 else ca[pos:])
        if is_c(pos) and pos == 0 and not is_c(cnt) and isinstance(n, z3.ExprRef) and cnt.eq(n): return a
        # cnt is unsigned: negative == huge
        ln = Ite(Or(zi(cnt) < 0, zi(cnt) > zi(rem)), rem, cnt)
        if isinstance(ln, z3.ExprRef): ln = z3.simplify(ln)
        return s.str_def(st, 'sub', ln, lambda k: zi(s.str_at(a, s.iadd(k, pos))), [a, pos if is_c(pos) else pos, cnt])
    # ---------- integer ops
    def charfacts(s, x):
        """range facts of the characters read in x"""
        out = []; stack = [x]; seen = set()
        while stack:
            t = stack.pop()
            if t.get_id() in seen: continue
            seen.add(t.get_id())
            if z3.is_select(t) and z3.is_app(t.arg(0)) and t.arg(0).decl().eq(STR.sdata): out += [t >= -128, t <= 127]
            stack.extend(t.children())
        return out
    def wrap(s, st, x, w):
        if is_c(x): return trunc_int(x, w)
        if s.istab(x): return s.frombv(s.tobv(x, w))
        lo, hi = s.iv(x); L, H = -(1 << (w - 1)), (1 << (w - 1)) - 1
        if lo is not None and hi is not None and lo >= L and hi <= H: return x
        cf = s.charfacts(x)
        if s.valid_quick(st, z3.Implies(z3.And(*cf), z3.And(x >= L, x <= H))): return x
        M = 1 << w
        y = z3.If(x > H, x - M, z3.If(x < L, x + M, x))
        if not s.valid_quick(st, z3.And(x >= L - M, x <= H + M)): y = (x - L) % M + L
        v = s.fint('wrap', L, H, st); s.add(st, v == y, True); s.deps[str(v)] = [y]; return v
    def u(s, st, x, w):
        if is_c(x): return x & ((1 << w) - 1)
        if isinstance(x, PDiff): x = s.pd2int(x)
        if s.istab(x):
            bv = s.tobv(x, w); r = s.frombv(z3.ZeroExt(1, bv)); return r
        lo, hi = s.iv(x)
        if lo is not None and lo >= 0: return x
        if s.valid_quick(st, x >= 0): return x
        return z3.If(x < 0, x + (1 << w), x)
    # ---------- bit-vector view of integers that come from any_bits / bit operations
    def frombv(s, bv):
        bv = z3.simplify(bv); w = bv.size()
        if z3.is_bv_value(bv): return bv.as_signed_long()
        t = z3.BV2Int(bv, True); s.bvof[t.get_id()] = (t, bv); s.bounds[t.get_id()] = (-(1 << (w - 1)), (1 << (w - 1)) - 1, t); return t
    def istab(s, t): return isinstance(t, z3.ExprRef) and t.get_id() in s.bvof
    def tobv(s, t, w, d=0):
        if isinstance(t, bool): t = int(t)
        if is_c(t): return z3.BitVecVal(t, w)
        if isinstance(t, z3.BoolRef): return z3.If(t, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
        if not isinstance(t, z3.ExprRef): return None
        c = s.bvof.get(t.get_id())
        if c is not None and c[0].eq(t):
            k = c[1].size(); return c[1] if k == w else z3.Extract(w - 1, 0, c[1]) if k > w else z3.SignExt(w - k, c[1])
        if z3.is_int_value(t): return z3.BitVecVal(t.as_long(), w)
        if z3.is_app_of(t, z3.Z3_OP_ITE) and d < 80:
            x = s.tobv(t.arg(1), w, d + 1)
            if x is None: return None
            y = s.tobv(t.arg(2), w, d + 1)
            return None if y is None else z3.If(t.arg(0), x, y)
        return None
    def anytab(s, t, d=0): return s.istab(t) or isinstance(t, z3.ExprRef) and z3.is_app_of(t, z3.Z3_OP_ITE) and d < 80 and (s.anytab(t.arg(1), d + 1) or s.anytab(t.arg(2), d + 1))
    def bvtry(s, op, a, b, w):
        if not s.bvof or not (s.anytab(a) or s.anytab(b)) and op not in ('and', 'or', 'xor', 'shl', 'lshr'): return None
        if w > 64: return None
        A = s.tobv(a, w); B = s.tobv(b, w) if A is not None else None
        if B is None: return None
        f = {'and': lambda: A & B, 'or': lambda: A | B, 'xor': lambda: A ^ B, 'shl': lambda: A << B, 'lshr': lambda: z3.LShR(A, B), 'ashr': lambda: A >> B, 'add': lambda: A + B, 'sub': lambda: A - B, 'mul': lambda: A * B}.get(op)
        return None if f is None else s.frombv(f())
    def bvop(s, op, a, b, w):
        if s.o.get('ufbits'): # any function of the two words (a weaker assumption: what is proved holds for the real one)
            return z3.Function('bits_%s_%d' % (op, w), z3.IntSort(), z3.IntSort(), z3.IntSort())(zi(a), zi(b))
        A = z3.Int2BV(zi(a), w); B = z3.Int2BV(zi(b), w)
        r = {'and': lambda: A & B, 'or': lambda: A | B, 'xor': lambda: A ^ B, 'shl': lambda: A << B, 'lshr': lambda: z3.LShR(A, B), 'ashr': lambda: A >> B}[op]()
        return z3.BV2Int(r, True)
    def boolint(s, a):
        """the condition c of a term 'c ? 1 : 0'"""
        if is_c(a): return a == 1 if a in (0, 1) else None
        if isinstance(a, z3.ExprRef) and z3.is_app_of(a, z3.Z3_OP_ITE):
            x, y = a.arg(1), a.arg(2)
            if z3.is_int_value(x) and z3.is_int_value(y):
                if x.as_long() == 1 and y.as_long() == 0: return a.arg(0)
                if x.as_long() == 0 and y.as_long() == 1: return z3.Not(a.arg(0))
        return None
    def binop(s, st, op, w, a, b, I):
        if w == 1:
            a = a if isinstance(a, (bool, z3.BoolRef)) else (a != 0); b = b if isinstance(b, (bool, z3.BoolRef)) else (b != 0)
            if op == 'and': return And(a, b)
            if op == 'or': return Or(a, b)
            if op == 'xor':
                if isinstance(b, bool): return Not(a) if b else a
                if isinstance(a, bool): return Not(b) if a else b
                return z3.Xor(a, b)
            raise Unsupported('i1 ' + op)
        if isinstance(a, PInt) or isinstance(b, PInt):
            if op == 'sub' and isinstance(a, PInt) and isinstance(b, PInt):
                p, q = a.p, b.p
                if p.r is None and q.r is None: return 0
                if p.r != q.r and not (p.r == q.r):
                    if p.r is None or q.r is None: raise Unsupported('null pointer difference')
                    if isinstance(p.r, tuple) and p.r[0] == 'str' and isinstance(q.r, tuple) and q.r[0] == 'str' and repr(p.r) == repr(q.r): return s.isub(p.i, q.i)
                    s.oblige(st, False, f'{s.where()}: difference of pointers into different objects', 'safety'); raise Abort()
                if isinstance(p.r, tuple) and p.r[0] == 'str': return s.isub(p.i, q.i)
                R = st.regs[p.r]
                return PDiff(s.isub(p.i, q.i), R.S, s.isub(p.o, q.o))
            raise Unsupported('ptr int arithmetic ' + op)
        if isinstance(a, PDiff):
            if op == 'sdiv' and is_c(b) and a.S == b and is_c(a.o) and a.o == 0: return a.d
            if op == 'ashr' and is_c(b) and a.S == (1 << b) and is_c(a.o) and a.o == 0: return a.d
            if op == 'sdiv' and is_c(b) and is_c(a.d) and is_c(a.o): return (a.d * a.S + a.o) // b
            if op == 'sdiv' and is_c(b) and is_c(a.o) and a.S % b == 0 and a.o % b == 0: return s.iadd(s.imul(a.d, a.S // b), a.o // b)
            a = s.pd2int(a)
        if isinstance(b, PDiff): b = s.pd2int(b)
        if isinstance(a, (bool, z3.BoolRef)): a = Ite(a, 1, 0)
        if isinstance(b, (bool, z3.BoolRef)): b = Ite(b, 1, 0)
        cc = is_c(a) and is_c(b)
        if not cc:
            r = s.bvtry(op, a, b, w)
            if r is not None: return r
        if w > 64 and w not in (96, 97, 128): raise Unsupported(f'i{w}')
        if op in ('add', 'sub', 'mul'):
            r = s.iadd(a, b) if op == 'add' else s.isub(a, b) if op == 'sub' else s.imul(a, b)
            if cc: return trunc_int(r, w)
            if I.get('nsw'):
                L, H = -(1 << (w - 1)), (1 << (w - 1)) - 1
                if s.o['overflow']:
                    lo, hi = s.iv(r)
                    if not (lo is not None and hi is not None and lo >= L and hi <= H): s.oblige(st, And(r >= L, r <= H), f'{s.where()}: no signed overflow in {op}', 'safety')
                else: s.assumed.add('signed integer arithmetic is mathematical (no overflow checked) where the proof does not opt in')
                return r
            return s.wrap(st, r, w)
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            if op[0] == 'u': a = s.u(st, a, w); b = s.u(st, b, w)
            nz = (b != 0)
            s.oblige(st, nz, f'{s.where()}: no division by zero', 'safety')
            if is_c(a) and is_c(b):
                q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1); r = a - q * b
                return trunc_int(q if op.endswith('div') else r, w)
            a, b = zi(a), zi(b)
            la, lb = s.iv(a), s.iv(b)
            nonneg = op[0] == 'u' or ((la[0] is not None and la[0] >= 0) or s.valid_quick(st, a >= 0)) and ((lb[0] is not None and lb[0] > 0) or s.valid_quick(st, b > 0))
            if nonneg:
                if op[0] == 'u' and not (lb[0] is not None and lb[0] > 0): s.valid_quick(st, b > 0)
                # x - x etc: try cheap facts a<b
                if s.valid_quick(st, a < b): return 0 if op.endswith('div') else a
                if op.endswith('rem') and s.valid_quick(st, z3.And(a >= b, a < 2 * b)): return a - b
                return a / b if op.endswith('div') else a % b
            # truncating signed division
            aa = z3.If(a < 0, -a, a); ab = z3.If(b < 0, -b, b)
            q = z3.If((a < 0) == (b < 0), aa / ab, -(aa / ab))
            return q if op == 'sdiv' else z3.If(a < 0, -(aa % ab), aa % ab)
        if cc:
            ua, ub = a & ((1 << w) - 1), b & ((1 << w) - 1)
            r = {'and': lambda: ua & ub, 'or': lambda: ua | ub, 'xor': lambda: ua ^ ub, 'shl': lambda: ua << ub if ub < w else 0, 'lshr': lambda: ua >> ub if ub < w else 0, 'ashr': lambda: a >> ub if ub < w else 0}[op]()
            return trunc_int(r, w)
        if op in ('and', 'or', 'xor'):
            p, q = s.boolint(a), s.boolint(b)
            if p is not None and q is not None:
                return Ite(And(p, q) if op == 'and' else Or(p, q) if op == 'or' else z3.Xor(zb(p), zb(q)), 1, 0)
        if op == 'and':
            if is_c(a): a, b = b, a
            if is_c(b):
                ub = b & ((1 << w) - 1)
                if ub == (1 << w) - 1: return a
                if ub == 0: return 0
                if ub & (ub + 1) == 0: return zi(a) % (ub + 1)     # low mask; Int mod is floor => correct for canonical signed
        if op == 'xor' and (is_c(b) and b == -1): return -1 - zi(a)
        if op == 'xor' and (is_c(a) and a == -1): return -1 - zi(b)
        if op in ('or', 'xor', 'add'):
            if is_c(b) and b == 0: return a
            if is_c(a) and a == 0: return b
        if op in ('or', 'xor'):       # disjoint bits: the sum (a multiple of 2^k and a number below 2^k)
            for x, y in ((a, b), (b, a)):
                k = s.tz(x)
                if k and k < w and (0 <= y < 1 << k if is_c(y) else s.valid_quick(st, z3.And(zi(y) >= 0, zi(y) < (1 << k)))): return s.iadd(x, y)
        if op == 'shl' and is_c(b): return s.wrap(st, s.imul(a, 1 << b), w)
        if op == 'ashr' and is_c(b): return zi(a) / (1 << b)
        if op == 'lshr' and is_c(b): return zi(s.u(st, a, w)) / (1 << b)
        if op in ('and', 'or'):       # a single bit: arithmetic (floor division is the two's complement shift)
            x, m = (a, b) if is_c(b) else (b, a) if is_c(a) else (None, 0)
            if x is not None and isinstance(x, z3.ArithRef):
                m &= (1 << w) - 1; iv = ~m & ((1 << w) - 1)
                if m & (m - 1) == 0 and m < 1 << (w - 1):
                    bit = (x / m) % 2 if m > 1 else x % 2; return m * bit if op == 'and' else x + m * (1 - bit)
                if op == 'and' and iv & (iv - 1) == 0 and iv < 1 << (w - 1): return x - iv * ((x / iv) % 2 if iv > 1 else x % 2)
        return s.bvop(op, a, b, w)
    def tz(s, t, depth=0):
        # trailing zero bits that the term is sure to have
        if is_c(t): return 64 if t == 0 else (t & -t).bit_length() - 1
        if not isinstance(t, z3.ArithRef) or depth > 20: return 0
        if z3.is_int_value(t): return s.tz(t.as_long())
        k = t.decl().kind(); ch = t.children()
        if k == z3.Z3_OP_MUL: return min(64, sum(s.tz(c, depth + 1) for c in ch))
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB): return min(s.tz(c, depth + 1) for c in ch)
        if k == z3.Z3_OP_UMINUS: return s.tz(ch[0], depth + 1)
        if k == z3.Z3_OP_ITE: return min(s.tz(c, depth + 1) for c in ch[1:])
        if k == z3.Z3_OP_MOD: return min(s.tz(c, depth + 1) for c in ch)
        if not ch and str(t).startswith('wrap!') and str(t) in s.deps: return s.tz(s.deps[str(t)][0], depth + 1)     # == its definition
        return 0
    def icmp(s, st, pred, w, a, b):
        if isinstance(a, PInt) and isinstance(b, PInt): a, b = a.p, b.p
        if isinstance(a, PInt) and is_c(b) and b == 0: a, b = a.p, NULL
        if isinstance(a, Fn) or isinstance(b, Fn):
            eq = isinstance(a, Fn) and isinstance(b, Fn) and a.name == b.name
            return eq if pred == 'eq' else not eq
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if pred in ('eq', 'ne'):
                if a.r is None or b.r is None: e = a.r is None and b.r is None
                elif a.r == b.r or repr(a.r) == repr(b.r):
                    e = And(s.eqi(a.i, b.i), s.eqi(a.o, b.o))
                else: e = False
                return e if pred == 'eq' else Not(e)
            if a.r != b.r and repr(a.r) != repr(b.r): raise Unsupported('pointer order across objects')
            if is_c(a.o) and is_c(b.o) and a.o == b.o: x, y = a.i, b.i
            elif is_c(a.i) and is_c(b.i) and a.i == b.i: x, y = a.o, b.o
            else:
                S = st.regs[a.r].S; x = s.iadd(s.imul(a.i, S), a.o); y = s.iadd(s.imul(b.i, S), b.o)
            return s.cmpi({'u': '', 's': ''}[pred[0]] + pred[1:], x, y)
        if isinstance(a, PDiff) and isinstance(b, PDiff) and a.S == b.S and is_c(a.o) and is_c(b.o) and a.o == b.o == 0: a, b = a.d, b.d
        if isinstance(a, PDiff): a = s.pd2int(a)
        if isinstance(b, PDiff): b = s.pd2int(b)
        if isinstance(a, (bool, z3.BoolRef)) or isinstance(b, (bool, z3.BoolRef)):
            a = a if isinstance(a, (bool, z3.BoolRef)) else a != 0; b = b if isinstance(b, (bool, z3.BoolRef)) else b != 0
            if pred in ('eq', 'ne'):
                if isinstance(b, bool): r = a if b else Not(a)
                elif isinstance(a, bool): r = b if a else Not(b)
                else: r = (a == b)
                return r if pred == 'eq' else Not(r)
            a, b = Ite(a, 1, 0), Ite(b, 1, 0); w = 8
        if pred in ('eq', 'ne'):
            if isinstance(a, z3.ExprRef) and a.sort() in (STR, ANY): e = a == b
            else: e = s.eqi(a, b)
            return e if pred == 'eq' else Not(e)
        if pred[0] == 'u':
            # both in same sign half => plain compare
            la, lb = s.iv(a), s.iv(b)
            if is_c(a) and a < 0 or is_c(b) and b < 0 or not (la[0] is not None and la[0] >= 0 and lb[0] is not None and lb[0] >= 0):
                a, b = s.u(st, a, w), s.u(st, b, w)
        return s.cmpi(pred[1:], a, b)
    def eqi(s, a, b):
        if is_c(a) and is_c(b): return a == b
        if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef) and a.eq(b): return True
        if s.bvof and (s.anytab(a) or s.anytab(b)):
            A = s.tobv(a, 65); B = s.tobv(b, 65)
            if A is not None and B is not None:
                e = z3.simplify(A == B); return True if z3.is_true(e) else False if z3.is_false(e) else e
        d = None
        if isinstance(a, z3.ArithRef) or isinstance(b, z3.ArithRef):
            # x + c == x
            d = s.isub(a, b)
            if is_c(d): return d == 0
        return zi(a) == zi(b)
    def cmpi(s, p, a, b):
        if is_c(a) and is_c(b): return {'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[p]
        if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef) and a.eq(b): return p in ('le', 'ge')
        a, b = zi(a), zi(b)
        return {'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[p]
    def fcmp(s, pred, a, b):
        if pred in ('true', 'false'): return pred == 'true'
        if pred == 'ord': return True
        if pred == 'uno': return False
        p = pred[1:]
        if is_c(a) and is_c(b): return {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[p]
        if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef) and a.eq(b): return p in ('eq', 'le', 'ge')
        a, b = zr(a), zr(b)
        return {'eq': lambda: a == b, 'ne': lambda: a != b, 'lt': lambda: a < b, 'le': lambda: a <= b, 'gt': lambda: a > b, 'ge': lambda: a >= b}[p]()
    def fop(s, st, op, a, b):
        if is_c(a) and is_c(b):
            if op == 'fadd': return Fraction(a) + b
            if op == 'fsub': return Fraction(a) - b
            if op == 'fmul': return Fraction(a) * b
            if op == 'fdiv' and b != 0: return Fraction(a) / b
        if op == 'fadd' and is_c(a) and a == 0: return b
        if op in ('fadd', 'fsub') and is_c(b) and b == 0: return a
        if op == 'fmul':
            if is_c(a): a, b = b, a
            if is_c(b) and b == 1: return a
            if is_c(b) and b == 0: return Fraction(0)
        if op == 'fdiv' and is_c(b) and b != 0: return s.fop(st, 'fmul', a, 1 / Fraction(b))
        a, b = zr(a), zr(b)
        if op == 'fadd': return a + b
        if op == 'fsub': return a - b
        if op == 'fmul': return a * b
        if op == 'fdiv':
            if s.o.get('divcheck', False): s.oblige(st, b != 0, f'{s.where()}: no floating division by zero', 'safety')
            # named quotient keeps nonlinear reasoning polynomial
            key = ('fdiv', a.get_id(), b.get_id()); c = s.strcache.get(key)
            if c is None or not (c[1].eq(a) and c[2].eq(b)):
                c = s.strcache[key] = (s.fresh('quot', REAL), a, b); s.deps[str(c[0])] = [a, b]
            s.add(st, z3.Implies(b != 0, c[0] * b == a), True)
            return c[0]
        if op == 'frem': raise Unsupported('frem')
        raise Unsupported(op)
