"""polynomial back end: decides equalities of real polynomials modulo polynomial equations among the assumptions
(normal form with respect to a Groebner basis; sound: answers True only if the difference reduces to zero)"""
import z3, time
from fractions import Fraction
class TooBig(Exception): pass
class Poly:
    """converts z3 real terms to dicts monomial -> coefficient; monomial: sorted tuple of (atom index, exponent)"""
    def __init__(s): s.atoms = {}; s.terms = []; s.memo = {}; s.keep = []
    def atom(s, t):
        k = t.get_id()
        if k not in s.atoms: s.atoms[k] = len(s.terms); s.terms.append(t); s.keep.append(t)
        return {((s.atoms[k], 1),): Fraction(1)}
    def conv(s, t):
        k = t.get_id(); r = s.memo.get(k)
        if r is None: r = s.memo[k] = s.conv_(t); s.keep.append(t)
        return r
    def conv_(s, t):
        if z3.is_rational_value(t): return cst(Fraction(t.numerator_as_long(), t.denominator_as_long()))
        if z3.is_int_value(t): return cst(Fraction(t.as_long()))
        if z3.is_app(t):
            k = t.decl().kind()
            if k == z3.Z3_OP_ADD:
                r = {}
                for c in t.children(): r = add(r, s.conv(c), 1)
                return r
            if k == z3.Z3_OP_SUB:
                cs = t.children(); r = s.conv(cs[0])
                for c in cs[1:]: r = add(r, s.conv(c), -1)
                return r
            if k == z3.Z3_OP_UMINUS: return add({}, s.conv(t.arg(0)), -1)
            if k == z3.Z3_OP_MUL:
                r = cst(Fraction(1))
                for c in t.children(): r = mul(r, s.conv(c))
                return r
            if k == z3.Z3_OP_POWER and z3.is_rational_value(t.arg(1)) and t.arg(1).denominator_as_long() == 1 and 0 <= t.arg(1).numerator_as_long() <= 8:
                r = cst(Fraction(1)); b = s.conv(t.arg(0))
                for _ in range(t.arg(1).numerator_as_long()): r = mul(r, b)
                return r
        return s.atom(t)
def cst(c): return {(): c} if c else {}
def add(a, b, c):
    r = dict(a)
    for m, v in b.items():
        w = r.get(m, 0) + c * v
        if w: r[m] = w
        else: r.pop(m, None)
    return r
def mmul(m, n):
    if not m: return n
    if not n: return m
    d = dict(m)
    for v, e in n: d[v] = d.get(v, 0) + e
    return tuple(sorted(d.items()))
def mul(a, b):
    if len(a) * len(b) > 40000: raise TooBig()
    r = {}
    for m, v in a.items():
        for n, w in b.items():
            k = mmul(m, n); x = r.get(k, 0) + v * w
            if x: r[k] = x
            else: r.pop(k, None)
    return r
def mdiv(m, n):
    d = dict(m)
    for v, e in n:
        x = d.get(v, 0) - e
        if x < 0: return None
        if x: d[v] = x
        else: del d[v]
    return tuple(sorted(d.items()))
def order(m):  # graded, later atoms (quotients, roots) larger
    return (sum(e for _, e in m), tuple(sorted(((-v, e) for v, e in m))) and tuple((v, e) for v, e in sorted(m, reverse=True)))
def lead(p): return max(p, key=order)
def reduce(p, G, t1):
    r = {}; p = dict(p)
    while p:
        if time.time() > t1 or len(p) > 6000: raise TooBig()
        m = lead(p); c = p[m]
        for lm, g in G:
            q = mdiv(m, lm)
            if q is not None:
                p = add(p, {mmul(q, k): v for k, v in g.items()}, -c / g[lm]); break
        else: r[m] = c; del p[m]
    return r
def lcm(a, b):
    d = dict(a)
    for v, e in b: d[v] = max(d.get(v, 0), e)
    return tuple(sorted(d.items()))
def groebner(hs, t1, goals):
    G = []; pairs = []
    def push(h):
        h = reduce(h, G, t1)
        if not h: return False
        lm = lead(h); G.append((lm, h))
        for i in range(len(G) - 1):
            l = lcm(G[i][0], lm)
            if sum(e for _, e in l) == sum(e for _, e in lm) + sum(e for _, e in G[i][0]): continue
            pairs.append((order(l), i, len(G) - 1))
        return True
    for h in sorted(hs, key=lambda h: order(lead(h))): push(h)
    yield G
    n = 0
    while pairs and len(G) < 60:
        pairs.sort(key=lambda x: x[0], reverse=True); _, i, j = pairs.pop()
        if time.time() > t1: raise TooBig()
        a, f = G[i]; b, g = G[j]; l = lcm(a, b)
        S = add({mmul(mdiv(l, a), m): v / f[a] for m, v in f.items()}, {mmul(mdiv(l, b), m): v / g[b] for m, v in g.items()}, -1)
        if push(S):
            if G[-1][0] == (): yield G; return
            n += 1
            if n % 3 == 0: yield G
    yield G
def equations(a, out, ok, d=0):
    """real equalities that follow from assumption a (conditional ones if ok(condition))"""
    if d == 0 and any(o.eq(a) for o in out): return
    if d > 6 or not z3.is_app(a): return
    k = a.decl().kind()
    if k == z3.Z3_OP_AND:
        for c in a.children(): equations(c, out, ok, d + 1)
    elif k == z3.Z3_OP_EQ and z3.is_real(a.arg(0)): out.append(a)
    elif k == z3.Z3_OP_IMPLIES:
        o = []; equations(a.arg(1), o, ok, d + 1)
        if o and ok(a.arg(0)): out += o
    elif k == z3.Z3_OP_OR and any(z3.is_eq(c) for c in a.children()) and a.num_args() == 2:
        for i in (0, 1):
            o = []; equations(a.arg(i), o, ok, d + 1)
            if o and ok(z3.simplify(z3.Not(a.arg(1 - i)))): out += o
def nonzero(c):
    """y if c says y != 0"""
    if z3.is_not(c) and z3.is_eq(c.arg(0)):
        for i in (0, 1):
            if z3.is_rational_value(c.arg(0).arg(i)) and c.arg(0).arg(i).numerator_as_long() == 0: return c.arg(0).arg(1 - i)
    if z3.is_distinct(c) and c.num_args() == 2:
        for i in (0, 1):
            if z3.is_rational_value(c.arg(i)) and c.arg(i).numerator_as_long() == 0: return c.arg(1 - i)
def sos(t):
    """syntactically a sum of squares"""
    k = t.decl().kind() if z3.is_app(t) else None
    if k == z3.Z3_OP_ADD: return all(sos(c) for c in t.children())
    if k == z3.Z3_OP_MUL and t.num_args() == 2: return t.arg(0).eq(t.arg(1)) or (sos(t.arg(0)) and sos(t.arg(1)))
    return z3.is_rational_value(t) and t.numerator_as_long() >= 0
def diseqs(a, out):
    if z3.is_not(a) and z3.is_eq(a.arg(0)) and z3.is_real(a.arg(0).arg(0)): out.append(a.arg(0))
    elif z3.is_not(a) and z3.is_not(a.arg(0)): diseqs(a.arg(0).arg(0), out)
    elif z3.is_and(a):
        for c in a.children(): diseqs(c, out)
    elif z3.is_not(a) and z3.is_or(a.arg(0)):
        for c in a.arg(0).children(): diseqs(z3.Not(c), out)
    elif z3.is_distinct(a) and a.num_args() == 2 and z3.is_real(a.arg(0)): out.append(a.arg(0) == a.arg(1))
def ineq(a, out, P, neg=False, d=0):
    """inequalities p >= 0 or p > 0 (strict flag) stated by a, as polynomials"""
    if d > 6 or not z3.is_app(a): return
    k = a.decl().kind()
    if k == z3.Z3_OP_NOT: return ineq(a.arg(0), out, P, not neg, d + 1)
    if (k == z3.Z3_OP_AND and not neg) or (k == z3.Z3_OP_OR and neg):
        for c in a.children(): ineq(c, out, P, neg, d + 1)
        return
    if k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT) and z3.is_real(a.arg(0)):
        x, y = P.conv(a.arg(0)), P.conv(a.arg(1)); p = add(x, y, -1)   # x - y
        if k in (z3.Z3_OP_LE, z3.Z3_OP_LT): p = add({}, p, -1)
        strict = k in (z3.Z3_OP_LT, z3.Z3_OP_GT)
        if neg: p = add({}, p, -1); strict = not strict
        out.append((p, strict))
def multiple(g, h):
    """c if g == c * h for a constant c"""
    if len(g) != len(h) or not g: return None
    m = next(iter(g))
    if m not in h: return None
    c = g[m] / h[m]
    return c if all(k in h and g[k] == c * h[k] for k in g) else None
def refute(asserts, ok, limit=4.0):
    """True if a disequality among the assertions contradicts their equations, or the last assertion is an inequality
    that contradicts another one modulo the equations"""
    ds = []
    for a in asserts: diseqs(a, ds)
    t1 = time.time() + limit; P = Poly()
    try:
        last = []; ineq(asserts[-1], last, P)
        if not ds and not last: return False
        goals = [add(P.conv(d.arg(0)), P.conv(d.arg(1)), -1) for d in ds[-4:]]
        if any(not g for g in goals): return True
        known = []
        if last:
            for a in asserts[:-1]: ineq(a, known, P)
        es = []
        def ok2(c):
            if ok(c): return True
            y = nonzero(c)
            if y is None: return False
            if not known:
                for a in asserts[:-1]: ineq(a, known, P)
            t2 = min(t1, time.time() + 0.7)
            try:
                hs = [h for h in (add(P.conv(e.arg(0)), P.conv(e.arg(1)), -1) for e in es) if h] + [P.conv(y)]
                for G in groebner(hs, t2, []):
                    for q, st in known:
                        r = reduce(q, G, t2)
                        if (not r and st) or (list(r) == [()] and r[()] < 0): return True
            except TooBig: pass
            return False
        for a in asserts: equations(a, es, lambda c: False)
        for a in asserts: equations(a, es, ok2)
        hs = [h for h in (add(P.conv(e.arg(0)), P.conv(e.arg(1)), -1) for e in es) if h]
        # equations connected with the goals only
        for G in groebner(hs, t1, goals):
            for g in goals:
                if not reduce(g, G, t1): return True
            for p, st in last:      # p >= 0 (or > 0) is to be contradicted
                r = reduce(p, G, t1)
                if not r and st: return True
                if list(r) == [()] and (r[()] < 0): return True
                for q, st2 in known:
                    c = multiple(r, reduce(q, G, t1))
                    if c is not None and c < 0 and (st or st2): return True
    except TooBig: return False
    return False
