"""control part of the verifier: instructions, calls, exceptions, loops (invariant inference by Houdini)."""
import itertools, time, re
from engine import *
import poly
import engine as E

def FA(vs, body, patterns=None):
    """universally quantified fact; the trigger is only a hint (terms with if-then-else are not allowed in it)"""
    if patterns:
        try: return z3.ForAll(vs, body, patterns=patterns)
        except z3.Z3Exception: pass
    return z3.ForAll(vs, body)
def small(n): return isinstance(n, int) and not isinstance(n, bool) and n <= 64

class Ex(Engine):
    def __init__(s, mod, opts=None):
        super().__init__(mod, opts)
        s.loopcache = {}; s.veclay = {}
        for n, f in s.F.items():
            if f['decl']: continue
            f['lh'] = {L['header']: L for L in f['loops']}
            for L in f['loops']: L['bs'] = set(L['blocks'])
        s.npaths = 0; s.symexit = None
    def tick(s):
        if time.time() - s.t0 > s.o['budget']: raise Unsupported('proof time budget exhausted')
    # ------------------------------------------------ function execution
    def call(s, st, name, args):
        """execute function body; list of (state, kind, value)"""
        f = s.F[name]
        s.depth += 1
        if s.depth > 60: s.depth -= 1; raise Unsupported('recursion needs a contract: ' + s.dem[name])
        s.curfn.append(name)
        if f.get('file') or True: s.funcs_used.add(name)
        try:
            env = {}
            for a, v in zip(f['args'], args):
                if a.get('byval') and v is not None and isinstance(v, Ptr):
                    lay = a['byval']; rid = s.new_region(st, 'flat', lay['size'], lay['leaves'], 1, name='byval')
                    s.copy_bytes(st, Ptr(rid), v, lay['size']); v = Ptr(rid)
                env[a['id']] = v
            outs = s.run(st, env, name, 0, None, None)
            return [(t, k, v) for (t, k, v) in outs]
        finally:
            s.curfn.pop(); s.depth -= 1
    def run(s, st, env, fn, block, prev, within, first=True):
        """within: loop dict whose body we are executing (started at its header). outcomes:
           ('ret',v) ('throw',None) ('back',(env,prev)) ('exit',(env,block,prev))"""
        f = s.F[fn]; outs = []
        work = [(st, env, block, prev, within is not None)]
        while work:
            s.tick()
            st, env, b, prev, skiphdr = work.pop()
            if within is not None and not skiphdr:
                if b == within['header']: outs.append((st, 'back', (env, prev))); continue
                if b not in within['bs']: outs.append((st, 'exit', (env, b, prev))); continue
            L = f['lh'].get(b)
            if L is not None and not (skiphdr and within is not None and b == within['header']):
                try:
                    for (t, k, v) in s.loop(st, env, fn, L, prev):
                        if k == 'exit':
                            e2, nb, pv = v
                            work.append((t, e2, nb, pv, False))
                        else: outs.append((t, k, v))
                except Abort: pass
                continue
            try:
                nxt = s.block(st, env, fn, f['blocks'][b], b, prev)
            except Abort: continue
            for (t, e2, k, v) in nxt:
                if k == 'goto': work.append((t, e2, v, b, False))
                else: outs.append((t, k, v))
            if len(work) + len(outs) > s.o['maxpaths']: raise Unsupported('path explosion')
        return outs
    def block(s, st, env, fn, ins, b, prev):
        """run block b; returns list of (state, env, kind, val). Handles call forks by recursion on the rest."""
        i = 0
        # phis in parallel
        ph = []
        while i < len(ins) and ins[i]['op'] == 'phi':
            v = next(x for x, pb in ins[i]['ops'] if pb == prev)
            ph.append((ins[i]['id'], s.val(st, env, v))); i += 1
        env = dict(env)
        for k, v in ph: env[k] = v
        return s.instrs(st, env, fn, ins, i, b)
    def phis_only(s, st, env, fn, b, prev):
        ins = s.F[fn]['blocks'][b]; env = dict(env); out = []
        for I in ins:
            if I['op'] != 'phi': break
            v = next(x for x, pb in I['ops'] if pb == prev); out.append((I['id'], s.val(st, env, v), I['ty']))
        return out
    def branch(s, st, c):
        """returns list of (state, bool)"""
        if isinstance(c, bool): return [(st, c)]
        if isinstance(c, int): return [(st, bool(c & 1))]
        c = simp(z3.simplify(c))
        if isinstance(c, bool): return [(st, c)]
        q = has_quant(c)
        ft = True if q else s.feasible(st, c); ff = True if q else s.feasible(st, z3.Not(c))
        if ft and not ff: s.add(st, c); return [(st, True)]
        if ff and not ft: s.add(st, z3.Not(c)); return [(st, False)]
        if not ft and not ff: raise Abort()
        t2 = st.fork(); s.add(st, c); s.add(t2, z3.Not(c)); return [(st, True), (t2, False)]
    def instrs(s, st, env, fn, ins, i, b):
        while True:
            I = ins[i]; op = I['op']
            if 'line' in I and op in ('br', 'call', 'invoke'): s.line = I['line']
            if op == 'br':
                if not I['ops']: return [(st, env, 'goto', I['succ'][0])]
                c = s.val(st, env, I['ops'][0])
                if len(I['succ']) == 2 and I['succ'][0] == I['succ'][1]: return [(st, env, 'goto', I['succ'][0])]
                r = s.branch(st, c)
                if len(r) == 2:
                    if s.symexit is not None: s.symexit.add((fn, b))
                    for t, d in r: t.trace.append(f"{I.get('line','?')}{'T' if d else 'F'}")
                return [(t, env if k == 0 else dict(env), 'goto', I['succ'][0 if d else 1]) for k, (t, d) in enumerate(r)]
            if op == 'switch':
                c = s.val(st, env, I['ops'][0]); out = []
                rest = st
                for cv, blk in I['cases']:
                    k = int(cv[1]) if cv[2] != 1 else int(cv[1]) & 1
                    e = s.icmp(rest, 'eq', I['w'], c, k)
                    if e is True: out.append((rest, dict(env), 'goto', blk)); rest = None; break
                    if e is False: continue
                    try: br = s.branch(rest, e)
                    except Abort: rest = None; break
                    rest = None
                    for t, d in br:
                        if d: out.append((t, dict(env), 'goto', blk))
                        else: rest = t
                    if rest is None: break
                if rest is not None: out.append((rest, env, 'goto', I['default']))
                return out
            if op == 'ret':
                return [(st, env, 'ret', s.val(st, env, I['ops'][0]) if I['ops'] else None)]
            if op == 'unreachable':
                s.oblige(st, False, f'{s.where()}: unreachable code (missing return / undefined behaviour) is not reached', 'safety'); raise Abort()
            if op == 'resume': return [(st, env, 'throw', None)]
            if op in ('call', 'invoke'):
                res = s.docall(st, env, fn, I)
                if len(res) == 1 and res[0][1] == 'ret':
                    st = res[0][0]; env[I['id']] = res[0][2]
                    if op == 'invoke': return [(st, env, 'goto', I['normal'])]
                    i += 1; continue
                out = []
                for t, k, v in res:
                    e2 = dict(env)
                    if k == 'ret':
                        e2[I['id']] = v
                        if op == 'invoke': out.append((t, e2, 'goto', I['normal']))
                        else:
                            try: out += s.instrs(t, e2, fn, ins, i + 1, b)
                            except Abort: pass
                    else:
                        if op == 'invoke': out.append((t, e2, 'goto', I['unwind']))
                        else: out.append((t, e2, 'throw', None))
                return out
            if op == 'select' and I['ty'] == 'ptr':
                c = s.val(st, env, I['ops'][0]); a = s.val(st, env, I['ops'][1]); bb = s.val(st, env, I['ops'][2])
                if isinstance(a, Ptr) and isinstance(bb, Ptr) and repr(a.r) == repr(bb.r) and is_c(a.o) and is_c(bb.o) and a.o == bb.o and not isinstance(c, bool):
                    env[I['id']] = Ptr(a.r, Ite(c, a.i, bb.i), a.o); i += 1; continue
                r = s.branch(st, c); out = []
                if len(r) == 1: env[I['id']] = a if r[0][1] else bb; i += 1; continue
                for t, d in r:
                    e2 = dict(env); e2[I['id']] = a if d else bb
                    try: out += s.instrs(t, e2, fn, ins, i + 1, b)
                    except Abort: pass
                return out
            try: env[I['id']] = s.simple(st, env, I)
            except LoadChoice as ch:      # a table of pointers: one path for each entry
                if op != 'load' or I['ty'] != 'ptr': raise
                out = []
                for c, v in ch.vals:
                    t = st.fork()
                    if not s.feasible(t, c): continue
                    s.add(t, c); e2 = dict(env); e2[I['id']] = v
                    try: out += s.instrs(t, e2, fn, ins, i + 1, b)
                    except Abort: pass
                return out
            i += 1
    def simple(s, st, env, I):
        op = I['op']; ops = I['ops']; V = lambda k: s.val(st, env, ops[k])
        if op in ('add', 'sub', 'mul', 'udiv', 'urem', 'sdiv', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            return s.binop(st, op, I['w'], V(0), V(1), I)
        if op == 'icmp': return s.icmp(st, I['pred'], I.get('ow', 64), V(0), V(1))
        if op == 'fcmp': return s.fcmp(I['pred'], V(0), V(1))
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            if op == 'frem': return s.libm(st, 'fmod', [V(0), V(1)])
            return s.fop(st, op, V(0), V(1))
        if op == 'fneg':
            a = V(0); return -a
        if op == 'alloca':
            n = s.val(st, env, ops[0]) if ops else 1; lay = I['layout']
            if n != 1: raise Unsupported('dynamic alloca')
            rid = s.new_region(st, 'flat', lay['size'], lay['leaves'], 1, aty=I['aty'], name=I['aty'].strip('%"'))
            return Ptr(rid, 0, 0)
        if op == 'load': return s.load(st, s.ptrv(V(0)), I['layout'], I['ty'])
        if op == 'store': s.store(st, s.ptrv(V(1)), I['layout'], I['oty'], V(0)); return None
        if op == 'getelementptr': return s.gep(st, I['gep'], env)
        if op == 'zext':
            a = V(0); ow = I['ow']
            if ow == 1 or isinstance(a, (bool, z3.BoolRef)): return Ite(a, 1, 0) if isinstance(a, (bool, z3.BoolRef)) else a
            if ow in (96, 97): return a
            return s.u(st, a, ow)
        if op == 'sext':
            a = V(0)
            if isinstance(a, (bool, z3.BoolRef)): return Ite(a, -1, 0)
            return a
        if op == 'trunc':
            a = V(0)
            if isinstance(a, PDiff): a = s.pd2int(a)
            if I['w'] == 1:
                if isinstance(a, (bool, z3.BoolRef)): return a
                if is_c(a): return bool(a & 1)
                lo, hi = s.iv(a)
                if z3.is_app_of(a, z3.Z3_OP_ITE) and z3.is_int_value(a.arg(1)) and z3.is_int_value(a.arg(2)) and {a.arg(1).as_long(), a.arg(2).as_long()} == {0, 1}:
                    return a.arg(0) if a.arg(1).as_long() == 1 else z3.Not(a.arg(0))
                return a % 2 == 1
            if is_c(a): return trunc_int(a, I['w'])
            return s.wrap(st, a, I['w'])
        if op in ('bitcast', 'freeze', 'addrspacecast'): return V(0)
        if op == 'ptrtoint':
            p = V(0); return 0 if isinstance(p, Ptr) and p.r is None else PInt(p)
        if op == 'inttoptr':
            p = V(0)
            if isinstance(p, PInt): return p.p
            if is_c(p) and p == 0: return NULL
            raise Unsupported('inttoptr')
        if op == 'sitofp':
            a = V(0)
            return Fraction(a) if is_c(a) else z3.ToReal(zi(a))
        if op == 'uitofp':
            a = V(0)
            if isinstance(a, (bool, z3.BoolRef)): a = Ite(a, 1, 0)
            a = s.u(st, a, I['ow']); return Fraction(a) if is_c(a) else z3.ToReal(zi(a))
        if op in ('fptosi', 'fptoui'):
            a = V(0); w = I['w']
            if is_c(a): return int(a)
            s.assumed.add('float-to-integer conversions are in range of the target type')
            r = z3.If(a >= 0, z3.ToInt(a), -z3.ToInt(-a)); return r
        if op in ('fpext', 'fptrunc'): return V(0)
        if op == 'extractvalue':
            v = V(0)
            for k in I['idx']:
                if isinstance(v, tuple) and v[0] == 'zero': return v
                v = v[k]
            return v
        if op == 'insertvalue':
            v = V(0); x = V(1)
            def ins(v, ix):
                v = list(v) if isinstance(v, list) else [None] * 8
                while len(v) <= ix[0]: v.append(None)
                v[ix[0]] = x if len(ix) == 1 else ins(v[ix[0]], ix[1:]); return v
            return ins(v, I['idx'])
        if op == 'landingpad':
            ti, ptr = st.exc
            sel = 0
            for k, c in I['clauses']:
                if k == 'catch':
                    cv = s.val(st, env, c)
                    if isinstance(cv, Ptr) and cv.r is None: sel = 1; break
                    cn = c[1]
                    if s.ti_match(ti, cn): sel = s.typeid(cn); break
            return [ptr, sel]
        if op == 'select':
            return Ite(V(0), V(1), V(2))
        if op == 'fence': return None
        raise Unsupported('instruction ' + op)
    def ptrv(s, p):
        if isinstance(p, Ptr): return p
        if isinstance(p, PInt): return p.p
        if isinstance(p, Fn): raise Unsupported('load from function')
        if isinstance(p, tuple): raise Unsupported('ptr ' + str(p))
        raise Unsupported('bad pointer ' + str(type(p)))
    def typeid(s, g): return 2 + (hash(g) & 0xffff)
    def ti_match(s, ti, cn):
        while ti is not None:
            if ti == cn: return True
            init = {o: v for o, t, z, v in s.G.get(ti, {}).get('init', [])}
            b = init.get(16); ti = b[1] if b and b[0] == 'g' else None
        return False
    # ------------------------------------------------ calls
    def docall(s, st, env, fn, I):
        name = I.get('callee')
        if name and name.startswith('llvm.'):
            return s.llvm(st, env, I, name)
        if name is None:
            f = s.val(st, env, I['indirect'])
            if isinstance(f, Fn): name = f.name
            else: raise Unsupported('indirect call')
        args = [None if o is None else s.val(st, env, o) for o in I['ops']]
        for k, bl in enumerate(I['byval']):
            if bl is not None and not s.F.get(name, {}).get('decl', True):
                pass   # callee makes its own copy (byval attribute)
        return s.invoke(st, name, args, I)
    def invoke(s, st, name, args, I=None):
        if name.startswith('__xov_'): return s.intrinsic(st, name, args)
        d = s.dem.get(name, name)
        # contract stubs
        if s.stubs and not s.in_stub(name):
            for pre, sf, ex in s.stubs:
                if s.match_stub(d, pre) and not (ex and s.proof in ex.replace(',', ' ').split()):
                    s.stubs_used.add(pre); s.stubdepth = getattr(s, 'stubdepth', 0)
                    return s.call(st, sf, args)
        r = s.library(st, name, d, args)
        if r is not None: return r
        f = s.F.get(name)
        if f is None or f['decl']: raise Unsupported('call to undefined ' + d)
        return s.call(st, name, args)
    def match_stub(s, d, pre):
        if pre.endswith('('): 
            # strip return type for templates
            return d.startswith(pre) or (' ' + pre) in d.split('(')[0] + '('
        return d.startswith(pre)
    def in_stub(s, name):
        return any(name == sf for _, sf, _ in s.stubs) or (s.curfn and any(s.curfn[-1] == sf for _, sf, _ in s.stubs) and False)
    def ret(s, st, v=None): return [(st, 'ret', v)]
    def llvm(s, st, env, I, name):
        A = lambda k: s.val(st, env, I['ops'][k])
        if name.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.experimental.noalias', 'llvm.invariant', 'llvm.var.annotation', 'llvm.stacksave', 'llvm.stackrestore')): return s.ret(st, None)
        if name.startswith('llvm.assume'):
            s.add(st, zb(A(0))) if False else None
            return s.ret(st)
        if name.startswith(('llvm.memcpy', 'llvm.memmove')):
            s.copy_bytes(st, s.ptrv(A(0)), s.ptrv(A(1)), A(2)); return s.ret(st)
        if name.startswith('llvm.memset'):
            p = s.ptrv(A(0)); v = A(1); n = A(2)
            if not is_c(n) : raise Unsupported('memset')
            if n == 0: return s.ret(st)
            R = st.regs[p.r]
            if R.kind == 'arr' and not (p.o + n <= R.S): raise Unsupported('memset array')
            for l in [l for l in R.leaves if p.o <= l[0] < p.o + n]:
                if v == 0: x = s.zero(l[1])
                elif is_c(v) and l[1][0] == 'i': x = trunc_int(int.from_bytes(bytes([v & 255]) * l[2], 'little'), int(l[1][1:]))
                else: raise Unsupported('memset value')
                s.store1(st, Ptr(p.r, p.i, l[0]), l[1], l[2], x)
            return s.ret(st)
        if name.startswith('llvm.trap') or name.startswith('llvm.ubsantrap'):
            s.oblige(st, False, f'{s.where()}: trap not reached', 'safety'); raise Abort()
        if name.startswith('llvm.eh.typeid.for'): return s.ret(st, s.typeid(I['ops'][0][1]))
        m = re.match(r'llvm\.(\w+)\.(f32|f64|i32|i64|i8|i16|f128)', name)
        if m: 
            r = s.libm_ret(st, m.group(1), [A(k) for k in range(len(I['ops']))])
            if r is not None: return r
        if name.startswith('llvm.expect'): return s.ret(st, A(0))
        if name.startswith('llvm.is.constant'): return s.ret(st, False)
        if name.startswith('llvm.objectsize'): return s.ret(st, -1)
        m = re.match(r'llvm\.(s|u)(add|sub|mul)\.with\.overflow\.i(\d+)', name)
        if m:
            w = int(m.group(3)); a, b = A(0), A(1)
            if m.group(1) == 'u': a, b = s.u(st, a, w), s.u(st, b, w)
            r = {'add': s.iadd, 'sub': s.isub, 'mul': s.imul}[m.group(2)](a, b)
            if m.group(1) + m.group(2) == 'umul' and is_c(b): s.lastmul = (a, b)
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if m.group(1) == 's' else (0, (1 << w) - 1)
            return s.ret(st, [s.wrap(st, r, w) if m.group(1) == 's' else s.wrap(st, r, w), Or(zi(r) < lo, zi(r) > hi)])
        raise Unsupported('intrinsic ' + name)
    def libm_ret(s, st, f, a):
        try: v = s.libm(st, f, a)
        except KeyError: return None
        return s.ret(st, v)
    def uf(s, name, *a):
        return z3.Function('uf_' + name, *([REAL] * len(a)), REAL)(*[zr(x) for x in a])
    def libm(s, st, f, a):
        if f.endswith('f') and f[:-1] in (LIBM1 | LIBM2 | {'sqrt', 'fabs', 'floor', 'ceil', 'trunc', 'round', 'fmod', 'fmin', 'fmax', 'copysign', 'nearbyint', 'rint'}): f = f[:-1]
        if f in ('sqrt',):
            x = zr(a[0]); key = ('sqrt', x.get_id()); c = s.strcache.get(key)
            if c is None or not c[1].eq(x): c = s.strcache[key] = (s.fresh('sqrt', REAL), x)
            r = c[0]
            s.oblige_opt(st, x >= 0, f'{s.where()}: sqrt argument non-negative')
            s.add(st, z3.And(r >= 0, r * r == x if poly.sos(x) else z3.Implies(x >= 0, r * r == x)) ); return r
        if f == 'cbrt':
            x = zr(a[0]); r = s.uf('cbrt', x); s.add(st, z3.And(r * r * r == x, (x >= 0) == (r >= 0)), True); return r
        if f in ('fabs', 'abs'):
            x = a[0]
            if is_c(x): return abs(x)
            return z3.If(x >= 0, x, -x)
        if f in ('fmin', 'minnum', 'fmax', 'maxnum', 'minimum', 'maximum'):
            x, y = zr(a[0]), zr(a[1]); return z3.If(x <= y, x, y) if 'min' in f else z3.If(x >= y, x, y)
        if f in ('smin', 'smax'): x, y = zi(a[0]), zi(a[1]); return z3.If(x <= y, x, y) if f == 'smin' else z3.If(x >= y, x, y)
        if f in ('floor', 'ceil', 'trunc', 'round', 'nearbyint', 'rint'):
            x = zr(a[0])
            x0 = simp(z3.simplify(x))
            if is_c(x0):
                import math as _m
                q = Fraction(x0); return Fraction({'floor': _m.floor, 'ceil': _m.ceil, 'trunc': _m.trunc, 'round': lambda v: _m.floor(v + Fraction(1, 2)) if v >= 0 else -_m.floor(-v + Fraction(1, 2)), 'nearbyint': round, 'rint': round}[f](q))
            def asint(y, d=0):
                if z3.is_rational_value(y): return z3.IntVal(y.numerator_as_long()) if y.denominator_as_long() == 1 else None
                if z3.is_to_real(y): return y.arg(0)
                k = y.decl().kind()
                if d < 12 and k in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS):
                    cs = [asint(y.arg(i), d + 1) for i in range(y.num_args())]
                    if any(c is None for c in cs): return None
                    r = cs[0] if k != z3.Z3_OP_UMINUS else -cs[0]
                    for c in cs[1:]: r = r + c if k == z3.Z3_OP_ADD else r * c if k == z3.Z3_OP_MUL else r - c
                    return r
                if d < 12 and k == z3.Z3_OP_ITE:
                    u, v = asint(y.arg(1), d + 1), asint(y.arg(2), d + 1)
                    return None if u is None or v is None else z3.If(y.arg(0), u, v)
            xs = z3.simplify(x, som=True); iv = asint(xs)
            if iv is not None: return z3.ToReal(iv)
            def flr(y):   # named integer part: linear constraints instead of to_int
                key = ('flr', y.get_id()); c = s.strcache.get(key)
                if c is None or not c[1].eq(y): c = s.strcache[key] = (s.fresh('flr', INT), y); s.deps[str(c[0])] = [y]
                s.add(st, z3.And(z3.ToReal(c[0]) <= y, y < z3.ToReal(c[0]) + 1), True)
                for k2, c2 in list(s.strcache.items()):   # consequences the linear solver does not find by itself
                    if k2[0] != 'flr' or c2 is c: continue
                    d = simp(z3.simplify(y - c2[1], som=True)); e = simp(z3.simplify(y + c2[1], som=True))
                    if is_c(d) and Fraction(d).denominator == 1: s.add(st, c[0] == c2[0] + int(d), True)
                    elif is_c(e) and Fraction(e).denominator == 1: s.add(st, z3.Implies(True, z3.If(z3.ToReal(c[0]) == y, c[0] + c2[0] == int(e), c[0] + c2[0] == int(e) - 1)), True)
                return z3.ToReal(c[0])
            if f == 'floor': return flr(x)
            if f == 'ceil': return -flr(-x)
            if f == 'trunc': return z3.If(x >= 0, flr(x), -flr(-x))
            if f == 'round': return z3.If(x >= 0, flr(x + z3.Q(1, 2)), -flr(-x + z3.Q(1, 2)))
            r = s.fresh('rint', INT); s.add(st, z3.And(z3.ToReal(r) - x <= z3.Q(1, 2), x - z3.ToReal(r) <= z3.Q(1, 2))); return z3.ToReal(r)
        if f == 'copysign':
            x, y = zr(a[0]), zr(a[1]); m = z3.If(x >= 0, x, -x); return z3.If(y >= 0, m, -m)
        if f in ('fmuladd', 'fma'): return s.fop(st, 'fadd', s.fop(st, 'fmul', a[0], a[1]), a[2])
        if f == 'fmod':
            y0 = simp(z3.simplify(zr(a[1])))
            if is_c(y0) and y0 > 0: return zr(a[0]) - y0 * s.libm(st, 'trunc', [s.fop(st, 'fdiv', a[0], Fraction(y0))])
            x, y = zr(a[0]), zr(a[1]); k = s.fresh('fmodk', INT); r = s.fresh('fmod', REAL)
            s.add(st, z3.Implies(y != 0, z3.And(x == z3.ToReal(k) * y + r, z3.Implies(x >= 0, r >= 0), z3.Implies(x <= 0, r <= 0), z3.If(y > 0, z3.And(r < y, r > -y), z3.And(r < -y, r > y))))); return r
        if f == 'remainder':
            x, y = zr(a[0]), zr(a[1]); k = s.fresh('remk', INT); r = s.fresh('rem', REAL)
            s.add(st, z3.Implies(y != 0, z3.And(x == z3.ToReal(k) * y + r, 2 * r <= z3.If(y > 0, y, -y), 2 * r >= -z3.If(y > 0, y, -y)))); return r
        if f in LIBM1:
            x = zr(a[0]); r = s.uf(f, x)
            if f in ('sin', 'cos'):
                sn, cs = s.uf('sin', x), s.uf('cos', x); s.add(st, sn * sn + cs * cs == 1); s.add(st, z3.And(r <= 1, r >= -1))
                x0 = simp(z3.simplify(x))
                if is_c(x0) and x0 == 0: return Fraction(0) if f == 'sin' else Fraction(1)
            if f in ('exp', 'exp2'): s.add(st, r > 0); s.add(st, z3.And(z3.Implies(x <= 0, r <= 1), z3.Implies(x >= 0, r >= 1)))
            if f == 'tanh': s.add(st, z3.And(r > -1, r < 1, z3.Implies(x >= 0, z3.And(r >= 0, r <= x)), z3.Implies(x <= 0, z3.And(r <= 0, r >= x))))
            if f == 'acos': s.add(st, z3.Implies(z3.And(x >= -1, x <= 1), z3.And(r >= 0, s.uf('cos', r) == x, s.uf('sin', r) >= 0, s.uf('sin', r) * s.uf('sin', r) + x * x == 1)))
            if f == 'asin': s.add(st, z3.Implies(z3.And(x >= -1, x <= 1), z3.And(s.uf('sin', r) == x, s.uf('cos', r) >= 0, s.uf('cos', r) * s.uf('cos', r) + x * x == 1)))
            s.assumed.add(f'libm {f}: uninterpreted with axioms (sin^2+cos^2=1, ranges, inverse pairs)')
            return r
        if f in LIBM2:
            if f == 'atan2':
                y, x = zr(a[0]), zr(a[1]); r = s.uf(f, y, x); h = s.uf('hypot', y, x); sn, cs = s.uf('sin', r), s.uf('cos', r)
                s.add(st, z3.And(h >= 0, h * h == x * x + y * y, x == h * cs, y == h * sn, sn * sn + cs * cs == 1)); s.assumed.add('libm atan2: uninterpreted with axioms (polar coordinates)'); return r
            s.assumed.add(f'libm {f}: uninterpreted'); return s.uf(f, *a)
        raise KeyError(f)
    def oblige_opt(s, st, c, name):
        if s.o.get('sqrtcheck'): s.oblige(st, c, name, 'safety')
        else: s.add(st, z3.Implies(z3.BoolVal(True), c)) if False else None
    def library(s, st, name, d, args):
        if name in ('__cxa_allocate_exception',):
            n = args[0]; rid = s.new_region(st, 'flat', n if is_c(n) else 0, [], 1, aty='exc', name='exception'); return s.ret(st, Ptr(rid))
        if name == '__cxa_free_exception' or name == '__cxa_end_catch': return s.ret(st)
        if name == '__cxa_throw':
            ti = args[1]; g = None
            for k, v in s.glob.items():
                if isinstance(ti, Ptr) and v == ti.r: g = k
            st.exc = (g, args[0]); return [(st, 'throw', None)]
        if re.match(r'_ZNSt\w*(exception|bad_\w+)[CD]\dEv$', name): return s.ret(st)
        if name == '__cxa_rethrow': return [(st, 'throw', None)]
        if name == '__cxa_begin_catch' or name == '__cxa_get_exception_ptr': return s.ret(st, args[0])
        if name in ('__clang_call_terminate', '_ZSt9terminatev', 'abort', 'exit', '__cxa_pure_virtual', '_ZSt7abort'):
            s.oblige(st, False, f'{s.where()}: {d} is not reached', 'safety'); raise Abort()
        if name in ('__cxa_guard_acquire',): return s.ret(st, 0)
        if name in ('__cxa_guard_release', '__cxa_atexit'): return s.ret(st, 0)
        if name in ('memcpy', 'memmove'):
            s.copy_bytes(st, s.ptrv(args[0]), s.ptrv(args[1]), args[2]); return s.ret(st, args[0])
        if name == 'strchr':   # the pointer itself is not modelled, only whether the character occurs (the terminator does)
            p = s.ptrv(args[0])
            if isinstance(p.r, tuple) and p.r[0] == 'str': sv = s.str_substr(st, s.load1(st, p.r[1], 'i96', 16), p.i, s.isub(s.str_len(s.load1(st, p.r[1], 'i96', 16)), p.i))
            else: sv = s.str_lit(s.cstr_at(st, p))
            l = s.str_lit_of(sv); ch = args[1]
            c = Or(*[s.eqi(ch, trunc_int(ord(x), 8)) for x in l], s.eqi(ch, 0)) if l is not None else Or(s.str_in(st, sv, zi(ch)), s.eqi(ch, 0))
            return [(t, 'ret', args[0] if b else NULL) for t, b in s.branch(st, c)]
        if name == 'strlen':
            v = s.cstr_at(st, args[0]); return s.ret(st, len(v)) if isinstance(v, str) else s.ret(st, v)
        if s.F.get(name, {}).get('decl', True):
            if re.fullmatch(r'[a-z]\w*', name):
                try: return s.ret(st, s.libm(st, name, args))
                except KeyError: pass
            if name in ('isspace', 'isdigit', 'isalpha', 'isalnum', 'tolower', 'toupper', 'ispunct', 'isxdigit', 'isprint', 'isupper', 'islower'):
                return s.ret(st, s.ctype(name, args[0]))
        if name in ('_Znwm', '_Znam'):   # allocation is assumed to succeed; leaves appear when they are first written
            lm = getattr(s, 'lastmul', None); s.lastmul = None; s.assumed.add('operator new succeeds')
            if name == '_Znam' and lm is not None:
                n, S = lm; s.add(st, zi(n) >= 0) if not is_c(n) else None
                s.add(st, zi(n) < 2 ** 40) if not is_c(n) else None
                return s.ret(st, Ptr(s.new_region(st, 'arr', S, [], n, aty='heap', name='heap'), 0, 0))
            if not is_c(args[0]): raise Unsupported('untyped operator new of symbolic size')
            return s.ret(st, Ptr(s.new_region(st, 'flat', args[0], [], 1, aty='heap', name='heap'), 0, 0))
        if name in ('_ZdlPv', '_ZdlPvm', '_ZdaPv', '_ZdaPvm', 'free'):
            p = s.ptrv(args[0])
            R = st.regs.get(p.r) if p.r is not None and not (isinstance(p.r, tuple)) else None
            if R is not None and R.aty == 'heap':
                if R.freed: s.oblige(st, False, f'{s.where()}: double delete', 'safety'); raise Abort()
                R2 = R.copy(); R2.freed = True; st.regs[p.r] = R2
            return s.ret(st)
        return None
    def ctype(s, f, c):
        rng = {'isspace': [(9, 13), (32, 32)], 'isdigit': [(48, 57)], 'isalpha': [(65, 90), (97, 122)], 'isupper': [(65, 90)], 'islower': [(97, 122)],
               'isalnum': [(48, 57), (65, 90), (97, 122)], 'isxdigit': [(48, 57), (65, 70), (97, 102)], 'isprint': [(32, 126)], 'ispunct': [(33, 47), (58, 64), (91, 96), (123, 126)]}
        if f in rng:
            b = Or(*[And(s.cmpi('ge', c, a), s.cmpi('le', c, z)) for a, z in rng[f]]); return Ite(b, 1, 0)
        if f == 'tolower': return Ite(And(s.cmpi('ge', c, 65), s.cmpi('le', c, 90)), s.iadd(c, 32), c)
        if f == 'toupper': return Ite(And(s.cmpi('ge', c, 97), s.cmpi('le', c, 122)), s.iadd(c, -32), c)
    def cstr_at(s, st, p):
        """python string of a constant C string at p, or raise"""
        if isinstance(p.r, tuple) and p.r[0] == 'g' and is_c(p.i) and is_c(p.o):
            R = st.regs[p.r]; o = p.o + p.i * R.S; out = ''
            while True:
                c = R.cells.get(o); 
                ch = 0 if c is None else (0 if isinstance(c[2], tuple) else c[2])
                if not is_c(ch): raise Unsupported('cstr')
                if ch == 0 or o >= R.S: return out
                out += chr(ch & 255); o += 1
        if isinstance(p.r, tuple) and p.r[0] == 'str': raise Unsupported('cstr of string object')
        raise Unsupported('symbolic C string')
    # ------------------------------------------------ harness intrinsics
    def intrinsic(s, st, n, a):
        g = n[6:]
        inp = g.startswith('in_')
        if g.startswith('any_int') and is_c(a[0]) and is_c(a[1]) and a[0] == a[1]: return s.ret(st, a[0])
        if inp: g = 'any_' + g[3:]
        if g.startswith('any_int'):
            v = s.fint('in' if inp else 'ch', a[0] if is_c(a[0]) else None, a[1] if is_c(a[1]) else None, st)
            if not is_c(a[0]): s.add(st, v >= a[0])
            if not is_c(a[1]): s.add(st, v <= a[1])
            if inp: st.choices.append(('int', v))
            return s.ret(st, v)
        if g.startswith('any_bits'):
            v = s.frombv(s.fresh('inbv', z3.BitVecSort(64)))
            if inp: st.choices.append(('int', v))
            return s.ret(st, v)
        if g == 'any_bool':
            v = s.fresh('inb', BOOL)
            if inp: st.choices.append(('bool', v))
            return s.ret(st, v)
        if g.startswith('any_real'):
            v = s.fresh('inr', REAL)
            if inp: st.choices.append(('real', v))
            return s.ret(st, v)
        if g == 'any_str':
            v = s.fresh_str(st, 'instr')
            if inp: st.choices.append(('str', v))
            return s.ret(st, v)
        if g == 'any_any': v = s.fresh('inany', ANY); return s.ret(st, v)
        if g == 'any_array':   # witness, n
            w = st.regs[a[0].r]; rid = s.new_region(st, 'arr', w.S, w.leaves, a[1], vec=True, aty=w.aty, name='arr')
            if inp: st.choices.append(('arr', (rid, a[1], w.leaves)))
            return s.ret(st, Ptr(rid))
        if g == 'concrete': return s.ret(st, is_c(a[0]) or isinstance(a[0], bool))
        if g == 'assume':
            c = a[0]
            if isinstance(c, int) and not isinstance(c, bool): c = bool(c)
            if c is False: raise Abort()
            if c is not True:
                if not has_quant(c) and not s.feasible(st, c): raise Abort()
                s.add(st, c)
            return s.ret(st)
        if g == 'check':
            lab = s.cstr_at(st, a[1]); c = a[0]
            if isinstance(c, int) and not isinstance(c, bool): c = bool(c)
            s.oblige(st, c, lab, 'post'); return s.ret(st)
        if g == 'require':
            lab = s.cstr_at(st, a[1]); s.oblige(st, a[0], f'{s.caller()}: {lab}', 'pre'); return s.ret(st)
        if g == 'cover':
            lab = s.cstr_at(st, a[0])
            if s.suppress: return s.ret(st)
            if s.covers.get(lab) != 'reached':
                r, _ = s._check(st.pc, 1500); s.covers[lab] = 'unreachable' if r == z3.unsat and s.covers.get(lab) is None else ('reached' if r == z3.sat else ('not refuted' if r != z3.unsat else s.covers[lab]))
            return s.ret(st)
        if g in ('forall', 'exists'):   # lo, hi, closure, fn
            return s.ret(st, s.quant(st, g, a[0], a[1], a[2], a[3]))
        if g == 'forall_sel':   # pattern hint variant not needed
            return s.ret(st, s.quant(st, 'forall', a[0], a[1], a[2], a[3]))
        if g == 'realloc':     # base,n,pos,del,ins,newcap,witness -> fresh region
            return s.ret(st, s.realloc(st, *a))
        if g == 'dup': return s.ret(st, s.dup(st, *a))
        if g == 'fill': s.fill(st, *a); return s.ret(st)
        if g == 'copy': s.move(st, *a); return s.ret(st)
        if g == 'erase': s.erase(st, *a); return s.ret(st)
        if g == 'permute': s.permute(st, *a); return s.ret(st)
        if g == 'compact': return s.ret(st, s.compact(st, *a))
        if g == 'free':
            p = a[0]
            if p.r is not None and not isinstance(p.r, tuple):
                R = st.regs[p.r].copy(); R.freed = True; st.regs[p.r] = R
            return s.ret(st)
        if g == 'hint':      # closure, fn, nargs(int), nobj + name
            hn = (a[0], a[1].name, a[2])
            if not any(h[:2] == hn[:2] and repr(h[2]) == repr(hn[2]) for h in s.hints): s.hints.append(hn)  # once, also where paths join here
            return s.ret(st)
        if g == 'hint_obj':
            s.wits.add(a[3].r); hn = (a[0], a[1].name, a[2], st.regs[a[3].r].aty)
            if not any(h[:2] == hn[:2] and repr(h[2]) == repr(hn[2]) for h in s.hints): s.hints.append(hn)
            return s.ret(st)
        if g == 'unhint': s.hints.clear(); return s.ret(st)
        # strings: values
        if g == 'str_lit': return s.ret(st, s.str_lit(s.cstr_at(st, a[0])))
        if g == 'str_from':   # const char*, n
            p = a[0]
            if isinstance(p.r, tuple) and p.r[0] == 'str':
                sv = s.load1(st, p.r[1], 'i96', 16); return s.ret(st, s.str_substr(st, sv, p.i, a[1]))
            R = st.regs.get(p.r)
            if isinstance(p.r, tuple) and p.r[0] == 'g' and is_c(a[1]):
                o = p.o + p.i * R.S; t = ''
                for k in range(a[1]):
                    c = R.cells.get(o + k); t += chr((0 if c is None or isinstance(c[2], tuple) else c[2]) & 255)
                return s.ret(st, s.str_lit(t))
            if R is not None and R.kind == 'arr':
                arr = s.leaf_arr(st, R, p.o, 'i8')[2]
                s.oblige(st, And(zi(p.i) >= 0, zi(a[1]) >= 0, zi(p.i) + zi(a[1]) <= zi(R.n)), f'{s.where()}: character range in bounds', 'safety')
                return s.ret(st, s.str_def(st, 'from', a[1], lambda k: arr[k + zi(p.i)], [arr, p.i, a[1]]))
            if R is not None and R.kind == 'flat' and is_c(a[1]) and 0 <= a[1] <= s.o.get('charmax', 64):
                return s.ret(st, s.str_mk([s.load1(st, s.padd(st, p, k, []), 'i8', 1) for k in range(a[1])]))
            raise Unsupported('str_from')
        if g == 'str_cstr':   # const char* nul terminated
            p = a[0]
            if isinstance(p.r, tuple) and p.r[0] == 'str':
                sv = s.load1(st, p.r[1], 'i96', 16); return s.ret(st, s.str_substr(st, sv, p.i, s.isub(s.str_len(sv), p.i)))
            R = st.regs.get(p.r)
            if R is not None and R.kind == 'flat' and not (isinstance(p.r, tuple) and p.r[0] == 'g'):   # characters up to the first that is 0, if it is known which that is
                out = []
                while True:
                    c = s.load1(st, s.padd(st, p, len(out), []), 'i8', 1)
                    if is_c(c):
                        if c == 0: return s.ret(st, s.str_mk(out))
                    elif not s.valid_quick(st, zi(c) != 0, 2000): raise Unsupported('symbolic C string')
                    out.append(c)
            return s.ret(st, s.str_lit(s.cstr_at(st, p)))
        if g == 'str_len': return s.ret(st, s.str_len(a[0]))
        if g == 'str_known':   # the length if it is a small constant (then searches run over the characters)
            ch = s.str_chars(a[0]); return s.ret(st, len(ch) if ch is not None and len(ch) <= s.o.get('strknown', 8) else -1)
        if g == 'str_at': return s.ret(st, s.str_at(a[0], a[1]))
        if g == 'str_ref':   # string*, i  -> char*
            return s.ret(st, Ptr(('str', a[0]), a[1], 0))
        if g == 'str_cat': return s.ret(st, s.str_concat(st, a[0], a[1]))
        if g == 'str_sub': return s.ret(st, s.str_substr(st, a[0], a[1], a[2]))
        if g == 'str_chr':  # n copies of c
            if is_c(a[0]) and is_c(a[1]): return s.ret(st, s.str_lit(chr(a[1] & 255) * a[0]))
            if is_c(a[0]) and 0 <= a[0] <= 16: return s.ret(st, s.str_mk([a[1]] * a[0]))
            return s.ret(st, s.str_def(st, 'chr', a[0], lambda k: zi(a[1]), [a[0], a[1]]))
        if g == 'str_eq':
            la, lb = s.str_lit_of(a[0]), s.str_lit_of(a[1])
            if la is not None and lb is not None: return s.ret(st, la == lb)
            for x, l in ((a[1], la), (a[0], lb)):
                if l is not None and len(l) <= 24:
                    return s.ret(st, And(zi(s.str_len(x)) == len(l), *[zi(s.str_at(x, i)) == trunc_int(ord(ch), 8) for i, ch in enumerate(l)]))
            ca, cb = s.str_chars(a[0]), s.str_chars(a[1])
            if ca is not None and cb is not None: return s.ret(st, len(ca) == len(cb) and And(*[s.eqi(x, y) for x, y in zip(ca, cb)]))
            return s.ret(st, a[0] == a[1])
        if g == 'str_lt':
            return s.ret(st, s.strlt(st, a[0], a[1]))
        if g == 'str_in':    # set string, char
            l = s.str_lit_of(a[0])
            if l is not None: return s.ret(st, Or(*[s.eqi(a[1], trunc_int(ord(c), 8)) for c in l]))
            return s.ret(st, s.str_in(st, a[0], zi(a[1])))
        if g.startswith('uf_'):
            return s.ret(st, s.uf(g[3:], *a))
        if g == 'ufi':   # name, int args -> int
            nm = s.cstr_at(st, a[0]); args = []
            for x in a[1:]: args.append(x if isinstance(x, z3.ExprRef) else zi(x))
            r = z3.Function('ufi_' + nm, *[x.sort() for x in args], INT)(*args)
            s.add(st, z3.And(r >= -2 ** 63, r < 2 ** 63), defn=True)
            return s.ret(st, r)
        if g == 'opt':
            s.o[s.cstr_at(st, a[0])] = a[1]; return s.ret(st)
        if g == 'note': s.assumed.add(s.cstr_at(st, a[0])); return s.ret(st)
        raise Unsupported('intrinsic ' + n)
    def caller(s):
        return s.short(s.dem.get(s.curfn[-1], '')) if s.curfn else ''
    def strlt(s, st, a, b):
        la, lb = s.str_lit_of(a), s.str_lit_of(b)
        if la is not None and lb is not None: return la < lb
        if s.o.get('strrank'):  # any linear order on strings that separates different ones (the lexicographic order embeds in the reals)
            rk = z3.Function('strrank', STR, z3.RealSort())
            s.add(st, (rk(a) == rk(b)) == (a == b), defn=True)
            return rk(a) < rk(b)
        lt = z3.Function('strlt', STR, STR, BOOL)
        x, y, z = z3.Consts('x!o y!o z!o', STR)
        if not getattr(s, '_ltax', None):
            s._ltax = [FA([x, y], z3.Implies(lt(x, y), z3.And(z3.Not(lt(y, x)), x != y)), patterns=[lt(x, y)]),
                       FA([x, y], z3.Or(lt(x, y), lt(y, x), x == y), patterns=[lt(x, y)]),
                       FA([x, y, z], z3.Implies(z3.And(lt(x, y), lt(y, z)), lt(x, z)), patterns=[z3.MultiPattern(lt(x, y), lt(y, z))])]
        for q in s._ltax:
            if not any(q.eq(p) for p in st.pc): s.add(st, q)
        s.assumed.add('string operator< is a strict total order')
        return lt(a, b)
    def str_in(s, st, S, c):
        f = z3.Function('strin', STR, INT, BOOL); w = z3.Function('strin_at', STR, INT, INT)
        key = ('strin', S.get_id()); ax = s.strcache.get(key)
        if ax is None:
            j = z3.Int('j!i'); d = STR.sdata(S)
            ax = s.strcache[key] = (FA([j], z3.Implies(z3.And(j >= 0, j < STR.slen(S)), f(S, d[j])), patterns=[d[j]]),
                                    FA([j], z3.Implies(f(S, j), z3.And(w(S, j) >= 0, w(S, j) < STR.slen(S), d[w(S, j)] == j)), patterns=[f(S, j)]), S)
        for q in ax[:2]:
            if not any(q.eq(p) for p in st.pc): s.add(st, q)
        return f(S, c)
    def clo_formula(s, st, fn, args, bvars, rng):
        """execute a pure closure on bound variables; returns a formula over bvars (all paths merged)"""
        t = st.fork(); npc = len(t.pc); n0 = next(s.nid)
        if rng is not None: t.pc.append(rng); t.qf.append(rng)
        npc2 = len(t.pc)
        s.suppress += 1
        try: outs = s.call(t, fn, args)
        finally: s.suppress -= 1
        prom = set(); shared = set(); same = []
        for (u, kk, v) in outs:
            for rid, R in u.regs.items():   # lazily created cells are shared
                o = st.regs.get(rid)
                if o is not None and o is not R:
                    nw = None
                    for off, c in R.cells.items():
                        q = o.cells.get(off)
                        if q is not None and (rid, off) in shared and isinstance(c[2], z3.ExprRef) and z3.is_const(c[2]) and not c[2].eq(q[2]) and c[2].sort() == q[2].sort() and s.cnum(str(c[2])) > n0:
                            same.append((c[2], q[2]))   # the same cell, first touched on another path
                        if off not in o.cells and isinstance(c[2], z3.ExprRef) and z3.is_const(c[2]) and (R.kind == 'arr' or s.lazy_uninit(c[2])):
                            shared.add((rid, off))
                            nw = nw or o.copy(); nw.cells[off] = c; prom.add(str(c[2]))
                    if nw: st.regs[rid] = nw
                elif o is None and isinstance(rid, tuple) and rid[0] == 'g': st.regs[rid] = R
        bn = {str(b) for b in bvars}
        conj = []; newc = {}
        for (u, kk, v) in outs:
            if kk != 'ret': raise Unsupported('throw in quantifier body')
            ex = []
            for c in u.pc[npc2:]:
                cs = consts(c)
                if c.get_id() in s.defax and not (bn & set(cs)) and all((s.cnum(n) < n0 or n in prom or s.indep(n, bn, n0)) for n in cs):
                    if not any(c.eq(p) for p in st.pc): s.add(st, c, True)
                    continue
                ex.append(z3.substitute(c, *same) if same else c)
            if same and isinstance(v, z3.ExprRef): v = z3.substitute(v, *same)
            vv = zb(v) if isinstance(v, bool) else v
            if not isinstance(vv, z3.BoolRef): vv = zi(vv) != 0
            f = Implies(And(*ex), vv) if ex else simp(vv)
            conj.append(f)
        body = And(*conj) if conj else True
        if isinstance(body, z3.ExprRef):
            for n, e in consts(body).items():
                if n not in bn and s.cnum(n) > n0 and n not in prom and not s.indep(n, bn, n0): newc[n] = e
            if newc: body = FA(list(newc.values()), body)
        return body
    def cnum(s, n):
        try: return int(n.rsplit('!', 1)[1])
        except (IndexError, ValueError): return -1
    def indep(s, n, bn, n0, d=0):
        deps = s.deps.get(n)
        if deps is None or d > 10: return False
        for t in deps:
            for m in consts(t):
                if m in bn: return False
                if s.cnum(m) > n0 and not s.indep(m, bn, n0, d + 1): return False
        return True
    def quant(s, st, kind, lo, hi, clo, fn):
        if is_c(lo) and is_c(hi) and hi - lo <= s.o.get('qunroll', 8):
            fs = [s.clo_formula(st, fn.name, [clo, x], [], None) for x in range(lo, hi)]
            return And(*fs) if kind == 'forall' else Or(*fs)
        k = z3.Const(f'q!{next(s.nid)}', INT); s.bounds[k.get_id()] = (lo if is_c(lo) else (0 if s.iv(zi(lo))[0] == 0 else None), None, k)
        rng = z3.And(zi(lo) <= k, k < zi(hi))
        body = s.clo_formula(st, fn.name, [clo, k], [k], rng)
        if kind == 'forall':
            if body is True: return True
            return s.mkforall(k, z3.Implies(rng, zb(body)))
        if body is False: return False
        return z3.Not(s.mkforall(k, z3.Implies(rng, z3.Not(zb(body)))))
    def mkforall(s, k, body):
        """normalise index so that some select over k is exactly a[k] (helps e-matching)"""
        return FA([k], body)
    def realloc(s, st, base, n, pos, dl, ins, cap, wit):
        """new storage: [0,pos) copied, ins fresh cells, then [pos+dl,n) copied"""
        w = st.regs[wit.r]
        rid = s.new_region(st, 'arr', w.S, w.leaves, cap, vec=True, aty=w.aty, name='arr')
        if base.r is None: return Ptr(rid)
        R = st.regs[base.r]; N = st.regs[rid].copy()
        shift = s.isub(ins, dl)
        simple = s.eqi(s.iadd(pos, dl), n) is True or (s.iadd(pos, dl) is n)
        for l in R.leaves:
            c = s.leaf_arr(st, st.regs[base.r], l[0], l[1]); A = c[2]
            if simple or (is_c(shift) and shift == 0): N.cells[l[0]] = (c[0], c[1], A); continue
            B = s.fresh('mv', A.sort())
            if small(n) and small(pos) and small(dl) and small(ins):
                for q in range(n):
                    if q < pos: B = z3.Store(B, q, z3.simplify(A[q]))
                    elif q >= pos + dl: B = z3.Store(B, q + shift, z3.simplify(A[q]))
                N.cells[l[0]] = (c[0], c[1], B); continue
            k = z3.Int('k!m')
            s.add(st, FA([k], z3.And(z3.Implies(z3.And(k >= 0, k < zi(pos)), B[k] == A[k]),
                 z3.Implies(k >= zi(s.iadd(pos, ins)), B[k] == A[k - zi(shift)])), patterns=[B[k]]))
            s.add(st, FA([k], z3.And(z3.Implies(z3.And(k >= 0, k < zi(pos)), B[k] == A[k]),
                 z3.Implies(k >= zi(s.iadd(pos, dl)), B[k + zi(shift)] == A[k])), patterns=[A[k]]))
            N.cells[l[0]] = (c[0], c[1], B)
        st.regs[rid] = N
        R2 = st.regs[base.r].copy(); R2.freed = True; st.regs[base.r] = R2
        return Ptr(rid)
    def rewrite(s, st, rid, what, body, back=None):
        """replace every leaf array A of region rid by a fresh B with B[j] == body(A, j); back: list of functions (A, B, j) -> formula triggered by A[j]"""
        R = st.regs[rid]
        for l in R.leaves:
            c = s.leaf_arr(st, st.regs[rid], l[0], l[1]); A = c[2]
            j = z3.Int('j!w'); B = s.fresh('rw', A.sort())
            f = body(A, B, j, l)
            s.add(st, FA([j], f, patterns=[B[j]]))
            if back is not None: s.add(st, FA([j], back(A, B, j, l), patterns=[A[j]]))
            R2 = st.regs[rid].copy(); R2.cells[l[0]] = (c[0], c[1], B); st.regs[rid] = R2
    def dup(s, st, src, n, wit):
        w = st.regs[wit.r]
        rid = s.new_region(st, 'arr', w.S, w.leaves, n, vec=True, aty=w.aty, name='arr')
        if src.r is None or (is_c(n) and n == 0): return Ptr(rid)
        R = st.regs[src.r]
        if R.freed: s.deref_ok(st, src, 1, 'dup')
        if R.kind == 'flat':
            if not is_c(n): raise Unsupported('copy of symbolic length from a local array')
            for k in range(n): s.copy_bytes(st, Ptr(rid, k, 0), s.padd(st, src, k * w.S, []), w.S)
            return Ptr(rid)
        z = is_c(src.i) and src.i == 0
        for l in R.leaves:
            c = s.leaf_arr(st, st.regs[src.r], l[0], l[1]); A = c[2]
            if z: B = A
            else:
                j = z3.Int('j!w'); B = s.fresh('dup', A.sort())
                if small(n):
                    for q in range(n): B = z3.Store(B, q, z3.simplify(A[zi(s.iadd(src.i, q))]))
                    N = st.regs[rid].copy(); N.cells[l[0]] = (c[0], c[1], B); st.regs[rid] = N; continue
                s.add(st, FA([j], B[j] == A[j + zi(src.i)], patterns=[B[j]])); s.add(st, FA([j], B[j - zi(src.i)] == A[j], patterns=[A[j]]))
            N = st.regs[rid].copy(); N.cells[l[0]] = (c[0], c[1], B); st.regs[rid] = N
        return Ptr(rid)
    def rng_ok(s, st, p, n, what):
        R = st.regs[p.r]
        if R.freed: s.deref_ok(st, p, 1, what)
        if R.kind == 'arr':
            s.oblige(st, And(s.cmpi('ge', p.i, 0), s.cmpi('ge', n, 0), s.cmpi('le', s.iadd(p.i, n), R.n)), f'{s.where()}: {what} range in bounds', 'safety')
    def fill(s, st, b, lo, hi, vp, esz):
        if b.r is None: return
        R = st.regs[b.r]
        if R.kind == 'flat':
            if not (is_c(lo) and is_c(hi)): raise Unsupported('fill of symbolic length in local array')
            for k in range(lo, hi): s.copy_bytes(st, s.padd(st, b, k * esz, []), vp, esz)
            return
        s.rng_ok(st, Ptr(b.r, s.iadd(b.i, lo), 0), s.isub(hi, lo), 'fill')
        if R.aty == 'heap':
            for o_, c_ in st.regs[vp.r].cells.items():
                if is_c(vp.o) and vp.o <= o_ < vp.o + R.S and not any(k[0] == o_ - vp.o for k in R.leaves): R.leaves.append((o_ - vp.o, c_[0], c_[1]))
        L, H = s.iadd(b.i, lo), s.iadd(b.i, hi)
        vals = {l[0]: s.load1(st, s.padd(st, vp, l[0], []), l[1], l[2]) for l in R.leaves}
        def cv(v, srt): return zr(v) if srt == REAL else zb(v) if srt == BOOL else zi(v) if srt == INT else v
        if small(L) and small(H):
            for l in R.leaves:
                c = s.leaf_arr(st, st.regs[b.r], l[0], l[1]); A = c[2]
                for q in range(L, H): A = z3.Store(A, q, cv(vals[l[0]], A.range()))
                R2 = st.regs[b.r].copy(); R2.cells[l[0]] = (c[0], c[1], A); st.regs[b.r] = R2
            return
        s.rewrite(st, b.r, 'fill', lambda A, B, j, l: B[j] == z3.If(z3.And(j >= zi(L), j < zi(H)), cv(vals[l[0]], A.range()), A[j]),
                  lambda A, B, j, l: z3.Implies(z3.Or(j < zi(L), j >= zi(H)), B[j] == A[j]))
    def move(s, st, d, sr, n, esz):
        if is_c(n) and n == 0: return
        RD, RS = st.regs[d.r], st.regs[sr.r]
        if RD.kind == 'flat' or RS.kind == 'flat':
            if not is_c(n): raise Unsupported('copy of symbolic length with a local array')
            tmp = s.new_region(st, 'flat', esz * n, [], 1, name='tmp')
            ent = []
            for k in range(n):
                t = s.new_region(st, 'flat', esz, RS.leaves if RS.kind == 'arr' else [(l[0] - 0, l[1], l[2]) for l in RS.leaves if l[0] < esz] or RD.leaves, 1, name='tmp')
                s.copy_bytes(st, Ptr(t), s.padd(st, sr, k * esz, []), esz); ent.append(t)
            for k in range(n): s.copy_bytes(st, s.padd(st, d, k * esz, []), Ptr(ent[k]), esz)
            return
        s.rng_ok(st, sr, n, 'copy source'); s.rng_ok(st, d, n, 'copy destination')
        for X, Y in ((RS, RD), (RD, RS)):
            if Y.aty == 'heap':
                for l in X.leaves:
                    if not any(k[0] == l[0] for k in Y.leaves): Y.leaves.append(l)
        src = {l[0]: s.leaf_arr(st, st.regs[sr.r], l[0], l[1])[2] for l in RS.leaves}
        sh = s.isub(sr.i, d.i)
        for l in RD.leaves:
            c = s.leaf_arr(st, st.regs[d.r], l[0], l[1]); A = c[2]; S_ = src[l[0]]
            if small(n):
                for q in range(n): A = z3.Store(A, zi(s.iadd(d.i, q)), z3.simplify(S_[zi(s.iadd(sr.i, q))]))
                R2 = st.regs[d.r].copy(); R2.cells[l[0]] = (c[0], c[1], A); st.regs[d.r] = R2; continue
            j = z3.Int('j!w'); B = s.fresh('cpy', A.sort())
            inr = z3.And(j >= zi(d.i), j < zi(d.i) + zi(n))
            s.add(st, FA([j], B[j] == z3.If(inr, S_[j + zi(sh)], A[j]), patterns=[B[j]]))
            s.add(st, FA([j], z3.Implies(z3.And(j >= zi(sr.i), j < zi(sr.i) + zi(n)), B[j - zi(sh)] == S_[j]), patterns=[S_[j]]))
            R2 = st.regs[d.r].copy(); R2.cells[l[0]] = (c[0], c[1], B); st.regs[d.r] = R2
    def erase(s, st, b, n, pos, k):
        P, N = s.iadd(b.i, pos), s.isub(s.iadd(b.i, n), k)
        if small(P) and small(N) and small(k):
            R = st.regs[b.r]
            for l in R.leaves:
                c = s.leaf_arr(st, st.regs[b.r], l[0], l[1]); A = c[2]; B = A
                for q in range(P, N): B = z3.Store(B, q, z3.simplify(A[q + k]))
                R2 = st.regs[b.r].copy(); R2.cells[l[0]] = (c[0], c[1], B); st.regs[b.r] = R2
            return
        s.rewrite(st, b.r, 'erase', lambda A, B, j, l: z3.And(z3.Implies(j < zi(P), B[j] == A[j]), z3.Implies(z3.And(j >= zi(P), j < zi(N)), B[j] == A[j + zi(k)])),
                  lambda A, B, j, l: z3.And(z3.Implies(j < zi(P), B[j] == A[j]), z3.Implies(z3.And(j >= zi(P) + zi(k), j < zi(N) + zi(k)), B[j - zi(k)] == A[j])))
    def permute(s, st, b, n):
        if b.r is None: return
        R = st.regs[b.r]
        if R.kind == 'flat': raise Unsupported('permutation of a local array')
        s.rng_ok(st, b, n, 'permute')
        i = next(s.nid); p = z3.Function(f'perm!{i}', INT, INT); q = z3.Function(f'permi!{i}', INT, INT); L, H = zi(b.i), zi(b.i) + zi(n); j = z3.Int('j!w')
        rg = lambda x: z3.And(x >= L, x < H)
        s.add(st, FA([j], z3.If(rg(j), z3.And(rg(p(j)), q(p(j)) == j), p(j) == j), patterns=[p(j)])); s.add(st, FA([j], z3.If(rg(j), z3.And(rg(q(j)), p(q(j)) == j), q(j) == j), patterns=[q(j)]))
        s.rewrite(st, b.r, 'permute', lambda A, B, j, l: B[j] == A[p(j)], lambda A, B, j, l: A[j] == B[q(j)])
    def compact(s, st, b, n, clo, fn):
        if b.r is None: return 0
        R = st.regs[b.r]
        if R.kind == 'flat': raise Unsupported('remove_if on a local array')
        s.rng_ok(st, b, n, 'remove_if')
        k = z3.Const(f'q!{next(s.nid)}', INT); s.bounds[k.get_id()] = (0, None, k)
        body = zb(s.clo_formula(st, fn.name, [clo, k], [k], z3.And(k >= 0, k < zi(n)))); keep = lambda x: z3.substitute(body, (k, x))
        r = s.fint('kept', 0, 2 ** 40, st); s.add(st, r <= zi(n))
        i = next(s.nid); p = z3.Function(f'emb!{i}', INT, INT); q = z3.Function(f'embi!{i}', INT, INT); j, m = z3.Ints('j!w m!w'); L = zi(b.i)
        s.add(st, FA([j], z3.Implies(z3.And(j >= 0, j < r), z3.And(p(j) >= j, p(j) < zi(n), q(p(j)) == j, keep(p(j)))), patterns=[p(j)]))
        s.add(st, FA([j, m], z3.Implies(z3.And(j >= 0, j < m, m < r), p(j) < p(m)), patterns=[z3.MultiPattern(p(j), p(m))]))
        fwd = z3.Implies(z3.And(j >= 0, j < zi(n), keep(j)), z3.And(q(j) >= 0, q(j) < r, q(j) <= j, p(q(j)) == j))
        s.add(st, FA([j], fwd, patterns=[q(j)]))
        s.rewrite(st, b.r, 'compact', lambda A, B, j, l: z3.And(z3.Implies(z3.And(j >= L, j < L + r), B[j] == A[L + p(j - L)]), z3.Implies(z3.Or(j < L, j >= L + zi(n)), B[j] == A[j])),
                  lambda A, B, j, l: z3.And(z3.Implies(z3.And(j >= L, j < L + zi(n), keep(j - L)), z3.And(q(j - L) >= 0, q(j - L) < r, p(q(j - L)) == j - L, B[L + q(j - L)] == A[j])), z3.Implies(z3.Or(j < L, j >= L + zi(n)), B[j] == A[j])))
        return r
    # ------------------------------------------------ loops
    def loop(s, st, env, fn, L, prev):
        r = s.try_unroll(st, env, fn, L, prev)
        if r is not None: return r
        return s.loop_inv(st, env, fn, L, prev)
    def try_unroll(s, st, env, fn, L, prev):
        """complete unrolling when the trip count is decided on every path (never a bound)"""
        saved = (dict(s.obls), dict(s.covers), dict(s.backends))
        import copy as _c
        snap = {k: _c.copy(v) for k, v in s.obls.items()}
        states = [(st.fork(), dict(env), prev)]; outs = []; oldsym = s.symexit
        lim = s.o['unroll']; done = False; f = s.F[fn]
        exiting = [b for b in L['blocks'] if any(x not in L['bs'] for x in f['blocks'][b][-1].get('succ', []))]
        try:
            for it in range(lim + 1):
                nxt = []
                s.symexit = set()
                for (t, e, p) in states:
                    for (u, k, v) in s.run(t, e, fn, L['header'], p, L):
                        if k == 'back': nxt.append((u, v[0], v[1]))
                        else: outs.append((u, k, v))
                sx = s.symexit
                if not nxt: done = True; break
                dec = [b for b in exiting if (fn, b) not in sx]
                if it < lim and (not dec) and not s.o.get('force_unroll'): break
                if len(nxt) > s.o.get('paths', 64): break
                states = nxt
        except Unsupported as ex:
            done = False
            if s.o.get('force_unroll'): s.unroll_err = str(ex)
        finally: s.symexit = oldsym
        if done:
            if s.symexit is not None: s.symexit |= set()
            return outs
        s.obls = snap; s.covers = saved[1]; s.backends = saved[2]
        return None
    def cellkey(s, rid, o): return ('c', rid, o)
    def loop_inv(s, st, env, fn, L, prev):
        hdr = L['header']; f = s.F[fn]; label = f'{s.where()}:loop{sorted(f["lh"]).index(hdr)}'
        phis = s.phis_only(st, env, fn, hdr, prev)
        entry = {pid: v for pid, v, ty in phis}
        # live objects for object hints: all flat regions
        mods = set()      # ('c', rid, off) flat cell or ('a', rid, off) array field
        vecs = set()      # (rid, off) of vector triples
        s.suppress += 1
        try:
            for rnd in range(6):
                hs, hv = s.havoc(st, env, phis, mods, vecs, L)
                s.modonly += 1
                try: outs = s.run_body(hs, hv, fn, L)
                finally: s.modonly -= 1
                new = set()
                for (u, k, v) in outs:
                    if k != 'back': continue
                    new |= s.diff(hs, u, st)
                if new <= mods: break
                mods |= new
                for m in new:
                    if m[0] == 'c':
                        for (u, k, v) in outs:
                            if k != 'back': continue
                            c = u.regs[m[1]].cells.get(m[2]); c0 = hs.regs[m[1]].cells.get(m[2])
                            if c is not None and isinstance(c[2], Ptr) and c[2].r in u.regs and u.regs[c[2].r].vec and (c0 is None or not isinstance(c0[2], Ptr) or c0[2].r != c[2].r):
                                w = u.regs[c[2].r]; s.veclay[(m[1], m[2])] = (w.S, w.leaves, w.aty); vecs.add((m[1], m[2]))
            else: raise Unsupported('loop frame does not stabilise')
        finally: s.suppress -= 1
        if s.modonly:     # only the frame of an enclosing loop is being determined: no invariant is needed (the loop does anything to what it modifies)
            return [(u, k, v) for (u, k, v) in outs if k != 'back']
        # leaves of heap blocks that were first touched inside the loop exist before it
        for rid, R in list(st.regs.items()):
            if R.aty == 'heap' and R.kind == 'arr' and not R.freed:
                for l in R.leaves:
                    if l[0] not in st.regs[rid].cells and l[1] != 'ptr': s.leaf_arr(st, st.regs[rid], l[0], l[1])
        # make sure vector triples are completely havoced
        for (rid, o) in vecs: mods |= {('c', rid, o), ('c', rid, o + 8), ('c', rid, o + 16)}
        hs, hv = s.havoc(st, env, phis, mods, vecs, L)
        E0 = s.view(st, {**env, **entry}, phis, mods, vecs); H = s.view(hs, hv, phis, mods, vecs)
        cands = s.candidates(st, hs, E0, H, phis, env, mods, vecs, fn, L)
        if s.o.get('autoinv', True): cands += s.auto_cands(st, hs, hv, E0, H, phis, mods, vecs, fn, L, len(cands))
        # initiation
        wk = (label, s.outer[-1]) if s.o.get('warm') and s.outer else None; bad = s.failedc.setdefault(wk, set()) if wk else ()   # candidates that failed before, under the stronger assumptions of an earlier round of the enclosing loop
        cands = [c for c in cands if c['txt'] not in bad]; all0 = {c['txt'] for c in cands}
        cands = [c for c in cands if s.cand_holds(st, c, E0)]
        # consecution (Houdini)
        s.suppress += 1; s.outer.append(next(s.nid))
        try:
            for rnd in range(12):
                h2 = hs.fork()
                for c in cands: s.add_cand(h2, c, H)
                outs = s.run_body(h2, hv, fn, L)
                backs = [(u, v) for (u, k, v) in outs if k == 'back']
                drop = set()
                for (u, (e2, pb)) in backs:
                    nphi = {pid: v for pid, v, ty in s.phis_only(u, e2, fn, hdr, pb)}
                    B = s.view(u, {**e2, **nphi}, phis, mods, vecs)
                    rem = [c for c in cands if c['id'] not in drop]
                    drop |= s.filter(u, rem, B)
                if not drop: break
                cands = [c for c in cands if c['id'] not in drop]
            else: raise Unsupported('invariant inference does not converge')
        except: s.outer.pop(); raise
        finally: s.suppress -= 1
        oid = s.outer.pop()
        if wk: bad |= all0 - {c['txt'] for c in cands}
        s.loopinfo[label] = [c['txt'] for c in cands]
        # record invariant obligations (initiation and consecution were checked above, for every candidate kept)
        if not s.suppress:
            nm = f'{label}: {len(cands)} loop invariant clauses established and preserved'
            o = s.obls.setdefault(f'{label}: loop invariant established and preserved', Obl(f'{label}: loop invariant established and preserved', 'invariant', 'proved')); o.solver = 'z3/cvc5'; o.detail = f'{len(cands)} clauses'
        for c in cands: s.add_cand(hs, c, H)
        hs.loops += 1
        s.outer.append(oid)
        try: outs = s.run_body(hs, hv, fn, L)
        finally: s.outer.pop()
        return [(u, k, v) for (u, k, v) in outs if k != 'back']
    def run_body(s, hs, hv, fn, L):
        """execute the loop once from its header with phi values already in env (phis skipped)"""
        hs = hs.fork(); env = dict(hv)
        f = s.F[fn]; ins = f['blocks'][L['header']]; i = 0
        while ins[i]['op'] == 'phi': i += 1
        outs = []
        try: nxt = s.instrs(hs, env, fn, ins, i, L['header'])
        except Abort: return []
        for (t, e2, k, v) in nxt:
            if k == 'goto':
                if v == L['header']: outs.append((t, 'back', (e2, L['header'])))
                elif v not in L['bs']: outs.append((t, 'exit', (e2, v, L['header'])))
                else:
                    # continue inside the loop
                    outs += s.run_inner(t, e2, fn, v, L['header'], L)
            else: outs.append((t, k, v))
        return outs
    def run_inner(s, st, env, fn, block, prev, L):
        f = s.F[fn]; outs = []; work = [(st, env, block, prev)]
        while work:
            s.tick()
            st, env, b, prev = work.pop()
            if b == L['header']: outs.append((st, 'back', (env, prev))); continue
            if b not in L['bs']: outs.append((st, 'exit', (env, b, prev))); continue
            L2 = f['lh'].get(b)
            if L2 is not None:
                try:
                    for (t, k, v) in s.loop(st, env, fn, L2, prev):
                        if k == 'exit': work.append((t, v[0], v[1], v[2]))
                        else: outs.append((t, k, v))
                except Abort: pass
                continue
            try: nxt = s.block(st, env, fn, f['blocks'][b], b, prev)
            except Abort: continue
            for (t, e2, k, v) in nxt:
                if k == 'goto': work.append((t, e2, v, b))
                else: outs.append((t, k, v))
            if len(work) + len(outs) > s.o['maxpaths']: raise Unsupported('path explosion')
        return outs
    def diff(s, a, b, base):
        """cells of pre-existing regions (in base) changed from a to b"""
        out = set()
        for rid, R in base.regs.items():
            x = a.regs.get(rid); y = b.regs.get(rid)
            if x is y or x is None or y is None: continue
            for o in set(x.cells) | set(y.cells):
                cx, cy = x.cells.get(o), y.cells.get(o)
                if cx is cy: continue
                if cx is not None and cy is not None and s.same(cx[2], cy[2]): continue
                if cx is None and cy is not None and x.kind == 'arr' and isinstance(cy[2], z3.ExprRef) and z3.is_const(cy[2]): continue  # lazily named
                if cx is None and R.kind == 'flat' and cy is not None and o not in base.regs[rid].cells and s.lazy_uninit(cy[2]): continue
                out.add(('a' if R.kind == 'arr' else 'c', rid, o))
        return out
    def lazy_uninit(s, v): return isinstance(v, z3.ExprRef) and z3.is_const(v) and str(v).startswith('uninit_')
    def same(s, x, y):
        if x is y: return True
        if isinstance(x, z3.ExprRef) and isinstance(y, z3.ExprRef): return x.eq(y)
        if isinstance(x, Ptr) and isinstance(y, Ptr): return repr(x.r) == repr(y.r) and s.same(x.i, y.i) and s.same(x.o, y.o)
        if type(x) == type(y) and not isinstance(x, z3.ExprRef):
            try: return bool(x == y)
            except Exception: return False
        return False
    def havoc(s, st, env, phis, mods, vecs, L):
        h = st.fork(); he = dict(env)
        for (pid, v, ty) in phis:
            he[pid] = s.hval(h, v, ty, f'phi{pid}')
        for m in sorted(mods, key=repr):
            R = h.regs[m[1]].copy(); h.regs[m[1]] = R
            if m[0] == 'a':
                c = R.cells.get(m[2])
                if c is None:
                    lf = next(l for l in R.leaves if l[0] == m[2]); c = (lf[1], lf[2], None)
                a = s.fresh('hav', z3.ArraySort(INT, wsort(c[0]))); R.cells[m[2]] = (c[0], c[1], a); s.arr_range(h, a, c[0])
            else:
                c = R.cells.get(m[2])
                if (m[1], m[2]) in vecs: continue
                if c is None:
                    lf = next((l for l in R.leaves if l[0] == m[2]), None)
                    if lf is None: continue
                    R.cells[m[2]] = (lf[1], lf[2], s.hval(h, NULL if lf[1] == 'ptr' else 0, lf[1], f'm{m[1]}_{m[2]}')); continue
                R = h.regs[m[1]]; nv = s.hval(h, c[2], c[0], f'm{m[1]}_{m[2]}'); R = h.regs[m[1]]; R.cells[m[2]] = (c[0], c[1], nv)
        for (rid, o) in sorted(vecs, key=repr):
            R = h.regs[rid].copy(); h.regs[rid] = R
            c = R.cells.get(o)
            if c is None: continue   # storage of a loop temporary that is not live at the loop head
            p = c[2]
            base = st.regs.get(p.r) if p.r is not None and not isinstance(p.r, tuple) else None
            if base is not None and base.kind == 'arr' : S, lv, aty = base.S, base.leaves, base.aty
            else:
                w = s.vecwit(st, rid, o)
                if w is None: raise Unsupported('loop modifies a pointer cell that owns no known storage')
                S, lv, aty = w
            n = s.fint('vn', 0, 2 ** 40, h); cap = s.fint('vcap', 0, 2 ** 40, h); s.add(h, n <= cap)
            nr = s.new_region(h, 'arr', S, lv, cap, vec=True, aty=aty, name='harr')
            R = h.regs[rid]; R.cells[o] = ('ptr', 8, Ptr(nr)); R.cells[o + 8] = ('i64', 8, n); R.cells[o + 16] = ('i64', 8, cap)
            # materialise all leaves so that invariants can speak about them
            for l in lv:
                try: s.leaf_arr(h, h.regs[nr], l[0], l[1])
                except Unsupported: pass
        return h, he
    def vecwit(s, st, rid, o): return s.veclay.get((rid, o))
    def hval(s, h, v, ty, name):
        if ty == 'ptr':
            if isinstance(v, Ptr) and v.r is not None and not (isinstance(v.r, tuple) and v.r[0] == 'undef'):
                if isinstance(v.r, tuple) and v.r[0] == 'str' or (h.regs[v.r].kind == 'arr'):
                    return Ptr(v.r, s.fint(name, None, None, h), v.o)
                # pointer into flat region (array of scalars / literal): symbolic byte offset in elements of size of leaf
                R = h.regs[v.r]; i = s.fint(name, 0, R.S, h)
                sz = R.leaves[0][2] if R.leaves else 1
                return Ptr(v.r, 0, s.imul(i, sz))
            raise Unsupported('loop-carried pointer ' + repr(v) + ' ' + getattr(s, 'unroll_err', ''))
        if isinstance(v, PDiff): return s.fint(name, None, None, h)
        return s.fval(ty, name, h)
    def view(s, st, env, phis, mods, vecs):
        """named quantities of a loop state: ints, reals, arrays, objects"""
        V = {'ints': [], 'reals': [], 'bools': [], 'strs': [], 'arrs': [], 'st': st}
        for (pid, v0, ty) in phis:
            v = env[pid]
            if isinstance(v, Ptr):
                x = v.i
                if v.r is not None and not isinstance(v.r, tuple) and v.r in st.regs and st.regs[v.r].kind == 'flat':
                    sz = (st.regs[v.r].leaves[0][2] if st.regs[v.r].leaves else 1); oo = s.iadd(s.imul(v.i, st.regs[v.r].S), v.o); x = oo // sz if is_c(oo) else simp(z3.simplify(oo / sz))
                elif isinstance(v.r, tuple) and v.r[0] == 'g':
                    R = st.regs[v.r]; sz = R.leaves[0][2]; oo = s.iadd(s.imul(v.i, R.S), v.o); x = oo // sz if is_c(oo) else simp(z3.simplify(oo / sz))
                V['ints'].append((f'phi{pid}', x))
            elif isinstance(v, PDiff): V['ints'].append((f'phi{pid}', s.pd2int(v)))
            elif ty in ('float', 'double'): V['reals'].append((f'phi{pid}', v))
            elif ty == 'i1': V['bools'].append((f'phi{pid}', v))
            elif ty == 'i96': V['strs'].append((f'phi{pid}', v))
            elif ty[0] == 'i' and ty != 'i97': V['ints'].append((f'phi{pid}', v))
        for m in sorted(mods, key=repr):
            R = st.regs[m[1]]
            c = R.cells.get(m[2])
            if c is None: continue
            if m[0] == 'a': V['arrs'].append((f'a{m[1]}_{m[2]}', c[2], m))
            elif c[0] == 'ptr': 
                if (m[1], m[2]) not in vecs and isinstance(c[2], Ptr): V['ints'].append((f'c{m[1]}_{m[2]}', c[2].i))
            elif c[0] in ('float', 'double'): V['reals'].append((f'c{m[1]}_{m[2]}', c[2]))
            elif c[0] == 'i1': V['bools'].append((f'c{m[1]}_{m[2]}', c[2]))
            elif c[0] == 'i96': V['strs'].append((f'c{m[1]}_{m[2]}', c[2]))
            elif c[0][0] == 'i' and c[0] != 'i97': V['ints'].append((f'c{m[1]}_{m[2]}', c[2] if not isinstance(c[2], PDiff) else s.pd2int(c[2])))
        for n, v in V['strs']:     # a string is a length and an array of characters
            if isinstance(v, z3.ExprRef): V['ints'].append((n + '.len', simp(z3.simplify(STR.slen(v))))); V['arrs'].append((n + '.chars', z3.simplify(STR.sdata(v)), ('s', n)))
        return V
    def universe(s, st, env):
        """loop-invariant integer terms that may bound a counter"""
        U = {}; 
        for v in list(env.values()):
            if isinstance(v, z3.ArithRef) and v.sort() == INT and z3.is_const(v): U[v.get_id()] = v
        for rid, R in st.regs.items():
            if R.kind == 'flat':
                for o, c in R.cells.items():
                    if c[0] in ('i64', 'i32') and isinstance(c[2], z3.ArithRef): U[c[2].get_id()] = c[2]
                    if c[0] == 'i96' and isinstance(c[2], z3.ExprRef):
                        n = s.str_len(c[2])
                        if isinstance(n, z3.ExprRef): U[n.get_id()] = n
            elif isinstance(R.n, z3.ExprRef) and not R.freed: U[R.n.get_id()] = R.n
        return list(U.values())[:24]
    def candidates(s, st, hs, E0, H, phis, env, mods, vecs, fn, L):
        C = []; ctr = itertools.count()
        def add(txt, f): C.append({'id': next(ctr), 'txt': txt, 'f': f})
        # quantities that exist both on entry and at the loop head (temporaries of the body carry no invariant)
        for kd in ('ints', 'reals', 'bools', 'strs'):
            have = {n for n, _ in E0[kd]}; H[kd] = [x for x in H[kd] if x[0] in have]
        ints = [n for n, _ in H['ints']]
        e0 = {n: v for n, v in E0['ints']}
        U = s.universe(st, env)
        G = lambda V, n: dict(V['ints'])[n]
        # harness hints (first: the list is cut off below)
        for hi, hnt in enumerate(s.hints):
            clo, hf, na = hnt[:3]
            if len(hnt) == 4:
                objs = [rid for rid, R in hs.regs.items() if R.kind == 'flat' and R.aty == hnt[3] and rid in st.regs and rid not in s.wits]
                for rid in objs[:8]:
                    for combo in itertools.permutations(ints, na) if na else [()]:
                        add(f'hint{hi} (obj{rid},{",".join(combo)})', lambda V, rid=rid, combo=combo, clo=clo, hf=hf: s.evalhint(V['st'], hf, [clo, Ptr(rid)] + [G(V, c) for c in combo]))
                continue
            reals = [n for n, _ in H['reals']]
            nr, ni = na // 10, na % 10; GR = lambda V, n: dict(V['reals'])[n]
            for rc in itertools.permutations(reals, nr):
                for combo in itertools.permutations(ints, ni):
                    add(f'hint{hi} ({",".join(rc + combo)})', lambda V, combo=combo, rc=rc, clo=clo, hf=hf: s.evalhint(V['st'], hf, [clo] + [GR(V, c) for c in rc] + [G(V, c) for c in combo]))
        if not s.o.get('generic', True): return C[:600]
        for n in ints:
            a0 = e0[n]
            add(f'{n}>=entry', lambda V, n=n, a0=a0: s.cmpi('ge', G(V, n), a0))
            add(f'{n}<=entry', lambda V, n=n, a0=a0: s.cmpi('le', G(V, n), a0))
            add(f'{n}>=0', lambda V, n=n: s.cmpi('ge', G(V, n), 0))
            for u in U:
                add(f'{n}<={u}', lambda V, n=n, u=u: s.cmpi('le', G(V, n), u))
                add(f'{n}>={u}', lambda V, n=n, u=u: s.cmpi('ge', G(V, n), u))
            if not is_c(a0): pass
        for n1, n2 in itertools.combinations(ints, 2):
            add(f'{n1}-{n2} const', lambda V, a=n1, b=n2: s.eqi(s.isub(G(V, a), G(V, b)), s.isub(e0[a], e0[b])))
            add(f'{n1}+{n2} const', lambda V, a=n1, b=n2: s.eqi(s.iadd(G(V, a), G(V, b)), s.iadd(e0[a], e0[b])))
            add(f'{n1}<={n2}', lambda V, a=n1, b=n2: s.cmpi('le', G(V, a), G(V, b)))
            add(f'{n1}>={n2}', lambda V, a=n1, b=n2: s.cmpi('ge', G(V, a), G(V, b)))
        # array frame candidates
        ea = {n: a for n, a, m in E0['arrs']}
        for n, a, m in H['arrs']:
            GA = lambda V, n=n: next(x[1] for x in V['arrs'] if x[0] == n)
            if n not in ea: continue
            A0 = ea[n]; k = z3.Int('k!inv')
            for i in ints:
                add(f'{n}[k>={i}] unchanged', lambda V, i=i, GA=GA, A0=A0, k=k: FA([k], z3.Implies(k >= zi(G(V, i)), GA(V)[k] == A0[k]), patterns=[GA(V)[k]]) if isinstance(GA(V), z3.ExprRef) and not GA(V).eq(A0) else True)
                add(f'{n}[k<{i}] unchanged', lambda V, i=i, GA=GA, A0=A0, k=k: FA([k], z3.Implies(k < zi(G(V, i)), GA(V)[k] == A0[k]), patterns=[GA(V)[k]]) if not GA(V).eq(A0) else True)
        return C[:600]
    def auto_cands(s, st, hs, hv, E0, H, phis, mods, vecs, fn, L, base):
        """quantified candidates read off one symbolic iteration: what every finished iteration established, generalised over
        the induction variable (branch conditions: search loops; stored values: map loops).  Kept only if proved inductive."""
        mark = next(s.nid); out = []
        s.suppress += 1
        try: outs = s.run_body(hs.fork(), hv, fn, L)
        except (Unsupported, Abort): return []
        finally: s.suppress -= 1
        backs = [(u, v) for (u, k, v) in outs if k == 'back']
        if not backs or len(backs) > 6: return []
        BV = []
        for (u, (e2, pb)) in backs:
            nphi = {pid: v for pid, v, ty in s.phis_only(u, e2, fn, L['header'], pb)}
            BV.append(s.view(u, {**e2, **nphi}, phis, mods, vecs))
        Hi = dict(H['ints']); Ei = dict(E0['ints']); step = {}
        for n, v in Hi.items():
            if not (isinstance(v, z3.ExprRef) and z3.is_const(v)) or n not in Ei: continue
            ds = set()
            for B in BV:
                b = dict(B['ints']).get(n); d = simp(z3.simplify(zi(b) - v)) if b is not None else None
                ds.add(d if isinstance(d, int) else None)
            if len(ds) == 1 and None not in ds and 0 not in ds: step[n] = ds.pop()
        vary = set()      # havoced quantities that are neither induction variables nor arrays
        for kd in ('ints', 'reals', 'bools', 'strs'):
            for n, v in H[kd]:
                if n not in step and isinstance(v, z3.ExprRef): vary |= set(consts(v))
        ea = {n: a for n, a, m in E0['arrs']}; asub = []
        for n, a, m in H['arrs']:
            if n in ea and isinstance(a, z3.ExprRef) and isinstance(ea[n], z3.ExprRef): asub.append((a, ea[n]))
            elif isinstance(a, z3.ExprRef): vary |= set(consts(a))
        K = z3.Int('k!auto')
        prim = [n for n in step if abs(step[n]) == 1][:3]
        def ok(f):
            for c in consts(f):
                if c in vary: return False
                if c == 'k!auto': continue
                m = re.search(r'!(\d+)$', c)
                if m and int(m.group(1)) >= mark: return False
            return True
        for i in prim:
            sub = []
            for j in step:
                c = step[j] * step[i]
                sub.append((Hi[j], zi(s.iadd(Ei[j], s.imul(s.isub(K, Ei[i]), c))) if j != i else K))
            def gen(f): return z3.simplify(z3.substitute(zb(f), *sub, *asub)) if isinstance(f, z3.ExprRef) else zb(f)
            def genv(x): return z3.simplify(z3.substitute(x, *sub, *asub)) if isinstance(x, z3.ExprRef) else x
            pcs = []
            for (u, _) in backs:
                fs = [gen(f) for f in u.pc[len(hs.pc):] if not has_quant(f)]
                pcs.append([f for f in fs if ok(f) and not z3.is_true(f)])
            def rangec(V, k): 
                cur = dict(V['ints'])[i]
                return z3.And(k >= zi(Ei[i]), k < zi(cur)) if step[i] > 0 else z3.And(k > zi(cur), k <= zi(Ei[i]))
            def quant(V, body, shift=0):
                # choose triggers: selects at k + const; move the constant into the range
                sel = s.selects(body, K)
                if sel:
                    off = sel[0][1]; b2 = z3.simplify(z3.substitute(body, (K, K - off))) if off else body
                    pats = [x for x, o in s.selects(b2, K)][:3]; r = z3.substitute(zb(rangec(V, K)), (K, K - off)) if off else rangec(V, K)
                    return FA([K], z3.Implies(r, b2), patterns=pats)
                return FA([K], z3.Implies(rangec(V, K), body))
            disj = z3.Or(*[z3.And(*p) for p in pcs]) if all(pcs) else None
            if disj is not None:
                disj = z3.simplify(disj)
                if not z3.is_true(disj): out.append((f'every finished iteration of {i}: {str(disj)[:80]}', lambda V, disj=disj, quant=quant: quant(V, disj)))
            for n, a, m in H['arrs']:
                if n not in ea or not isinstance(a, z3.ExprRef): continue
                rel = []
                for B, pc in zip(BV, pcs):
                    b = next(x[1] for x in B['arrs'] if x[0] == n); chain = []
                    while isinstance(b, z3.ExprRef) and z3.is_app_of(b, z3.Z3_OP_STORE): chain.append((b.arg(1), b.arg(2))); b = b.arg(0)
                    if not isinstance(b, z3.ExprRef) or not b.eq(a): rel = None; break
                    rel.append((chain, pc))
                if not rel: continue
                idxs = []
                for chain, _ in rel:
                    for ix, v in chain:
                        g = genv(ix)
                        if ok(g) and not any(g.eq(x) for x in idxs): idxs.append(g)
                for g in idxs[:4]:
                    def mk(V, g=g, rel=rel, n=n, quant=quant, genv=genv):
                        A = next(x[1] for x in V['arrs'] if x[0] == n); parts = []
                        for chain, pc in rel:
                            hit = [genv(v) for ix, v in chain if genv(ix).eq(g)]
                            v = hit[0] if hit else ea[n][g]
                            if hit and not ok(v): return None
                            parts.append(z3.Implies(z3.And(*pc) if pc else z3.BoolVal(True), A[g] == v))
                        return quant(V, z3.And(*parts) if len(parts) > 1 else parts[0].arg(1) if z3.is_implies(parts[0]) and not rel[0][1] else parts[0])
                    out.append((f'every finished iteration of {i} wrote {n}[{str(g)[:30]}]', mk))
        return [{'id': base + k, 'txt': tx, 'f': f} for k, (tx, f) in enumerate(out)]
    def selects(s, f, K):
        """array reads at K + const in f, as (term, const), K alone first"""
        res = []; seen = set(); stack = [f]
        while stack:
            x = stack.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_quantifier(x): continue
            if z3.is_select(x) and has_var(x.arg(1), K) and not has_var(x.arg(0), K):
                d = simp(z3.simplify(x.arg(1) - K))
                if isinstance(d, int): res.append((x, d))
            stack.extend(x.children())
        res.sort(key=lambda r: (abs(r[1]), str(r[0])))
        return res
    def evalhint(s, st, hf, args): return s.clo_formula(st, hf, args, [], None)
    def is_def(s, c): return False
    def cand_eval(s, c, V):
        try: return c['f'](V)
        except (Unsupported, Abort): return None
    def cand_holds(s, st, c, V):
        r = s.cand_eval(c, V)
        if r is None: return False
        if isinstance(r, bool): return r
        if not has_quant(r):
            if s.valid_quick(st, r, 300): return True
            if not any(has_quant(p) for p in st.pc): return False
        return s.prove(st, r, s.o.get('candms', 1500), False)[0] == 'proved'
    def add_cand(s, st, c, V):
        V = dict(V); V['st'] = st
        r = s.cand_eval(c, V)
        if r is not None and r is not True: s.add(st, zb(r))
    def filter(s, st, cands, B):
        """ids of candidates not provable at this back edge"""
        drop = set(); forms = []
        for c in cands:
            r = s.cand_eval(c, B)
            if r is None or r is False: drop.add(c['id']); continue
            if r is True: continue
            forms.append((c, r))
        # batch: try all together
        while forms:
            g = z3.And(*[zb(r) for _, r in forms])
            r, sv = s._check(st.pc + [z3.Not(g)], 1500)
            if r == z3.unsat: return drop
            if r == z3.sat:
                m = sv.model(); bad = []
                for c, f in forms:
                    try:
                        if has_quant(f): continue
                        if z3.is_false(m.eval(f, model_completion=True)): bad.append(c['id'])
                    except z3.Z3Exception: pass
                if bad:
                    drop |= set(bad); forms = [(c, f) for c, f in forms if c['id'] not in drop]; continue
            break
        for c, f in forms:
            if s.prove(st, f, s.o.get('candms', 2500), False)[0] != 'proved': drop.add(c['id'])
        return drop

_cc = {}
def consts(e):
    if not isinstance(e, z3.ExprRef): return {}
    r = _cc.get(e.get_id())
    if r is not None and r[0].eq(e): return r[1]
    out = {}; stack = [e]; seen = set()
    while stack:
        x = stack.pop(); i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_quantifier(x): stack.append(x.body())
        elif z3.is_app(x):
            if x.num_args() == 0:
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out[x.decl().name()] = x
            else: stack.extend(x.children())
    _cc[e.get_id()] = (e, out)
    return out
def has_var(e, k):
    if not isinstance(e, z3.ExprRef): return False
    stack = [e]; seen = set(); kid = k.get_id()
    while stack:
        x = stack.pop(); i = x.get_id()
        if i == kid: return True
        if i in seen: continue
        seen.add(i)
        if z3.is_quantifier(x): stack.append(x.body())
        else: stack.extend(x.children())
    return False
