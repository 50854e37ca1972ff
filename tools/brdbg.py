import sys,faulthandler,os,collections
sys.path.insert(0,'/verif/xov'); sys.argv=['prove.py']+sys.argv[1:]
import engine, exec as X
ob=X.Ex.branch
cnt=collections.Counter()
def nb(s,st,c):
    if not isinstance(c,(bool,int)):
        cc=X.z3.simplify(c)
        if not X.z3.is_true(cc) and not X.z3.is_false(cc):
            k=(s.where(),str(cc)[:int(os.environ.get('L','300'))])
            cnt[s.where()]+=1
            if cnt[s.where()]<4: print(k,flush=True)
    return ob(s,st,c)
X.Ex.branch=nb
t=float(os.environ.get('T','20')); faulthandler.dump_traceback_later(t,exit=True)
exec(open('/verif/xov/prove.py').read())
