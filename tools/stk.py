import sys,faulthandler
sys.path.insert(0,'/verif/xov'); sys.argv=['prove.py']+sys.argv[1:]
import os
t=float(os.environ.get('T','20')); faulthandler.dump_traceback_later(t,exit=True)
exec(open('/verif/xov/prove.py').read())
