import sys, importlib, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),'units'))
from driver import *
m = importlib.import_module(sys.argv[1])
H = getattr(m,'HARNESS', sys.argv[1])
ir = compile_ir(os.path.join(HERE,'harness',H+'.cpp'), noinline=getattr(m,'NOINLINE',()), dump='/tmp/w/'+H+'.ll')
for u in m.UNITS:
    if len(sys.argv)>2 and sys.argv[2][0]!='-' and (sys.argv[2] not in u.name if sys.argv[2][0]!='=' else sys.argv[2][1:]!=u.name): continue
    r = run_unit(ir, u, verbose=True)
    show(r, full='-v' in sys.argv)
    if '-l' in sys.argv:
        for l in r.loops: print(l)
