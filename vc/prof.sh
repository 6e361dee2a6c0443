#!/bin/bash
# stack samples of a slow contract
exec env PYTHONPATH=. VC_TRACE=1 python3-vt - "$@" <<'P'
import sys,signal,traceback,runpy,os
def h(s,f):
    print("----- stack"); 
    for l in traceback.format_stack(f)[-28:]: print(l.split("\n")[0].replace('File "/verif/vc/','').strip(), "|", (l.split("\n")[1].strip() if "\n" in l else "")[:120])
    sys.stdout.flush()
    h.n+=1
    if h.n>=int(os.environ.get("N","3")): os._exit(1)
h.n=0
signal.signal(signal.SIGALRM,h); signal.setitimer(signal.ITIMER_REAL,float(os.environ.get("T","15")),5)
sys.argv=['contract.py']+sys.argv[1:]
runpy.run_path('contract.py',run_name='__main__')
P
