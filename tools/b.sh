#!/bin/bash
# Developer helper: build the check's world like check.py does, into /tmp/sim/<id> and /tmp/sim/<id>/world.  b.sh C06 [tree]
cd /verif
MEOJSON_TREE=${2:-/repo} python3 - $1 <<'P'
import sys,time
sys.argv[1:]=[sys.argv[1]]
src=open('check.py').read().replace('-6000:','-60000:').replace('sys.exit(main())','')
exec(compile(src,'check.py','exec'))
t=time.time(); print(build(sys.argv[1],'/tmp/sim/'+sys.argv[1]), round(time.time()-t,1))
P
