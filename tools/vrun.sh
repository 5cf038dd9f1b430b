#!/bin/bash
# debugging aid: vrun.sh UNIT [verus args]
u=$1; shift
mkdir -p /verif/build/vxdbg
python3 - "$u" <<'P' || exit 1
import sys; sys.path.insert(0,'/verif/tools')
import vx
t,st=vx.assemble(__import__('os').environ.get('VXREPO','/repo'),'/verif/contracts',sys.argv[1]+'.vrs')
open('/verif/build/vxdbg/%s.rs'%sys.argv[1].replace('.','_'),'w').write(t)
for l in st['lost']: print('LOST',l)
P
cd /verif/build/vxdbg && env -u RUSTUP_TOOLCHAIN verus $u.rs --num-threads 4 --triggers-mode silent "$@" 2>&1
