import sys,json,os; sys.path.insert(0,'/verif/tools')
import proofs,time
e=dict(os.environ)
for u in sys.argv[1:]:
    t=time.time(); bd='/verif/build/vxdbg'; r=proofs.run_unit(u+'.vrs','/verif/contracts',bd,e,'quick')
    print(u,r['status'],r['verified'],r['errors'],r['failed'],r['lost'],'%.1f'%(time.time()-t))
    n=max([f['loops'] for f in r['fns']] or [0])
    for pt,m,tot in proofs.smoke_unit(u+'.vrs','/verif/contracts',bd,e,n): print('smoke',pt,m,tot)
