import sys
sys.path.insert(0,'/verif')
from pyvc.ir import *
from pyvc import ir, norm, smt
th=norm.Theory()
n=var('n'); i=var('i'); j=var('j')
def a(p): return app('E_a',p)
def b(p): return app('E_b',p)
def v(p): return app('E_v',p,sort='R')
N=app('E_n')
th.inverses.append(norm.Inverse(('E_a','E_b'),'E_pos',lambda pre,ks: app('E_has',*ks,sort='B'),0,lambda: N))
ir.APP_REWRITES['E_a']=lambda args: args[0].args[1] if args[0].op=='app' and args[0].args[0]=='E_pos' else None
ir.APP_REWRITES['E_b']=lambda args: args[0].args[2] if args[0].op=='app' and args[0].args[0]=='E_pos' else None
th.axiom('E_has',lambda x,y:[implies(app('E_has',x,y,sort='B'),and_(le(ZERO,x),lt(x,y),lt(y,n)))])
nm=norm.Norm(th,[lt(ZERO,n),le(ZERO,i),lt(i,n),le(ZERO,j),lt(j,n)])
p=var('p')
A=lambda i,j: sum_(((p,N),), iverson(and_(eq(a(p),i),eq(b(p),j)),v(p))) + sum_(((p,N),), iverson(and_(eq(b(p),i),eq(a(p),j)),v(p)))
print(nm.canon(A(i,j)))
print(nm.canon(A(i,i)))
q=var('q')
print(nm.canon(sum_(((q,n),),A(i,q))))
print(nm.prove_eq(A(i,j),A(j,i)))
print(nm.cbool(exists(((p,N),),and_(eq(a(p),i),eq(b(p),j)))))
inv=lambda t: app('rsqrt0',t,sort='R')
d=lambda i: sum_(((q,n),),A(i,q))
r=var('r')
D=lambda i,j: ite(eq(i,j),inv(d(i)),RZERO)
L1=sum_(((q,n),), sum_(((r,n),), D(i,r)*A(r,q))*D(q,j))
print(nm.prove_eq(L1, inv(d(i))*A(i,j)*inv(d(j))))
print(nm.prove_eq(L1, inv(d(j))*A(j,i)*inv(d(i))))
print(nm.prove_eq(L1, inv(d(j))*A(j,i)*inv(d(j)))[:2])
print(nm.prove_eq(tmax(v(p),const(3)), tmax(const(3),v(p))))
print(smt.STATS.__dict__)
