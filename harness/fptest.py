import sys, os, math, random
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib
from lib import fp
def main(n=300):
    r=random.Random(3); tr=[]
    import numpy as np
    from scipy.special import erf
    def num(lo=-12,hi=12): return r.choice([-1,1])*10**r.uniform(lo,hi)
    def q(x): return float('%.8e'%x)
    for k in range(n):
        t=[]
        a,b=q(num()),q(num())
        t.append(dict(op='mul',a=fp(a),b=fp(b),r=fp(a*b)))
        t.append(dict(op='div',a=fp(a),b=fp(b),r=fp(a/b)))
        a,b=q(abs(num(-3,3))),q(abs(num(-3,3)))
        t.append(dict(op='add',a=fp(a),b=fp(b),r=fp(a+b)))
        t.append(dict(op='ln',a=fp(a),r=fp(math.log(a))) if abs(a-1)>.01 else t[0])
        t.append(dict(op='sqrt',a=fp(a),r=fp(math.sqrt(a))))
        x=q(r.uniform(-30,30)); t.append(dict(op='exp',a=fp(x),r=fp(math.exp(x))))
        x=q(r.uniform(-4,4)); t.append(dict(op='erf',a=fp(x),r=fp(erf(x))))
        t.append(dict(op='add',a=fp(a),b=fp(-b/3),r=fp(a-q(b/3)))if abs(a-b/3)>a/2 else t[0])
        tr.append(t)
    return lib.judge('FPTest',tr)
if __name__=='__main__':
    b=main(); print(len(b)); [print(x['clause']) for x in b[:10]]
