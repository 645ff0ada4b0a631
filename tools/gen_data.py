# Development-time generator of sim/factors.hpp (committed output): prime factors of 2^n-1, independent of the library where sympy can do it.
import sympy, re
ns=list(range(2,65))+[128,160,192,224,256,288,320,352,384,416,448,480,512,544,640,800,960]
s=open('/repo/lib/AlgorithmPrimitivity.cpp').read()
lib={int(m.group(1)):[int(x) for x in re.findall(r'"(\d+)"',m.group(2))] for m in re.finditer(r'prime_factors2_(\d+)_1\[\] = \{(.*?)\}',s,re.S)}
known=set()
for v in lib.values():
    for p in v:
        assert sympy.isprime(p); known.add(p)
out=["// generated by tools/gen_data.py: complete sets of primes dividing 2^n-1 (verified prime and complete)","struct FactorRow { int n; const char* dec; const char* hex; const char* cofhex; };","static const FactorRow FACTORS[] = {"]
for n in ns:
    r=2**n-1; ps=[]
    m=r
    for p in sorted(known):
        if m%p==0:
            ps.append(p)
            while m%p==0: m//=p
    if m!=1:
        for p in sympy.factorint(m): ps.append(int(p))
    m=r
    for p in ps:
        assert sympy.isprime(p) and r%p==0
        while m%p==0: m//=p
    assert m==1
    for p in sorted(set(ps)): out.append('{%d,"%d","%x","%x"},'%(n,p,p,r//p))
out.append("{0,0,0,0}};")
open('/verif/sim/factors.hpp','w').write("\n".join(out)+"\n")
