"""Checks a table of OMAC doubling polynomials (default: lib/mac/omac.c of a tree):
every entry must be irreducible, and (with --first) the smallest irreducible pentanomial.
Used to build harness/poly.h; not needed by the checks."""
import sys
import re
t=[]
for l in open(sys.argv[1]):
    m=re.match(r'\s*\{((?:0x[0-9A-F]{2}(?:, )?){6})\},?\s*/\*\s+(\d+)',l)
    if m: t.append((int(m[2]),int(''.join(x[2:] for x in m[1].split(', ')),16)))
def mod(a,f,n):
    while a.bit_length()>n:
        a^=f<<(a.bit_length()-n-1)
    return a
sp=[sum(((b>>i)&1)<<(2*i) for i in range(8)) for b in range(256)]
def sqr(a):
    r=0;k=0
    while a:
        r|=sp[a&255]<<(16*k);a>>=8;k+=1
    return r
def gcd(a,b):
    while b:
        while a.bit_length()>=b.bit_length() and a: a^=b<<(a.bit_length()-b.bit_length())
        a,b=b,a
    return a
def primes(n):
    p=[];d=2
    while n>1:
        if n%d==0:
            p.append(d)
            while n%d==0:n//=d
        d+=1
    return p
def redmod(a,f,n,lowbits):
    # f = x^n + low
    m=(1<<n)-1
    while a>>n:
        h=a>>n;a&=m
        for b in lowbits: a^=h<<b
    return a
def irr(f,n,low):
    lb=[i for i in range(64) if low>>i&1]
    chk={n//p for p in primes(n)}
    x=2
    for i in range(1,n+1):
        x=redmod(sqr(x),f,n,lb)
        if i in chk and gcd(f,x^2)!=1: return False
    return x==2

def main(first):
    from multiprocessing import Pool
    global work
    def lows(n, lim):
        c=[]
        for a in range(3,lim.bit_length()):
            for b in range(2,a):
                for k in range(1,b):
                    v=1<<a|1<<b|1<<k|1
                    if v<lim: c.append(v)
        return sorted(c)
    for i,low in t:
        if not i: continue
        n=8*i
        if i%int(sys.argv[3])!=int(sys.argv[4]) if first else False: continue
        if not irr(1<<n|low,n,low): print("REDUCIBLE",i,hex(low),flush=True)
        if first:
            for v in lows(n,low):
                if irr(1<<n|v,n,v): print("NOT FIRST",i,hex(low),hex(v),flush=True);break
    print("checked",flush=True)
main(len(sys.argv)>2)
