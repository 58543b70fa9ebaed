#!/usr/bin/env python3
"""Generates src/fields_gen.rs: Montgomery parameters of the test fields."""
def factor(n):
    f=[];d=2
    while d*d<=n:
        while n%d==0: f.append(d); n//=d
        d+=1
    if n>1: f.append(n)
    return f
def isp(n):
    if n<2: return False
    for q in (2,3,5,7,11,13,17,19,23,29,31,37):
        if n%q==0: return n==q
    d=n-1;s=0
    while d%2==0: d//=2;s+=1
    for a in (2,3,5,7,11,13,17,19,23,29,31,37):
        x=pow(a,d,n)
        if x in(1,n-1): continue
        for _ in range(s-1):
            x=x*x%n
            if x==n-1: break
        else: return False
    return True
def gen(p):
    fs=set(factor(p-1)); g=2
    while any(pow(g,(p-1)//q,p)==1 for q in fs): g+=1
    return g
k=(1<<30)-1
while True:
    P62=k*(1<<32)+1
    if k%2 and isp(P62): break
    k-=1
out=["// generated by genfield.py\n"]
for name,p in (("257",257),("12289",12289),("40961",40961),("62",P62)):
    g=gen(p); t=p-1;s=0
    while t%2==0: t//=2;s+=1
    R=pow(2,64,p); m=lambda x:x*R%p
    root=pow(g,t,p); bits=p.bit_length()
    inv=(-pow(p,-1,1<<64))%(1<<64)
    out.append(f"test_field!(F{name}, P{name}, {p}u64, {bits}, {64-bits}, {R}u64, {R*R%p}u64, {inv}u64, {m(g)}u64, {bits-1}, {t}u64, {(t-1)//2}u64, {(p-1)//2}u64, {s}, {m(root)}u64);\n")
    print(name,p,g,s)
open("src/fields_gen.rs","w").writelines(out)
