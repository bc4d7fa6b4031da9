import sys,time
sys.path.insert(0,'/verif/vp')
import ir, build
from specs.sorts import *
import pickle
def main():
    bc=build.bitcode('/verif/vp/harness/sorts.cpp','sorts')
    prog=ir.Program([bc])
    which=sys.argv[1:]
    for k in (ELEM,U64C):
        me,rl,hs,iz,hf,bh,hp=MinElement(k),RotateLast(k),HasSentinel(k),InsertionSort(k),Heapify(k),BuildHeap(k),Heapsort(k)
        tasks=[Task(me),Task(rl),Task(hs),Task(iz,uses=[me,rl,hs]),Task(hf),Task(bh,uses=[hf]),Task(hp,uses=[hf,bh,iz])]
        pa=Partition(k)
        pl=Partition(k); pl.lam=r"^[\w\s*&]*pystd2026::partition<%s\*, (?!Pred)"%(re.escape(k.cpp)); pl.lamop=r"do_introsort<%s\*, CmpI?>\(.*'lambda'.*::operator\(\)"%re.escape(k.cpp)
        pp=PickPivot(k); di=DoIntrosort(k); it=Introsort(k)
        tasks+=[Task(pa),Task(pp,uses=[iz]),Task(MedianCount()),Task(di,uses=[MedianCount(),pp,pl,iz,hs,hp]),Task(it,uses=[di,iz])]
        for t in tasks:
            if which and not any(w.strip('^') in t.name if w[0]!='^' else t.name.startswith(w.strip('^')) for w in which): continue
            t.config=conf(k)
            r=t.run(prog,log=print)
            bad=[o for o in r['obligs'] if o['status']!='ok']
            print(t.name,'obl',len(r['obligs']),'bad',len(bad),[o["name"] for o in bad],'%.1fs'%r['time'],r['error'],r.get('exits'),r['stats'])
main()
