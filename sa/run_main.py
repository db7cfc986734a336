import sys,time
sys.path.insert(0,"/verif/sa")
from engine import *
def main():
    p=Program("/verif/.build/facts")
    E=Engine(p)
    st=S()
    key="artefacta_bin::main"
    t=time.time()
    c=E.ctx(0,key,-1,"")
    b=p.body(key)
    outs=E.exec_body(b,c,st,[])
    import terms
    dd=[x for x in terms._tab.values() if x.op=="unk" and str(x.a[0]).startswith("deep")]
    print("DEEP",dd)
    print("time",time.time()-t,"steps",E.nsteps,"calls",E.ncalls,"events",len(E.events),"ctx",len(E.ctxs),"terms",len(__import__("terms")._tab))
    import collections
    print(collections.Counter(E.warn).most_common(20))
    print(E.unknown_calls)
    for s,v in outs: print(show(v)[:300], len(s.facts), len(s.st), len(s.must), len(s.may))
    print(collections.Counter(e.name for e in E.events).most_common(80))
    return E,outs
if __name__=="__main__":
    E,outs=main()
