import sys
sys.path.insert(0,'/verif/engine'); sys.path.insert(0,'/verif/checks')
import sx, time
_op=sx.Prover.prove; _of=sx.Prover.feasible
def pr(s,pc,g,hint=None,full=True):
    t=time.time(); r=_op(s,pc,g,hint,full); d=time.time()-t
    if d>0.3: print("PROVE %.2f"%d, r[0], full, len(pc), str(g)[:300].replace("\n"," "), flush=True)
    if r[0]=="unknown" and full:
        import z3
        so=z3.Solver(); so.add(*pc); so.add(z3.Not(g)); pr.n=getattr(pr,"n",0)+1; open("/tmp/unk%d.smt2"%pr.n,"w").write(so.to_smt2())
        open("/tmp/unk%d.txt"%pr.n,"w").write("\n".join(str(c) for c in pc)+"\nGOAL "+str(g))
    return r
def fe(s,pc,extra=None,ms=1500):
    t=time.time(); r=_of(s,pc,extra,ms); d=time.time()-t
    if d>0.3: print("FEAS %.2f"%d, r, len(pc), str(extra)[:150].replace("\n"," "), flush=True)
    return r
sx.Prover.prove=pr; sx.Prover.feasible=fe
sys.argv=sys.argv[1:]
exec(open(sys.argv[0]).read())
