"""Does the specification's own checking have teeth?  Each entry changes one expression of the
specification in a scratch copy and names the property of the model that must then fail.
Usage: python3 tools/specmut.py"""
import os
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TLA = "/opt/veriftools/tla"
M = [
    # file, old, new, model, cfg, what fails, override
    ("CVIRec", "RMul(RInt(n0), Inner(dv, dv))", "RMul(RInt(n1), Inner(dv, dv))", "MC_Rec", "MC_Rec_q2", "Quantities"),
    ("CVIRec", "RSub(RInt(1), RQ(1, n))", "RSub(RInt(1), RQ(1, n + 1))", "MC_Rec", "MC_Rec_q2", "Quantities"),
    ("CVIRec", "MScale(RQ(n1 - 2, n1 - 1), @)", "MScale(RQ(n1 - 1, n1), @)", "MC_Rec", "MC_Rec_q2", "Quantities"),
    ("CVIRec", "S  |-> Grow(rec.S, srow, scol)", "S  |-> Grow(rec.S, scol, srow)", "MC_Rec", "MC_Rec_q2", "Quantities"),
    ("CVIRec", "rec.S[Others(k, i)[m]][i]", "rec.S[i][Others(k, i)[m]]", "MC_Rec", "MC_Rec_q2", "Evaluation"),
    ("CVIRec", "RQ(rec.N - k, k - 1)", "RQ(rec.N - k, k)", "MC_Rec", "MC_Rec_q2", "Evaluation"),
    ("CVIRec", "RQ(1, Len(P[i]) - 1)", "RQ(1, Len(P[i]))", "MC_Rec", "MC_Rec_q2", "BatchAgrees"),
    ("CVIRec", "RDiv(RSub(RecSilB(rec, i), rec.S[i][i]), RMax(rec.S[i][i], RecSilB(rec, i)))",
     "RDiv(RSub(RecSilB(rec, i), rec.S[i][i]), RMin(rec.S[i][i], RecSilB(rec, i)))", "MC_Rec", "MC_Rec_q2", "Evaluation"),
    ("Indices", "RMul(RInt(2), RMaxS(g.msd))", "RMul(RInt(2), g.msd[1])", "MC_Sym", "MC_Sym_q2", "OrderFree"),
    ("Indices", "Dist2(u, w) == Norm2(VSub(u, w))", "Dist2(u, w) == RAbs(VSub(u, w)[1])", "MC_Rec", "MC_Rec_q2", "Quantities"),
    ("Indices", "RDiv(RSqrt(g.mind), a)", "RDiv(g.mind, a)", "MC_Sym", "MC_Sym_q2", None),       # see below
    ("Indices", "Num(RDiv(g.mind, RMul(a, a)))", "Num(RDiv(g.mind, a))", "MC_Sym", "MC_Sym_q2", "Scaling"),
    ("Indices", "RSub(st.t[i], RMul(RQ(1, st.n[i]), Norm2(st.s[i])))", "RSub(st.t[i], Norm2(Centroid(st, i)))",
     "MC_Sym", "MC_Sym_q2", "Rigid|Replicas"),
    ("Indices", "RQ(g.n[i], nmax)", "RQ(g.n[i], g.N)", "MC_Sym", "MC_Sym_q2", None),
    ("CVI", "RSub(RMul(f, RInt(NTot(o.st))), RInt(K(o.st)))", "RMul(f, RInt(NTot(o.st)))", "MC_Sym", "MC_Sym_q2", "Replicas"),
    ("Indices", "RMul(RInt(g.N), g.mind)", "g.mind", "MC_Sym", "MC_Sym_q2", "Replicas"),
    ("CVI", "RMul(m, Compact(o.st, i))>>", "Compact(o.st, i)>>", "MC_Sym", "MC_Sym_q2", "Recognised"),
    ("CVI", "/\\ o.mode # \"batch\"\n", "/\\ TRUE\n", "MC_Life", "MC_Life_q", "Admission|TypeOK"),
    ("CVI", "    /\\ o.mode = \"fresh\"\n", "    /\\ TRUE\n", "MC_Life", "MC_Life_q", "Admission|TypeOK"),
    ("CVI", "/\\ Distinct(c.L) >= 2", "/\\ Distinct(c.L) >= 1", "MC_Life", "MC_Life_q", "TypeOK"),
    ("CVI", "IF i > Len(o.labs) THEN Append(o.labs, l) ELSE o.labs", "Append(o.labs, l)", "MC_Life", "MC_Life_q", "TypeOK"),
    ("CVI", "Step(o, c, withq)  == IF Accepts(o, c) THEN Effect(o, c, withq) ELSE o",
     "Step(o, c, withq)  == IF Accepts(o, c) THEN Effect(o, c, withq) ELSE [o EXCEPT !.labs = Append(@, 99)]",
     "MC_Life", "MC_Life_q", "TypeOK"),
    ("CVI", "Step(o, c, withq)  == IF Accepts(o, c) THEN Effect(o, c, withq) ELSE o",
     "Step(o, c, withq)  == IF Accepts(o, c) THEN Effect(o, c, withq) ELSE Fresh", "MC_Life", "MC_Life_q",
     "RefusedNoEffect"),
    ("Life", "obj' = [obj EXCEPT ![o] = TLCEval(Step(@, Contents[arr[a]], FALSE))]",
     "obj' = [p \\in Objs |-> TLCEval(Step(obj[p], Contents[arr[a]], FALSE))]", "MC_Life", "MC_Life_q", "Isolation"),
    ("Life", "              /\\ UNCHANGED obj\n              /\\ out' = \"-\"\n\nCall",
     "              /\\ obj' = [o \\in Objs |-> Fresh]\n              /\\ out' = \"-\"\n\nCall", "MC_Life", "MC_Life_q", "BufferFree"),
    ("Rat", "RLt(a, b)  == RSgn(RSub(a, b)) < 0", "RLt(a, b)  == RSgn(RSub(a, b)) <= 0", "MC_RatLaws", "MC_RatLaws_p", "Field"),
    ("Rat", "h == RGcd(AbsI(b[1]), a[2])\n", "h == 1\n", "MC_RatLaws", "MC_RatLaws_p", None),      # only a missing shortcut
]
# None: the change is either outside what the pure model evaluates (irrational values, checked where
# the override runs: the code itself), harmless, or named by whichever property TLC meets first.


def main():
    miss = 0
    for n, m in enumerate(M):
        f, old, new, mod, cfg, want = m[:6]
        d = tempfile.mkdtemp(prefix="specmut_")
        try:
            for x in os.listdir(V + "/spec"):
                shutil.copy(V + "/spec/" + x, d)
            s = open("%s/%s.tla" % (d, f)).read()
            assert s.count(old) == 1, (f, old, s.count(old))
            open("%s/%s.tla" % (d, f), "w").write(s.replace(old, new))
            r = subprocess.run(["java", "-Xmx3g", "-Xss64m", "-cp", TLA + "/tla2tools.jar:" + TLA + "/CommunityModules-deps.jar",
                                "tlc2.TLC", "-noGenerateSpecTE", "-workers", "2", "-config", cfg + ".cfg", mod + ".tla"],
                               cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            got = [l for l in r.stdout.splitlines() if "is violated" in l or "Error:" in l][:1]
            ok = want is None or any(w in l for l in got for w in want.split("|"))
            miss += not ok
            print("%-3s %-8s %-60.60s %-11s %-16s %s" % ("ok" if ok else "BAD", f, " ".join(new.split()), cfg, want, got[0][:90] if got else "no error"), flush=True)
        finally:
            shutil.rmtree(d)
    print("%d of %d as expected" % (len(M) - miss, len(M)))
    return miss > 0


if __name__ == "__main__":
    sys.exit(main())
