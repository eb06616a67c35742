------------------------------- MODULE EditorMC -------------------------------
EXTENDS Editor, Json
CONSTANTS Tree, DNames, Files, Items, CfgDirs, Pats, MaxPats, Sels, PkgSets, Vers, Users
One(S) == {{}} \cup {{p} : p \in S}
Off == [on |-> FALSE, excl |-> {}, incl |-> {}, def |-> TRUE]
Confs == {Off} \cup {[on |-> TRUE, excl |-> a, incl |-> i, def |-> d] : a \in One(Pats), i \in One(Pats), d \in BOOLEAN}
Size(c) == Cardinality(c.excl) + Cardinality(c.incl) + (IF c.def THEN 0 ELSE 1)
Small == {c \in Confs : Size(c) <= MaxPats}
RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET d == CHOOSE d \in S : TRUE IN Size(f[d]) + Sum(f, S \ {d})
N == Len(Tree)
Init == \E c \in [CfgDirs -> Small] : Sum(c, CfgDirs) <= MaxPats /\
        \E u \in Users, pk \in PkgSets, v \in Vers :
        \E s \in [0..N -> Sels] : (\A d \in 0..N : (IF d = 0 THEN ~u ELSE IF d \in CfgDirs THEN ~c[d].on ELSE TRUE) => s[d] = [s |-> "default", t |-> -1]) /\
          EInit(Tree, DNames, Files, [d \in 1..N |-> IF d \in CfgDirs THEN c[d] ELSE Off],
                [pkg |-> pk, ver |-> [d \in 1..N |-> IF d \in pk THEN v ELSE 0], user |-> u, sel |-> [d \in 1..(N + 1) |-> s[d - 1].s], thr |-> [d \in 1..(N + 1) |-> s[d - 1].t], items |-> Items])
Spec == Init /\ [][ENext]_evars
Emit == Done => PrintT(ToJson([cfg |-> [d \in 1..N |-> cfg[d]], pkg |-> x.pkg, ver |-> x.ver, user |-> x.user, sel |-> x.sel, thr |-> x.thr,
          want |-> [f \in Fs |-> [apart |-> Apart(f), pooled |-> Pooled(f), reports |-> [enc \in {"utf8", "utf16", "utf32"} |-> {Place(f, k, enc) : k \in out[f][2]}]]]]))
===============================================================================
