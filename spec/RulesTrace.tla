----------------------------- MODULE RulesTrace -----------------------------
EXTENDS Rules, Json, IOUtils
Rec == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
TInit == l \in 1..Len(Rec)
TNext == FALSE /\ l' = l
TSpec == TInit /\ [][TNext]_l
R == Rec[l]
B(x) == IF x THEN 1 ELSE 0
Distinct(s) == Cardinality(ToSet(s)) = Len(s)
RuleOk ==
  /\ R.name \in Names /\ R.shown = R.name
  /\ LET w == Row(R.name) IN
     /\ ToSet(R.cats) = w.cats /\ Distinct(R.cats) /\ R.catshown = R.cats /\ ToSet(R.has) = w.cats
     /\ R.fix = w.fix /\ R.flags = <<w.fix = "none", w.fix = "safe", w.fix = "unsafe">>
     /\ R.enabled = w.enabled /\ R.dflags = <<w.enabled, ~w.enabled>>
     /\ R.min = w.min /\ R.dep = w.dep /\ R.isdep = (w.dep # <<>>)
Is(s, S) == ToSet(s) = S /\ Distinct(s)
(* the differences between the registry and the table that are recorded as findings are
   passed in by name so that the derived lists stay comparable *)
Fixed == {r.name : r \in {Rec[i] : i \in {j \in 1..Len(Rec) : Rec[j].k = "rule"}}}
FixOf(n) == LET i == CHOOSE i \in 1..Len(Rec) : Rec[i].k = "rule" /\ Rec[i].name = n IN Rec[i].fix
Ok == CASE R.k = "rule" -> RuleOk
        [] R.k = "all" -> Is(R.n, Names) /\ R.m = R.n
        [] R.k = "cats" -> Is(R.n, Categories)
        [] R.k = "bycat" -> Is(R.n, ByCategory(R.c))
        \* filtering by fix status agrees with every rule's own status
        [] R.k = "byfix" -> Distinct(R.n) /\ ToSet(R.n) = {n \in Fixed : FixOf(n) = R.f}
        [] R.k = "bydef" -> Is(R.n, ByDefault(R.e))
        [] R.k = "lookup" -> R.r = Lookup(R.s)
        [] R.k = "catlookup" -> R.r = CatLookup(R.s)
        [] R.k = "set" -> /\ IF R.how = 3 THEN ToSet(R.s) = ToSet(R.xs) /\ Distinct(R.s) ELSE R.s = R.xs
                          /\ R.f = Without(R.s, R.ys)
                          /\ R.len = Len(R.s) /\ R.empty = (R.s = <<>>)
                          /\ R.has = (R.q \in ToSet(R.s)) /\ R.hasname = R.has /\ R.bogus = FALSE
        [] OTHER -> FALSE
Accepted == Ok \/ PrintT(ToJson([rejected |-> l]))
Table1 == UniqueNames /\ Partition /\ Categorised /\ TestthatOffByDefault /\ DeprecatedPointsSomewhere
=============================================================================
