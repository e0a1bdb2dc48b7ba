----------------------------- MODULE TraceDeps ------------------------------
(* Recorded dependency lists, analyses, orders and merged packages, against  *)
(* JDeps.                                                                    *)
EXTENDS JDeps, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, l
vars == <<t, l>>
Ev == Traces[t].ev[l]
Report(clause, exp) == PrintT("MISMATCH|" \o ToString(t) \o "|" \o ToString(l) \o "|" \o clause) /\ PrintT(<<"EXPECTED", t, l, exp>>)
Check(ok, clause, exp) == IF ok THEN TRUE ELSE Report(clause, exp)
\* what the specification leaves open is counted
Open(what) == PrintT("OPEN|" \o what)
IsEvent(e) == l <= Len(Traces[t].ev) /\ Ev.e = e /\ l' = l + 1 /\ UNCHANGED t
Is(r, S) == r[1] = "ok" /\ Listed(r[2]) = S /\ Len(r[2]) = Cardinality(S)

DepsEv == /\ IsEvent("deps")
          /\ LET rs == Ev.s roots == Listed(Ev.roots)
             IN /\ Check(~ Ev.mut, "mutated", "the schema unchanged")
                /\ Check(Ev.d[1] = "ok" /\ Len(Ev.d[2]) = Len(rs) /\ \A i \in 1..Len(rs) : Ev.d[2][i][1] = rs[i][1] /\ DepsOf(rs[i], Ev.d[2][i][2]),
                         "dependencies", [i \in 1..Len(rs) |-> RowRefs(rs[i])])
                /\ Check(Is(Ev.und, Undefined(rs, roots)), "undefined", Undefined(rs, roots))
                /\ Check(Is(Ev.unr, Unreferenced(rs, roots)), "unreferenced", Unreferenced(rs, roots))
TopoEv == /\ IsEvent("topo")
          /\ Assert(TopoOk(Ev.deps, Ev.roots), "design")
          /\ Check(~ Ev.mut, "mutated", "the graph unchanged")
          /\ Check(Ev.out = <<"ok", Topo(Ev.deps, Ev.roots)>>, "order", Topo(Ev.deps, Ev.roots))
MergeEv ==
  /\ IsEvent("merge")
  /\ LET ps == Ev.ps
         D == TLCEval(Needed(ps, Listed(Ev.exports)))
         ns == TLCEval(Namings(ps, D, Listed(Ev.plain)))
     IN /\ Check(~ Ev.mut, "mutated", "the package unchanged")
        /\ CASE Dangling(ps, D) -> Check(Ev.r = "err", "merge-reject", "refused")
             [] ~ Dangling(ps, D) /\ (BadNamespace(ps) \/ \E nm \in ns : Clash(nm, D)) -> Open("merge")
             [] OTHER -> /\ Check(Ev.r = "ok" /\ \E nm \in ns : IsMerge(ps, D, nm, Ev.u), "merge",
                                  <<D, [i \in 1..Len(ps) |-> Kept(CHOOSE nm \in ns : TRUE, ps[i], D)]>>)
                         /\ Check(Ev.r = "err" \/ Norm(Ev.ui) = Norm(Ev.i), "merge-info", Ev.i)

TraceInit == t \in 1..Len(Traces) /\ l = 1
TraceSpec == TraceInit /\ [][DepsEv \/ TopoEv \/ MergeEv]_vars
TraceView == <<t, l>>
=============================================================================
