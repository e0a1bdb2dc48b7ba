---------------------------- MODULE TraceUnfold -----------------------------
(* Recorded unfoldings: `unfold` gives the schema s, the selected extensions *)
(* x and the answer; `same` compares what one value is worth under the       *)
(* original schema of the trace and under the schema unfolded last.          *)
EXTENDS JUnfold, JFamily, Json

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES env0, env, t, l, univ
vars == <<env0, env, t, l, univ>>
Ev == Traces[t].ev[l]
Report(clause, exp) == PrintT("MISMATCH|" \o ToString(t) \o "|" \o ToString(l) \o "|" \o clause) /\ PrintT(<<"EXPECTED", t, l, exp>>)
Check(ok, clause, exp) == IF ok THEN TRUE ELSE Report(clause, exp)
\* what the specification leaves open is counted
Open(what) == PrintT("OPEN|" \o what)
IsEvent(e) == l <= Len(Traces[t].ev) /\ Ev.e = e /\ l' = l + 1 /\ UNCHANGED <<t, univ>>
None == <<"none">>

TraceOrig == IsEvent("orig") /\ env0' = BuildEnv(Ev.s, Ev.s) /\ env' = None
TraceUnfoldEv ==
  /\ IsEvent("unfold") /\ UNCHANGED env0
  /\ LET x == {Ev.x[i] : i \in 1..Len(Ev.x)}
         s == Ev.s
         ok == Ev.r[1] = "ok"
     IN /\ Check(ok, "unfold-accept", x)
        /\ env' = IF ok THEN BuildEnv([s EXCEPT !.types = Ev.u], s) ELSE None
        /\ Check(~ Ev.mut, "mutated", "the schema unchanged")
        /\ IF ~ ok THEN TRUE
           ELSE LET u == [s EXCEPT !.types = Ev.u]
                IN /\ Check(Leftover(u, x) = {}, "leftover", Leftover(u, x))
                   /\ Check(NamesDistinct(u), "duplicate", "one definition per name")
                   /\ Check(Kept(s, u, x), "kept", {s.types[i][1] : i \in {k \in 1..Len(s.types) :
                               ~ (HasType(u, s.types[k][1]) /\ RowKept(s, s.types[k], TypeNamed(u, s.types[k][1]), x))}})
                   /\ Check(Norm(Ev.rest[1]) = Norm(Ev.rest[2]), "info", "package information kept")
                   /\ Check(Ev.again, "idempotent", "unfolding again changes nothing")
                   \* (labels of enumerations need not be legal field names, nor names of fields legal in names of types)
                   /\ Check((\E i \in 1..Len(Ev.u) : FindFrom(Ev.u[i][1], "_", 1) # 0) \/ (\E i \in 1..Len(s.types) : TBase(s.types[i]) = "MapOf" /\ TBase(TypeNamed(u, s.types[i][1])) = "Map") \/ CheckRes(Norm(Ev.ts), s.pats) = NO \/ CheckRes(Norm(Ev.tu), s.pats) # NO, "valid", "a well-formed schema")
\* the value v as type ty, in mode m: the same answer under both schemas
TraceSame ==
  /\ IsEvent("same") /\ UNCHANGED <<env0, env>>
  /\ IF env = None THEN Open("same")
     ELSE LET v == Norm(Ev.v)
              a == TLCEval(IF Ev.d = "enc" THEN EncodeRes(env0, Ev.m, Ev.ty, v) ELSE DecodeRes(env0, Ev.m, Ev.ty, v))
              b == TLCEval(IF Ev.d = "enc" THEN EncodeRes(env, Ev.m, Ev.ty, v) ELSE DecodeRes(env, Ev.m, Ev.ty, v))
          IN Check(a = b, "meaning", <<a, b>>)
\* every value of the universe as type ty, in mode m, both ways
TraceSameAll ==
  /\ IsEvent("sameall") /\ UNCHANGED <<env0, env>>
  /\ IF env = None THEN Open("sameall")
     ELSE LET differs(v) == \/ EncodeRes(env0, Ev.m, Ev.ty, v) # EncodeRes(env, Ev.m, Ev.ty, v)
                            \/ DecodeRes(env0, Ev.m, Ev.ty, v) # DecodeRes(env, Ev.m, Ev.ty, v)
              bad == TLCEval({i \in 1..Len(univ) : differs(univ[i])})
              i1 == CHOOSE i \in bad : \A j \in bad : i <= j
          IN Check(bad = {}, "meaning-all", IF bad = {} THEN <<>> ELSE <<Cardinality(bad), univ[i1], EncodeRes(env0, Ev.m, Ev.ty, univ[i1]), EncodeRes(env, Ev.m, Ev.ty, univ[i1]),
                                                                   DecodeRes(env0, Ev.m, Ev.ty, univ[i1]), DecodeRes(env, Ev.m, Ev.ty, univ[i1])>>)

TraceInit == t \in 1..Len(Traces) /\ l = 1 /\ env0 = None /\ env = None
             /\ univ = IF \E i \in 1..Len(Traces[t].ev) : Traces[t].ev[i].e = "sameall" THEN TLCEval(SetToSeq(UniverseSet)) ELSE <<>>
TraceSpec == TraceInit /\ [][TraceOrig \/ TraceUnfoldEv \/ TraceSame \/ TraceSameAll]_vars
TraceView == <<t, l>>
=============================================================================
