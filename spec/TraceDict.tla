------------------------------ MODULE TraceDict -----------------------------
(* Recorded calls of the dictionary helpers and histories of definition       *)
(* objects, against JDict.                                                    *)
EXTENDS JDict, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, l,
          objs       \* the definition objects so far: <<class, columns>>
vars == <<t, l, objs>>
Ev == Traces[t].ev[l]
Report(clause, exp) == PrintT("MISMATCH|" \o ToString(t) \o "|" \o ToString(l) \o "|" \o clause) /\ PrintT(<<"EXPECTED", t, l, exp>>)
Check(ok, clause, exp) == IF ok THEN TRUE ELSE Report(clause, exp)
\* what the specification leaves open is counted
Open(what) == PrintT("OPEN|" \o what)
IsEvent(e) == l <= Len(Traces[t].ev) /\ Ev.e = e /\ l' = l + 1 /\ t' = t
Answers(r, v) == r[1] = "ok" /\ Norm(r[2]) = v
NormAll(vs) == [i \in 1..Len(vs) |-> TLCEval(Norm(vs[i]))]

Flat == /\ IsEvent("flatten") /\ UNCHANGED objs
        /\ LET v == Norm(Ev.v) fc == Norm(Ev.fc)
           IN IF ~ Plain(v, Ev.sep) \/ ~ IsTree(v) THEN Open("flatten")
              ELSE /\ Check(Answers(Ev.r, Flattened(v, Ev.path, fc, Ev.sep)), "flatten", Flattened(v, Ev.path, fc, Ev.sep))
                   /\ Check(~ Ev.mut, "flatten-mutated", "unchanged")
Nest == /\ IsEvent("fluff") /\ UNCHANGED objs
        /\ LET f == Norm(Ev.v)
           IN IF ~ Apart(PathsOf(f, Ev.sep)) THEN Open("fluff")
              ELSE /\ Check(Answers(Ev.r, Nested(f, Ev.sep)), "fluff", Nested(f, Ev.sep))
                   /\ Check(~ Ev.mut, "fluff-mutated", "unchanged")
ToList == /\ IsEvent("dlist") /\ UNCHANGED objs
          /\ LET v == Norm(Ev.v) IN IF ~ NoEmpty(v) THEN Open("dlist") ELSE Check(Answers(Ev.r, Listed(v)), "dlist", Listed(v))
Round == /\ IsEvent("round") /\ UNCHANGED objs
         /\ LET v == Norm(Ev.v)
            IN IF ~ Plain(v, Ev.sep) \/ ~ NoNamespace(v) \/ ~ Unlike(v) \/ ~ IsTree(v) THEN Open("round")
               ELSE /\ Assert(RoundTrip(v, Ev.sep), <<"specification does not come back", v>>)
                    /\ Check(Answers(Ev.r, v), "round", v)
Merge == /\ IsEvent("merge") /\ UNCHANGED objs
         /\ Check(Answers(Ev.r, Merged(NormAll(Ev.vs))), "merge", Merged(NormAll(Ev.vs)))
         /\ Check(~ Ev.mut, "merge-mutated", "unchanged")

\* every event on an object records all columns of all objects afterwards
Same(now) == Len(Ev.all) = Len(now) /\ \A i \in 1..Len(now) : NormAll(Ev.all[i]) = now[i][2]
After(now) == objs' = now /\ Check(Same(now), "columns", now)
New == /\ IsEvent("new") /\ After(Append(objs, <<Ev.cls, TLCEval(NewObject(Ev.cls, NormAll(Ev.args)))>>))
       /\ Check(Ev.len = Len(Columns[Ev.cls]), "length", Len(Columns[Ev.cls]))
GetEv == /\ IsEvent("get") /\ After(objs)
       /\ LET o == objs[Ev.o]
          IN IF Ev.k[1] = "s" THEN Check(Ev.r[1] = "ok" /\ Norm(Ev.r[2]) = <<"list", SliceOf(o[2], Ev.k)>>, "slice", SliceOf(o[2], Ev.k))
             ELSE LET c == ColAt(o[1], Ev.k)
                  IN IF c = 0 THEN Check(Ev.r[1] = "err", "no-column", "refused") ELSE Check(Answers(Ev.r, o[2][c]), "get", o[2][c])
Change(c, x) == After(IF c = 0 THEN objs ELSE [objs EXCEPT ![Ev.o][2][c] = x])
Set == /\ IsEvent("set") /\ Change(ColAt(objs[Ev.o][1], Ev.k), Norm(Ev.v))
Del == /\ IsEvent("del") /\ LET c == ColAt(objs[Ev.o][1], Ev.k) IN Change(c, IF c = 0 THEN Null ELSE Defaults[objs[Ev.o][1]][c])
\* in-place change of a list in a column
Add == /\ IsEvent("add") /\ LET c == ColAt(objs[Ev.o][1], Ev.k) IN Change(c, <<"list", Append(objs[Ev.o][2][c][2], Norm(Ev.v))>>)
\* a schema as objects and back
Objects == /\ IsEvent("objects") /\ UNCHANGED objs
           /\ Check(Ev.r = "ok" /\ Ev.cols = Ev.s, "objects", Ev.s)
           /\ Check(Ev.r = "ok" => Ev.back = Ev.s /\ Ev.rest[1] = Ev.rest[2], "objects-back", Ev.s)
           /\ Check(~ Ev.mut, "objects-mutated", "unchanged")

TraceInit == t \in 1..Len(Traces) /\ l = 1 /\ objs = <<>>
TraceSpec == TraceInit /\ [][Flat \/ Nest \/ ToList \/ Round \/ Merge \/ New \/ GetEv \/ Set \/ Del \/ Add \/ Objects]_vars
TraceView == <<t, l>>
=============================================================================
