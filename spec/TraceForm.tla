----------------------------- MODULE TraceForm ------------------------------
(* Recorded conversions of schemas and of their parts, against JForm.        *)
EXTENDS JForm, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, l,
          wf         \* which of the schemas of this trace are well formed
vars == <<t, l, wf>>
Ev == Traces[t].ev[l]
Report(clause, exp) == PrintT("MISMATCH|" \o ToString(t) \o "|" \o ToString(l) \o "|" \o clause) /\ PrintT(<<"EXPECTED", t, l, exp>>)
Check(ok, clause, exp) == IF ok THEN TRUE ELSE Report(clause, exp)
\* what the specification leaves open is counted
Open(what) == PrintT("OPEN|" \o what)
IsEvent(e) == l <= Len(Traces[t].ev) /\ Ev.e = e /\ l' = l + 1 /\ UNCHANGED <<t, wf>>

\* a schema (s, i) written in some notation and read back (u, ui); x: whether option lists must be the same texts
Cycle == /\ IsEvent("cycle")
         /\ IF ~ wf[Ev.k] THEN Open("cycle")
            ELSE IF Ev.r # "ok" THEN Report("accept", "written and read back")
            ELSE /\ Check(~ Ev.mut, "mutated", "the schema unchanged")
                 /\ Check(IF Ev.x THEN Ev.s = Ev.u ELSE SameRows(Ev.s, Ev.u), "types", DiffRows(Ev.s, Ev.u))
                 /\ LET a == Norm(Ev.i) b == Norm(Ev.ui) IN Check(a = b \/ (NoInfo(a) /\ NoInfo(b)), "info", a)
\* a schema file: its content c is a schema or not, its name has a supported extension or not
File == /\ IsEvent("file")
        /\ LET exp == IF ~ Ev.known THEN NO ELSE IF ~ Ev.json THEN NO ELSE TLCEval(CheckRes(Norm(Ev.c), Traces[t].pats))
           IN CASE exp = ANY -> Open("file")
                [] exp = NO -> Check(Ev.r[1] = "err", "file-reject", "refused")
                [] OTHER -> Check(Ev.r[1] = "ok" /\ Norm(Ev.r[2]) = exp[2], "file-value", exp[2])
Canon == /\ IsEvent("canon")
         /\ Check(~ Ev.mut, "mutated", "the schema unchanged")
         /\ IF Ev.r # "ok" THEN Report("canon-accept", "a canonical form")
            ELSE /\ Check(SameRows(Ev.s, Ev.u), "canon-meaning", DiffRows(Ev.s, Ev.u))
                 /\ Check(OddRows(Ev.s) \/ Ev.u = CanonRows(Ev.s), "canon-form", CanonRows(Ev.s))
                 /\ Check(Ev.u = Ev.again, "canon-idempotent", Ev.u)
                 /\ Check(\A i \in 1..Len(Ev.variants) : SameRows(Ev.s, Ev.variants[i][1]) => Ev.variants[i][2] = Ev.u, "canon-unique", Ev.u)
                 /\ Check(Norm(Ev.i) = Norm(Ev.ui), "canon-info", Ev.i)
Strip == /\ IsEvent("strip")
         /\ Check(~ Ev.mut, "mutated", "the schema unchanged")
         /\ IF Ev.r # "ok" THEN Report("strip-accept", "a schema")
            ELSE /\ Check(Ev.u = StripRows(Ev.s, Ev.n), "strip-rows", StripRows(Ev.s, Ev.n))
                 /\ Check(Norm(Ev.i) = Norm(Ev.ui), "strip-info", Ev.i)
\* only option lists that a well-formed schema can have are constrained
LegalType(b, ol) == OptsV(ol, TypeOptNames) = OK(Null) /\ NoRepeats(ol) /\ IsOk(TypeOptsV(b, ParseOpts(ol)))
TypeStrEv == /\ IsEvent("typestr")
             /\ IF ~ (IF Ev.b \in CoreTypes THEN LegalType(Ev.b, Ev.o) ELSE Len(Ev.o) = 0) \/ OddRows(<< <<"", "", Ev.o, "", <<>>>> >>) THEN Open("typestr")
                ELSE /\ Check(Ev.txt = <<"ok", TypeStr(Ev.b, ParseOpts(Ev.o))>>, "typestr", TypeStr(Ev.b, ParseOpts(Ev.o)))
                     /\ Check(Ev.back[1] = "ok" /\ Ev.back[2] = Ev.b /\ SameOpts(Ev.b, Ev.o, Ev.back[3]) /\ Ev.back[4] = <<>>, "typestr-back", Ev.o)
FieldEv == /\ IsEvent("field")
           /\ LET f == Ev.row[5][Ev.k]
              IN /\ Check(Ev.cells[1] = "ok" /\ Ev.cells[2] = Cells(Ev.row, f), "cells", Cells(Ev.row, f))
                 /\ Check(Ev.back[1] = "ok" /\ Len(Ev.back[2]) = Len(f) /\ CanonField(Ev.back[2]) = CanonField(f), "cells-back", f)
OptsEv == /\ IsEvent("opts")
          /\ IF ~ IsOk(OptsV(Ev.o, {OptNames[c] : c \in DOMAIN OptNames})) \/ ~ NoRepeats(Ev.o) \/ OddRows(<< <<"", "", Ev.o, "", <<>>>> >>)
                \/ "default" \in DOMAIN ParseOpts(Ev.o) THEN Open("opts")
             ELSE /\ Check(Ev.f[1] = "ok" /\ Norm(Ev.f[2]) = OptDict(Ev.o, {"minc", "maxc", "tagid", "dir", "key", "link"}), "field-options", Ev.o)
                  /\ Check(Ev.t[1] = "ok" /\ Norm(Ev.t[2]) = OptDict(Ev.o, TypeOptNames), "type-options", Ev.o)
                  /\ Check(Ev.back[1] = "ok" /\ KnownOpts(Ev.back[2]) /\ LET a == ParseOpts(Ev.o) b == ParseOpts(Ev.back[2])
                           IN Len(Ev.back[2]) = Len(Ev.o) /\ Effective("Integer", a) = Effective("Integer", b) /\ DOMAIN a = DOMAIN b, "options-back", Ev.o)
                  /\ Check(Ev.sorted[1] = "ok" /\ Ev.sorted[2] = Ordered(ParseOpts(Ev.o)), "sorted", Ordered(ParseOpts(Ev.o)))
MultEv == IsEvent("mult") /\ Check(Ev.r = <<"ok", MultText(Ev.lo, Ev.hi)>>, "multiplicity", MultText(Ev.lo, Ev.hi))
\* a multiplicity text read into cardinality options
MultRead == IsEvent("multread")
            /\ LET c == CanonOpts("String", MultOpts(Ev.m)) IN Check(Ev.r[1] = "ok" /\ CanonOpts("String", Ev.r[2]) = c, "multiplicity-read", c)

Whole(tr) == IF "whole" \in DOMAIN tr THEN [k \in 1..Len(tr.whole) |-> TLCEval(IsOk(CheckRes(Norm(tr.whole[k]), tr.pats)))] ELSE <<>>
TraceInit == t \in 1..Len(Traces) /\ l = 1 /\ wf = TLCEval(Whole(Traces[t]))
             \* schemas made to be well-formed are
             /\ Check("must" \notin DOMAIN Traces[t] \/ (\A k \in DOMAIN wf : wf[k]), "fixture", "a well-formed schema")
TraceSpec == TraceInit /\ [][Cycle \/ File \/ Canon \/ Strip \/ TypeStrEv \/ FieldEv \/ OptsEv \/ MultEv \/ MultRead]_vars
TraceView == <<t, l>>
=============================================================================
