----------------------------- MODULE TraceCheck -----------------------------
(* Recorded verdicts of the library on schemas, against JCheck.              *)
EXTENDS JCheck, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, l
vars == <<t, l>>
Ev == Traces[t].ev[l]
Report(clause, exp) == PrintT("MISMATCH|" \o ToString(t) \o "|" \o ToString(l) \o "|" \o clause) /\ PrintT(<<"EXPECTED", t, l, exp>>)
Check(ok, clause, exp) == IF ok THEN TRUE ELSE Report(clause, exp)
\* what the specification leaves open is counted
Open(what) == PrintT("OPEN|" \o what)

TraceCheckEv ==
  /\ l <= Len(Traces[t].ev) /\ Ev.e = "check" /\ l' = l + 1 /\ UNCHANGED t
  /\ LET exp == TLCEval(CheckRes(Norm(Ev.s), Traces[t].pats))
     IN CASE exp = ANY -> Open("check")
          [] exp = NO -> Check(Ev.r[1] = "err", "check-reject", "refused")
          [] Ev.r[1] = "err" -> Report("check-accept", "accepted")
          [] OTHER -> Check(Norm(Ev.r[2]) = exp[2], "check-value", exp)
TraceInit == t \in 1..Len(Traces) /\ l = 1
TraceSpec == TraceInit /\ [][TraceCheckEv]_vars
TraceView == <<t, l>>
=============================================================================
