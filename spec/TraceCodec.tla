----------------------------- MODULE TraceCodec -----------------------------
(* Checks recorded executions of the library against JSystem.  One behaviour *)
(* per recorded trace; every step consumes one recorded call, takes the      *)
(* action of JSystem with the recorded arguments, and compares the recorded  *)
(* answer with the answer of the action.  A difference is printed, named by  *)
(* the clause it breaks, and the rest of the trace is still checked.         *)
EXTENDS JSystem, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, l
vars == <<codecs, last, t, l>>

Ev == Traces[t].ev[l]
Schema(i) == Traces[t].s[i]
Report(clause, exp) == PrintT("MISMATCH|" \o ToString(t) \o "|" \o ToString(l) \o "|" \o clause) /\ PrintT(<<"EXPECTED", t, l, exp>>)
Check(ok, clause, exp) == IF ok THEN TRUE ELSE Report(clause, exp)
\* what the specification leaves open is counted
Open(what) == PrintT("OPEN|" \o what)

\* recorded answer r = <<"ok", value>> or <<"err">>; exp = answer of the specification
Answer(op, exp, r) ==
  CASE exp = ANY -> Open(op)
    [] exp = NO -> Check(r[1] = "err", op \o "-reject", "refused")
    [] r[1] = "err" -> Report(op \o "-accept", exp)
    [] OTHER -> Check(Norm(r[2]) = exp[2], op \o "-value", exp)
\* f = the answer to the same call of a codec created for it alone, in mode fm, in a process that has done nothing else:
\* a codec remembers only its schema and its mode, so the answers must be equal
Fresh == IF "f" \notin DOMAIN Ev THEN TRUE
         ELSE /\ Check(codecs[Ev.c].m = Ev.fm, "fresh-mode", codecs[Ev.c].m)
              /\ Check(Ev.f[1] = Ev.r[1] /\ (Ev.r[1] = "ok" => Norm(Ev.f[2]) = Norm(Ev.r[2])), "history", Ev.f)
Pure == IF "mut" \in DOMAIN Ev THEN Check(~ Ev.mut, "mutated", "arguments and schema unchanged") ELSE TRUE

IsEvent(e) == l <= Len(Traces[t].ev) /\ Ev.e = e /\ l' = l + 1 /\ UNCHANGED t
TraceNew == /\ IsEvent("new")
            /\ New(Ev.c, BuildEnv(Schema(Ev.s), Schema(Ev.cfg)), [rec |-> Ev.rec, str |-> Ev.str])
            /\ Check(Ev.r[1] = "ok", "new-accept", "created") /\ Pure
TraceMode == /\ IsEvent("mode") /\ SetMode(Ev.c, [rec |-> Ev.rec, str |-> Ev.str])
             /\ Check(Ev.r[1] = "ok", "mode-accept", "set")
TraceEnc == IsEvent("enc") /\ Encode(Ev.c, Ev.ty, Norm(Ev.v)) /\ Answer("enc", last'[5], Ev.r) /\ Pure /\ Fresh
TraceDec == IsEvent("dec") /\ Decode(Ev.c, Ev.ty, Norm(Ev.v)) /\ Answer("dec", last'[5], Ev.r) /\ Pure /\ Fresh
\* encode, then decode what was encoded, directly (d) and through JSON text (j)
TraceRt == /\ IsEvent("rt")
           /\ Encode(Ev.c, Ev.ty, Norm(Ev.v))
           /\ LET v == Norm(Ev.v)
                  env == codecs[Ev.c].env
                  m == codecs[Ev.c].m
                  exp == last'[5]
                  d == IF IsOk(exp) THEN TLCEval(DecodeRes(env, m, Ev.ty, exp[2])) ELSE NO
                  j == IF IsOk(exp) THEN TLCEval(DecodeRes(env, m, Ev.ty, JsonText(exp[2]))) ELSE NO
              IN IF ~ IsOk(exp) THEN Open("rt-refused")
                 ELSE /\ Check(Ev.w[1] = "ok", "rt-encode", exp)
                      /\ IF d # OK(v) THEN Open("rt") ELSE Check(Ev.d[1] = "ok" /\ Norm(Ev.d[2]) = v, "rt-decode", v)
                      /\ IF j # OK(v) THEN Open("rt-json") ELSE Check(Ev.j[1] = "ok" /\ Norm(Ev.j[2]) = v, "rt-json", v)

\* the client scribbles over the schema objects and answers it holds: nothing changes for the library
TraceScribble == IsEvent("scribble") /\ UNCHANGED <<codecs, last>>
\* the client looks at the schemas it passed in
TraceLook == IsEvent("look") /\ UNCHANGED <<codecs, last>> /\ Pure

TraceInit == SysInit /\ t \in 1..Len(Traces) /\ l = 1
TraceNext == TraceNew \/ TraceMode \/ TraceEnc \/ TraceDec \/ TraceRt \/ TraceScribble \/ TraceLook
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceView == <<t, l>>
=============================================================================
