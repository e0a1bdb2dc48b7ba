------------------------------ MODULE MC_Codec ------------------------------
(* Bounded exhaustive model of JSystem: every schema of a finite family, in  *)
(* every mode reached by any sequence of mode changes, against every value   *)
(* of a finite universe.  Invariants are the design-level properties; each   *)
(* state also writes out the complete table of expected answers, which the   *)
(* harness replays into the library.                                         *)
EXTENDS JSystem, JFamily, Json

Part == ParseNat(IOEnv.PART)
Parts == ParseNat(IOEnv.PARTS)
VARIABLES sid, uni
mcvars == <<codecs, last, sid, uni>>

\* evaluated once, being defined in the root module
RootSeq == TLCEval(SetToSeq(Roots))
SidSeq == TLCEval(SetToSeq(UNION {{<<i, cf>> : cf \in ConfOf(RootSeq[i])} : i \in {j \in 1..Len(RootSeq) : j % Parts = Part}}))
Mode0 == [rec |-> FALSE, str |-> FALSE]
Init == SysInit /\ sid = 0 /\ uni = <<>>
\* a client creates a codec for one of the schemas ...
Create == /\ sid = 0
          /\ \E k \in 1..Len(SidSeq) :
               /\ sid' = k
               /\ LET s == MkSchema(RootSeq[SidSeq[k][1]], SidSeq[k][2]) IN New(1, BuildEnv(s, s), Mode0)
          /\ uni' = uni
\* ... and switches modes at will
Switch == sid > 0 /\ \E m \in Modes : SetMode(1, m) /\ UNCHANGED <<sid, uni>>
Next == Create \/ Switch
Spec == Init /\ [][Next]_mcvars
View == <<sid, IF sid = 0 THEN Mode0 ELSE codecs[1].m>>

USeq == TLCEval(SetToSeq(UniverseSet))
\* the answers in the present state
EncTable == TLCEval([i \in 1..Len(USeq) |-> EncodeRes(codecs[1].env, codecs[1].m, "T", USeq[i])])
DecTable == TLCEval([i \in 1..Len(USeq) |-> DecodeRes(codecs[1].env, codecs[1].m, "T", USeq[i])])
HasUnion == LET f == {i \in 1..1 : "combine" \in DOMAIN codecs[1].env.t["T"].o} IN f # {}
Compact(tab) == [ok |-> LET ks == SelectSeq([i \in 1..Len(tab) |-> i], LAMBDA i : IsOk(tab[i])) IN [j \in 1..Len(ks) |-> <<ks[j], tab[ks[j]][2]>>],
                 any |-> SelectSeq([i \in 1..Len(tab) |-> i], LAMBDA i : tab[i] = ANY)]
\* trailing nulls of an Array value are not part of the value
RECURSIVE Canon(_)
Canon(v) == CASE v[1] = "list" -> <<"list", StripNulls([i \in 1..Len(v[2]) |-> Canon(v[2][i])])>>
              [] v[1] = "dict" -> <<"dict", {<<p[1], Canon(p[2])>> : p \in v[2]}>>
              [] OTHER -> v
\* Design-level properties, for every value of the universe
Holds ==
  sid = 0 \/
  LET e == EncTable
      d == DecTable
      m == codecs[1].m
      env == codecs[1].env
      \* C01: acceptance by encode does not depend on the mode
      same == \A i \in 1..Len(USeq) : IsOk(e[i]) => IsOk(EncodeRes(env, [rec |-> ~ m.rec, str |-> ~ m.str], "T", USeq[i]))
      \* C03: what encode returns, decode turns back, also through JSON text
      round == HasUnion \/ \A i \in 1..Len(USeq) : IsOk(e[i]) =>
                  /\ DecodeRes(env, m, "T", e[i][2]) = OK(Canon(USeq[i]))
                  /\ DecodeRes(env, m, "T", JsonText(e[i][2])) \in {OK(Canon(USeq[i])), ANY}
      \* C02: what decode returns conforms
      conf == HasUnion \/ \A i \in 1..Len(USeq) : IsOk(d[i]) => IsOk(EncodeRes(env, m, "T", d[i][2])) \/ EncodeRes(env, m, "T", d[i][2]) = ANY
      \* C04: equal wire forms only for equal values
      inj == HasUnion \/ Cardinality({e[i][2] : i \in {j \in 1..Len(e) : IsOk(e[j])}}) = Cardinality({Canon(USeq[j]) : j \in {k \in 1..Len(e) : IsOk(e[k])}})
  IN /\ Assert(same, <<"mode changes acceptance", RootSeq[SidSeq[sid][1]], m>>)
     /\ Assert(round, <<"round trip", RootSeq[SidSeq[sid][1]], m>>)
     /\ Assert(conf, <<"decode yields a value that does not conform", RootSeq[SidSeq[sid][1]], m>>)
     /\ Assert(inj, <<"two values, one wire form", RootSeq[SidSeq[sid][1]], m>>)
     /\ PrintT("CASE|" \o ToJson([sid |-> sid, s |-> MkSchema(RootSeq[SidSeq[sid][1]], SidSeq[sid][2]), m |-> m, enc |-> Compact(e), dec |-> Compact(d)]))
EmitUniverse == sid # 0 \/ PrintT("UNIVERSE|" \o ToJson(USeq))
=============================================================================
