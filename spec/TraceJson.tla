------------------------------ MODULE TraceJson -----------------------------
(* Recorded JSON Schema translations and JSON messages, against JJson: the   *)
(* recorded document and the specification of the codec must accept the same *)
(* messages.                                                                 *)
EXTENDS JJson, JFamily, Json

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, l,
          vals,      \* the universe, as a sequence
          env,       \* the resolved schema
          docs       \* the translations recorded in this trace, with what was recorded about them
vars == <<t, l, vals, env, docs>>
Ev == Traces[t].ev[l]
Rows == Traces[t].rows
Report(clause, exp) == PrintT("MISMATCH|" \o ToString(t) \o "|" \o ToString(l) \o "|" \o clause) /\ PrintT(<<"EXPECTED", t, l, exp>>)
Check(ok, clause, exp) == IF ok THEN TRUE ELSE Report(clause, exp)
\* what the specification leaves open is counted
Open(what) == PrintT("OPEN|" \o what)
IsEvent(e) == l <= Len(Traces[t].ev) /\ Ev.e = e /\ l' = l + 1 /\ UNCHANGED <<t, vals, env, docs>>

PatMap(ps) == [x \in {ps[i][1] : i \in 1..Len(ps)} |-> ps[CHOOSE i \in 1..Len(ps) : ps[i][1] = x][2]]
Exports == SelectSeq(Traces[t].exports, LAMBDA x : x \in Defined(Rows))
\* whether messages of the type can be compared, and whether the document must refuse what the codec refuses
SoundFor(rec, readable, ty) == LET N == TLCEval(Reachable(Rows, IF ty = "" THEN Listed(Exports) ELSE {ty}))
                    \* exactly one alternative accepts the message: both sides must agree on every alternative
                    xor == \E n \in N : Opt(ParseOpts(RowNamed(Rows, n)[3]), "combine", "") = "X"
                    exact == rec /\ ExactRows(Rows, env.re, N)
                IN [ok |-> readable /\ SoundRows(Rows, N) /\ (xor => exact), exact |-> exact, xor |-> xor,
                    bare |-> \E n \in N : BareText(Rows, RowNamed(Rows, n))]
Prepare(d) ==
  LET doc == Norm(d.doc)
      subs == TLCEval(AllSubs({doc}))
      res == PatMap(d.pats)
      readable == /\ Unread(subs) = {}
                  /\ \A s \in subs : IsObj(s) => (HasItem(s, "pattern") => Item(s, "pattern")[2] \in DOMAIN res)
                                                      /\ (HasItem(s, "patternProperties") => \A k \in DictKeys(Item(s, "patternProperties")) : k[2] \in DOMAIN res)
      rules(x) == IF readable THEN TLCEval(RulesOf(res, x)) ELSE <<>>
      refs == {r \in Refs(subs) : Resolve(doc, r) # NONE}
  IN [ok |-> d.r = "ok", doc |-> doc, subs |-> subs, rec |-> d.rec, readable |-> readable, top |-> rules(doc),
      sound |-> TLCEval([ty \in Defined(Rows) \cup {""} |-> TLCEval(SoundFor(d.rec, readable /\ d.r = "ok", ty))]),
      refs |-> TLCEval([r \in refs \cup {"#/definitions/" \o n : n \in Defined(Rows)} |-> rules(Resolve(doc, r))])]

\* a translation: D.r, and what the document says besides its rules
Translate ==
  /\ IsEvent("translate")
  /\ LET D == docs[Ev.d]
         I == Norm(Traces[t].info)
     IN IF ~ D.ok THEN Check(NoSource(Rows), "translate", "a JSON Schema document")
        ELSE /\ Check(~ Ev.mut, "mutated", "the schema unchanged")
             \* every rule of the document is one this specification can apply to a message
             /\ Check(Unread(D.subs) = {}, "readable", Unread(D.subs))
             /\ Check(Dangling7(D.doc, D.subs) = {}, "references", Dangling7(D.doc, D.subs))
             /\ Check({k[2] : k \in DictKeys(ItemOr(D.doc, "definitions", <<"dict", {}>>))} = Defined(Rows), "definitions", Defined(Rows))
             /\ Check(\A n \in Defined(Rows) : TitledRow(D.doc, RowNamed(Rows, n)), "titles", {n \in Defined(Rows) : ~ TitledRow(D.doc, RowNamed(Rows, n))})
             /\ LET bad == {<<r[1], f[2]>> : <<r, f>> \in {<<r, f>> \in UNION {{RowNamed(Rows, n)} \X Listed(RowNamed(Rows, n)[5]) : n \in {m \in Defined(Rows) : RowNamed(Rows, m)[2] \in FieldedTypes}} : ~ DescribedField(D.doc, r, f)}}
                IN Check(bad = {}, "descriptions", bad)
             /\ IF I[1] # "dict" THEN TRUE
                ELSE /\ Check((HasItem(I, "package") => HasItem(D.doc, "$id") /\ Item(D.doc, "$id") = Item(I, "package")), "id", I)
                     /\ LET lost == {k \in {"title", "version", "copyright", "license"} : HasItem(I, k) /\ (~ HasItem(D.doc, k) \/ Item(D.doc, k) # Item(I, k))}
                        IN Check(lost = {} /\ (HasItem(I, "description") => Descr(D.doc) = Item(I, "description")), "header", lost)
             /\ Check(HasItem(D.doc, "$schema") /\ HasText(Item(D.doc, "$schema")[2], "json-schema.org/draft-07/schema"), "dialect", "draft 7")

\* what the codec accepts as type ty; ty = "": the whole document, that is the exported types
Mode(D) == [rec |-> D.rec, str |-> TRUE]
TopRes(D, v) ==
  IF Len(Exports) = 1 THEN DecodeRes(env, Mode(D), Exports[1], v)
  ELSE IF v[1] # "dict" THEN NO
  ELSE LET P(x) == {i \in 1..Len(Exports) : StrV(PropName(Exports[i])) = x}
       IN IF \E p \in v[2] : P(p[1]) = {} THEN NO
          ELSE IF \E p \in v[2] : Cardinality(P(p[1])) > 1 THEN ANY
          ELSE Worst({LET r == DecodeRes(env, Mode(D), Exports[CHOOSE i \in P(p[1]) : TRUE], p[2]) IN IF IsOk(r) THEN OK(Null) ELSE r : p \in v[2]})
Comparable(D, S, v) == S.ok /\ ~ HasNewline(v) /\ (~ HasNull(v) \/ D.rec) /\ (S.bare => ~ LongText(v, Traces[t].maxstr))
                       /\ (S.xor => ~ HasWhole(v))          \* 1.0 is an integer there
\* "" or what is wrong with the document's answer
Verdict(D, S, ty, v) ==
  IF ~ Comparable(D, S, v) THEN ""
  ELSE LET exp == TLCEval(IF ty = "" THEN TopRes(D, v) ELSE DecodeRes(env, Mode(D), ty, v))
           js == TLCEval(Valid(D.refs, IF ty = "" THEN D.top ELSE D.refs["#/definitions/" \o ty], v))
       IN CASE exp = ANY -> ""
            [] exp = NO -> IF S.exact /\ ~ HasWhole(v) /\ js THEN "rejects" ELSE ""
            [] HasNull(v) -> ""
            [] OTHER -> IF js THEN "" ELSE "accepts"
Message ==
  /\ IsEvent("message")
  /\ LET D == docs[Ev.d]
         w == Verdict(D, D.sound[Ev.ty], Ev.ty, Norm(Ev.v))
     IN (IF ~ D.readable THEN Open("unreadable") ELSE IF ~ D.sound[Ev.ty].ok THEN Open("message-unsound") ELSE IF ~ D.sound[Ev.ty].exact THEN Open("message-inexact") ELSE TRUE) /\ Check(w = "", w, IF w = "rejects" THEN "a message the codec refuses" ELSE "a message the codec accepts")
\* every JSON value of the universe
Universe ==
  /\ IsEvent("universe")
  /\ LET D == docs[Ev.d]
         S == D.sound[Ev.ty]
         bad == IF ~ S.ok THEN {} ELSE TLCEval({i \in 1..Len(vals) : Verdict(D, S, Ev.ty, vals[i]) # ""})
     IN Check(bad = {}, IF bad = {} THEN "" ELSE LET i == CHOOSE i \in bad : \A j \in bad : i <= j IN Verdict(D, S, Ev.ty, vals[i]),
              IF bad = {} THEN <<>> ELSE LET i == CHOOSE i \in bad : \A j \in bad : i <= j IN <<Cardinality(bad), vals[i]>>)

TraceInit == /\ vals = TLCEval(SetToSeq(JsonUniverse))
             /\ t \in 1..Len(Traces) /\ l = 1
             /\ env = BuildEnv(Traces[t].s, Traces[t].s)
             /\ docs = TLCEval([i \in 1..Len(Traces[t].docs) |-> TLCEval(Prepare(Traces[t].docs[i]))])
TraceSpec == TraceInit /\ [][Translate \/ Message \/ Universe]_vars
TraceView == <<t, l>>
=============================================================================
