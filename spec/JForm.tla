------------------------------- MODULE JForm --------------------------------
(* Forms of a schema: canonical option lists, equality of schemas, type      *)
(* strings and field cells (the notation shared by JIDL, HTML, Markdown and  *)
(* diagrams), option dictionaries, stripped comments.                        *)
(* Rows are <<name, base, options, description, fields>> with ids as text.   *)
EXTENDS JCheck

OptOrder == <<"id", "vtype", "ktype", "enum", "pointer", "format", "pattern", "minf", "maxf", "minv", "maxv", "unique", "set", "unordered",
              "sequence", "combine", "extend", "default", "minc", "maxc", "tagid", "dir", "key", "link">>
OptChar == [n \in {OptNames[c] : c \in DOMAIN OptNames} |-> CHOOSE c \in DOMAIN OptNames : OptNames[c] = n]
KnownOpts(ol) == \A i \in 1..Len(ol) : OptName(ol[i]) # "?"
NoRepeats(ol) == \A i, j \in 1..Len(ol) : i # j => OptName(ol[i]) # OptName(ol[j])

\* a limit of a Number, as a float is written
NumText(x) == LET a == Abs(x)
                  f == FracPart(a)
              IN (IF IsNeg(x) THEN "-" ELSE "") \o IntPart(a) \o "." \o (IF f = "" THEN "0" ELSE f)
\* floats that need an exponent or more digits than a float has
OddNum(x) == ~ DecText(x) \/ Len(IntPart(Abs(x))) + Len(FracPart(Abs(x))) > 15 \/ (IntPart(Abs(x)) = "0" /\ HasPrefix(FracPart(Abs(x)), "0000"))

\* options of a type with base b, or of a field of type b: defaults dropped, numbers spelled one way
Effective(b, o) ==
  LET drop == {n \in DOMAIN o : \/ n = "minv" /\ o[n] = "0" /\ b # "Integer"
                                \/ n \in {"minc", "maxc"} /\ o[n] = "1"}
  IN [n \in DOMAIN o \ drop |-> IF n \in {"minf", "maxf"} THEN NumText(o[n]) ELSE o[n]]
Ordered(o) == LET ns == SelectSeq(OptOrder, LAMBDA n : n \in DOMAIN o) IN [i \in 1..Len(ns) |-> OptChar[ns[i]] \o o[ns[i]]]
CanonOpts(b, ol) == Ordered(Effective(b, ParseOpts(ol)))
SameOpts(b, x, y) == KnownOpts(x) /\ KnownOpts(y) /\ NoRepeats(y) /\ Effective(b, ParseOpts(x)) = Effective(b, ParseOpts(y))

\* canonical form: every option list canonical, everything else as it is
CanonField(f) == IF Len(f) = 5 THEN [f EXCEPT ![4] = CanonOpts(f[3], f[4])] ELSE f
CanonRow(r) == [r EXCEPT ![3] = CanonOpts(r[2], r[3]), ![5] = [i \in 1..Len(r[5]) |-> CanonField(r[5][i])]]
CanonRows(rs) == [i \in 1..Len(rs) |-> TLCEval(CanonRow(rs[i]))]
OddRows(rs) == \E i \in 1..Len(rs) : \/ \E k \in 1..Len(rs[i][3]) : OptName(rs[i][3][k]) \in {"minf", "maxf"} /\ OddNum(From(rs[i][3][k], 2))
                                     \/ \E j \in 1..Len(rs[i][5]) : Len(rs[i][5][j]) = 5 /\ \E k \in 1..Len(rs[i][5][j][4]) :
                                           OptName(rs[i][5][j][4][k]) \in {"minf", "maxf"} /\ OddNum(From(rs[i][5][j][4][k], 2))
\* the same schema: same definitions in the same order, options compared by effect
SameRows(a, b) == Len(a) = Len(b) /\ CanonRows(a) = CanonRows(b)
DiffRows(a, b) == IF Len(a) # Len(b) THEN <<"number of types", Len(a), Len(b)>>
                  ELSE LET d == {i \in 1..Len(a) : CanonRow(a[i]) # CanonRow(b[i])} IN {<<a[i], b[i]>> : i \in d}
NoInfo(v) == v \in {<<"dict", {}>>, Null}

(* ---- type strings ---- *)
RefText(x) == IF Len(x) > 0 /\ Ch(x, 1) = "#" THEN "Enum[" \o From(x, 2) \o "]"
              ELSE IF Len(x) > 0 /\ Ch(x, 1) = ">" THEN "Pointer[" \o From(x, 2) \o "]" ELSE x
CombineText == ("O" :> "anyOf") @@ ("A" :> "allOf") @@ ("X" :> "oneOf")
Range2(lo, hi, dlo, dhi) == IF lo = dlo /\ hi = dhi THEN "" ELSE "{" \o lo \o ".." \o hi \o "}"
RangeText(b, o) ==
  CASE b = "Integer" -> Range2(Opt(o, "minv", "*"), Opt(o, "maxv", "*"), "*", "*")
    [] b = "Number" -> Range2(IF "minf" \in DOMAIN o THEN NumText(o["minf"]) ELSE "*", IF "maxf" \in DOMAIN o THEN NumText(o["maxf"]) ELSE "*", "*", "*")
    [] OTHER -> Range2(Opt(o, "minv", "0"), Opt(o, "maxv", "*"), "0", "*")
TypeStr(b, o) ==
  b \o (IF "id" \in DOMAIN o THEN ".ID" ELSE "")
    \o (CASE b = "ArrayOf" -> "(" \o RefText(o["vtype"]) \o ")"
          [] b = "MapOf" -> "(" \o RefText(o["ktype"]) \o ", " \o RefText(o["vtype"]) \o ")"
          [] OTHER -> "")
    \o (IF "combine" \in DOMAIN o THEN "(" \o CombineText[o["combine"]] \o ")" ELSE "")
    \o (IF "enum" \in DOMAIN o THEN "(Enum[" \o o["enum"] \o "])" ELSE "")
    \o (IF "pointer" \in DOMAIN o THEN "(Pointer[" \o o["pointer"] \o "])" ELSE "")
    \o (IF "pattern" \in DOMAIN o THEN "{pattern=\"" \o o["pattern"] \o "\"}" ELSE "")
    \o RangeText(b, o)
    \o (IF "format" \in DOMAIN o THEN " /" \o o["format"] ELSE "")
    \o (IF "unique" \in DOMAIN o THEN " unique" ELSE "") \o (IF "set" \in DOMAIN o THEN " set" ELSE "")
    \o (IF "unordered" \in DOMAIN o THEN " unordered" ELSE "") \o (IF "sequence" \in DOMAIN o THEN " sequence" ELSE "")
    \o (IF "extend" \in DOMAIN o THEN " extend" ELSE "")
MultText(lo, hi) == IF lo = "1" /\ hi = "1" THEN "1" ELSE lo \o ".." \o (IF hi = "0" \/ IsNeg(hi) THEN "*" ELSE hi)
\* and back: "n" is n..n, "lo..hi", "lo..*"; nothing is 1
MultOpts(m) == LET p == FindFrom(m, ".", 1)
                   lo == IF m = "" THEN "1" ELSE IF p = 0 THEN m ELSE Upto(m, p - 1)
                   hi == IF m = "" THEN "1" ELSE IF p = 0 THEN m ELSE From(m, p + 2)
               IN <<"[" \o lo, "]" \o (IF hi = "*" THEN "0" ELSE hi)>>

(* ---- cells of a field or item: <<name, type, multiplicity, description>> ---- *)
LabelType(r) == LET o == ParseOpts(r[3]) IN r[2] = "Array" \/ "id" \in DOMAIN o \/ "combine" \in DOMAIN o
Cells(r, f) ==
  LET lab == LabelType(r)
      enum == r[2] = "Enumerated"
      o == IF enum THEN NoOpts ELSE ParseOpts(f[4])
      to == OnlyOpts(o, TypeOptNames)
      tag == IF "tagid" \in DOMAIN o
             THEN "(TagId[" \o (LET k == CHOOSE k \in 1..Len(r[5]) : r[5][k][1] = o["tagid"] IN r[5][k][2]) \o "])" ELSE ""
      \* the tag comes right after the type name
      ts == IF enum THEN "" ELSE IF tag = "" THEN TypeStr(f[3], to) ELSE f[3] \o tag \o From(TypeStr(f[3], to), Len(f[3]) + 1)
  IN << (IF lab THEN "" ELSE f[2]) \o (IF "dir" \in DOMAIN o THEN "/" ELSE ""),
        IF "key" \in DOMAIN o THEN "Key(" \o ts \o ")" ELSE IF "link" \in DOMAIN o THEN "Link(" \o ts \o ")" ELSE ts,
        IF enum THEN "" ELSE MultText(Opt(o, "minc", "1"), Opt(o, "maxc", "1")),
        (IF lab THEN f[2] \o ":: " ELSE "") \o f[Len(f)] >>

(* ---- options as dictionaries ---- *)
OptValue(n, x) == CASE n \in Flags -> <<"bool", TRUE>> [] n \in Ints -> IntV(x) [] n \in {"minf", "maxf"} -> <<"flt", NumText(x)>> [] OTHER -> StrV(x)
OptDict(ol, names) == LET o == OnlyOpts(ParseOpts(ol), names) IN <<"dict", {<<StrV(n), OptValue(n, o[n])>> : n \in DOMAIN o}>>

(* ---- comments ---- *)
Trunc(s, n) == IF Len(s) <= n THEN s ELSE IF n > 1 THEN Upto(s, n - 2) \o ".." ELSE Upto(s, n)
StripField(f, n) == [f EXCEPT ![Len(f)] = Trunc(f[Len(f)], n)]
StripRow(r, n) == [r EXCEPT ![4] = Trunc(r[4], n), ![5] = [i \in 1..Len(r[5]) |-> StripField(r[5][i], n)]]
StripRows(rs, n) == [i \in 1..Len(rs) |-> TLCEval(StripRow(rs[i], n))]
=============================================================================
