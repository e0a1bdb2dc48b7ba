------------------------------- MODULE JCodec -------------------------------
(* What encode and decode must do with one value, for every type, in every   *)
(* mode.  Values are tagged:                                                 *)
(*   <<"null">> <<"bool",b>> <<"int",text>> <<"flt",text>> <<"str",s>>       *)
(*   <<"bin",bytes>> <<"list",seq>> <<"dict",set of <<key,value>>>>          *)
(* Results: OK(value), NO (the call must be refused), ANY (the library is    *)
(* free).  A mode is [rec |-> BOOLEAN, str |-> BOOLEAN].                     *)
EXTENDS JSchema

Null == <<"null">>
StrV(s) == <<"str", s>>
IntV(t) == <<"int", t>>
ABSENT == <<"absent">>

\* recorded values hold dictionaries as sequences of pairs
RECURSIVE Norm(_)
Norm(v) == CASE v[1] = "list" -> <<"list", TLCEval([i \in 1..Len(v[2]) |-> Norm(v[2][i])])>>
             [] v[1] = "dict" -> <<"dict", TLCEval({<<Norm(v[2][i][1]), Norm(v[2][i][2])>> : i \in 1..Len(v[2])})>>
             [] OTHER -> v

\* combine results of independent parts: refused if any part is
Worst(S) == IF NO \in S THEN NO ELSE IF ANY \in S THEN ANY ELSE OK(Null)
WorstSeq(rs) == Worst({IF IsOk(rs[i]) THEN OK(Null) ELSE rs[i] : i \in 1..Len(rs)})
Then(w, v) == IF IsOk(w) THEN OK(v) ELSE w

\* ---- scalar constraints ----
SizeOk(T, n) == n >= T.mn /\ (T.mx < 0 \/ n <= T.mx)
IntRangeOk(T, n) == (("minv" \in DOMAIN T.o) => CmpInt(n, T.o["minv"]) >= 0) /\ (("maxv" \in DOMAIN T.o) => CmpInt(n, T.o["maxv"]) <= 0)
NumRangeOk(T, x) == (("minf" \in DOMAIN T.o) => CmpDec(x, T.o["minf"]) >= 0) /\ (("maxf" \in DOMAIN T.o) => CmpDec(x, T.o["maxf"]) <= 0)
PatternOk(env, T, s) == ("pattern" \in DOMAIN T.o) => ReMatch(env.re[T.o["pattern"]], s)
Fmt(T) == Opt(T.o, "format", "")

\* a String value, the same in both directions
StrRes(env, T, v) ==
  IF v[1] # "str" THEN NO
  ELSE IF ~ SizeOk(T, Len(v[2])) \/ ~ PatternOk(env, T, v[2]) THEN NO
  ELSE IF Fmt(T) = "" THEN OK(v)
  ELSE Then(StrFormat(Fmt(T), v[2]), v)
IntRes(T, v) ==
  IF v[1] # "int" THEN NO
  ELSE IF ~ IntRangeOk(T, v[2]) \/ ~ IntFormatOk(Fmt(T), v[2]) THEN NO ELSE OK(v)
NumRes(T, v) == IF v[1] \notin {"int", "flt"} THEN NO ELSE IF ~ NumRangeOk(T, v[2]) THEN NO ELSE OK(v)

\* ---- uniqueness of array elements ----
\* Python's = identifies True, 1 and 1.0: with such a mixture the library is free
RECURSIVE Tags(_)
Tags(v) == CASE v[1] = "list" -> {"list"} \cup UNION {Tags(v[2][i]) : i \in 1..Len(v[2])}
             [] v[1] = "dict" -> {"dict"} \cup UNION {Tags(p[1]) \cup Tags(p[2]) : p \in v[2]}
             [] OTHER -> {v[1]}
MixedNumbers(vs) == Cardinality(UNION {Tags(vs[i]) : i \in 1..Len(vs)} \cap {"bool", "int", "flt"}) > 1
UniqueRes(vs) == IF Cardinality(SeqRange(vs)) < Len(vs) THEN NO ELSE IF MixedNumbers(vs) THEN ANY ELSE OK(Null)
IsUnique(T) == "unique" \in DOMAIN T.o \/ "set" \in DOMAIN T.o

\* ---- identifiers on the wire ----
ById(m, T) == ~ m.str \/ T.id                                  \* ids rather than names
WireKey(m, T, f) == IF ById(m, T) THEN IntV(f.i) ELSE StrV(f.n)
ApiTag(T, f) == IF T.id THEN IntV(f.i) ELSE StrV(f.n)            \* key of a Choice value
\* a key of a JSON object, read as an integer id
IdKey(k) == CASE k[1] = "int" -> OK(k)
              [] k[1] = "str" -> IF IsIntText(k[2]) THEN OK(IntV(k[2]))
                                 ELSE IF \E i \in 1..Len(k[2]) : Ch(k[2], i) \in DigitSet THEN ANY ELSE NO
              [] k[1] = "bool" \/ (k[1] = "flt" /\ FracPart(k[2]) = "") -> ANY      \* equal to an integer
              [] OTHER -> NO
DictKeys(v) == {p[1] : p \in v[2]}
DictGet(v, k) == (CHOOSE p \in v[2] : p[1] = k)[2]
At(l, k) == IF k \in 1..Len(l) THEN l[k] ELSE Null
RECURSIVE StripNulls(_)
StripNulls(l) == IF Len(l) > 0 /\ l[Len(l)] = Null THEN StripNulls(SubSeq(l, 1, Len(l) - 1)) ELSE l
Populated(l) == Cardinality({i \in 1..Len(l) : l[i] # Null})
FldNo(T, id) == CHOOSE i \in 1..Len(T.f) : T.f[i].i = id

\* ---- untagged unions ----
\* res[i] = result of alternative i
UnionRes(how, res) ==
  LET n == Len(res)
      oks == {i \in 1..n : IsOk(res[i])}
      anys == {i \in 1..n : res[i] = ANY}
      first == CHOOSE i \in oks : \A j \in oks : i <= j
  IN CASE how = "O" -> IF oks = {} THEN (IF anys = {} THEN NO ELSE ANY)
                       ELSE IF \E i \in anys : i < first THEN ANY ELSE res[first]
       [] how = "A" -> IF \E i \in 1..n : res[i] = NO THEN NO ELSE IF anys # {} THEN ANY ELSE res[n]
       [] how = "X" -> IF Cardinality(oks) > 1 THEN NO
                       ELSE IF anys # {} THEN ANY
                       ELSE IF oks = {} THEN NO ELSE res[first]

\* ---- multipart array formats: one string for a two-component API value ----
ArrayFormats == {"ipv4-net", "ipv6-net", "tag-uuid"}
NetLen(fmt) == IF fmt = "ipv6-net" THEN 16 ELSE 4
MultiEnc(fmt, l) ==
  IF Len(l) # 2 THEN NO
  ELSE IF fmt = "tag-uuid"
       THEN IF l[1][1] = "str" /\ l[2][1] = "bin" /\ Len(l[2][2]) = 16
            THEN LET u == UuidEnc(l[2][2]) IN IF IsOk(u) THEN OK(StrV(l[1][2] \o "-" \o u[2])) ELSE NO
            ELSE NO
       ELSE IF l[1][1] = "bin" /\ l[2][1] = "int" /\ Len(l[1][2]) = NetLen(fmt)
               /\ CmpInt(l[2][2], "0") >= 0 /\ CmpInt(l[2][2], IF fmt = "ipv6-net" THEN "128" ELSE "32") <= 0
            THEN OK(StrV(NetEnc(l[1][2], ParseInt(l[2][2]), fmt = "ipv6-net")))
            ELSE NO
MultiDec(fmt, v) ==       \* the API value
  IF v[1] # "str" THEN NO
  ELSE IF fmt = "tag-uuid"
       THEN LET p == Len(v[2]) - 36            \* the tag may contain hyphens too
                u == UuidDec(From(v[2], p + 1))
            IN IF p < 1 \/ Ch(v[2], Max2(p, 1)) # "-" THEN NO ELSE IF IsOk(u) THEN OK(<<"list", <<StrV(Upto(v[2], p - 1)), <<"bin", u[2]>> >> >>) ELSE u
       ELSE LET r == NetDec(v[2], fmt = "ipv6-net")
            IN IF IsOk(r) THEN OK(<<"list", << <<"bin", r[2][1]>>, IntV(r[2][2]) >> >>) ELSE r

----------------------------------------------------------------------------
RECURSIVE Enc(_, _, _, _)
RECURSIVE Dec(_, _, _, _)

(* ----- encode: API value -> serialized value ----- *)
EncChoice(env, m, T, v) ==
  IF "combine" \in DOMAIN T.o
  THEN UnionRes(T.o["combine"], TLCEval([i \in 1..Len(T.f) |-> Enc(env, m, T.f[i].ty, v)]))
  ELSE IF v[1] # "dict" \/ Cardinality(v[2]) # 1 THEN NO
  ELSE LET p == CHOOSE q \in v[2] : TRUE
           is == {i \in 1..Len(T.f) : ApiTag(T, T.f[i]) = p[1]}
       IN IF is = {} THEN (IF p[1][1] \in {"bool", "flt"} /\ T.id THEN ANY ELSE NO)
          ELSE LET f == T.f[CHOOSE i \in is : TRUE]
                   r == TLCEval(Enc(env, m, f.ty, p[2]))
               IN IF IsOk(r) THEN OK(<<"dict", {<<WireKey(m, T, f), r[2]>>}>>) ELSE r

\* a field whose type is selected by another field: `tag` is that field's value
EncTagged(env, m, f, tag, v) ==
  LET r == TLCEval(Enc(env, m, f.ty, <<"dict", {<<tag, v>>}>>))
  IN IF IsOk(r) THEN OK((CHOOSE p \in r[2][2] : TRUE)[2]) ELSE r
DecTagged(env, m, f, tag, v) ==
  LET r == TLCEval(Dec(env, m, f.ty, <<"dict", {<<tag, v>>}>>))
  IN IF IsOk(r) THEN OK((CHOOSE p \in r[2][2] : TRUE)[2]) ELSE r

AsList(m, T) == T.b = "Record" /\ ~ m.rec
EncMapRec(env, m, T, v) ==
  IF v[1] # "dict" THEN NO
  ELSE IF ~ SizeOk(T, Cardinality(v[2])) THEN NO
  ELSE
  LET keys == DictKeys(v)
      has(f) == StrV(f.n) \in keys
      res == TLCEval([i \in 1..Len(T.f) |->
               LET f == T.f[i]
               IN IF ~ has(f) THEN (IF f.opt THEN OK(ABSENT) ELSE NO)
                  ELSE IF f.tag # ""
                  THEN LET g == T.f[FldNo(T, f.tag)]
                       IN EncTagged(env, m, f, IF has(g) THEN DictGet(v, StrV(g.n)) ELSE Null, DictGet(v, StrV(f.n)))
                  ELSE Enc(env, m, f.ty, DictGet(v, StrV(f.n)))])
      w == WorstSeq(res)
  IN IF keys \ {StrV(T.f[i].n) : i \in 1..Len(T.f)} # {} THEN NO
     ELSE IF ~ IsOk(w) THEN w
     ELSE IF AsList(m, T)
     THEN OK(<<"list", StripNulls([i \in 1..Len(T.f) |-> IF res[i][2] = ABSENT THEN Null ELSE res[i][2]])>>)
     ELSE OK(<<"dict", {<<WireKey(m, T, T.f[i]), res[i][2]>> : i \in {j \in 1..Len(T.f) : res[j][2] # ABSENT}}>>)

EncArray(env, m, T, v) ==
  IF v[1] # "list" THEN NO
  ELSE IF Len(v[2]) > Len(T.f) \/ ~ SizeOk(T, Populated(v[2])) THEN NO
  ELSE
  LET l == v[2]
      res == TLCEval([i \in 1..Len(T.f) |->
               LET f == T.f[i]
               IN IF At(l, i) = Null THEN (IF f.opt THEN OK(Null) ELSE NO)
                  ELSE IF f.tag # "" THEN EncTagged(env, m, f, At(l, FldNo(T, f.tag)), l[i])
                  ELSE Enc(env, m, f.ty, l[i])])
      w == WorstSeq(res)
  IN IF ~ IsOk(w) THEN w
     ELSE IF Fmt(T) \in ArrayFormats THEN MultiEnc(Fmt(T), l)
     ELSE OK(<<"list", StripNulls([i \in 1..Len(T.f) |-> res[i][2]])>>)

EncArrayOf(env, m, T, v) ==
  IF v[1] # "list" \/ ~ SizeOk(T, Len(v[2])) THEN NO
  ELSE LET res == TLCEval([i \in 1..Len(v[2]) |-> Enc(env, m, T.v, v[2][i])])
           u == IF IsUnique(T) THEN UniqueRes(v[2]) ELSE OK(Null)
           w == Worst({u, WorstSeq(res)})
       IN IF IsOk(w) THEN OK(<<"list", [i \in 1..Len(res) |-> res[i][2]]>>) ELSE w

EncMapOf(env, m, T, v) ==
  IF v[1] # "dict" \/ ~ SizeOk(T, Cardinality(v[2])) THEN NO
  ELSE LET R(p) == <<Enc(env, m, T.k, p[1]), Enc(env, m, T.v, p[2])>>
           res == TLCEval({R(p) : p \in v[2]})
           W(r) == WorstSeq(r)
           w == Worst({W(r) : r \in res})
           out == {<<r[1][2], r[2][2]>> : r \in res}
       IN IF ~ IsOk(w) THEN w
          ELSE IF Cardinality({q[1] : q \in out}) < Cardinality(v[2]) THEN ANY   \* two keys with one spelling
          ELSE OK(<<"dict", out>>)

Enc(env, m, ty, v) ==
  LET T == Deref(env, ty)
  IN CASE T.b = "Boolean" -> IF v[1] = "bool" THEN OK(v) ELSE NO
       [] T.b = "Integer" -> LET r == IntRes(T, v)
                             IN IF IsOk(r) /\ Fmt(T) = "datetime-ms"
                                THEN LET d == DateMsEnc(v[2]) IN IF IsOk(d) THEN OK(StrV(d[2])) ELSE d
                                ELSE r
       [] T.b = "Number" -> NumRes(T, v)
       [] T.b = "String" -> StrRes(env, T, v)
       [] T.b = "Binary" -> IF v[1] # "bin" \/ ~ SizeOk(T, Len(v[2])) THEN NO
                            ELSE LET r == BinEnc(Fmt(T), v[2]) IN IF IsOk(r) THEN OK(StrV(r[2])) ELSE r
       [] T.b = "Enumerated" ->
            LET is == {i \in 1..Len(T.it) : v = (IF T.id THEN IntV(T.it[i][1]) ELSE StrV(T.it[i][2]))}
            IN IF is = {} THEN NO
               ELSE LET x == T.it[CHOOSE i \in is : TRUE] IN OK(IF ById(m, T) THEN IntV(x[1]) ELSE StrV(x[2]))
       [] T.b = "Choice" -> EncChoice(env, m, T, v)
       [] T.b \in {"Map", "Record"} -> EncMapRec(env, m, T, v)
       [] T.b = "Array" -> EncArray(env, m, T, v)
       [] T.b = "ArrayOf" -> EncArrayOf(env, m, T, v)
       [] T.b = "MapOf" -> EncMapOf(env, m, T, v)

(* ----- decode: serialized value -> API value ----- *)
DecChoice(env, m, T, v) ==
  IF "combine" \in DOMAIN T.o
  THEN UnionRes(T.o["combine"], TLCEval([i \in 1..Len(T.f) |-> Dec(env, m, T.f[i].ty, v)]))
  ELSE IF v[1] # "dict" \/ Cardinality(v[2]) # 1 THEN NO
  ELSE LET p == CHOOSE q \in v[2] : TRUE
           k == IF ById(m, T) THEN IdKey(p[1]) ELSE OK(p[1])
           is == IF IsOk(k) THEN {i \in 1..Len(T.f) : WireKey(m, T, T.f[i]) = k[2]} ELSE {}
       IN IF ~ IsOk(k) THEN k
          ELSE IF is = {} THEN NO
          ELSE LET f == T.f[CHOOSE i \in is : TRUE]
                   r == TLCEval(Dec(env, m, f.ty, p[2]))
               IN IF IsOk(r) THEN OK(<<"dict", {<<ApiTag(T, f), r[2]>>}>>) ELSE r

\* fields found on the wire (Null when absent), as API dictionary
DecFields(env, m, T, wire, tagval(_)) ==
  LET res == TLCEval([i \in 1..Len(T.f) |->
               LET f == T.f[i]
               IN IF wire[i] = Null THEN (IF f.opt THEN OK(ABSENT) ELSE NO)
                  ELSE IF f.tag # "" THEN DecTagged(env, m, f, tagval(f), wire[i])
                  ELSE Dec(env, m, f.ty, wire[i])])
      w == WorstSeq(res)
  IN IF ~ IsOk(w) THEN w
     ELSE OK(<<"dict", {<<StrV(T.f[i].n), res[i][2]>> : i \in {j \in 1..Len(T.f) : res[j][2] # ABSENT}}>>)

DecList(env, m, T, v) ==                                    \* concise Record
  IF v[1] # "list" THEN NO
  ELSE LET l == v[2]
           wire == TLCEval([i \in 1..Len(T.f) |-> At(l, i)])
       IN IF Len(l) > Len(T.f) \/ ~ SizeOk(T, Populated(l)) THEN NO
          ELSE DecFields(env, m, T, wire, LAMBDA f : At(l, FldNo(T, f.tag)))

DecDict(env, m, T, v) ==                                    \* Map, verbose Record
  IF v[1] # "dict" THEN NO
  ELSE
  LET rd(k) == IF ById(m, T) THEN IdKey(k) ELSE OK(k)
      prs == TLCEval({<<rd(p[1]), p[2]>> : p \in v[2]})
      w == Worst({IF IsOk(p[1]) THEN OK(Null) ELSE p[1] : p \in prs})
      keys == {p[1][2] : p \in prs}
      legal == {WireKey(m, T, T.f[i]) : i \in 1..Len(T.f)}
      get(f) == LET k == WireKey(m, T, f)
                IN IF k \in keys THEN (CHOOSE p \in prs : p[1][2] = k)[2] ELSE Null
      wire == TLCEval([i \in 1..Len(T.f) |-> get(T.f[i])])
      hasnull == \E p \in v[2] : p[2] = Null
      r == DecFields(env, m, T, wire, LAMBDA f : get(T.f[FldNo(T, f.tag)]))
  IN IF T.f = <<>> THEN (IF v[2] = {} /\ SizeOk(T, 0) THEN OK(v) ELSE IF T.mn > 0 THEN NO ELSE ANY)
     ELSE IF ~ IsOk(w) THEN w
     ELSE IF Cardinality(keys) < Cardinality(v[2]) THEN ANY          \* 1 and "1" both present
     ELSE IF keys \ legal # {} THEN NO
     ELSE IF hasnull THEN (IF r = NO THEN NO ELSE ANY)                \* explicit null for an optional field: free
     ELSE IF ~ SizeOk(T, Cardinality(v[2])) THEN NO
     ELSE r

DecArray(env, m, T, v) ==
  IF Fmt(T) \in ArrayFormats
  THEN LET d == TLCEval(MultiDec(Fmt(T), v))
       IN IF ~ IsOk(d) THEN d
          ELSE LET e == EncArray(env, m, [T EXCEPT !.o = NoOpts], d[2]) IN Then(e, d[2])
  ELSE IF v[1] # "list" THEN NO
  ELSE IF Len(v[2]) > Len(T.f) \/ ~ SizeOk(T, Populated(v[2])) THEN NO
  ELSE
  LET l == v[2]
      res == TLCEval([i \in 1..Len(T.f) |->
               LET f == T.f[i]
               IN IF At(l, i) = Null THEN (IF f.opt THEN OK(Null) ELSE NO)
                  ELSE IF f.tag # "" THEN DecTagged(env, m, f, At(l, FldNo(T, f.tag)), l[i])
                  ELSE Dec(env, m, f.ty, l[i])])
      w == WorstSeq(res)
  IN IF ~ IsOk(w) THEN w ELSE OK(<<"list", StripNulls([i \in 1..Len(T.f) |-> res[i][2]])>>)

DecArrayOf(env, m, T, v) ==
  IF v[1] # "list" \/ ~ SizeOk(T, Len(v[2])) THEN NO
  ELSE LET res == TLCEval([i \in 1..Len(v[2]) |-> Dec(env, m, T.v, v[2][i])])
           u == IF IsUnique(T) THEN UniqueRes(v[2]) ELSE OK(Null)
           w == Worst({u, WorstSeq(res)})
           out == [i \in 1..Len(res) |-> res[i][2]]
       IN IF ~ IsOk(w) THEN w
          ELSE IF IsUnique(T) /\ Cardinality(SeqRange(out)) < Len(out) THEN ANY    \* spelled differently, same value
          ELSE OK(<<"list", out>>)

\* keys of JSON objects are strings: an integer key may be spelled so
DecKey(env, m, T, k) ==
  LET K == Deref(env, T.k)
      r == TLCEval(Dec(env, m, T.k, k))
      n == IdKey(k)
  IN IF IsOk(r) \/ r = ANY THEN r
     ELSE IF k[1] = "str" /\ K.b \in {"Integer", "Number", "Choice", "Enumerated"} /\ Fmt(K) # "datetime-ms"
          THEN IF n = NO THEN NO ELSE IF n = ANY THEN ANY ELSE Dec(env, m, T.k, n[2])
          ELSE NO

DecMapOf(env, m, T, v) ==
  IF v[1] # "dict" \/ ~ SizeOk(T, Cardinality(v[2])) THEN NO
  ELSE LET R(p) == <<DecKey(env, m, T, p[1]), Dec(env, m, T.v, p[2])>>
           res == TLCEval({R(p) : p \in v[2]})
           W(r) == WorstSeq(r)
           w == Worst({W(r) : r \in res})
           out == {<<r[1][2], r[2][2]>> : r \in res}
       IN IF ~ IsOk(w) THEN w
          ELSE IF Cardinality({q[1] : q \in out}) < Cardinality(v[2]) THEN ANY
          ELSE OK(<<"dict", out>>)

Dec(env, m, ty, v) ==
  LET T == Deref(env, ty)
  IN CASE T.b = "Boolean" -> IF v[1] = "bool" THEN OK(v) ELSE NO
       [] T.b = "Integer" -> IF Fmt(T) = "datetime-ms"
                             THEN IF v[1] # "str" THEN NO
                                  ELSE LET d == TLCEval(DateMsDec(v[2])) IN IF IsOk(d) THEN IntRes(T, IntV(d[2])) ELSE d
                             ELSE IntRes(T, v)
       [] T.b = "Number" -> NumRes(T, v)
       [] T.b = "String" -> StrRes(env, T, v)
       [] T.b = "Binary" -> IF v[1] # "str" THEN NO
                            ELSE LET r == TLCEval(BinDec(Fmt(T), v[2]))
                                 IN IF ~ IsOk(r) THEN r ELSE IF SizeOk(T, Len(r[2])) THEN OK(<<"bin", r[2]>>) ELSE NO
       [] T.b = "Enumerated" ->
            LET is == {i \in 1..Len(T.it) : v = (IF ById(m, T) THEN IntV(T.it[i][1]) ELSE StrV(T.it[i][2]))}
            IN IF is = {} THEN NO
               ELSE LET x == T.it[CHOOSE i \in is : TRUE] IN OK(IF T.id THEN IntV(x[1]) ELSE StrV(x[2]))
       [] T.b = "Choice" -> DecChoice(env, m, T, v)
       [] T.b = "Record" /\ ~ m.rec -> DecList(env, m, T, v)
       [] T.b \in {"Map", "Record"} -> DecDict(env, m, T, v)
       [] T.b = "Array" -> DecArray(env, m, T, v)
       [] T.b = "ArrayOf" -> DecArrayOf(env, m, T, v)
       [] T.b = "MapOf" -> DecMapOf(env, m, T, v)

EncodeRes(env, m, n, v) == IF ~ Known(env, n) THEN NO ELSE Enc(env, m, TyByName(env, n), v)
DecodeRes(env, m, n, v) == IF ~ Known(env, n) THEN NO ELSE Dec(env, m, TyByName(env, n), v)

(* A serialized value after it has been written as JSON text and read back:   *)
(* keys of objects are text.                                                  *)
RECURSIVE JsonText(_)
KeyText(k) == CASE k[1] \in {"int", "str"} -> StrV(k[2]) [] OTHER -> k
JsonText(v) == CASE v[1] = "list" -> <<"list", TLCEval([i \in 1..Len(v[2]) |-> JsonText(v[2][i])])>>
                 [] v[1] = "dict" -> <<"dict", TLCEval({<<KeyText(p[1]), JsonText(p[2])>> : p \in v[2]})>>
                 [] OTHER -> v
=============================================================================
