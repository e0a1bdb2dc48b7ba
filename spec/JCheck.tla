------------------------------- MODULE JCheck -------------------------------
(* Which schemas are well-formed.  The schema is a tagged value (it may be   *)
(* anything); the verdict is OK(the schema with omitted columns filled in),  *)
(* NO (must be refused) or ANY.                                              *)
EXTENDS JCodec

IsStr(v) == v[1] = "str"
IsList(v) == v[1] = "list"
IsDict(v) == v[1] = "dict"
HasKey(d, k) == \E p \in d[2] : p[1] = StrV(k)
Get(d, k) == DictGet(d, StrV(k))
KeysIn(d, names) == \A p \in d[2] : IsStr(p[1]) /\ p[1][2] \in names
AllV(S) == IF NO \in S THEN NO ELSE IF ANY \in S THEN ANY ELSE OK(Null)
AllSeq(n, f(_)) == AllV({f(i) : i \in 1..n})
Req(b) == IF b THEN OK(Null) ELSE NO

(* ---- configuration: limits and name patterns, themselves part of the schema ---- *)
\* pats: text of a pattern -> its syntax tree
DefType == "^[$A-Z][-$A-Za-z0-9]{0,63}$"
DefField == "^[$a-z][_$A-Za-z0-9]{0,63}$"
DefNsid == "^([A-Za-z][A-Za-z0-9]{0,7})?$"
Upper == CharSet(UpperAlpha)
Lower == CharSet(LowerAlpha)
DefTypeOk(s) == Len(s) \in 1..64 /\ Ch(s, 1) \in Upper \cup {"$"} /\ AllIn(s, AlnumSet \cup {"-", "$"})
DefFieldOk(s) == Len(s) \in 1..64 /\ Ch(s, 1) \in Lower \cup {"$"} /\ AllIn(s, AlnumSet \cup {"_", "$"})
DefNsidOk(s) == s = "" \/ (Len(s) \in 1..8 /\ Ch(s, 1) \in AlphaSet /\ AllIn(s, AlnumSet))
\* a regular expression ending in $ also matches before a final newline: left open
Nl(s, r) == IF Len(s) > 0 /\ Ch(s, Len(s)) = "\n" THEN (IF r THEN OK(Null) ELSE ANY) ELSE Req(r)
Named(c, which, s) ==
  LET t == c[which]
  IN CASE t = DefType -> Nl(s, DefTypeOk(s))
       [] t = DefField -> Nl(s, DefFieldOk(s))
       [] t = DefNsid -> Nl(s, DefNsidOk(s))
       [] t \in DOMAIN c.re -> Nl(s, ReMatch(c.re[t], s))
       [] OTHER -> ANY

ConfOfInfo(info, re) ==
  LET cf == IF IsDict(info) /\ HasKey(info, "config") /\ IsDict(Get(info, "config")) THEN Get(info, "config") ELSE <<"dict", {}>>
      num(k, d) == IF HasKey(cf, k) /\ Get(cf, k)[1] = "int" THEN ParseInt(Get(cf, k)[2]) ELSE d
      txt(k, d) == IF HasKey(cf, k) /\ IsStr(Get(cf, k)) THEN Get(cf, k)[2] ELSE d
  IN [str |-> num("$MaxString", 255), elt |-> num("$MaxElements", 100), type |-> txt("$TypeName", DefType), field |-> txt("$FieldName", DefField),
      nsid |-> txt("$NSID", DefNsid), re |-> re]

StrLen(c, v, mn, mx) == Req(IsStr(v) /\ Len(v[2]) >= mn /\ Len(v[2]) <= mx)
Text(c, v) == StrLen(c, v, 0, c.str)
Text1(c, v) == StrLen(c, v, 1, c.str)
Uri(c, v) == IF IsOk(Text(c, v)) THEN (LET r == StrFormat("uri", v[2]) IN IF IsOk(r) THEN OK(Null) ELSE r) ELSE NO
TypeNameV(c, v) == IF IsOk(Text(c, v)) THEN Named(c, "type", v[2]) ELSE NO
FieldNameV(c, v) == IF IsOk(Text(c, v)) THEN Named(c, "field", v[2]) ELSE NO
NsidV(c, v) == IF IsOk(Text(c, v)) THEN Named(c, "nsid", v[2]) ELSE NO
\* [nsid:]type
TypeRefV(c, v) ==
  IF ~ IsStr(v) THEN NO
  ELSE LET s == v[2]
           whole == Named(c, "type", s)
           parts == {AllV({Named(c, "nsid", Upto(s, i - 1)), Named(c, "type", From(s, i + 1))}) : i \in {k \in 1..Len(s) : Ch(s, k) = ":"}}
           all == parts \cup {whole}
       IN IF OK(Null) \in all THEN (IF Len(s) > c.str THEN ANY ELSE OK(Null)) ELSE IF ANY \in all THEN ANY ELSE NO
CountV(c, v, mn, mx) == Req(IsList(v) /\ Len(v[2]) >= mn /\ Len(v[2]) <= mx)

(* ---- information ---- *)
InfoStrs == {"version", "title", "description", "comment", "copyright", "license"}
NamesV(c, v) == IF IsOk(CountV(c, v, 1, c.elt)) THEN AllSeq(Len(v[2]), LAMBDA i : TypeNameV(c, v[2][i])) ELSE NO
NsV(c, v) ==
  CASE IsList(v) -> IF IsOk(CountV(c, v, 1, c.elt))
                    THEN AllSeq(Len(v[2]), LAMBDA i : IF IsList(v[2][i]) /\ Len(v[2][i][2]) = 2 /\ 2 <= c.elt
                                                      THEN AllV({NsidV(c, v[2][i][2][1]), Uri(c, v[2][i][2][2])}) ELSE NO)
                    ELSE NO
    [] IsDict(v) -> IF Cardinality(v[2]) \in 1..c.elt THEN AllV({AllV({NsidV(c, p[1]), Uri(c, p[2])}) : p \in v[2]}) ELSE NO
    [] OTHER -> NO
ConfV(c, v) ==
  IF ~ IsDict(v) \/ Cardinality(v[2]) \notin 1..c.elt THEN NO
  ELSE LET one(p) == IF ~ IsStr(p[1]) THEN NO
                     ELSE CASE p[1][2] \in {"$MaxBinary", "$MaxString", "$MaxElements"} -> Req(p[2][1] = "int" /\ CmpInt(p[2][2], "1") >= 0)
                            [] p[1][2] = "$Sys" -> StrLen(c, p[2], 1, 1)
                            [] p[1][2] \in {"$TypeName", "$FieldName", "$NSID"} -> StrLen(c, p[2], 1, 127)
                            [] OTHER -> NO
       IN AllV({one(p) : p \in v[2]})
InfoV(c, v) ==
  IF ~ IsDict(v) \/ Cardinality(v[2]) > c.elt THEN NO
  ELSE IF ~ HasKey(v, "package") THEN NO
  ELSE LET one(p) == IF ~ IsStr(p[1]) THEN NO
                     ELSE CASE p[1][2] = "package" -> Uri(c, p[2])
                            [] p[1][2] \in InfoStrs -> Text1(c, p[2])
                            [] p[1][2] \in {"exports", "roots"} -> NamesV(c, p[2])
                            [] p[1][2] = "namespaces" -> NsV(c, p[2])
                            [] p[1][2] = "config" -> ConfV(c, p[2])
                            [] OTHER -> NO
       IN AllV({one(p) : p \in v[2]})

(* ---- options ---- *)
Required == [b \in CoreTypes |-> CASE b = "ArrayOf" -> {"vtype"} [] b = "MapOf" -> {"vtype", "ktype"} [] OTHER -> {}]
Allowed == [b \in CoreTypes |->
  CASE b = "Binary" -> {"format", "minv", "maxv"}
    [] b = "Boolean" -> {}
    [] b = "Integer" -> {"format", "minv", "maxv"}
    [] b = "Number" -> {"format", "minf", "maxf"}
    [] b = "String" -> {"format", "pattern", "minv", "maxv"}
    [] b = "Enumerated" -> {"id", "enum", "pointer", "extend"}
    [] b = "Choice" -> {"id", "extend", "combine"}
    [] b = "Array" -> {"extend", "format", "minv", "maxv"}
    [] b = "ArrayOf" -> {"vtype", "minv", "maxv", "unique", "set", "unordered"}
    [] b = "Map" -> {"id", "extend", "minv", "maxv", "sequence"}
    [] b = "MapOf" -> {"ktype", "vtype", "minv", "maxv", "sequence"}
    [] b = "Record" -> {"extend", "minv", "maxv", "sequence"}]
FormatsOf == [b \in CoreTypes |->
  CASE b = "String" -> {"date-time", "date", "time", "duration", "idn-email", "idn-hostname", "ipv4", "ipv6", "uri", "uri-reference", "iri", "iri-reference",
                        "uri-template", "json-pointer", "relative-json-pointer", "regex", "email", "hostname"}
    [] b = "Binary" -> {"eui", "uuid", "ipv4-addr", "ipv6-addr", "b", "x", "X"}
    [] b = "Array" -> {"tag-uuid", "ipv4-net", "ipv6-net"}
    [] b = "Integer" -> {"i8", "i16", "i32", "i64", "datetime-ms"}
    [] b = "Number" -> {"f16", "f32", "f64"}
    [] OTHER -> {}]
Flags == {"id", "unique", "set", "unordered", "sequence", "extend", "dir", "key", "link"}
Ints == {"minv", "maxv", "minc", "maxc", "tagid"}
DecText(s) == LET a == Abs(s) p == FindFrom(a, ".", 1)
          IN IF p = 0 THEN IsDigits(a) ELSE (IsDigits(Upto(a, p - 1)) /\ IsDigits(From(a, p + 1)))
NumLike(s) == \E i \in 1..Len(s) : Ch(s, i) \in DigitSet
\* the text after the option character
OptText(n, x) == CASE n \in Ints -> IF IsIntText(x) THEN OK(Null) ELSE IF NumLike(x) /\ ~ (\E i \in 1..Len(x) : Ch(x, i) \in {".", "x", "e", ","}) THEN ANY ELSE NO
                   [] n \in {"minf", "maxf"} -> IF DecText(x) THEN OK(Null) ELSE IF NumLike(x) \/ LowerText(x) \in {"nan", "inf", "-inf", "infinity", "+inf"} THEN ANY ELSE NO
                   [] n \in Flags -> IF x = "" THEN OK(Null) ELSE ANY
                   [] n \in {"vtype", "ktype", "enum", "pointer", "pattern"} -> IF x = "" THEN ANY ELSE OK(Null)
                   [] n = "combine" -> IF x \in {"O", "A", "X"} THEN OK(Null) ELSE ANY
                   [] OTHER -> OK(Null)
OptName(o) == IF Len(o) > 0 /\ Ch(o, 1) \in DOMAIN OptNames THEN OptNames[Ch(o, 1)] ELSE "?"
OptList(v) == TLCEval([i \in 1..Len(v[2]) |-> v[2][i][2]])
\* syntax of an option list: known options (of `names`), readable values, no contradictory repetition
OptsV(ol, names) ==
  LET n(i) == OptName(ol[i])
      one(i) == IF n(i) \notin names THEN NO ELSE OptText(n(i), From(ol[i], 2))
      rep == \E i, j \in 1..Len(ol) : i < j /\ n(i) = n(j) /\ ol[i] # ol[j]
  IN AllV({one(i) : i \in 1..Len(ol)} \cup IF rep THEN {ANY} ELSE {OK(Null)})
\* the options a base type may and must have; o: name -> text
TypeOptsV(b, o) ==
  LET has(n) == n \in DOMAIN o
      sized(n) == has(n) /\ b \in SizedTypes /\ IsNeg(o[n])
  IN AllV({ Req(Required[b] \subseteq DOMAIN o), Req(DOMAIN o \subseteq Allowed[b]),
            Req(~ (has("minv") /\ has("maxv") /\ CmpInt(o["maxv"], o["minv"]) < 0)),
            Req(~ (has("minf") /\ has("maxf") /\ CmpDec(o["maxf"], o["minf"]) < 0)),
            Req(~ (has("pattern") /\ (has("minv") \/ has("maxv")))),
            Req(~ has("format") \/ o["format"] = "" \/ o["format"] \in FormatsOf[b]),
            IF has("format") /\ o["format"] = "" THEN ANY ELSE OK(Null),
            Req(~ (has("enum") /\ has("pointer"))),
            IF sized("minv") \/ sized("maxv") THEN ANY ELSE OK(Null) })

(* ---- types and fields ---- *)
OptionsColumn(c, v) ==
  IF ~ IsList(v) \/ Len(v[2]) > 10 THEN NO ELSE AllSeq(Len(v[2]), LAMBDA i : Text1(c, v[2][i]))
DescColumn(c, v) == StrLen(c, v, 0, 2048)
IdV(v) == Req(v[1] = "int" /\ ~ IsNeg(v[2]))
ItemV(c, v) == IF ~ IsList(v) \/ Len(v[2]) # 3 \/ 3 > c.elt THEN NO ELSE AllV({IdV(v[2][1]), Req(IsStr(v[2][2])), DescColumn(c, v[2][3])})
FieldColumns(c, v) ==
  IF ~ IsList(v) \/ Len(v[2]) # 5 \/ 5 > c.elt THEN NO
  ELSE AllV({IdV(v[2][1]), FieldNameV(c, v[2][2]), TypeRefV(c, v[2][3]), OptionsColumn(c, v[2][4]), DescColumn(c, v[2][5])})
Distinct(n, f(_)) == Req(Cardinality({f(i) : i \in 1..n}) = n)

FieldRules(ids, f) ==        \* f: columns already valid
  LET ty == f[3][2]
      ol == OptList(f[4])
      syn == OptsV(ol, {OptNames[k] : k \in DOMAIN OptNames})
      o == ParseOpts(ol)
      to == OnlyOpts(o, TypeOptNames)
      minc == Opt(o, "minc", "1")
      maxc == Opt(o, "maxc", "1")
  IN IF syn = NO THEN NO
     ELSE IF syn = ANY THEN ANY
     ELSE AllV({ Req(ty \notin FieldedTypes),
                 Req(~ IsNeg(minc) /\ ~ IsNeg(maxc) /\ ~ (maxc # "0" /\ CmpInt(maxc, minc) < 0)),
                 Req("tagid" \in DOMAIN o => IntV(o["tagid"]) \in ids),
                 IF ty \in CoreTypes THEN TypeOptsV(ty, to)
                 ELSE Req(DOMAIN to \subseteq (IF maxc # "1" THEN {"unique"} ELSE {})),
                 Req("dir" \in DOMAIN o => ty \notin CoreTypes) })
TypeV(c, t) ==               \* t: a full row
  LET name == t[1]
      b == t[2]
      flds == t[5]
      cols == AllV({TypeNameV(c, name), Req(IsStr(b) /\ b[2] \in CoreTypes), OptionsColumn(c, t[3]), DescColumn(c, t[4]), Req(IsList(flds))})
  IN IF cols = NO THEN NO
     ELSE
     LET bt == b[2]
         n == Len(flds[2])
         fcols == IF bt = "Enumerated" THEN (IF n > c.elt THEN NO ELSE AllSeq(n, LAMBDA i : ItemV(c, flds[2][i])))
                  ELSE IF bt \in FieldedTypes THEN (IF n > c.elt THEN NO ELSE AllSeq(n, LAMBDA i : FieldColumns(c, flds[2][i])))
                  ELSE Req(n = 0)
         ol == OptList(t[3])
         syn == OptsV(ol, TypeOptNames)
     IN IF fcols = NO \/ syn = NO \/ 5 > c.elt THEN NO
        ELSE IF syn = ANY THEN ANY
        ELSE LET o == ParseOpts(ol)
                 f(i) == flds[2][i][2]
                 ids == {f(i)[1] : i \in 1..n}
             IN AllV({ cols, fcols, Req(name[2] \notin CoreTypes), TypeOptsV(bt, o),
                       Req(~ (("enum" \in DOMAIN o \/ "pointer" \in DOMAIN o) /\ n > 0)),
                       Distinct(n, LAMBDA i : f(i)[1]), Distinct(n, LAMBDA i : f(i)[2]),
                       Req(bt \in {"Array", "Record"} => \A i \in 1..n : f(i)[1] = IntV(NatText(i))),
                       IF bt \in FieldedTypes THEN AllSeq(n, LAMBDA i : FieldRules(ids, f(i))) ELSE OK(Null) })

\* omitted columns
FillRow(v) == LET l == v[2] n == Len(l)
              IN <<"list", l \o SubSeq(<<Null, Null, <<"list", <<>>>>, StrV(""), <<"list", <<>>>>>>, n + 1, 5)>>

CheckRes(S, ps) ==
  LET re == TLCEval([x \in {ps[i][1] : i \in 1..Len(ps)} |-> ps[CHOOSE i \in 1..Len(ps) : ps[i][1] = x][2]])
  IN IF ~ IsDict(S) \/ ~ KeysIn(S, {"info", "types"}) \/ ~ HasKey(S, "types") THEN NO
     ELSE
     LET ts == Get(S, "types")
         c == ConfOfInfo(IF HasKey(S, "info") THEN Get(S, "info") ELSE Null, re)
         info == IF HasKey(S, "info") THEN InfoV(c, Get(S, "info")) ELSE OK(Null)
     IN IF ts = <<"dict", {}>> THEN ANY        \* an empty object in place of an empty list
        ELSE IF ~ IsList(ts) \/ Len(ts[2]) > 1000 \/ info = NO \/ Cardinality(S[2]) > c.elt THEN NO
        ELSE IF \E i \in 1..Len(ts[2]) : ~ IsList(ts[2][i]) \/ Len(ts[2][i][2]) \notin 2..5 THEN NO
        ELSE
        LET rows == TLCEval([i \in 1..Len(ts[2]) |-> FillRow(ts[2][i])])
            v == AllV({info, AllSeq(Len(rows), LAMBDA i : TypeV(c, rows[i][2])), Distinct(Len(rows), LAMBDA i : rows[i][2][1])})
        IN IF ~ IsOk(v) THEN v
           ELSE OK(<<"dict", {IF p[1] = StrV("types") THEN <<p[1], <<"list", rows>>>> ELSE p : p \in S[2]}>>)
=============================================================================
