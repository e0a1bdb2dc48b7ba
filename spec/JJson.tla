------------------------------- MODULE JJson --------------------------------
(* The JSON Schema translation of a schema: the meaning of a JSON Schema     *)
(* (draft 7) document, evaluated on tagged JSON, and which messages it must  *)
(* accept, according to JCodec.                                              *)
(* A document is a tagged value (JCodec); res: patterns by text, as trees.   *)
EXTENDS JDeps

IsObj(d) == d[1] = "dict"
HasItem(d, k) == IsObj(d) /\ StrV(k) \in DictKeys(d)
Item(d, k) == DictGet(d, StrV(k))
ItemOr(d, k, x) == IF HasItem(d, k) THEN Item(d, k) ELSE x
Members(l) == {l[2][i] : i \in 1..Len(l[2])}
NumV(v) == v[1] \in {"int", "flt"}
Whole(v) == v[1] = "int" \/ (v[1] = "flt" /\ FracPart(Abs(v[2])) = "")
SizeVal(v) == ParseInt(IF v[1] = "int" THEN v[2] ELSE IntPart(v[2]))

\* equality of JSON values: numbers by value
RECURSIVE JEq(_, _)
JEq(a, b) == CASE NumV(a) /\ NumV(b) -> CmpDec(a[2], b[2]) = 0
               [] a[1] # b[1] -> FALSE
               [] a[1] = "list" -> Len(a[2]) = Len(b[2]) /\ \A i \in 1..Len(a[2]) : JEq(a[2][i], b[2][i])
               [] a[1] = "dict" -> /\ DictKeys(a) = DictKeys(b)
                                   /\ \A k \in DictKeys(a) : JEq(DictGet(a, k), DictGet(b, k))
               [] OTHER -> a = b

TypeIs(t, v) == CASE t = "null" -> v[1] = "null" [] t = "boolean" -> v[1] = "bool" [] t = "string" -> v[1] = "str"
                  [] t = "array" -> v[1] = "list" [] t = "object" -> v[1] = "dict" [] t = "number" -> NumV(v)
                  [] t = "integer" -> NumV(v) /\ Whole(v) [] OTHER -> FALSE
\* somewhere in the text
Search(r, s) == \E i \in 1..(Len(s) + 1) : ReEnds(r, s, i) # {}

\* the schema a fragment reference points to; <<"none">> if there is none
NONE == <<"none">>
RECURSIVE Follow(_, _, _)
Follow(d, path, i) == IF i > Len(path) THEN d ELSE IF HasItem(d, path[i]) THEN Follow(Item(d, path[i]), path, i + 1) ELSE NONE
Resolve(doc, ref) == IF Len(ref) > 0 /\ Ch(ref, 1) = "#" THEN (IF Len(ref) = 1 THEN doc ELSE IF Ch(ref, 2) = "/" THEN Follow(doc, Split(From(ref, 3), "/"), 1) ELSE NONE)
                     ELSE NONE

Known7 == {"type", "enum", "const", "multipleOf", "maximum", "exclusiveMaximum", "minimum", "exclusiveMinimum", "maxLength", "minLength", "pattern", "items",
           "additionalItems", "maxItems", "minItems", "uniqueItems", "contains", "maxProperties", "minProperties", "required", "properties",
           "patternProperties", "additionalProperties", "dependencies", "propertyNames", "if", "then", "else", "allOf", "anyOf", "oneOf", "not"}

(* A document is read into rules: each subschema is a sequence of rules that *)
(* all have to hold.  refs: the rules of every reference of the document.    *)
RECURSIVE RulesOf(_, _)
SubRules(res, l) == [i \in 1..Len(l[2]) |-> TLCEval(RulesOf(res, l[2][i]))]
PropRules(res, d) == [k \in {x[2] : x \in DictKeys(d)} |-> TLCEval(RulesOf(res, DictGet(d, StrV(k))))]
PatRules(res, d) == LET ks == SetToSeq({x[2] : x \in DictKeys(d)}) IN [i \in 1..Len(ks) |-> <<res[ks[i]], TLCEval(RulesOf(res, DictGet(d, StrV(ks[i]))))>>]
Nothing == <<"dict", {}>>
TRUTH == <<"bool", TRUE>>
RulesOf(res, s) ==
  LET One(k, arg(_)) == IF HasItem(s, k) THEN << <<k, TLCEval(arg(Item(s, k)))>> >> ELSE <<>>
      Same(x) == x
      Sub(k) == RulesOf(res, ItemOr(s, k, TRUTH))
  IN IF s[1] = "bool" THEN << <<"bool", s[2]>> >>
     ELSE IF s[1] # "dict" THEN << <<"bool", FALSE>> >>
     ELSE IF HasItem(s, "$ref") THEN << <<"$ref", Item(s, "$ref")[2]>> >>
     ELSE One("type", LAMBDA x : IF x[1] = "str" THEN {x[2]} ELSE {y[2] : y \in Members(x)})
          \o One("enum", Members) \o One("const", Same)
          \o One("minimum", LAMBDA x : x[2]) \o One("maximum", LAMBDA x : x[2]) \o One("exclusiveMinimum", LAMBDA x : x[2]) \o One("exclusiveMaximum", LAMBDA x : x[2])
          \o One("minLength", SizeVal) \o One("maxLength", SizeVal) \o One("pattern", LAMBDA x : res[x[2]])
          \o One("minItems", SizeVal) \o One("maxItems", SizeVal) \o One("contains", LAMBDA x : RulesOf(res, x))
          \o (IF ItemOr(s, "uniqueItems", <<"bool", FALSE>>) = TRUTH THEN << <<"uniqueItems">> >> ELSE <<>>)
          \o (IF ~ HasItem(s, "items") THEN <<>>
              ELSE IF Item(s, "items")[1] = "list" THEN << <<"tuple", TLCEval(SubRules(res, Item(s, "items"))), TLCEval(Sub("additionalItems"))>> >>
              ELSE << <<"items", TLCEval(Sub("items"))>> >>)
          \o One("minProperties", SizeVal) \o One("maxProperties", SizeVal) \o One("required", Members) \o One("propertyNames", LAMBDA x : RulesOf(res, x))
          \o (IF HasItem(s, "properties") \/ HasItem(s, "patternProperties") \/ HasItem(s, "additionalProperties")
              THEN << <<"properties", TLCEval(PropRules(res, ItemOr(s, "properties", Nothing))), TLCEval(PatRules(res, ItemOr(s, "patternProperties", Nothing))), TLCEval(Sub("additionalProperties"))>> >> ELSE <<>>)
          \o One("allOf", LAMBDA x : SubRules(res, x)) \o One("anyOf", LAMBDA x : SubRules(res, x)) \o One("oneOf", LAMBDA x : SubRules(res, x))
          \o One("not", LAMBDA x : RulesOf(res, x))
          \o (IF HasItem(s, "if") THEN << <<"if", TLCEval(Sub("if")), TLCEval(Sub("then")), TLCEval(Sub("else"))>> >> ELSE <<>>)

RECURSIVE Valid(_, _, _)
Rule(refs, r, v) ==
  LET k == r[1]
      among(ss) == {i \in 1..Len(ss) : Valid(refs, ss[i], v)}
  IN CASE k = "bool" -> r[2]
       [] k = "$ref" -> r[2] \in DOMAIN refs /\ Valid(refs, refs[r[2]], v)
       [] k = "type" -> \E x \in r[2] : TypeIs(x, v)
       [] k = "enum" -> \E x \in r[2] : JEq(x, v)
       [] k = "const" -> JEq(r[2], v)
       [] k = "minimum" -> NumV(v) => CmpDec(v[2], r[2]) >= 0
       [] k = "maximum" -> NumV(v) => CmpDec(v[2], r[2]) <= 0
       [] k = "exclusiveMinimum" -> NumV(v) => CmpDec(v[2], r[2]) > 0
       [] k = "exclusiveMaximum" -> NumV(v) => CmpDec(v[2], r[2]) < 0
       [] k = "minLength" -> v[1] = "str" => Len(v[2]) >= r[2]
       [] k = "maxLength" -> v[1] = "str" => Len(v[2]) <= r[2]
       [] k = "pattern" -> v[1] = "str" => Search(r[2], v[2])
       [] k = "minItems" -> v[1] = "list" => Len(v[2]) >= r[2]
       [] k = "maxItems" -> v[1] = "list" => Len(v[2]) <= r[2]
       [] k = "uniqueItems" -> v[1] = "list" => \A i, j \in 1..Len(v[2]) : i < j => ~ JEq(v[2][i], v[2][j])
       [] k = "contains" -> v[1] = "list" => \E i \in 1..Len(v[2]) : Valid(refs, r[2], v[2][i])
       [] k = "items" -> v[1] = "list" => \A i \in 1..Len(v[2]) : Valid(refs, r[2], v[2][i])
       [] k = "tuple" -> v[1] = "list" => \A i \in 1..Len(v[2]) : Valid(refs, IF i <= Len(r[2]) THEN r[2][i] ELSE r[3], v[2][i])
       [] k = "minProperties" -> v[1] = "dict" => Cardinality(v[2]) >= r[2]
       [] k = "maxProperties" -> v[1] = "dict" => Cardinality(v[2]) <= r[2]
       [] k = "required" -> v[1] = "dict" => \A x \in r[2] : \E p \in v[2] : p[1] = x
       [] k = "propertyNames" -> v[1] = "dict" => \A p \in v[2] : Valid(refs, r[2], p[1])
       [] k = "properties" -> v[1] = "dict" => \A p \in v[2] :
              LET own == p[1][2] \in DOMAIN r[2]
                  hits == {i \in 1..Len(r[3]) : Search(r[3][i][1], p[1][2])}
              IN /\ (own => Valid(refs, r[2][p[1][2]], p[2]))
                 /\ \A i \in hits : Valid(refs, r[3][i][2], p[2])
                 /\ (~ own /\ hits = {} => Valid(refs, r[4], p[2]))
       [] k = "allOf" -> Cardinality(among(r[2])) = Len(r[2])
       [] k = "anyOf" -> among(r[2]) # {}
       [] k = "oneOf" -> Cardinality(among(r[2])) = 1
       [] k = "not" -> ~ Valid(refs, r[2], v)
       [] k = "if" -> Valid(refs, IF Valid(refs, r[2], v) THEN r[3] ELSE r[4], v)
Valid(refs, rules, v) == \A i \in 1..Len(rules) : Rule(refs, rules[i], v)

\* every subschema of a schema that can be met when validating (definitions apart)
OneSub == {"additionalProperties", "additionalItems", "contains", "propertyNames", "not", "if", "then", "else"}
ManySub == {"allOf", "anyOf", "oneOf"}
MapSub == {"properties", "patternProperties", "definitions"}
Subs(s) == IF ~ IsObj(s) \/ HasItem(s, "$ref") THEN {}
           ELSE {Item(s, k) : k \in {x \in OneSub : HasItem(s, x)}}
                \cup UNION {Members(Item(s, k)) : k \in {x \in ManySub : HasItem(s, x)}}
                \cup UNION {{DictGet(Item(s, k), y) : y \in DictKeys(Item(s, k))} : k \in {x \in MapSub : HasItem(s, x)}}
                \cup (IF HasItem(s, "items") THEN (IF Item(s, "items")[1] = "list" THEN Members(Item(s, "items")) ELSE {Item(s, "items")}) ELSE {})
RECURSIVE AllSubs(_)
AllSubs(S) == LET T == TLCEval(S \cup UNION {Subs(s) : s \in S}) IN IF T = S THEN S ELSE AllSubs(T)
\* keywords this module does not give a meaning to
Unread(S) == UNION {IF IsObj(s) THEN {k \in {"multipleOf", "dependencies"} : HasItem(s, k)} ELSE {} : s \in S}
Refs(S) == {Item(s, "$ref")[2] : s \in {x \in S : IsObj(x) /\ HasItem(x, "$ref")}}
Dangling7(doc, S) == {r \in Refs(S) : Len(r) > 0 /\ Ch(r, 1) = "#" /\ Resolve(doc, r) = NONE}

(* ---- which types are translated so that messages can be compared ---- *)
RowNamed(rs, n) == rs[CHOOSE i \in 1..Len(rs) : rs[i][1] = n]
RECURSIVE Reachable(_, _)
Reachable(rs, N) == LET T == TLCEval(N \cup (UNION {RowRefs(RowNamed(rs, n)) : n \in N} \cap Defined(rs))) IN IF T = N THEN N ELSE Reachable(rs, T)
\* option sets of a row: its own, and those of its fields
OptSets(r) == <<[b |-> r[2], o |-> ParseOpts(r[3])]>>
              \o (IF r[2] \in FieldedTypes THEN [i \in 1..Len(r[5]) |-> [b |-> r[5][i][3], o |-> ParseOpts(r[5][i][4])]] ELSE <<>>)
AnyOpt(r, p(_)) == LET s == OptSets(r) IN \E i \in 1..Len(s) : p(s[i])
FmtOf(x) == Opt(x.o, "format", "")
\* a key type that is an enumeration
EnumKey(rs, k) == IsDerivedRef(k) \/ (k \in Defined(rs) /\ RowNamed(rs, k)[2] = "Enumerated")
\* limits that mean nothing to the codec
NotSound(rs, x) == x.b = "MapOf" /\ EnumKey(rs, x.o["ktype"]) /\ DOMAIN x.o \cap {"minv", "maxv"} # {}
\* what JSON Schema cannot express, or is translated to a weaker rule
NotExact(rs, x) == \/ x.b \in {"Array", "Binary"}
                   \/ Opt(x.o, "vtype", "") = "Binary"
                   \/ "tagid" \in DOMAIN x.o
                   \/ x.b = "MapOf" /\ x.o["ktype"] \in Defined(rs) /\ LET r == RowNamed(rs, x.o["ktype"]) IN r[2] = "Integer" /\ r[3] # <<>>
                   \/ FmtOf(x) \notin {"", "i8", "i16", "i32", "i64", "f16", "f32", "f64"}
Loose(res, x) == "pattern" \in DOMAIN x.o /\ (x.o["pattern"] \notin DOMAIN res \/ LET a == res[x.o["pattern"]] IN ~ (a[1] = "seq" /\ Len(a[2]) > 0 /\ a[2][1] = <<"bol">>))
BareText(rs, r) == r[2] \in FieldedTypes /\ \E i \in 1..Len(r[5]) :
  LET f == r[5][i] o == ParseOpts(f[4])
  IN \/ f[3] = "String" /\ DOMAIN OnlyOpts(o, TypeOptNames) \subseteq {"unique"}
     \/ "link" \in DOMAIN o /\ f[3] \in Defined(rs) /\ LET k == RowNamed(rs, f[3]) IN k[2] = "MapOf" /\ ParseOpts(k[3])["ktype"] = "String"
SoundRows(rs, N) == \A n \in N : ~ AnyOpt(RowNamed(rs, n), LAMBDA x : NotSound(rs, x))
ExactRows(rs, res, N) == \A n \in N : LET r == RowNamed(rs, n) IN ~ AnyOpt(r, LAMBDA x : NotExact(rs, x)) /\ ~ AnyOpt(r, LAMBDA x : Loose(res, x)) /\ ~ (r[2] = "Enumerated" /\ r[5] = <<>> /\ r[3] = <<>>)

RECURSIVE HasWhole(_)
HasWhole(v) == CASE v[1] = "flt" -> FracPart(Abs(v[2])) = ""
                 [] v[1] = "list" -> \E i \in 1..Len(v[2]) : HasWhole(v[2][i])
                 [] v[1] = "dict" -> \E p \in v[2] : HasWhole(p[2])
                 [] OTHER -> FALSE
RECURSIVE HasNull(_)
HasNull(v) == CASE v[1] = "null" -> TRUE
                [] v[1] = "list" -> \E i \in 1..Len(v[2]) : HasNull(v[2][i])
                [] v[1] = "dict" -> \E p \in v[2] : HasNull(p[2])
                [] OTHER -> FALSE
RECURSIVE LongText(_, _)
LongText(v, n) == CASE v[1] = "str" -> Len(v[2]) > n
                    [] v[1] = "list" -> \E i \in 1..Len(v[2]) : LongText(v[2][i], n)
                    [] v[1] = "dict" -> \E p \in v[2] : LongText(p[2], n)
                    [] OTHER -> FALSE
RECURSIVE HasNewline(_)
HasNewline(v) == CASE v[1] = "str" -> HasText(v[2], "\n")
                   [] v[1] = "list" -> \E i \in 1..Len(v[2]) : HasNewline(v[2][i])
                   [] v[1] = "dict" -> \E p \in v[2] : HasNewline(p[1]) \/ HasNewline(p[2])
                   [] OTHER -> FALSE

\* derived enumerations of types that are not there
NoSource(rs) == \E n \in Defined(rs) : AnyOpt(RowNamed(rs, n), LAMBDA x : \/ \E k \in DOMAIN x.o \cap {"enum", "pointer"} : x.o[k] \notin Defined(rs)
                                                                        \/ \E k \in DOMAIN x.o \cap {"ktype", "vtype"} : IsDerivedRef(x.o[k]) /\ From(x.o[k], 2) \notin Defined(rs))

(* ---- the rest of the document ---- *)
Spaces(n) == MapChars(n, LAMBDA c : IF c \in {"-", "_"} THEN " " ELSE c)
PropName(n) == MapChars(LowerText(n), LAMBDA c : IF c = "-" THEN "_" ELSE c)
Descr(s) == IF HasItem(s, "description") THEN Item(s, "description") ELSE StrV("")
\* text shown for the definition of a row (untagged unions show none)
TitledRow(doc, r) ==
  LET d == Follow(doc, <<"definitions", r[1]>>, 1)
  IN /\ d # NONE
     /\ HasItem(d, "title") /\ Item(d, "title") = StrV(Spaces(r[1]))
     /\ "combine" \in DOMAIN ParseOpts(r[3]) \/ Descr(d) = StrV(r[4])
\* descriptions of the properties of a structure
Property(doc, r, f) == Follow(doc, <<"definitions", r[1], "properties", f[2]>>, 1)
DescribedField(doc, r, f) == LET p == Property(doc, r, f) IN p = NONE \/ Descr(p) = StrV(f[5])
=============================================================================
