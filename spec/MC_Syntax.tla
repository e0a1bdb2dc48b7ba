------------------------------ MODULE MC_Syntax -----------------------------
(* Every way to write a type or a field: all combinations of options with    *)
(* values from small pools, kept when they are well-formed.  Written out for *)
(* the library to convert, document and transform.                           *)
EXTENDS JForm, Json, IOUtils

Absent == "~"
Sz == {Absent, "0", "1", "3", "12"}
Refs == {"R", "String", "ns:R", "$S", "#R", ">R"}
Pool(b, n) ==
  CASE n = "format" -> FormatsOf[b] \cup {Absent}
    [] n = "pattern" -> {Absent, "^a$", "^[a-z]{1,3}$", "x y"}
    [] n = "minv" -> IF b = "Integer" THEN {Absent, "-5", "0", "1", "3"} ELSE Sz
    [] n = "maxv" -> IF b = "Integer" THEN {Absent, "-5", "-1", "0", "7"} ELSE Sz
    [] n = "minf" -> {Absent, "-1.5", "0.0", "2", "0.25"}
    [] n = "maxf" -> {Absent, "-1.0", "0.0", "1.50", "2"}
    [] n = "vtype" -> Refs
    [] n = "ktype" -> {"S", "Integer", "ns:S", "#R", ">R"}
    [] n \in {"enum", "pointer"} -> {Absent, "R", "ns:R"}
    [] n = "combine" -> {Absent, "O", "A", "X"}
    [] OTHER -> {Absent, ""}
\* one value for each option
Rep(b, n) ==
  CASE n = "format" -> {Absent, CHOOSE x \in FormatsOf[b] : TRUE}
    [] n = "pattern" -> {Absent, "^a$"}
    [] n = "minv" -> {Absent, "1"} [] n = "maxv" -> {Absent, "3"}
    [] n = "minf" -> {Absent, "-1.5"} [] n = "maxf" -> {Absent, "2.0"}
    [] n = "vtype" -> {"R", "#R"} [] n = "ktype" -> {"S"}
    [] n = "enum" -> {Absent, "R"} [] n = "pointer" -> {Absent, "R"}
    [] OTHER -> {Absent, ""}

\* all functions that give each of the names (a sequence) a text from its pool
RECURSIVE Product(_, _)
Product(ns, pool) ==
  IF ns = <<>> THEN {NoOpts}
  ELSE LET rest == TLCEval(Product(Tail(ns), pool))
       IN UNION {IF x = Absent THEN rest ELSE {o @@ (Head(ns) :> x) : o \in rest} : x \in pool[Head(ns)]}
Combos(b, pool(_, _)) == {o \in Product(SetToSeq(Allowed[b]), [n \in Allowed[b] |-> pool(b, n)]) : TypeOptsV(b, o) = OK(Null)}

TypeDefs == UNION {{<<b, Ordered(o)>> : o \in Combos(b, Pool)} : b \in CoreTypes}

Cards == {<<x, y>> \in {Absent, "0", "1", "2"} \X {Absent, "0", "1", "2", "5"} : y = "0" \/ CmpInt(IF y = Absent THEN "1" ELSE y, IF x = Absent THEN "1" ELSE x) >= 0}
With(o, n, x) == IF x = Absent THEN o ELSE o @@ (n :> x)
Carded(o, c) == With(With(o, "minc", c[1]), "maxc", c[2])
Marks == {NoOpts, "key" :> "", "link" :> "", "tagid" :> "1"}
Simple == CoreTypes \ FieldedTypes
FieldDefs ==
  UNION {{<<b, Ordered(o)>> : o \in Combos(b, Pool)} : b \in Simple \ {"Enumerated"}}
  \cup UNION {{<<b, Ordered(Carded(o, c) @@ m)>> : o \in Combos(b, Rep), c \in Cards, m \in Marks} : b \in Simple}
  \cup {<<r, Ordered(Carded(u, c) @@ m)>> : r \in {"R", "ns:R", "$S"}, u \in {NoOpts, "unique" :> ""}, c \in Cards, m \in Marks \cup {"dir" :> ""}}
Item(f) == <<"list", <<IntV("1"), StrV("a"), StrV(f[1]), <<"list", [i \in 1..Len(f[2]) |-> StrV(f[2][i])]>>, StrV("")>>>>
LegalFields == {f \in FieldDefs : FieldRules({IntV("1")}, Item(f)[2]) = OK(Null)}

VARIABLES k, defs
Init == k = 1 /\ defs = TLCEval([types |-> SetToSeq(TypeDefs), fields |-> SetToSeq(LegalFields)])
N == Len(defs.types) + Len(defs.fields)
Next == k < N /\ k' = k + 1 /\ UNCHANGED defs
Spec == Init /\ [][Next]_<<k, defs>>
View == k
Emit == PrintT(IF k <= Len(defs.types) THEN "TYPE|" \o ToJson(defs.types[k]) ELSE "FIELD|" \o ToJson(defs.fields[k - Len(defs.types)]))
=============================================================================
