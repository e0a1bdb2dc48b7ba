------------------------------ MODULE JFamily -------------------------------
(* A finite family of schemas and a finite universe of values, shared by the *)
(* exhaustive checks: every schema of the family against every value.        *)
EXTENDS JCodec, IOUtils

Big == IOEnv.BIG = "1"

\* ---- schemas ----
Ty(n, b, o, fs) == <<n, b, o, "", fs>>
F(i, n, t, o) == <<i, n, t, o, "">>
LI == Ty("I", "Integer", <<"{0", "}1">>, <<>>)
LS == Ty("S", "String", <<"{1", "}2">>, <<>>)
LE == Ty("E", "Enumerated", <<>>, << <<1, "a", "">>, <<2, "b", "">> >>)
LEI == Ty("EI", "Enumerated", <<"=">>, << <<1, "a", "">>, <<2, "b", "">> >>)
LB == Ty("B", "Binary", <<"/x", "}1">>, <<>>)
LD == Ty("D", "Integer", <<"/datetime-ms">>, <<>>)
LN == Ty("N", "Array", <<"/ipv4-net">>, << F(1, "a", "Binary", <<>>), F(2, "n", "Integer", <<>>) >>)
LR == Ty("R", "Record", <<>>, << F(1, "a", "I", <<>>), F(2, "b", "E", <<"[0">>) >>)
LC == Ty("C", "Choice", <<>>, << F(1, "a", "I", <<>>), F(2, "b", "S", <<>>) >>)
LCI == Ty("CI", "Choice", <<"=">>, << F(1, "a", "I", <<>>), F(2, "b", "S", <<>>) >>)
Leaves == <<LI, LS, LE, LEI, LB, LR, LC, LCI, LD, LN>>

Cards == {<<>>, <<"[0">>, <<"]2">>, <<"[0", "]2">>} \cup (IF Big THEN {<<"[0", "]0">>, <<"[2", "]3">>} ELSE {})
FTypes == {"I", "E"} \cup (IF Big THEN {"S", "R", "EI"} ELSE {"R"})
Sizes == {<<>>, <<"{1">>, <<"}1">>, <<"{1", "}1">>} \cup (IF Big THEN {<<"{2", "}3">>, <<"{1", "}2">>, <<"{2", "}2">>} ELSE {})
Structs == {Ty("T", b[1], b[2] \o sz, << F(b[3], "a", ft, c1), F(b[4], "b", "I", c2) >>) :
              b \in {<<"Record", <<>>, 1, 2>>, <<"Map", <<>>, 1, 2>>, <<"Map", <<"=">>, 2, 1>>, <<"Array", <<>>, 1, 2>>},
              ft \in FTypes, c1 \in Cards, c2 \in {<<>>, <<"[0">>}, sz \in Sizes}
Arrays == {Ty("T", "ArrayOf", <<"*" \o vt>> \o sz \o u, <<>>) :
              vt \in {"I", "E", "Boolean", "R", "C", "#R"}, sz \in Sizes, u \in {<<>>, <<"q">>, <<"s">>, <<"b">>}}
MapsOf == {Ty("T", "MapOf", <<"+" \o kt, "*" \o vt>> \o (IF kt \in {"E", "#R", "#C"} THEN <<>> ELSE sz), <<>>) :
              kt \in {"S", "I", "String", "Integer", "E", "#R", "#C"}, vt \in {"I", "E", "#C"}, sz \in Sizes}
Unions == {Ty("T", "Choice", <<"C" \o how>>, << F(1, "a", x, <<>>), F(2, "b", y, <<>>) >>) :
              how \in {"O", "A", "X"}, x \in {"I", "S", "E", "B", "D", "N"}, y \in {"Integer", "String", "C", "R"}}
TaggedChoices == {Ty("T", "Choice", o, << F(i, "a", x, <<>>), F(3 - i, "b", y, <<>>) >>) :
              o \in {<<>>, <<"=">>}, i \in {1, 2}, x \in {"I", "E", "R"}, y \in {"S", "T"}}
Tagged == {Ty("T", b, o, << F(1, "a", e[1], ce), F(2, "b", e[2], <<"&1">> \o cc) >>) :
              b \in {"Record", "Map", "Array"}, o \in {<<>>}, e \in {<<"E", "C">>, <<"EI", "CI">>}, ce \in {<<>>, <<"[0">>}, cc \in {<<>>, <<"[0">>}}
          \cup {Ty("T", "Map", <<"=">>, << F(1, "a", "E", <<>>), F(2, "b", "C", <<"&1", "[0">>) >>)}
Scalars == {Ty("T", "Integer", o, <<>>) : o \in {<<>>, <<"{1">>, <<"}1">>, <<"/i8">>, <<"/i16">>, <<"/i32">>, <<"/i64">>, <<"/i8", "{0">>, <<"/i16", "}127">>, <<"{-128", "}128">>, <<"{0">>, <<"}0">>, <<"{-1", "}-1">>}}
      \cup {Ty("T", "Number", o, <<>>) : o \in {<<>>, <<"y1.0">>, <<"z1.5">>, <<"y0.5", "z1.0">>, <<"y0.0">>, <<"z0.0">>, <<"y-1.0", "z0.5">>, <<"/f32">>}}
      \cup {Ty("T", "String", o, <<>>) : o \in {<<>>, <<"{0">>, <<"{1">>, <<"}1">>, <<"{2", "}3">>, <<"{3", "}3">>, <<"/date">>}}
      \cup {Ty("T", "Binary", o, <<>>) : o \in {<<>>, <<"{1">>, <<"}1">>, <<"/X">>, <<"/b", "{1", "}1">>}}
      \cup {Ty("T", "Boolean", <<>>, <<>>)}
      \cup {Ty("T", "Enumerated", o, <<>>) : o \in {<<"#R">>, <<"#R", "=">>, <<">R">>, <<"#C">>, <<"#E">>}}
Inline == {Ty("T", b, <<>>, << F(1, "a", x[1], x[2]) >>) : b \in {"Record", "Map", "Choice"},
              x \in {<<"Integer", <<"{1">>>>, <<"Integer", <<"}0">>>>, <<"Integer", <<"/i8">>>>, <<"Number", <<"y0.0", "z1.0">>>>, <<"String", <<"{1", "}2">>>>, <<"Boolean", <<>>>>, <<"Integer", <<>>>>, <<"String", <<>>>>, <<"String", <<"{2">>>>, <<"Enumerated", <<"#R">>>>, <<"Enumerated", <<"#R", "=">>>>,
                     <<"ArrayOf", <<"*I", "q">>>>, <<"ArrayOf", <<"*E", "}1">>>>, <<"MapOf", <<"+S", "*I">>>>}}
     \cup {Ty("T", "Record", <<>>, << F(1, "a", "Integer", <<"{1", "]2">>) >>), Ty("T", "Record", <<>>, << F(1, "a", "I", <<"]3", "q">>) >>)}
Links == {Ty("T", "Record", <<>>, << F(1, "a", k[1], <<"K">> \o k[2]), F(2, "b", "T", <<"L", "[0">> \o c) >>) :
              k \in {<<"I", <<>>>>, <<"Integer", <<>>>>, <<"String", <<"}1">>>>, <<"E", <<>>>>}, c \in {<<>>, <<"]2">>}}
Confs == {[elt |-> 100, str |-> 255], [elt |-> 2, str |-> 1]}

Roots == Scalars \cup Structs \cup Arrays \cup MapsOf \cup Unions \cup TaggedChoices \cup Tagged \cup Inline \cup Links
MkSchema(root, cf) == [types |-> Leaves \o <<root>>,
                       info |-> [package |-> "http://x", config |-> ("$MaxElements" :> cf.elt) @@ ("$MaxString" :> cf.str)]]
ConfOf(r) == IF r[2] \in {"ArrayOf", "MapOf", "String"} \/ (r[2] = "Record" /\ Len(r[5]) = 1) THEN Confs ELSE {[elt |-> 100, str |-> 255]}

\* ---- values ----
IV(n) == IntV(NatText(n))
Atoms == {Null, <<"bool", TRUE>>, IV(0), IV(1), IV(2), IntV("-1"), IntV("100000000000000000000"), StrV("1970-01-01T00:00:00.001Z"), StrV("1.2.3.4/8"), <<"flt", "0.5">>, <<"flt", "1.0">>, StrV(""), StrV("a"), StrV("b"), StrV("abc"), StrV("1"), StrV("01"),
          StrV("2020-02-29"), StrV("AQ"), <<"bin", <<>>>>, <<"bin", <<1>>>>, <<"bin", <<255, 0>>>>, IV(128)}
Sharp == {IntV(x) : x \in {"127", "129", "-128", "-129", "32767", "32768", "-32768", "-32769", "2147483647", "2147483648", "-2147483648", "-2147483649",
          "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809"}}
         \cup {<<"flt", x>> : x \in {"1.5", "1.51", "0.0", "-0.5", "-1.0", "-1.25"}}
         \cup {<<"dict", {<<StrV("a"), x>>}>> : x \in {IntV("127"), IntV("-128"), IntV("-129"), <<"flt", "1.25">>, <<"flt", "-0.5">>}}
Few == {Null, IV(0), IV(2), StrV("a"), IV(1)}
L1(S) == {<<"list", <<>>>>} \cup {<<"list", <<x>>>> : x \in S} \cup {<<"list", <<x, y>>>> : x, y \in S}
L3(S) == {<<"list", <<x, y, z>>>> : x, y, z \in S}
Inner1 == Few \cup {<<"list", <<>>>>, <<"list", <<IV(0)>>>>, <<"list", <<IV(0), IV(1)>>>>, <<"list", <<IV(1), IV(1)>>>>, <<"list", <<StrV("a")>>>>,
                   <<"dict", {<<StrV("a"), IV(1)>>}>>, <<"dict", {<<IV(1), IV(1)>>}>>, <<"list", <<IV(1), IV(2)>>>>,
                   <<"dict", {<<StrV("a"), IV(1)>>, <<StrV("b"), StrV("b")>>}>>, <<"list", <<StrV("a"), StrV("b")>>>>, <<"dict", {<<IV(2), StrV("a")>>}>>, <<"bin", <<1, 2, 3, 4>>>>, <<"list", <<IV(1), StrV("b")>>>>}
Keys == {StrV("a"), StrV("b"), StrV("1"), IV(1), IV(2), StrV("zz"), StrV("c"), <<"bool", FALSE>>, <<"flt", "1.5">>, <<"bin", <<49>>>>, <<"null">>, StrV("-1"), StrV("1.0")}
D1(S) == {<<"dict", {}>>} \cup {<<"dict", {<<k, x>>}>> : k \in Keys, x \in S}
D2(S) == {<<"dict", {<<p[1], x>>, <<p[2], y>>}>> : p \in {<<StrV("a"), StrV("b")>>, <<IV(1), IV(2)>>, <<StrV("1"), StrV("2")>>, <<StrV("a"), StrV("zz")>>, <<StrV("a"), IV(1)>>, <<StrV("1"), IV(1)>>}, x \in S, y \in S}
D3 == {<<"dict", {<<StrV("a"), x>>, <<StrV("b"), y>>, <<StrV("c"), z>>}>> : x, y, z \in {IV(1), StrV("a")}}
UniverseSet == Atoms \cup Sharp \cup L1(Inner1) \cup L3({Null, IV(0), IV(1), StrV("a")}) \cup D1(Atoms \cup Inner1) \cup D2(IF Big THEN Inner1 ELSE {Null, IV(0), IV(1), StrV("a"), <<"list", <<IV(1)>>>>, <<"list", <<IV(1), IV(1)>>>>, StrV("b"), <<"dict", {<<StrV("a"), IV(1)>>}>>, <<"list", <<IV(1), StrV("b")>>>>}) \cup D3

\* what JSON can say of it
RECURSIVE IsJson(_)
IsJson(v) == CASE v[1] = "bin" -> FALSE
               [] v[1] = "list" -> \A i \in 1..Len(v[2]) : IsJson(v[2][i])
               [] v[1] = "dict" -> \A p \in v[2] : p[1][1] = "str" /\ IsJson(p[2])
               [] OTHER -> TRUE
JsonUniverse == {v \in UniverseSet : IsJson(v)}
=============================================================================
