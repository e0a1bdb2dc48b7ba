------------------------------- MODULE JDict --------------------------------
(* Nested and flat dictionaries, and definitions as objects with columns.     *)
EXTENDS JForm

----------------------------------------------------------------------------
(* ---- dictionaries; values as in JCodec after Norm ---- *)
PathTo(path, k, sep) == IF path = "" THEN k ELSE path \o sep \o k
\* a key "namespace:name" counts as its name
Bare(k) == LET ps == Split(k, ":") IN IF Len(ps) > 1 THEN ps[2] ELSE k
\* the parts of a text between occurrences of a separator of one or more characters
RECURSIVE FindText(_, _, _)
FindText(s, sep, i) == IF i + Len(sep) > Len(s) + 1 THEN 0 ELSE IF SubSeq(s, i, i + Len(sep) - 1) = sep THEN i ELSE FindText(s, sep, i + 1)
RECURSIVE Parts(_, _)
Parts(s, sep) == LET p == FindText(s, sep, 1) IN IF p = 0 THEN <<s>> ELSE <<Upto(s, p - 1)>> \o Parts(From(s, p + Len(sep)), sep)
\* followed by the separator, the text ends where the separator begins
Whole1(k, sep) == Parts(k \o sep, sep) = <<k, "">>
\* the leaves of a value with their paths
RECURSIVE Leaves(_, _, _)
Leaves(v, path, sep) ==
  CASE IsDict(v) -> UNION {Leaves(p[2], PathTo(path, Bare(p[1][2]), sep), sep) : p \in v[2]}
    [] IsList(v) -> UNION {Leaves(v[2][i], PathTo(path, NatText(i - 1), sep), sep) : i \in 1..Len(v[2])}
    [] OTHER -> {<<StrV(path), v>>}
KeyTexts(v) == {p[1][2] : p \in v[2]}
\* d with the entries of e, which win
Over(d, e) == {p \in d : \A q \in e : q[1] # p[1]} \cup e
Flattened(v, path, fc, sep) == <<"dict", Over(fc[2], Leaves(v, path, sep))>>
\* the dictionary of a set of paths (sequences of keys) with values
RECURSIVE Grow(_)
Grow(S) == <<"dict", {LET sub == {p \in S : p[1][1] = k}
                      IN <<StrV(k), IF \E p \in sub : Len(p[1]) = 1 THEN (CHOOSE p \in sub : Len(p[1]) = 1)[2] ELSE Grow({<<Tail(p[1]), p[2]>> : p \in sub})>>
                      : k \in {p[1][1] : p \in S}}>>
PathsOf(f, sep) == {<<Parts(p[1][2], sep), p[2]>> : p \in f[2]}
IsPre(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
\* no path goes through the end of another
Apart(S) == \A p, q \in S : p[1] # q[1] => ~ IsPre(p[1], q[1])
Nested(f, sep) == Grow(PathsOf(f, sep))
\* dictionaries with the keys 0, 1, .. as lists
RECURSIVE Listed(_)
Listed(v) == IF ~ IsDict(v) THEN v
             ELSE LET w == {<<p[1], Listed(p[2])>> : p \in v[2]}
                      n == Cardinality(w)
                  IN IF KeyTexts(v) = {NatText(i - 1) : i \in 1..n} THEN <<"list", [i \in 1..n |-> (CHOOSE p \in w : p[1][2] = NatText(i - 1))[2]]>>
                     ELSE <<"dict", w>>
RECURSIVE Merged(_)
Merged(ds) == IF ds = <<>> THEN <<"dict", {}>> ELSE <<"dict", Over(Merged(SubSeq(ds, 1, Len(ds) - 1))[2], ds[Len(ds)][2])>>

\* values without empty parts, whose keys are texts with different names that do not contain the separator or nothing
RECURSIVE Plain(_, _)
Plain(v, sep) == CASE IsDict(v) -> v[2] # {} /\ (\A p \in v[2] : IsStr(p[1]) /\ Bare(p[1][2]) # "" /\ Whole1(p[1][2], sep) /\ Whole1(Bare(p[1][2]), sep) /\ Plain(p[2], sep))
                                   /\ Cardinality({Bare(p[1][2]) : p \in v[2]}) = Cardinality(v[2])
                   [] IsList(v) -> Len(v[2]) > 0 /\ \A i \in 1..Len(v[2]) : Whole1(NatText(i - 1), sep) /\ Plain(v[2][i], sep)
                   [] OTHER -> TRUE
RECURSIVE NoNamespace(_)
NoNamespace(v) == CASE IsDict(v) -> \A p \in v[2] : Bare(p[1][2]) = p[1][2] /\ NoNamespace(p[2])
                    [] IsList(v) -> \A i \in 1..Len(v[2]) : NoNamespace(v[2][i])
                    [] OTHER -> TRUE
\* no dictionary looks like a list
RECURSIVE Unlike(_)
Unlike(v) == CASE IsDict(v) -> KeyTexts(v) # {NatText(i - 1) : i \in 1..Cardinality(v[2])} /\ \A p \in v[2] : Unlike(p[2])
                 [] IsList(v) -> \A i \in 1..Len(v[2]) : Unlike(v[2][i])
                 [] OTHER -> TRUE
IsTree(v) == IsDict(v) \/ IsList(v)
\* there and back again
RoundTrip(v, sep) == Listed(Nested(Flattened(v, "", <<"dict", {}>>, sep), sep)) = v
RECURSIVE NoEmpty(_)
NoEmpty(v) == IF IsDict(v) THEN v[2] # {} /\ \A p \in v[2] : IsStr(p[1]) /\ NoEmpty(p[2]) ELSE TRUE

----------------------------------------------------------------------------
(* ---- definition objects: columns with names, positions and defaults ---- *)
EmptyList == <<"list", <<>>>>
Columns == [type |-> <<"TypeName", "BaseType", "TypeOptions", "TypeDesc", "Fields">>,
            field |-> <<"FieldID", "FieldName", "FieldType", "FieldOptions", "FieldDesc">>,
            item |-> <<"ItemID", "ItemValue", "ItemDesc">>]
Defaults == [type |-> <<StrV("DefinitionName"), StrV("DefinitionType"), EmptyList, StrV(""), EmptyList>>,
             field |-> << <<"int", "0">>, StrV("FieldName"), StrV("FieldType"), EmptyList, StrV("")>>,
             item |-> << <<"int", "0">>, StrV(""), StrV("")>>]
NewObject(cls, args) == [i \in 1..Len(Columns[cls]) |-> IF i <= Len(args) THEN args[i] ELSE Defaults[cls][i]]
\* a column is named, or counted from the front (0, 1, ..) or the back (-1, -2, ..); 0 if there is none
ColAt(cls, k) == LET n == Len(Columns[cls])
                 IN IF k[1] = "i" THEN (IF k[2] \in 0..(n - 1) THEN k[2] + 1 ELSE IF k[2] \in (0 - n)..(-1) THEN n + k[2] + 1 ELSE 0)
                    ELSE IF \E i \in 1..n : Columns[cls][i] = k[2] THEN CHOOSE i \in 1..n : Columns[cls][i] = k[2] ELSE 0
Bound(n, b) == IF b < 0 THEN Max2(0, n + b) ELSE Min2(n, b)
\* columns from a up to before b, either may be open
SliceOf(cols, k) == LET n == Len(cols)
                        a == IF k[2] = "" THEN 0 ELSE Bound(n, ParseInt(k[2]))
                        b == IF k[3] = "" THEN n ELSE Bound(n, ParseInt(k[3]))
                    IN SubSeq(cols, a + 1, b)
=============================================================================
