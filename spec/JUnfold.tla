------------------------------ MODULE JUnfold -------------------------------
(* Unfolding of extensions: what an unfolded schema U of a schema S must     *)
(* look like.  What it must mean is decided by comparing the environments    *)
(* of both (TraceUnfold).                                                    *)
EXTENDS JCheck

Extensions == {"AnonymousType", "Multiplicity", "DerivedEnum", "MapOfEnum", "Link"}
\* making inline types explicit includes making repeated ones explicit
Done(x) == IF "AnonymousType" \in x THEN x \cup {"Multiplicity"} ELSE x

IsEnumType(s, n) == HasType(s, n) /\ TBase(TypeNamed(s, n)) = "Enumerated"
\* which shortcuts a field or a type uses
FieldUses(f) ==
  LET o == ParseOpts(f[4])
  IN (IF DOMAIN o \cap TypeOptNames # {} THEN {"AnonymousType"} ELSE {})
     \cup (IF "maxc" \in DOMAIN o /\ o["maxc"] # "1" THEN {"Multiplicity"} ELSE {})
     \cup (IF DOMAIN o \cap {"key", "link"} # {} THEN {"Link"} ELSE {})
TypeUses(s, t) ==
  LET o == ParseOpts(TOpts(t))
      refs == {Opt(o, n, "") : n \in {"vtype", "ktype"}}
  IN (IF DOMAIN o \cap {"enum", "pointer"} # {} \/ (\E r \in refs : IsDerivedRef(r)) THEN {"DerivedEnum"} ELSE {})
     \cup (IF TBase(t) = "MapOf" /\ IsEnumType(s, Opt(o, "ktype", "")) THEN {"MapOfEnum"} ELSE {})
     \cup (IF TBase(t) \in FieldedTypes THEN UNION {FieldUses(TFlds(t)[i]) : i \in 1..Len(TFlds(t))} ELSE {})
\* a derived key enumeration becomes an explicit one, and then a map with listed keys
Affected(s, t, x) == (TypeUses(s, t) \cup IF "DerivedEnum" \in TypeUses(s, t) /\ TBase(t) = "MapOf" THEN {"MapOfEnum"} ELSE {}) \cap Done(x) # {}

Leftover(u, x) == UNION {TypeUses(u, u.types[i]) \cap Done(x) : i \in 1..Len(u.types)}
\* the original definition a of a type and its unfolded definition b
FieldKept(f, g) == /\ f[1] = g[1] /\ f[2] = g[2] /\ f[5] = g[5]
                   /\ LET o == ParseOpts(f[4]) p == ParseOpts(g[4])
                      IN /\ OnlyOpts(o, {"tagid", "dir"}) = OnlyOpts(p, {"tagid", "dir"})
                         /\ (Opt(o, "minc", "1") = "0") = (Opt(p, "minc", "1") = "0")
                         /\ (DOMAIN p) \subseteq (DOMAIN o)
RowKept(s, a, b, x) ==
  IF ~ Affected(s, a, x) THEN a = b
  ELSE /\ TDesc(a) = TDesc(b)
       /\ CASE TBase(a) = "MapOf" -> TBase(b) \in {"MapOf", "Map"}
            [] TBase(a) = "Enumerated" -> /\ TBase(b) = "Enumerated"
                                          /\ {TOpts(b)[i] : i \in 1..Len(TOpts(b))} \subseteq {TOpts(a)[i] : i \in 1..Len(TOpts(a))}
            [] TBase(a) \in FieldedTypes -> /\ TBase(b) = TBase(a) /\ TOpts(b) = TOpts(a) /\ Len(TFlds(a)) = Len(TFlds(b))
                                            /\ \A i \in 1..Len(TFlds(a)) :
                                                 LET f == TFlds(a)[i] g == TFlds(b)[i]
                                                 IN IF FieldUses(f) \cap Done(x) = {} THEN f = g ELSE FieldKept(f, g)
            [] OTHER -> TBase(b) = TBase(a)
Kept(s, u, x) == \A i \in 1..Len(s.types) :
                    LET a == s.types[i]
                    IN HasType(u, a[1]) /\ RowKept(s, a, TypeNamed(u, a[1]), x)
NamesDistinct(u) == Cardinality({u.types[i][1] : i \in 1..Len(u.types)}) = Len(u.types)
=============================================================================
