------------------------------ MODULE JSchema -------------------------------
(* Meaning of a JADN schema: from the list form of a schema (types are       *)
(* <<name, base, options, description [, fields]>>) to an environment of     *)
(* resolved types.  Field shortcuts (inline options, multiplicity, derived   *)
(* enumerations, MapOf with enumerated keys, key/link) are given their       *)
(* meaning directly here, not by rewriting the schema.                       *)
(*                                                                           *)
(* A type reference is <<"ref", name>>, <<"prim", base>> or <<"inl", T>>;    *)
(* T is a record (see MkT).                                                  *)
EXTENDS JFormats

TypeOptName == ("=" :> "id") @@ ("*" :> "vtype") @@ ("+" :> "ktype") @@ ("#" :> "enum") @@ (">" :> "pointer")
  @@ ("/" :> "format") @@ ("%" :> "pattern") @@ ("y" :> "minf") @@ ("z" :> "maxf") @@ ("{" :> "minv") @@ ("}" :> "maxv")
  @@ ("q" :> "unique") @@ ("s" :> "set") @@ ("b" :> "unordered") @@ ("o" :> "sequence") @@ ("C" :> "combine")
  @@ ("X" :> "extend") @@ ("!" :> "default")
FieldOptName == ("[" :> "minc") @@ ("]" :> "maxc") @@ ("&" :> "tagid") @@ ("<" :> "dir") @@ ("K" :> "key") @@ ("L" :> "link")
OptNames == TypeOptName @@ FieldOptName
TypeOptNames == {TypeOptName[c] : c \in DOMAIN TypeOptName}

PrimTypes == {"Binary", "Boolean", "Integer", "Number", "String"}
FieldedTypes == {"Choice", "Array", "Map", "Record"}
CoreTypes == PrimTypes \cup FieldedTypes \cup {"Enumerated", "ArrayOf", "MapOf"}
SizedTypes == {"Binary", "String", "Array", "ArrayOf", "Map", "MapOf", "Record"}

\* option list -> function from option name to its text
ParseOpts(ol) ==
  LET ks == {i \in 1..Len(ol) : Len(ol[i]) > 0 /\ Ch(ol[i], 1) \in DOMAIN OptNames}
      names == {OptNames[Ch(ol[i], 1)] : i \in ks}
  IN TLCEval([n \in names |-> From(ol[CHOOSE i \in ks : OptNames[Ch(ol[i], 1)] = n], 2)])
OnlyOpts(o, names) == [n \in (DOMAIN o) \cap names |-> o[n]]
Opt(o, n, dflt) == IF n \in DOMAIN o THEN o[n] ELSE dflt
NoOpts == [n \in {} |-> ""]

TName(t) == t[1]
TBase(t) == t[2]
TOpts(t) == t[3]
TDesc(t) == t[4]
TFlds(t) == IF Len(t) >= 5 THEN t[5] ELSE <<>>

Info(s) == IF "info" \in DOMAIN s THEN s.info ELSE <<>>
ConfVal(s, n, dflt) ==
  IF "info" \in DOMAIN s /\ "config" \in DOMAIN s.info /\ n \in DOMAIN s.info.config THEN s.info.config[n] ELSE dflt
Config(s) == [bin |-> ConfVal(s, "$MaxBinary", 255), str |-> ConfVal(s, "$MaxString", 255), elt |-> ConfVal(s, "$MaxElements", 100)]

HasType(s, n) == \E i \in 1..Len(s.types) : s.types[i][1] = n
TypeNamed(s, n) == s.types[CHOOSE i \in 1..Len(s.types) : s.types[i][1] = n]

\* ---- enumerations derived from a type's fields, and pointers into its collections ----
FieldItems(fs) == [i \in 1..Len(fs) |-> <<NatText(fs[i][1]), fs[i][2]>>]
EnumItems(s, n) == LET t == TypeNamed(s, n)
                   IN IF TBase(t) \in FieldedTypes \cup {"Enumerated"} THEN FieldItems(TFlds(t)) ELSE <<>>
RECURSIVE PtrPaths(_, _, _)
PtrPaths(s, n, base) ==
  LET t == TypeNamed(s, n)
      one(f) == IF "dir" \in DOMAIN ParseOpts(f[4])
                THEN IF HasType(s, f[3]) THEN PtrPaths(s, f[3], base \o f[2] \o "/") ELSE <<>>
                ELSE << <<base \o f[2], f[5]>> >>
  IN IF TBase(t) \in FieldedTypes
     THEN FoldLeft(LAMBDA a, f : a \o one(f), <<>>, TFlds(t)) ELSE <<>>
PtrItems(s, n) == LET p == TLCEval(PtrPaths(s, n, "")) IN [i \in 1..Len(p) |-> <<NatText(i), p[i][1]>>]

\* ---- resolved types ----
\* b base, o options, id "=" flag, f fields, it enumeration items, v/k value/key type, mn/mx size bounds (mx = -1: none)
T0(b) == [b |-> b, o |-> NoOpts, id |-> FALSE, f |-> <<>>, it |-> <<>>, v |-> <<>>, k |-> <<>>, mn |-> 0, mx |-> -1]
DefaultMax(c, b) == CASE b = "Binary" -> c.bin [] b = "String" -> c.str [] OTHER -> c.elt
MinOf(o) == ParseInt(Opt(o, "minv", "0"))
MaxOf(c, b, o) == LET x == ParseInt(Opt(o, "maxv", "0")) IN IF x = 0 THEN DefaultMax(c, b) ELSE x

EnumT(items, id) == [T0("Enumerated") EXCEPT !.it = items, !.id = id]
IsDerivedRef(n) == Len(n) > 0 /\ Ch(n, 1) \in {"#", ">"}
DerivedItems(s, n) == IF Ch(n, 1) = "#" THEN EnumItems(s, From(n, 2)) ELSE PtrItems(s, From(n, 2))
TyOf(s, n) == IF IsDerivedRef(n) THEN <<"inl", EnumT(DerivedItems(s, n), FALSE)>>
              ELSE IF n \in PrimTypes THEN <<"prim", n>> ELSE <<"ref", n>>

RECURSIVE MkT(_, _, _, _, _)
RECURSIVE MkF(_, _, _)
MkT(s, c, b, o, fs) ==
  LET kt == Opt(o, "ktype", "")
      sized == b \in SizedTypes
      t == [T0(b) EXCEPT !.o = o, !.id = "id" \in DOMAIN o,
              !.mn = IF sized THEN MinOf(o) ELSE 0, !.mx = IF sized THEN MaxOf(c, b, o) ELSE -1]
  IN CASE b = "Enumerated" ->
            [t EXCEPT !.it = IF "enum" \in DOMAIN o THEN EnumItems(s, o["enum"])
                             ELSE IF "pointer" \in DOMAIN o THEN PtrItems(s, o["pointer"]) ELSE FieldItems(fs)]
       [] b \in FieldedTypes -> [t EXCEPT !.f = [i \in 1..Len(fs) |-> MkF(s, c, fs[i])]]
       [] b = "ArrayOf" -> [t EXCEPT !.v = TyOf(s, o["vtype"])]
       [] b = "MapOf" ->
            IF IsDerivedRef(kt) \/ (HasType(s, kt) /\ TBase(TypeNamed(s, kt)) = "Enumerated")
            THEN \* a map with exactly the listed keys
              LET ty == TyOf(s, kt)
                  kk == IF ty[1] = "inl" THEN ty[2] ELSE LET u == TypeNamed(s, kt) IN MkT(s, c, "Enumerated", ParseOpts(TOpts(u)), TFlds(u))
                  its == kk.it
              IN [T0("Map") EXCEPT !.mx = c.elt,
                    !.f = [i \in 1..Len(its) |-> [i |-> its[i][1], n |-> its[i][2], opt |-> FALSE, tag |-> "", ty |-> TyOf(s, o["vtype"])]]]
            ELSE [t EXCEPT !.v = TyOf(s, o["vtype"]), !.k = TyOf(s, kt)]
       [] OTHER -> t
\* type of the primary key of type n
KeyTy(s, c, n) ==
  LET t == TypeNamed(s, n)
      ks == {i \in 1..Len(TFlds(t)) : "key" \in DOMAIN ParseOpts(TFlds(t)[i][4])}
      f == TFlds(t)[CHOOSE i \in ks : \A j \in ks : j <= i]
  IN IF TBase(t) = "MapOf" THEN TyOf(s, ParseOpts(TOpts(t))["ktype"])
     ELSE IF HasType(s, f[3]) THEN <<"ref", f[3]>>
     ELSE <<"inl", MkT(s, c, f[3], OnlyOpts(ParseOpts(f[4]), TypeOptNames), <<>>)>>
MkF(s, c, f) ==
  LET fo == ParseOpts(f[4])
      multi == "maxc" \in DOMAIN fo /\ fo["maxc"] # "1"
      topt == OnlyOpts(fo, IF multi THEN TypeOptNames \ {"unique"} ELSE TypeOptNames)
      elem == IF "link" \in DOMAIN fo THEN KeyTy(s, c, f[3])
              ELSE IF HasType(s, f[3]) THEN <<"ref", f[3]>>
              ELSE IF DOMAIN topt = {} /\ "key" \notin DOMAIN fo THEN <<"prim", f[3]>>
              ELSE <<"inl", MkT(s, c, f[3], topt, <<>>)>>
      minc == ParseInt(Opt(fo, "minc", "1"))
      maxc == ParseInt(Opt(fo, "maxc", "1"))
  IN [i |-> NatText(f[1]), n |-> f[2], opt |-> minc = 0, tag |-> Opt(fo, "tagid", ""),
      ty |-> IF ~ multi THEN elem
             ELSE <<"inl", [T0("ArrayOf") EXCEPT !.v = elem, !.mn = Max2(minc, 1), !.mx = IF maxc = 0 THEN c.elt ELSE maxc,
                              !.o = OnlyOpts(fo, {"unique"})]>>]

\* a pattern "$Name" stands for the text configured under that name
DefaultPattern == ("$TypeName" :> "^[$A-Z][-$A-Za-z0-9]{0,63}$") @@ ("$FieldName" :> "^[$a-z][_$A-Za-z0-9]{0,63}$")
               @@ ("$NSID" :> "^([A-Za-z][A-Za-z0-9]{0,7})?$")
PatAst(s, p) == s.pats[CHOOSE i \in 1..Len(s.pats) : s.pats[i][1] = p][2]
HasPat(s, p) == "pats" \in DOMAIN s /\ \E i \in 1..Len(s.pats) : s.pats[i][1] = p
Inner(r) == <<"seq", SubSeq(r[2], 2, Len(r[2]) - 1)>>           \* of an anchored pattern
Patterns(s, conf) ==
  LET own == IF "pats" \in DOMAIN s THEN {s.pats[i][1] : i \in 1..Len(s.pats)} ELSE {}
      named == {n \in DOMAIN DefaultPattern : HasPat(s, ConfVal(conf, n, DefaultPattern[n]))}
      cp(n) == PatAst(s, ConfVal(conf, n, DefaultPattern[n]))
      tr == IF {"$TypeName", "$NSID"} \subseteq named
            THEN "$TypeRef" :> <<"seq", << <<"bol">>, <<"rep", <<"seq", <<Inner(cp("$NSID")), <<"chr", ":">>>> >>, 0, 1>>, Inner(cp("$TypeName")), <<"eol">> >> >>
            ELSE NoOpts
  IN tr @@ [n \in named |-> cp(n)] @@ [p \in own |-> PatAst(s, p)]

\* environment: types by name, patterns (syntax trees by pattern text)
BuildEnv(s, conf) ==
  LET c == Config(conf)
  IN TLCEval([t |-> [n \in {s.types[i][1] : i \in 1..Len(s.types)} |->
                        LET d == TypeNamed(s, n)
                        IN TLCEval(IF n = "TypeRef" /\ TBase(d) = "String" /\ TOpts(d) = <<>>       \* a plain string of that name: ($NSID ":")? $TypeName
                                   THEN [T0("String") EXCEPT !.o = ("pattern" :> "$TypeRef")]
                                   ELSE MkT(s, c, TBase(d), ParseOpts(TOpts(d)), TFlds(d)))],
              re |-> Patterns(s, conf)])
Deref(env, ty) == CASE ty[1] = "ref" -> env.t[ty[2]] [] ty[1] = "prim" -> T0(ty[2]) [] OTHER -> ty[2]
Known(env, n) == n \in DOMAIN env.t \/ n \in PrimTypes
TyByName(env, n) == IF n \in DOMAIN env.t THEN <<"ref", n>> ELSE <<"prim", n>>
=============================================================================
