------------------------------- MODULE JDeps --------------------------------
(* References between definitions: dependency lists, what is undefined or    *)
(* unreferenced, ordering, and the closure of a package over its imports.    *)
EXTENDS JForm

(* ---- references ---- *)
RefName(x) == IF IsDerivedRef(x) THEN From(x, 2) ELSE x
OptRefs(ol) ==
  LET o == ParseOpts(ol)
  IN ({RefName(o[n]) : n \in DOMAIN o \cap {"vtype", "ktype"}} \ CoreTypes) \cup {o[n] : n \in DOMAIN o \cap {"enum", "pointer"}}
FieldRefs(f) == ({f[3]} \ CoreTypes) \cup OptRefs(f[4])
\* reference sources of a row: its options, then its fields in order
Sources(r) == <<OptRefs(r[3])>> \o (IF r[2] \in FieldedTypes THEN [i \in 1..Len(r[5]) |-> FieldRefs(r[5][i])] ELSE <<>>)
RowRefs(r) == LET s == Sources(r) IN UNION {s[i] : i \in 1..Len(s)}
Rank(r, x) == LET s == Sources(r) IN CHOOSE i \in 1..Len(s) : x \in s[i] /\ \A j \in 1..(i - 1) : x \notin s[j]
First(d, x) == CHOOSE i \in 1..Len(d) : d[i] = x /\ \A j \in 1..(i - 1) : d[j] # x
\* d lists the references of r, in the order of the schema
DepsOf(r, d) ==
  /\ {d[i] : i \in 1..Len(d)} = RowRefs(r)
  /\ \A x, y \in RowRefs(r) : Rank(r, x) < Rank(r, y) => First(d, x) < First(d, y)

Defined(rs) == {rs[i][1] : i \in 1..Len(rs)}
Referenced(rs) == UNION {RowRefs(rs[i]) : i \in 1..Len(rs)}
Undefined(rs, roots) == (Referenced(rs) \cup roots) \ Defined(rs)
Unreferenced(rs, roots) == Defined(rs) \ (Referenced(rs) \cup roots)

(* ---- order: depth first from the roots, references in their order ---- *)
Listed(s) == {s[i] : i \in 1..Len(s)}
RefsIn(deps, x) == LET k == {i \in 1..Len(deps) : deps[i][1] = x} IN IF k = {} THEN <<>> ELSE deps[CHOOSE i \in k : TRUE][2]
RECURSIVE Walk(_, _, _)
Walk(deps, out, x) == IF x \in Listed(out) THEN out ELSE FoldLeft(LAMBDA o, y : Walk(deps, o, y), Append(out, x), RefsIn(deps, x))
Topo(deps, roots) == IF roots = <<>> THEN [i \in 1..Len(deps) |-> deps[i][1]] ELSE FoldLeft(LAMBDA o, y : Walk(deps, o, y), <<>>, roots)
\* what the order guarantees
RECURSIVE Reach(_, _)
Reach(deps, S) == LET T == S \cup UNION {Listed(RefsIn(deps, x)) : x \in S} IN IF T = S THEN S ELSE Reach(deps, T)
TopoOk(deps, roots) ==
  LET out == Topo(deps, roots)
  IN roots # <<>> => /\ Listed(out) = Reach(deps, Listed(roots))
                     /\ \A i, j \in 1..Len(out) : i # j => out[i] # out[j]
                     /\ \A i \in 1..Len(out) : out[i] \in Listed(roots) \/ \E j \in 1..(i - 1) : out[i] \in Listed(RefsIn(deps, out[j]))

(* ---- packages ---- *)
\* a package: [pkg |-> uri, ns |-> <<<<id, uri>>, ...>>, rows |-> rows]
\* a definition: <<uri, name>>; a reference that names no namespace of its package: <<"", text>>
NsUri(p, id) == LET k == {i \in 1..Len(p.ns) : p.ns[i][1] = id} IN IF k = {} THEN "" ELSE p.ns[CHOOSE i \in k : TRUE][2]
PosOf(x, c) == LET k == {i \in 1..Len(x) : Ch(x, i) = c} IN IF k = {} THEN 0 ELSE CHOOSE i \in k : \A j \in k : i <= j
HasNs(x) == PosOf(x, ":") > 0
NsPart(x) == Upto(x, PosOf(x, ":") - 1)
NamePart(x) == From(x, PosOf(x, ":") + 1)
Target(p, x) == IF HasNs(x) THEN <<NsUri(p, NsPart(x)), NamePart(x)>> ELSE <<p.pkg, x>>
PkgOf(ps, uri) == LET k == {i \in 1..Len(ps) : ps[i].pkg = uri} IN IF k = {} THEN 0 ELSE CHOOSE i \in k : TRUE
RowOf(p, n) == LET k == {i \in 1..Len(p.rows) : p.rows[i][1] = n} IN IF k = {} THEN 0 ELSE CHOOSE i \in k : TRUE
Next1(ps, d) ==
  LET k == PkgOf(ps, d[1])
      r == IF k = 0 THEN 0 ELSE RowOf(ps[k], d[2])
  IN IF r = 0 THEN {} ELSE {Target(ps[k], x) : x \in RowRefs(ps[k].rows[r])}
RECURSIVE Closure(_, _)
Closure(ps, S) == LET T == TLCEval(S \cup UNION {Next1(ps, d) : d \in S}) IN IF T = S THEN S ELSE Closure(ps, T)
Needed(ps, exports) == Closure(ps, {<<ps[1].pkg, x>> : x \in exports})
\* a definition that must exist but does not (a whole package may be missing)
Dangling(ps, D) == \E d \in D : d[1] = "" \/ (PkgOf(ps, d[1]) # 0 /\ RowOf(ps[PkgOf(ps, d[1])], d[2]) = 0)
BadNamespace(ps) == \E i \in 1..Len(ps) : \E j \in 1..Len(ps[i].rows) : \E x \in RowRefs(ps[i].rows[j]) : Target(ps[i], x)[1] = ""

\* nm: the qualifier of each package ("" for the root)
NewName(nm, d) == IF d[2] \in CoreTypes \/ nm[d[1]] = "" THEN d[2] ELSE d[2] \o "$" \o nm[d[1]]
NewRef(nm, p, x) == IF IsDerivedRef(x) THEN Ch(x, 1) \o NewName(nm, Target(p, From(x, 2))) ELSE IF x \in CoreTypes THEN x ELSE NewName(nm, Target(p, x))
NewOpts(nm, p, ol) == [i \in 1..Len(ol) |-> IF OptName(ol[i]) \in {"vtype", "ktype", "enum", "pointer"} THEN Ch(ol[i], 1) \o NewRef(nm, p, From(ol[i], 2)) ELSE ol[i]]
NewField(nm, p, f) == IF Len(f) < 5 THEN f ELSE <<f[1], f[2], NewRef(nm, p, f[3]), NewOpts(nm, p, f[4]), f[5]>>
NewRow(nm, p, r) == <<NewName(nm, <<p.pkg, r[1]>>), r[2], NewOpts(nm, p, r[3]), r[4], [i \in 1..Len(r[5]) |-> NewField(nm, p, r[5][i])]>>
Kept(nm, p, D) == LET rs == SelectSeq(p.rows, LAMBDA r : <<p.pkg, r[1]>> \in D) IN [i \in 1..Len(rs) |-> TLCEval(NewRow(nm, p, rs[i]))]

\* qualifiers a package may get: those the root uses for it, else those any package uses; ids in plain are not shown
Ids(p, uri) == {p.ns[i][1] : i \in {i \in 1..Len(p.ns) : p.ns[i][2] = uri}}
Qualifiers(ps, uri, plain) ==
  IF uri = ps[1].pkg THEN {""}
  ELSE LET a == Ids(ps[1], uri)
           b == UNION {Ids(ps[i], uri) : i \in 1..Len(ps)}
       IN {IF x \in plain THEN "" ELSE x : x \in IF a # {} THEN a ELSE b}
Namings(ps, D, plain) == LET us == {d[1] : d \in D} IN {nm \in [us -> UNION {Qualifiers(ps, u, plain) : u \in us}] : \A u \in us : nm[u] \in Qualifiers(ps, u, plain)}
Clash(nm, D) == \E d, e \in D : d # e /\ d[2] \notin CoreTypes /\ NewName(nm, d) = NewName(nm, e)
\* v: the definitions of the root (options compared by effect) in their order, then those of each other package, each in its order
IsMerge(ps, D, nm, v) ==
  LET part == TLCEval([i \in 1..Len(ps) |-> CanonRows(Kept(nm, ps[i], D))])
      n == FoldLeft(LAMBDA a, i : a + Len(part[i]), 0, [i \in 1..Len(ps) |-> i])
      u == TLCEval(CanonRows(v))
  IN /\ Len(u) = n
     /\ \A i \in 1..Len(ps) : SelectSeq(u, LAMBDA r : \E k \in 1..Len(part[i]) : part[i][k] = r) = part[i]
     /\ SubSeq(u, 1, Len(part[1])) = part[1]
=============================================================================
