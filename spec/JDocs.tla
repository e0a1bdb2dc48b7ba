------------------------------- MODULE JDocs --------------------------------
(* Renditions of a schema for readers: entity-relationship diagrams and       *)
(* Markdown tables.  The rendered text is read into an abstract document by   *)
(* the harness; here is the document a schema must give.                      *)
EXTENDS JForm

\* blanks around a text do not show
RECURSIVE TrimL(_)
TrimL(s) == IF Len(s) > 0 /\ Ch(s, 1) = " " THEN TrimL(From(s, 2)) ELSE s
RECURSIVE TrimR(_)
TrimR(s) == IF Len(s) > 0 /\ Ch(s, Len(s)) = " " THEN TrimR(Upto(s, Len(s) - 1)) ELSE s
Trim(s) == TrimR(TrimL(s))

----------------------------------------------------------------------------
(* ---- diagrams ---- *)
(* style: [format, detail, attributes, edge_label, edge_mult, links]          *)
Shown(rs, st, i) == st.attributes \/ rs[i][2] \notin PrimTypes \cup {"Enumerated"}
ShownIx(rs, st) == SelectSeq([i \in 1..Len(rs) |-> i], LAMBDA i : Shown(rs, st, i))
NodeLabel(r, st) == r[1] \o (IF st.detail = "information" THEN " : " \o TypeStr(r[2], ParseOpts(r[3])) ELSE "")
NodeRow(r, f, st) ==
  IF st.detail = "logical" THEN f[2]
  ELSE LET c == Cells(r, f)
       IN f[1] \o " " \o c[1]
          \o (IF r[2] = "Enumerated" THEN ""
              ELSE " : " \o (IF st.format = "plantuml" THEN "{field} " ELSE "") \o c[2] \o (IF c[3] = "1" THEN "" ELSE " [" \o c[3] \o "]"))
NodeRows(r, st) == IF st.detail = "conceptual" \/ r[2] \in PrimTypes THEN <<>>
                   ELSE [j \in 1..Len(r[5]) |-> Trim(NodeRow(r, r[5][j], st))]
Nodes(rs, st) == LET ix == ShownIx(rs, st) IN [k \in 1..Len(ix) |-> TLCEval(<<NodeLabel(rs[ix[k]], st), NodeRows(rs[ix[k]], st)>>)]

\* edges, in no order: <<from, to, label, multiplicity, line>>; types are given by their nodes' labels
EdgeLabel(st, n) == IF ~ st.edge_label THEN "" ELSE IF st.format = "graphviz" THEN MapChars(n, LAMBDA c : IF c = "-" THEN "_" ELSE c) ELSE n
EdgeLine(st, dash) == IF ~ dash THEN "" ELSE IF st.format = "graphviz" THEN "dashed" ELSE IF st.link_horizontal THEN "." ELSE ".."
Edges(rs, st) ==
  LET ix == TLCEval(ShownIx(rs, st))
      no(n) == {k \in 1..Len(ix) : rs[ix[k]][1] = n}
      edge(k, n, lab, m, dash) == IF no(n) = {} \/ (dash /\ ~ st.links) THEN <<>>
                                  ELSE << <<NodeLabel(rs[ix[k]], st), NodeLabel(rs[ix[CHOOSE j \in no(n) : TRUE]], st), EdgeLabel(st, lab),
                                            IF st.edge_mult THEN m ELSE "", EdgeLine(st, dash)>> >>
      field(k, f) == LET o == ParseOpts(f[4])
                     IN edge(k, IF f[3] \in {"ArrayOf", "MapOf"} THEN Opt(o, "vtype", "") ELSE f[3], f[2],
                             MultText(Opt(o, "minc", "1"), Opt(o, "maxc", "1")), "link" \in DOMAIN o)
      ofnode(k) == LET r == rs[ix[k]]
                       o == ParseOpts(r[3])
                   IN IF r[2] \in PrimTypes \cup {"Enumerated"} THEN <<>>
                      ELSE (IF "ktype" \in DOMAIN o THEN edge(k, o["ktype"], "key", "1", FALSE) ELSE <<>>)
                           \o (IF "vtype" \in DOMAIN o THEN edge(k, o["vtype"], "value", "1", FALSE) ELSE <<>>)
                           \o FoldLeft(LAMBDA a, f : a \o field(k, f), <<>>, r[5])
  IN FoldLeft(LAMBDA a, k : a \o ofnode(k), <<>>, [k \in 1..Len(ix) |-> k])
\* equal up to order
SameBag(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Cardinality({j \in 1..Len(a) : a[j] = a[i]}) = Cardinality({j \in 1..Len(b) : b[j] = a[i]})

----------------------------------------------------------------------------
(* ---- Markdown ---- *)
Escaped(s) == MapChars(s, LAMBDA c : IF c = "*" THEN "\\*" ELSE c)
\* a text shown, with or without protection of its asterisks
Shows(cell, s) == Trim(cell) \in {Trim(s), Trim(Escaped(s))}
ShowsAll(cells, ss) == Len(cells) = Len(ss) /\ \A i \in 1..Len(ss) : Shows(cells[i], ss[i])
Bold(s) == "**" \o s \o "**"
HasTable(r) == Len(r[5]) > 0
MdHead(r) == IF ~ HasTable(r) THEN <<"Type Name", "Type Definition", "Description">>
             ELSE LET e == r[2] = "Enumerated" i == LabelType(r)
                  IN <<"ID">> \o (IF i THEN <<>> ELSE <<IF e THEN "Item" ELSE "Name">>) \o (IF e THEN <<>> ELSE <<"Type", "\\#">>) \o <<"Description">>
MdRow(r, f) ==
  LET c == Cells(r, f)
      lab == LabelType(r)
      d == IF lab THEN Bold(f[2]) \o " - " \o Trim(f[Len(f)]) ELSE f[Len(f)]
  IN <<f[1]>> \o (IF lab THEN <<>> ELSE <<Bold(c[1])>>) \o (IF r[2] = "Enumerated" THEN <<>> ELSE <<c[2], c[3]>>) \o <<d>>
MdRows(r) == IF HasTable(r) THEN [j \in 1..Len(r[5]) |-> TLCEval(MdRow(r, r[5][j]))]
             ELSE << <<Bold(r[1]), TypeStr(r[2], ParseOpts(r[3])), r[4]>> >>
MdTitle(r) == IF HasTable(r) THEN r[1] \o " (" \o TypeStr(r[2], ParseOpts(r[3])) \o ")" ELSE ""
MdDesc(r) == IF HasTable(r) THEN r[4] ELSE ""
\* block: [d description, h title, head, rows]
MdBlockOk(b, r) == /\ Trim(b.d) = Trim(MdDesc(r)) /\ Shows(b.h, MdTitle(r))
                   /\ ShowsAll(b.head, MdHead(r))
                   /\ Len(b.rows) = Len(MdRows(r)) /\ \A i \in 1..Len(b.rows) : ShowsAll(b.rows[i], MdRows(r)[i])
InfoOrder == <<"title", "package", "version", "description", "comments", "copyright", "license", "namespaces", "exports", "config">>
InfoKeys(keys) == SelectSeq(InfoOrder, LAMBDA k : k \in keys)
=============================================================================
