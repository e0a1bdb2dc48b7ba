----------------------------- MODULE TraceDocs ------------------------------
(* Recorded diagrams and Markdown documents, against JDocs.                   *)
EXTENDS JDocs, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, wf
vars == <<t, l, wf>>
Ev == Traces[t].ev[l]
Report(clause, exp) == PrintT("MISMATCH|" \o ToString(t) \o "|" \o ToString(l) \o "|" \o clause) /\ PrintT(<<"EXPECTED", t, l, exp>>)
Check(ok, clause, exp) == IF ok THEN TRUE ELSE Report(clause, exp)
\* what the specification leaves open is counted
Open(what) == PrintT("OPEN|" \o what)
IsEvent(e) == l <= Len(Traces[t].ev) /\ Ev.e = e /\ l' = l + 1 /\ UNCHANGED <<t, wf>>
\* only well-formed schemas are constrained
Applies == wf[Ev.k] /\ ~ OddRows(Ev.s)

Diagram == /\ IsEvent("diagram")
           /\ IF ~ Applies THEN Open("diagram")
              ELSE IF Ev.r # "ok" THEN Report("diagram-accept", "a diagram")
              ELSE LET ns == TLCEval(Nodes(Ev.s, Ev.style))
                       es == TLCEval(Edges(Ev.s, Ev.style))
                       ids == [i \in 1..Len(Ev.nodes) |-> Ev.nodes[i][1]]
                       no(x) == CHOOSE i \in 1..Len(ids) : ids[i] = x
                       known == \A i \in 1..Len(Ev.edges) : {Ev.edges[i][1], Ev.edges[i][2]} \subseteq SeqRange(ids)
                       lab(x) == Trim(Ev.nodes[no(x)][2])
                   IN /\ Check(~ Ev.mut, "mutated", "the schema and the style unchanged")
                      /\ Check(Ev.bad = <<>>, "diagram-syntax", "every line is of the diagram language")
                      /\ Check(Cardinality(SeqRange(ids)) = Len(ids), "diagram-ids", "distinct")
                      /\ Check(SameBag([i \in 1..Len(ids) |-> TLCEval(<<Trim(Ev.nodes[i][2]), [j \in 1..Len(Ev.nodes[i][3]) |-> Trim(Ev.nodes[i][3][j])]>>)], ns), "nodes", ns)
                      /\ Check(known, "edge-ends", ids)
                      /\ Check(known => SameBag([i \in 1..Len(Ev.edges) |-> TLCEval(<<lab(Ev.edges[i][1]), lab(Ev.edges[i][2]), Ev.edges[i][3], Ev.edges[i][4], Ev.edges[i][5]>>)], es), "edges", es)
Markdown == /\ IsEvent("markdown")
            /\ IF ~ Applies THEN Open("markdown")
               ELSE IF Ev.r # "ok" THEN Report("markdown-accept", "a document")
               ELSE LET inf == Norm(Ev.i)
                        keys == {p[1][2] : p \in inf[2]}
                        got == [i \in 1..Len(Ev.info) |-> Ev.info[i][1]]
                        n == Len(InfoKeys(keys))
                    IN /\ Check(~ Ev.mut, "mutated", "the schema unchanged")
                       /\ Check(Ev.bad = <<>>, "markdown-syntax", "every line is of a table, a title, a description or the information")
                       /\ Check({<<StrV(Ev.info[i][1]), Norm(Ev.info[i][2])>> : i \in 1..Len(Ev.info)} = inf[2] /\ Len(got) = Cardinality(keys)
                                /\ SubSeq(got, 1, n) = InfoKeys(keys), "markdown-info", inf)
                       /\ Check(Len(Ev.blocks) = Len(Ev.s), "markdown-types", Len(Ev.s))
                       /\ \A i \in 1..Min2(Len(Ev.blocks), Len(Ev.s)) :
                            Check(MdBlockOk(Ev.blocks[i], Ev.s[i]), "markdown-table", <<MdTitle(Ev.s[i]), MdDesc(Ev.s[i]), MdHead(Ev.s[i]), MdRows(Ev.s[i]), Ev.blocks[i]>>)

Whole(tr) == [k \in 1..Len(tr.whole) |-> TLCEval(IsOk(CheckRes(Norm(tr.whole[k]), tr.pats)))]
TraceInit == t \in 1..Len(Traces) /\ l = 1 /\ wf = TLCEval(Whole(Traces[t]))
             \* schemas made to be well-formed are
             /\ Check("must" \notin DOMAIN Traces[t] \/ (\A k \in DOMAIN wf : wf[k]), "fixture", "a well-formed schema")
TraceSpec == TraceInit /\ [][Diagram \/ Markdown]_vars
TraceView == <<t, l>>
=============================================================================
