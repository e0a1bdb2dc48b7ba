------------------------------ MODULE MC_Family -----------------------------
(* Writes out the schemas of the family, for the library to work on.         *)
EXTENDS JFamily, Json
VARIABLES k, n
All == TLCEval(SetToSeq(UNION {{<<r, cf>> : cf \in ConfOf(r)} : r \in Roots}))
Init == n = Len(All) /\ k = 1
Next == k < n /\ k' = k + 1 /\ UNCHANGED n
Spec == Init /\ [][Next]_<<k, n>>
Emit == PrintT("SCHEMA|" \o ToJson(MkSchema(All[k][1], All[k][2])))
=============================================================================
