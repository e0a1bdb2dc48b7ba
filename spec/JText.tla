------------------------------- MODULE JText -------------------------------
(* Text and number primitives used by every other module.                   *)
(* Text is native TLC strings (BMP characters only), a character is a       *)
(* one-character string.  Integers that may exceed 32 bits are canonical    *)
(* decimal strings ("0", "-12"); decimals are plain "-12.5" strings.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Ch(s, i) == SubSeq(s, i, i)
From(s, i) == SubSeq(s, i, Len(s))
Upto(s, n) == SubSeq(s, 1, n)
CharSet(s) == {Ch(s, i) : i \in 1..Len(s)}
HasPrefix(s, p) == Len(s) >= Len(p) /\ Upto(s, Len(p)) = p
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
SeqRange(s) == {s[i] : i \in 1..Len(s)}

DigitChars == "0123456789"
LowerHex == "0123456789abcdef"
UpperHex == "0123456789ABCDEF"
LowerAlpha == "abcdefghijklmnopqrstuvwxyz"
UpperAlpha == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
B64Chars == UpperAlpha \o LowerAlpha \o DigitChars \o "-_"

DigitSet == CharSet(DigitChars)
LowerHexSet == CharSet(LowerHex)
UpperHexSet == CharSet(UpperHex)
AlphaSet == CharSet(LowerAlpha) \cup CharSet(UpperAlpha)
AlnumSet == AlphaSet \cup DigitSet
B64Set == CharSet(B64Chars)

IndexIn(cs) == TLCEval([c \in CharSet(cs) |-> (CHOOSE i \in 1..Len(cs) : Ch(cs, i) = c) - 1])
DigitVal == IndexIn(DigitChars)
LowerHexVal == IndexIn(LowerHex)
UpperHexVal == IndexIn(UpperHex)
B64Val == IndexIn(B64Chars)
LowerOf == TLCEval([c \in CharSet(UpperAlpha) |-> Ch(LowerAlpha, (CHOOSE i \in 1..26 : Ch(UpperAlpha, i) = c))])
UpperOf == TLCEval([c \in CharSet(LowerAlpha) |-> Ch(UpperAlpha, (CHOOSE i \in 1..26 : Ch(LowerAlpha, i) = c))])

AllIn(s, set) == \A i \in 1..Len(s) : Ch(s, i) \in set

RECURSIVE Concat(_)
Concat(ss) == IF Len(ss) = 0 THEN "" ELSE IF Len(ss) = 1 THEN ss[1]
              ELSE LET h == Len(ss) \div 2 IN Concat(SubSeq(ss, 1, h)) \o Concat(SubSeq(ss, h + 1, Len(ss)))
MapChars(s, f(_)) == Concat([i \in 1..Len(s) |-> f(Ch(s, i))])
LowerText(s) == MapChars(s, LAMBDA c : IF c \in DOMAIN LowerOf THEN LowerOf[c] ELSE c)
UpperText(s) == MapChars(s, LAMBDA c : IF c \in DOMAIN UpperOf THEN UpperOf[c] ELSE c)
RECURSIVE RepText(_, _)
RepText(s, n) == IF n <= 0 THEN "" ELSE s \o RepText(s, n - 1)

\* position of the first occurrence of character c at or after i, or 0
RECURSIVE FindFrom(_, _, _)
FindFrom(s, c, i) == IF i > Len(s) THEN 0 ELSE IF Ch(s, i) = c THEN i ELSE FindFrom(s, c, i + 1)
RECURSIVE SplitFrom(_, _, _)
SplitFrom(s, c, i) == LET p == FindFrom(s, c, i)
                      IN IF p = 0 THEN <<From(s, i)>> ELSE <<SubSeq(s, i, p - 1)>> \o SplitFrom(s, c, p + 1)
Split(s, c) == SplitFrom(s, c, 1)
RECURSIVE Join(_, _)
Join(ss, sep) == IF Len(ss) = 0 THEN "" ELSE IF Len(ss) = 1 THEN ss[1]
                 ELSE ss[1] \o sep \o Join(Tail(ss), sep)
HasText(s, sub) == \E i \in 0..(Len(s) - Len(sub)) : SubSeq(s, i + 1, i + Len(sub)) = sub

IsDigits(s) == Len(s) > 0 /\ AllIn(s, DigitSet)
\* canonical natural / integer text
IsNatText(s) == IsDigits(s) /\ (Len(s) = 1 \/ Ch(s, 1) # "0")
IsIntText(s) == IsNatText(s) \/ (Len(s) > 1 /\ Ch(s, 1) = "-" /\ IsNatText(From(s, 2)) /\ From(s, 2) # "0")

RECURSIVE ParseNat(_)
ParseNat(s) == IF s = "" THEN 0 ELSE 10 * ParseNat(Upto(s, Len(s) - 1)) + DigitVal[Ch(s, Len(s))]
ParseInt(s) == IF s # "" /\ Ch(s, 1) = "-" THEN - ParseNat(From(s, 2)) ELSE ParseNat(s)
NatText(n) == ToString(n)

\* -1, 0, 1
RECURSIVE CmpLex(_, _, _)
CmpLex(a, b, i) == IF i > Len(a) THEN 0
                   ELSE IF Ch(a, i) = Ch(b, i) THEN CmpLex(a, b, i + 1)
                   ELSE IF DigitVal[Ch(a, i)] < DigitVal[Ch(b, i)] THEN -1 ELSE 1
CmpNat(a, b) == IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1)
                ELSE IF a = b THEN 0 ELSE CmpLex(a, b, 1)
IsNeg(a) == Len(a) > 0 /\ Ch(a, 1) = "-"
Abs(a) == IF IsNeg(a) THEN From(a, 2) ELSE a
CmpInt(a, b) == IF IsNeg(a) # IsNeg(b) THEN (IF IsNeg(a) THEN -1 ELSE 1)
                ELSE IF IsNeg(a) THEN CmpNat(Abs(b), Abs(a)) ELSE CmpNat(a, b)

\* decimals: optional sign, digits, optional fraction
RECURSIVE StripLead(_)
StripLead(s) == IF Len(s) > 1 /\ Ch(s, 1) = "0" THEN StripLead(From(s, 2)) ELSE s
RECURSIVE StripTrail(_)
StripTrail(s) == IF Len(s) > 0 /\ Ch(s, Len(s)) = "0" THEN StripTrail(Upto(s, Len(s) - 1)) ELSE s
IntPart(a) == LET p == FindFrom(a, ".", 1) IN StripLead(IF p = 0 THEN a ELSE Upto(a, p - 1))
FracPart(a) == LET p == FindFrom(a, ".", 1) IN IF p = 0 THEN "" ELSE StripTrail(From(a, p + 1))
CmpFrac(a, b) == LET n == Max2(Len(a), Len(b))
                     x == a \o RepText("0", n - Len(a))
                     y == b \o RepText("0", n - Len(b))
                 IN IF x = y THEN 0 ELSE CmpLex(x, y, 1)
CmpAbsDec(a, b) == LET c == CmpNat(IntPart(a), IntPart(b))
                   IN IF c # 0 THEN c ELSE CmpFrac(FracPart(a), FracPart(b))
CmpDec(a, b) ==
  LET za == IntPart(Abs(a)) = "0" /\ FracPart(Abs(a)) = ""
      zb == IntPart(Abs(b)) = "0" /\ FracPart(Abs(b)) = ""
      na == IsNeg(a) /\ ~za
      nb == IsNeg(b) /\ ~zb
  IN IF na # nb THEN (IF na THEN -1 ELSE 1)
     ELSE IF na THEN CmpAbsDec(Abs(b), Abs(a)) ELSE CmpAbsDec(Abs(a), Abs(b))

\* <<quotient (int), remainder (int)>> of a natural in decimal text by a small divisor
RECURSIVE DivText(_, _)
DivText(s, d) == IF s = "" THEN <<0, 0>>
                 ELSE LET p == DivText(Upto(s, Len(s) - 1), d)
                          x == p[2] * 10 + DigitVal[Ch(s, Len(s))]
                      IN <<p[1] * 10 + x \div d, x % d>>

----------------------------------------------------------------------------
(* Regular expressions, as syntax trees carried next to the pattern text:    *)
(*   ["chr",c] ["cls",chars] ["ncls",chars] ["any"] ["seq",[r..]]            *)
(*   ["alt",[r..]] ["rep",r,min,max|-1] ["bol"] ["eol"]                      *)
(* ReEnds = set of positions where a match starting before position i ends.  *)
RECURSIVE ReEnds(_, _, _)
RECURSIVE ReSeq(_, _, _, _)
RECURSIVE ReRep(_, _, _, _, _, _)
ReSeq(rs, k, s, S) == IF k > Len(rs) \/ S = {} THEN S
                      ELSE ReSeq(rs, k + 1, s, UNION {ReEnds(rs[k], s, i) : i \in S})
ReRep(r, n, mn, mx, s, acc) ==          \* acc = <<frontier, all ends reached with count >= mn>>
  LET fr == acc[1]
      all == IF n >= mn THEN acc[2] \cup fr ELSE acc[2]
  IN IF (mx >= 0 /\ n >= mx) \/ fr = {} \/ (n >= mn /\ fr \subseteq acc[2]) THEN all
     ELSE ReRep(r, n + 1, mn, mx, s, <<UNION {ReEnds(r, s, i) : i \in fr}, all>>)
ReEnds(r, s, i) ==
  CASE r[1] = "chr"  -> IF i <= Len(s) /\ Ch(s, i) = r[2] THEN {i + 1} ELSE {}
    [] r[1] = "cls"  -> IF i <= Len(s) /\ Ch(s, i) \in CharSet(r[2]) THEN {i + 1} ELSE {}
    [] r[1] = "ncls" -> IF i <= Len(s) /\ Ch(s, i) \notin CharSet(r[2]) THEN {i + 1} ELSE {}
    [] r[1] = "any"  -> IF i <= Len(s) /\ Ch(s, i) # "\n" THEN {i + 1} ELSE {}
    [] r[1] = "bol"  -> IF i = 1 THEN {i} ELSE {}
    [] r[1] = "eol"  -> IF i = Len(s) + 1 \/ (i = Len(s) /\ Ch(s, i) = "\n") THEN {i} ELSE {}
    [] r[1] = "seq"  -> ReSeq(r[2], 1, s, {i})
    [] r[1] = "alt"  -> UNION {ReEnds(r[2][k], s, i) : k \in 1..Len(r[2])}
    [] r[1] = "rep"  -> ReRep(r[2], 0, r[3], r[4], s, <<{i}, {}>>)
ReMatch(r, s) == ReEnds(r, s, 1) # {}
=============================================================================
