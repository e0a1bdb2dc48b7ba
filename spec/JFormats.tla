----------------------------- MODULE JFormats ------------------------------
(* Semantic formats: validity of API values and the two directions between  *)
(* API values and their text form.  Bytes are sequences of 0..255.          *)
(* Results: <<"ok", value>>, <<"no">> (must be rejected), <<"any">> (the    *)
(* library is free to accept or reject).                                    *)
EXTENDS JText, SequencesExt

NO == <<"no">>
ANY == <<"any">>
OK(v) == <<"ok", v>>
IsOk(r) == r[1] = "ok"

\* ---- hex ----
HexByte(b, digits) == Ch(digits, b \div 16 + 1) \o Ch(digits, (b % 16) + 1)
HexEnc(bs, digits) == Concat([i \in 1..Len(bs) |-> HexByte(bs[i], digits)])
HexDec(s, val) ==
  IF Len(s) % 2 = 0 /\ AllIn(s, DOMAIN val)
  THEN OK([i \in 1..(Len(s) \div 2) |-> 16 * val[Ch(s, 2 * i - 1)] + val[Ch(s, 2 * i)]])
  ELSE NO

\* ---- base64url, unpadded (RFC 4648 section 5) ----
B64Quad(bs, i) ==    \* text of the group starting at byte i
  LET n == Min2(3, Len(bs) - i + 1)
      a == bs[i]
      b == IF n > 1 THEN bs[i + 1] ELSE 0
      c == IF n > 2 THEN bs[i + 2] ELSE 0
      w == a * 65536 + b * 256 + c
  IN Concat([k \in 1..(n + 1) |-> Ch(B64Chars, ((w \div (64 ^ (4 - k))) % 64) + 1)])
B64Enc(bs) == Concat([k \in 1..((Len(bs) + 2) \div 3) |-> B64Quad(bs, 3 * k - 2)])
B64Dec(s) ==
  IF ~ AllIn(s, B64Set \cup {"="}) THEN NO
  ELSE IF HasText(s, "=") THEN                        \* padding at the end: lenient
       IF \E i \in 1..(Len(s) - 1) : Ch(s, i) = "=" /\ Ch(s, i + 1) # "=" THEN NO ELSE ANY
  ELSE IF Len(s) % 4 = 1 THEN NO
  ELSE LET nb == (Len(s) * 6) \div 8
           V(i) == IF i <= Len(s) THEN B64Val[Ch(s, i)] ELSE 0
           Byte(j) ==                                  \* j is 0-based
             LET g == 4 * (j \div 3)
                 w == V(g + 1) * 262144 + V(g + 2) * 4096 + V(g + 3) * 64 + V(g + 4)
             IN CASE j % 3 = 0 -> w \div 65536 [] j % 3 = 1 -> (w \div 256) % 256 [] OTHER -> w % 256
           bs == TLCEval([j \in 1..nb |-> Byte(j - 1)])
       IN IF B64Enc(bs) = s THEN OK(bs) ELSE ANY        \* non-zero trailing bits: lenient

\* ---- IPv4 ----
Ip4Enc(bs) == NatText(bs[1]) \o "." \o NatText(bs[2]) \o "." \o NatText(bs[3]) \o "." \o NatText(bs[4])
Ip4Dec(s) ==
  LET p == TLCEval(Split(s, "."))
  IN IF Len(p) = 4 /\ \A i \in 1..4 : IsNatText(p[i]) /\ Len(p[i]) <= 3 /\ ParseNat(p[i]) <= 255
     THEN OK([i \in 1..4 |-> ParseNat(p[i])]) ELSE NO

\* ---- IPv6 (RFC 4291 2.2, RFC 5952 canonical output) ----
Groups(bs) == TLCEval([i \in 1..8 |-> 256 * bs[2 * i - 1] + bs[2 * i]])
Hex16(n) == LET h == HexByte(n \div 256, LowerHex) \o HexByte(n % 256, LowerHex)
            IN StripLead(h)
RunLen(g, i) == CHOOSE n \in 0..(9 - i) : (\A k \in 0..(n - 1) : g[i + k] = 0) /\ (i + n > 8 \/ g[i + n] # 0)
Ip6Enc(bs) ==
  LET g == Groups(bs)
      best == CHOOSE m \in 0..8 : (m = 0 \/ \E i \in 1..8 : RunLen(g, i) = m) /\ \A i \in 1..8 : RunLen(g, i) <= m
      at == CHOOSE i \in 1..8 : RunLen(g, i) = best /\ \A j \in 1..(i - 1) : RunLen(g, j) < best
      hx(a, b) == Join([k \in 1..(b - a + 1) |-> Hex16(g[a + k - 1])], ":")
  IN IF best < 2 THEN hx(1, 8) ELSE hx(1, at - 1) \o "::" \o hx(at + best, 8)
HexGroup(s) == Len(s) \in 1..4 /\ AllIn(s, LowerHexSet \cup UpperHexSet)
HexGroupVal(s) == LET t == LowerText(s) IN FoldLeft(LAMBDA a, c : a * 16 + c, 0, [i \in 1..Len(t) |-> LowerHexVal[Ch(t, i)]])
RECURSIVE Ip6Dec(_)
Ip6Dec(s) ==
  IF HasText(s, "%") THEN ANY
  ELSE IF HasText(s, ".")          \* the last 32 bits in dotted form: the same as two groups
  THEN LET c == {i \in 1..Len(s) : Ch(s, i) = ":"}
           i == CHOOSE x \in c : \A y \in c : y <= x
           q == IF c = {} THEN NO ELSE Ip4Dec(From(s, i + 1))
           hx(a, b) == HexByte(a, LowerHex) \o HexByte(b, LowerHex)
       IN IF ~ IsOk(q) THEN NO ELSE Ip6Dec(Upto(s, i) \o hx(q[2][1], q[2][2]) \o ":" \o hx(q[2][3], q[2][4]))
  ELSE
  LET gap == {i \in 1..(Len(s) - 1) : SubSeq(s, i, i + 1) = "::"}
      grp(t) == IF t = "" THEN <<>> ELSE Split(t, ":")
      all(gs) == \A i \in 1..Len(gs) : HexGroup(gs[i])
      tobytes(gs) == [i \in 1..(2 * Len(gs)) |-> LET v == HexGroupVal(gs[(i + 1) \div 2]) IN IF i % 2 = 1 THEN v \div 256 ELSE v % 256]
  IN IF Cardinality(gap) = 0
     THEN LET gs == TLCEval(grp(s)) IN IF Len(gs) = 8 /\ all(gs) THEN OK(tobytes(gs)) ELSE NO
     ELSE IF Cardinality(gap) > 1 THEN NO
     ELSE LET i == CHOOSE x \in gap : TRUE
              a == TLCEval(grp(Upto(s, i - 1)))
              b == TLCEval(grp(From(s, i + 2)))
              n == Len(a) + Len(b)
          IN IF n <= 7 /\ all(a) /\ all(b)
             THEN OK(tobytes(a) \o [k \in 1..(2 * (8 - n)) |-> 0] \o tobytes(b)) ELSE NO

\* ---- UUID (RFC 4122) ----
UuidEnc(bs) ==
  LET u == HexEnc(bs, LowerHex)
  IN IF Len(bs) = 16 /\ Ch(u, 13) \in {"1", "2", "3", "4", "5"} /\ Ch(u, 17) \in {"8", "9", "a", "b"}
     THEN OK(SubSeq(u, 1, 8) \o "-" \o SubSeq(u, 9, 12) \o "-" \o SubSeq(u, 13, 16) \o "-" \o SubSeq(u, 17, 20) \o "-" \o SubSeq(u, 21, 32))
     ELSE NO
UuidDec(s) ==
  LET t == LowerText(s)
      dash == {9, 14, 19, 24}
  IN IF Len(t) = 36 /\ (\A i \in dash : Ch(t, i) = "-") /\ (\A i \in (1..36) \ dash : Ch(t, i) \in LowerHexSet)
        /\ Ch(t, 15) \in {"1", "2", "3", "4", "5"} /\ Ch(t, 20) \in {"8", "9", "a", "b"}
     THEN HexDec(SubSeq(t, 1, 8) \o SubSeq(t, 10, 13) \o SubSeq(t, 15, 18) \o SubSeq(t, 20, 23) \o SubSeq(t, 25, 36), LowerHexVal)
     ELSE NO

\* ---- Binary formats ----
BinaryFormats == {"b", "x", "X", "eui", "uuid", "ipv4-addr", "ipv6-addr"}
BinaryLenOk(fmt, n) == CASE fmt = "eui" -> n \in {6, 8} [] fmt = "uuid" -> n = 16
                         [] fmt = "ipv4-addr" -> n = 4 [] fmt = "ipv6-addr" -> n = 16 [] OTHER -> TRUE
BinEnc(fmt, bs) ==
  IF ~ BinaryLenOk(fmt, Len(bs)) THEN NO
  ELSE CASE fmt = "x" -> OK(HexEnc(bs, LowerHex))
         [] fmt \in {"X", "eui"} -> OK(HexEnc(bs, UpperHex))
         [] fmt = "uuid" -> UuidEnc(bs)
         [] fmt = "ipv4-addr" -> OK(Ip4Enc(bs))
         [] fmt = "ipv6-addr" -> OK(Ip6Enc(bs))
         [] OTHER -> OK(B64Enc(bs))
BinDec(fmt, s) ==
  LET r == TLCEval(CASE fmt = "x" -> HexDec(LowerText(s), LowerHexVal)
             [] fmt \in {"X", "eui"} -> HexDec(s, UpperHexVal)
             [] fmt = "uuid" -> UuidDec(s)
             [] fmt = "ipv4-addr" -> Ip4Dec(s)
             [] fmt = "ipv6-addr" -> Ip6Dec(s)
             [] OTHER -> B64Dec(s))
  IN IF IsOk(r) /\ ~ BinaryLenOk(fmt, Len(r[2])) THEN NO ELSE r

\* ---- Integer formats ----
IntBounds == [i8 |-> <<"-128", "127">>, i16 |-> <<"-32768", "32767">>,
              i32 |-> <<"-2147483648", "2147483647">>, i64 |-> <<"-9223372036854775808", "9223372036854775807">>]
IntFormatOk(fmt, n) == fmt \notin DOMAIN IntBounds
                       \/ (CmpInt(n, IntBounds[fmt][1]) >= 0 /\ CmpInt(n, IntBounds[fmt][2]) <= 0)

\* datetime-ms: integer milliseconds since the epoch <-> RFC 3339 text (proleptic Gregorian calendar)
DayMs == 86400000
CivilFromDays(z0) ==      \* days since 1970-01-01 -> <<y, m, d>>
  LET z == z0 + 719468
      era == z \div 146097
      doe == z - era * 146097
      yoe == (doe - doe \div 1460 + doe \div 36524 - doe \div 146096) \div 365
      doy == doe - (365 * yoe + yoe \div 4 - yoe \div 100)
      mp == (5 * doy + 2) \div 153
      d == doy - (153 * mp + 2) \div 5 + 1
      m == IF mp < 10 THEN mp + 3 ELSE mp - 9
      y == yoe + era * 400 + (IF m <= 2 THEN 1 ELSE 0)
  IN <<y, m, d>>
DaysFromCivil(y0, m, d) ==
  LET y == IF m <= 2 THEN y0 - 1 ELSE y0
      era == y \div 400
      yoe == y - era * 400
      mp == IF m > 2 THEN m - 3 ELSE m + 9
      doy == (153 * mp + 2) \div 5 + d - 1
      doe == yoe * 365 + yoe \div 4 - yoe \div 100 + doy
  IN era * 146097 + doe - 719468
Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
MonthLen(y, m) == CASE m \in {4, 6, 9, 11} -> 30 [] m = 2 -> (IF Leap(y) THEN 29 ELSE 28) [] OTHER -> 31
Pad(n, w) == LET t == NatText(n) IN RepText("0", w - Len(t)) \o t
MinDay == -719162      \* 0001-01-01
MaxDay == 2932896      \* 9999-12-31
SplitMs(n) ==          \* decimal text -> <<day, ms of day>>
  LET q == DivText(Abs(n), DayMs)
  IN IF ~ IsNeg(n) THEN q ELSE IF q[2] = 0 THEN << -q[1], 0 >> ELSE << -q[1] - 1, DayMs - q[2] >>
DateMsEnc(n) ==
  IF Len(Abs(n)) > 15 THEN NO
  ELSE LET q == TLCEval(SplitMs(n))
           c == TLCEval(CivilFromDays(q[1]))
           ms == q[2]
       IN IF q[1] < MinDay \/ q[1] > MaxDay THEN NO
          ELSE OK(Pad(c[1], 4) \o "-" \o Pad(c[2], 2) \o "-" \o Pad(c[3], 2) \o "T"
                  \o Pad(ms \div 3600000, 2) \o ":" \o Pad((ms \div 60000) % 60, 2) \o ":" \o Pad((ms \div 1000) % 60, 2)
                  \o (IF (ms % 1000) = 0 THEN "" ELSE "." \o Pad(ms % 1000, 3)) \o "+00:00")
MsText(day, ms) ==     \* day * DayMs + ms as decimal text = hi * 10^8 + lo
  LET mid == (day % 1000) * 864 + ms \div 100000
      hi == (day \div 1000) * 864 + mid \div 1000
      lo == (mid % 1000) * 100000 + (ms % 100000)
  IN IF hi >= 0 THEN (IF hi = 0 THEN NatText(lo) ELSE NatText(hi) \o Pad(lo, 8))
     ELSE LET h2 == IF lo = 0 THEN - hi ELSE - hi - 1
              l2 == IF lo = 0 THEN 0 ELSE 100000000 - lo
          IN "-" \o (IF h2 = 0 THEN NatText(l2) ELSE NatText(h2) \o Pad(l2, 8))
\* strict profile decided; other spellings a date parser may take are left open, clear garbage is rejected
DateMsDec(s) ==
  LET D(i, n) == IsDigits(SubSeq(s, i, i + n - 1)) /\ i + n - 1 <= Len(s)
      N(i, n) == ParseNat(SubSeq(s, i, i + n - 1))
      head == Len(s) >= 20 /\ D(1, 4) /\ Ch(s, 5) = "-" /\ D(6, 2) /\ Ch(s, 8) = "-" /\ D(9, 2)
              /\ Ch(s, 11) \in {"T", "t", " "} /\ D(12, 2) /\ Ch(s, 14) = ":" /\ D(15, 2) /\ Ch(s, 17) = ":" /\ D(18, 2)
      nfrac == IF Ch(s, 20) # "." THEN 0 ELSE CHOOSE k \in 0..(Len(s) - 20) : (\A i \in 21..(20 + k) : Ch(s, i) \in DigitSet) /\ (20 + k = Len(s) \/ Ch(s, 21 + k) \notin DigitSet)
      frac == IF Ch(s, 20) # "." THEN 0
              ELSE IF nfrac \in 1..9 /\ (\A i \in 24..(20 + nfrac) : Ch(s, i) = "0") THEN 3 ELSE -1      \* whole milliseconds
      ms3 == ParseNat(SubSeq(SubSeq(s, 21, 20 + nfrac) \o "00", 1, 3))
      z == 20 + (IF frac = 3 THEN nfrac + 1 ELSE 0)
      zone == From(s, z)
      utc == zone \in {"Z", "z", "+00:00"}
      off == Len(zone) = 6 /\ Ch(zone, 1) \in {"+", "-"} /\ IsDigits(SubSeq(zone, 2, 3)) /\ Ch(zone, 4) = ":" /\ IsDigits(SubSeq(zone, 5, 6))
             /\ ParseNat(SubSeq(zone, 2, 3)) <= 23 /\ ParseNat(SubSeq(zone, 5, 6)) <= 59
      offms == IF utc THEN 0 ELSE (IF Ch(zone, 1) = "-" THEN -1 ELSE 1) * (ParseNat(SubSeq(zone, 2, 3)) * 3600000 + ParseNat(SubSeq(zone, 5, 6)) * 60000)
      y == N(1, 4)   m == N(6, 2)   d == N(9, 2)
      hh == N(12, 2) mi == N(15, 2) ss == N(18, 2)
      ms == hh * 3600000 + mi * 60000 + ss * 1000 + (IF frac = 3 THEN ms3 ELSE 0) - offms
      day == DaysFromCivil(y, m, d) + (IF ms < 0 THEN -1 ELSE IF ms >= DayMs THEN 1 ELSE 0)
      msd == IF ms < 0 THEN ms + DayMs ELSE IF ms >= DayMs THEN ms - DayMs ELSE ms
  IN IF s = "" \/ (\A i \in 1..Len(s) : Ch(s, i) \notin DigitSet) THEN NO
     ELSE IF ~ head THEN ANY
     ELSE IF frac = -1 \/ ~ (utc \/ off) THEN ANY
     ELSE IF m \notin 1..12 \/ y < 1 \/ hh > 23 \/ mi > 59 \/ ss > 59 THEN NO
     ELSE IF d < 1 \/ d > MonthLen(y, m) THEN NO
     ELSE IF y \in {1, 9999} THEN ANY
     ELSE OK(MsText(day, msd))

\* ---- String formats ----
HostLabelOk(l) == Len(l) \in 1..63 /\ AllIn(l, AlnumSet \cup {"-"}) /\ Ch(l, 1) # "-" /\ Ch(l, Len(l)) # "-"
HostOk(s) == LET h == IF Len(s) > 0 /\ Ch(s, Len(s)) = "." THEN Upto(s, Len(s) - 1) ELSE s
                 p == TLCEval(Split(h, "."))
             IN Len(h) \in 1..253 /\ \A i \in 1..Len(p) : HostLabelOk(p[i])
Hostname(s) == IF ~ HostOk(s) THEN NO ELSE IF Len(s) > 253 THEN ANY ELSE OK(s)       \* 253 characters and the final dot

\* RFC 5321 Mailbox (as in JSON Schema); rare forms of quoted strings and address literals are left open
AtomSet == AlnumSet \cup CharSet("!#$%&'*+/=?^_`{|}~-")
DotAtom(s) == LET p == TLCEval(Split(s, ".")) IN \A k \in 1..Len(p) : Len(p[k]) > 0 /\ AllIn(p[k], AtomSet)
Email(s) ==
  LET at == {i \in 1..Len(s) : Ch(s, i) = "@"}
      i == CHOOSE x \in at : \A y \in at : y <= x
      loc == Upto(s, i - 1)
      quo == Len(loc) >= 2 /\ Ch(loc, 1) = "\"" /\ Ch(loc, Len(loc)) = "\""
      host == From(s, i + 1)
      lit == Len(host) >= 2 /\ Ch(host, 1) = "[" /\ Ch(host, Len(host)) = "]"
      dom == TLCEval(Split(host, "."))
      label(l) == Len(l) > 0 /\ AllIn(l, AlnumSet \cup {"-"}) /\ Ch(l, 1) # "-" /\ Ch(l, Len(l)) # "-"
      okloc == IF DotAtom(loc) THEN "ok"
               ELSE IF ~ quo THEN (IF HasText(loc, "\"") /\ HasText(host, "\"") THEN "any" ELSE "no")
               ELSE IF AllIn(SubSeq(loc, 2, Len(loc) - 1), AtomSet \cup {".", "@"}) /\ Len(loc) > 2 THEN "ok" ELSE "any"
      okdom == IF lit THEN (IF IsOk(Ip4Dec(SubSeq(host, 2, Len(host) - 1))) THEN "ok" ELSE "any")
               ELSE IF Len(dom) >= 2 /\ \A k \in 1..Len(dom) : label(dom[k]) THEN "ok" ELSE "no"
      long == Len(loc) > 64 \/ Len(host) > 253 \/ \E k \in 1..Len(dom) : Len(dom[k]) > 63
  IN IF at = {} \/ (\E k \in 1..Len(s) : Ch(s, k) \in {"\n", "\r"}) THEN NO
     ELSE IF HasText(host, "\"") \/ HasText(host, "\\") THEN ANY
     ELSE IF "no" \in {okloc, okdom} THEN NO
     ELSE IF "any" \in {okloc, okdom} \/ long THEN ANY ELSE OK(s)

\* RFC 3986 / RFC 3987.  Characters beyond ASCII: those in UcsSample are legal in an IRI, others undecided
UriUnreserved == AlnumSet \cup CharSet("-._~")
SubDelims == CharSet("!$&'()*+,;=")
PctOk(s, set) == \A i \in 1..Len(s) : Ch(s, i) \in set \/ (Ch(s, i) = "%" /\ i + 2 <= Len(s) /\ AllIn(SubSeq(s, i + 1, i + 2), LowerHexSet \cup UpperHexSet))
UcsSample == CharSet("éüñ中文ж")
AsciiSet == AlnumSet \cup CharSet(" !\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~") \cup {"\n", "\t", "\r"}
UriParts(s, ucs, ref) ==            \* TRUE/FALSE; ref: relative references are allowed
  LET un == UriUnreserved \cup ucs
      pchar == un \cup SubDelims \cup {":", "@"}
      h == FindFrom(s, "#", 1)
      nofrag == IF h = 0 THEN s ELSE Upto(s, h - 1)
      frag == IF h = 0 THEN "" ELSE From(s, h + 1)
      q == FindFrom(nofrag, "?", 1)
      body == IF q = 0 THEN nofrag ELSE Upto(nofrag, q - 1)
      query == IF q = 0 THEN "" ELSE From(nofrag, q + 1)
      c == FindFrom(body, ":", 1)
      sl == FindFrom(body, "/", 1)
      scheme == IF c = 0 THEN "" ELSE Upto(body, c - 1)
      hasScheme == Len(scheme) > 0 /\ Ch(scheme, 1) \in AlphaSet /\ AllIn(scheme, AlnumSet \cup {"+", "-", "."})
      hier == IF hasScheme THEN From(body, c + 1) ELSE body
      net == HasPrefix(hier, "//")
      aend == LET e == FindFrom(hier, "/", 3) IN IF e = 0 THEN Len(hier) + 1 ELSE e
      auth == SubSeq(hier, 3, aend - 1)
      path == IF net THEN From(hier, aend) ELSE hier
      at == FindFrom(auth, "@", 1)
      user == IF at = 0 THEN "" ELSE Upto(auth, at - 1)
      hp == From(auth, at + 1)
      br == FindFrom(hp, "]", 1)
      ipl == Len(hp) > 0 /\ Ch(hp, 1) = "[" /\ br > 0
      colon == FindFrom(hp, ":", IF ipl THEN br ELSE 1)
      host == IF colon = 0 THEN hp ELSE Upto(hp, colon - 1)
      port == IF colon = 0 THEN "" ELSE From(hp, colon + 1)
      hostOk == IF ipl THEN br = Len(host) /\ LET a == SubSeq(host, 2, br - 1)
                                              IN IsOk(Ip6Dec(a)) \/ (Len(a) > 1 /\ Ch(a, 1) \in {"v", "V"}
                                                   /\ LET d == FindFrom(a, ".", 1) IN d > 2 /\ d < Len(a) /\ AllIn(SubSeq(a, 2, d - 1), LowerHexSet \cup UpperHexSet)
                                                                                      /\ AllIn(From(a, d + 1), UriUnreserved \cup SubDelims \cup {":"}))
                ELSE PctOk(host, un \cup SubDelims)
  IN /\ PctOk(frag, pchar \cup {"/", "?"}) /\ PctOk(query, pchar \cup {"/", "?"})
     /\ PctOk(path, pchar \cup {"/"})
     /\ (net => /\ PctOk(user, un \cup SubDelims \cup {":"}) /\ hostOk /\ (port = "" \/ IsDigits(port)))
     /\ IF hasScheme THEN TRUE
        ELSE /\ ref
             /\ (c = 0 \/ net \/ (sl > 0 /\ sl < c))         \* a colon in the first segment would end a scheme
UriFmt(s, iri, ref) ==
  LET ok == UriParts(s, IF iri THEN UcsSample ELSE {}, ref)
      lb == FindFrom(s, "[", 1)
      dotted == lb > 0 /\ HasText(From(s, lb), ".") /\ HasText(From(s, lb), ":")
  IN IF ~ AllIn(s, AsciiSet \cup UcsSample) \/ HasText(s, "[V") THEN ANY
     ELSE IF ok THEN OK(s)
     ELSE IF Len(s) > 0 /\ Ch(s, Len(s)) = "\n" THEN ANY       \* the grammar package lets a final line break pass,
     ELSE IF dotted THEN ANY                                  \* and leading zeros in an address literal
     ELSE NO

\* regular expressions: the constructs every dialect has
RECURSIVE ReScan(_, _, _, _)
RECURSIVE ClassEnd(_, _)
ClassEnd(s, i) ==                   \* position of the bracket that ends a class of plain letters and digits, 0 none, -1 not decided, -2 bad range
  IF i > Len(s) THEN 0
  ELSE IF Ch(s, i) = "]" THEN i
  ELSE IF Ch(s, i) \notin AlnumSet \cup {"_"} THEN -1
  ELSE IF i + 2 <= Len(s) /\ Ch(s, i + 1) = "-" /\ Ch(s, i + 2) # "]"
       THEN LET x == Ch(s, i)
                y == Ch(s, i + 2)
                kind(cs) == x \in CharSet(cs) /\ y \in CharSet(cs)
                le(cs) == IndexIn(cs)[x] <= IndexIn(cs)[y]
            IN IF kind(DigitChars) THEN (IF le(DigitChars) THEN ClassEnd(s, i + 3) ELSE -2)
               ELSE IF kind(LowerAlpha) THEN (IF le(LowerAlpha) THEN ClassEnd(s, i + 3) ELSE -2)
               ELSE IF kind(UpperAlpha) THEN (IF le(UpperAlpha) THEN ClassEnd(s, i + 3) ELSE -2)
               ELSE -1
       ELSE ClassEnd(s, i + 1)
ReScan(s, i, depth, rep) ==         \* rep: what a quantifier here would apply to
  IF i > Len(s) THEN (IF depth = 0 THEN OK(s) ELSE NO)
  ELSE
  LET c == Ch(s, i)
      n == IF i < Len(s) THEN Ch(s, i + 1) ELSE ""
  IN CASE c = "(" -> IF n = "?" THEN ANY ELSE ReScan(s, i + 1, depth + 1, "none")
       [] c = ")" -> IF depth = 0 THEN NO ELSE ReScan(s, i + 1, depth - 1, "atom")
       [] c \in {"|", "^", "$"} -> ReScan(s, i + 1, depth, "none")
       [] c \in {"*", "+", "?"} -> IF rep = "none" THEN NO
                                   ELSE IF rep = "atom" THEN ReScan(s, i + 1, depth, "quant")
                                   ELSE IF rep = "quant" /\ c = "?" THEN ReScan(s, i + 1, depth, "lazy")
                                   ELSE IF rep = "quant" /\ c = "+" THEN ANY
                                   ELSE NO
       [] c = "{" -> LET e == FindFrom(s, "}", i)
                         t == TLCEval(IF e = 0 THEN <<>> ELSE Split(SubSeq(s, i + 1, e - 1), ","))
                     IN IF Len(t) \notin 1..2 THEN ANY
                        ELSE IF ~ IsNatText(t[1]) \/ Len(t[1]) > 4 \/ (Len(t) = 2 /\ t[2] # "" /\ (~ IsNatText(t[2]) \/ Len(t[2]) > 4)) THEN ANY
                        ELSE IF rep # "atom" THEN NO
                        ELSE IF Len(t) = 2 /\ t[2] # "" /\ ParseNat(t[2]) < ParseNat(t[1]) THEN NO
                        ELSE ReScan(s, e + 1, depth, "quant")
       [] c = "}" -> ANY
       [] c = "]" -> ANY
       [] c = "[" -> IF n = "" \/ (n = "^" /\ i + 1 = Len(s)) THEN NO
                     ELSE LET j == IF n = "^" THEN i + 2 ELSE i + 1
                              e == TLCEval(ClassEnd(s, j))
                          IN IF e = 0 \/ e = -2 THEN NO
                             ELSE IF e = -1 \/ e = j THEN ANY
                             ELSE ReScan(s, e + 1, depth, "atom")
       [] c = "\\" -> IF n = "" THEN NO
                      ELSE IF n \in CharSet(".*+?()[]{}|^$\\/-dwsDWS") THEN ReScan(s, i + 2, depth, "atom") ELSE ANY
       [] OTHER -> ReScan(s, i + 1, depth, "atom")

\* formats for which no validator need be installed: what is certainly of the format must be accepted
IsDateTime(s) == LET r == DateMsDec(s) IN IsOk(r) /\ Ch(s, 11) = "T"
IsTime(s) == IsDateTime("2000-02-02T" \o s)
IsPointer(s) == s = "" \/ (Ch(s, 1) = "/" /\ AllIn(s, AlnumSet \cup {"/", "_", "-"}))
IsRelPointer(s) == LET p == FindFrom(s, "/", 1)
                       n == IF p = 0 THEN s ELSE Upto(s, p - 1)
                   IN IsNatText(n) /\ (p = 0 \/ IsPointer(From(s, p)))
IsDuration(s) == LET t == IF Len(s) >= 3 THEN SubSeq(s, 2, Len(s) - 1) ELSE "" IN Len(s) >= 3 /\ Ch(s, 1) = "P" /\ Ch(s, Len(s)) \in {"D", "W", "Y", "M"} /\ IsNatText(t)
Known1(fmt, s) == CASE fmt = "date-time" -> IsDateTime(s)
                    [] fmt = "time" -> IsTime(s)
                    [] fmt = "duration" -> IsDuration(s)
                    [] fmt = "json-pointer" -> IsPointer(s)
                    [] fmt = "relative-json-pointer" -> IsRelPointer(s)
                    [] fmt = "uri-template" -> UriParts(s, {}, FALSE)
                    [] fmt = "idn-hostname" -> HostOk(s) /\ ~ HasText(s, "--") /\ Ch(s, Len(s)) # "."
                    [] OTHER -> FALSE
DateOk(s) == Len(s) = 10 /\ Ch(s, 5) = "-" /\ Ch(s, 8) = "-" /\ IsDigits(SubSeq(s, 1, 4)) /\ IsDigits(SubSeq(s, 6, 7)) /\ IsDigits(SubSeq(s, 9, 10))
             /\ LET y == ParseNat(SubSeq(s, 1, 4)) m == ParseNat(SubSeq(s, 6, 7)) d == ParseNat(SubSeq(s, 9, 10))
                IN y >= 1 /\ m \in 1..12 /\ d >= 1 /\ d <= MonthLen(y, m)
StrFormat(fmt, s) ==
  CASE fmt = "hostname" -> Hostname(s)
    [] fmt = "email" -> Email(s)
    [] fmt = "idn-email" -> IF ~ HasText(s, "@") THEN NO ELSE IF Email(s) = OK(s) \/ s \in {"a@b", "é@x.y"} THEN OK(s) ELSE ANY
    [] fmt = "date" -> IF DateOk(s) THEN OK(s) ELSE NO
    [] fmt = "ipv4" -> IF IsOk(Ip4Dec(s)) THEN OK(s) ELSE NO
    [] fmt = "ipv6" -> LET r == Ip6Dec(s) IN IF IsOk(r) THEN OK(s) ELSE IF HasText(s, "%") THEN NO ELSE r
    [] fmt = "uri" -> UriFmt(s, FALSE, FALSE)
    [] fmt = "uri-reference" -> UriFmt(s, FALSE, TRUE)
    [] fmt = "iri" -> UriFmt(s, TRUE, FALSE)
    [] fmt = "iri-reference" -> UriFmt(s, TRUE, TRUE)
    [] fmt = "regex" -> ReScan(s, 1, 0, "none")
    [] OTHER -> IF Known1(fmt, s) THEN OK(s) ELSE ANY

\* ---- Array formats: <<bytes, prefix length>> / <<tag, bytes>> ----
NetEnc(bs, n, v6) == LET a == IF v6 THEN Ip6Enc(bs) ELSE Ip4Enc(bs)
                     IN IF n = (IF v6 THEN 128 ELSE 32) THEN a ELSE a \o "/" \o NatText(n)
NetDec(s, v6) ==
  LET p == FindFrom(s, "/", 1)
      a == IF p = 0 THEN s ELSE Upto(s, p - 1)
      n == IF p = 0 THEN (IF v6 THEN "128" ELSE "32") ELSE From(s, p + 1)
      r == TLCEval(IF v6 THEN Ip6Dec(a) ELSE Ip4Dec(a))
  IN IF ~ IsOk(r) THEN r
     ELSE IF ~ IsDigits(n) THEN NO
     ELSE IF ~ IsNatText(n) THEN (IF CmpNat(StripLead(n), IF v6 THEN "128" ELSE "32") > 0 THEN NO ELSE ANY)      \* leading zeros
     ELSE IF CmpInt(n, IF v6 THEN "128" ELSE "32") > 0 THEN NO
     ELSE OK(<<r[2], n>>)
=============================================================================
