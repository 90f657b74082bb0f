-------------------------------- MODULE Ptree --------------------------------
(* Translation of a property tree into a typed parameter list.  Text is a
   sequence of character codes; a node is [n |-> name, v |-> text, k |-> nodes].
   Every leaf becomes one parameter of the same name whose type is the first of
   integer, real, boolean, text that its text denotes; every inner node becomes a
   sublist of the same name.  The target list holds nothing else afterwards.   *)
EXTENDS LinAlg

Digit == 48..57
Space == (9..13) \cup {32}
Sign == {43, 45}

RECURSIVE Lead(_, _)   \* number of leading characters in a class
Lead(s, C) == IF s = <<>> \/ s[1] \notin C THEN 0 ELSE 1 + Lead(Tail(s), C)
Drop(s, k) == SubSeq(s, k + 1, Len(s))
Rev(s) == TLCEval([i \in 1..Len(s) |-> s[Len(s) + 1 - i]])
Trim(s) == LET a == Drop(s, Lead(s, Space)) IN Rev(Drop(Rev(a), Lead(Rev(a), Space)))

Unsigned(s) == IF s # <<>> /\ s[1] \in Sign THEN Tail(s) ELSE s
Negative(s) == s # <<>> /\ s[1] = 45
Digits(s) == s # <<>> /\ \A i \in 1..Len(s) : s[i] \in Digit
NoZeros(s) == Drop(s, Lead(s, {48}))

RECURSIVE ValAcc(_, _)
ValAcc(s, a) == IF s = <<>> THEN a ELSE ValAcc(Tail(s), 10 * a + (s[1] - 48))
Val(s) == ValAcc(s, 0)           \* at most nine digits

MaxInt == <<50,49,52,55,52,56,51,54,52,55>>     \* 2147483647
MaxNeg == <<50,49,52,55,52,56,51,54,52,56>>     \* 2147483648
RECURSIVE LexLeq(_, _)
LexLeq(a, b) ==
  a = <<>> \/ a[1] < b[1] \/ (a[1] = b[1] /\ LexLeq(Tail(a), Tail(b)))
FitsInt(s) ==
  LET d == NoZeros(Unsigned(s)) IN
    \/ Len(d) < 10
    \/ Len(d) = 10 /\ LexLeq(d, IF Negative(s) THEN MaxNeg ELSE MaxInt)
IsInt(s0) == LET s == Trim(s0) IN Digits(Unsigned(s)) /\ FitsInt(s)
\* as the pair (sign, digits), because TLC's own integers end at 2^31 - 1
IntVal(s0) ==
  LET s == Trim(s0) IN [neg |-> Negative(s) /\ NoZeros(Unsigned(s)) # <<>>,
                        d |-> NoZeros(Unsigned(s))]

\* reals: sign? digits? (. digits?)? (e sign? digits)?
Parts(s0) ==
  LET s == Unsigned(Trim(s0))
      ni == Lead(s, Digit)
      ip == SubSeq(s, 1, ni)
      r1 == Drop(s, ni)
      dot == r1 # <<>> /\ r1[1] = 46
      r2 == IF dot THEN Tail(r1) ELSE r1
      nf == IF dot THEN Lead(r2, Digit) ELSE 0
      fp == SubSeq(r2, 1, nf)
      r3 == Drop(r2, nf)
      ex == r3 # <<>> /\ r3[1] \in {69, 101}
      r4 == IF ex THEN Tail(r3) ELSE <<>>
      rest == IF ex THEN <<>> ELSE r3
  IN [neg |-> Negative(Trim(s0)), ip |-> ip, fp |-> fp, hasexp |-> ex,
      e |-> r4, rest |-> rest]
IsReal(s0) ==
  LET p == Parts(s0) IN
    /\ p.rest = <<>> /\ p.ip \o p.fp # <<>>
    /\ p.hasexp => Digits(Unsigned(p.e))
Pow10(k) == IF k = 0 THEN 1 ELSE IF k = 1 THEN 10 ELSE IF k = 2 THEN 100
            ELSE IF k = 3 THEN 1000 ELSE IF k = 4 THEN 10000
            ELSE IF k = 5 THEN 100000 ELSE IF k = 6 THEN 1000000
            ELSE IF k = 7 THEN 10000000 ELSE IF k = 8 THEN 100000000
            ELSE 1000000000
\* m * 10^x, m at most nine digits
RealM(s0) == LET p == Parts(s0) IN
  (IF p.neg THEN -1 ELSE 1) * Val(NoZeros(p.ip \o p.fp))
RealX(s0) == LET p == Parts(s0) IN
  (IF ~p.hasexp THEN 0 ELSE IF Negative(p.e) THEN -Val(Unsigned(p.e))
   ELSE Val(Unsigned(p.e))) - Len(p.fp)
\* is i the value at scale 10^k?  (said only where the value is representable)
AtScale(s0, k, i) ==
  LET p == Parts(s0)
      digits == Len(NoZeros(p.ip \o p.fp))
      x == RealX(s0) + k
  IN IF digits = 0 THEN i = 0
     ELSE IF x >= 0 /\ digits + x <= 9 THEN i = RealM(s0) * Pow10(x)
     ELSE \* too large or too fine for this scale: only the sign is compared
       (i # 0) => ((i < 0) = p.neg \/ i = 2000000000)

TrueTxt == <<116,114,117,101>>
FalseTxt == <<102,97,108,115,101>>
IsBool(s0) == Trim(s0) \in {TrueTxt, FalseTxt}

Kind(s) == IF IsInt(s) THEN "int" ELSE IF IsReal(s) THEN "double"
           ELSE IF IsBool(s) THEN "bool" ELSE "string"

\* ------------------------------------------------------------ the translation
\* what a leaf must become, as a predicate on an entry of the list
LeafOk(node, x) ==
  /\ x.n = node.n
  /\ x.t = Kind(node.v)
  /\ CASE x.t = "int" ->
            LET w == IntVal(node.v) IN
              IF Len(w.d) <= 9
              THEN x.i = (IF w.neg THEN -Val(w.d) ELSE Val(w.d))
              ELSE (x.i < 0) = w.neg
       [] x.t = "double" -> AtScale(node.v, 3, x.i) /\ AtScale(node.v, 12, x.j)
       [] x.t = "bool" -> x.i = (IF Trim(node.v) = TrueTxt THEN 1 ELSE 0)
       [] OTHER -> x.s = node.v

RECURSIVE Matches(_, _)
Matches(nodes, list) ==
  /\ Len(list) = Len(nodes)
  /\ \A i \in 1..Len(nodes) : \E j \in 1..Len(list) :
       IF nodes[i].k = <<>> THEN LeafOk(nodes[i], list[j])
       ELSE /\ list[j].t = "list" /\ list[j].n = nodes[i].n
            /\ Matches(nodes[i].k, list[j].k)
DistinctNames(nodes) ==
  \A i, j \in 1..Len(nodes) : nodes[i].n = nodes[j].n => i = j

-----------------------------------------------------------------------------
VARIABLE tree, list
PInit == tree = <<>> /\ list = <<>>
\* whatever the list held, afterwards it is the translation of the tree
Convert(t, out) ==
  /\ DistinctNames(t)
  /\ Matches(t, out)
  /\ tree' = t /\ list' = out
Faithful == Matches(tree, list)
=============================================================================
