------------------------------ MODULE MC_Ptree -------------------------------
(* The grammar and the translation on every text of up to four characters over
   an alphabet that reaches all the rules, and on every tree of a few shapes.  *)
EXTENDS Ptree
Alphabet == {49, 48, 46, 45, 101, 32, 116}
Texts == UNION {[1..n -> Alphabet] : n \in 0..4}
Tokens == {<<49, 50>>, <<45, 49, 46, 53>>, TrueTxt, <<97, 60, 38>>, <<>>}
Names == {<<97>>, <<34, 62>>}
Leaf(n, v) == [n |-> n, v |-> v, k |-> <<>>]
Leaves == {Leaf(n, v) : n \in Names, v \in Tokens}
Node(n, k) == [n |-> n, v |-> <<>>, k |-> k]
Subs == {Node(n, <<x>>) : n \in Names, x \in Leaves}
Subs2 == {Node(n, <<y>>) : n \in Names, y \in Subs}
Trees ==
  {<<>>} \cup {<<x>> : x \in Leaves \cup Subs \cup Subs2}
    \cup {<<x, y>> : x \in Leaves, y \in Subs}
\* the intended translation itself
Entry(nd) ==
  CASE Kind(nd.v) = "int" ->
         [n |-> nd.n, t |-> "int", i |-> Val(IntVal(nd.v).d)]
    [] Kind(nd.v) = "double" ->
         [n |-> nd.n, t |-> "double",
          i |-> RealM(nd.v) * Pow10(3 + RealX(nd.v)), j |-> 0]
    [] Kind(nd.v) = "bool" ->
         [n |-> nd.n, t |-> "bool", i |-> IF Trim(nd.v) = TrueTxt THEN 1 ELSE 0]
    [] OTHER -> [n |-> nd.n, t |-> "string", s |-> nd.v]
RECURSIVE Translate(_)
Translate(ns) ==
  TLCEval([i \in 1..Len(ns) |->
     IF ns[i].k = <<>> THEN Entry(ns[i])
     ELSE [n |-> ns[i].n, t |-> "list", k |-> Translate(ns[i].k)]])
Good == TLCEval({u \in Trees : DistinctNames(u)})
MCNext == \E t \in Good : Convert(t, Translate(t))
VARIABLE txt
MCInit == PInit /\ txt \in Texts
MCStep == txt = <<>> /\ MCNext /\ UNCHANGED txt
MCSpec == MCInit /\ [][MCStep]_<<tree, list, txt>>
\* the grammar is consistent on every text
IntIsReal == IsInt(txt) => IsReal(txt)
KindTotal == Kind(txt) \in {"int", "double", "bool", "string"}
IntFaithful ==
  (IsInt(txt) /\ Len(txt) < 9) =>
     AtScale(txt, 0, (IF Negative(Trim(txt)) THEN -1 ELSE 1) * Val(IntVal(txt).d))
BlankIsText == (Trim(txt) = <<>>) => Kind(txt) = "string"
\* a different tree is never accepted for the same list
Distinguishes ==
  txt = <<>> => \A t \in Good :
    (t # tree /\ Len(t) = Len(tree)) => ~Matches(t, list)
=============================================================================
