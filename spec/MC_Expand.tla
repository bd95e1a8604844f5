------------------------------ MODULE MC_Expand ------------------------------
(* Every address of at most MaxLen characters of a small alphabet. *)
EXTENDS KExpand, Json
CONSTANTS MaxLen, Alphabet
VARIABLE s
Env == ("A" :> "x~") @@ ("B" :> "") @@ ("A_" :> "$B") @@ ("HOME" :> "/h m")
Init == s = ""
Next == Len(s) < MaxLen /\ \E c \in Alphabet : s' = s \o c
Out == LET r == Expand(s, Env) IN IF r.ok THEN [ok |-> r.v] ELSE [err |-> TRUE]
(* text without a dollar or leading ~ is left alone, and expansion without variables never fails *)
PlainKept == (\A i \in 1..Len(s) : Char(s, i) \notin {"$", "~"}) => Expand(s, Env) = Good(s)
Emit == PrintT("@@" \o ToJson([s |-> s, out |-> Out]))
==============================================================================
