----------------------------- MODULE MC_Helpers -----------------------------
(* All words up to a length over the symbols that matter to each helper, and *)
(* longer words of every length round the boundaries.                        *)
EXTENDS TextHelpers, TLC, Json, IOUtils
VARIABLES fn, pre
Tier == IF "VERIF_TIER" \in DOMAIN IOEnv THEN IOEnv.VERIF_TIER ELSE "quick"
Thorough == Tier = "thorough"

One(S) == {<<b>> : b \in S}
Bytes == One({0, 1, 3, 4, 15, 16, 63, 64, 127, 128, 171, 192, 240, 251, 255})
Code == One({65, 66, 90, 97, 122, 48, 57, 43, 47, 61, 45, 10, 32, 0, 64, 91, 96, 123, 200, 255})
Texts == One({32, 9, 10, 11, 12, 13, 0, 8, 14, 97, 122, 65, 73, 90, 105, 64, 91, 96, 123, 128, 160, 224, 255})
Lines == {<<50, 53, 48, 32>>, <<50, 53, 48, 45>>, <<50, 53, 48>>, <<50>>, <<53, 48, 32>>, <<65, 85, 84, 72>>, <<13, 10>>, <<13>>, <<10>>, <<32>>}
Symbols(f) == CASE f \in {"encode", "there and back"} -> Bytes [] f = "decode" -> Code [] f = "complete" -> Lines [] OTHER -> Texts
Depth(f) == (CASE f \in {"encode", "there and back"} -> 3 [] f = "decode" -> 4 [] f = "complete" -> 5 [] f = "trim" -> 4 [] OTHER -> 3) + (IF Thorough THEN 1 ELSE 0)
Short == {"encode", "decode", "there and back", "trimLeft", "trimRight", "trim", "toLower", "toUpper", "complete"}
Ramp(n, from) == [i \in 1..n |-> (from + 37 * i) % 256]
\* every byte alone, first and last
AnyByte == [i \in 1..256 |-> <<i - 1>>]

RECURSIVE Join(_)
Join(s) == IF s = <<>> THEN <<>> ELSE s[1] \o Join(Tail(s))
RECURSIVE Listed(_)
Listed(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o Listed(S \ {x})
Words == CASE fn[1] = "short" -> (IF pre = <<>> THEN <<<<>>>> ELSE <<>>) \o Listed({Join(pre) \o x : x \in Symbols(fn[2])})
           [] fn[1] = "long"  -> [i \in 1..30 |-> Ramp(30 * fn[3] + i - 1, 11 * fn[3] + i)]
           [] fn[1] = "all"   -> AnyByte \o [i \in 1..256 |-> <<97, i - 1>>] \o [i \in 1..256 |-> <<i - 1, 98>>] \o [i \in 1..256 |-> <<32, i - 1, 32>>]
Init == /\ pre = <<>>
        /\ \/ \E f \in Short : fn = <<"short", f>>
           \/ \E f \in Short \ {"complete", "decode"}, k \in 0..(IF Thorough THEN 40 ELSE 9) : fn = <<"long", f, k>>
           \/ \E f \in Short \ {"complete"} : fn = <<"all", f>>
Next == /\ fn[1] = "short" /\ Len(pre) < Depth(fn[2]) - 1
        /\ \E s \in Symbols(fn[2]) : pre' = Append(pre, s)
        /\ UNCHANGED fn
Spec == Init /\ [][Next]_<<fn, pre>>
HelpersSound == LET W == Words IN \A i \in 1..Len(W) : Sound(W[i])
Export ==
  LET W == Words IN
  PrintT(ToJson([plan |-> "helper " \o fn[2] \o " " \o fn[1] \o " " \o ToString(Join(pre)),
                 sc |-> [hosts |-> <<>>, msgs |-> <<>>, script |-> <<>>, fd0 |-> FALSE, short |-> 0, wire |-> FALSE,
                         ops |-> <<[op |-> "helper", f |-> fn[2], words |-> W]>>],
                 exp |-> <<[e |-> "op", i |-> 1, op |-> "helper", c |-> ""],
                           [e |-> "fn", f |-> fn[2], out |-> [i \in 1..Len(W) |-> Apply(fn[2], W[i])]],
                           [e |-> "op", i |-> 2, op |-> "end", c |-> ""], [e |-> "end"]>>]))
=============================================================================
