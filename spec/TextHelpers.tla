---------------------------- MODULE TextHelpers ----------------------------
(* The library's public helpers as functions over byte sequences: base64     *)
(* (RFC 4648), white space, letter case, and the completeness of a list of   *)
(* capabilities.                                                             *)
EXTENDS Integers, Sequences, FiniteSets

Drop(s, n) == SubSeq(s, n + 1, Len(s))
Bit(v, n) == (v \div (2 ^ n)) % 2
\* The character of a value of six bits, and back
Char64(v) == IF v < 26 THEN 65 + v ELSE IF v < 52 THEN 97 + v - 26 ELSE IF v < 62 THEN 48 + v - 52 ELSE IF v = 62 THEN 43 ELSE 47
IsChar64(c) == c \in 65..90 \/ c \in 97..122 \/ c \in 48..57 \/ c = 43 \/ c = 47
Value64(c) == IF c \in 65..90 THEN c - 65 ELSE IF c \in 97..122 THEN c - 97 + 26 ELSE IF c \in 48..57 THEN c - 48 + 52 ELSE IF c = 43 THEN 62 ELSE 63
RECURSIVE Encode(_)
Encode(s) ==
  LET a == s[1] b == s[2] c == s[3] IN
  IF s = <<>> THEN <<>>
  ELSE IF Len(s) = 1 THEN <<Char64(a \div 4), Char64((a % 4) * 16), 61, 61>>
  ELSE IF Len(s) = 2 THEN <<Char64(a \div 4), Char64((a % 4) * 16 + b \div 16), Char64((b % 16) * 4), 61>>
  ELSE <<Char64(a \div 4), Char64((a % 4) * 16 + b \div 16), Char64((b % 16) * 4 + c \div 64), Char64(c % 64)>> \o Encode(Drop(s, 3))
\* Decoding ends at the first character that is not one of the alphabet
RECURSIVE Prefix64(_)
Prefix64(s) == IF s = <<>> \/ ~IsChar64(s[1]) THEN <<>> ELSE <<s[1]>> \o Prefix64(Tail(s))
RECURSIVE Groups(_)
Groups(s) ==
  LET v == [i \in 1..Len(s) |-> Value64(s[i])] IN
  IF Len(s) <= 1 THEN <<>>
  ELSE <<v[1] * 4 + v[2] \div 16>>
       \o (IF Len(s) = 2 THEN <<>> ELSE <<(v[2] % 16) * 16 + v[3] \div 4>>
           \o (IF Len(s) = 3 THEN <<>> ELSE <<(v[3] % 4) * 64 + v[4]>> \o Groups(Drop(s, 4))))
Decode(s) == Groups(Prefix64(s))

IsSpace(c) == c = 32 \/ c \in 9..13
RECURSIVE TrimLeft(_)
TrimLeft(s) == IF s # <<>> /\ IsSpace(s[1]) THEN TrimLeft(Tail(s)) ELSE s
RECURSIVE TrimRight(_)
TrimRight(s) == IF s # <<>> /\ IsSpace(s[Len(s)]) THEN TrimRight(SubSeq(s, 1, Len(s) - 1)) ELSE s
Trim(s) == TrimLeft(TrimRight(s))
Lower(s) == [i \in 1..Len(s) |-> IF s[i] \in 65..90 THEN s[i] + 32 ELSE s[i]]
Upper(s) == [i \in 1..Len(s) |-> IF s[i] \in 97..122 THEN s[i] - 32 ELSE s[i]]

\* The last line of a reply, which may end with a line break, begins with "250 "
EndsWithBreak(s) == Len(s) >= 2 /\ s[Len(s) - 1] = 13 /\ s[Len(s)] = 10
LastLine(s) ==
  LET t == IF EndsWithBreak(s) THEN SubSeq(s, 1, Len(s) - 2) ELSE s
      at == {i \in 1..(Len(t) - 1) : t[i] = 13 /\ t[i + 1] = 10}
      k == IF at = {} THEN 0 ELSE 1 + (CHOOSE i \in at : \A j \in at : j <= i)
  IN Drop(t, k)
Complete(s) == LET l == LastLine(s) IN Len(l) >= 4 /\ SubSeq(l, 1, 4) = <<50, 53, 48, 32>>

Apply(f, s) == CASE f = "encode" -> Encode(s) [] f = "decode" -> Decode(s) [] f = "there and back" -> s
                 [] f = "trimLeft" -> TrimLeft(s) [] f = "trimRight" -> TrimRight(s) [] f = "trim" -> Trim(s)
                 [] f = "toLower" -> Lower(s) [] f = "toUpper" -> Upper(s)
                 [] f = "complete" -> IF Complete(s) THEN <<1>> ELSE <<0>>
\* What one may expect of these functions
Sound(s) ==
  LET E == Encode(s) T == Trim(s) IN
  /\ Decode(E) = s /\ Len(E) = 4 * ((Len(s) + 2) \div 3)
  /\ \A i \in 1..Len(E) : IsChar64(E[i]) \/ E[i] = 61
  /\ Trim(T) = T /\ T = TrimRight(TrimLeft(s)) /\ (T # <<>> => ~IsSpace(T[1]))
  /\ Lower(Upper(s)) = Lower(s) /\ Lower(Lower(s)) = Lower(s) /\ Len(Lower(s)) = Len(s)
  /\ (Complete(s) => Complete(s \o <<13, 10>>) \/ EndsWithBreak(s))
=============================================================================
