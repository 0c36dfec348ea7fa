--------------------------- MODULE MessageFormat ---------------------------
(* The content of a message as bytes: how a text becomes the lines that are  *)
(* transmitted after DATA, and what a conforming receiver makes of them.     *)
EXTENDS Integers, Sequences

CRLF == <<13, 10>>
Dot  == 46
At(w, i, p) == i >= 1 /\ i + Len(p) - 1 <= Len(w) /\ SubSeq(w, i, i + Len(p) - 1) = p
RECURSIVE Find(_, _, _)
Find(w, p, i) == IF i + Len(p) - 1 > Len(w) THEN 0
                 ELSE IF w[i] = p[1] /\ At(w, i, p) THEN i ELSE Find(w, p, i + 1)
\* The bytes of w whose positions satisfy Keep
Kept(w, Keep(_)) == LET s == SelectSeq([i \in 1..Len(w) |-> i], Keep) IN [k \in 1..Len(s) |-> w[s[k]]]

LineStart(w, i) == i = 1 \/ (i > 2 /\ w[i - 1] = 10 /\ w[i - 2] = 13)
\* RFC 5321 4.5.2: a line that begins with a dot gets another one, the receiver takes it away
RECURSIVE StuffFrom(_, _)
StuffFrom(w, i) == IF i > Len(w) THEN <<>>
                   ELSE (IF w[i] = Dot /\ LineStart(w, i) THEN <<Dot, Dot>> ELSE <<w[i]>>) \o StuffFrom(w, i + 1)
Stuff(w) == StuffFrom(w, 1)
Unstuff(w) == Kept(w, LAMBDA i : ~(w[i] = Dot /\ LineStart(w, i)))

EndMark == <<13, 10, 46, 13, 10>>
\* The first position at which a server that reads s after DATA sees the end
EndAt(s) == IF At(s, 1, <<46, 13, 10>>) THEN 1 ELSE Find(s, EndMark, 1)

\* The receiver's view: what lies between the headers of the first part and the next boundary
Boundary(w) ==
  LET name == <<98, 111, 117, 110, 100, 97, 114, 121, 61>>      \* boundary=
      at == Find(w, name, 1) + Len(name)
      eol == Find(w, CRLF, at)
  IN SubSeq(w, at, eol - 1)
FirstPart(w) ==
  LET head == Find(w, CRLF \o CRLF, 1)
      delim == <<45, 45>> \o Boundary(w)
      start == Find(w, delim, head + 2)
      body == Find(w, CRLF \o CRLF, start) + 4
      next == Find(w, CRLF \o delim, body - 2)
  IN SubSeq(w, body, IF next = 0 THEN Len(w) ELSE next - 1)

\* The content that carries a body, for a boundary
ContentOf(mark, body) ==
  LET ct == <<67, 58>>  \* the headers do not matter here, but the boundary does
  IN ct \o <<98, 111, 117, 110, 100, 97, 114, 121, 61>> \o mark \o CRLF \o CRLF \o <<45, 45>> \o mark \o CRLF \o ct \o CRLF \o CRLF \o body \o CRLF
\* Everything that the two sides have to agree upon, for a body
Faithful(mark, body) ==
  LET c == ContentOf(mark, body)
      sent == Stuff(c) \o EndMark
      seen == SubSeq(sent, 1, EndAt(sent) + 1)
  IN /\ EndAt(sent) = Len(sent) - 4
     /\ Unstuff(Stuff(c)) = c
     /\ (Find(body, mark, 1) = 0) => FirstPart(Unstuff(seen)) = body \o CRLF \o CRLF
=============================================================================
