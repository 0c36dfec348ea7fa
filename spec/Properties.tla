----------------------------- MODULE Properties -----------------------------
(* The properties as predicates on histories: they are checked on every      *)
(* behaviour of the specification (as invariants of the models) and on every *)
(* history recorded from the implementation (by Judge).                      *)
(* A history is a sequence of events; plan-like record sc tells the caller's *)
(* side.  A return of the specification carries the set of codes that are    *)
(* allowed (ok), a recorded one the code it has returned (code).             *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Rng(f) == {f[x] : x \in DOMAIN f}
Sel(s, e) == SelectSeq(s, LAMBDA x : x.e = e)
Count(s, Test(_)) == Len(SelectSeq(s, Test))
Codes(ret) == IF "code" \in DOMAIN ret THEN {ret.code}
              ELSE IF "set" \in DOMAIN ret THEN ret.set ELSE ret.ok

\* The segments of a history: what happens from one operation to the next
OpPositions(h) == SelectSeq([i \in 1..Len(h) |-> i], LAMBDA i : h[i].e = "op")
Segments(h) ==
  LET P == OpPositions(h)
  IN [k \in 1..Len(P) |-> SubSeq(h, P[k], IF k = Len(P) THEN Len(h) ELSE P[k + 1] - 1)]
IsSend(seg) == seg[1].op = "send"
HasRet(seg) == \E i \in 1..Len(seg) : seg[i].e = "ret"
Ret(seg) == LET i == CHOOSE i \in 1..Len(seg) : seg[i].e = "ret" IN seg[i]

Cmds(seg) == Sel(seg, "cmd")
Datas(seg) == Sel(seg, "data")
CmdsOf(seg, v) == SelectSeq(seg, LAMBDA x : x.e = "cmd" /\ x.v = v)
RepsOf(seg, st, c) == SelectSeq(seg, LAMBDA x : x.e = "rep" /\ x.s = st /\ x.c = c)
MsgOf(msgs, id) == LET k == CHOOSE k \in 1..Len(msgs) : msgs[k].id = id IN msgs[k]
AllRecipients(m) == [i \in 1..Len(m.to) |-> m.to[i].a] \o [i \in 1..Len(m.cc) |-> m.cc[i].a] \o [i \in 1..Len(m.bcc) |-> m.bcc[i].a]
PrefixOf(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a

\* C01: success means that the server accepted everything, the message last
Accepted(seg, m) ==
  /\ Len(RepsOf(seg, "MAIL", 250)) >= 1
  /\ Len(CmdsOf(seg, "RCPT")) = Len(AllRecipients(m))
  /\ Len(RepsOf(seg, "RCPT", 250)) = Len(AllRecipients(m))
  /\ Len(CmdsOf(seg, "DATA")) = 1 /\ Len(RepsOf(seg, "DATA", 354)) = 1
  /\ Len(Datas(seg)) = 1 /\ Len(RepsOf(seg, "EOD", 250)) = 1
SuccessIsAcceptance(seg, msgs) ==
  IsSend(seg) /\ HasRet(seg) => (0 \in Codes(Ret(seg)) => Accepted(seg, MsgOf(msgs, Ret(seg).m)))

\* C03: the envelope
EnvelopeExact(seg, msgs) ==
  IsSend(seg) /\ HasRet(seg) =>
    LET m == MsgOf(msgs, Ret(seg).m)
        mails == CmdsOf(seg, "MAIL")
        rcpts == [i \in 1..Len(CmdsOf(seg, "RCPT")) |-> CmdsOf(seg, "RCPT")[i].a]
        content == Count(seg, LAMBDA x : x.e \in {"data", "el", "cutdata"} \/ (x.e = "cmd" /\ x.v = "DATA")) > 0
    IN /\ \A i \in 1..Len(mails) : mails[i].a = m.from.a
       /\ PrefixOf(rcpts, AllRecipients(m))
       /\ (content \/ 0 \in Codes(Ret(seg))) =>
             /\ rcpts = AllRecipients(m)
             /\ Len(RepsOf(seg, "RCPT", 250)) = Len(rcpts)
             /\ Len(RepsOf(seg, "MAIL", 250)) = 1

\* C07: what may pass in clear
Confidential == {"from", "rcpt", "bcc", "subj", "body", "pw", "user"}
KindOfConn(h, n) == LET i == CHOOSE i \in 1..Len(h) : h[i].e = "conn" /\ h[i].n = n IN h[i]

\* C08: after a refused certificate nothing else is observed on that connection
AfterRefusal(h, n) ==
  LET P == {i \in 1..Len(h) : h[i].e = "tls" /\ h[i].n = n}
  IN \A p \in P : \A i \in (p + 1)..Len(h) : ~(h[i].e \in {"cmd", "el", "data"} /\ h[i].n = n)

\* C13: every connection that was opened is closed once, and not used afterwards
ReleasedOnce(h) ==
  \A n \in {h[i].n : i \in {j \in 1..Len(h) : h[j].e = "open"}} :
     /\ Count(h, LAMBDA x : x.e = "open" /\ x.n = n) = 1
     /\ Count(h, LAMBDA x : x.e = "close" /\ x.n = n) = 1
     /\ LET c == CHOOSE i \in 1..Len(h) : h[i].e = "close" /\ h[i].n = n
        IN \A i \in (c + 1)..Len(h) : ~(h[i].e \in {"open", "conn", "cmd", "el", "data", "tls", "clear"} /\ h[i].n = n)

\* C14: QUIT at most once on a connection, and nothing after it
QuitIsLast(h) ==
  \A i \in 1..Len(h) : h[i].e = "cmd" /\ h[i].v = "QUIT" =>
     \A j \in (i + 1)..Len(h) : ~(h[j].e \in {"cmd", "el", "data"} /\ h[j].n = h[i].n)

\* Steps in the order in which they are taken
Rank(st) ==
  CASE st = "CONNECT" -> 0 [] st = "GREET" -> 1 [] st = "EHLO" -> 2 [] st = "STARTTLS" -> 3
    [] st = "TLS" -> 4 [] st = "EHLO2" -> 5 [] st = "AUTH" -> 6 [] st = "AUTHU" -> 7 [] st = "AUTHP" -> 8
    [] st = "MAIL" -> 9 [] st = "RCPT" -> 10 [] st = "DATA" -> 11
    [] st \in {"H:From", "H:To", "H:Cc", "H:Subject", "H:CT", "BODY", "BODY2"} -> 12
    [] st = "EOD" -> 13 [] OTHER -> 14

\* C02: what a failed send has transmitted ends with the step that failed
NothingLater(seg) ==
  IsSend(seg) /\ HasRet(seg) /\ 0 \notin Codes(Ret(seg)) /\ "st" \in DOMAIN Ret(seg) =>
    /\ \A x \in Rng(Cmds(seg)) : x.v = "QUIT" \/ Rank(x.v) <= Rank(Ret(seg).st)
    /\ \A x \in Rng(seg) : x.e = "el" => Rank(Ret(seg).st) >= 12
    /\ \A x \in Rng(seg) : x.e = "data" => Rank(Ret(seg).st) >= 13

\* C07: no confidential command in clear; only histories of the specification tell the kind of client
AuthSteps == {"AUTH", "AUTHU", "AUTHP"}
NothingInClear(h) ==
  \A i \in 1..Len(h) : h[i].e \in {"cmd", "el", "data"} /\ ~h[i].tls =>
    LET kind == KindOfConn(h, h[i].n).kind
        started == \E j \in 1..i : h[j].e = "cmd" /\ h[j].n = h[i].n /\ h[j].v = "STARTTLS"
    IN /\ kind # "forced"
       /\ kind = "opp" => h[i].e # "cmd" \/ h[i].v \notin AuthSteps
       /\ kind = "opp" /\ started => h[i].e = "cmd" /\ h[i].v \in {"STARTTLS", "QUIT"}

\* C10: sender, recipients and content only after the authentication was accepted
AuthenticatedFirst(h) ==
  \A i \in 1..Len(h) : h[i].e = "cmd" /\ h[i].v = "MAIL" =>
    LET before == {j \in 1..(i - 1) : h[j].e \in {"cmd", "rep"} /\ h[j].n = h[i].n} IN
    (\E j \in before : h[j].e = "cmd" /\ h[j].v = "AUTH") => \E j \in before : h[j].e = "rep" /\ h[j].s \in AuthSteps /\ h[j].c = 235

\* C14: one greeting, encryption, authentication for a connection
OneSession(h) ==
  \A n \in {h[i].n : i \in {j \in 1..Len(h) : h[j].e = "conn"}} :
    /\ \A v \in {"EHLO", "STARTTLS", "EHLO2", "AUTH", "QUIT"} : Count(h, LAMBDA x : x.e = "cmd" /\ x.n = n /\ x.v = v) <= 1
    /\ Count(h, LAMBDA x : x.e = "rep" /\ x.n = n /\ x.s = "GREET") <= 1
    /\ Count(h, LAMBDA x : x.e = "tls" /\ x.n = n) <= 1

\* C15: a send that opens a connection on which the server does nothing unusual succeeds,
\* unless no method of authentication suits or there is no such server
HealthyOpens(seg, scr) ==
  IsSend(seg) /\ HasRet(seg) =>
    \A x \in Rng(Sel(seg, "conn")) :
      Len(scr[x.n]) = 0 /\ x.r # "nx" /\ ~(Codes(Ret(seg)) = {-84}) => Codes(Ret(seg)) = {0}

\* All of them, on a whole history of the specification
Holds(h, msgs, scr) ==
  LET S == Segments(h) IN
  /\ \A k \in 1..Len(S) : /\ SuccessIsAcceptance(S[k], msgs)
                           /\ EnvelopeExact(S[k], msgs)
                           /\ NothingLater(S[k])
                           /\ HealthyOpens(S[k], scr)
  /\ \A x \in Rng(Sel(h, "tls")) : ~x.acc => AfterRefusal(h, x.n)
  /\ NothingInClear(h)
  /\ AuthenticatedFirst(h)
  /\ ReleasedOnce(h)
  /\ QuitIsLast(h)
  /\ OneSession(h)
=============================================================================
