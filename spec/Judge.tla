------------------------------- MODULE Judge -------------------------------
(* Checks recorded histories against the specification.  Each record of the  *)
(* file TRACES holds the caller's side and the script (sc), the behaviour of *)
(* the specification (exp) and the history recorded from the implementation  *)
(* under that script (obs).  For the property PROP the history has to satisfy*)
(* the property itself and to agree with the specification in what the       *)
(* property speaks about.                                                    *)
EXTENDS Properties, MessageFormat, Json, IOUtils

Prop == IOEnv.PROP
T == ndJsonDeserialize(IOEnv.TRACES)

----------------------------------------------------------------------------
OkSet(x) == Rng(Ret(x).ok)
Succeeds(x) == OkSet(x) = {0}
Fails(x) == 0 \notin OkSet(x)
Code(o) == Ret(o).code
Cmd(x) == [n |-> x.n, v |-> x.v, i |-> x.i, a |-> x.a, x |-> x.x, tls |-> x.tls]
CmdSeq(seg) == LET s == SelectSeq(seg, LAMBDA x : x.e = "cmd" /\ x.v # "QUIT") IN [i \in 1..Len(s) |-> Cmd(s[i])]
Project(seg, Test(_), f(_)) == LET s == SelectSeq(seg, Test) IN [i \in 1..Len(s) |-> f(s[i])]
Contents(seg) == Project(seg, LAMBDA x : x.e = "data", LAMBDA x : [n |-> x.n, tls |-> x.tls, i |-> x.i, m |-> x.m])
Anoms(seg) == {x.k : x \in Rng(Sel(seg, "anom"))}
Closes(seg) == {x.n : x \in Rng(Sel(seg, "close"))}
Conns(seg) == Project(seg, LAMBDA x : x.e = "conn", LAMBDA x : [n |-> x.n, host |-> x.host, port |-> x.port])
BadSequences == {"bad-sequence-STARTTLS", "bad-sequence-AUTH", "bad-sequence-MAIL", "bad-sequence-RCPT", "bad-sequence-DATA"}
Min(a, b) == IF a < b THEN a ELSE b

\* A reason is reported for every clause that does not hold
If(bad, why) == IF bad THEN {why} ELSE {}

\* Number of EOD acceptances
AcceptedMessages(seg) == Len(RepsOf(seg, "EOD", 250))

C01(X, O, r) ==
  If(Succeeds(X) /\ Code(O) # 0, "a send that the server accepted did not report success")
  \cup If(Fails(X) /\ Code(O) = 0, "a send reported success although a step failed")
  \cup If(Code(O) = 0 /\ ~Accepted(O, MsgOf(r.sc.msgs, Ret(O).m)), "success without the server's acceptance of every step")
  \cup If((Succeeds(X) \/ Code(O) = 0) /\ AcceptedMessages(O) # 1, "the server did not accept the message exactly once")

LaterLine(t, k) ==
  \/ k < 9 /\ Len(t) >= 5 /\ SubSeq(t, 1, 5) \in {"MAIL ", "mail "}
  \/ k < 10 /\ Len(t) >= 5 /\ SubSeq(t, 1, 5) \in {"RCPT ", "rcpt "}
  \/ k < 11 /\ t \in {"DATA", "data"}
  \/ k < 12 /\ Len(t) >= 5 /\ SubSeq(t, 1, 5) \in {"From:", "Subje"}
LostLines(O) == UNION {{x.t : x \in {y \in Rng(t.tx) : y.p = "l"}} : t \in Rng(Sel(O, "tx"))}
C02(X, O, r) ==
  LET k == Rank(Ret(X).st) IN
  If(Code(O) \notin OkSet(X), "code " \o ToString(Code(O)) \o " instead of " \o ToString(OkSet(X)) \o " when " \o Ret(X).st \o " failed (" \o Ret(X).why \o ")")
  \cup If(Fails(X) /\ \E x \in Rng(Cmds(O)) : x.v # "QUIT" /\ Rank(x.v) > k, "a later step was transmitted after the failure of " \o Ret(X).st)
  \cup If(Fails(X) /\ k < 12 /\ Count(O, LAMBDA x : x.e \in {"el", "data"}) > 0, "content was transmitted after the failure of " \o Ret(X).st)
  \cup If(Fails(X) /\ k < 13 /\ Len(Datas(O)) > 0, "the message was completed after the failure of " \o Ret(X).st)
  \cup If(Fails(X) /\ \E t \in LostLines(O) : LaterLine(t, k), "a later step was sent after the failure of " \o Ret(X).st)
  \cup If(Fails(X) /\ Len(CmdsOf(O, "RCPT")) > Len(CmdsOf(X, "RCPT")), "more recipients after a refusal")

C03(X, O, r) ==
  If(~EnvelopeExact(O, r.sc.msgs), "the envelope is not the message's")
  \cup If(Succeeds(X) /\ Project(O, LAMBDA x : x.e = "cmd" /\ x.v \in {"MAIL", "RCPT"}, LAMBDA x : <<x.v, x.a>>)
             # Project(X, LAMBDA x : x.e = "cmd" /\ x.v \in {"MAIL", "RCPT"}, LAMBDA x : <<x.v, x.a>>), "envelope differs from the specification's")

\* The contents received, pairwise
Pairs(X, O, why, F(_)) ==
  LET a == Contents(X) b == Contents(O) IN
  UNION {If(F(a[i].m) # F(b[i].m), why \o ": " \o ToString(F(b[i].m)) \o " instead of " \o ToString(F(a[i].m))) : i \in 1..Min(Len(a), Len(b))}
Addressing(m) == <<m.from, m.nfrom, m.to, m.cc>>
Subjects(X, O) ==
  LET a == Contents(X) b == Contents(O) IN
  UNION {If(a[i].m.subj # "=" /\ a[i].m.subj # b[i].m.subj, "subject " \o b[i].m.subj \o " instead of " \o a[i].m.subj)
         \cup If(a[i].m.subj = "=" /\ Ret(O).m \notin Rng(b[i].m.subjof), "another subject") : i \in 1..Min(Len(a), Len(b))}
CountHdr(m, h) == Len(SelectSeq(m.headers, LAMBDA x : x = h))
AddressHeaders(m) == <<CountHdr(m, "From"), CountHdr(m, "To"), CountHdr(m, "Cc"), CountHdr(m, "Subject"), CountHdr(m, "Bcc"), m.bcc>>
C04(X, O, r) == Subjects(X, O) \cup Pairs(X, O, "address headers", Addressing) \cup Pairs(X, O, "headers", AddressHeaders)

BodyView(m) == <<m.body, m.mime, m.charset>>
\* The receiver of the specification on the bytes of the wire
WireBody(r, d) ==
  IF "w" \notin DOMAIN d.m \/ SubSeq(d.m.body, 1, 1) # "=" THEN {}
  ELSE LET id == SubSeq(d.m.body, 2, Len(d.m.body))
           m == MsgOf(r.sc.msgs, id)
           got == FirstPart(Unstuff(d.m.w))
       IN IF Len(m.bytes) = 0 THEN {}
          ELSE If(got \notin {m.bytes, m.bytes \o CRLF, m.bytes \o CRLF \o CRLF}, "the bytes transmitted carry another body")
\* What follows the body in its part is the same for all messages of a kind
SameTails(h) ==
  LET ds == Sel(h, "data") IN
  \A i, j \in 1..Len(ds) : (ds[i].m.nparts = 1) = (ds[j].m.nparts = 1) => ds[i].m.tail = ds[j].m.tail \/ -1 \in {ds[i].m.tail, ds[j].m.tail}
C05(X, O, r) ==
  Pairs(X, O, "body", BodyView)
  \cup UNION {WireBody(r, d) : d \in Rng(Datas(O))}
  \cup If(Succeeds(X) /\ Len(Datas(O)) # 1, "the server did not see exactly one message")
  \cup If(Succeeds(X) /\ Len(CmdsOf(O, "?")) > 0, "content was taken for a command")
  \cup If(Succeeds(X) /\ Code(O) # 0, "the message was not delivered")

Structure(m) == <<m.headers, m.phdr, m.nparts, m.bare>>
C06(X, O, r) ==
  Pairs(X, O, "structure", Structure)
  \cup If(Succeeds(X) /\ CmdSeq(X) # CmdSeq(O), "the commands differ from those of harmless text")
  \cup If(Succeeds(X) /\ Len(Datas(O)) # 1, "not exactly one message")
  \cup If(Anoms(O) \cap {"bare-lf-in-command", "bare-cr-in-command"} # {}, "stray line break in a command")

ClearAllowed(X, n) == UNION {Rng(x.k) : x \in {y \in Rng(Sel(X, "clear")) : y.n = n}}
C07(h, X, O, r) ==   \* h: the whole specified history, O: the whole recorded one
  UNION {LET al == ClearAllowed(h, x.n) IN
         If(~(Rng(x.k) \subseteq al), "in clear on connection " \o ToString(x.n) \o ": " \o ToString(Rng(x.k) \ al)) : x \in Rng(Sel(O, "clear"))}
  \cup UNION {LET al == ClearAllowed(h, x.n) IN
         If(~x.tls /\ ((x.v \in {"MAIL", "RCPT"} /\ "from" \notin al) \/ (x.v \in {"AUTH", "AUTHU", "AUTHP"} /\ "pw" \notin al)), x.v \o " in clear")
         : x \in Rng(Sel(O, "cmd"))}
  \cup UNION {LET al == ClearAllowed(h, x.n) IN If(~x.tls /\ "body" \notin al, "content in clear") : x \in Rng(Sel(O, "el")) \cup Rng(Sel(O, "data"))}

Handshakes(seg) == Rng(Sel(seg, "tls"))
C08(X, O, r) ==
  UNION {
    IF ~t.acc
    THEN If(\E x \in Rng(O) : x.e \in {"cmd", "el", "data"} /\ x.n = t.n /\ (x.e # "cmd" \/ x.v \notin {"EHLO", "STARTTLS"}), "something was sent after the handshake was refused")
         \cup If(Code(O) \notin OkSet(X), "code " \o ToString(Code(O)) \o " after a refused handshake")
         \cup If(t.n \notin Closes(O), "the connection was not closed after a refused handshake")
    ELSE If(Succeeds(X) /\ Code(O) # 0, "a valid certificate was refused")
    : t \in Handshakes(X)}

C09(X, O, r) ==
  If(Fails(X) /\ Code(O) = 0, "success although the encryption failed")
  \cup If(Len(CmdsOf(O, "STARTTLS")) # Len(CmdsOf(X, "STARTTLS")), "STARTTLS not used as offered")
  \cup If(\E x \in Rng(Cmds(O)) : ~x.tls /\ x.v \notin {"EHLO", "STARTTLS", "QUIT"} /\
             \E y \in Rng(Cmds(X)) : y.v = "STARTTLS" /\ y.n = x.n, "continued in clear")
  \cup If(\E x \in Rng(Cmds(X)) : x.tls /\ ~\E y \in Rng(Cmds(O)) : y.tls /\ y.v = x.v, "not continued over the encrypted channel")
  \cup If(Ret(X).inclear /\ Succeeds(X) /\ (Code(O) # 0 \/ ~Ret(O).saysclear), "continues in clear without telling")

Auths(seg) == Project(seg, LAMBDA x : x.e = "cmd" /\ x.v \in {"AUTH", "AUTHU", "AUTHP"}, Cmd)
C10(X, O, r) ==
  If(Auths(X) # Auths(O), "authentication dialogue " \o ToString(Auths(O)) \o " instead of " \o ToString(Auths(X)))
  \cup If(Len(CmdsOf(X, "MAIL")) = 0 /\ Len(CmdsOf(O, "MAIL")) > 0, "a sender was transmitted without authentication")
  \cup If(OkSet(X) = {-84} /\ Code(O) # -84, "wrong code when no method is supported")

\* C11: the log is the transcript
LogLines(o, p) == Project(Ret(o).log, LAMBDA x : x.p = p, LAMBDA x : x.t)
TxLines(o) == IF Len(Sel(o, "tx")) = 0 THEN <<>> ELSE Sel(o, "tx")[1].tx
RECURSIVE Subsequence(_, _, _, _)
Subsequence(a, i, b, j) ==   \* a (from i on) is a subsequence of b (from j on)
  IF i > Len(a) THEN TRUE ELSE IF j > Len(b) THEN FALSE
  ELSE IF a[i] = b[j] THEN Subsequence(a, i + 1, b, j + 1) ELSE Subsequence(a, i, b, j + 1)
Sent(t) == SelectSeq(t, LAMBDA x : x.p \in {"c", "s"})
C11(X, O, r) ==
  LET tx == TxLines(O)
      plain == Project(tx, LAMBDA x : x.p \in {"c", "s"}, LAMBDA x : <<x.p, x.t>>)
      lines == Project(Ret(O).log, LAMBDA x : x.p \in {"c", "s"}, LAMBDA x : <<x.p, x.t>>)
      replies == Project(tx, LAMBDA x : x.p = "s", LAMBDA x : x.t)
  IN If(Ret(O).leak, "the log contains the password")
     \cup If(~Subsequence(plain, 1, lines, 1), "the log does not contain every command and reply in order")
     \cup If(\E x \in Rng(LogLines(O, "s")) : x \notin Rng(replies) /\ x \notin {"Warning: Self signed certificate"} /\ Succeeds(X), "the log has a reply that was not received")
     \cup If(\E x \in Rng(replies) : Count(LogLines(O, "s"), LAMBDA y : y = x) # Count(replies, LAMBDA y : y = x), "a reply is logged more or less often than received")
     \cup If(Succeeds(X) /\ \E x \in {y[2] : y \in Rng(SelectSeq(plain, LAMBDA z : z[1] = "c"))} :
              Count(LogLines(O, "c"), LAMBDA y : y = x) # Count(tx, LAMBDA y : y.p = "c" /\ y.t = x), "a command is logged more or less often than sent")
     \cup If(Succeeds(X) /\ \E x \in {y \in Rng(tx) : y.p = "x" /\ Len(y.t) >= 5 /\ SubSeq(y.t, 1, 5) = "AUTH "} :
              ~\E y \in Rng(LogLines(O, "c")) : Len(y) >= 4, "the authentication is not logged")

C12(X, O, r) ==
  If(Ret(O).el > Ret(X).mx, "returned after " \o ToString(Ret(O).el) \o " s, more than " \o ToString(Ret(X).mx))
  \cup If(Ret(X).why \in {"silent", "timeout"} /\ Code(O) \notin OkSet(X), "code " \o ToString(Code(O)) \o " instead of " \o ToString(OkSet(X)) \o " when the server was silent at " \o Ret(X).st)
  \cup If(Succeeds(X) /\ Code(O) # 0, "an answer within the timeout was not used")

FdAnoms(seg) == {k \in Anoms(seg) : Len(k) >= 2 /\ k \notin BadSequences /\ k \notin {"bare-lf-in-command", "bare-cr-in-command", "hang", "spin"}}
C13(X, O, r) ==
  If(FdAnoms(O) # {}, "descriptor misuse: " \o ToString(FdAnoms(O)))
  \cup If(Closes(X) # Closes(O), "closed connections " \o ToString(Closes(O)) \o " instead of " \o ToString(Closes(X)))

\* Connections without any scripted disturbance
Undisturbed(r, n) == n <= Len(r.sc.script) /\ Len(r.sc.script[n]) = 0
Tally(seg, n) == [conn |-> Count(seg, LAMBDA x : x.e = "conn" /\ x.n = n),
                  greet |-> Count(seg, LAMBDA x : x.e = "rep" /\ x.s = "GREET" /\ x.n = n),
                  tls |-> Count(seg, LAMBDA x : x.e = "tls" /\ x.n = n),
                  cmds |-> [v \in {"EHLO", "STARTTLS", "EHLO2", "AUTH", "MAIL", "QUIT"} |-> Count(seg, LAMBDA x : x.e = "cmd" /\ x.v = v /\ x.n = n)]]
C14(X, O, r) ==
  LET ns == {x.n : x \in {y \in Rng(X) \cup Rng(O) : y.e \in {"conn", "cmd"}}} IN
  UNION {If(Undisturbed(r, n) /\ Tally(X, n) # Tally(O, n), "connection " \o ToString(n) \o ": " \o ToString(Tally(O, n)) \o " instead of " \o ToString(Tally(X, n))) : n \in ns}
  \cup If(\E n \in ns : n > Len(r.sc.script), "a connection too many")

Delivered(seg) == Project(seg, LAMBDA x : x.e = "data", LAMBDA x : [n |-> x.n, i |-> x.i, m |-> x.m])
Trim(m) == [f \in (DOMAIN m) \ {"closed", "w"} |-> m[f]]
C15(X, O, r) ==
  If(Succeeds(X) /\ Code(O) # 0, "a send to a healthy server failed after an earlier failure")
  \cup If(Succeeds(X) /\ CmdSeq(X) # CmdSeq(O), "the commands are not those of a clean session")
  \cup If(Anoms(O) \cap BadSequences # {}, "commands out of sequence")
  \cup If(Succeeds(X) /\ Len(Datas(O)) # 1, "not exactly one message")

Same(X, O, kinds) == Project(X, LAMBDA x : x.e \in kinds, LAMBDA x : x) = Project(O, LAMBDA x : x.e \in kinds, LAMBDA x : x)
\* Every log shown is that of the send specified (several sends may have the same log)
Logs(X, O) ==
  LET a == Sel(X, "logof") b == Sel(O, "logof") IN
  If(Len(a) # Len(b), "not as many logs") \cup
  UNION {If(a[i].c # b[i].c \/ a[i].at[1] \notin Rng(b[i].at), "client " \o b[i].c \o " shows the log of " \o ToString(b[i].at) \o " instead of " \o ToString(a[i].at[1])) : i \in 1..Min(Len(a), Len(b))}
C17(X, O, r) ==
  Logs(X, O) \cup
  If(~Same(X, O, {"get"}), "configuration " \o ToString(Sel(O, "get")) \o " instead of " \o ToString(Sel(X, "get")))
  \cup If(Conns(X) # Conns(O), "connections " \o ToString(Conns(O)) \o " instead of " \o ToString(Conns(X)))
  \cup If(Closes(X) # Closes(O), "closed connections " \o ToString(Closes(O)) \o " instead of " \o ToString(Closes(X)))
  \cup If(FdAnoms(O) # {}, "descriptor misuse: " \o ToString(FdAnoms(O)))
  \cup (IF IsSend(X) /\ HasRet(X) THEN
          If(Succeeds(X) /\ Code(O) # 0, "send failed")
          \cup If(Succeeds(X) /\ CmdSeq(X) # CmdSeq(O), "the commands are not those of the client's own session")
        ELSE {})

C21View(m) == <<m.att, m.nparts, m.body>>
AttView(a) == [f \in {"mime", "disp", "name", "cid", "data"} |-> a[f]]
Files(m) == <<[i \in 1..Len(m.att) |-> AttView(m.att[i])], m.nparts, m.body>>
C21(X, O, r) ==
  Pairs(X, O, "attachments", Files)
  \cup If(Succeeds(X) /\ (Code(O) # 0 \/ Len(Datas(O)) # 1), "the message was not delivered")

C22(X, O, r) ==
  If(Code(O) \notin OkSet(X), "result " \o ToString(Code(O)) \o " instead of " \o ToString(OkSet(X)))
  \cup If(Succeeds(X) /\ CmdSeq(X) # CmdSeq(O), "the commands depend on how replies are split")
  \cup If(Succeeds(X) /\ Len(Datas(O)) # 1, "not exactly one message")

\* C24: a client in one thread is not affected by the one in the other
C24(X, O, r) ==
  If(Code(O) \notin OkSet(X), "result " \o ToString(Code(O)) \o " instead of " \o ToString(OkSet(X)) \o " when another thread sends")
  \cup If(CmdSeq(X) # CmdSeq(O), "commands " \o ToString(CmdSeq(O)) \o " instead of " \o ToString(CmdSeq(X)))
  \cup If(Conns(X) # Conns(O), "connections " \o ToString(Conns(O)) \o " instead of " \o ToString(Conns(X)))
  \cup If(Succeeds(X) /\ Len(Datas(O)) # 1, "not exactly one message")
  \cup If(Ret(O).el > Ret(X).mx, "returned after " \o ToString(Ret(O).el) \o " s")
  \cup Pairs(X, O, "content", Files) \cup Pairs(X, O, "content", Addressing) \cup Pairs(X, O, "content", BodyView) \cup Subjects(X, O)
  \cup C11(X, O, r)

\* C25: as without signals, and in the same time
C25(X, O, r) ==
  LET most == Ret(X).d + 4 + 2 * Ret(X).mn IN
  If(Code(O) \notin OkSet(X), "result " \o ToString(Code(O)) \o " instead of " \o ToString(OkSet(X)) \o " when signals are handled")
  \cup If(Succeeds(X) /\ CmdSeq(X) # CmdSeq(O), "the commands are not those sent without signals")
  \cup If(Succeeds(X) /\ Len(Datas(O)) # 1, "not exactly one message")
  \cup Pairs(X, O, "content", Files)
  \cup If(Ret(O).el < Ret(X).mn, "given up after " \o ToString(Ret(O).el) \o " s, before the timeout")
  \cup If(Ret(O).el > most, "returned after " \o ToString(Ret(O).el) \o " s, more than " \o ToString(most))

\* C26: nothing is left behind
LeftBehind(h) ==
  LET l == Sel(h, "left") IN
  IF Len(l) # 1 THEN {"what is left was not determined"}
  ELSE If(l[1].blocks > 0, ToString(l[1].blocks) \o " blocks of memory are left behind")
       \cup If(l[1].files > 0, ToString(l[1].files) \o " descriptors are left behind")

\* C27: nothing but the connection and the log changes
Missing(r) == \E m \in Rng(r.sc.msgs) : \E a \in Rng(m.att) : "mode" \in DOMAIN a /\ a.mode \in {"missing", "dir"}
SideEffects(h, r) ==
  UNION {If(TRUE, "a send changed the " \o ToString(x.k)) : x \in Rng(Sel(h, "side"))}
  \cup UNION {If(~Missing(r), "a send has printed " \o x.t) : x \in Rng(Sel(h, "said"))}
C27(X, O, r) ==
  If(Succeeds(X) /\ Code(O) # 0, "a message that was sent before cannot be sent again")
  \cup Pairs(X, O, "content", Files) \cup Pairs(X, O, "content", Addressing) \cup Pairs(X, O, "content", BodyView) \cup Subjects(X, O)
  \cup If(Succeeds(X) /\ CmdSeq(X) # CmdSeq(O), "commands " \o ToString(CmdSeq(O)) \o " instead of " \o ToString(CmdSeq(X)))

\* C28: as in any other locale
C28(X, O, r) ==
  If(~Same(X, O, {"val", "exc", "eq", "get", "err", "fn"}), "answers " \o ToString(Sel(O, "val") \o Sel(O, "exc") \o Sel(O, "eq") \o Sel(O, "get")) \o " instead of " \o ToString(Sel(X, "val") \o Sel(X, "exc") \o Sel(X, "eq") \o Sel(X, "get")))
  \cup (IF IsSend(X) /\ HasRet(X) /\ HasRet(O) THEN
          If(Code(O) \notin OkSet(X), "result " \o ToString(Code(O)) \o " instead of " \o ToString(OkSet(X)))
          \cup If(Ret(O).grouped, "a number in the log is written in the manner of the locale")
          \cup If(Succeeds(X) /\ CmdSeq(X) # CmdSeq(O), "commands " \o ToString(CmdSeq(O)) \o " instead of " \o ToString(CmdSeq(X)))
          \cup Pairs(X, O, "content", Files) \cup Pairs(X, O, "content", Addressing) \cup Pairs(X, O, "content", BodyView)
          \cup Pairs(X, O, "content", AddressHeaders) \cup Pairs(X, O, "content", Structure) \cup Subjects(X, O)
        ELSE {})

E == INSTANCE ErrorMessages
C19(X, O, r) ==
  If(~Same(X, O, {"err", "val", "exc"}), "answers " \o ToString(Sel(O, "err") \o Sel(O, "val") \o Sel(O, "exc")) \o " instead of " \o ToString(Sel(X, "err") \o Sel(X, "val") \o Sel(X, "exc")))
  \cup (IF HasRet(O) /\ Code(O) < 0
        THEN If(Ret(O).msg # E!MessageOf(Code(O)) \/ Ret(O).msg = E!Generic, "code " \o ToString(Code(O)) \o " is explained by " \o Ret(O).msg) ELSE {})

\* C18: what the two interfaces show of themselves under the same circumstances
Plain(x) == [f \in (DOMAIN x) \ {"if"} |-> x[f]]
ExcKind(x) == IF x.e = "exc" THEN [e |-> "exc", i |-> x.i, t |-> x.t]
              ELSE IF x.e = "err" THEN [e |-> "err", c |-> x.c, code |-> x.code, msg |-> x.v.msg] ELSE Plain(x)
Visible(h) == LET s == SelectSeq(h, LAMBDA x : x.e \notin {"tx", "open", "anom"}) IN [i \in 1..Len(s) |-> ExcKind(s[i])]
C18(r) ==
  LET a == Visible(r.obs2) b == Visible(r.obs)
      d == {i \in 1..Min(Len(a), Len(b)) : a[i] # b[i]}
      k == IF d = {} THEN Min(Len(a), Len(b)) + 1 ELSE CHOOSE i \in d : \A j \in d : i <= j
      Show(h) == IF k > Len(h) THEN "nothing more" ELSE ToString(h[k])
  IN If(r.crash2 # "", "the process died with the C interface: " \o r.crash2)
     \cup If(r.crash2 = "" /\ a # b, "C++ interface: " \o Show(b) \o ", C interface: " \o Show(a))

----------------------------------------------------------------------------
\* C20 and what every property presupposes: the call comes to an end
Broken(r) ==
  If(r.crash # "", "the process died: " \o r.crash)
  \cup If(\E x \in Rng(r.obs) : x.e = "anom" /\ x.k \in {"hang", "spin"}, "a call never returned")
  \cup If(r.crash = "" /\ ~\E x \in Rng(r.obs) : x.e = "end", "the run was not completed")

\* C30: the server that is configured
Where(h) == LET s == Sel(h, "conn") IN [k \in 1..Len(s) |-> <<s[k].host, s[k].port, s[k].r>>]
Cut(w) == [k \in 1..Len(w) |-> <<IF Len(w[k][1]) > 60 THEN SubSeq(w[k][1], 1, 50) \o "... (" \o ToString(Len(w[k][1])) \o ")" ELSE w[k][1], w[k][2], w[k][3]>>]
C30(X, O, r) ==
  If(Where(X) # Where(O), "connected to " \o ToString(Cut(Where(O))) \o " instead of " \o ToString(Cut(Where(X))))
  \cup If(IsSend(X) /\ HasRet(X) /\ HasRet(O) /\ Code(O) \notin OkSet(X), "result " \o ToString(Code(O)) \o " instead of " \o ToString(OkSet(X)))
  \cup If(~Same(X, O, {"get"}), "the configuration shown is not the one set")

\* C29
Helpers(X, O) ==
  LET a == Sel(X, "fn") b == Sel(O, "fn") IN
  IF Len(a) # Len(b) THEN {"the helper did not answer"}
  ELSE UNION {LET w == {k \in 1..Len(a[i].out) : a[i].out[k] # b[i].out[k]} IN
              If(w # {}, a[i].f \o " of the words " \o ToString(w) \o ": " \o ToString({b[i].out[k] : k \in w}) \o " instead of " \o ToString({a[i].out[k] : k \in w})) : i \in 1..Len(a)}

OfSegment(X, O, r) ==
  LET both == IsSend(X) /\ HasRet(X) /\ HasRet(O) IN
  CASE Prop = "C13" -> C13(X, O, r)
    [] Prop = "C14" -> C14(X, O, r)
    [] Prop = "C17" -> C17(X, O, r)
    [] Prop = "C16" -> If(~Same(X, O, {"val", "exc", "eq"}), "values " \o ToString(Sel(O, "val") \o Sel(O, "exc") \o Sel(O, "eq")) \o " instead of " \o ToString(Sel(X, "val") \o Sel(X, "exc") \o Sel(X, "eq")))
    [] Prop = "C23" -> If(~Same(X, O, {"val", "exc", "get"}), "outcome " \o ToString(Sel(O, "val") \o Sel(O, "exc") \o Sel(O, "get")) \o " instead of " \o ToString(Sel(X, "val") \o Sel(X, "exc") \o Sel(X, "get")))
    [] Prop = "C19" -> C19(X, O, r)
    [] Prop = "C28" -> C28(X, O, r)
    [] Prop = "C29" -> Helpers(X, O)
    [] Prop = "C30" -> C30(X, O, r)
    [] Prop = "C20" -> If(IsSend(X) /\ ~HasRet(O), "a send did not return")
    [] Prop = "C06" /\ ~IsSend(X) -> If(~Same(X, O, {"exc"}), "an address with line breaks was not refused, or another argument was")
    [] ~both -> {}
    [] Prop = "C01" -> C01(X, O, r) [] Prop = "C02" -> C02(X, O, r) [] Prop = "C03" -> C03(X, O, r)
    [] Prop = "C04" -> C04(X, O, r) [] Prop = "C05" -> C05(X, O, r) [] Prop = "C06" -> C06(X, O, r)
    [] Prop = "C08" -> C08(X, O, r) [] Prop = "C09" -> C09(X, O, r) [] Prop = "C10" -> C10(X, O, r)
    [] Prop = "C11" -> C11(X, O, r) [] Prop = "C12" -> C12(X, O, r) [] Prop = "C15" -> C15(X, O, r)
    [] Prop = "C21" -> C21(X, O, r) [] Prop = "C22" -> C22(X, O, r)
    [] Prop = "C24" -> C24(X, O, r) [] Prop = "C25" -> C25(X, O, r)
    [] Prop = "C27" -> C27(X, O, r)
    [] OTHER -> {}
OfHistory(r) ==
  CASE Prop = "C18" -> C18(r)
    [] Prop = "C07" -> C07(r.exp, r.exp, r.obs, r)
    [] Prop = "C05" -> If(~SameTails(r.obs), "line breaks added to or lost from the end of a body")
    [] Prop = "C13" -> If(~ReleasedOnce(r.obs), "a connection is not released exactly once")
    [] Prop = "C24" -> If(~ReleasedOnce(r.obs), "a connection is not released exactly once")
    [] Prop = "C26" -> LeftBehind(r.obs)
    [] Prop = "C27" -> SideEffects(r.obs, r)
    [] Prop = "C14" -> If(~QuitIsLast(r.obs), "something follows QUIT")
    [] OTHER -> {}
Verdict(r) ==
  LET bad == Broken(r) IN
  IF bad # {} THEN bad
  ELSE LET XS == Segments(r.exp) OS == Segments(r.obs) IN
       IF Len(XS) # Len(OS) THEN {"the operations differ"}
       ELSE OfHistory(r) \cup UNION {OfSegment(XS[k], OS[k], r) : k \in 1..Len(XS)}

VARIABLE i
Init == i = 0
Next == /\ i < Len(T)
        /\ i' = i + 1
        /\ LET v == Verdict(T[i + 1]) IN v # {} => PrintT(<<"BAD", T[i + 1].id, v>>)
        /\ i + 1 = Len(T) => PrintT(<<"JUDGED", Len(T)>>)
Spec == Init /\ [][Next]_i
=============================================================================
