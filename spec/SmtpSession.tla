---------------------------- MODULE SmtpSession ----------------------------
(* The life of SMTP clients: what a client of this library does on its       *)
(* connections, for every answer and every failure of the server, over any   *)
(* history of sends, copies, moves, assignments and destructions.            *)
(*                                                                           *)
(* A "plan" fixes the caller's side (servers, messages, operations); the     *)
(* server's side is nondeterministic: at every step of the protocol the      *)
(* server answers normally or, while the fault budget lasts, picks one of    *)
(* the reactions of Menu.  ev is the observable history; script records the  *)
(* reactions chosen, so that a behaviour can be replayed into the real code. *)
(* One action per critical section of the code: connect, greeting, EHLO,     *)
(* STARTTLS, handshake, ..., each header, the body, the end of data, QUIT.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANT Menu(_, _, _, _)  \* plan, step, connection, occurrence -> reactions

VARIABLES plan, pc, ph, cur, cls, conns, script, budget, ev
vars == <<plan, pc, ph, cur, cls, conns, script, budget, ev>>

----------------------------------------------------------------------------
\* Reactions of the server.  o: what it means to the client, c: reply code,
\* r: how the replay harness produces it, d: seconds of delay it causes
Normal(c)      == [o |-> "code", c |-> c, r |-> [k |-> "default"], d |-> 0]
Code(c)        == [o |-> "code", c |-> c, r |-> [k |-> "reply", c |-> c], d |-> 0]
CodeR(c, r, d) == [o |-> "code", c |-> c, r |-> r, d |-> d]
Odd(o, c, txt) == [o |-> o, c |-> c, r |-> [k |-> "reply", c |-> c, text |-> txt], d |-> 0]
Silent         == [o |-> "tmo", c |-> 0, r |-> [k |-> "silent"], d |-> 0]
Gone(k)        == [o |-> "gone", c |-> 0, r |-> [k |-> k], d |-> 0]       \* eof, rst
WErr(k)        == [o |-> "werr", c |-> 0, r |-> [k |-> k], d |-> 0]       \* die, pipe
Lost           == [o |-> "lost", c |-> 0, r |-> [k |-> "lost"], d |-> 0]
Stall          == [o |-> "stall", c |-> 0, r |-> [k |-> "stall"], d |-> 0]
Half(c, how)   == [o |-> "half", c |-> c, r |-> [k |-> "reply", c |-> c, then |-> how], d |-> 0]
Fail(k, c)     == [o |-> "fail", c |-> c, r |-> [k |-> k], d |-> 0]       \* CONNECT and TLS only
Cert(x, ok)    == [o |-> IF ok THEN "code" ELSE "cert", c |-> 0,
                   r |-> [k |-> "reply", cert |-> x], d |-> 0]

Range(f) == {f[x] : x \in DOMAIN f}
SeqMap(f(_), s) == [i \in 1..Len(s) |-> f(s[i])]
RECURSIVE FlatSeq(_)
FlatSeq(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o FlatSeq(Tail(ss))

----------------------------------------------------------------------------
\* The plan
Msg(id)  == LET k == CHOOSE k \in 1..Len(plan.msgs) : plan.msgs[k].id = id IN plan.msgs[k]
KnownHost(name) == \E k \in 1..Len(plan.hosts) : plan.hosts[k].name = name
Host(name) == LET k == CHOOSE k \in 1..Len(plan.hosts) : plan.hosts[k].name = name IN plan.hosts[k]
Op == plan.ops[pc]
Recipients(m) == m.to \o m.cc \o m.bcc

\* Capability lines: [t: text, k: "name" | "starttls" | "auth" | "other", m: mechanisms]
HasStartTls(caps) == \E i \in 1..Len(caps) : caps[i].k = "starttls"
Offered(caps) ==
  IF \E i \in 1..Len(caps) : caps[i].k = "auth"
  THEN caps[CHOOSE i \in 1..Len(caps) : caps[i].k = "auth" /\ \A j \in 1..(i-1) : caps[j].k # "auth"].m
  ELSE {}
\* Recommended method of the credentials: -1 and 0 leave the choice to the client
Permitted(m) == IF m \in {-1, 0} THEN {"PLAIN", "LOGIN", "XOAUTH2"}
                ELSE IF m = 1 THEN {"PLAIN"} ELSE IF m = 2 THEN {"LOGIN"} ELSE IF m = 3 THEN {"XOAUTH2"} ELSE {}
Mechanism(caps, m) ==
  LET ok == Offered(caps) \cap Permitted(m)
  IN IF "PLAIN" \in ok THEN "PLAIN" ELSE IF "LOGIN" \in ok THEN "LOGIN"
     ELSE IF "XOAUTH2" \in ok THEN "XOAUTH2" ELSE "none"

NoCred == [u |-> "", p |-> "", m |-> -1]
HasCred(c) == c.cred # NoCred

----------------------------------------------------------------------------
\* Error codes: [werr, tmo] of every step
CodesOf(st) ==
  CASE st = "GREET"    -> [werr |-> -3,  tmo |-> -3]
    [] st = "EHLO"     -> [werr |-> -20, tmo |-> -21]
    [] st = "STARTTLS" -> [werr |-> -30, tmo |-> -31]
    [] st = "EHLO2"    -> [werr |-> -59, tmo |-> -60]
    [] st \in {"AUTH", "AUTHU", "AUTHP"} -> [werr |-> -81, tmo |-> -82]
    [] st = "MAIL"     -> [werr |-> -85, tmo |-> -86]
    [] st = "RCPT"     -> [werr |-> -87, tmo |-> -88]
    [] st = "DATA"     -> [werr |-> -89, tmo |-> -90]
    [] st = "EOD"      -> [werr |-> -97, tmo |-> -98]
    [] st = "H:From"   -> [werr |-> -91, tmo |-> -91]
    [] st \in {"H:To", "H:Cc"} -> [werr |-> -92, tmo |-> -92]
    [] st = "H:Subject" -> [werr |-> -93, tmo |-> -93]
    [] st = "H:CT"     -> [werr |-> -94, tmo |-> -94]
    [] st = "BODY"     -> [werr |-> -96, tmo |-> -95]
    [] st = "BODY2"    -> [werr |-> -96, tmo |-> -95]
    [] st = "QUIT"     -> [werr |-> -99, tmo |-> -99]
ContentCodes == {-91, -92, -93, -94, -95, -96, -97, -98}
\* Until the client has written again it cannot know that the connection is lost
LostCodes(st) == IF st \in {"DATA", "H:From", "H:To", "H:Cc", "H:Subject", "H:CT", "BODY", "BODY2", "EOD"}
                 THEN ContentCodes \cup (IF st = "DATA" THEN {-89, -90} ELSE {})
                 ELSE {CodesOf(st).werr, CodesOf(st).tmo}
HandshakeCodes == {-55, -56, -57}
CertCodes == {-55, -56, -58}

----------------------------------------------------------------------------
\* What the receiver makes of the message
Mime(m) == IF m.kind = "html" THEN "text/html" ELSE "text/plain"
HeaderNames(m) == <<"From", "To">> \o (IF Len(m.cc) > 0 THEN <<"Cc">> ELSE <<>>) \o <<"Subject", "Content-Type">>
PartHeaders(a) == IF a.cid = "" THEN <<"Content-Type", "Content-Disposition", "Content-Transfer-Encoding">>
                  ELSE <<"Content-Type", "X-Attachment-Id", "Content-ID", "Content-Disposition", "Content-Transfer-Encoding">>
\* show: the text as the receiver sees it (line breaks become blanks)
Shown(x) == IF "show" \in DOMAIN x THEN x.show ELSE <<>>
AttSeen(m, i) ==
  LET a == m.att[i] IN
  [mime |-> a.mime, name |-> a.nameseen, disp |-> IF a.cid = "" THEN "inline" ELSE "attachment",
   cid |-> IF a.cid = "" THEN "" ELSE "<" \o a.cidseen \o ">",
   data |-> "=" \o m.id \o "." \o ToString(i)]
AddrSeen(a) == [a |-> a.a, d |-> a.seen]
Seen(m) ==
  [from |-> AddrSeen(m.from), nfrom |-> 1, to |-> SeqMap(AddrSeen, m.to), cc |-> SeqMap(AddrSeen, m.cc),
   subj |-> m.subjseen, headers |-> HeaderNames(m), mime |-> Mime(m), charset |-> "utf-8",
   body |-> "=" \o m.id, nparts |-> 1 + Len(m.att), att |-> [i \in 1..Len(m.att) |-> AttSeen(m, i)],
   phdr |-> <<<<"Content-Type">>>> \o [i \in 1..Len(m.att) |-> PartHeaders(m.att[i])],
   bcc |-> FALSE, bare |-> FALSE]

----------------------------------------------------------------------------
\* Connections
Steps == {"GREET", "EHLO", "STARTTLS", "TLS", "EHLO2", "AUTH", "AUTHU", "AUTHP", "MAIL", "RCPT", "DATA", "QUIT"}
NewConn(n, host, c) ==
  [n |-> n, host |-> host, kind |-> c.kind, open |-> TRUE, tls |-> FALSE, life |-> "ok",
   caps |-> <<>>, offered |-> FALSE, tx |-> 0, cnt |-> [s \in Steps |-> 0], quit |-> FALSE]
\* What may appear outside TLS on a connection
ClearOf(k) == IF k.kind = "forced" THEN <<>>
              ELSE IF k.kind = "opp" /\ k.offered THEN <<"raw">>
              ELSE IF k.kind = "opp" THEN <<"raw", "from", "rcpt", "bcc", "subj", "body">>
              ELSE <<"raw", "from", "rcpt", "bcc", "subj", "body", "pw", "user">>

EvCmd(k, v, i, a, x) == [e |-> "cmd", n |-> k.n, tls |-> k.tls, v |-> v, i |-> i, a |-> a, x |-> x]
EvRep(k, st, i, c)   == [e |-> "rep", n |-> k.n, s |-> st, i |-> i, c |-> c]
EvEl(k, st)          == [e |-> "el", n |-> k.n, tls |-> k.tls, v |-> st, i |-> k.tx]
EvClose(k)           == [e |-> "close", n |-> k.n]
EvClear(k)           == [e |-> "clear", n |-> k.n, k |-> ClearOf(k)]
EvOp(i, op, c)       == [e |-> "op", i |-> i, op |-> op, c |-> c]
EvRet(c, codes)      == [e |-> "ret", c |-> c, m |-> cur.m.id, ok |-> codes, st |-> cur.st, why |-> cur.why,
                         d |-> cur.d, mx |-> cur.d + 4 * cls[c].T + 4,
                         mn |-> IF cur.why \in {"silent", "timeout", "stall"} THEN cls[c].T ELSE 0,
                         inclear |-> cls[c].kind = "opp" /\ cur.n > 0 /\ conns[cur.n].caps # <<>> /\ ~conns[cur.n].offered]

\* QUIT as part of giving a connection up: only if the connection is usable
QuitEvents(k) == IF k.life = "ok" THEN <<EvCmd(k, "QUIT", 1, "", ""), EvRep(k, "QUIT", 1, 221)>> ELSE <<>>
CloseEvents(k) == IF k.open THEN <<EvClear(k), EvClose(k)>> ELSE <<>>
\* Events of a client giving its connection up: destroyed or overwritten (an open session is that of
\* a batch, even if batch mode was turned off since), or by a failed send
Releasing(c, quit) ==
  IF c.conn = 0 THEN <<>>
  ELSE LET k == conns[c.conn] IN
       (IF quit /\ c.session THEN QuitEvents(k) ELSE <<>>) \o CloseEvents(k)
ReleaseEvents(c) == Releasing(c, TRUE)
FailureEvents(c) == Releasing(c, c.batch)
Closed(cs, n) == IF n = 0 THEN cs ELSE [cs EXCEPT ![n].open = FALSE]

----------------------------------------------------------------------------
Idle == [c |-> "", n |-> 0, i |-> 0, d |-> 0, bad |-> {}, codes |-> {}, st |-> "", why |-> ""]

InitWith(p) ==
  /\ plan = p
  /\ pc = 1
  /\ ph = "op"
  /\ cur = Idle
  /\ cls = [x \in {} |-> 0]
  /\ conns = <<>>
  /\ script = <<>>
  /\ budget = plan.faults
  /\ ev = <<>>

Say(events) == ev' = ev \o events
NextOp == pc' = pc + 1 /\ ph' = "op"
InOps == ph = "op" /\ pc <= Len(plan.ops)
Quiet == UNCHANGED <<plan, cur, script, budget>>

\* ---- operations on clients other than sending ----
NewClient ==
  /\ InOps /\ Op.op = "new"
  /\ cls' = (Op.c :> [kind |-> Op.kind, if |-> plan.if, host |-> Op.host, port |-> Op.port, batch |-> FALSE,
                      T |-> 5, self |-> FALSE, cred |-> NoCred, conn |-> 0, session |-> FALSE, moved |-> FALSE, lg |-> 0]) @@ cls
  /\ Say(<<EvOp(pc, "new", Op.c)>>)
  /\ NextOp /\ Quiet /\ UNCHANGED conns

SetClient ==
  /\ InOps /\ Op.op = "set"
  /\ cls' = [cls EXCEPT ![Op.c] =
       CASE Op.f = "batch" -> [@ EXCEPT !.batch = Op.v]
         [] Op.f = "T"     -> [@ EXCEPT !.T = Op.v]
         [] Op.f = "port"  -> [@ EXCEPT !.port = Op.v]
         [] Op.f = "host"  -> [@ EXCEPT !.host = IF Op.own THEN @ ELSE Op.v]
         [] Op.f = "self"  -> [@ EXCEPT !.self = Op.v]
         [] Op.f = "keep"  -> @
         [] Op.f = "own"   -> @
         [] Op.f = "cred"  -> [@ EXCEPT !.cred = IF Op.own THEN @ ELSE Op.v]]
  /\ Say(<<EvOp(pc, "set", Op.c)>>)
  /\ NextOp /\ Quiet /\ UNCHANGED conns

\* A setter that must be refused: nothing changes
SetRefused ==
  /\ InOps /\ Op.op = "setbad"
  /\ Say(<<EvOp(pc, "set", Op.c), [e |-> "exc", i |-> pc, t |-> "invalid_argument"]>>)
  /\ NextOp /\ Quiet /\ UNCHANGED <<conns, cls>>
NewRefused ==
  /\ InOps /\ Op.op = "newbad"
  /\ Say(<<EvOp(pc, "new", Op.c), [e |-> "exc", i |-> pc, t |-> "invalid_argument"]>>)
  /\ NextOp /\ Quiet /\ UNCHANGED <<conns, cls>>

CopyOf(c) == [c EXCEPT !.conn = 0, !.session = FALSE]
MovedFrom(c) == [c EXCEPT !.conn = 0, !.session = FALSE, !.moved = TRUE]
CopyClient ==
  /\ InOps /\ Op.op = "copy"
  /\ cls' = (Op.c :> CopyOf(cls[Op.from])) @@ cls
  /\ Say(<<EvOp(pc, "copy", Op.c)>>)
  /\ NextOp /\ Quiet /\ UNCHANGED conns
MoveClient ==
  /\ InOps /\ Op.op = "move"
  /\ cls' = (Op.c :> cls[Op.from]) @@ [cls EXCEPT ![Op.from] = MovedFrom(@)]
  /\ Say(<<EvOp(pc, "move", Op.c)>>)
  /\ NextOp /\ Quiet /\ UNCHANGED conns
AssignClient ==
  /\ InOps /\ Op.op = "assign"
  /\ IF Op.c = Op.from
     THEN Say(<<EvOp(pc, "assign", Op.c)>>) /\ UNCHANGED <<cls, conns>>
     ELSE /\ Say(<<EvOp(pc, "assign", Op.c)>> \o ReleaseEvents(cls[Op.c]))
          /\ conns' = Closed(conns, cls[Op.c].conn)
          /\ cls' = [cls EXCEPT ![Op.c] = CopyOf(cls[Op.from])]
  /\ NextOp /\ Quiet
MoveAssignClient ==
  /\ InOps /\ Op.op = "massign"
  /\ IF Op.c = Op.from
     THEN Say(<<EvOp(pc, "massign", Op.c)>>) /\ UNCHANGED <<cls, conns>>
     ELSE /\ Say(<<EvOp(pc, "massign", Op.c)>> \o ReleaseEvents(cls[Op.c]))
          /\ conns' = Closed(conns, cls[Op.c].conn)
          /\ cls' = [cls EXCEPT ![Op.c] = cls[Op.from], ![Op.from] = MovedFrom(@)]
  /\ NextOp /\ Quiet
DeleteClient ==
  /\ InOps /\ Op.op = "del"
  /\ Say(<<EvOp(pc, "del", Op.c)>> \o ReleaseEvents(cls[Op.c]))
  /\ conns' = Closed(conns, cls[Op.c].conn)
  /\ cls' = [x \in DOMAIN cls \ {Op.c} |-> cls[x]]
  /\ NextOp /\ Quiet
GetClient ==
  /\ InOps /\ Op.op = "get"
  /\ LET c == cls[Op.c] IN
     Say(<<EvOp(pc, "get", Op.c),
           [e |-> "get", c |-> Op.c, v |-> [host |-> c.host, port |-> c.port, batch |-> c.batch, T |-> c.T,
                                            self |-> c.self, cred |-> [u |-> c.cred.u, p |-> c.cred.p,
                                                m |-> IF HasCred(c) /\ c.cred.m = -1 THEN 0 ELSE c.cred.m]]],
           \* the log it shows is that after the send at this place
           [e |-> "logof", c |-> Op.c, at |-> <<c.lg>>]>>)
  /\ NextOp /\ Quiet /\ UNCHANGED <<cls, conns>>

\* ---- a send ----
Client == cls[cur.c]
K == conns[cur.n]
Go(phase) == ph' = phase

BeginSend ==
  /\ InOps /\ Op.op = "send"
  /\ LET c == cls[Op.c] IN
     /\ cur' = [Idle EXCEPT !.c = Op.c, !.n = IF c.session THEN c.conn ELSE 0]
                 @@ [m |-> Msg(Op.m), h |-> 0, rep |-> 0]
     /\ Go(IF c.session THEN "mail" ELSE "connect")
  /\ Say(<<EvOp(pc, "send", Op.c)>>)
  /\ UNCHANGED <<plan, pc, cls, conns, script, budget>>

\* The reactions available at a step; a plan may exclude the normal answer where there are others
Choices(st, n, i, okcode) ==
  LET others == IF budget > 0 THEN Menu(plan, st, n, i) ELSE {}
  IN IF "always" \in DOMAIN plan /\ plan.always /\ others # {} THEN others ELSE {Normal(okcode)} \cup others
Note(n, st, i, x) ==
  /\ budget' = IF x.r.k = "default" THEN budget ELSE budget - 1
  /\ script' = IF x.r.k = "default" THEN script
               ELSE [script EXCEPT ![n] = Append(@, [st |-> st, i |-> i] @@ x.r)]

\* st: the step that failed, why: how, codes: what the send may return
Why(x) == IF x.r.k = "silent" THEN "silent" ELSE x.o
GiveUp(st, why, codes) == cur' = [cur EXCEPT !.codes = codes, !.st = st, !.why = why] /\ Go("fail")

Connect ==
  /\ ph = "connect"
  /\ LET n == Len(conns) + 1
         c == Client
         k == NewConn(n, c.host, c)
         s0 == Append(script, <<>>)
     IN \E x \in Choices("CONNECT", n, 1, 0) :
        LET r == IF ~KnownHost(c.host) THEN Fail("nx", -6) ELSE x
            res == IF r.o = "code" \/ r.r.k \in {"poll", "sockopt", "setopt", "getfl2", "setfl2"} THEN "ok"   \* refused system calls
                   ELSE IF r.r.k = "unreach" THEN "refused" ELSE IF r.r.k \in {"getfl1", "setfl1"} THEN "fcntl" ELSE r.r.k
            openev == IF r.r.k = "nosock" THEN <<>> ELSE <<[e |-> "open", n |-> n]>>
            connev == <<[e |-> "conn", n |-> n, r |-> res, kind |-> c.kind,
                         host |-> IF res \in {"nosock", "fcntl"} THEN "" ELSE c.host,
                         port |-> IF res \in {"nosock", "nx", "fcntl"} THEN 0 ELSE c.port]>>
        IN /\ budget' = IF x.r.k = "default" THEN budget ELSE budget - 1
           /\ script' = IF x.r.k = "default" THEN s0 ELSE [s0 EXCEPT ![n] = <<[st |-> "CONNECT"] @@ x.r>>]
           /\ conns' = Append(conns, [k EXCEPT !.open = (r.r.k # "nosock")])
           /\ cls' = [cls EXCEPT ![cur.c].conn = n]
           /\ Say(openev \o connev)
           /\ IF r.o = "code"
              THEN cur' = [cur EXCEPT !.n = n, !.d = @ + r.d] /\ Go(IF c.kind = "forced" THEN "tls" ELSE "greet")
              ELSE cur' = [cur EXCEPT !.n = n, !.codes = {r.c}, !.st = "CONNECT", !.why = r.r.k] /\ Go("fail")
  /\ UNCHANGED <<plan, pc>>

\* One command and its reply.  okcodes: the codes with which the dialogue goes on
\* (the first one is the normal answer); After(code) continues; refused: the codes
\* that may be returned when the server answered with some other code
Received(k, st, x) == [k EXCEPT !.cnt[st] = @ + 1,
                                !.life = IF x.o \in {"gone"} THEN "dead" ELSE IF x.o = "half" THEN "half" ELSE @]
Lifeless(k, x) == [k EXCEPT !.life = IF x.o = "stall" THEN "dead" ELSE "dead"]

Dialogue(st, v, a, form, okcode, good(_), After(_, _), refused(_)) ==
  LET n == cur.n
      i == K.cnt[st] + 1
      err == CodesOf(st)
  IN
  IF K.life # "ok"
  THEN \* the server has ended the connection after its last reply
       /\ conns' = [conns EXCEPT ![n].life = "dead"]
       /\ GiveUp(st, "lost", LostCodes(st))
       /\ UNCHANGED <<plan, pc, cls, script, budget, ev>>
  ELSE \E x \in Choices(st, n, i, okcode) :
       /\ Note(n, st, i, x)
       /\ UNCHANGED <<plan, pc>>
       /\ LET cmd == IF v = "" THEN <<>> ELSE <<EvCmd(K, v, i, a, form)>>
              rep == <<EvRep(K, st, i, x.c)>>
              k2  == Received(K, st, x)
          IN CASE x.o \in {"code", "half"} ->
                    /\ Say(cmd \o rep)
                    /\ IF good(x.c) THEN After(x, k2)
                       ELSE /\ conns' = [conns EXCEPT ![n] = k2]
                            /\ UNCHANGED cls
                            /\ GiveUp(st, "code", refused(x.c))
               [] x.o = "tmo"  -> Say(cmd) /\ conns' = [conns EXCEPT ![n] = k2] /\ UNCHANGED cls
                                  /\ GiveUp(st, Why(x), {err.tmo})
               [] x.o = "gone" -> Say(cmd) /\ conns' = [conns EXCEPT ![n] = k2] /\ UNCHANGED cls
                                  /\ GiveUp(st, Why(x), {err.tmo, err.werr})
               [] x.o = "werr" -> Say(<<>>) /\ conns' = [conns EXCEPT ![n].life = "dead"] /\ UNCHANGED cls
                                  /\ GiveUp(st, Why(x), {err.werr})
               [] x.o = "lost" -> Say(<<>>) /\ conns' = [conns EXCEPT ![n].life = "dead"] /\ UNCHANGED cls
                                  /\ GiveUp(st, Why(x), {err.werr, err.tmo})
               [] x.o = "stall" -> Say(<<>>) /\ conns' = [conns EXCEPT ![n].life = "dead"] /\ UNCHANGED cls
                                  /\ GiveUp(st, Why(x), {err.werr, err.tmo})

Proceed(x, k2, phase) == /\ conns' = [conns EXCEPT ![cur.n] = k2]
                         /\ cur' = [cur EXCEPT !.d = @ + x.d]
                         /\ Go(phase)
                         /\ UNCHANGED cls
Itself(c) == {c}

Greet ==
  /\ ph = "greet"
  /\ Dialogue("GREET", "", "", "", 220, LAMBDA c : c = 220,
       LAMBDA x, k2 : Proceed(x, k2, IF Client.kind = "forced" THEN "ehlo2" ELSE "ehlo"), Itself)

\* The capability list is the host's unless the reaction brings one of its own
CapsOf(x, list) == IF "caps" \in DOMAIN x.r THEN x.r.caps ELSE list

Ehlo ==
  /\ ph = "ehlo"
  /\ Dialogue("EHLO", "EHLO", "", "", 250, LAMBDA c : c = 250,
       LAMBDA x, k2 :
         LET caps == CapsOf(x, Host(K.host).caps1)
             k3 == [k2 EXCEPT !.caps = caps, !.offered = HasStartTls(caps)]
         IN Proceed(x, k3, IF Client.kind = "opp" THEN (IF k3.offered THEN "starttls" ELSE "session")
                           ELSE IF HasCred(Client) THEN "auth" ELSE "session"),
       Itself)

StartTls ==
  /\ ph = "starttls"
  /\ Dialogue("STARTTLS", "STARTTLS", "", "", 220, LAMBDA c : c = 220,
       LAMBDA x, k2 : Proceed(x, k2, "tls"), Itself)

\* The handshake and the verification of the certificate
SelfSigned == {"self", "selfca"}
Tls ==
  /\ ph = "tls"
  /\ LET n == cur.n IN
     IF K.life # "ok"
     THEN /\ conns' = [conns EXCEPT ![n].life = "dead"]
          /\ GiveUp("TLS", "lost", HandshakeCodes)
          /\ UNCHANGED <<plan, pc, cls, script, budget, ev>>
     ELSE \E x \in Choices("TLS", n, 1, 0) :
          /\ Note(n, "TLS", 1, x)
          /\ UNCHANGED <<plan, pc, cls>>
          /\ LET accepted == x.o = "code" \/ (x.o = "cert" /\ x.r.cert \in SelfSigned /\ Client.self)
             IN IF accepted
                THEN /\ conns' = [conns EXCEPT ![n].tls = TRUE, ![n].cnt["TLS"] = 1]
                     /\ Say(<<[e |-> "tls", n |-> n, r |-> "ok", acc |-> TRUE]>>)
                     /\ cur' = [cur EXCEPT !.d = @ + x.d]
                     /\ Go(IF Client.kind = "forced" THEN "greet" ELSE "ehlo2")
                ELSE /\ conns' = [conns EXCEPT ![n].life = "dead", ![n].cnt["TLS"] = 1]
                     /\ Say(<<[e |-> "tls", n |-> n, r |-> IF x.o = "cert" THEN "ok" ELSE "fail", acc |-> FALSE]>>)
                     /\ GiveUp("TLS", Why(x), IF x.o = "cert" THEN CertCodes ELSE HandshakeCodes)

Ehlo2 ==
  /\ ph = "ehlo2"
  /\ Dialogue("EHLO2", "EHLO2", "", "", 250, LAMBDA c : c = 250,
       LAMBDA x, k2 : Proceed(x, [k2 EXCEPT !.caps = CapsOf(x, Host(K.host).caps2)],
                              IF HasCred(Client) THEN "auth" ELSE "session"),
       Itself)

AuthRefused(c) == {c, -81}
Auth ==
  /\ ph = "auth"
  /\ LET mech == Mechanism(K.caps, Client.cred.m)
         both == Client.cred.u \o "/" \o Client.cred.p
     IN IF mech = "none"
        THEN /\ GiveUp("AUTH", "method", {-84})
             /\ UNCHANGED <<plan, pc, cls, conns, script, budget, ev>>
        ELSE IF mech = "LOGIN"
        THEN Dialogue("AUTH", "AUTH", mech, "", 334, LAMBDA c : c = 334, LAMBDA x, k2 : Proceed(x, k2, "authu"), AuthRefused)
        ELSE Dialogue("AUTH", "AUTH", mech, both, 235, LAMBDA c : c = 235, LAMBDA x, k2 : Proceed(x, k2, "session"), AuthRefused)
AuthUser ==
  /\ ph = "authu"
  /\ Dialogue("AUTHU", "AUTHU", "LOGIN", Client.cred.u, 334, LAMBDA c : c = 334, LAMBDA x, k2 : Proceed(x, k2, "authp"), AuthRefused)
AuthPassword ==
  /\ ph = "authp"
  /\ Dialogue("AUTHP", "AUTHP", "LOGIN", Client.cred.u \o "/" \o Client.cred.p, 235, LAMBDA c : c = 235,
       LAMBDA x, k2 : Proceed(x, k2, "session"), AuthRefused)

\* The connection is established and authenticated
Session ==
  /\ ph = "session"
  /\ cls' = [cls EXCEPT ![cur.c].session = TRUE]
  /\ Go("mail")
  /\ UNCHANGED <<plan, pc, cur, conns, script, budget, ev>>

\* The sender, in up to three notations while the server answers 501
Mail ==
  /\ ph = "mail"
  /\ LET form == IF cur.h = 0 THEN 1 ELSE cur.h
         seen == IF form = 2 /\ cur.m.from.seen = "" THEN "2" ELSE ToString(form)
     IN Dialogue("MAIL", "MAIL", cur.m.from.a, seen, 250, LAMBDA c : c = 250 \/ (c = 501 /\ form < 3),
          LAMBDA x, k2 :
            IF x.c = 501
            THEN /\ conns' = [conns EXCEPT ![cur.n] = k2]
                 /\ cur' = [cur EXCEPT !.h = form + 1, !.d = @ + x.d]
                 /\ UNCHANGED <<ph, cls>>
            ELSE /\ conns' = [conns EXCEPT ![cur.n] = k2]
                 /\ cur' = [cur EXCEPT !.i = 1, !.d = @ + x.d]
                 /\ Go("rcpt") /\ UNCHANGED cls,
          Itself)

\* Recipients: all those of a list are tried, but the next list only if none was refused
LastOfList(m, i) == i \in {Len(m.to), Len(m.to) + Len(m.cc), Len(m.to) + Len(m.cc) + Len(m.bcc)}
Rcpt ==
  /\ ph = "rcpt"
  /\ LET all == Recipients(cur.m)
         Advance(x, k2, bad) ==
           /\ conns' = [conns EXCEPT ![cur.n] = k2]
           /\ UNCHANGED cls
           /\ IF LastOfList(cur.m, cur.i) /\ bad # {}
              THEN GiveUp("RCPT", "code", bad)
              ELSE /\ cur' = [cur EXCEPT !.i = @ + 1, !.bad = bad, !.d = @ + x.d]
                   /\ Go(IF cur.i = Len(all) THEN "data" ELSE "rcpt")
     IN IF cur.i > Len(all)
        THEN Go("data") /\ UNCHANGED <<plan, pc, cur, cls, conns, script, budget, ev>>
        ELSE Dialogue("RCPT", "RCPT", all[cur.i].a, "1", 250, LAMBDA c : TRUE,
               LAMBDA x, k2 : Advance(x, k2, IF x.c = 250 THEN cur.bad ELSE cur.bad \cup {x.c}), Itself)

Data ==
  /\ ph = "data"
  /\ Dialogue("DATA", "DATA", "", "", 354, LAMBDA c : c = 354,
       LAMBDA x, k2 :
         /\ conns' = [conns EXCEPT ![cur.n] = [k2 EXCEPT !.tx = @ + 1]]
         /\ cur' = [cur EXCEPT !.h = 1, !.d = @ + x.d]
         /\ Go("hdr") /\ UNCHANGED cls,
       Itself)

\* Content: lines that get no reply
HdrSteps(m) == <<"H:From", "H:To">> \o (IF Len(m.cc) > 0 THEN <<"H:Cc">> ELSE <<>>) \o <<"H:Subject", "H:CT">>
Emission(st, events, Then) ==
  LET n == cur.n IN
  IF K.life # "ok"
  THEN /\ conns' = [conns EXCEPT ![n].life = "dead"]
       /\ GiveUp(st, "lost", LostCodes(st))
       /\ UNCHANGED <<plan, pc, cls, script, budget, ev>>
  ELSE \E x \in Choices(st, n, K.tx, 0) :
       /\ Note(n, st, K.tx, x)
       /\ UNCHANGED <<plan, pc, cls>>
       /\ IF x.o = "code"
          THEN Say(events) /\ UNCHANGED conns /\ Then
          ELSE /\ conns' = [conns EXCEPT ![n].life = "dead"]
               /\ UNCHANGED ev
               /\ GiveUp(st, Why(x), IF x.o = "lost" THEN LostCodes(st)
                         ELSE {CodesOf(st).werr, CodesOf(st).tmo})
Header ==
  /\ ph = "hdr"
  /\ LET hs == HdrSteps(cur.m) IN
     Emission(hs[cur.h], <<EvEl(K, hs[cur.h])>>,
       IF cur.h = Len(hs) THEN cur' = cur /\ Go("body") ELSE cur' = [cur EXCEPT !.h = @ + 1] /\ Go("hdr"))
Body ==
  /\ ph = "body"
  /\ Emission("BODY", <<EvEl(K, "BODY")>>, cur' = cur /\ Go(IF cur.m.long THEN "body2" ELSE "eod"))
Body2 ==
  /\ ph = "body2"
  /\ Emission("BODY2", <<>>, cur' = cur /\ Go("eod"))

EndOfData ==
  /\ ph = "eod"
  /\ LET n == cur.n
         data == <<[e |-> "data", n |-> n, tls |-> K.tls, i |-> K.tx, m |-> Seen(cur.m)]>>
     IN IF K.life # "ok"
        THEN /\ conns' = [conns EXCEPT ![n].life = "dead"]
             /\ GiveUp("EOD", "lost", LostCodes("EOD"))
             /\ UNCHANGED <<plan, pc, cls, script, budget, ev>>
        ELSE \E x \in Choices("EOD", n, K.tx, 250) :
             /\ Note(n, "EOD", K.tx, x)
             /\ UNCHANGED <<plan, pc, cls>>
             /\ CASE x.o \in {"code", "half"} ->
                       /\ Say(data \o <<EvRep(K, "EOD", K.tx, x.c)>>)
                       /\ conns' = [conns EXCEPT ![n].life = IF x.o = "half" THEN "half" ELSE @]
                       /\ IF x.c = 250
                          THEN /\ cur' = [cur EXCEPT !.codes = {0}, !.d = @ + x.d]
                               /\ Go(IF Client.batch THEN "keep" ELSE "quit")
                          ELSE GiveUp("EOD", "code", {x.c})
                  [] x.o = "tmo"  -> Say(data) /\ UNCHANGED conns /\ GiveUp("EOD", Why(x), {-98})
                  [] x.o = "gone" -> Say(data) /\ conns' = [conns EXCEPT ![n].life = "dead"] /\ GiveUp("EOD", Why(x), {-97, -98})
                  [] x.o = "werr" -> UNCHANGED ev /\ conns' = [conns EXCEPT ![n].life = "dead"] /\ GiveUp("EOD", Why(x), {-97})
                  [] OTHER        -> UNCHANGED ev /\ conns' = [conns EXCEPT ![n].life = "dead"] /\ GiveUp("EOD", Why(x), {-97, -98})

\* Outside batch mode the session ends with QUIT, whose answer nobody awaits
Quit ==
  /\ ph = "quit"
  /\ LET n == cur.n
         done == [conns EXCEPT ![n].open = FALSE]
         Finish(events, codes) ==
           /\ Say(events \o CloseEvents(K) \o <<EvRet(cur.c, codes)>>)
           /\ conns' = done
           /\ cls' = [cls EXCEPT ![cur.c].conn = 0, ![cur.c].session = FALSE, ![cur.c].lg = pc]
           /\ cur' = Idle
           /\ NextOp
     IN IF K.life # "ok"
        THEN Finish(<<>>, {0, -99}) /\ UNCHANGED <<plan, script, budget>>
        ELSE \E x \in Choices("QUIT", n, 1, 221) :
             /\ Note(n, "QUIT", 1, x)
             /\ UNCHANGED plan
             /\ IF x.o \in {"code", "half", "tmo", "gone"}
                THEN Finish(<<EvCmd(K, "QUIT", 1, "", "")>> \o (IF x.o \in {"code", "half"} THEN <<EvRep(K, "QUIT", 1, x.c)>> ELSE <<>>), {0})
                ELSE Finish(<<>>, {0, -99})

\* In batch mode the connection is kept for the next send
Keep ==
  /\ ph = "keep"
  /\ Say(<<EvRet(cur.c, {0})>>)
  /\ cls' = [cls EXCEPT ![cur.c].lg = pc]
  /\ cur' = Idle
  /\ NextOp
  /\ UNCHANGED <<plan, conns, script, budget>>

\* A failed send gives its connection up
Failed ==
  /\ ph = "fail"
  /\ Say(FailureEvents(Client) \o <<EvRet(cur.c, cur.codes)>>)
  /\ conns' = Closed(conns, Client.conn)
  /\ cls' = [cls EXCEPT ![cur.c].conn = 0, ![cur.c].session = FALSE, ![cur.c].lg = pc]
  /\ cur' = Idle
  /\ NextOp
  /\ UNCHANGED <<plan, script, budget>>

\* In the end every client that is left is destroyed
RECURSIVE AllReleases(_)
AllReleases(S) == IF S = {} THEN <<>>
                  ELSE LET x == CHOOSE x \in S : TRUE IN ReleaseEvents(cls[x]) \o AllReleases(S \ {x})
End ==
  /\ ph = "op" /\ pc > Len(plan.ops)
  /\ Say(<<EvOp(pc, "end", "")>> \o AllReleases(DOMAIN cls) \o <<[e |-> "end"]>>)
  /\ conns' = [k \in 1..Len(conns) |-> [conns[k] EXCEPT !.open = FALSE]]
  /\ cls' = [x \in {} |-> 0]
  /\ ph' = "done"
  /\ UNCHANGED <<plan, pc, cur, script, budget>>

Next == \/ NewClient \/ SetClient \/ SetRefused \/ NewRefused \/ CopyClient \/ MoveClient \/ AssignClient
        \/ MoveAssignClient \/ DeleteClient \/ GetClient \/ BeginSend \/ Connect \/ Greet \/ Ehlo \/ StartTls
        \/ Tls \/ Ehlo2 \/ Auth \/ AuthUser \/ AuthPassword \/ Session \/ Mail \/ Rcpt \/ Data \/ Header \/ Body
        \/ Body2 \/ EndOfData \/ Quit \/ Keep \/ Failed \/ End
\* A model adds the plans: Spec == (\E p \in ... : InitWith(p)) /\ [][Next]_vars
=============================================================================
