----------------------------- MODULE Catalogue -----------------------------
(* Building blocks of the plans: addresses, messages, servers, reactions,    *)
(* and the export of the behaviours for the replay.                          *)
EXTENDS SmtpSession, Properties, SequencesExt, Json, IOUtils

Tier == IF "VERIF_TIER" \in DOMAIN IOEnv THEN IOEnv.VERIF_TIER ELSE "quick"
Thorough == Tier = "thorough"

\* a: address, d: display name, seen: the name the receiver shows
Addr(a, d) == [a |-> a, d |-> d, seen |-> d]
Message(id, kind, from, to, cc, bcc, subj, body, att) ==
  [id |-> id, kind |-> kind, if |-> "c", from |-> from, to |-> to, cc |-> cc, bcc |-> bcc,
   subj |-> subj, subjseen |-> subj, body |-> body, att |-> att, long |-> FALSE]
Attachment(file, mime, name, cid, mode, len) ==
  [file |-> file, mime |-> mime, name |-> name, nameseen |-> name, cid |-> cid, cidseen |-> cid,
   mode |-> mode, len |-> len]

Anna == Addr("anna@example.com", "Anna A.")
Bob  == Addr("bob@example.net", "Bob")
Carl == Addr("carl@example.org", "")
Dora == Addr("dora.d@sub.example.org", "Dora D")
Egon == Addr("egon@example.com", "Egon Secret")
Fran == Addr("fran@example.net", "")

Plain1(id) == Message(id, "plain", Anna, <<Bob>>, <<>>, <<>>, "Subject of " \o id, "Body text of message " \o id, <<>>)
Html1(id)  == Message(id, "html", Bob, <<Anna, Carl>>, <<Dora>>, <<Egon>>, "Html subject " \o id,
                      "<p>Body of " \o id \o "</p>", <<>>)
Att1(id)   == Message(id, "plain", Carl, <<Anna>>, <<Bob>>, <<Egon, Fran>>, "With files " \o id, "See the files of " \o id,
                      <<Attachment("one.pdf", "application/pdf", "one.pdf", "", "ramp", 700)>>)
As(iface, m) == [m EXCEPT !.if = iface]

\* Capability lines
NameLine      == [t |-> "mail.example.com greets you", k |-> "name", m |-> {}]
StartTlsLine  == [t |-> "STARTTLS", k |-> "starttls", m |-> {}]
Line(txt)     == [t |-> txt, k |-> "other", m |-> {}]
AuthLine(txt, ms) == [t |-> txt, k |-> "auth", m |-> ms]
PlainLogin    == AuthLine("AUTH PLAIN LOGIN", {"PLAIN", "LOGIN"})
LoginOnly     == AuthLine("AUTH LOGIN", {"LOGIN"})
XoauthOnly    == AuthLine("AUTH XOAUTH2", {"XOAUTH2"})

\* Servers: h1 is the one with STARTTLS, h2 encrypts from the start, h3 has no STARTTLS
HostWith(name, forced, c1, c2) == [name |-> name, forced |-> forced, caps1 |-> c1, caps2 |-> c2]
H1(auth) == HostWith("h1", FALSE, <<NameLine, Line("SIZE 35882577"), StartTlsLine, auth>>, <<NameLine, Line("8BITMIME"), auth>>)
H2(auth) == HostWith("h2", TRUE, <<>>, <<NameLine, Line("8BITMIME"), auth>>)
H3(auth) == HostWith("h3", FALSE, <<NameLine, Line("8BITMIME"), auth>>, <<>>)

Cred(u, p, m) == [u |-> u, p |-> p, m |-> m]
Joe == Cred("joe@example.com", "tr0ub4dor", -1)

New(c, kind, host, port) == [op |-> "new", c |-> c, kind |-> kind, host |-> host, port |-> port]
Set(c, f, v)  == [op |-> "set", c |-> c, f |-> f, v |-> v, own |-> FALSE]
Own1(c, f)    == [op |-> "set", c |-> c, f |-> f, v |-> "$own", own |-> TRUE]   \* its own current value
Send(c, m)    == [op |-> "send", c |-> c, m |-> m]
Two(op, c, f) == [op |-> op, c |-> c, from |-> f]
Del(c)        == [op |-> "del", c |-> c]
Get(c)        == [op |-> "get", c |-> c]

\* Reactions of the server by kind of step
Vanish == {Gone("eof"), Gone("rst"), WErr("die"), WErr("pipe"), Lost, Stall}
BadReply == {Odd("tmo", 0, "what?\r\n"), Odd("tmo", 0, "\r\n"), Odd("tmo", 0, "25"), Odd("tmo", 0, "99")}
Garbled == {Odd("tmo", 0, "gibberish that is no reply at all\r\n"), Odd("tmo", 0, "25\r\n"), Odd("tmo", 0, "\r\n")}
Refusals(ok) == {Code(c) : c \in {421, 451, 550, 220, 250, 354} \ {ok}}
Certs == {"self", "selfca", "unknown", "chain", "expired", "notyet", "purpose", "badsig", "nointer"}
FaultsAt(st, okc) ==
  CASE st = "CONNECT" -> {Fail("refused", -2), Fail("unreach", -2), Fail("delayed", -10), Fail("timeout", -3),
                          Fail("nosock", -1), Fail("nx", -6),
                          Fail("getfl1", -7), Fail("setfl1", -8), Fail("getfl2", -7), Fail("setfl2", -8), Fail("poll", -2), Fail("sockopt", -9), Fail("setopt", -9)}
    [] st = "TLS"     -> {Fail(k, 0) : k \in {"silent", "eof", "rst", "alert", "garbage", "cut"}}
                         \cup {WErr("die"), WErr("pipe"), Lost, Stall}
                         \cup {Cert(k, FALSE) : k \in Certs} \cup {Cert("goodinter", TRUE)}
    [] st = "GREET"   -> {Silent, Gone("eof"), Gone("rst"), Half(220, "eof"), Half(554, "eof")} \cup Garbled \cup Refusals(220)
    [] st \in {"H:From", "H:To", "H:Cc", "H:Subject", "H:CT", "BODY", "BODY2"} -> {WErr("die"), WErr("pipe"), Lost, Stall}
    [] OTHER          -> {Silent, Half(okc, "eof"), Half(okc, "rst"), Half(550, "eof")} \cup Vanish \cup Garbled \cup Refusals(okc)
OkCode(st) == CASE st \in {"GREET", "STARTTLS"} -> 220
                [] st \in {"AUTHU"} -> 334
                [] st \in {"AUTH", "AUTHP"} -> 235
                [] st = "DATA" -> 354
                [] st = "QUIT" -> 221
                [] OTHER -> 250

----------------------------------------------------------------------------
\* Export of the complete behaviours
HostOut(h) == [name |-> h.name, forced |-> h.forced, caps1 |-> SeqMap(LAMBDA x : x.t, h.caps1), caps2 |-> SeqMap(LAMBDA x : x.t, h.caps2)]
OpOut(o) == IF o.op = "setbad" THEN [o EXCEPT !.op = "set"]
            ELSE IF o.op = "newbad" THEN [o EXCEPT !.op = "new"] ELSE o
OpIf(o) == IF o.op = "new" THEN o @@ [if |-> plan.if] ELSE o
MsgIf(m) == [m EXCEPT !.if = plan.if]
Behaviour == [plan |-> plan.id,
              sc |-> [hosts |-> SeqMap(HostOut, plan.hosts), msgs |-> SeqMap(MsgIf, plan.msgs),
                      ops |-> SeqMap(LAMBDA o : OpIf(OpOut(o)), plan.ops), script |-> script,
                      fd0 |-> plan.fd0, short |-> plan.short,
                     wire |-> IF "wire" \in DOMAIN plan THEN plan.wire ELSE FALSE]
                     @@ (IF "env" \in DOMAIN plan THEN plan.env ELSE <<>>),   \* circumstances of the replay
              exp |-> ev]
\* The properties hold in every behaviour of the specification
PropertiesHold == ph = "done" => Holds(ev, plan.msgs, script)
Export == ph = "done" => PrintT(ToJson(Behaviour))
=============================================================================
