----------------------------- MODULE MC_Signals -----------------------------
(* The program handles signals while it sends.  A signal handled during a    *)
(* system call that waits makes the call return early (EINTR); what the      *)
(* client does must not depend on it: the same commands, the same content,   *)
(* the same result as without signals, no step given up before its timeout,  *)
(* no wait prolonged beyond it.  The behaviours are therefore those of the   *)
(* session without signals (see Waiting for the waits themselves); the       *)
(* replay makes the signals happen.                                          *)
EXTENDS Catalogue

Kinds == {<<"plain", "h3">>, <<"opp", "h1">>, <<"forced", "h2">>}
HostFor(h, a) == IF h = "h1" THEN H1(a) ELSE IF h = "h2" THEN H2(a) ELSE H3(a)
\* moments in milliseconds from the first operation on; every: again and again
Patterns == {[at |-> <<700>>, every |-> 0], [at |-> <<300, 1700>>, every |-> 0], [at |-> <<700, 1400, 2100, 2800, 3500>>, every |-> 0],
             [at |-> <<>>, every |-> 130], [at |-> <<>>, every |-> 300], [at |-> <<>>, every |-> 1100], [at |-> <<>>, every |-> 2300]}
          \cup (IF Thorough THEN {[at |-> <<t>>, every |-> 0] : t \in {1, 50, 999, 1000, 1001, 1999, 3999, 4001}} \cup {[at |-> <<>>, every |-> e] : e \in {7, 500, 999, 1000, 1001, 3900}} ELSE {})
T == 4
SigPlan(kh, login, batch, pat, faults) ==
  [id |-> "signals " \o kh[1] \o (IF login THEN " login " ELSE " ") \o (IF batch THEN "batch " ELSE "") \o ToString(pat),
   if |-> "c", faults |-> faults, fd0 |-> FALSE, short |-> IF batch THEN 16 ELSE 0, env |-> [signals |-> pat], login |-> login,
   hosts |-> <<HostFor(kh[2], IF login THEN LoginOnly ELSE PlainLogin)>>,
   msgs |-> <<[Att1("m1") EXCEPT !.long = FALSE], Plain1("m2")>>,
   ops |-> <<New("A", kh[1], kh[2], 2525), Set("A", "T", T), Set("A", "cred", Joe), Set("A", "batch", batch), Send("A", "m1"), Send("A", "m2")>>]

Goes(p, st) == IF st = "AUTH" /\ p.login THEN 334 ELSE OkCode(st)
Slow(ms) == [k |-> "slow", wms |-> ms]
Late(c, ms) == CodeR(c, [k |-> "reply", c |-> c, dms |-> ms], (ms + 999) \div 1000)
ReplySteps == {"GREET", "EHLO", "STARTTLS", "EHLO2", "AUTH", "AUTHU", "AUTHP", "MAIL", "RCPT", "DATA", "EOD"}
ContentSteps == {"H:From", "H:To", "H:Cc", "H:Subject", "H:CT", "BODY"}
SigMenu(p, st, n, i) ==
  IF n > 1 THEN {}
  ELSE CASE st = "CONNECT" -> {CodeR(0, [k |-> "reply", dms |-> d], 4) : d \in {1500, 3500}} \cup {Fail("timeout", -3), Fail("delayed", -10)}
         [] st = "TLS" -> {CodeR(0, [k |-> "reply", dms |-> d], 4) : d \in {800, 1800}} \cup {CodeR(0, [k |-> "reply", every |-> 400, gapms |-> 250], 6), CodeR(0, Slow(2500), 3)}
                          \cup {Fail("silent", 0), Fail("eof", 0), Stall, Cert("expired", FALSE)}
         [] st \in ReplySteps ->
              {Late(Goes(p, st), 1500), Late(Goes(p, st), 3000), Silent}
              \cup {CodeR(Goes(p, st), [k |-> "reply", c |-> Goes(p, st), cut |-> <<5>>, gapms |-> 1500], 2)}
              \cup (IF st = "GREET" THEN {} ELSE {CodeR(Goes(p, st), Slow(2500), 3), Stall, Code(550)})
         [] st \in ContentSteps -> {CodeR(0, Slow(2500), 3), Stall, WErr("die")}
         [] OTHER -> {}
Spec == (\E kh \in Kinds, login \in BOOLEAN, batch \in BOOLEAN, pat \in Patterns :
           (batch => login) /\ InitWith(SigPlan(kh, login, batch, pat, 1))) /\ [][Next]_vars
=============================================================================
