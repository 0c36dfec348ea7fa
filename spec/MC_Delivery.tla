---------------------------- MODULE MC_Delivery ----------------------------
(* How an answer reaches the client: in how many pieces (split at every      *)
(* position, also inside of encrypted records), with which delays, of which  *)
(* length, in how many lines; answers that are never completed; and bytes    *)
(* that are no answer at all.                                                *)
EXTENDS Catalogue

ReplySteps == {"GREET", "EHLO", "STARTTLS", "EHLO2", "AUTH", "AUTHU", "AUTHP", "MAIL", "RCPT", "DATA", "EOD"}
Kinds == {<<"plain", "h3">>, <<"opp", "h1">>, <<"forced", "h2">>}
HostFor(h, a) == IF h = "h1" THEN H1(a) ELSE IF h = "h2" THEN H2(a) ELSE H3(a)
Bare(id) == Message(id, "plain", Anna, <<Bob>>, <<>>, <<>>, "Subject of " \o id, "Body text of message " \o id, <<>>)
\* part: which menu; the timeout is four seconds
DelPlan(part, kh, host, login, batch, faults, always) ==
  [id |-> "delivery " \o part \o " " \o kh[1] \o (IF login THEN " login" ELSE "") \o (IF batch THEN " batch" ELSE ""),
   if |-> "c", faults |-> faults, fd0 |-> FALSE, short |-> 0, part |-> part, always |-> always,
   hosts |-> <<host>>, msgs |-> <<Bare("m1"), Bare("m2")>>,
   ops |-> <<New("A", kh[1], kh[2], 2525), Set("A", "T", 4), Set("A", "cred", Joe), Set("A", "batch", batch), Send("A", "m1"), Send("A", "m2")>>]
Std(part, kh, login, faults, always) == DelPlan(part, kh, HostFor(kh[2], IF login THEN LoginOnly ELSE PlainLogin), login, FALSE, faults, always)

Shape(c, x, d) == CodeR(c, [k |-> "reply", c |-> c] @@ x, d)
OkOf(st) == IF st = "AUTH" THEN {235, 334} ELSE {OkCode(st)}
\* the code with which the step goes on depends on the mechanism
Goes(p, st) == IF st = "AUTH" /\ p.hosts[1] = HostFor(p.hosts[1].name, LoginOnly) THEN 334 ELSE OkCode(st)

\* ---- one answer cut at every position, at once or with a pause ----
MaxCut(st) == IF st \in {"EHLO", "EHLO2"} THEN 90 ELSE 16
CutShapes(p, st) ==
  LET c == Goes(p, st) IN
  {Shape(c, [cut |-> <<i>>, gapms |-> g], 3) : i \in 1..MaxCut(st), g \in {0, 1500}}
  \cup {Shape(c, [cut |-> <<i, i + 2>>, gapms |-> 900], 3) : i \in {1, 2, 3, 4, 5, 8, 12}}
  \cup {Shape(550, [cut |-> <<i>>, gapms |-> g], 3) : i \in 1..6, g \in {0, 1500}}
  \cup (IF p.ops[1].kind = "plain" THEN {} ELSE {Shape(c, [rawcut |-> i, gapms |-> g], 3) : i \in {1, 3, 4, 5, 6, 7, 20, 30}, g \in {0, 700}})

\* ---- delays and lengths ----
Delays(p, st) ==
  LET c == Goes(p, st) IN
  {Shape(c, [dms |-> d], 3) : d \in {1, 400, 999, 1000, 1001, 1500, 2000, 2500, 3000}}
  \cup {Shape(451, [dms |-> d], 3) : d \in {400, 1500, 3000}}
  \cup {Shape(c, [every |-> e, gapms |-> g], 3) : e \in {1, 2, 3, 5}, g \in {0, 20}}
  \cup {Shape(c, [every |-> 10, gapms |-> 300], 3)}
Lengths == {100, 500, 1000} \cup 1020..1030 \cup {1500} \cup 2044..2052 \cup {3072, 4096, 5000, 8192, 10000, 16384, 16400, 70000}
Long(p, st) ==
  LET c == Goes(p, st) IN
  {Shape(c, [len |-> l], 0) : l \in Lengths} \cup {Shape(550, [len |-> l], 0) : l \in {1023, 1024, 1025, 2048, 70000}}
  \cup {Shape(c, [len |-> l, dms |-> 1200], 2) : l \in {1023, 1024, 1025, 2048}}
  \cup {Shape(c, [multi |-> n], 0) : n \in {1, 2, 5, 60, 200}} \cup {Shape(550, [multi |-> n], 0) : n \in {1, 60}}
  \cup {Shape(c, [multi |-> n, every |-> e, gapms |-> 100], 3) : n \in {1, 2}, e \in {3, 7}}
  \cup (IF st \in {"EHLO", "EHLO2"} THEN {}
        ELSE {Shape(c, [text |-> ToString(c) \o "\r\n"], 0),      \* nothing but the code
              Shape(c, [text |-> ToString(c) \o "-\r\n" \o ToString(c) \o " \r\n"], 0)})

\* ---- never completed ----
Incomplete(st) ==
  {Odd("tmo", 0, t) : t \in {"2", "25", "250", "250 ok", "250-ok\r\n", "250-one\r\n250-two\r\n", "250-one\r\n250 tw", "250-one\r\n25", "354-go\r\n", "220-", "235-ok\r\n", "334-x\r\n"}}
  \cup {[Odd("tmo", 0, "250 a long answer that arrives very slowly\r\n") EXCEPT !.r = @ @@ [every |-> 1, gapms |-> 700]],
        [Odd("tmo", 0, "220-first\r\n220 second\r\n") EXCEPT !.r = @ @@ [cut |-> <<11>>, gapms |-> 60000]],
        [Odd("tmo", 0, "250 late\r\n") EXCEPT !.r = @ @@ [dms |-> 60000]]}
\* ---- connection and handshake ----
ConnectShapes == {CodeR(0, [k |-> "reply", dms |-> d], 3) : d \in {1, 500, 1000, 2000, 3000}} \cup {CodeR(0, [k |-> "fast"], 0)}
                 \cup {CodeR(0, [k |-> "eintr", times |-> n], 1) : n \in {1, 2, 7}}
TlsShapes == {CodeR(0, [k |-> "reply", dms |-> d], 6) : d \in {1, 500, 1000, 1500, 2000}}
             \cup {CodeR(0, [k |-> "reply", every |-> e, gapms |-> g], 6) : e \in {100, 333, 1000}, g \in {0, 20}} \cup {CodeR(0, [k |-> "reply", every |-> 1, gapms |-> 0], 0)}

AllShapes == [every1 |-> [every |-> 1, gapms |-> 0], slow1 |-> [every |-> 1, gapms |-> 20], late |-> [dms |-> 2000], early |-> [dms |-> 1],
              halves |-> [cut |-> <<6>>, gapms |-> 1200], digits |-> [cut |-> <<2, 3, 4>>, gapms |-> 300], longer |-> [len |-> 1024], lines |-> [multi |-> 3]]

DelMenu(p, st, n, i) ==
  IF n > 1 THEN {}
  ELSE CASE p.part = "cut"   -> IF st \in ReplySteps THEN CutShapes(p, st) ELSE {}
         [] p.part = "delay" -> IF st \in ReplySteps THEN Delays(p, st) ELSE IF st = "CONNECT" THEN ConnectShapes ELSE IF st = "TLS" THEN TlsShapes ELSE {}
         [] p.part = "long"  -> IF st \in ReplySteps THEN Long(p, st) ELSE {}
         [] p.part = "half"  -> IF st \in ReplySteps THEN Incomplete(st) ELSE {}
         [] p.part \in DOMAIN AllShapes -> IF st \in ReplySteps THEN {Shape(Goes(p, st), AllShapes[p.part], 3)} ELSE {}
         [] OTHER -> {}

DeliverInit ==
  \/ \E kh \in Kinds, login \in BOOLEAN, part \in {"cut", "delay", "long", "half"} : InitWith(Std(part, kh, login, 1, FALSE))
  \/ \E kh \in Kinds, login \in BOOLEAN, part \in DOMAIN AllShapes : InitWith(Std(part, kh, login, 99, TRUE))

\* ---- long capability lists: a keyword at every place around the sizes of buffers ----
RECURSIVE Filler(_, _)
Filler(n, s) == IF n <= 0 THEN s ELSE Filler(n - 1, s \o "x")
\* lines of 50 bytes in all, the last one adjusted so that the list is n bytes long before the next line
RECURSIVE Pad(_)
Pad(n) == IF n >= 110 THEN <<Line("X-EXTENSION-0123456789-0123456789-0123456789")>> \o Pad(n - 50)
          ELSE <<Line(Filler(n - 8, "XX"))>>
Name4 == [t |-> "mail", k |-> "name", m |-> {}]    \* 10 bytes
Ends == {1024, 2048}
CapList(n, last) == <<Name4>> \o Pad(n - 10) \o last
CapInit ==
  \E e \in Ends, o \in (IF Thorough THEN 0..40 ELSE 0..24), after \in BOOLEAN :
    LET tail(l) == IF after THEN <<l, Line("SIZE 1000"), Line("HELP")>> ELSE <<l>> IN
    \/ InitWith(DelPlan("list", <<"plain", "h3">>, HostWith("h3", FALSE, CapList(e - o, tail(LoginOnly)), <<>>), TRUE, FALSE, 0, FALSE))
    \/ InitWith(DelPlan("list", <<"opp", "h1">>, HostWith("h1", FALSE, CapList(e - o, tail(StartTlsLine)), <<NameLine, PlainLogin>>), FALSE, FALSE, 0, FALSE))
    \/ InitWith(DelPlan("list", <<"opp", "h1">>, HostWith("h1", FALSE, <<NameLine, StartTlsLine>>, CapList(e - o, tail(LoginOnly))), TRUE, FALSE, 0, FALSE))
    \/ InitWith(DelPlan("list", <<"forced", "h2">>, HostWith("h2", TRUE, <<>>, CapList(e - o, tail(PlainLogin))), FALSE, FALSE, 0, FALSE))
\* a list longer than the buffers, in pieces that come late
SlowInit ==
  \E e \in {1024, 3000}, part \in {"halves", "digits", "late"} :
    \/ InitWith(DelPlan(part, <<"plain", "h3">>, HostWith("h3", FALSE, CapList(e, <<LoginOnly>>), <<>>), TRUE, FALSE, 99, TRUE))
    \/ InitWith(DelPlan(part, <<"opp", "h1">>, HostWith("h1", FALSE, CapList(e, <<StartTlsLine>>), CapList(e, <<LoginOnly>>)), TRUE, FALSE, 99, TRUE))
    \/ InitWith(DelPlan(part, <<"forced", "h2">>, HostWith("h2", TRUE, <<>>, CapList(e, <<LoginOnly>>)), TRUE, FALSE, 99, TRUE))

SpecAnswers == (DeliverInit \/ CapInit \/ SlowInit) /\ [][Next]_vars
----------------------------------------------------------------------------
\* Bytes that no server should send; whatever the client makes of them, it comes to an end
Rep(n, b) == [x \in 1..n |-> b]
Ascii(c) == IF c = 250 THEN <<50, 53, 48>> ELSE IF c = 220 THEN <<50, 50, 48>> ELSE IF c = 334 THEN <<51, 51, 52>> ELSE IF c = 354 THEN <<51, 53, 52>> ELSE <<50, 51, 53>>
OddBytes(c) ==
  LET ok == Ascii(c) IN
  {<<0>>, <<255>>, <<10>>, <<13>>, <<13, 10>>, <<10, 10, 10>>, <<0, 13, 10>>, <<45, 13, 10>>, <<32, 13, 10>>,
   ok \o <<0, 13, 10>>, ok \o <<32, 0, 255, 13, 10>>, ok \o <<45, 13, 10>>, ok \o <<10>>, ok \o <<13>>, ok \o <<45, 10>> \o ok \o <<10>>,
   ok \o <<32>> \o Rep(3, 37) \o <<115, 37, 110, 13, 10>>,                 \* %%%s%n
   ok \o <<32>> \o [x \in 1..255 |-> x] \o <<13, 10>>, Rep(300, 0) \o <<13, 10>>, Rep(300, 255) \o <<13, 10>>, Rep(1100, 50) \o <<13, 10>>,
   ok \o <<45>> \o Rep(1100, 45) \o <<13, 10>> \o ok \o <<32, 13, 10>>, <<45, 50, 53, 48, 13, 10>>, <<57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 13, 10>>,
   <<43, 50, 53, 48, 32, 13, 10>>, <<32, 50, 53, 48, 13, 10>>, <<50, 53, 48, 48, 48, 13, 10>>, <<48, 120, 102, 102, 13, 10>>, <<45, 49, 13, 10>>, <<48, 48, 48, 13, 10>>}
\* capability lists out of shape
OddLists ==
  {"250-\r\n250-\r\n250 \r\n", "250-x\r\n250-AUTH\r\n250 STARTTLS\r\n", "250-x\r\n250 AUTH=\r\n", "250-AUTH\r\n", "250 AUTH\r\n", "250-x\r\n250-AUTH \r\n250 x\r\n", "250-x\n250-AUTH PLAIN\n250 x\n",
   "250-x\r\n250-AUTH                PLAIN\r\n250 x\r\n", "250-x\r\nAUTH\r\n250 x\r\n", "250-x\r\n250", "250-x\r\n\r\n\r\n250 AUTH PLAIN\r\n", "250-x\r\n2\r\n25\r\n250 \r\n", "250-x\r\n250-A\r\n250-AU\r\n250-AUT\r\n250 AUTH P\r\n",
   "250-x\r\n250-S\r\n250-START\r\n250 STARTTL\r\n", "AUTH PLAIN\r\n250 ok\r\n", "250", "250\r\n250\r\n250\r\n", "\r\n250 AUTH LOGIN\r\n", "250-x\r\n250 AUTH PLAIN LOGIN XOAUTH2 PLAIN LOGIN XOAUTH2 PLAIN\r\n"}
Ways == {[then |-> ""], [then |-> "eof"], [then |-> "rst"], [every |-> 1, gapms |-> 0]}
BytesMenu(p, st, n, i) ==
  IF n > 1 \/ st \notin ReplySteps THEN {}
  ELSE LET some == IF Thorough THEN Ways ELSE {[then |-> ""], [then |-> "eof"]} IN
       IF p.part = "bytes" THEN {CodeR(999, [k |-> "reply", c |-> 999, text |-> t] @@ w, 0) : t \in OddBytes(Goes(p, st)), w \in some}
       ELSE IF st \in {"EHLO", "EHLO2", "GREET"} THEN {CodeR(999, [k |-> "reply", c |-> 999, text |-> t] @@ w, 0) : t \in OddLists, w \in some} ELSE {}
BytesInit == \E kh \in Kinds, login \in BOOLEAN, part \in {"bytes", "lists"} : InitWith(Std(part, kh, login, 1, FALSE))
SpecBytes == BytesInit /\ [][Next]_vars
=============================================================================
