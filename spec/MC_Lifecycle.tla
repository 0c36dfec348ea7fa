---------------------------- MODULE MC_Lifecycle ----------------------------
(* Histories of two clients: all sequences of sends, copies, moves,          *)
(* assignments, self-assignments and destructions up to a bound, in batch    *)
(* mode and outside, optionally with one failure on some connection; in the  *)
(* end every client that is left tells its configuration and sends.          *)
EXTENDS Catalogue

KindHost == {<<"plain", "h3">>, <<"opp", "h1">>, <<"forced", "h2">>}
Other(kh) == CASE kh[1] = "plain" -> HostWith("h4", FALSE, <<NameLine, LoginOnly>>, <<>>)
               [] kh[1] = "opp" -> HostWith("h4", FALSE, <<NameLine, StartTlsLine>>, <<NameLine, LoginOnly>>)
               [] OTHER -> HostWith("h4", TRUE, <<>>, <<NameLine, LoginOnly>>)
Own(kh) == CASE kh[2] = "h1" -> H1(PlainLogin) [] kh[2] = "h2" -> H2(PlainLogin) [] OTHER -> H3(PlainLogin)
Ann == Cred("ann@example.org", "s3cretAnn", 2)

\* st: what has become of A and B, h: the operations
St(a, b, h) == [a |-> a, b |-> b, h |-> h]
Steps1(st) ==
  LET L(x) == x = "live"
      Add(op, a, b) == St(a, b, Append(st.h, op))
  IN (IF L(st.a) THEN {Add(Send("A", "m1"), st.a, st.b), Add(Two("assign", "A", "A"), st.a, st.b), Add(Two("massign", "A", "A"), st.a, st.b),
                       Add(Own1("A", "cred"), st.a, st.b), Add(Own1("A", "host"), st.a, st.b)} ELSE {})
     \cup (IF L(st.b) THEN {Add(Send("B", "m2"), st.a, st.b)} ELSE {})
     \cup (IF L(st.a) /\ st.b = "none" THEN {Add(Two("copy", "B", "A"), st.a, "live"), Add(Two("move", "B", "A"), "moved", "live")} ELSE {})
     \cup (IF L(st.a) /\ st.b # "none" THEN {Add(Two("assign", "B", "A"), st.a, "live"), Add(Two("massign", "B", "A"), "moved", "live")} ELSE {})
     \cup (IF L(st.b) /\ st.a # "none" THEN {Add(Two("assign", "A", "B"), "live", st.b), Add(Two("massign", "A", "B"), "live", "moved")} ELSE {})
     \cup (IF st.a # "none" THEN {Add(Del("A"), "none", st.b)} ELSE {})
     \cup (IF st.b # "none" THEN {Add(Del("B"), st.a, "none")} ELSE {})
RECURSIVE Histories(_, _)
Histories(n, S) == IF n = 0 THEN S ELSE Histories(n - 1, UNION {Steps1(st) : st \in S})
Suffix(st) == (IF st.a = "live" THEN <<Get("A"), Send("A", "m3")>> ELSE <<>>)
              \o (IF st.b = "live" THEN <<Get("B"), Send("B", "m4"), Get("B")>> ELSE <<>>)
              \o (IF st.a = "live" THEN <<Get("A")>> ELSE <<>>)

LifePlan(kh, batch, two, st, faults) ==
  [id |-> "life " \o kh[1] \o (IF batch THEN " batch" ELSE "") \o (IF faults > 0 THEN " fault" ELSE ""),
   if |-> "c", faults |-> faults, fd0 |-> FALSE, short |-> 0,
   hosts |-> <<Own(kh), Other(kh)>>,
   msgs |-> <<Plain1("m1"), Html1("m2"), Plain1("m3"), Att1("m4")>>,
   ops |-> <<New("A", kh[1], kh[2], 2525), Set("A", "T", 3), Set("A", "cred", Joe)>>
           \o (IF batch THEN <<Set("A", "batch", TRUE)>> ELSE <<>>)
           \o (IF two THEN <<New("B", kh[1], "h4", 587), Set("B", "T", 2), Set("B", "cred", Ann), Set("B", "batch", TRUE)>>
                           \o (IF kh[1] # "plain" THEN <<Set("B", "self", TRUE)>> ELSE <<>>) ELSE <<>>)
           \o st.h \o Suffix(st)]
\* the histories of exactly n operations that contain a send
Bounded(n, two) == {st \in Histories(n, {St("live", IF two THEN "live" ELSE "none", <<>>)}) : \E k \in 1..Len(st.h) : st.h[k].op = "send"}
Depth(faults) == (IF Thorough THEN 4 ELSE 3) - faults
LifeInit == \E faults \in {0, 1}, two \in BOOLEAN : \E st \in Bounded(Depth(faults), two) :
               \E kh \in KindHost, batch \in BOOLEAN : InitWith(LifePlan(kh, batch, two, st, faults))
Spec == LifeInit /\ [][Next]_vars
\* One client whose settings change between the sends
ModeSteps == {Set("A", "batch", TRUE), Set("A", "batch", FALSE), Set("A", "T", 1), Set("A", "cred", Ann), Set("A", "host", "h4"), Set("A", "port", 26)}
RECURSIVE Modes(_)
Modes(n) == IF n = 0 THEN {<<>>} ELSE Modes(n - 1) \cup {Append(h, x) : h \in {y \in Modes(n - 1) : Len(y) = n - 1}, x \in ModeSteps \cup {Send("A", "m" \o ToString((n % 4) + 1))}}
Sends(h) == {k \in 1..Len(h) : h[k].op = "send"}
\* settings of no interest: twice the same in a row, or none between sends
Worthwhile(h) == /\ Sends(h) # {} /\ \A k \in 1..(Len(h) - 1) : h[k].op = "set" /\ h[k + 1].op = "set" => h[k].f # h[k + 1].f
                 /\ \E k \in 1..Len(h) : h[k].op = "set" /\ \E j \in Sends(h) : j < k
\* a host with so much to say that the log has to grow
RECURSIVE Times(_, _)
Times(n, x) == IF n = 0 THEN "" ELSE x \o Times(n - 1, x)
Chatty(host) == LET Many(caps) == IF caps = <<>> THEN <<>> ELSE <<caps[1]>> \o [i \in 1..11 |-> Line("X-" \o ToString(i) \o " " \o Times(42, "as I said "))] \o Tail(caps)
                IN [host EXCEPT !.caps1 = Many(@), !.caps2 = Many(@)]
ModePlan(kh, h, last, faults) ==
  LET chatty == ~last /\ Len(h) <= 3 /\ faults = 0
      p == LifePlan(kh, ~chatty, FALSE, St("none", "none", h \o (IF last \/ chatty THEN <<Get("A"), Send("A", "m4")>> ELSE <<Get("A")>>)), faults)
  IN [p EXCEPT !.id = "modes " \o kh[1] \o (IF faults > 0 THEN " fault" ELSE "") \o (IF chatty THEN " chatty" ELSE ""),
               !.hosts = IF chatty THEN <<Chatty(@[1]), @[2]>> ELSE @]
ModesInit == \E faults \in {0, 1} : \E h \in {x \in Modes((IF Thorough THEN 5 ELSE 4) - faults) : Worthwhile(x)} : \E kh \in KindHost, last \in BOOLEAN :
               (faults = 0 \/ Len(h) = 3) /\ InitWith(ModePlan(kh, h, last, faults))
SpecModes == ModesInit /\ [][Next]_vars
LifeMenu(p, st, n, i) ==
  CASE st = "CONNECT" -> {Fail("refused", -2)}
    [] st = "EHLO" /\ n = 1 -> {Code(421)}
    [] st = "RCPT" -> {Code(550), Gone("eof")}
    [] st = "DATA" -> {Code(554)}
    [] st = "BODY" -> {WErr("pipe")}
    [] st = "EOD" -> {Half(250, "eof"), Half(250, "rst"), Silent}
    [] OTHER -> {}
=============================================================================
