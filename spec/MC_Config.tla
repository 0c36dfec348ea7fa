----------------------------- MODULE MC_Config -----------------------------
(* What a client is configured with: every sequence of acceptable and        *)
(* unacceptable settings, of copies, moves and assignments, up to a bound,   *)
(* the configuration being read after every operation; in the end the        *)
(* clients send, which shows that the configuration is what is used.         *)
EXTENDS Catalogue

Kinds == {<<"plain", "h3">>, <<"opp", "h1">>, <<"forced", "h2">>}
HostFor(h, a) == IF h = "h1" THEN H1(a) ELSE IF h = "h2" THEN H2(a) ELSE H3(a)
Bad(c, f, v) == [op |-> "setbad", c |-> c, f |-> f, v |-> v, own |-> FALSE]
NewBad(c, kind, host) == [op |-> "newbad", c |-> c, kind |-> kind, host |-> host, port |-> 25]
Ann == Cred("ann lee@example.org", "s3cret Ann", 2)
Xo  == Cred("xo", "tok", 3)
\* An operation is described by homogeneous records, so that TLC can compare them; k: which value
Hosts == <<"other", "nowhere.example.org">>
Ports == <<2526, 1, 65535>>
Times == <<2, 1, 3>>
Flags == <<TRUE, FALSE>>
Credits == <<Ann, Joe, Xo>>
Blanks == <<"", " ", "\t \n", "$null">>
Wrong == <<Cred("joe", "", 1), Cred("", "p", -1), Cred(" ", "p", 1), Cred("\t \n", "p", -1), Cred("joe", "", -1)>>
A1(op, c, f, k) == [op |-> op, c |-> c, f |-> f, k |-> k]
Concrete(x, kind) ==
  CASE x.op = "set" -> Set(x.c, x.f, CASE x.f = "host" -> Hosts[x.k] [] x.f = "port" -> Ports[x.k] [] x.f = "T" -> Times[x.k]
                                       [] x.f \in {"batch", "self"} -> Flags[x.k] [] x.f = "cred" -> Credits[x.k])
    [] x.op = "own" -> Own1(x.c, x.f)
    [] x.op = "setbad" -> Bad(x.c, x.f, IF x.f = "host" THEN Blanks[x.k] ELSE Wrong[x.k])
    [] x.op = "newbad" -> NewBad(x.c, kind, Blanks[x.k])
    [] x.op = "get" -> Get(x.c)
    [] OTHER -> Two(x.op, x.c, x.f)
Settings(c, kind, if) ==
  {A1("set", c, "host", k) : k \in 1..2} \cup {A1("set", c, f, k) : f \in {"port", "T", "cred"}, k \in 1..3}
  \cup {A1("set", c, f, k) : f \in {"batch"} \cup (IF kind = "plain" THEN {} ELSE {"self"}), k \in 1..2}
  \cup {A1("own", c, f, 0) : f \in {"host", "cred"}}
  \cup {A1("setbad", c, "host", k) : k \in 1..(IF if = "c" THEN 4 ELSE 3)} \cup {A1("setbad", c, "cred", k) : k \in 1..5}
  \cup {A1("newbad", "N", "", k) : k \in 1..(IF if = "c" THEN 4 ELSE 3)}
\* one of each is enough where several objects are involved
Few(c, kind, if) == {A1("set", c, f, 1) : f \in {"host", "port", "T", "batch", "cred"} \cup (IF kind = "plain" THEN {} ELSE {"self"})}
                    \cup {A1("own", c, f, 0) : f \in {"host", "cred"}} \cup {A1("setbad", c, f, 1) : f \in {"host", "cred"}}
St(a, b, h) == [a |-> a, b |-> b, h |-> h]
Also(st, o, a, b) == St(a, b, st.h \o <<o>> \o (IF a = "live" THEN <<A1("get", "A", "", 0)>> ELSE <<>>) \o (IF b = "live" THEN <<A1("get", "B", "", 0)>> ELSE <<>>))
Steps2(st, kind, if) ==
  (IF st.a = "live" THEN {Also(st, o, st.a, st.b) : o \in IF st.b = "none" THEN Settings("A", kind, if) ELSE Few("A", kind, if)} ELSE {})
  \cup (IF st.b = "live" THEN {Also(st, o, st.a, st.b) : o \in Few("B", kind, if)} ELSE {})
  \cup (IF st.a = "live" /\ st.b = "none" THEN {Also(st, A1("copy", "B", "A", 0), "live", "live"), Also(st, A1("move", "B", "A", 0), "moved", "live")} ELSE {})
  \cup (IF st.a = "live" /\ st.b # "none" THEN {Also(st, A1("assign", "B", "A", 0), "live", "live"), Also(st, A1("massign", "B", "A", 0), "moved", "live")} ELSE {})
  \cup (IF st.b = "live" THEN {Also(st, A1("assign", "A", "B", 0), "live", "live"), Also(st, A1("massign", "A", "B", 0), "live", "moved")} ELSE {})
  \cup (IF st.a = "live" THEN {Also(st, A1("assign", "A", "A", 0), "live", st.b), Also(st, A1("massign", "A", "A", 0), "live", st.b)} ELSE {})
RECURSIVE Runs(_, _, _, _)
Runs(n, S, kind, if) == IF n = 0 THEN S ELSE Runs(n - 1, UNION {Steps2(st, kind, if) : st \in S}, kind, if)
Tail2(st) == (IF st.a = "live" THEN <<Send("A", "m1"), Get("A")>> ELSE <<>>) \o (IF st.b = "live" THEN <<Send("B", "m2"), Get("B")>> ELSE <<>>)
Start(kh, with) == <<New("A", kh[1], kh[2], 2525)>> \o (IF with THEN <<Set("A", "cred", Joe), Set("A", "T", 2)>> ELSE <<>>) \o <<Get("A")>>
Second(kh, two) == IF two THEN <<New("B", kh[1], kh[2], 587), Set("B", "cred", Xo), Set("B", "batch", TRUE), Get("B")>> ELSE <<>>
ConfPlan(kh, if, with, two, st) ==
  [id |-> "settings " \o kh[1] \o " " \o if \o (IF with THEN " with" ELSE "") \o (IF two THEN " two" ELSE ""), if |-> if, faults |-> 0, fd0 |-> FALSE, short |-> 0,
   hosts |-> <<HostFor(kh[2], AuthLine("AUTH PLAIN LOGIN XOAUTH2", {"PLAIN", "LOGIN", "XOAUTH2"})),
               [HostFor(kh[2], AuthLine("AUTH LOGIN XOAUTH2", {"LOGIN", "XOAUTH2"})) EXCEPT !.name = "other"]>>,
   msgs |-> <<Plain1("m1"), Html1("m2")>>, ops |-> Start(kh, with) \o Second(kh, two) \o SeqMap(LAMBDA x : Concrete(x, kh[1]), st.h) \o Tail2(st)]
Depth == IF Thorough THEN 3 ELSE 2
ConfInit ==
  \E kh \in Kinds, if \in {"c", "cpp"}, with \in BOOLEAN, two \in BOOLEAN :
    (two => with) /\ \E st \in Runs(IF two THEN 2 ELSE Depth, {St("live", IF two THEN "live" ELSE "none", <<>>)}, kh[1], if) : InitWith(ConfPlan(kh, if, with, two, st))
Spec == ConfInit /\ [][Next]_vars
NoMenu(p, st, n, i) == {}
=============================================================================
