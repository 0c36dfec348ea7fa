------------------------------ MODULE MC_Target ------------------------------
(* Where a client connects to: names of every length and of odd characters,  *)
(* every size of port, given at construction, set afterwards, set between    *)
(* two sends or during a batch, copied, moved and assigned, for every kind   *)
(* of client; after a name that does not exist as well.                      *)
EXTENDS Catalogue

RECURSIVE Rep(_, _)
Rep(s, n) == IF n = 0 THEN "" ELSE IF n % 2 = 1 THEN s \o Rep(s, n - 1) ELSE LET h == Rep(s, n \div 2) IN h \o h
Lengths == {1, 2, 15, 16, 22, 23, 31, 32, 63, 64, 127, 128, 253, 255, 256, 257, 510, 511, 512, 513, 999, 1000, 1001, 1015, 1016, 1017, 1018, 1019, 1020, 1021, 1022, 1023, 1024,
            1025, 1026, 1030, 2047, 2048, 4095, 4096, 5000, 10000, 40000} \cup (IF Thorough THEN 960..1100 ELSE {})
\* one name of every length; the letters differ so that a part of it is another name
NameOf(n) == IF n < 9 THEN Rep("h", n) ELSE "srv" \o Rep("x", n - 8) \o ".test"
OddNames == {"10.0.0.7", "010.000.000.007", "SMTP.Example.ORG", "smtp.example.org", "smtp.example.org.", "a-b_c", "host:26", "%s%n%d%x", "h h", " lead", "trail ", "\"q\"", "::1", "[::1]", "localhost", "0", "-1",
             "http://mail.example.org/", "user@host", "x;y", "a=b"}
TargetNames == {NameOf(n) : n \in Lengths} \cup OddNames
SomeNames == {NameOf(4), NameOf(63), NameOf(1021), NameOf(3000), "SMTP.Example.ORG", "10.0.0.7"}
Numbers == {1, 2, 9, 10, 25, 99, 100, 127, 128, 255, 256, 257, 465, 511, 512, 587, 999, 1000, 1023, 1024, 1025, 2525, 4095, 4096, 8191, 8192, 9999, 10000, 16383, 16384, 25000, 32767, 32768, 32769, 40000,
            49152, 65280, 65534, 65535} \cup (IF Thorough THEN {x * 251 : x \in 1..261} ELSE {})
Clients == {"plain", "opp", "forced"}
ServerOf(kind, name) ==
  CASE kind = "plain" -> HostWith(name, FALSE, <<NameLine, Line("8BITMIME")>>, <<>>)
    [] kind = "opp" -> HostWith(name, FALSE, <<NameLine, StartTlsLine>>, <<NameLine>>)
    [] OTHER -> HostWith(name, TRUE, <<>>, <<NameLine, Line("8BITMIME")>>)
To(c, name, port) == <<Set(c, "host", name), Set(c, "port", port)>>
Sends(c) == <<Get(c), Send(c, "m1")>>
Ways == {"new", "set", "again", "batch", "copy", "move", "assign", "massign", "nowhere", "back"}
OpsOf(way, kind, n, p, n2, p2) ==
  CASE way = "new"     -> <<New("A", kind, n, p)>> \o Sends("A") \o Sends("A")
    [] way = "set"     -> <<New("A", kind, n2, p2)>> \o To("A", n, p) \o Sends("A")
    [] way = "again"   -> <<New("A", kind, n2, p2)>> \o Sends("A") \o To("A", n, p) \o Sends("A") \o To("A", n2, p) \o Sends("A")
    [] way = "batch"   -> <<New("A", kind, n, p), Set("A", "batch", TRUE)>> \o Sends("A") \o Sends("A") \o <<Set("A", "batch", FALSE)>> \o Sends("A") \o To("A", n2, p2) \o Sends("A")
    [] way = "copy"    -> <<New("A", kind, n, p), Two("copy", "B", "A")>> \o To("A", n2, p2) \o Sends("B") \o Sends("A") \o Sends("B")
    [] way = "move"    -> <<New("A", kind, n, p), Two("move", "B", "A")>> \o Sends("B")
    [] way = "assign"  -> <<New("A", kind, n, p), New("B", kind, n2, p2)>> \o Sends("B") \o <<Two("assign", "B", "A")>> \o To("A", n2, p2) \o Sends("B") \o Sends("A")
    [] way = "massign" -> <<New("A", kind, n, p), New("B", kind, n2, p2)>> \o Sends("B") \o <<Two("massign", "B", "A")>> \o Sends("B")
    [] way = "nowhere" -> <<New("A", kind, "nowhere.example.org", p2)>> \o Sends("A") \o To("A", n, p) \o Sends("A") \o <<Set("A", "host", n \o "y")>> \o Sends("A")
    [] OTHER           -> <<New("A", kind, n, p)>> \o Sends("A") \o To("A", n2, p2) \o Sends("A") \o To("A", n, p) \o Sends("A")
TargetPlan(way, kind, if, n, p, n2, p2) ==
  [id |-> "server " \o way \o " " \o kind \o " " \o if, if |-> if, faults |-> 0, fd0 |-> FALSE, short |-> 0,
   hosts |-> <<ServerOf(kind, n), ServerOf(kind, n2)>>, msgs |-> <<Plain1("m1")>>, ops |-> OpsOf(way, kind, n, p, n2, p2)]
TargetInit ==
  \/ \E n \in TargetNames, kind \in Clients, if \in {"c", "cpp"}, way \in {"new", "again", "nowhere"} : InitWith(TargetPlan(way, kind, if, n, 2525, "second.test", 587))
  \/ \E p \in Numbers, kind \in Clients, way \in {"new", "set", "again"} : InitWith(TargetPlan(way, kind, "c", "first.test", p, "second.test", 26))
  \/ \E n \in SomeNames, n2 \in SomeNames, kind \in Clients, way \in Ways, if \in {"c", "cpp"} : n # n2 /\ InitWith(TargetPlan(way, kind, if, n, 65535, n2, 1))
Spec == TargetInit /\ [][Next]_vars
NoMenu(p, st, n, i) == {}
=============================================================================
