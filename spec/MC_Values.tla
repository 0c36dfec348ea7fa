----------------------------- MODULE MC_Values -----------------------------
(* All sequences of operations, up to a bound, over two or three objects of  *)
(* each type, in both interfaces; and every constructor and setter with      *)
(* acceptable and unacceptable arguments.                                    *)
EXTENDS ObjectLifecycle, SequencesExt, Json, IOUtils
C == INSTANCE Catalogue WITH pc <- 1, ph <- "", cur <- 0, cls <- 0, conns <- 0, script <- 0, budget <- 0, Menu <- LAMBDA p, s, n, i : {}

Tier == IF "VERIF_TIER" \in DOMAIN IOEnv THEN IOEnv.VERIF_TIER ELSE "quick"
Thorough == Tier = "thorough"
Blank == ""
\* ---- constructor calls ----
NewAddr(s, if, a, d, good) == [op |-> "vnew", ty |-> "addr", if |-> if, s |-> s, a |-> a, d |-> d, good |-> good,
                               val |-> AddrValue(a, IF d = "$none" THEN "" ELSE d)]
NewAtt(s, if, f, n, c, m, good) == [op |-> "vnew", ty |-> "att", if |-> if, s |-> s, f |-> f, n |-> n, c |-> c, good |-> good, val |-> AttValue(f, n, c, m)]
NewCred(s, if, u, p, m, good) == [op |-> "vnew", ty |-> "cred", if |-> if, s |-> s, u |-> u, p |-> p, m |-> m, good |-> good, val |-> CredValue(u, p, m)]
Text(x) == x
NewMsg(s, if, m, ctor) == [op |-> "vnew", ty |-> m.kind, if |-> if, s |-> s, m |-> m.id, ctor |-> ctor, good |-> TRUE, val |-> MsgValue(m)]
NoRecipients(s, m) == [op |-> "vnew", ty |-> m.kind, if |-> "cpp", s |-> s, m |-> m.id, ctor |-> 2, good |-> FALSE, val |-> MsgValue(m)]

\* ---- messages of every shape ----
M(id, kind, to, cc, bcc, subj, body, att) == [C!Message(id, kind, C!Anna, to, cc, bcc, subj, body, att) EXCEPT !.from = IF id \in {"mb", "md"} THEN C!Carl ELSE C!Anna]
Pdf(n, c) == C!Attachment("a.pdf", "application/pdf", n, c, "ramp", 3)
Png(n, c) == C!Attachment("b.png", "image/png", n, c, "ramp", 4)
Shapes(kind) ==
  <<M("ma", kind, <<C!Bob>>, <<>>, <<>>, "Subject A", "Body A", <<>>),
    M("mb", kind, <<C!Bob, C!Carl, C!Dora>>, <<C!Egon, C!Fran>>, <<C!Anna>>, "", "Body B", <<Pdf("one", ""), Png("two", "cid2"), Pdf("", "")>>),
    M("mc", kind, <<C!Dora>>, <<C!Bob>>, <<>>, "Subject C, a longer one", "", <<Pdf("", "c1")>>),
    M("md", kind, <<C!Dora, C!Dora>>, <<>>, <<C!Bob, C!Egon>>, "Subject D", "Body D, which is the longest of these bodies", <<>>),
    M("me", kind, <<>>, <<>>, <<>>, "", "", <<>>)>>
Single(m) == Len(m.to) = 1 /\ Len(m.cc) <= 1 /\ Len(m.bcc) <= 1
Makes(m, s, if) == {NewMsg(s, if, m, 2)} \cup (IF if = "c" /\ Single(m) THEN {NewMsg(s, if, m, 1)} ELSE {})
\* with empty lists that are given
Given(m, s, if) == IF if = "c" /\ (m.cc = <<>> \/ m.bcc = <<>>) THEN {NewMsg(s, if, m, 3)} ELSE {}

\* ---- populations ----
Plan(id, menu, pop, n, k, msgs) == [id |-> id, menu |-> menu, pop |-> pop, n |-> n, slots |-> k, msgs |-> msgs]
Ifs == {"c", "cpp"}
Simple(ty, s, if, k) ==
  CASE ty = "addr" -> IF k = 1 THEN NewAddr(s, if, "anna@example.com", "Anna A.", TRUE) ELSE IF k = 2 THEN NewAddr(s, if, "b@ex.org", "$none", TRUE) ELSE NewAddr(s, if, "carl.c@sub.example.net", "", TRUE)
    [] ty = "att"  -> IF k = 1 THEN NewAtt(s, if, "$one.pdf", "One", "", "application/pdf", TRUE) ELSE IF k = 2 THEN NewAtt(s, if, "/no/such/file.png", "", "cid2", "image/png", TRUE) ELSE NewAtt(s, if, "$x.txt", "a longer name than the others", "c", "text/plain", TRUE)
    [] ty = "cred" -> IF k = 1 THEN NewCred(s, if, "joe", "secret", -1, TRUE) ELSE IF k = 2 THEN NewCred(s, if, "a longer user name", "p", 2, TRUE) ELSE NewCred(s, if, " u ", "  ", 3, TRUE)
Pops2(ty, if) == {<<Simple(ty, "a", if, 1), Simple(ty, "b", if, 2)>>, <<Simple(ty, "a", if, 3), Simple(ty, "b", if, 1)>>, <<Simple(ty, "a", if, 2)>>}

ValueInit(p) == plan = p /\ slots = [x \in {} |-> 0] /\ pc = 1 /\ ev = <<>> /\ ops = <<>>
D == IF Thorough THEN 3 ELSE 2
InitSimple ==
  \E ty \in {"addr", "att", "cred"}, if \in Ifs : \E pop \in Pops2(ty, if) :
    ValueInit(Plan("values " \o ty \o " " \o if, "free", pop, Len(pop) + (IF Thorough THEN 1 ELSE 0) + (IF Len(pop) = 1 THEN 3 ELSE 2), IF Len(pop) = 1 THEN 2 ELSE 3, <<>>))
MsgKinds == {"plain", "html"}
InitMsgs ==
  \E kind \in MsgKinds, if \in Ifs : LET S == Shapes(kind) IN
    \E i, j \in 1..5 : (if = "cpp" => i # 5 /\ j # 5) /\
      \E x \in Makes(S[i], "a", if) \cup (IF j = 1 + (i % 5) THEN Given(S[i], "a", if) ELSE {}), y \in Makes(S[j], "b", if) :
        ValueInit(Plan("messages " \o kind \o " " \o if, "free", <<x, y>>, 2 + D - (IF i = j /\ i # 2 THEN 1 ELSE 0), IF i = j /\ i = 2 THEN 3 ELSE 2, S))
----------------------------------------------------------------------------
\* ---- arguments ----
GoodAddresses == {"joe@example.com", "j@ex.co", "Joe.User@Example.COM", "joe_user-1@mail.sub-domain.example.org", "0joe@123.example.net", "joe@example.photography",
                  "JOE@EXAMPLE.ORG", "IAN.INGRID@INSTITUTE.INFO", "I@I.IN", "Ivy@x.museum", "joe+tag@example.com", "o'neil@example.com", "a-b_c=d@x-1.y2.zz", "ABCDEFGHIJKLMNOPQRSTUVWXYZ@ABCDEFGHIJKLMNOPQRSTUVWXYZ.ORG",
                  "abcdefghijklmnopqrstuvwxyz_0123456789-@0123456789-abcdefghijklmnopqrstuvwxyz.net", "x@y.com.tr", "very.long.local.part.of.an.address.0123456789@a-very-long-domain-name-with-many-parts.example.org", "a.b.c.d@e.f.gh", "_joe_@x-y.info"}
BadAddresses == {"", " ", "\t", " \t \n", "joe", "joe.example.com", "@", "@example.com", "joe@", "joe@a", "joe@@example.com", "joe@example.com\r\n", "joe@example.com\n",
                 "joe@example.com\r\nRCPT TO: <x@example.com>", "\r\njoe@example.com", "joe\r\n@example.com", "jo\ne@example.com", "joe@exam\rple.com", "joe@exa\nmple.com", "joe@example.com>\r\nDATA\r\n.\r\n",
                 ".joe@example.com", "joe.@example.com", "jo..e@example.com", "joe@.example.com", "joe@example..com", " joe@example.com", "joe@example.com ", "joe@example.c", "joe@example.123",
                 "<joe@example.com>", "joe@example.com>", "Joe <joe@example.com>", "joe@", "@.", "joe@example.com, ann@example.com", "joe@example.com\t"}
Spaces == {"", " ", "   ", "\t", "\n", " \t\r\n "}
\* every letter at every end of the parts
Upper == <<"A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z">>
Lower == <<"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z">>
Lettered(c) == {c \o "ox@example.com", "fo" \o c \o "@example.com", "fox@" \o c \o "xample.com", "fox@exampl" \o c \o ".com", "fox@example." \o c \o "t", "fox@example.n" \o c}
LetterAddresses == UNION {Lettered(Upper[k]) \cup Lettered(Lower[k]) : k \in 1..26} \cup {c \o "ox@a" \o c \o ".com" : c \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}}
GoodNames == {"joe", " joe", "j", "joe@example.com", "a very long name 0123456789 0123456789 0123456789 0123456789"}
GoodFiles == {"x.txt", "/no/such/dir/x.pdf", " lead.png", "noextension", ".", "a"}
MimeOf(f) == CASE f = "x.txt" -> "text/plain" [] f = "/no/such/dir/x.pdf" -> "application/pdf" [] f = " lead.png" -> "image/png" [] OTHER -> ""
ArgOps(if) ==
  {NewAddr("c", if, a, d, TRUE) : a \in GoodAddresses, d \in {"", "Name", "$none"}} \cup {NewAddr("c", if, a, "Name", TRUE) : a \in LetterAddresses} \cup {NewAddr("c", if, a, d, FALSE) : a \in BadAddresses, d \in {"", "Name", "$none"}}
  \cup {NewAtt("c", if, f, n, "", MimeOf(f), TRUE) : f \in GoodFiles, n \in {"", "Name"}} \cup {NewAtt("c", if, f, n, "x", "", FALSE) : f \in Spaces, n \in {"", "Name"}}
  \cup {NewCred("c", if, u, p, m, TRUE) : u \in GoodNames, p \in {"p", " ", "a long password 0123456789 0123456789 0123456789"}, m \in {-1, 0, 1, 2, 3}}
  \cup {NewCred("c", if, u, "p", m, FALSE) : u \in Spaces, m \in {-1, 2}} \cup {NewCred("c", if, u, "", m, FALSE) : u \in {"joe", ""}, m \in {-1, 2}}
  \cup (IF if = "c" THEN {NewCred("c", if, "$null", "p", m, FALSE) : m \in {-1, 1}} \cup {NewCred("c", if, "joe", "$null", m, FALSE) : m \in {-1, 1}} ELSE {})
  \cup (IF if = "cpp" THEN {NoRecipients("c", Shapes("plain")[5]), NoRecipients("c", Shapes("html")[5])} ELSE {})
SetOps(ty, if, s) ==
  CASE ty = "cred" -> {SetStr(s, "u", u, TRUE) : u \in GoodNames \cup {"$own"}} \cup {SetStr(s, "u", u, FALSE) : u \in Spaces \cup (IF if = "c" THEN {"$null"} ELSE {})}
                      \cup {SetStr(s, "p", p, TRUE) : p \in {"p", " ", "$own", "another longer password"}} \cup {SetStr(s, "p", p, FALSE) : p \in {""} \cup (IF if = "c" THEN {"$null"} ELSE {})}
                      \cup {SetNum(s, m) : m \in 0..3}
    [] ty = "att"  -> {SetStr(s, "c", c, TRUE) : c \in {"", "$own", "new", "a much longer content identifier@example.com"}}
    [] OTHER -> {}
FewSets(ty, if, s) ==
  CASE ty = "cred" -> {SetStr(s, "u", "$own", TRUE), SetStr(s, "u", "new user", TRUE), SetStr(s, "u", " ", FALSE), SetStr(s, "p", "$own", TRUE), SetStr(s, "p", "np", TRUE), SetStr(s, "p", "", FALSE), SetNum(s, 1)}
    [] ty = "att"  -> {SetStr(s, "c", "$own", TRUE), SetStr(s, "c", "", TRUE), SetStr(s, "c", "a new content id", TRUE)}
    [] OTHER -> {}
Population(if) == <<Simple("cred", "a", if, 1), Simple("att", "b", if, 2)>>
InitArgs == \E if \in Ifs, n \in {1, 2} : ValueInit(Plan("arguments " \o if, IF n = 1 THEN "args" ELSE "sets", Population(if), 2 + n, 3, Shapes("plain") \o [i \in 1..0 |-> 0]))

MenuOps ==
  LET s0 == IF Len(plan.pop) >= pc THEN {} ELSE Live IN
  CASE plan.menu = "free" -> {o \in Structural : Sensible(o)}
                             \cup UNION {FewSets(slots[n].ty, slots[n].if, n) : n \in Usable}
                             \cup {Op2("veq", xy[1], xy[2]) : xy \in {z \in Usable \X Usable : slots[z[1]].ty = "addr" /\ Alike(z[1], z[2])}}
                             \cup {Op2("vconv", "c", x) : x \in {z \in Usable : slots[z].if = "cpp" /\ slots[z].ty # "cred"}}
                             \cup {NewAddr("a", if, "not an address", "x", FALSE) : if \in {slots[n].if : n \in {m \in Usable : slots[m].ty = "addr"}}}
    [] plan.menu = "args" -> ArgOps(plan.pop[1].if)
    [] plan.menu = "sets" -> UNION {SetOps(slots[n].ty, slots[n].if, n) : n \in Usable}

Act == /\ pc <= plan.n
       /\ IF pc <= Len(plan.pop) THEN Perform(plan.pop[pc]) ELSE \E o \in MenuOps : Perform(o)
Finish == /\ pc = plan.n + 1
          /\ ev' = ev \o <<[e |-> "op", i |-> pc, op |-> "end", c |-> ""], [e |-> "end"]>>
          /\ pc' = pc + 1
          /\ UNCHANGED <<plan, slots, ops>>
Next == Act \/ Finish
Spec == (InitSimple \/ InitMsgs \/ InitArgs) /\ [][Next]_vars
SpecArgs == InitArgs /\ [][Next]_vars
Done == pc = plan.n + 2
Arguments(o) == IF o.op = "vset" /\ o.f = "m" THEN [o EXCEPT !.v = o.n] ELSE o
Behaviour == [plan |-> plan.id, sc |-> [hosts |-> <<>>, msgs |-> plan.msgs, ops |-> [i \in 1..Len(ops) |-> Arguments(ops[i])], script |-> <<>>,
                                        fd0 |-> FALSE, short |-> 0, wire |-> FALSE],
              exp |-> ev]
ValuesHold == Done => Independent(ev, ops)
Export == Done => PrintT(ToJson(Behaviour))
=============================================================================
