---------------------------- MODULE MC_Negotiate ----------------------------
(* What client and server agree upon: every shape of the capability list     *)
(* (where STARTTLS and AUTH stand, in which letter case, look-alikes, lists  *)
(* that differ between the clear and the encrypted channel), every offer of  *)
(* mechanisms, every recommendation, various credentials.                    *)
EXTENDS Catalogue

\* Words of an AUTH line and the mechanisms that they mean
Words == <<"PLAIN", "LOGIN", "XOAUTH2", "plain", "Login", "CRAM-MD5", "PLAIN-CLIENTTOKEN", "XOAUTH", "OAUTHBEARER", "XPLAIN", "LOGINS">>
Meaning(w) == CASE w \in {"PLAIN", "plain"} -> {"PLAIN"} [] w \in {"LOGIN", "Login", "login"} -> {"LOGIN"} [] w = "XOAUTH2" -> {"XOAUTH2"} [] OTHER -> {}
RECURSIVE Offer(_, _, _)
Offer(kw, txt, ws) ==     \* the capability line for the words ws
  IF ws = <<>> THEN [t |-> txt, k |-> "auth", m |-> {}]
  ELSE LET r == Offer(kw, txt \o " " \o Head(ws), Tail(ws)) IN [r EXCEPT !.m = @ \cup Meaning(Head(ws))]
AuthWith(kw, ws) == Offer(kw, kw, ws)
WordLists(k) == {s \in UNION {[1..n -> Range(Words)] : n \in 0..k} : \A i, j \in DOMAIN s : i # j => s[i] # s[j]}
Triples == {<<"PLAIN", "LOGIN", "XOAUTH2">>, <<"XOAUTH2", "LOGIN", "PLAIN">>, <<"CRAM-MD5", "LOGIN", "XOAUTH2">>, <<"XOAUTH", "OAUTHBEARER", "XOAUTH2">>,
            <<"CRAM-MD5", "PLAIN-CLIENTTOKEN", "login">>, <<"GSSAPI", "NTLM", "Login">>}
Meth == {-1, 0, 1, 2, 3} \cup (IF Thorough THEN {4, 5, 6} ELSE {4})

NegPlan(id, kind, host, cred, n) ==
  [id |-> "negotiate " \o kind \o " " \o id, if |-> "c", faults |-> 0, fd0 |-> FALSE, short |-> 0, hosts |-> <<host>>,
   msgs |-> <<Plain1("m1"), Html1("m2")>>,
   ops |-> <<New("A", kind, host.name, 2525), Set("A", "T", 2)>>
           \o (IF cred = NoCred THEN <<>> ELSE <<Set("A", "cred", cred)>>)
           \o <<Send("A", "m1")>> \o (IF n > 1 THEN <<Send("A", "m2")>> ELSE <<>>)]

\* A: offers of mechanisms and recommendations, on every kind of channel
HostOffering(kind, a) ==
  CASE kind = "plain"  -> HostWith("h3", FALSE, <<NameLine, Line("8BITMIME"), a>>, <<>>)
    [] kind = "opp"    -> HostWith("h1", FALSE, <<NameLine, StartTlsLine, LoginOnly>>, <<NameLine, a, Line("SIZE 1000000")>>)
    [] OTHER           -> HostWith("h2", TRUE, <<>>, <<NameLine, a>>)
InitOffers ==
  \E kind \in {"plain", "opp", "forced"} : \E ws \in WordLists(IF Thorough THEN 2 ELSE 1) \cup Triples
       \cup (IF kind = "plain" THEN WordLists(2) ELSE {}) : \E m \in Meth :
    InitWith(NegPlan("offer " \o ToString(m), kind, HostOffering(kind, AuthWith("AUTH", ws)), [Joe EXCEPT !.m = m], 1))

\* B: where the AUTH line stands and how it is written; no AUTH line at all
Keywords == {"AUTH", "auth", "Auth"}
OtherAuth == {Line("AUTHENTICATE PLAIN"), Line("XAUTH PLAIN LOGIN"), Line("AUTHPLAIN"), Line("AUTHINFO LOGIN"), Line("8BITMIME AUTH PLAIN"), Line("SIZE")}
NameLines == {NameLine, [NameLine EXCEPT !.t = "auth.example.com greets you"], [NameLine EXCEPT !.t = "AUTHSERVER"],
              [NameLine EXCEPT !.t = "mail.example.com Hello [10.1.2.3], AUTH PLAIN"]}
PlaceAt(l, x, i) == SubSeq(l, 1, i) \o <<x>> \o SubSeq(l, i + 1, Len(l))
HostCaps(kind, caps, other) ==
  CASE kind = "plain"  -> HostWith("h3", FALSE, caps, <<>>)
    [] kind = "opp"    -> HostWith("h1", FALSE, <<NameLine, StartTlsLine>> \o other, caps)
    [] OTHER           -> HostWith("h2", TRUE, <<>>, caps)
InitPlaces ==
  \E kind \in {"plain", "opp", "forced"} :
    \/ \E kw \in Keywords, nl \in NameLines, i \in 1..3 :
         InitWith(NegPlan("place", kind, HostCaps(kind, PlaceAt(<<nl, Line("SIZE 5"), Line("HELP")>>, AuthWith(kw, <<"LOGIN">>), i), <<PlainLogin>>), Joe, 2))
    \/ \E l \in OtherAuth, nl \in NameLines, i \in 1..2 :
         InitWith(NegPlan("no method", kind, HostCaps(kind, PlaceAt(<<nl, Line("SIZE 5")>>, l, i), <<PlainLogin>>), Joe, 2))
    \/ \E l \in OtherAuth, i \in 1..2 :
         InitWith(NegPlan("look-alike", kind, HostCaps(kind, PlaceAt(<<NameLine, l>>, PlainLogin, i), <<>>), Joe, 1))
    \/ InitWith(NegPlan("single line", kind, HostCaps(kind, <<AuthWith("AUTH", <<"PLAIN">>)>>, <<>>), Joe, 1))
    \/ InitWith(NegPlan("no list", kind, HostCaps(kind, <<>>, <<PlainLogin>>), Joe, 1))
    \/ InitWith(NegPlan("no list, no credentials", kind, HostCaps(kind, <<>>, <<PlainLogin>>), NoCred, 2))

\* C: STARTTLS in every place and letter case, or only something like it
TlsTexts == {"STARTTLS", "starttls", "StartTLS", "STARTTLS REQUIRED"}
NotTls == {"NOSTARTTLS", "X-STARTTLS", "START TLS", "STARTTLSX", "START-TLS", "SIZE 35882577", "HELP STARTTLS"}
TlsNames == {NameLine, [NameLine EXCEPT !.t = "starttls.example.com greets you"], [NameLine EXCEPT !.t = "mail.example.com STARTTLS is fun"]}
Inner == <<NameLine, AuthWith("AUTH", <<"XOAUTH2">>)>>
InitTls ==
  \E cred \in {NoCred, Joe} : \E nl \in TlsNames :
    LET rest == <<nl, Line("SIZE 35882577"), LoginOnly, Line("8BITMIME"), Line("DSN")>> IN
    \/ \E t \in TlsTexts, i \in 1..5, n \in {1, 2, 5} :
         i <= n /\ InitWith(NegPlan("starttls", "opp",
            HostWith("h1", FALSE, PlaceAt(SubSeq(rest, 1, n), [t |-> t, k |-> "starttls", m |-> {}], i), Inner), cred, 2))
    \/ \E t \in NotTls, i \in 1..2 :
         InitWith(NegPlan("no starttls", "opp", HostWith("h1", FALSE, PlaceAt(SubSeq(rest, 1, 3), Line(t), i), Inner), cred, 2))
InitTlsOnly ==
  \E cred \in {NoCred, Joe}, t \in TlsTexts : \E batch \in BOOLEAN :
    LET p == NegPlan("starttls alone", "opp", HostWith("h1", FALSE, <<[t |-> t, k |-> "starttls", m |-> {}]>>, Inner), cred, 2)
    IN InitWith([p EXCEPT !.ops = <<p.ops[1], Set("A", "batch", batch)>> \o SubSeq(p.ops, 2, Len(p.ops))])

\* D: credentials of every kind, each mechanism, each channel
Creds == {Cred("j", "p", -1), Cred("joe user@example.com", "pass word", -1), Cred("a=b", "x=y==", -1), Cred("user:name", "\"quoted\" \\ pw", -1),
          Cred("averyveryveryveryveryveryveryverylongusername@department.of.long.names.example.com",
               "averyveryveryveryveryveryveryveryveryverylongpassword0123456789", -1),
          Cred("joe", "AUTH PLAIN", -1), Cred("joe@example.com", "joe@example.com", -1), Cred("abc", "de", -1), Cred("ab", "cde", -1), Cred("abcd", "efgh", -1)}
InitCreds ==
  \E kind \in {"plain", "opp", "forced"}, c \in Creds, w \in {"PLAIN", "LOGIN", "XOAUTH2"} :
    InitWith(NegPlan("credentials", kind, HostOffering(kind, AuthWith("AUTH", <<w>>)), c, 2))

\* E: credentials of many lengths and with any byte
Ten(s) == s \o s \o s \o s \o s \o s \o s \o s \o s \o s
RECURSIVE Run(_)
Run(n) == IF n = 0 THEN "" ELSE IF n >= 700 THEN Ten(Ten("abcdeFg")) \o Run(n - 700) ELSE IF n >= 70 THEN Ten("hijKlmn") \o Run(n - 70)
          ELSE IF n >= 7 THEN "opqRstu" \o Run(n - 7) ELSE "0" \o Run(n - 1)
Lens == {5, 17, 44, 54, 57, 58, 63, 64, 76, 77, 126, 127, 128, 189, 190, 191, 192, 254, 255, 256, 257, 373, 378, 380, 383, 384, 385, 510, 512, 760, 768, 1022, 1023, 1024, 1025, 1500, 2048, 4096, 6000}
        \cup (IF Thorough THEN 1..130 \cup {10000, 16000} ELSE {})
Strange == {"p%c3%a4ssw%c3%b6rd", "%ff%fe%01%02", "%e2%82%ac", "tab%09tab", "bell%07", "%7f%80%81%90"}
LongCreds == {Cred("joe", Run(n), -1) : n \in Lens} \cup {Cred(Run(n), "swordfish", -1) : n \in Lens} \cup {Cred(Run(n), Run(n) \o "x", -1) : n \in {64, 127, 200, 255, 300}}
             \cup {Cred("joe", p, -1) : p \in Strange} \cup {Cred(u, "swordfish", -1) : u \in Strange}
InitLong ==
  \/ \E c \in LongCreds, w \in {"PLAIN", "LOGIN", "XOAUTH2"} :
       InitWith(NegPlan("long credentials", "plain", HostOffering("plain", AuthWith("AUTH", <<w>>)), c, 1))
  \/ \E c \in LongCreds, w \in {"PLAIN", "LOGIN", "XOAUTH2"} :
       (Len(c.p) % 4 = 0 \/ Len(c.u) % 4 = 0) /\ InitWith(NegPlan("long credentials", "forced", HostOffering("forced", AuthWith("AUTH", <<w>>)), c, 2))

Spec == (InitLong \/ InitOffers \/ InitPlaces \/ InitTls \/ InitTlsOnly \/ InitCreds) /\ [][Next]_vars
NoMenu(p, st, n, i) == {}
=============================================================================
