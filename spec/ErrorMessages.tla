--------------------------- MODULE ErrorMessages ---------------------------
(* The texts of the result codes and the two ways of asking for them.        *)
EXTENDS Integers, Sequences, TLC

Text ==
  (-1 :> "Unable to create the socket") @@ (-2 :> "Unable to connect to the socket")
  @@ (-3 :> "The connection attempt has timed out") @@ (-4 :> "Unable to start WSA (Winsock)")
  @@ (-5 :> "Unable to get address info (Winsock)") @@ (-6 :> "Unable to get host by name")
  @@ (-7 :> "Unable to get socket file descriptor status flags") @@ (-8 :> "Unable to set socket file descriptor status flags")
  @@ (-9 :> "Unable to get socket options") @@ (-10 :> "Error in delayed connection")
  @@ (-20 :> "Unable to send the EHLO command") @@ (-21 :> "The EHLO command has timed out")
  @@ (-30 :> "Unable to send the STARTTLS command") @@ (-31 :> "The STARTTLS command has timed out")
  @@ (-51 :> "Unable to initialize the SSL Context") @@ (-52 :> "Unable to create the SSL BIO")
  @@ (-53 :> "Unable to open the Windows Certificate System Store")
  @@ (-54 :> "Unable to open the specifies that the default locations from which CA certificates are loaded")
  @@ (-55 :> "Unable to connect SSL BIO") @@ (-56 :> "Unable to handshake with SSL BIO")
  @@ (-57 :> "Unable to get peer certificate") @@ (-58 :> "Unable to verify the result of chain verification")
  @@ (-59 :> "Unable to EHLO the server via the secure channel") @@ (-60 :> "The EHLO command via the secure channel timed out")
  @@ (-81 :> "Unable to authenticate with the credentials provided") @@ (-82 :> "The authentication to the server has timed out")
  @@ (-83 :> "The authentication is not needed on the server")
  @@ (-84 :> "The authentication method selected is not supported by the server")
  @@ (-85 :> "The MAIL FROM command return an error") @@ (-86 :> "The MAIL FROM command timed out")
  @@ (-87 :> "The RCPT TO command return an error") @@ (-88 :> "The RCPT TO command timed out")
  @@ (-89 :> "The DATA command return an error") @@ (-90 :> "The DATA command timed out")
  @@ (-91 :> "The From header command return an error") @@ (-92 :> "The To and CC header command return an error")
  @@ (-93 :> "The Subject header command return an error") @@ (-94 :> "The Content type header command return an error")
  @@ (-95 :> "The Body part return an error") @@ (-96 :> "The Body command return an error")
  @@ (-97 :> "The End data command return an error") @@ (-98 :> "The End data command timed out")
  @@ (-99 :> "The QUIT command return an error")
  @@ (530 :> "Authentication required") @@ (534 :> "Authentication mechanism is too weak")
  @@ (535 :> "Authentication credentials invalid") @@ (538 :> "Encryption required for requested authentication mechanism")
  @@ (334 :> "Token based authentication failed. See https://support.google.com/mail/thread/204884242/334-authentication-unsuccessful?hl=en")
Generic == "No message correspond to this error code"
MessageOf(code) == IF code \in DOMAIN Text THEN Text[code] ELSE Generic

\* Into a buffer of n characters; n < 0: no buffer
Into(code, n) ==
  LET t == MessageOf(code) IN
  IF n <= 0 THEN [n |-> n, ret |-> -1, txt |-> "", term |-> TRUE]
  ELSE IF Len(t) + 1 <= n THEN [n |-> n, ret |-> 0, txt |-> t, term |-> TRUE]
  ELSE [n |-> n, ret |-> n - 1, txt |-> SubSeq(t, 1, n - 1), term |-> TRUE]
Whole(code) == [n |-> 1024, ret |-> 0, txt |-> MessageOf(code), term |-> TRUE]

\* The table itself: different codes have different, not the generic, messages
ASSUME \A c \in DOMAIN Text : Text[c] # "" /\ Text[c] # Generic /\ \A d \in DOMAIN Text : c # d => Text[c] # Text[d]
ASSUME \A c \in {-2, 530, 7}, n \in -1..60 :
  LET x == Into(c, n) t == MessageOf(c) IN
  /\ Len(x.txt) < (IF n > 0 THEN n ELSE 1) /\ SubSeq(t, 1, Len(x.txt)) = x.txt
  /\ (x.ret = -1 <=> n <= 0) /\ (n > 0 /\ x.txt = t => x.ret = 0) /\ (n > 0 /\ x.txt # t => x.ret = Len(x.txt))
=============================================================================
