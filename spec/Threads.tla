------------------------------ MODULE Threads ------------------------------
(* Two clients, each used by a thread of its own.  What a client does        *)
(* between two moments at which the other thread may run goes through cells: *)
(* the address of its server is resolved and then connected to, a command is *)
(* composed and then transmitted, a reply is received and then looked at.    *)
(* A cell belongs to the client, unless it is in Shared (a static variable,  *)
(* or what gethostbyname returns): then both write the same one.  Whatever   *)
(* the interleaving, everything a client transmits and looks at is its own   *)
(* exactly when no cell is shared.                                           *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Shared, Commands
Clients == {"A", "B"}
Cells == {"address", "command", "reply"}
\* the steps of a client: <<what, cell>>
Work == <<<<"put", "address">>, <<"use", "address">>>>
        \o [i \in 1..(4 * Commands) |-> CASE i % 4 = 1 -> <<"put", "command">> [] i % 4 = 2 -> <<"use", "command">>
                                          [] i % 4 = 3 -> <<"put", "reply">> [] OTHER -> <<"use", "reply">>]
VARIABLES at, cell, used
vars == <<at, cell, used>>
Place(c, x) == <<x, IF x \in Shared THEN "both" ELSE c>>
Init == /\ at = [c \in Clients |-> 1]
        /\ cell = [p \in {Place(c, x) : c \in Clients, x \in Cells} |-> <<>>]
        /\ used = [c \in Clients |-> <<>>]
Step(c) == /\ at[c] <= Len(Work)
           /\ at' = [at EXCEPT ![c] = @ + 1]
           /\ LET w == Work[at[c]] p == Place(c, w[2]) IN
              IF w[1] = "put" THEN cell' = [cell EXCEPT ![p] = <<c, at[c]>>] /\ UNCHANGED used
              ELSE used' = [used EXCEPT ![c] = Append(@, cell[p])] /\ UNCHANGED cell
Next == \E c \in Clients : Step(c)
Spec == Init /\ [][Next]_vars
\* as if the other were not there
Independent == \A c \in Clients : \A i \in 1..Len(used[c]) : used[c][i] = <<c, 2 * i - 1>>
=============================================================================
