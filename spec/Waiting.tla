------------------------------ MODULE Waiting ------------------------------
(* How the client waits for its server while the program handles signals.    *)
(* A signal may be handled at any moment of a wait and interrupts the system *)
(* call that waits (EINTR).  Time is counted in ticks, U ticks make a second,*)
(* T seconds are the timeout.  The event awaited happens at tick E (or not   *)
(* at all: E > Horizon).  Three disciplines:                                 *)
(*   "sleep"    the reply loop: look, then sleep one second, at most T times;*)
(*              a sleep that is interrupted goes on with what remains        *)
(*   "connect"  one wait with a deadline; interrupted, it goes on with what  *)
(*              remains until the deadline                                   *)
(*   "transfer" a blocking send, receive or handshake: every call waits at   *)
(*              most T seconds; interrupted, it is repeated unless T seconds *)
(*              have passed since the first call                             *)
(* Signals never change the outcome: what happens within the timeout is used,*)
(* nothing is given up before the timeout, and everything ends within twice  *)
(* the timeout, however often signals are handled.                           *)
EXTENDS Integers, FiniteSets
CONSTANTS U, T, MaxStrikes
Limit == U * T
Horizon == 2 * Limit + 2
Disciplines == {"sleep", "connect", "transfer"}
VARIABLES how, event, now, until, naps, strikes, out
vars == <<how, event, now, until, naps, strikes, out>>

Init == /\ how \in Disciplines
        /\ event \in 0..(Horizon + 1)
        /\ now = 0
        /\ until = (IF how = "sleep" THEN 0 ELSE Limit)
        /\ naps = 0
        /\ strikes = MaxStrikes
        /\ out = "waiting"
Happened(t) == event <= t
\* Time goes on, one tick, within the call that waits
Tick == /\ out = "waiting" /\ now < until /\ ~(how # "sleep" /\ Happened(now))
        /\ now' = now + 1
        /\ UNCHANGED <<how, event, until, naps, strikes, out>>
\* A signal interrupts the call: it is made again for the time that remains,
\* or (transfer) from the beginning
Strike == /\ out = "waiting" /\ now < until /\ now > 0 /\ strikes > 0 /\ ~(how # "sleep" /\ Happened(now))
          /\ strikes' = strikes - 1
          /\ IF how # "transfer" THEN UNCHANGED <<until, out>>
             ELSE IF now < Limit THEN until' = now + Limit /\ UNCHANGED out
             ELSE out' = "failed" /\ UNCHANGED until
          /\ UNCHANGED <<how, event, now, naps>>
\* The call returns: the event happened, or its time is over
Return == /\ out = "waiting"
          /\ IF Happened(now) /\ (how # "sleep" \/ now = until)
             THEN out' = "used" /\ UNCHANGED <<until, naps>>
             ELSE /\ now = until
                  /\ IF how = "sleep" /\ naps < T
                     THEN naps' = naps + 1 /\ until' = now + U /\ UNCHANGED out
                     ELSE out' = "failed" /\ UNCHANGED <<until, naps>>
          /\ UNCHANGED <<how, event, now, strikes>>
Next == Tick \/ Strike \/ Return
Spec == Init /\ [][Next]_vars /\ WF_vars(Tick \/ Return)

Used == out = "failed" => event > Limit - (IF how = "sleep" THEN 0 ELSE 1)
NotEarly == out = "failed" => now >= Limit
Bounded == /\ now <= (IF how = "transfer" THEN 2 * Limit ELSE Limit)
           /\ out = "used" => now <= (IF how = "sleep" THEN ((event + U - 1) \div U) * U ELSE event)
Ends == <>(out # "waiting")
=============================================================================
