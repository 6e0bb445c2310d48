------------------------------- MODULE Locks -------------------------------
(***************************************************************************)
(* Threads with mutexes, counters, joins and thread ends.  Every thread    *)
(* has a list of operations, <<op, argument>>:                             *)
(*   start t   lock m   unlock m   read c   write c   join t   end   die   *)
(* write stores what the thread read last, plus one; die ends the thread   *)
(* with mutexes in its possession, which are released.                     *)
(* Case k of LOCK_CASES has ops (one list per thread, the first one is the *)
(* main thread) and trace, what a run of clox logged.                      *)
(*   Free = TRUE: all interleavings of the operations (design check).      *)
(*   Free = FALSE: only the interleaving of the trace; it has to be a      *)
(*   behaviour, reported by "LOCKS id".                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANT Free
Cases == JsonDeserialize(IOEnv.LOCK_CASES)

VARIABLES c,      \* the case
          i,      \* events that happened
          pc,     \* thread -> next operation; 0: not started
          own,    \* mutex -> thread or 0
          val,    \* counter -> value
          tmp     \* thread -> value read last
vars == <<c, i, pc, own, val, tmp>>

Ops == Cases[c].ops
NT == Len(Ops)
Ended(t) == pc[t] > Len(Ops[t])

Init ==
  /\ c \in 1..Len(Cases) /\ i = 0
  /\ pc = [t \in 1..Len(Cases[c].ops) |-> IF t = 1 THEN 1 ELSE 0]
  /\ own = [m \in 1..Cases[c].nm |-> 0]
  /\ val = [x \in 1..Cases[c].nc |-> 0]
  /\ tmp = [t \in 1..Len(Cases[c].ops) |-> 0]

\* thread t executes its next operation; v is the value that the event shows
Do(t, v) ==
  /\ pc[t] # 0 /\ ~Ended(t)
  /\ LET op == Ops[t][pc[t]][1] a == Ops[t][pc[t]][2] IN
     /\ pc' = [p \in 1..NT |-> IF p = t THEN (IF op = "die" THEN Len(Ops[t]) + 1 ELSE pc[t] + 1)
                               ELSE IF op = "start" /\ p = a THEN 1 ELSE pc[p]]
     /\ own' = CASE op = "lock" -> [own EXCEPT ![a] = t]
                 [] op = "unlock" -> [own EXCEPT ![a] = 0]
                 [] op = "die" -> [m \in DOMAIN own |-> IF own[m] = t THEN 0 ELSE own[m]]
                 [] OTHER -> own
     /\ op = "lock" => own[a] = 0
     /\ op = "unlock" => own[a] = t
     /\ op = "join" => pc[a] # 0 /\ Ended(a)
     /\ op = "start" => pc[a] = 0
     /\ tmp' = IF op = "read" THEN [tmp EXCEPT ![t] = val[a]] ELSE tmp
     /\ val' = IF op = "write" THEN [val EXCEPT ![a] = tmp[t] + 1] ELSE val
     /\ (op = "read" /\ ~Free) => v = val[a]
     /\ (op = "write" /\ ~Free) => v = tmp[t] + 1
     /\ i' = i + 1 /\ UNCHANGED c

Event ==
  IF Free THEN \E t \in 1..NT : Do(t, 0)
  ELSE /\ i < Len(Cases[c].trace)
       /\ LET e == Cases[c].trace[i + 1] IN
          /\ e[1] \in 1..NT /\ pc[e[1]] # 0 /\ ~Ended(e[1])
          /\ Ops[e[1]][pc[e[1]]][1] = e[2] /\ Ops[e[1]][pc[e[1]]][2] = e[3]
          /\ Do(e[1], e[4])
AllEnded == \A t \in 1..NT : pc[t] # 0 /\ Ended(t)
Accept ==
  /\ ~Free /\ i = Len(Cases[c].trace) /\ AllEnded
  /\ PrintT("LOCKS " \o ToString(Cases[c].id))
  /\ i' = i + 1 /\ UNCHANGED <<c, pc, own, val, tmp>>
Done == Free /\ AllEnded /\ UNCHANGED vars
Next == Event \/ Accept \/ Done
Spec == Init /\ [][Next]_vars

(***************************** invariants *********************************)
\* between the lock and the unlock of a thread nobody else is there
Holders(m) == {t \in 1..NT : pc[t] # 0 /\ ~Ended(t) /\ own[m] = t}
Exclusion == \A m \in DOMAIN own : own[m] # 0 => Holders(m) = {own[m]}
\* counters that are only used under their mutex don't lose updates
Writes(t, x, upto) == Cardinality({p \in 1..Len(Ops[t]) : p < upto /\ Ops[t][p][1] = "write" /\ Ops[t][p][2] = x})
RECURSIVE Total(_, _)
Total(t, x) == IF t = 0 THEN 0 ELSE Writes(t, x, pc[t]) + Total(t - 1, x)
NoLostUpdate == \A x \in DOMAIN val : Cases[c].guarded => val[x] = Total(NT, x)
=============================================================================
