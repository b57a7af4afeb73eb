------------------------------ MODULE CacheLock ------------------------------
(* The design of the server of published states: a ring of slots in a         *)
(* storage whose commits are atomic, but whose reads are one at a time, under *)
(* a lock of readers and writers.  Publishing reads the index and the latest  *)
(* state, and commits the slot and the index; reading finds a slot and then   *)
(* reads its fields one after the other.  P.guard has the sides that take the *)
(* lock: leaving one out breaks a named invariant.                            *)
EXTENDS Naturals, Sequences, FiniteSets, Json, IOUtils, TLC

P == JsonDeserialize(IOEnv.PARAMS)
Guard == {P.guard[i] : i \in DOMAIN P.guard}
N == P.slots
Writers == 1 .. P.writers
Readers == P.writers + 1 .. P.writers + P.readers
Threads == Writers \cup Readers
Fields == 2                          \* a state is stored as this many values

VARIABLES ring,   \* slot -> <<values>>
          idx,    \* next slot
          order,  \* states in the order in which they were published (ghost)
          lock,   \* holders
          pc, loc, \* per thread: program counter; what it has read
          seen,   \* answers given: <<state wanted, values, latest states meanwhile>>
          left    \* states to publish
vars == <<ring, idx, order, lock, pc, loc, seen, left>>

Init == /\ ring = [i \in 0 .. N - 1 |-> <<0, 0>>]
        /\ idx = 0 /\ order = <<>> /\ lock = {} /\ seen = {}
        /\ pc = [t \in Threads |-> "idle"]
        /\ loc = [t \in Threads |-> [slot |-> 0, want |-> 0, vals |-> <<>>, from |-> 0]]
        /\ left = 1 .. P.states

Free(t) == IF t \in Writers THEN lock = {} ELSE lock \cap Writers = {}
Takes(t) == IF t \in Writers THEN "write" \in Guard ELSE "read" \in Guard
Lock(t) == IF Takes(t) THEN Free(t) /\ lock' = lock \cup {t} ELSE UNCHANGED lock
Unlock(t) == lock' = lock \ {t}

\* publishing
Begin(t) == /\ pc[t] = "idle" /\ left # {}
            /\ Lock(t)
            /\ \E s \in left : /\ left' = left \ {s}
                               /\ loc' = [loc EXCEPT ![t] = [slot |-> idx, want |-> s, vals |-> <<>>, from |-> 0]]
            /\ pc' = [pc EXCEPT ![t] = "commit"]
            /\ UNCHANGED <<ring, idx, order, seen>>
Commit(t) == /\ pc[t] = "commit"
             /\ LET s == loc[t].want IN
                /\ ring' = [ring EXCEPT ![loc[t].slot] = <<s, s>>]
                /\ idx' = (loc[t].slot + 1) % N
                /\ order' = Append(order, s)
             /\ Unlock(t) /\ pc' = [pc EXCEPT ![t] = "idle"]
             /\ UNCHANGED <<loc, seen, left>>

\* reading one of the latest states
Look(t) == /\ pc[t] = "idle"
           /\ Lock(t)
           /\ \E i \in 0 .. N - 1 : /\ ring[i] # <<0, 0>>
                                    /\ loc' = [loc EXCEPT ![t] = [slot |-> i, want |-> ring[i][1], vals |-> <<>>, from |-> Len(order)]]
           /\ pc' = [pc EXCEPT ![t] = "fields"]
           /\ UNCHANGED <<ring, idx, order, seen, left>>
Field(t) == /\ pc[t] = "fields"
            /\ LET v == Append(loc[t].vals, ring[loc[t].slot][Len(loc[t].vals) + 1]) IN
               /\ loc' = [loc EXCEPT ![t].vals = v]
               /\ IF Len(v) < Fields THEN UNCHANGED <<pc, lock, seen>>
                  ELSE /\ pc' = [pc EXCEPT ![t] = "done"] /\ Unlock(t)
                       /\ seen' = seen \cup {<<loc[t].want, v>>}
            /\ UNCHANGED <<ring, idx, order, left>>
Next == \/ \E t \in Writers : Begin(t) \/ Commit(t)
        \/ \E t \in Readers : Look(t) \/ Field(t)
Fairness == \A t \in Threads : WF_vars(IF t \in Writers THEN Begin(t) \/ Commit(t) ELSE Look(t) \/ Field(t))
Fair == Init /\ [][Next]_vars /\ Fairness

\* Every answer is one state, the one that was looked for.
Whole == \A a \in seen : \A i \in 1 .. Fields : a[2][i] = a[1]
\* The last N published states are all there.
Recent == \A i \in DOMAIN order : i + N > Len(order) => \E j \in 0 .. N - 1 : ring[j][1] = order[i]
\* Nobody waits for ever.
Ends == <>(left = {} /\ \A t \in Writers : pc[t] = "idle")
=============================================================================
