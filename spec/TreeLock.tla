------------------------------ MODULE TreeLock ------------------------------
(* The design that makes concurrent use of a tree linearizable: the sequence  *)
(* of accesses to the lock, to the root in memory and to the storage that     *)
(* each operation makes (merkletree.go).  Insertions hold the write lock from *)
(* reading the root to replacing it; readers take the root under the read     *)
(* lock and then walk nodes that nobody changes.  The lock is that of Go: a   *)
(* waiting writer keeps new readers out.                                      *)
(*                                                                            *)
(* Every state of the tree is a set of entries; the node store keeps every    *)
(* set that was ever written.  Checked: the answers are those of a moment     *)
(* between call and return (Linearizable), no insertion is lost, memory and   *)
(* disk agree whenever nobody holds the lock, and everybody finishes.         *)
(*                                                                            *)
(* P.guard names the protections in force: "write": insertions lock; "early": *)
(* the root is read under the lock; "once": a reader takes the root once;     *)
(* "after": memory is updated after the commit (which only a failing commit   *)
(* tells apart).  Leaving out one of the first three breaks an invariant, and *)
(* the check of C24 makes sure that it does.                                  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

P == JsonDeserialize(IOEnv.PARAMS)
Threads == 1 .. P.threads
Keys == 1 .. P.keys
Guards == {P.guard[i] : i \in 1 .. Len(P.guard)}

VARIABLES pc,      \* thread -> where it is
          op,      \* thread -> what it does: [kind, k]
          left,    \* thread -> operations still to start
          seen,    \* thread -> root it has read
          acc,     \* thread -> the part it has walked / what it will answer
          writer,  \* thread holding the write lock, 0
          readers, \* threads holding the read lock
          waits,   \* threads waiting for the write lock
          root,    \* root in memory (a set of entries)
          disk,    \* root on disk
          nodes,   \* node sets on disk
          now,     \* ghost: the abstract tree
          during,  \* ghost: thread -> abstract trees since its call
          added    \* ghost: entries whose insertion was answered "ok"
vars == <<pc, op, left, seen, acc, writer, readers, waits, root, disk, nodes, now, during, added>>

Idle == [kind |-> "none", k |-> 0]

Init == /\ pc = [t \in Threads |-> "idle"] /\ op = [t \in Threads |-> Idle] /\ left = [t \in Threads |-> P.each]
        /\ seen = [t \in Threads |-> {}] /\ acc = [t \in Threads |-> {}]
        /\ writer = 0 /\ readers = {} /\ waits = {}
        /\ root = {} /\ disk = {} /\ nodes = {{}} /\ now = {} /\ during = [t \in Threads |-> {}] /\ added = {}

Go(t, a) == pc' = [pc EXCEPT ![t] = a]
Kinds == {"add", "read", "dump"}

Call(t) == /\ pc[t] = "idle" /\ left[t] > 0
           /\ \E kind \in Kinds, k \in Keys :
                 /\ (kind # "add" => k = 1)
                 /\ op' = [op EXCEPT ![t] = [kind |-> kind, k |-> k]]
                 /\ Go(t, IF kind = "add" THEN (IF "early" \in Guards THEN "lock" ELSE "peek") ELSE "rlock")
           /\ left' = [left EXCEPT ![t] = @ - 1]
           /\ during' = [during EXCEPT ![t] = {now}]
           /\ UNCHANGED <<seen, acc, writer, readers, waits, root, disk, nodes, now, added>>

(* insertion *)
Peek(t) == /\ pc[t] = "peek" /\ seen' = [seen EXCEPT ![t] = root] /\ Go(t, "lock")
           /\ UNCHANGED <<op, left, acc, writer, readers, waits, root, disk, nodes, now, during, added>>
Lock(t) == /\ pc[t] = "lock"
           /\ IF "write" \notin Guards THEN Go(t, "build") /\ UNCHANGED <<writer, waits>>
              ELSE IF writer = 0 /\ readers = {} THEN /\ writer' = t /\ waits' = waits \ {t} /\ Go(t, "build")
              ELSE /\ t \notin waits /\ waits' = waits \cup {t} /\ UNCHANGED <<pc, writer>>
           /\ seen' = (IF "early" \in Guards /\ writer' = t THEN [seen EXCEPT ![t] = root] ELSE seen)
           /\ UNCHANGED <<op, left, acc, readers, root, disk, nodes, now, during, added>>
(* without the lock the root is read when the new nodes are built *)
Build(t) == /\ pc[t] = "build"
            /\ LET r == IF "early" \in Guards THEN root ELSE seen[t] IN
               /\ seen' = [seen EXCEPT ![t] = r]
               /\ IF op[t].k \in r THEN /\ acc' = [acc EXCEPT ![t] = {0}] /\ Go(t, "unlock")
                  ELSE /\ acc' = [acc EXCEPT ![t] = r \cup {op[t].k}]
                       /\ Go(t, IF "after" \in Guards THEN "commit" ELSE "set")
            /\ UNCHANGED <<op, left, writer, readers, waits, root, disk, nodes, now, during, added>>
Commit(t) == /\ pc[t] = "commit"
             /\ nodes' = nodes \cup {acc[t]} /\ disk' = acc[t]
             /\ Go(t, IF "after" \in Guards THEN "set" ELSE "unlock")
             /\ UNCHANGED <<op, left, seen, acc, writer, readers, waits, root, now, during, added>>
(* the instant of an insertion: memory is given the new root *)
SetRoot(t) == /\ pc[t] = "set" /\ root' = acc[t] /\ now' = now \cup {op[t].k}
              /\ during' = [x \in Threads |-> during[x] \cup {now'}]
              /\ added' = added \cup {op[t].k}
              /\ Go(t, IF "after" \in Guards THEN "unlock" ELSE "commit")
              /\ UNCHANGED <<op, left, seen, acc, writer, readers, waits, disk, nodes>>
Unlock(t) == /\ pc[t] = "unlock" /\ writer' = (IF writer = t THEN 0 ELSE writer) /\ Go(t, "return")
             /\ UNCHANGED <<op, left, seen, acc, readers, waits, root, disk, nodes, now, during, added>>

(* readers *)
RLock(t) == /\ pc[t] = "rlock" /\ writer = 0 /\ waits = {} /\ readers' = readers \cup {t} /\ Go(t, "root")
            /\ UNCHANGED <<op, left, seen, acc, writer, waits, root, disk, nodes, now, during, added>>
ReadRoot(t) == /\ pc[t] = "root" /\ seen' = [seen EXCEPT ![t] = root] /\ Go(t, "runlock")
               /\ UNCHANGED <<op, left, acc, writer, readers, waits, root, disk, nodes, now, during, added>>
RUnlock(t) == /\ pc[t] = "runlock" /\ readers' = readers \ {t}
              /\ Go(t, IF acc[t] = {} THEN "walk" ELSE "return")
              /\ UNCHANGED <<op, left, seen, acc, writer, waits, root, disk, nodes, now, during, added>>
(* The walk of a root finds its nodes, all of them (a dump names the root it   *)
(* walked; taking the root a second time for that gives a mixed answer).       *)
Walk(t) == /\ pc[t] = "walk"
           /\ acc' = [acc EXCEPT ![t] = IF seen[t] \in nodes THEN {seen[t]} ELSE {{99}}]
           /\ Go(t, IF op[t].kind = "dump" /\ "once" \notin Guards THEN "rlock" ELSE "return")
           /\ UNCHANGED <<op, left, seen, writer, readers, waits, root, disk, nodes, now, during, added>>

Return(t) == /\ pc[t] = "return" /\ Go(t, "idle")
             /\ op' = [op EXCEPT ![t] = Idle] /\ seen' = [seen EXCEPT ![t] = {}] /\ acc' = [acc EXCEPT ![t] = {}]
             /\ during' = [during EXCEPT ![t] = {}]
             /\ UNCHANGED <<left, writer, readers, waits, root, disk, nodes, now, added>>

Step(t) == \/ Call(t) \/ Peek(t) \/ Lock(t) \/ Build(t) \/ Commit(t) \/ SetRoot(t) \/ Unlock(t)
           \/ RLock(t) \/ ReadRoot(t) \/ RUnlock(t) \/ Walk(t) \/ Return(t)
Next == \E t \in Threads : Step(t)
Fair == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Step(t))

(* What thread t, about to return, answers was so at some moment since its call. *)
Linearizable ==
  \A t \in Threads : pc[t] = "return" =>
     CASE op[t].kind = "add" -> IF acc[t] = {0} THEN \E s \in during[t] : op[t].k \in s
                                ELSE \E s \in during[t] : op[t].k \notin s
       [] OTHER -> /\ acc[t] \subseteq during[t]     \* what was found is a tree of that time
                   /\ {seen[t]} = acc[t]             \* and the root named is the one of what was found
NothingLost == added \subseteq root \/ \E t \in Threads : pc[t] \in {"set", "commit"}
MemoryIsNow == root = now
Agree == (\A t \in Threads : pc[t] \notin {"build", "commit", "set", "unlock"}) => root = disk
OneWriter == Cardinality({t \in Threads : pc[t] \in {"build", "commit", "set"}}) <= 1
(* An insertion answered "ok" made the change: never two for the same key.     *)
Finishes == \A t \in Threads : (pc[t] # "idle") ~> (pc[t] = "idle")
=============================================================================
