------------------------------- MODULE ZkFetch -------------------------------
(***************************************************************************)
(* Several processes fetch one file: look, lock, look again, write a       *)
(* temporary file, rename it, unlock (utils/zk, download).  C22.           *)
(* The lock is on the inode behind the lock file's name.  REMOVE says that *)
(* the owner removes that name after unlocking: then two processes can be  *)
(* inside at once and Whole fails, which is why the code keeps the file.   *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, TLC, Json, IOUtils
P == JsonDeserialize(IOEnv.PARAMS)
Procs == 1..P.procs
REMOVE == P.remove

VARIABLES pc, name,               \* inode behind the lock file's name (0: none)
          fh,                     \* inode each process has open
          lock,                   \* inode -> owner (0: none)
          fresh, tmp, file,       \* written parts behind the temporary and the final name: the inode and what it holds
          data, wr, budget, res
vars == <<pc, name, fh, lock, fresh, tmp, file, data, wr, budget, res>>
Inodes == 1..P.inodes
Init == /\ pc = [p \in Procs |-> "look"] /\ name = 0 /\ fh = [p \in Procs |-> 0] /\ lock = [i \in Inodes |-> 0] /\ fresh = 1
        /\ tmp = 0 /\ file = 0 /\ data = [i \in Inodes |-> 0] /\ wr = [p \in Procs |-> 0] /\ budget = P.budget
        /\ res = [p \in Procs |-> "none"]
Go(p, s) == pc' = [pc EXCEPT ![p] = s]
\* data: 0 empty, 1 half, 2 complete, 3 more than one writer.
Look(p) == /\ pc[p] = "look" /\ Go(p, IF file # 0 THEN "use" ELSE "open")
           /\ UNCHANGED <<name, fh, lock, fresh, tmp, file, data, wr, budget, res>>
Open(p) == /\ pc[p] = "open" /\ fresh < P.inodes
           /\ IF fh[p] # 0 THEN UNCHANGED <<name, fh, fresh>>
              ELSE IF name # 0 THEN fh' = [fh EXCEPT ![p] = name] /\ UNCHANGED <<name, fresh>>
              ELSE name' = fresh /\ fh' = [fh EXCEPT ![p] = fresh] /\ fresh' = fresh + 1
           /\ Go(p, "try") /\ UNCHANGED <<lock, tmp, file, data, wr, budget, res>>
Try(p) == /\ pc[p] = "try" /\ lock[fh[p]] = 0
          /\ lock' = [lock EXCEPT ![fh[p]] = p] /\ Go(p, "again")
          /\ UNCHANGED <<name, fh, fresh, tmp, file, data, wr, budget, res>>
Again(p) == /\ pc[p] = "again" /\ Go(p, IF file # 0 THEN "unlock" ELSE "get")
            /\ UNCHANGED <<name, fh, lock, fresh, tmp, file, data, wr, budget, res>>
\* The transfer fails before or after some bytes.
Fail(p) == /\ pc[p] \in {"get", "rest"} /\ budget > 0 /\ budget' = budget - 1 /\ res' = [res EXCEPT ![p] = "err"] /\ Go(p, "unlock")
           /\ UNCHANGED <<name, fh, lock, fresh, tmp, file, data, wr>>
\* Opening the temporary file truncates it.
Get(p) == /\ pc[p] = "get" /\ fresh < P.inodes
          /\ IF tmp = 0 THEN tmp' = fresh /\ fresh' = fresh + 1 /\ wr' = [wr EXCEPT ![p] = fresh] /\ data' = [data EXCEPT ![fresh] = 1]
             ELSE wr' = [wr EXCEPT ![p] = tmp] /\ data' = [data EXCEPT ![tmp] = 1] /\ UNCHANGED <<tmp, fresh>>
          /\ Go(p, "rest") /\ UNCHANGED <<name, fh, lock, file, budget, res>>
Rest(p) == /\ pc[p] = "rest" /\ data' = [data EXCEPT ![wr[p]] = 2] /\ Go(p, "rename")
           /\ UNCHANGED <<name, fh, lock, fresh, tmp, file, wr, budget, res>>
Rename(p) == /\ pc[p] = "rename"
             /\ IF tmp = 0 THEN res' = [res EXCEPT ![p] = "err"] /\ UNCHANGED <<file, tmp>> ELSE file' = tmp /\ tmp' = 0 /\ UNCHANGED res
             /\ Go(p, "unlock") /\ UNCHANGED <<name, fh, lock, fresh, data, wr, budget>>
Unlock(p) == /\ pc[p] = "unlock" /\ lock' = [lock EXCEPT ![fh[p]] = 0] /\ fh' = [fh EXCEPT ![p] = 0]
             /\ Go(p, IF REMOVE THEN "remove" ELSE IF res[p] = "err" THEN "end" ELSE "use")
             /\ UNCHANGED <<name, fresh, tmp, file, data, wr, budget, res>>
Remove(p) == /\ pc[p] = "remove" /\ name' = 0 /\ res' = [res EXCEPT ![p] = IF name = 0 THEN "err" ELSE @]
             /\ Go(p, IF res'[p] = "err" THEN "end" ELSE "use") /\ UNCHANGED <<fh, lock, fresh, tmp, file, data, wr, budget>>
Use(p) == /\ pc[p] = "use" /\ res' = [res EXCEPT ![p] = IF file # 0 /\ data[file] = 2 THEN "ok" ELSE "mismatch"] /\ Go(p, "end")
          /\ UNCHANGED <<name, fh, lock, fresh, tmp, file, data, wr, budget>>
\* A process may be ended anywhere; its lock goes with it.
Crash(p) == /\ pc[p] \notin {"end", "look"} /\ budget > 0 /\ budget' = budget - 1 /\ Go(p, "end") /\ res' = [res EXCEPT ![p] = "crash"]
            /\ lock' = [i \in Inodes |-> IF lock[i] = p THEN 0 ELSE lock[i]] /\ fh' = [fh EXCEPT ![p] = 0]
            /\ UNCHANGED <<name, fresh, tmp, file, data, wr>>
Next == \E p \in Procs : Look(p) \/ Open(p) \/ Try(p) \/ Again(p) \/ Fail(p) \/ Get(p) \/ Rest(p) \/ Rename(p) \/ Unlock(p) \/ Remove(p) \/ Use(p) \/ Crash(p)
Spec == Init /\ [][Next]_vars
Fair == Init /\ [][Next]_vars /\ \A p \in Procs : WF_vars(Next /\ pc'[p] # pc[p])

\* The file, once there, is complete; nobody sees anything else.
Whole == file # 0 => data[file] = 2
NoMismatch == \A p \in Procs : res[p] # "mismatch"
\* Only failed transfers and ended processes fail.
ErrBudget == Cardinality({p \in Procs : res[p] \in {"err", "crash"}}) <= P.budget - budget
Inside == Cardinality({p \in Procs : pc[p] \in {"again", "get", "rest", "rename"}}) <= 1
Ends == <>(\A p \in Procs : pc[p] = "end")
=============================================================================
