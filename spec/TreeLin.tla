------------------------------- MODULE TreeLin -------------------------------
(* Histories of several goroutines using one tree, recorded from the real     *)
(* code, decided against the tree as an abstract object: a set of entries     *)
(* <<key, value>>, each operation taking effect at one instant between its    *)
(* call and its return.  TLC looks for the instants; a history for which      *)
(* there are none leaves NotAccepted true, and the trace is refused.          *)
(* See TreeLock.tla for the design that makes this so.                        *)
EXTENDS Naturals, Sequences, FiniteSets, Json, IOUtils, TLC

H == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES h,     \* history being decided
          done,  \* its operations that have taken effect
          st     \* entries of the tree

Set(s) == {s[i] : i \in 1 .. Len(s)}
Ops == H[h].ops
Conf == {{p[1], p[2]} : p \in Set(H[h].conf)}   \* keys that cannot be together within the levels

Keys(s) == {e[1] : e \in s}
Valid(r) == Set(r) \cap {<<0, 0>>} = {}         \* <<0,0>>: a root of no set of entries

(* The operation may be the next to take effect: nothing not yet in effect    *)
(* had returned when it was called.                                           *)
Enabled(k) == /\ k \notin done
              /\ \A m \in DOMAIN Ops \ done : Ops[m].ret > Ops[k].call

Reader(o) == o.op \notin {"add", "import"}

(* What the tree answers.                                                     *)
Answers(o, s) ==
  CASE o.op = "get"   -> o.res = IF \E e \in s : e[1] = o.k THEN (CHOOSE e \in s : e[1] = o.k)[2] ELSE 0
    [] o.op = "has"   -> o.res = IF <<o.k, o.v>> \in s THEN "yes"
                                 ELSE IF o.k \in Keys(s) THEN "other" ELSE "no"
    [] o.op = "proof" -> /\ Valid(o.set) /\ Set(o.set) = s
                         /\ o.exists = (o.k \in Keys(s))
    [] o.op \in {"root", "dump", "dumptree", "walk", "snap", "final", "reopen"} -> Valid(o.set) /\ Set(o.set) = s
    [] o.op = "add"   -> o.res = IF o.k \in Keys(s) THEN "exists"
                                 ELSE IF \E j \in Keys(s) : {j, o.k} \in Conf THEN "max" ELSE "ok"
    [] o.op = "import" -> o.res = "ok"
    [] OTHER -> FALSE

After(o, s) ==
  CASE o.op = "add" /\ o.res = "ok" -> s \cup {<<o.k, o.v>>}
    [] o.op = "import"              -> Set(o.set)
    [] OTHER                        -> s

TInit == h = 1 /\ done = {} /\ st = {}

(* A reader that agrees with the entries of now can always take effect now.   *)
Ready == {k \in DOMAIN Ops : Enabled(k) /\ Answers(Ops[k], st)}
Lin == LET r == {k \in Ready : Reader(Ops[k])} IN
       IF r # {} THEN /\ done' = done \cup {CHOOSE k \in r : TRUE}
                      /\ UNCHANGED <<h, st>>
       ELSE \E k \in Ready : /\ done' = done \cup {k}
                             /\ st' = After(Ops[k], st)
                             /\ UNCHANGED h

NextHistory == /\ done = DOMAIN Ops
               /\ PrintT(<<"accepted", h>>)
               /\ h' = h + 1 /\ done' = {} /\ st' = {}

TNext == h <= Len(H) /\ (Lin \/ NextHistory)
NotAccepted == h <= Len(H)
=============================================================================
