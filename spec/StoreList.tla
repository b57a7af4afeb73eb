------------------------------ MODULE StoreList ------------------------------
(***************************************************************************)
(* Persistent lists, counters and JSON records that share one storage      *)
(* (db/storageutils.go).  Property C08.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, IOUtils

P == JsonDeserialize(IOEnv.PARAMS)
Ops   == {P.ops[i] : i \in 1..Len(P.ops)}
Depth == P.depth
Rec   == P.rec
Lists == 1..P.lists
Cnts  == 1..P.counters
Keys  == 1..P.keys          \* identifiers of keys; the driver has the bytes
Vals  == 1..P.vals          \* identifiers of list values
CVals == 0..P.cvals         \* identifiers of counter values

Unset == 999
VARIABLES disk,  \* [seq: list -> sequence of keys or Unset-marked, kv: list -> (key -> value), cnt: counter -> value, js: key -> value]
          work,  \* the same as seen by the open transaction
          open,
          out, nxt
vars == <<disk, work, open, out, nxt>>

Empty == [x \in {} |-> 0]
Fresh == [init |-> [l \in Lists |-> FALSE], seq |-> [l \in Lists |-> <<>>], kv |-> [l \in Lists |-> Empty],
          cnt |-> [c \in Cnts |-> Unset], js |-> Empty, big |-> 0]
Init == /\ disk = Fresh /\ work = Fresh /\ open = FALSE /\ out = <<>>
        /\ nxt = IF P.draw THEN P.ops[1] ELSE "any"
Draw == nxt' = IF P.draw THEN P.ops[RandomElement(1..Len(P.ops))] ELSE nxt
Step(s) == out' = (IF Rec THEN Append(out, s) ELSE out) /\ Draw
More == ~Rec \/ Len(out) < Depth
On(o) == o \in Ops /\ More /\ nxt \in {o, "any"}
Sel(S) == IF P.draw /\ S # {} THEN {RandomElement(S)} ELSE S
Fin == Rec /\ Len(out) = Depth /\ nxt # "done" /\ nxt' = "done" /\ UNCHANGED <<disk, work, open, out>>
Skip == P.draw /\ More /\ Draw /\ UNCHANGED <<disk, work, open, out>>

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
\* Everything a reader can ask about one state.
Obs(d) == [lists |-> [l \in Lists |-> [init |-> d.init[l],
                        at |-> [i \in 1..Len(d.seq[l]) |-> [k |-> d.seq[l][i], v |-> d.kv[l][d.seq[l][i]]]],
                        by |-> {[k |-> k, found |-> k \in DOMAIN d.kv[l], v |-> IF k \in DOMAIN d.kv[l] THEN d.kv[l][k] ELSE 0] : k \in Keys}]],
           cnts |-> [c \in Cnts |-> d.cnt[c]], big |-> d.big,
           js |-> {[k |-> k, found |-> k \in DOMAIN d.js, v |-> IF k \in DOMAIN d.js THEN d.js[k] ELSE 0] : k \in Keys}]

Begin == /\ On("begin") /\ ~open /\ open' = TRUE /\ work' = disk
         /\ Step([op |-> "begin"]) /\ UNCHANGED disk
InitL == /\ On("init") /\ open
         /\ \E l \in Sel({x \in Lists : ~work.init[x]}) :
              /\ work' = [work EXCEPT !.init[l] = TRUE]
              /\ Step([op |-> "init", l |-> l, obs |-> Obs(work')])
         /\ UNCHANGED <<disk, open>>
App == /\ On("append") /\ open
       /\ \E l \in Sel(Lists), k \in Sel(Keys), v \in Sel(Vals) :
            LET ok == work.init[l] IN
            /\ Len(work.seq[l]) < P.maxLen
            /\ work' = IF ok THEN [work EXCEPT !.seq[l] = Append(@, k), !.kv[l] = Put(@, k, v)] ELSE work
            /\ Step([op |-> "append", l |-> l, k |-> k, v |-> v, res |-> IF ok THEN "ok" ELSE "err", obs |-> Obs(work')])
       /\ UNCHANGED <<disk, open>>
\* A list too long to be spelled out: what is at a position is a function of
\* the position, which the driver has.
Bulk == /\ On("bulk") /\ open
        /\ \E i \in Sel(1..Len(P.bulks)) :
             /\ work.big + P.bulks[i] <= P.maxBig
             /\ work' = [work EXCEPT !.big = @ + P.bulks[i]]
             /\ Step([op |-> "bulk", n |-> P.bulks[i], obs |-> Obs(work')])
        /\ UNCHANGED <<disk, open>>
\* A value that cannot be encoded leaves the transaction as it was.
AppBad == /\ On("appendbad") /\ open
          /\ \E l \in Sel(Lists), k \in Sel(Keys) :
               Step([op |-> "appendbad", l |-> l, k |-> k, obs |-> Obs(work)])
          /\ UNCHANGED <<disk, work, open>>
SetC == /\ On("set") /\ open
        /\ \E c \in Sel(Cnts), v \in Sel(CVals) :
             /\ work' = [work EXCEPT !.cnt[c] = v]
             /\ Step([op |-> "set", c |-> c, v |-> v, obs |-> Obs(work')])
        /\ UNCHANGED <<disk, open>>
StoreJ == /\ On("json") /\ open
          /\ \E k \in Sel(Keys), v \in Sel(Vals) :
               /\ work' = [work EXCEPT !.js = Put(@, k, v)]
               /\ Step([op |-> "json", k |-> k, v |-> v, obs |-> Obs(work'), disk |-> Obs(disk)])
          /\ UNCHANGED <<disk, open>>
Commit == /\ On("commit") /\ open /\ disk' = work /\ open' = FALSE
          /\ Step([op |-> "commit", disk |-> Obs(work)]) /\ UNCHANGED work
Abort == /\ On("abort") /\ open /\ work' = disk /\ open' = FALSE
         /\ Step([op |-> "abort", disk |-> Obs(disk)]) /\ UNCHANGED disk
Reopen == /\ On("reopen") /\ work' = disk /\ open' = FALSE
          /\ Step([op |-> "reopen", disk |-> Obs(disk)]) /\ UNCHANGED disk

Next == Begin \/ InitL \/ App \/ Bulk \/ AppBad \/ SetC \/ StoreJ \/ Commit \/ Abort \/ Reopen \/ Skip \/ Fin
Spec == Init /\ [][Next]_vars

\* Appends only extend; nothing else touches a list.
AppendOnly == [][\A l \in Lists : IsPrefix(disk.seq[l], disk'.seq[l]) /\ disk.big <= disk'.big]_vars
\* Every position can be read, and its value is the value of its key.
Readable == \A l \in Lists : /\ \A i \in 1..Len(work.seq[l]) : work.seq[l][i] \in DOMAIN work.kv[l]
                             /\ DOMAIN work.kv[l] = {work.seq[l][i] : i \in 1..Len(work.seq[l])}
NoTrace == ~open => work = disk
Emit == (Rec /\ nxt = "done") => PrintT(ToJson(out))
=============================================================================
