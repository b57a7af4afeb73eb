------------------------------ MODULE OffChain ------------------------------
(***************************************************************************)
(* Off-chain publication (components/idenpuboffchain): the writer's ring   *)
(* cache of published states, the data served for them, and what a reader  *)
(* accepts.  Properties C17 and C18.                                       *)
(*                                                                         *)
(* The content of an identity is [c, r, o]: the number of its claims, its  *)
(* revoked nonces, and the claims roots in its roots tree (each named by   *)
(* the number of claims at that time).  A snapshot is a content at the     *)
(* moment of a publication; a root is named by the content it commits to.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, IOUtils

P == JsonDeserialize(IOEnv.PARAMS)
Ops   == {P.ops[i] : i \in 1..Len(P.ops)}
Depth == P.depth
Rec   == P.rec
IDs   == 1..P.ids
Caps  == {P.caps[i] : i \in 1..Len(P.caps)}     \* possible cache lengths
Nonces == 0..P.nonces
MaxHist == P.maxHist
MaxFaults == P.faults
Bursts == {P.bursts[i] : i \in 1..Len(P.bursts)}

VARIABLES hist,    \* per identity: the snapshots, in order
          disk,    \* per identity: [cap, slot, idx] as stored by the writer
          up,      \* per identity: the writer is in memory
          pubd,    \* ghost: distinct published snapshots, in order
          loc,     \* the published snapshots, as the local store has them
          faults,
          out, nxt
vars == <<hist, disk, up, pubd, loc, faults, out, nxt>>

Content(i, k) == hist[i][k]
Clr(i, k) == <<i, Content(i, k).c>>
Rer(i, k) == Content(i, k).r
Ror(i, k) == IF Content(i, k).o = {} THEN {} ELSE {<<i, c>> : c \in Content(i, k).o}
StateOf(clr, rer, ror) == <<clr, rer, ror>>

New(cap) == [cap |-> cap, slot |-> [s \in 0..(cap - 1) |-> 0], idx |-> 0]
Prev(d) == (d.idx + d.cap - 1) % d.cap
\* What the writer does: a state published again stays where it is.
Put(d, k) == IF d.slot[Prev(d)] = k THEN d
             ELSE [d EXCEPT !.slot[d.idx] = k, !.idx = (d.idx + 1) % d.cap]
\* What a request yields: the snapshot served, or 0 (nothing found).
Serve(d, q) == IF q = 0 THEN d.slot[Prev(d)]
               ELSE IF \E s \in DOMAIN d.slot : d.slot[s] = q THEN q ELSE 0
\* What it has to yield: the last cap published states.
Least(a, b) == IF a < b THEN a ELSE b
Recent(i) == LET n == Len(pubd[i]) IN {pubd[i][x] : x \in (n - Least(n, disk[i].cap) + 1)..n}
Due(i, q) == IF q = 0 THEN (IF pubd[i] = <<>> THEN 0 ELSE pubd[i][Len(pubd[i])])
             ELSE IF q \in Recent(i) THEN q ELSE 0
Noted(p, k) == IF p # <<>> /\ p[Len(p)] = k THEN p ELSE Append(p, k)

Init == /\ hist = [i \in IDs |-> <<[c |-> 1, r |-> {}, o |-> {}]>>]
        /\ (IF P.draw THEN disk = [i \in IDs |-> New(RandomElement(Caps))]
            ELSE disk \in [IDs -> {New(c) : c \in Caps}])
        /\ up = [i \in IDs |-> TRUE] /\ pubd = [i \in IDs |-> <<>>] /\ loc = [i \in IDs |-> <<>>] /\ faults = 0
        /\ out = (IF Rec THEN <<[op |-> "init", caps |-> [i \in IDs |-> disk[i].cap]]>> ELSE <<>>)
        /\ nxt = IF P.draw THEN P.ops[1] ELSE "any"
Draw == nxt' = IF P.draw THEN P.ops[RandomElement(1..Len(P.ops))] ELSE nxt
Step(s) == out' = (IF Rec THEN Append(out, s) ELSE out) /\ Draw
More == ~Rec \/ Len(out) < Depth
On(o) == o \in Ops /\ More /\ nxt \in {o, "any"}
Sel(S) == IF P.draw /\ S # {} THEN {RandomElement(S)} ELSE S
Fin == Rec /\ Len(out) >= Depth /\ nxt # "done" /\ nxt' = "done" /\ UNCHANGED <<hist, disk, up, pubd, loc, faults, out>>
Skip == P.draw /\ More /\ Draw /\ UNCHANGED <<hist, disk, up, pubd, loc, faults, out>>
Rarely(n) == ~P.draw \/ RandomElement(1..n) = 1

Grown(x, dc, dr) == LET c == x.c + dc IN [c |-> c, r |-> x.r \cup dr, o |-> x.o \cup {c}]
\* The identity changes: new claims, new revocations.
Snap == /\ On("snap")
        /\ \E i \in Sel(IDs), dc \in Sel(IF P.draw THEN 0..2 ELSE 0..1),
              a \in Sel(Nonces), b \in Sel(IF P.draw THEN Nonces ELSE {0}) :
             LET dr == {a, b} \ {0}   \* 0: none
                 x == Grown(Last(hist[i]), dc, dr) IN
             /\ Len(hist[i]) < MaxHist /\ (dc > 0 \/ dr \ Last(hist[i]).r # {})
             /\ hist' = [hist EXCEPT ![i] = Append(@, x)]
             /\ Step([op |-> "snap", i |-> i, c |-> x.c, r |-> x.r, o |-> x.o])
        /\ UNCHANGED <<disk, up, pubd, loc, faults>>

\* A publication, possibly with a fault.  The identity may have moved on since
\* the snapshot was taken.  Snapshot 1 is never published (no roots yet).
Newest(i) == IF pubd[i] = <<>> THEN 2 ELSE Last(pubd[i])
Publish ==
  /\ On("publish")
  /\ \E i \in Sel(IDs), f \in Sel({"none", "none", "newtx", "txget", "commit", "crash-before", "crash-after"}) :
     \E k \in Sel({x \in Newest(i)..Len(hist[i]) : (~P.draw \/ x > Len(hist[i]) - 3)}) :
       /\ up[i] /\ (f # "none" => faults < MaxFaults /\ Rarely(2))
       /\ faults' = faults + (IF f = "none" THEN 0 ELSE 1)
       /\ LET done == f \in {"none", "crash-after"} IN
          /\ disk' = (IF done THEN [disk EXCEPT ![i] = Put(@, k)] ELSE disk)
          /\ pubd' = (IF done THEN [pubd EXCEPT ![i] = Noted(@, k)] ELSE pubd)
          /\ loc' = [loc EXCEPT ![i] = Noted(@, k)]
          /\ up' = [up EXCEPT ![i] = f \notin {"crash-before", "crash-after"}]
          /\ Step([op |-> "publish", i |-> i, k |-> k, fault |-> f])
  /\ UNCHANGED hist
\* Many publications in a row, each of a new state.
Burst ==
  /\ On("burst")
  /\ \E i \in Sel(IDs), n \in Sel(Bursts) :
       LET h == Len(hist[i])
           more == [x \in 1..n |-> LET c == Last(hist[i]).c + x
                                   IN [c |-> c, r |-> Last(hist[i]).r, o |-> Last(hist[i]).o \cup (Last(hist[i]).c + 1)..c]]
       IN /\ up[i] /\ h + n <= MaxHist
          /\ hist' = [hist EXCEPT ![i] = @ \o more]
          /\ disk' = [disk EXCEPT ![i] = FoldLeft(LAMBDA d, x : Put(d, h + x), @, [x \in 1..n |-> x])]
          /\ pubd' = [pubd EXCEPT ![i] = @ \o [x \in 1..n |-> h + x]]
          /\ loc' = [loc EXCEPT ![i] = @ \o [x \in 1..n |-> h + x]]
          /\ Step([op |-> "burst", i |-> i, n |-> n, c |-> Last(more).c, r |-> Last(more).r, o |-> Last(more).o])
  /\ UNCHANGED <<up, faults>>
Reload == /\ On("reload") /\ \E i \in Sel(IDs) : up' = [up EXCEPT ![i] = TRUE] /\ Step([op |-> "reload", i |-> i])
          /\ UNCHANGED <<hist, disk, pubd, loc, faults>>
\* The stored configuration survives; a reader asks the writer directly.
Named(i) == {0} \cup (1..Len(hist[i]))
Asked(i) == IF P.draw /\ Rarely(2) /\ pubd[i] # <<>>
            THEN {pubd[i][x] : x \in (Len(pubd[i]) - Least(Len(pubd[i]), disk[i].cap + 2) + 1)..Len(pubd[i])}
            ELSE Named(i)
Get == /\ On("get")
       /\ \E i \in Sel(IDs) : \E q \in Sel(Asked(i)), f \in Sel({"none", "none", "none", "newtx", "txget"}) :
            /\ up[i] /\ (f # "none" => Rarely(2))
            /\ Step([op |-> "get", i |-> i, q |-> q, fault |-> f, exp |-> IF f = "none" THEN Due(i, q) ELSE 0])
       /\ UNCHANGED <<hist, disk, up, pubd, loc, faults>>
\* Every state that ever was, and the latest.
All == /\ On("all")
       /\ \E i \in Sel(IDs) : /\ up[i]
                              /\ Step([op |-> "all", i |-> i, cap |-> disk[i].cap, exp |-> [q \in 1..(Len(hist[i]) + 1) |-> Due(i, q - 1)]])
       /\ UNCHANGED <<hist, disk, up, pubd, loc, faults>>
LocalGet == /\ On("local")
            /\ \E i \in Sel(IDs) : \E q \in Sel(Named(i)) :
                 Step([op |-> "local", i |-> i, q |-> q,
                       exp |-> IF q = 0 THEN (IF loc[i] = <<>> THEN 0 ELSE Last(loc[i]))
                               ELSE IF \E x \in 1..Len(loc[i]) : loc[i][x] = q THEN q ELSE 0])
            /\ UNCHANGED <<hist, disk, up, pubd, loc, faults>>
\* What was read before still is what it was.
Again == On("again") /\ Step([op |-> "again"]) /\ UNCHANGED <<hist, disk, up, pubd, loc, faults>>

(***************************** what a reader accepts ***********************)
Fields == {"state", "clr", "rer", "ror", "ret", "rot"}
\* The parts fs of the data of snapshot k are taken from snapshot m of j.
Mixed(i, k, fs, j, m) ==
  LET pick(f, a, b) == IF f \in fs THEN b ELSE a IN
  [state |-> pick("state", StateOf(Clr(i, k), Rer(i, k), Ror(i, k)), StateOf(Clr(j, m), Rer(j, m), Ror(j, m))),
   clr |-> pick("clr", Clr(i, k), Clr(j, m)), rer |-> pick("rer", Rer(i, k), Rer(j, m)), ror |-> pick("ror", Ror(i, k), Ror(j, m)),
   ret |-> pick("ret", Rer(i, k), Rer(j, m)), rot |-> pick("rot", Ror(i, k), Ror(j, m))]
Consistent(b) == b.ret = b.rer /\ b.rot = b.ror /\ b.state = StateOf(b.clr, b.rer, b.ror)
Accept(b, asked) == Consistent(b) /\ (asked = <<>> \/ b.state = asked)
\* Requested over HTTP from identity i, or decoded directly (nothing asked).
Fetch ==
  /\ On("fetch")
  /\ \E i \in Sel(IDs) : \E q \in Sel(Asked(i)), via \in Sel({"http", "http", "blobs"}) :
     LET k == Due(i, q)
         base == [op |-> "fetch", i |-> i, q |-> q, k |-> k, via |-> via] IN
     /\ up[i] /\ (k = 0 => via = "http" /\ Rarely(3))
     /\ IF k = 0 THEN Step(base @@ [alt |-> "none", exp |-> "reject"])
        ELSE \E alt \in Sel({"none", "mix", "mix1", "mix", "mix1", "cut", "drop", "node", "node", "extra", "swapnodes", "graft", "graft", "graft", "rootrec", "fold"}
                            \cup (IF via = "http" THEN {"status", "body", "missing", "bad", "wrap"} ELSE {"wrap"})) :
          CASE alt = "none" -> Step(base @@ [alt |-> alt, exp |-> "ok", as |-> <<i, k>>])
            [] alt \in {"mix", "mix1"} ->
                 \E j \in Sel(IDs) : \E m \in Sel(2..Len(hist[j])) :
                 \E fs \in Sel(IF alt = "mix1" THEN {{f} : f \in Fields}
                               ELSE IF Rarely(3) THEN {Fields} ELSE SUBSET Fields) :
                   LET b == Mixed(i, k, fs, j, m)
                       ok == Accept(b, IF via = "blobs" \/ q = 0 THEN <<>> ELSE StateOf(Clr(i, q), Rer(i, q), Ror(i, q)))
                   IN Step(base @@ [alt |-> "mix", fs |-> fs, j |-> j, m |-> m, exp |-> IF ok THEN "ok" ELSE "reject",
                                    as |-> IF "state" \in fs THEN <<j, m>> ELSE <<i, k>>])
            \* a tree dump with the nodes of another tree below the expected root
            [] alt = "graft" ->
                 \E f \in Sel({"ret", "ret", "rot"}) : \E j \in Sel(IDs) : \E m \in Sel(2..Len(hist[j])) :
                   LET same == IF f = "ret" THEN Rer(i, k) = Rer(j, m) ELSE Ror(i, k) = Ror(j, m)
                       none == f = "ret" /\ (Rer(i, k) = {} \/ Rer(j, m) = {}) IN
                   Step(base @@ [alt |-> alt, f |-> f, j |-> j, m |-> m, exp |-> IF same THEN "ok" ELSE IF none THEN "sound" ELSE "reject", as |-> <<i, k>>])
            \* a tree whose nodes have the same node on both sides: a few records, but as a tree larger than any memory
            [] alt = "fold" ->
                 \E f \in Sel({"ret", "rot"}), n \in Sel(0..99) : Step(base @@ [alt |-> alt, f |-> f, n |-> n, as |-> <<i, k>>, exp |-> "reject"])
            [] alt \in {"cut", "drop", "node", "extra", "swapnodes", "rootrec"} ->
                 \E f \in Sel({"ret", "rot"}), n \in Sel(0..99) :
                   Step(base @@ [alt |-> alt, f |-> f, n |-> n, as |-> <<i, k>>,
                                 exp |-> IF alt = "cut" \/ (alt = "drop" /\ ~(f = "ret" /\ Rer(i, k) = {})) THEN "reject" ELSE "sound"])
            [] alt = "missing" ->
                 \E f \in Sel(Fields) : Step(base @@ [alt |-> alt, f |-> f, as |-> <<i, k>>,
                                                     exp |-> IF f = "rer" /\ Rer(i, k) = {} THEN "ok" ELSE "reject"])
            [] alt \in {"status", "body", "bad", "wrap"} ->
                 \E f \in Sel(Fields \ {"ret", "rot"}), n \in Sel(0..99) :
                   Step(base @@ [alt |-> alt, f |-> f, n |-> n, as |-> <<i, k>>,
                                 exp |-> IF alt = "bad" /\ f = "rer" /\ Rer(i, k) = {} THEN "sound" ELSE "reject"])
  /\ UNCHANGED <<hist, disk, up, pubd, loc, faults>>

Next == Snap \/ Publish \/ Burst \/ Reload \/ Get \/ All \/ LocalGet \/ Again \/ Fetch \/ Skip \/ Fin
Spec == Init /\ [][Next]_vars

(********************************* properties *******************************)
\* C17: the ring serves exactly the recent states, the latest when unnamed.
ServesRecent == \A i \in IDs : \A q \in 0..(Len(hist[i]) + 1) : Serve(disk[i], q) = Due(i, q)
Placed == \A i \in IDs : disk[i].idx \in 0..(disk[i].cap - 1)
\* A publication replaces the oldest served state at most, and only when the cache is full.
Gentle == [][\A i \in IDs : Len(pubd'[i]) <= Len(pubd[i]) + 1 => \A q \in Recent(i) :
               q \notin Recent(i)' => Cardinality(Recent(i)) = disk[i].cap /\ \A r \in Recent(i) : q <= r]_vars
\* C18: what is accepted for a request is the content of the requested state.
OnlyTheRequested ==
  \A i, j \in IDs : \A k \in 2..Len(hist[i]), m \in 2..Len(hist[j]) : \A fs \in SUBSET Fields :
    LET b == Mixed(i, k, fs, j, m) IN
    Accept(b, StateOf(Clr(i, k), Rer(i, k), Ror(i, k))) => b = Mixed(i, k, {}, i, k)
\* Different snapshots of an identity have different states, so a state names one content.
Distinct == \A i, j \in IDs : \A k \in 1..Len(hist[i]), m \in 1..Len(hist[j]) :
              StateOf(Clr(i, k), Rer(i, k), Ror(i, k)) = StateOf(Clr(j, m), Rer(j, m), Ror(j, m)) => i = j /\ k = m
\* Published snapshots never change.
Frozen == [][\A i \in IDs : \A k \in 1..Len(hist[i]) : hist[i]'[k] = hist[i][k]]_vars

Emit == (Rec /\ nxt = "done") => PrintT(ToJson(out))
=============================================================================
