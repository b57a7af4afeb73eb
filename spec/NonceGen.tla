------------------------------- MODULE NonceGen -------------------------------
(***************************************************************************)
(* The generator of revocation nonces (identity/issuer/noncegen.go): a     *)
(* persistent counter used inside storage transactions.  Part of C11.      *)
(* A counter stands at `left` numbers before the largest one, or counts    *)
(* from zero; what a transaction took counts only once it is committed.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

P == JsonDeserialize(IOEnv.PARAMS)
Ops   == {P.ops[i] : i \in 1..Len(P.ops)}
Depth == P.depth
Rec   == P.rec
Gens  == 1..P.gens
Max   == P.max            \* stands for 2^32-1; a nonce from Far on is that far below it
Far   == P.far

Unset == -1
VARIABLES disk, work,     \* counters: committed, and as the open transaction sees them
          open, taken,    \* nonces taken by committed transactions
          fresh,          \* nonces taken by the open one
          out, nxt
vars == <<disk, work, open, taken, fresh, out, nxt>>
Init == /\ disk = [g \in Gens |-> Unset] /\ work = disk /\ open = FALSE
        /\ taken = [g \in Gens |-> {}] /\ fresh = taken
        /\ out = <<>> /\ nxt = IF P.draw THEN P.ops[1] ELSE "any"
Draw == nxt' = IF P.draw THEN P.ops[RandomElement(1..Len(P.ops))] ELSE nxt
Step(s) == out' = (IF Rec THEN Append(out, s) ELSE out) /\ Draw
More == ~Rec \/ Len(out) < Depth
On(o) == o \in Ops /\ More /\ nxt \in {o, "any"}
Sel(S) == IF P.draw /\ S # {} THEN {RandomElement(S)} ELSE S
Fin == Rec /\ Len(out) = Depth /\ nxt # "done" /\ nxt' = "done" /\ UNCHANGED <<disk, work, open, taken, fresh, out>>
Skip == P.draw /\ More /\ Draw /\ UNCHANGED <<disk, work, open, taken, fresh, out>>

Begin == /\ On("begin") /\ ~open /\ open' = TRUE /\ Step([op |-> "begin"])
         /\ UNCHANGED <<disk, work, taken, fresh>>
InitG == /\ On("init") /\ open
         /\ \E g \in Sel({x \in Gens : work[x] = Unset}) :
              work' = [work EXCEPT ![g] = 0] /\ Step([op |-> "init", g |-> g])
         /\ UNCHANGED <<disk, open, taken, fresh>>
\* n requests in one transaction, one after another or at the same time.
Room(g) == IF work[g] = Unset THEN 0 ELSE Max - work[g]
NextG == /\ On("next") /\ open
         /\ \E g \in Sel(Gens), n \in Sel(1..P.burst), par \in Sel(IF P.draw THEN {TRUE, FALSE} ELSE {FALSE}) :
              LET k == IF n < Room(g) THEN n ELSE Room(g)
                  got == {work[g] + i : i \in 0..k - 1} IN
              /\ work' = [work EXCEPT ![g] = IF @ = Unset THEN @ ELSE @ + k]
              /\ Assert(got \cap (taken[g] \cup fresh[g]) = {}, "a nonce is given twice")
              /\ fresh' = [fresh EXCEPT ![g] = @ \cup got]
              /\ Step([op |-> "next", g |-> g, n |-> n, par |-> par, got |-> got, refused |-> n - k])
         /\ UNCHANGED <<disk, open, taken>>
\* Many nonces later: the counter of a generator near its end.
Jump == /\ On("jump") /\ open
        /\ \E g \in Sel({x \in Gens : work[x] # Unset /\ work[x] < Far}), d \in Sel(0..P.near) :
             /\ work' = [work EXCEPT ![g] = Max - d]
             /\ Step([op |-> "jump", g |-> g, left |-> d])
        /\ UNCHANGED <<disk, open, taken, fresh>>
Commit == /\ On("commit") /\ open /\ disk' = work /\ open' = FALSE
          /\ taken' = [g \in Gens |-> taken[g] \cup fresh[g]] /\ fresh' = [g \in Gens |-> {}]
          /\ Step([op |-> "commit"]) /\ UNCHANGED work
Abort == /\ On("abort") /\ open /\ work' = disk /\ open' = FALSE /\ fresh' = [g \in Gens |-> {}]
         /\ Step([op |-> "abort"]) /\ UNCHANGED <<disk, taken>>
Reopen == /\ On("reopen") /\ ~open
          /\ Step([op |-> "reopen"]) /\ UNCHANGED <<disk, work, open, taken, fresh>>
Next == Begin \/ InitG \/ NextG \/ Jump \/ Commit \/ Abort \/ Reopen \/ Skip \/ Fin
Spec == Init /\ [][Next]_vars

Behind == \A g \in Gens : \A x \in taken[g] : x < disk[g]
Ahead  == \A g \in Gens : \A x \in taken[g] \cup fresh[g] : x < work[g]
Below  == \A g \in Gens : work[g] <= Max /\ Max \notin taken[g] \cup fresh[g]
Kept   == [][\A g \in Gens : taken[g] \subseteq taken'[g] /\ disk[g] <= disk'[g]]_vars
Emit == (Rec /\ nxt = "done") => PrintT(ToJson(out))
=============================================================================
