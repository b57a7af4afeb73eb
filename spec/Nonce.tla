-------------------------------- MODULE Nonce --------------------------------
(***************************************************************************)
(* One-time nonces with an expiration (utils/noncedb).  Property C19.      *)
(* `ab` is what the user may rely on; `tab` and `heap` are the mechanism:  *)
(* a table by name and a queue ordered by expiration that may hold entries *)
(* of nonces already consumed.                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

P == JsonDeserialize(IOEnv.PARAMS)
Ops   == {P.ops[i] : i \in 1..Len(P.ops)}
Depth == P.depth
Rec   == P.rec
Names == 1..P.names
Auxs  == 0..P.auxs                \* 0: none
Deltas == {P.deltas[i] : i \in 1..Len(P.deltas)}
MaxTime == P.maxTime
MaxId == P.maxId

VARIABLES now, ab, tab, heap, ids, out, nxt
vars == <<now, ab, tab, heap, ids, out, nxt>>
Empty == [x \in {} |-> 0]
Without(f, S) == [x \in DOMAIN f \ S |-> f[x]]
With(f, n, v) == [x \in DOMAIN f \cup {n} |-> IF x = n THEN v ELSE f[x]]

Init == /\ now = 0 /\ ab = Empty /\ tab = Empty /\ heap = {} /\ ids = 0
        /\ out = <<>> /\ nxt = IF P.draw THEN P.ops[1] ELSE "any"
Draw == nxt' = IF P.draw THEN P.ops[RandomElement(1..Len(P.ops))] ELSE nxt
Step(s) == out' = (IF Rec THEN Append(out, s) ELSE out) /\ Draw
More == ~Rec \/ Len(out) < Depth
On(o) == o \in Ops /\ More /\ nxt \in {o, "any"}
Sel(S) == IF P.draw /\ S # {} THEN {RandomElement(S)} ELSE S
Fin == Rec /\ Len(out) = Depth /\ nxt # "done" /\ nxt' = "done" /\ UNCHANGED <<now, ab, tab, heap, ids, out>>
Skip == P.draw /\ More /\ Draw /\ UNCHANGED <<now, ab, tab, heap, ids, out>>

Live(n)  == n \in DOMAIN ab /\ ab[n].exp >= now
Stale(n) == n \in DOMAIN ab /\ ab[n].exp < now       \* expired, perhaps still stored
Known == {n \in Names : n \in DOMAIN ab}

\* The mechanism's table: an entry enters both structures.
Enter(n, e, a) == /\ ids' = ids + 1
                  /\ ab' = With(ab, n, [exp |-> e, aux |-> a])
                  /\ tab' = With(tab, n, [exp |-> e, aux |-> a, id |-> ids])
                  /\ heap' = heap \cup {[n |-> n, exp |-> e, id |-> ids]}
\* Cleaning takes the expired entries off the queue, and a nonce with them only
\* if the entry is the one the table holds.
CleanM(t, h) == LET old == {x \in h : x.exp < now} IN
                [tab |-> Without(t, {n \in DOMAIN t : \E x \in old : x.n = n /\ x.id = t[n].id}), heap |-> h \ old]

Add == /\ On("add")
       /\ \E n \in Sel(Names), d \in Sel(Deltas), a \in Sel(Auxs) :
            /\ ~Stale(n) /\ (~Rec => ids < MaxId)
            /\ IF Live(n) THEN UNCHANGED <<ab, tab, heap, ids>> ELSE Enter(n, now + d, a)
            /\ Step([op |-> "add", n |-> n, d |-> d, a |-> a, exp |-> ~Live(n)])
       /\ UNCHANGED now
\* The name of an expired nonce may be free or not; after cleaning it is.
Readd == /\ On("readd")
         /\ \E n \in Sel({x \in Names : Stale(x)}), d \in Sel(Deltas), a \in Sel(Auxs) :
              /\ (~Rec => ids < MaxId)
              /\ ids' = ids + 1
              /\ ab' = With(ab, n, [exp |-> now + d, aux |-> a])
              /\ LET c == CleanM(tab, heap) IN
                 /\ tab' = With(c.tab, n, [exp |-> now + d, aux |-> a, id |-> ids])
                 /\ heap' = c.heap \cup {[n |-> n, exp |-> now + d, id |-> ids]}
              /\ Step([op |-> "readd", n |-> n, d |-> d, a |-> a])
         /\ UNCHANGED now
\* A fresh random name; the driver maps it to n.
New == /\ On("new")
       /\ \E n \in Sel({x \in Names : x \notin DOMAIN ab}), d \in Sel(Deltas), a \in Sel(Auxs) :
            /\ (~Rec => ids < MaxId) /\ Enter(n, now + d, a)
            /\ Step([op |-> "new", n |-> n, d |-> d, a |-> a])
       /\ UNCHANGED now
AddAux == /\ On("aux")
          /\ \E n \in Sel(Names), a \in Sel(Auxs \ {0}) :
               LET ok == Live(n) /\ ab[n].aux = 0 IN
               /\ ab' = (IF ok THEN [ab EXCEPT ![n].aux = a] ELSE ab)
               /\ tab' = (IF n \in DOMAIN tab /\ tab[n].aux = 0 THEN [tab EXCEPT ![n].aux = a] ELSE tab)
               /\ Step([op |-> "aux", n |-> n, a |-> a, exp |-> IF Stale(n) THEN "any" ELSE IF ok THEN "yes" ELSE "no"])
          /\ UNCHANGED <<now, heap, ids>>
Found(n) == IF Live(n) THEN [ok |-> TRUE, exp |-> ab[n].exp, aux |-> ab[n].aux] ELSE [ok |-> FALSE, exp |-> 0, aux |-> 0]
Search == /\ On("search")
          /\ \E n \in Sel(Names) : Step([op |-> "search", n |-> n, exp |-> Found(n)])
          /\ UNCHANGED <<now, ab, tab, heap, ids>>
\* Many searches in a row (the mechanism cleans up now and then).
Many == /\ On("many")
        /\ \E k \in Sel({40, 128, 130, 300}) : Step([op |-> "many", k |-> k, exp |-> [n \in Names |-> Found(n)]])
        /\ UNCHANGED <<now, ab, tab, heap, ids>>
Consume == /\ On("consume")
           /\ \E n \in Sel(Names) :
                /\ ab' = (IF Live(n) THEN Without(ab, {n}) ELSE ab)
                /\ tab' = Without(tab, {n})
                /\ Step([op |-> "consume", n |-> n, exp |-> Found(n)])
           /\ UNCHANGED <<now, heap, ids>>
\* Removes exactly the expired nonces.
Clean == /\ On("clean")
         /\ ab' = Without(ab, {n \in DOMAIN ab : Stale(n)})
         /\ tab' = CleanM(tab, heap).tab /\ heap' = CleanM(tab, heap).heap
         /\ Step([op |-> "clean", exp |-> [n \in Names |-> Found(n)]])
         /\ UNCHANGED <<now, ids>>
\* The mechanism may clean up by itself at any search.
CleanM1 == /\ ~Rec /\ "many" \in Ops /\ tab' = CleanM(tab, heap).tab /\ heap' = CleanM(tab, heap).heap
           /\ UNCHANGED <<now, ab, ids, out, nxt>>
Tick == /\ On("tick") /\ now < MaxTime
        /\ \E d \in Sel(IF P.draw THEN {1, 1, 1, 2, 3, 7} ELSE {1}) : now' = now + d /\ Step([op |-> "tick", now |-> now'])
        /\ UNCHANGED <<ab, tab, heap, ids>>

Next == Add \/ Readd \/ New \/ AddAux \/ Search \/ Many \/ Consume \/ Clean \/ CleanM1 \/ Tick \/ Skip \/ Fin
Spec == Init /\ [][Next]_vars

\* The mechanism answers what the user may rely on.
Answers == \A n \in Names : (n \in DOMAIN tab /\ tab[n].exp >= now) <=> Live(n)
Data == \A n \in Names : Live(n) => tab[n].exp = ab[n].exp /\ tab[n].aux = ab[n].aux
\* Every stored nonce is queued, so that cleaning finds it.
Queued == \A n \in DOMAIN tab : \E x \in heap : x.n = n /\ x.id = tab[n].id /\ x.exp = tab[n].exp
\* What is live stays live until it expires or is consumed.
Stays == [][\A n \in Names : (Live(n) /\ n \notin DOMAIN ab') => Found(n).ok]_vars
Once == [][\A n \in Names : (Live(n) /\ ~(n \in DOMAIN ab' /\ ab'[n].exp >= now')) => now' > ab[n].exp \/ n \notin DOMAIN tab']_vars

Emit == (Rec /\ nxt = "done") => PrintT(ToJson(out))
=============================================================================
