--------------------------------- MODULE KV ---------------------------------
(***************************************************************************)
(* The key-value storage (db/): handles restricted to a prefix, buffered   *)
(* transactions, ordered iteration.  A byte string is a sequence of        *)
(* numbers.  Property C07.                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, IOUtils

P == JsonDeserialize(IOEnv.PARAMS)
Ops   == {P.ops[i] : i \in 1..Len(P.ops)}
Depth == P.depth
Rec   == P.rec
Bytes == {P.bytes[i] : i \in 1..Len(P.bytes)}
MaxLen == P.maxLen                                   \* of a key or a prefix part
Strs  == UNION {[1..n -> Bytes] : n \in 0..MaxLen}
Vals  == 0..P.vals                                   \* value identifiers
MaxH  == P.handles
MaxTx == P.txs

VARIABLES disk,   \* committed contents: full key -> value
          hs,     \* open handles: sequence of prefixes
          txs,    \* sequence of transactions [st, pre, w]
          log,    \* ghost: the committed write sets, in order
          out, nxt
vars == <<disk, hs, txs, log, out, nxt>>

Empty == [x \in {} |-> 0]
Merge(f, g) == [x \in DOMAIN f \cup DOMAIN g |-> IF x \in DOMAIN g THEN g[x] ELSE f[x]]
IsPre(p, k) == Len(p) <= Len(k) /\ SubSeq(k, 1, Len(p)) = p
Cut(p, k) == SubSeq(k, Len(p) + 1, Len(k))

RECURSIVE Less(_, _)
Less(a, b) == CASE b = <<>> -> FALSE
                [] a = <<>> -> TRUE
                [] a[1] # b[1] -> a[1] < b[1]
                [] OTHER -> Less(Tail(a), Tail(b))

\* What a handle with prefix p lists: local keys in byte order, with values.
View(d, p) == LET ks == {k \in DOMAIN d : IsPre(p, k)}
                  s == SetToSortSeq(ks, Less)
              IN [i \in 1..Len(s) |-> [k |-> Cut(p, s[i]), v |-> d[s[i]]]]
Lookup(d, k) == IF k \in DOMAIN d THEN [found |-> TRUE, v |-> d[k]] ELSE [found |-> FALSE, v |-> 0]
TxView(t) == Merge(disk, t.w)

Init == /\ disk = Empty /\ hs = <<(<<>>)>> /\ txs = <<>> /\ log = <<>> /\ out = <<>>
        /\ nxt = IF P.draw THEN P.ops[1] ELSE "any"
Draw == nxt' = IF P.draw THEN P.ops[RandomElement(1..Len(P.ops))] ELSE nxt
Step(s) == out' = (IF Rec THEN Append(out, s) ELSE out) /\ Draw
More == ~Rec \/ Len(out) < Depth
On(o) == o \in Ops /\ More /\ nxt \in {o, "any"}
Sel(S) == IF P.draw /\ S # {} THEN {RandomElement(S)} ELSE S
Fin == Rec /\ Len(out) = Depth /\ nxt # "done" /\ nxt' = "done" /\ UNCHANGED <<disk, hs, txs, log, out>>
Skip == P.draw /\ More /\ Draw /\ UNCHANGED <<disk, hs, txs, log, out>>

Open == {i \in 1..Len(txs) : txs[i].st = "open"}
All(d) == View(d, <<>>)

WithPrefix == /\ On("prefix") /\ Len(hs) < MaxH
              /\ \E h \in Sel(1..Len(hs)), p \in Sel(Strs) :
                   /\ Len(hs[h]) + Len(p) <= 2 * MaxLen
                   /\ hs' = Append(hs, hs[h] \o p)
                   /\ Step([op |-> "prefix", h |-> h, p |-> p])
              /\ UNCHANGED <<disk, txs, log>>
NewTx == /\ On("newtx") /\ Cardinality(Open) < MaxTx /\ Len(txs) < P.alltxs
         /\ \E h \in Sel(1..Len(hs)) :
              /\ txs' = Append(txs, [st |-> "open", pre |-> hs[h], w |-> Empty])
              /\ Step([op |-> "newtx", h |-> h])
         /\ UNCHANGED <<disk, hs, log>>
Put == /\ On("put")
       /\ \E t \in Sel(Open), k \in Sel(Strs), v \in Sel(Vals) :
            /\ txs' = [txs EXCEPT ![t].w = Merge(@, (txs[t].pre \o k) :> v)]
            /\ Step([op |-> "put", t |-> t, k |-> k, v |-> v, all |-> All(disk)])
       /\ UNCHANGED <<disk, hs, log>>
TxGet == /\ On("txget")
         /\ \E t \in Sel(Open), k \in Sel(Strs) :
              Step([op |-> "txget", t |-> t, k |-> k, exp |-> Lookup(TxView(txs[t]), txs[t].pre \o k)])
         /\ UNCHANGED <<disk, hs, txs, log>>
\* A key that exists somewhere (random keys rarely hit).
TxGetHit == /\ On("txget")
            /\ \E t \in Sel(Open) : \E k \in Sel({Cut(txs[t].pre, x) : x \in {y \in DOMAIN TxView(txs[t]) : IsPre(txs[t].pre, y)}}) :
                 Step([op |-> "txget", t |-> t, k |-> k, exp |-> Lookup(TxView(txs[t]), txs[t].pre \o k)])
            /\ UNCHANGED <<disk, hs, txs, log>>
Get == /\ On("get")
       /\ \E h \in Sel(1..Len(hs)), k \in Sel(Strs) :
            Step([op |-> "get", h |-> h, k |-> k, exp |-> Lookup(disk, hs[h] \o k)])
       /\ UNCHANGED <<disk, hs, txs, log>>
Commit == /\ On("commit")
          /\ \E t \in Sel(Open) :
               /\ disk' = Merge(disk, txs[t].w)
               /\ log' = (IF Rec THEN <<>> ELSE Append(log, txs[t].w))
               /\ txs' = [txs EXCEPT ![t].st = "done", ![t].w = Empty]
               /\ Step([op |-> "commit", t |-> t, all |-> All(disk')])
          /\ UNCHANGED hs
Close == /\ On("close")
         /\ \E t \in Sel(Open) :
              /\ txs' = [txs EXCEPT ![t].st = "done", ![t].w = Empty]
              /\ Step([op |-> "close", t |-> t, all |-> All(disk)])
         /\ UNCHANGED <<disk, hs, log>>
\* The writes of one open transaction are added to another one.
Add == /\ On("addtx")
       /\ \E a \in Sel(Open) : \E b \in Sel(Open \ {a}) :
            /\ txs' = [txs EXCEPT ![a].w = Merge(@, txs[b].w)]
            /\ Step([op |-> "addtx", a |-> a, b |-> b, all |-> All(disk)])
       /\ UNCHANGED <<disk, hs, log>>
Iterate == /\ On("iter")
           /\ \E h \in Sel(1..Len(hs)), n \in Sel(1..4), how \in Sel({"all", "stop", "err", "list"}) :
                LET v == View(disk, hs[h]) IN
                Step([op |-> "iter", h |-> h, n |-> n, how |-> how,
                      exp |-> IF how = "all" \/ n > Len(v) THEN v ELSE SubSeq(v, 1, n)])
           /\ UNCHANGED <<disk, hs, txs, log>>
Info == /\ On("info") /\ \E h \in Sel(1..Len(hs)) : Step([op |-> "info", h |-> h])
        /\ UNCHANGED <<disk, hs, txs, log>>
\* Everything in memory is lost; committed data stays.
Reopen == /\ On("reopen")
          /\ txs' = [i \in 1..Len(txs) |-> [txs[i] EXCEPT !.st = "done", !.w = Empty]]
          /\ Step([op |-> "reopen", all |-> All(disk)])
          /\ UNCHANGED <<disk, hs, log>>

Next == WithPrefix \/ NewTx \/ Put \/ TxGet \/ TxGetHit \/ Get \/ Commit \/ Close \/ Add \/ Iterate \/ Info \/ Reopen \/ Skip \/ Fin
Spec == Init /\ [][Next]_vars

\* The committed contents are exactly the committed write sets, in order.
OnlyCommitted == disk = FoldLeft(LAMBDA d, w : Merge(d, w), Empty, log)
\* Handles neither of which extends the other share no key.
Isolated == \A i, j \in 1..Len(hs) :
              (~IsPre(hs[i], hs[j]) /\ ~IsPre(hs[j], hs[i])) =>
                {k \in DOMAIN disk : IsPre(hs[i], k)} \cap {k \in DOMAIN disk : IsPre(hs[j], k)} = {}
\* A transaction only writes below its prefix, unless another one was added to it.
Confined == "addtx" \notin Ops => \A i \in 1..Len(txs) : \A k \in DOMAIN txs[i].w : IsPre(txs[i].pre, k)
Sorted == \A i \in 1..Len(hs) : LET v == View(disk, hs[i]) IN \A n \in 1..(Len(v) - 1) : Less(v[n].k, v[n + 1].k)
\* A commit publishes everything at once and nothing else changes the disk.
AtomicCommit == [][disk' = disk \/ \E t \in Open : disk' = Merge(disk, txs[t].w)]_vars

Emit == (Rec /\ nxt = "done") => PrintT(ToJson(out))
=============================================================================
