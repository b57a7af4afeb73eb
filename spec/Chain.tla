--------------------------------- MODULE Chain ---------------------------------
(***************************************************************************)
(* The contract of the identity states behind a node, and its client:      *)
(* components/idenpubonchain, eth/client.go and, with P.local, the         *)
(* in-memory chain for development.  Property C23.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

P == JsonDeserialize(IOEnv.PARAMS)
Ops    == {P.ops[i] : i \in 1..Len(P.ops)}
Depth  == P.depth
Rec    == P.rec
Local  == P.local
Ids    == 1..P.ids
States == 1..P.states
Cts    == 1..P.cts                \* contracts: the client of one never sees the others
Ctx    == Cts \X Ids

VARIABLES blk,                    \* number of the last block
          ts,                     \* ts[b+1]: time of block b
          hist,                   \* per contract and identity: what was recorded, oldest first
          txs,                    \* every transaction the node took
          out, nxt
vars == <<blk, ts, hist, txs, out, nxt>>
Init == /\ blk = 0 /\ ts = <<0>> /\ hist = [x \in Ctx |-> <<>>] /\ txs = <<>>
        /\ out = <<>> /\ nxt = IF P.draw THEN P.ops[1] ELSE "any"
Draw == nxt' = IF P.draw THEN P.ops[RandomElement(1..Len(P.ops))] ELSE nxt
Step(s) == out' = (IF Rec THEN Append(out, s) ELSE out) /\ Draw
More == ~Rec \/ Len(out) < Depth
On(o) == o \in Ops /\ More /\ nxt \in {o, "any"}
Sel(S) == IF P.draw /\ S # {} THEN {RandomElement(S)} ELSE S
Fin == Rec /\ Len(out) = Depth /\ nxt # "done" /\ nxt' = "done" /\ UNCHANGED <<blk, ts, hist, txs, out>>
Skip == P.draw /\ More /\ Draw /\ UNCHANGED <<blk, ts, hist, txs, out>>
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
Pool == {i \in 1..Len(txs) : txs[i].st = "pool"}

(******************************* the contract *******************************)
Cur(h, x) == h[x][Len(h[x])].s
\* What a transaction does to the records h when it runs in block b.
Accepts(h, t, b) ==
    LET x == <<t.ct, t.id>> IN
    IF t.kind = "init" THEN Len(h[x]) = 0 /\ t.pf = <<t.id, t.old, t.new>>
    ELSE Len(h[x]) > 0 /\ h[x][Len(h[x])].b # b /\ t.pf = <<t.id, Cur(h, x), t.new>>
Apply(h, t, b, time) == [h EXCEPT ![<<t.ct, t.id>>] = Append(@, [b |-> b, ts |-> time, s |-> t.new])]
RECURSIVE Run(_, _, _, _, _)
Run(h, l, i, b, time) ==          \* the transactions from the i-th on
    IF i > Len(l) THEN [h |-> h, l |-> l]
    ELSE IF l[i].st # "pool" THEN Run(h, l, i + 1, b, time)
    ELSE LET ok == Accepts(h, l[i], b)
         IN Run(IF ok THEN Apply(h, l[i], b, time) ELSE h, [l EXCEPT ![i].st = IF ok THEN "ok" ELSE "failed", ![i].b = b], i + 1, b, time)

Mine == /\ On("mine")
        \* the time can be moved for an empty block only
        /\ \E gap \in (IF Pool = {} /\ P.draw THEN Sel({0, 0, 3, 1000}) ELSE {0}) :
             LET time == ts[blk + 1] + 10 + gap
                 r == Run(hist, txs, 1, blk + 1, time)
             IN /\ blk' = blk + 1 /\ ts' = Append(ts, time) /\ hist' = r.h /\ txs' = r.l
                /\ Step([op |-> "mine", gap |-> gap, blk |-> blk + 1, ts |-> time,
                         st |-> [i \in 1..Len(txs) |-> r.l[i].st], hist |-> [c \in Cts |-> [i \in Ids |-> r.h[<<c, i>>]]]])
\* The node forgets the transactions not yet in a block.
Drop == /\ On("drop") /\ Pool # {} /\ ~Local
        /\ txs' = [i \in 1..Len(txs) |-> IF i \in Pool THEN [txs[i] EXCEPT !.st = "gone"] ELSE txs[i]]
        /\ Step([op |-> "drop"]) /\ UNCHANGED <<blk, ts, hist>>

(******************************** submissions *******************************)
Faults == IF Local THEN {"none"} ELSE {"none", "none", "gas", "nonce", "before", "after", "nobody"}
Submit == /\ On("submit") /\ Len(txs) < P.maxTx
          /\ \E x \in Sel(Ctx), n \in Sel(States), g \in Sel(States), odd \in Sel(1..(IF P.draw THEN 7 ELSE 2)),
                pf \in Sel({"good", "chained", "id", "old", "new", "altered"}), f \in (IF P.draw THEN {RandomElement({1, 2, 3, 4})} ELSE {1}),
                f2 \in Sel(Faults), hw \in Sel({"500", "close", "cut", "rpcerr", "html"}) :
               LET known == Len(hist[x]) > 0
                   mine == {i \in Pool : <<txs[i].ct, txs[i].id>> = x}
                   kind == IF odd = 1 THEN IF known THEN "init" ELSE "set" ELSE IF known THEN "set" ELSE "init"
                   cur == IF kind = "init" \/ ~known THEN g ELSE Cur(hist, x)
                   pfor == CASE odd > 3 /\ pf \in {"id", "old", "new", "altered"} -> <<x[2], cur, n>>
                             [] pf = "good" -> <<x[2], cur, n>>
                             [] pf = "chained" -> <<x[2], IF mine = {} THEN cur ELSE txs[MaxOf(mine)].new, n>>
                             [] pf = "id" -> <<(x[2] % P.ids) + 1, cur, n>>
                             [] pf = "old" -> <<x[2], (cur % P.states) + 1, n>>
                             [] pf = "new" -> <<x[2], cur, (n % P.states) + 1>>
                             [] pf = "altered" -> <<>>
                   fault == IF f = 1 /\ P.draw THEN f2 ELSE "none"
                   t == [ct |-> x[1], kind |-> kind, id |-> x[2], old |-> IF kind = "init" THEN g ELSE 0, new |-> n, pf |-> pfor, st |-> "pool", b |-> 0]
                   now == IF kind = "init" THEN ~known /\ pfor = <<x[2], g, n>> ELSE known /\ pfor = <<x[2], Cur(hist, x), n>>
                   takes == IF Local THEN now ELSE fault \in {"none", "after"}
               IN /\ (Local => \A i \in mine : known => txs[i].new # Cur(hist, x)) = TRUE
                  /\ txs' = (IF takes THEN Append(txs, t) ELSE txs)
                  /\ Step([op |-> "submit", ct |-> x[1], kind |-> kind, id |-> x[2], old |-> t.old, new |-> n, pf |-> pfor, was |-> cur,
                           fault |-> fault, how |-> hw, takes |-> takes, ok |-> takes /\ fault = "none"])
          /\ UNCHANGED <<blk, ts, hist>>

(********************************** queries *********************************)
\* The last record at or before q by the given measure.
Closest(l, q, time) == LET S == {i \in 1..Len(l) : (IF time THEN l[i].ts ELSE l[i].b) <= q} IN IF S = {} THEN 0 ELSE MaxOf(S)
None == [b |-> 0, ts |-> 0, s |-> 0]
Answer(k, l, q) ==
    IF k = "id" THEN IF l = <<>> THEN [r |-> "absent", rec |-> None] ELSE [r |-> "hit", rec |-> l[Len(l)]]
    ELSE LET time == k \in {"time", "ctime"}
             i == Closest(l, q, time)
         IN IF ~Local /\ (IF time THEN q >= ts[blk + 1] ELSE q >= blk) THEN [r |-> "future", rec |-> None]
            ELSE IF l = <<>> THEN [r |-> "absent", rec |-> None]
            ELSE IF i = 0 THEN [r |-> "before", rec |-> None]
            ELSE IF k \in {"block", "time"} /\ (IF time THEN l[i].ts ELSE l[i].b) # q THEN [r |-> "other", rec |-> None]
            ELSE [r |-> "hit", rec |-> l[i]]
Query == /\ On("query")
         /\ \E x \in Sel(Ctx), k \in Sel(IF Local THEN {"id", "block", "time"} ELSE {"id", "block", "time", "cblock", "ctime"}),
               j \in Sel(1..6), near \in Sel(0..(blk + 1)), d \in Sel({-1, 0, 0, 1}), f \in (IF P.draw /\ ~Local THEN {RandomElement(1..5)} ELSE {2}),
               hw \in Sel({"500", "close", "cut", "rpcerr", "html", "null", "empty", "short"}) :
              LET l == hist[x]
                  \* mostly near a record
                  b0 == IF j < 4 /\ l # <<>> THEN l[((near + j) % Len(l)) + 1].b + (IF j = 1 THEN d ELSE 0) ELSE near
                  b == IF b0 < 0 THEN 0 ELSE b0
                  q == IF k \in {"time", "ctime"} THEN (IF b > blk THEN ts[blk + 1] + 10 ELSE ts[b + 1]) + (IF j = 2 /\ b > 0 THEN d ELSE 0) ELSE b
                  a == Answer(k, l, q)
              IN Step([op |-> "query", ct |-> x[1], id |-> x[2], k |-> k, q |-> q, r |-> a.r, rec |-> a.rec, fault |-> IF f = 1 THEN hw ELSE "none"])
         /\ UNCHANGED <<blk, ts, hist, txs>>
\* How many blocks confirm the i-th transaction.
Confirm == /\ On("confirm") /\ txs # <<>>
           /\ \E i \in Sel(1..Len(txs)), f \in (IF P.draw /\ ~Local THEN {RandomElement(1..5)} ELSE {2}), m \in Sel({"receipt", "receipt", "header", "unmined"}),
                 hw \in Sel({"500", "close", "cut", "rpcerr", "html", "null"}), wait \in (IF Local THEN {FALSE} ELSE Sel(BOOLEAN)) :
                Step([op |-> "confirm", i |-> i, st |-> txs[i].st, n |-> IF txs[i].st = "ok" THEN blk - txs[i].b ELSE -1, b |-> txs[i].b, at |-> blk,
                      wait |-> wait /\ txs[i].st \in {"ok", "failed"}, fault |-> IF f = 1 THEN m ELSE "none", how |-> hw])
           /\ UNCHANGED <<blk, ts, hist, txs>>
\* Where the chain is, and what a stranger's transaction is worth.
Misc == /\ On("misc") /\ ~Local
        /\ \E f \in (IF P.draw THEN {RandomElement(1..4)} ELSE {2}), hw \in Sel({"500", "close", "cut", "rpcerr", "html", "null"}), k \in Sel({"block", "balance", "unknown", "nobody"}) :
             Step([op |-> "misc", k |-> k, blk |-> blk, fault |-> IF f = 1 THEN hw ELSE "none", how |-> hw])
        /\ UNCHANGED <<blk, ts, hist, txs>>
Next == Mine \/ Drop \/ Submit \/ Query \/ Confirm \/ Misc \/ Skip \/ Fin
Spec == Init /\ [][Next]_vars
Bound == blk <= P.maxB

\* A record is there because one transaction with the matching proof is in that block.
Caused == \A x \in Ctx, i \in 1..(P.maxB + 1) : i <= Len(hist[x]) =>
    Cardinality({j \in 1..Len(txs) : txs[j].st = "ok" /\ <<txs[j].ct, txs[j].id>> = x /\ txs[j].b = hist[x][i].b
                   /\ txs[j].pf = <<x[2], IF i = 1 THEN txs[j].old ELSE hist[x][i - 1].s, hist[x][i].s>>}) = 1
\* One record per block and identity, in the order of blocks and times.
Ordered == \A x \in Ctx : \A i, j \in 1..Len(hist[x]) : i < j => hist[x][i].b < hist[x][j].b /\ hist[x][i].ts < hist[x][j].ts
NoZero == \A x \in Ctx : \A i \in 1..Len(hist[x]) : hist[x][i].s # 0
\* A query's answer is a record of that identity at what was asked.
QueryRight == \A x \in Ctx : \A q \in 0..P.maxB : LET a == Answer("block", hist[x], q) IN
    /\ a.r = "hit" => a.rec.b = q /\ \E i \in 1..Len(hist[x]) : hist[x][i] = a.rec
    /\ (q < blk /\ \E i \in 1..Len(hist[x]) : hist[x][i].b = q) => a.r = "hit"
\* Records are never changed or removed.
Kept == [][\A x \in Ctx : Len(hist'[x]) >= Len(hist[x]) /\ SubSeq(hist'[x], 1, Len(hist[x])) = hist[x]]_vars
\* What is confirmed stays confirmed.
Settled == [][\A i \in 1..Len(txs) : txs[i].st # "pool" => txs'[i] = txs[i]]_vars

Emit == (Rec /\ nxt = "done") => PrintT(ToJson(out))
=============================================================================
