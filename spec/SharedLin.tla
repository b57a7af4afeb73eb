------------------------------ MODULE SharedLin ------------------------------
(* Histories of several goroutines using one of the smaller shared parts,     *)
(* recorded from the real code and decided against the part as an abstract    *)
(* object, each operation taking effect at one instant between its call and   *)
(* its return (as in TreeLin):                                                *)
(*   kv      the storage: batches appear at once, listings are one instant    *)
(*   cache   the published states (server with its ring, or local): a reader  *)
(*           is given the whole of one of the last states published           *)
(*   nonces  a nonce is consumed at most once, its data is set at most once   *)
(*   keys    key store: what is stored, what is unlocked, until it is closed  *)
(*   chain   the local chain: submissions, their outcome, the states          *)
EXTENDS Naturals, Sequences, FiniteSets, Json, IOUtils, TLC

H == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES h,     \* history being decided
          done,  \* its operations that have taken effect
          st     \* state of the object

Set(s) == {s[i] : i \in 1 .. Len(s)}
Ops == H[h].ops

(* The operation may be the next to take effect: nothing not yet in effect    *)
(* had returned when it was called.                                           *)
Enabled(k) == /\ k \notin done
              /\ \A m \in DOMAIN Ops \ done : Ops[m].ret > Ops[k].call

(* -- storage -- *)
KvInit == {}
KvAnswers(o, s) ==
  CASE o.op = "commit" -> o.res = "ok"
    [] o.op = "get"    -> o.val = IF \E e \in s : e[1] = o.pre /\ e[2] = o.k
                                  THEN (CHOOSE e \in s : e[1] = o.pre /\ e[2] = o.k)[3] ELSE 0
    [] o.op = "list"   -> Set(o.set) = {<<e[2], e[3]>> : e \in {x \in s : x[1] = o.pre}}
KvAfter(o, s) ==
  IF o.op # "commit" THEN s
  ELSE {e \in s : e[1] # o.pre \/ e[2] \notin {b[1] : b \in Set(o.batch)}} \cup {<<o.pre, b[1], b[2]>> : b \in Set(o.batch)}

(* -- published states -- *)
CacheInit == <<>>
Of(s, id) == SelectSeq(s, LAMBDA e : e[1] = id)
Served(s, id, cap) == LET q == Of(s, id) IN {q[i][2] : i \in {j \in DOMAIN q : j + cap > Len(q)}}
LastOf(s, id) == LET q == Of(s, id) IN IF q = <<>> THEN 0 ELSE q[Len(q)][2]
CacheAnswers(o, s) ==
  CASE o.op = "publish" -> o.res = "ok"
    [] o.op = "latest"  -> o.val = LastOf(s, o.id)
    [] o.op = "fetch"   -> o.val = IF o.p \in Served(s, o.id, H[h].cap) THEN o.p ELSE 0
(* Publishing the latest state again takes no other's place.                  *)
CacheAfter(o, s) == IF o.op = "publish" /\ LastOf(s, o.id) # o.p THEN Append(s, <<o.id, o.p>>) ELSE s

(* -- nonces -- *)
NonceInit == {}
Its(o, s) == {e \in s : e.n = o.n}
Found(o, s) == LET m == Its(o, s) IN
               IF m = {} THEN 99 ELSE LET e == CHOOSE e \in m : TRUE IN IF e.dead THEN 99 ELSE e.aux
NonceAnswers(o, s) ==
  CASE o.op = "add"    -> o.res = IF Its(o, s) = {} THEN "ok" ELSE "dup"
    [] o.op \in {"search", "take"} -> o.val = Found(o, s)
    [] o.op = "aux"    -> o.res = IF \E e \in Its(o, s) : e.aux = 0 THEN "ok" ELSE "no"
    [] o.op = "clean"  -> o.res = "ok"
NonceAfter(o, s) ==
  CASE o.op = "add" /\ o.res = "ok" -> s \cup {[n |-> o.n, aux |-> o.aux, dead |-> o.dead]}
    [] o.op = "take"                -> s \ Its(o, s)
    [] o.op = "aux" /\ o.res = "ok" -> (s \ Its(o, s)) \cup {[e EXCEPT !.aux = o.aux] : e \in Its(o, s)}
    [] o.op = "clean"               -> {e \in s : ~e.dead}
    [] OTHER                        -> s

(* -- keys -- *)
KeysInit == [keys |-> {}, closed |-> FALSE]      \* keys: <<key, passphrase, unlocked>>
Key(o, s) == {e \in s.keys : e[1] = o.k}
KeysAnswers(o, s) ==
  CASE o.op = "import" -> o.res = IF s.closed THEN "closed" ELSE "ok"
    [] o.op = "unlock" -> o.res = IF s.closed THEN "closed" ELSE IF Key(o, s) = {} THEN "absent"
                                  ELSE IF \E e \in Key(o, s) : e[2] = o.p THEN "ok" ELSE "wrong"
    [] o.op \in {"sign", "export"} -> o.res = IF \E e \in Key(o, s) : e[3] THEN "ok" ELSE "locked"
    [] o.op = "keys"   -> Set(o.set) = {e[1] : e \in s.keys}
    [] o.op = "stored" -> Set(o.set) = {<<e[1], e[2]>> : e \in s.keys}     \* what a reopened store holds
    [] o.op = "close"  -> o.res = "ok"
KeysAfter(o, s) ==
  CASE o.op = "import" /\ o.res = "ok" ->
         [s EXCEPT !.keys = {e \in @ : e[1] # o.k} \cup {<<o.k, o.p, \E e \in Key(o, s) : e[3]>>}]
    [] o.op = "unlock" /\ o.res = "ok" -> [s EXCEPT !.keys = {e \in @ : e[1] # o.k} \cup {<<o.k, o.p, TRUE>>}]
    [] o.op = "close" -> [keys |-> {<<e[1], e[2], FALSE>> : e \in s.keys}, closed |-> TRUE]
    [] OTHER -> s

(* -- chain -- *)
ChainInit == [hist |-> <<<<>>, <<>>>>, pi |-> <<>>, ps |-> <<>>, run |-> {}]
Top(q) == q[Len(q)]
ChainAnswers(o, s) ==
  CASE o.op = "init"    -> o.res = IF s.hist[o.id] # <<>> THEN "exists" ELSE IF o.good THEN "ok" ELSE "proof"
    [] o.op = "set"     -> o.res = IF s.hist[o.id] = <<>> THEN "absent" ELSE IF Top(s.hist[o.id]) = o.old THEN "ok" ELSE "proof"
    [] o.op = "sync"    -> o.res = "ok"
    [] o.op = "get"     -> o.val = IF s.hist[o.id] = <<>> THEN 0 ELSE Top(s.hist[o.id])
    [] o.op = "confirm" -> o.res = IF \E r \in s.run : r[1] = o.new THEN (CHOOSE r \in s.run : r[1] = o.new)[2] ELSE "none"
RECURSIVE Inits(_, _), Sets(_, _)
Inits(q, s) == IF q = <<>> THEN s
               ELSE LET x == Head(q) ok == s.hist[x[1]] = <<>> IN
                    Inits(Tail(q), [s EXCEPT !.hist[x[1]] = IF ok THEN <<x[2]>> ELSE @, !.run = @ \cup {<<x[2], IF ok THEN "ok" ELSE "failed">>}])
Sets(q, s) == IF q = <<>> THEN s
              ELSE LET x == Head(q) ok == Top(s.hist[x[1]]) = x[3] IN
                   Sets(Tail(q), [s EXCEPT !.hist[x[1]] = IF ok THEN Append(@, x[2]) ELSE @, !.run = @ \cup {<<x[2], IF ok THEN "ok" ELSE "failed">>}])
ChainAfter(o, s) ==
  CASE o.op = "init" /\ o.res = "ok" -> [s EXCEPT !.pi = Append(@, <<o.id, o.new>>)]
    [] o.op = "set" /\ o.res = "ok"  -> [s EXCEPT !.ps = Append(@, <<o.id, o.new, o.old>>)]
    [] o.op = "sync" -> [Sets(s.ps, Inits(s.pi, s)) EXCEPT !.pi = <<>>, !.ps = <<>>]
    [] OTHER -> s

------------------------------------------------------------------------------
Start(i) == IF i > Len(H) THEN 0 ELSE
  CASE H[i].obj = "kv" -> KvInit [] H[i].obj = "cache" -> CacheInit [] H[i].obj = "nonces" -> NonceInit
    [] H[i].obj = "keys" -> KeysInit [] H[i].obj = "chain" -> ChainInit
Answers(o) ==
  CASE H[h].obj = "kv" -> KvAnswers(o, st) [] H[h].obj = "cache" -> CacheAnswers(o, st) [] H[h].obj = "nonces" -> NonceAnswers(o, st)
    [] H[h].obj = "keys" -> KeysAnswers(o, st) [] H[h].obj = "chain" -> ChainAnswers(o, st)
After(o) ==
  CASE H[h].obj = "kv" -> KvAfter(o, st) [] H[h].obj = "cache" -> CacheAfter(o, st) [] H[h].obj = "nonces" -> NonceAfter(o, st)
    [] H[h].obj = "keys" -> KeysAfter(o, st) [] H[h].obj = "chain" -> ChainAfter(o, st)

TInit == h = 1 /\ done = {} /\ st = Start(1)

(* A reader that agrees with the state of now can always take effect now.     *)
Reader(o) == o.op \in {"get", "list", "latest", "fetch", "search", "sign", "export", "keys", "stored", "confirm"}
Ready == {k \in DOMAIN Ops : Enabled(k) /\ Answers(Ops[k])}
Lin == LET r == {k \in Ready : Reader(Ops[k])} IN
       IF r # {} THEN /\ done' = done \cup {CHOOSE k \in r : TRUE}
                      /\ UNCHANGED <<h, st>>
       ELSE \E k \in Ready : /\ done' = done \cup {k}
                             /\ st' = After(Ops[k])
                             /\ UNCHANGED h

NextHistory == /\ done = DOMAIN Ops
               /\ PrintT(<<"accepted", h>>)
               /\ h' = h + 1 /\ done' = {} /\ st' = Start(h + 1)

TNext == h <= Len(H) /\ (Lin \/ NextHistory)
NotAccepted == h <= Len(H)
=============================================================================
