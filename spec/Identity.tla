------------------------------ MODULE Identity ------------------------------
(***************************************************************************)
(* The life of identities: creation, issuing and revoking claims, the      *)
(* publication of identity states on the chain and of public data off the  *)
(* chain, credentials of existence and validity, their verification and    *)
(* forgery, zero-knowledge credentials, faults, crashes and restarts.      *)
(* Properties C11, C12, C13, C14, C15, C16, C25, C26.                      *)
(*                                                                         *)
(* The three trees of an identity only grow, so a state of the identity i  *)
(* is <<n, m, k>>: the first n claims, the first m revoked nonces and the  *)
(* first k claims roots.  Hashes are ideal: two states are equal when the  *)
(* sets are.                                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, Randomization, TLC, Json, IOUtils

P == JsonDeserialize(IOEnv.PARAMS)
I    == 1..P.issuers
NC   == P.contents              \* contents of claims are 1..NC; 100+i is the key of i
Conf == P.confirm               \* blocks to wait for
Rec  == P.rec
Exp(c) == IF c > 100 THEN 0 ELSE P.exp[((c - 1) % Len(P.exp)) + 1]   \* expiration in seconds, 0: none
Zero == <<>>                    \* no state
NoOn == [st |-> Zero, blk |-> 0, ts |-> 0]
Ops  == P.ops

VARIABLES iss,    \* per identity: what it stores (disk) and whether it runs
          chain,  \* per identity: the states the contract recorded, in order
          txs,    \* all transactions ever sent
          pub,    \* per identity: the states whose public data is published
          blk,    \* number of the last block
          now,    \* time, in half seconds
          creds,  \* credentials of existence handed out
          vals,   \* credentials of validity made from them
          zks,    \* zero-knowledge credentials made from them
          left,   \* faults that may still happen
          todo,   \* a script being followed: [i, ops]
          out, nxt
vars == <<iss, chain, txs, pub, blk, now, creds, vals, zks, left, todo, out, nxt>>
world == <<chain, txs, pub, blk, now>>
given == <<creds, vals, zks>>

Blank == [up |-> FALSE, made |-> FALSE, only |-> FALSE, cl |-> <<>>, rv |-> <<>>, rt |-> <<>>, next |-> 0,
          list |-> <<>>, on |-> NoOn, pend |-> Zero, sent |-> FALSE, tx |-> 0]
Cur(m) == <<Len(m.cl), Len(m.rv), Len(m.rt)>>
Claims(i, n) == {iss[i].cl[x] : x \in 1..n}
Revs(i, n) == {iss[i].rv[x] : x \in 1..n}
Roots(i, n) == {Claims(i, iss[i].rt[x]) : x \in 1..n}
Find(s, T(_)) == IF \E x \in 1..Len(s) : T(s[x]) THEN CHOOSE x \in 1..Len(s) : T(s[x]) ELSE 0
IdxOf(m, c) == Find(m.cl, LAMBDA e : e.c = c)
LastOn(i) == IF chain[i] = <<>> THEN NoOn ELSE chain[i][Len(chain[i])]

Init == /\ iss = [i \in I |-> Blank] /\ chain = [i \in I |-> <<>>] /\ pub = [i \in I |-> {}]
        /\ txs = <<>> /\ blk = 1 /\ now = P.start /\ creds = <<>> /\ vals = <<>> /\ zks = <<>>
        /\ left = P.faults /\ todo = [i |-> 0, ops |-> <<>>]
        /\ out = <<>> /\ nxt = IF P.draw THEN P.ops[1] ELSE "any"

(***************************** recording ***********************************)
More == ~Rec \/ Len(out) < P.depth
Active == todo.i # 0
DrawOp == IF P.draw THEN P.ops[RandomElement(1..Len(P.ops))] ELSE nxt
Draw == /\ nxt' = (IF Len(todo.ops) > 0 THEN Head(todo.ops) ELSE DrawOp)
        /\ todo' = (IF Len(todo.ops) > 0 THEN [todo EXCEPT !.ops = Tail(@)] ELSE [i |-> 0, ops |-> <<>>])
Who(S) == IF Active THEN {todo.i} \cap S ELSE S
Has(o) == \E x \in 1..Len(Ops) : Ops[x] = o
On(o) == (Has(o) \/ Active) /\ More /\ nxt \in {o, "any"}
\* a simulation takes steps without effect only now and then
Rarely(n) == P.draw /\ RandomElement(1..n) = 1
Sel(S) == IF P.draw /\ S # {} THEN {RandomElement(S)} ELSE S
ObsOf(i, m, up) == [i |-> i, up |-> up, cur |-> Cur(m), on |-> m.on, pend |-> m.pend, sent |-> m.sent, next |-> m.next, len |-> Len(m.list)]
Obs(i) == ObsOf(i, iss'[i], iss'[i].up)
Out(s) == out' = (IF Rec THEN Append(out, s) ELSE out) /\ Draw
Say(i, s) == Out([obs |-> Obs(i)] @@ s)

(************************ operations and faults ****************************)
\* An operation is a sequence of small steps [k: kind, m, t, p]: the identity,
\* the transactions and the public data after it.  A fault hits the nth small
\* step of a kind: "fail" before it, "late" after it, and the operation
\* returns an error; "before" and "after" end the process instead.
NoFault == [k |-> "", n |-> 0, how |-> ""]
Nth(steps, k, n) == LET xs == SelectSeq([x \in 1..Len(steps) |-> x], LAMBDA x : steps[x].k = k)
                    IN IF n <= Len(xs) THEN xs[n] ELSE 0
FaultsOf(steps) == {[k |-> k, n |-> n, how |-> h] : k \in {"commit"}, n \in 1..4, h \in {"fail", "before", "after"}}
                   \cup {[k |-> "submit", n |-> 1, how |-> h] : h \in {"fail", "late", "before", "after"}}
                   \cup {[k |-> k, n |-> 1, how |-> "fail"] : k \in {"zk", "off", "getstate", "receipt"}}
\* A read that fails anywhere in an operation leaves what was there before it
\* (in a simulation only; how names the kind of read).
ReadFault(n) == {[k |-> "read", n |-> IF h = "newtx" THEN (IF n > 3 THEN 2 ELSE 1) ELSE n, how |-> h] : h \in Sel({"get", "txget", "newtx"})}
Possible(steps) == {f \in FaultsOf(steps) : Nth(steps, f.k, f.n) > 0}
                   \cup (IF P.draw /\ steps # <<>> THEN ReadFault(RandomElement(1..2) * RandomElement(1..4)) ELSE {})
Faults(steps) == IF left = 0 \/ Active THEN {NoFault}
                 ELSE IF P.draw THEN (IF Possible(steps) # {} /\ RandomElement(1..(IF Len(steps) > 2 THEN 1 + P.faultEvery \div 4 ELSE P.faultEvery)) = 1 THEN {RandomElement(Possible(steps))} ELSE {NoFault})
                 ELSE {NoFault} \cup Possible(steps)
\* What remains after the fault f in steps that started from w.
After(steps, w, f) ==
  IF f.k = "" THEN (IF steps = <<>> THEN w ELSE steps[Len(steps)])
  ELSE LET p == Nth(steps, f.k, f.n)
           q == IF f.how \in {"fail", "before"} THEN p - 1 ELSE p
       IN IF q = 0 THEN w ELSE steps[q]
Crash(f) == f.how \in {"before", "after"}
\* All that a fault anywhere in the operation could leave.
Alts(i, steps, f) == IF f.k = "" THEN <<>> ELSE <<ObsOf(i, iss[i], FALSE)>> \o [x \in 1..Len(steps) |-> ObsOf(i, steps[x].m, FALSE)]
W0(i) == [k |-> "", m |-> iss[i], t |-> txs, p |-> pub[i]]
Apply(i, steps, f) == LET w == After(steps, W0(i), f) IN
                      /\ iss' = [iss EXCEPT ![i] = IF Crash(f) THEN [w.m EXCEPT !.up = FALSE] ELSE w.m]
                      /\ txs' = w.t /\ pub' = [pub EXCEPT ![i] = w.p]
                      /\ left' = IF f.k = "" THEN left ELSE left - 1
Ret(f, ok) == IF f.k = "" THEN ok ELSE IF Crash(f) THEN "crash" ELSE "error"
Commit(w, m) == [w EXCEPT !.k = "commit", !.m = m]
Mark(w, k) == [w EXCEPT !.k = k]
LastStep(s, w) == IF s = <<>> THEN w ELSE s[Len(s)]

\* Creation is one atomic write.
CreateSteps(i, only, gen) ==
  LET m == [Blank EXCEPT !.made = TRUE, !.only = only,
                         !.cl = <<[c |-> 100 + i, n |-> 0]>> \o [x \in 1..Len(gen) |-> [c |-> gen[x], n |-> x]],
                         !.rt = <<1 + Len(gen)>>, !.next = 1 + Len(gen), !.list = <<<<1 + Len(gen), 0, 1>>>>]
  IN <<Commit(W0(i), m)>>
Gens == IF P.draw THEN {SetToSeq(RandomSubset(RandomElement(0..P.maxGen), 1..NC))} ELSE {<<>>, <<1>>}
Create == /\ On("create")
          /\ \E i \in Sel(I) : \E only \in (IF P.only THEN Sel(BOOLEAN) ELSE {FALSE}) : \E gen \in Gens :
               LET ok == ~iss[i].made
                   steps == IF ok THEN CreateSteps(i, only, gen) ELSE <<>>
               IN /\ (ok \/ Rarely(6))
                  /\ \E f \in Faults(steps) :
                       /\ Apply(i, steps, f)
                       /\ Say(i, [op |-> "create", only |-> only, gen |-> gen, exps |-> [x \in 1..Len(gen) |-> Exp(gen[x])], fault |-> f, alts |-> Alts(i, steps, f), ret |-> Ret(f, IF ok THEN "ok" ELSE "exists")])
          /\ UNCHANGED <<chain, blk, now, given>>

\* Issuing takes a nonce and then adds the claim; a refused claim costs its nonce.
IssueSteps(i, c) ==
  LET m == iss[i]
      m1 == [m EXCEPT !.next = @ + 1]
      s1 == Commit(W0(i), m1)
  IN IF IdxOf(m, c) > 0 THEN <<s1>>
     ELSE <<s1, Commit(s1, [m1 EXCEPT !.cl = Append(@, [c |-> c, n |-> m.next])])>>
Issue == /\ On("issue")
         /\ \E i \in Sel({i \in I : iss[i].up}) : \E c \in Sel(1..NC) :
              LET m == iss[i] dup == IdxOf(m, c) > 0
                  steps == IF m.only THEN <<>> ELSE IssueSteps(i, c)
              IN /\ (P.draw \/ Len(m.cl) < P.maxClaims)
                 /\ (P.draw \/ ~dup \/ m.next < P.maxNonce)
                 /\ \E f \in Faults(steps) :
                      /\ Apply(i, steps, f)
                      /\ Say(i, [op |-> "issue", c |-> c, exp |-> Exp(c), n |-> m.next, fault |-> f, alts |-> Alts(i, steps, f),
                                 ret |-> IF m.only THEN "only" ELSE Ret(f, IF dup THEN "dup" ELSE "ok")])
         /\ UNCHANGED <<chain, blk, now, given>>

RevokeSteps(i, n) == <<Commit(W0(i), [iss[i] EXCEPT !.rv = Append(@, n)])>>
Revoke == /\ On("revoke")
          /\ \E i \in Sel({i \in I : iss[i].up}) : \E c \in Sel(1..NC \cup {100 + i}) :
               LET m == iss[i] x == IdxOf(m, c)
                   known == x > 0
                   done == known /\ m.cl[x].n \in Revs(i, Len(m.rv))
                   steps == IF m.only \/ ~known \/ done THEN <<>> ELSE RevokeSteps(i, m.cl[x].n)
               IN /\ (P.draw \/ (known /\ ~done /\ Len(m.rv) < P.maxRevs))
                  /\ \E f \in Faults(steps) :
                       /\ Apply(i, steps, f)
                       /\ Say(i, [op |-> "revoke", c |-> c, fault |-> f, alts |-> Alts(i, steps, f),
                                  ret |-> IF m.only THEN "only" ELSE IF ~known THEN "unknown" ELSE IF done THEN "dup" ELSE Ret(f, "ok")])
          /\ UNCHANGED <<chain, blk, now, given>>

\* Publishing: record the new state as pending, prove the transition, publish
\* the public data, send the transaction, record that it was sent.
PubTail(i, w, old, new) ==
  LET m == w.m
      z == Mark(w, "zk")
      o == [Mark(z, "off") EXCEPT !.p = @ \cup {new}]
      t == [i |-> i, init |-> m.on.st = Zero, old |-> old, new |-> new, blk |-> 0, ok |-> TRUE]
      s == [Mark(o, "submit") EXCEPT !.t = Append(@, t)]
  IN <<z, o, s, Commit(s, [m EXCEPT !.sent = TRUE, !.tx = Len(s.t)])>>
PublishSteps(i) ==
  LET m == iss[i] w == W0(i) L == m.list[Len(m.list)] IN
  IF m.pend # Zero /\ m.sent THEN <<>>
  ELSE IF m.pend = Zero THEN
    IF Cur(m) = L THEN <<>>
    ELSE LET addRoot == Len(m.cl) # L[1] /\ ~\E x \in 1..Len(m.rt) : m.rt[x] = Len(m.cl)
             m1 == IF addRoot THEN [m EXCEPT !.rt = Append(@, Len(m.cl))] ELSE m
             m2 == [m1 EXCEPT !.list = Append(@, Cur(m1)), !.pend = Cur(m1), !.sent = FALSE]
             s1 == IF addRoot THEN <<Commit(w, m1)>> ELSE <<>>
             s2 == s1 \o <<Commit(w, m2)>>
         IN s2 \o PubTail(i, s2[Len(s2)], L, Cur(m1))
  ELSE PubTail(i, w, m.list[Len(m.list) - 1], m.pend)
Publish == /\ On("publish")
           /\ \E i \in Sel(Who({i \in I : iss[i].up})) :
                LET m == iss[i] steps == IF m.only THEN <<>> ELSE PublishSteps(i) IN
                /\ (steps # <<>> \/ Active \/ Rarely(4))
                /\ \E f \in Faults(steps) :
                     /\ Apply(i, steps, f)
                     /\ Say(i, [op |-> "publish", fault |-> f, alts |-> Alts(i, steps, f),
                                tx |-> IF Len(txs') > Len(txs) THEN txs'[Len(txs')] ELSE [i |-> 0],
                                ret |-> IF m.only THEN "only" ELSE IF m.pend # Zero /\ m.sent THEN "pending" ELSE Ret(f, "ok")])
           /\ UNCHANGED <<chain, blk, now, given>>

\* Learning from the chain.  st is what the contract answers.
SyncSteps(i, st) ==
  LET m == iss[i] w == W0(i)
      t == txs[m.tx]
      rc == IF m.pend # Zero /\ m.sent THEN <<Mark(w, "receipt")>> ELSE <<>>
      wait == m.pend # Zero /\ m.sent /\ (t.blk = 0 \/ (t.ok /\ blk - t.blk < Conf))
      lost == m.pend # Zero /\ m.sent /\ t.blk # 0 /\ ~t.ok
      m1 == IF lost THEN [m EXCEPT !.sent = FALSE] ELSE m
      s1 == IF lost THEN rc \o <<Commit(w, m1)>> ELSE rc
      w1 == LastStep(s1, w)
      s2 == s1 \o <<Mark(w1, "getstate")>>
  IN IF wait THEN rc
     ELSE IF m.pend # Zero /\ st.st = m.pend /\ st.st # m.on.st
          THEN s2 \o <<Commit(w1, [m1 EXCEPT !.pend = Zero, !.sent = FALSE, !.on = st])>>
          ELSE s2
SyncFatal(i, st) ==
  LET m == iss[i] IN
  /\ \E x \in 1..Len(SyncSteps(i, st)) : SyncSteps(i, st)[x].k = "getstate"
  /\ st.st # m.on.st /\ (m.pend = Zero \/ st.st # m.pend)
Rogue == [st |-> <<0, 0, 0>>, blk |-> 1, ts |-> 0]
Sync == /\ On("sync")
        /\ \E i \in Sel(Who({i \in I : iss[i].up})) : \E rogue \in (IF P.draw /\ ~Active THEN {RandomElement(1..12) = 1} ELSE {FALSE}) :
             LET m == iss[i]
                 st == IF rogue THEN Rogue ELSE LastOn(i)
                 steps == IF m.only THEN <<>> ELSE SyncSteps(i, st)
             IN /\ (m.pend # Zero \/ Active \/ Rarely(4))
                /\ \E f \in Faults(steps) :
                     /\ Apply(i, steps, f)
                     /\ Say(i, [op |-> "sync", fault |-> f, alts |-> Alts(i, steps, f), rogue |-> rogue,
                                ret |-> IF m.only THEN "only" ELSE Ret(f, IF SyncFatal(i, st) THEN "fatal" ELSE "ok")])
        /\ UNCHANGED <<chain, blk, now, given>>

\* Stopping and loading.
Stop == /\ On("stop")
        /\ \E i \in Sel({i \in I : iss[i].up}) :
             iss' = [iss EXCEPT ![i].up = FALSE] /\ Say(i, [op |-> "stop", ret |-> "ok"])
        /\ UNCHANGED <<world, given, left>>
\* what: which collaborator is missing
Load == /\ On("load")
        /\ \E i \in Sel(Who({i \in I : ~iss[i].up \/ P.draw})) : \E miss \in (IF P.draw /\ ~Active /\ RandomElement(1..6) = 1 THEN Sel({"chain", "zk", "writer", "zkfiles"}) ELSE {""}) :
             LET m == iss[i]
                 bad == m.made /\ ~m.only /\ miss # ""
                 steps == IF ~m.made \/ m.only \/ bad THEN <<>> ELSE SyncSteps(i, LastOn(i))
             IN /\ (m.made \/ P.draw)
                /\ ((m.up /\ ~Active) => RandomElement(1..4) = 1)
                /\ \E f \in Faults(steps) :
                     LET w == After(steps, W0(i), f)
                         ret == IF ~m.made THEN "none" ELSE IF bad THEN miss ELSE Ret(f, "ok")
                     IN /\ iss' = [iss EXCEPT ![i] = [w.m EXCEPT !.up = ret = "ok"]]
                        /\ txs' = w.t /\ pub' = [pub EXCEPT ![i] = w.p] /\ left' = IF f.k = "" THEN left ELSE left - 1
                        /\ Say(i, [op |-> "load", fault |-> f, alts |-> Alts(i, steps, f), miss |-> miss, ret |-> ret])
        /\ UNCHANGED <<chain, blk, now, given>>

\* The chain: a block takes all waiting transactions, in order.  A transaction
\* is recorded when it fits the recorded state, and reverted otherwise (or,
\* when revert says so, for reasons of its own).
RECURSIVE MineAll(_, _, _, _, _)
MineAll(ch, ts, x, rv, sec) ==
  IF x > Len(ts) THEN <<ch, ts>>
  ELSE IF ts[x].blk # 0 THEN MineAll(ch, ts, x + 1, rv, sec)
  ELSE LET t == ts[x] c == ch[t.i]
           fits == (t.init /\ c = <<>>) \/ (~t.init /\ c # <<>> /\ c[Len(c)].st = t.old)
           ok == fits /\ ~(rv = x)
       IN MineAll(IF ok THEN [ch EXCEPT ![t.i] = Append(@, [st |-> t.new, blk |-> blk + 1, ts |-> sec])] ELSE ch,
                  [ts EXCEPT ![x].blk = blk + 1, ![x].ok = ok], x + 1, rv, sec)
Waiting == {x \in 1..Len(txs) : txs[x].blk = 0}
Unconfirmed == {x \in 1..Len(txs) : txs[x].blk # 0 /\ blk - txs[x].blk < Conf}
Mine == /\ On("mine")
        /\ (Rarely(6) \/ Active \/ Waiting # {})
        /\ \E dt \in (IF P.draw THEN Sel(1..6) ELSE {0}) :
           \E rv \in (IF P.draw THEN (IF RandomElement(1..8) = 1 /\ left > 0 /\ Waiting # {} /\ ~Active THEN Sel(Waiting) ELSE {0}) ELSE IF left > 0 THEN {0} \cup Waiting ELSE {0}) :
             LET sec == (now + dt + 1) \div 2
                 r == MineAll(chain, txs, 1, rv, sec)
             IN /\ chain' = r[1] /\ txs' = r[2] /\ blk' = blk + 1 /\ now' = now + dt
                /\ left' = IF rv = 0 THEN left ELSE left - 1
                /\ Out([op |-> "mine", blk |-> blk + 1, ts |-> sec, revert |-> rv,
                        done |-> [x \in 1..Len(txs) |-> [n |-> x, ok |-> r[2][x].ok, blk |-> r[2][x].blk]],
                        last |-> [i \in I |-> IF r[1][i] = <<>> THEN NoOn ELSE r[1][i][Len(r[1][i])]]])
        /\ UNCHANGED <<iss, pub, given>>
Blocks == /\ On("blocks")
          /\ (Rarely(6) \/ Active \/ Unconfirmed # {})
          /\ \E n \in (IF Active THEN {Conf + 1} ELSE IF P.draw THEN Sel(1..(IF Conf > 5 THEN 6 ELSE Conf + 1)) ELSE {1}) :
               /\ blk' = blk + n /\ now' = now + (IF P.draw THEN 2 * n ELSE 0)
               /\ Out([op |-> "blocks", blk |-> blk + n])
          /\ (Waiting = {} \/ P.draw)
          /\ UNCHANGED <<iss, chain, txs, pub, given, left>>
Tick == /\ On("tick") /\ P.draw
        /\ \E dt \in Sel(1..5) : now' = now + dt /\ Out([op |-> "tick", now |-> now + dt])
        /\ UNCHANGED <<iss, chain, txs, pub, blk, given, left>>

Settled(i) == LET m == iss[i] IN m.pend = Zero /\ m.on.st # Zero /\ m.on = LastOn(i) /\ m.on.st = Cur(m)
                                  /\ m.on.st \in pub[i]

(************************ credentials **************************************)
Entry(i, c) == iss[i].cl[IdxOf(iss[i], c)]
CredRet(i, c, other) ==
  LET m == iss[i] x == IdxOf(m, c) IN
  IF m.only THEN "only"
  ELSE IF m.on.st = Zero THEN "zero"
  ELSE IF other \/ x = 0 THEN "notissued"
  ELSE IF x > m.on.st[1] THEN "notyet" ELSE "ok"
Cred == /\ On("cred")
        /\ \E i \in Sel({i \in I : iss[i].up}) : \E c \in Sel(1..NC \cup {100 + i}) :
           \E other \in (IF P.draw /\ IdxOf(iss[i], c) > 0 /\ RandomElement(1..8) = 1 THEN {TRUE} ELSE {FALSE}) :
             LET ret == CredRet(i, c, other) m == iss[i] IN
             /\ (P.draw \/ ret = "ok") /\ Len(creds) < P.maxCreds
             /\ creds' = (IF ret = "ok" THEN Append(creds, [i |-> i, e |-> Entry(i, c), on |-> m.on]) ELSE creds)
             /\ UNCHANGED iss
             /\ Say(i, [op |-> "cred", c |-> c, other |-> other, ret |-> ret])
        /\ UNCHANGED <<world, vals, zks, left>>
\* The holder asks for validity under the newest state on chain.
ValRet(cr, mism) ==
  LET S == LastOn(cr.i).st IN
  IF S \notin pub[cr.i] THEN "nopub"
  ELSE IF mism THEN "mismatch"
  ELSE IF cr.e.n \in Revs(cr.i, S[2]) THEN "revoked" ELSE "ok"
Val == /\ On("val") /\ creds # <<>>
       /\ \E k \in Sel(1..Len(creds)) : \E mism \in (IF P.draw /\ RandomElement(1..10) = 1 /\ Cardinality(pub[creds[k].i]) > 1 THEN {TRUE} ELSE {FALSE}) :
            LET cr == creds[k] ret == ValRet(cr, mism) IN
            /\ (P.draw \/ ret = "ok") /\ Len(vals) < P.maxCreds
            /\ vals' = (IF ret = "ok" THEN Append(vals, [k |-> k, i |-> cr.i, e |-> cr.e, on |-> cr.on, to |-> LastOn(cr.i)]) ELSE vals)
            /\ Out([op |-> "val", k |-> k, i |-> cr.i, e |-> cr.e, mism |-> mism, to |-> LastOn(cr.i),
                    other |-> IF mism THEN CHOOSE s \in pub[cr.i] : s # LastOn(cr.i).st ELSE Zero, ret |-> ret])
       /\ UNCHANGED <<iss, world, creds, zks, left>>

\* What the parts of a credential state.
Revoked(i, st, n) == n \in Revs(i, st[2])
OnChain(i, on) == \E x \in 1..Len(chain[i]) : chain[i][x] = on
FactE(i, on, e, rev, rts) ==
  OnChain(i, on) /\ e \in Claims(i, on.st[1]) /\ rev = Revs(i, on.st[2]) /\ rts = Roots(i, on.st[3])
Fresh(i, to, fresh) == (now - fresh < 2 * to.ts) \/ LastOn(i).st = to.st
Alive(e) == Exp(e.c) = 0 \/ 2 * Exp(e.c) >= now
FactV(i, on, e, rev, rts, to, n, clr, rts2, fresh) ==
  /\ FactE(i, on, e, rev, rts)
  /\ OnChain(i, to) /\ clr = Claims(i, to.st[1]) /\ rts2 = Roots(i, to.st[3]) /\ ~Revoked(i, to.st, n)
  /\ Fresh(i, to, fresh) /\ Alive(e)
\* Freshness limits around the age of the state, in half seconds.
Limits(to) == IF P.draw THEN Sel({now - 2 * to.ts + d : d \in {-2, -1, 0, 1, 2, 3}} \cup {0, 100000}) ELSE {1}
VerE == /\ On("verE") /\ creds # <<>>
        /\ \E k \in Sel(1..Len(creds)) : Out([op |-> "verE", k |-> k, ret |-> "ok"])
        /\ UNCHANGED <<iss, world, given, left>>
VerV == /\ On("verV") /\ vals # <<>>
        /\ \E k \in Sel(1..Len(vals)) : \E fr \in Limits(vals[k].to) :
             LET v == vals[k] IN
             Out([op |-> "verV", k |-> k, now |-> now, fresh |-> fr,
                  ret |-> IF ~Alive(v.e) THEN "expired" ELSE IF ~Fresh(v.i, v.to, fr) THEN "stale" ELSE "ok"])
        /\ UNCHANGED <<iss, world, given, left>>
\* Parts of two credentials recombined: accepted only if it is a fact.
CompE == {"id", "state", "block", "ts", "mtp", "claim", "rev", "roots"}
CompV == CompE \cup {"state2", "block2", "ts2", "mtpn", "clr2", "roots2"}
Mix(a, b, who, x) == IF x \in who THEN b ELSE a
FactMixE(a, b, who) ==
  LET i == Mix(a, b, who, "id").i
      st == Mix(a, b, who, "state") bl == Mix(a, b, who, "block") ts == Mix(a, b, who, "ts")
      on == [st |-> st.on.st, blk |-> bl.on.blk, ts |-> ts.on.ts]
      rv == Mix(a, b, who, "rev") rt == Mix(a, b, who, "roots")
  IN /\ (st.i = i \/ FALSE)
     /\ FactE(i, on, Mix(a, b, who, "claim").e, Revs(rv.i, rv.on.st[2]), Roots(rt.i, rt.on.st[3]))
FactMixV(a, b, who, fr) ==
  LET i == Mix(a, b, who, "id").i
      st == Mix(a, b, who, "state2") bl == Mix(a, b, who, "block2") ts == Mix(a, b, who, "ts2")
      to == [st |-> st.to.st, blk |-> bl.to.blk, ts |-> ts.to.ts]
      c2 == Mix(a, b, who, "clr2") r2 == Mix(a, b, who, "roots2") e == Mix(a, b, who, "claim").e
  IN /\ FactMixE(a, b, who) /\ st.i = i /\ OnChain(i, to)
     /\ Claims(c2.i, c2.to.st[1]) = Claims(i, to.st[1]) /\ Roots(r2.i, r2.to.st[3]) = Roots(i, to.st[3])
     /\ ~Revoked(i, to.st, e.n) /\ Fresh(i, to, fr) /\ Alive(e)
Parts(S) == IF P.draw THEN {RandomSubset(RandomElement(1..3), S), RandomSubset(RandomElement(1..Cardinality(S)), S)} ELSE {{}}
MixE == /\ On("mixE") /\ Len(creds) > 1 /\ P.draw
        /\ \E a \in Sel(1..Len(creds)) : \E b \in Sel((1..Len(creds)) \ {a}) : \E who \in Sel(Parts(CompE)) :
             Out([op |-> "mixE", a |-> a, b |-> b, who |-> SetToSeq(who), fact |-> FactMixE(creds[a], creds[b], who)])
        /\ UNCHANGED <<iss, world, given, left>>
MixV == /\ On("mixV") /\ Len(vals) > 1 /\ P.draw
        /\ \E a \in Sel(1..Len(vals)) : \E b \in Sel((1..Len(vals)) \ {a}) :
           \E who \in Sel(Parts(CompV) \cup {{"id", "state", "block", "ts", "mtp", "claim", "rev", "roots"},
                                            {"state2", "block2", "ts2", "mtpn", "clr2", "roots2"}, {"mtp", "claim"}, {"mtpn"}}) :
           \E fr \in Sel({1, 100000}) :
             Out([op |-> "mixV", a |-> a, b |-> b, who |-> SetToSeq(who), fresh |-> fr, now |-> now,
                  fact |-> FactMixV(vals[a], vals[b], who, fr)])
        /\ UNCHANGED <<iss, world, given, left>>
\* One part damaged or missing: never accepted, never a crash.
Hurt == /\ On("hurt") /\ creds # <<>> /\ P.draw
        /\ \E v \in (IF vals = <<>> THEN {FALSE} ELSE Sel(BOOLEAN)) :
           \E k \in Sel(IF v THEN 1..Len(vals) ELSE 1..Len(creds)) : \E part \in Sel(IF v THEN CompV ELSE CompE) :
           \E how \in Sel({"flip", "flip", "flip", "nil", "zero"}) : \E n \in Sel(0..999) :
             Out([op |-> "hurt", v |-> v, k |-> k, part |-> part, how |-> how, n |-> n, now |-> now,
                  was |-> (~v \/ (Alive(vals[k].e) /\ Fresh(vals[k].i, vals[k].to, 100000)))])
        /\ UNCHANGED <<iss, world, given, left>>

\* Zero-knowledge credentials.
Zk == /\ On("zk") /\ creds # <<>>
      /\ \E k \in Sel(1..Len(creds)) : \E lv \in Sel({8, 20, 140}) :
           LET cr == creds[k] ret == ValRet(cr, FALSE) IN
           /\ Len(zks) < P.maxCreds
           /\ zks' = (IF ret = "ok" THEN Append(zks, [i |-> cr.i, to |-> LastOn(cr.i), k |-> k, lv |-> lv]) ELSE zks)
           /\ Out([op |-> "zk", k |-> k, i |-> cr.i, e |-> cr.e, on |-> cr.on, to |-> LastOn(cr.i), levels |-> lv, ret |-> ret])
      /\ UNCHANGED <<iss, world, creds, vals, left>>
ZkVer == /\ On("zkver") /\ zks # <<>>
         /\ \E k \in Sel(1..Len(zks)) : \E fr \in Limits(zks[k].to) :
            \E how \in Sel({"", "", "", "issuer", "block", "signal", "proof", "othervk", "longer", "shorter"}) :
              Out([op |-> "zkver", k |-> k, now |-> now, fresh |-> fr, how |-> how,
                   ret |-> IF how # "" THEN "no" ELSE IF Fresh(zks[k].i, zks[k].to, fr) THEN "ok" ELSE "stale"])
         /\ UNCHANGED <<iss, world, given, left>>
\* The proof that an identity owns its genesis key.
Own == /\ On("own")
       /\ \E i \in Sel({i \in I : iss[i].up}) : \E lv \in Sel({0, 1, 3, 8, 20, 140}) :
            UNCHANGED iss /\ Say(i, [op |-> "own", levels |-> lv, n |-> iss[i].list[1][1]])
       /\ UNCHANGED <<world, given, left>>

\* Everything works again: the identity is loaded and retries until it is
\* settled; then the chain knows everything issued and revoked.
Round == <<"publish", "mine", "blocks", "sync">>
Settle == /\ On("settle") /\ P.draw /\ ~Active /\ Len(out) + 17 <= P.depth
          /\ \E i \in Sel({i \in I : iss[i].made /\ ~iss[i].only}) :
               /\ todo' = [i |-> i, ops |-> <<"sync">> \o Round \o Round \o Round \o <<"settled">>]
               /\ nxt' = "load" /\ UNCHANGED <<iss, out>>
          /\ UNCHANGED <<world, given, left>>
IsSettled(i) == Settled(i) \/ (iss[i].pend = Zero /\ iss[i].on.st = Zero /\ Cur(iss[i]) = iss[i].list[1])
Check == /\ On("settled") /\ Active
         /\ Assert(IsSettled(todo.i), <<"not settled", iss[todo.i]>>)
         /\ UNCHANGED iss /\ Say(todo.i, [op |-> "settled"])
         /\ UNCHANGED <<world, given, left>>

Skip == P.draw /\ More /\ ~Active /\ Draw /\ UNCHANGED <<iss, world, given, left, out>>
Fin == Rec /\ Len(out) = P.depth /\ UNCHANGED todo /\ nxt # "done" /\ nxt' = "done" /\ UNCHANGED <<iss, world, given, left, out>>
Next == \/ Create \/ Issue \/ Revoke \/ Publish \/ Sync \/ Stop \/ Load \/ Mine \/ Blocks \/ Tick \/ Settle \/ Check
        \/ Cred \/ Val \/ VerE \/ VerV \/ MixE \/ MixV \/ Hurt \/ Zk \/ ZkVer \/ Own \/ Skip \/ Fin
Spec == Init /\ [][Next]_vars
Fair == Spec /\ WF_vars(Create) /\ WF_vars(Load) /\ SF_vars(Publish) /\ SF_vars(Sync) /\ WF_vars(Mine) /\ WF_vars(Blocks)

(***************************** properties **********************************)
\* C11
UniqueNonces == \A i \in I : LET m == iss[i] IN
  \A x, y \in 1..Len(m.cl) : x # y => m.cl[x].n # m.cl[y].n /\ m.cl[x].n < m.next
\* C12
\* a transaction is outstanding while it waits and fits what is on chain
Fits(t) == t.blk = 0 /\ ((t.init /\ chain[t.i] = <<>>) \/ (~t.init /\ chain[t.i] # <<>> /\ LastOn(t.i).st = t.old))
SingleFlight == \A x, y \in 1..Len(txs) :
  (txs[x].i = txs[y].i /\ Fits(txs[x]) /\ Fits(txs[y])) => (txs[x].old = txs[y].old /\ txs[x].new = txs[y].new)
\* what is sent starts from the state on chain, or is a repetition that does nothing
Starts == [][\A x \in (Len(txs) + 1)..Len(txs') : LET t == txs'[x] c == chain[t.i] IN
               \/ (t.init /\ c = <<>> /\ t.old = iss[t.i].list[1])
               \/ (~t.init /\ c # <<>> /\ LastOn(t.i).st = t.old)
               \/ (c # <<>> /\ LastOn(t.i).st = t.new)]_vars
SentIsPending == \A i \in I : LET m == iss[i] IN
  /\ m.sent => (m.pend # Zero /\ m.tx > 0 /\ txs[m.tx].new = m.pend)
  /\ m.pend # Zero => m.list[Len(m.list)] = m.pend
Ordered == \A i \in I : LET m == iss[i] c == chain[i] IN
  /\ \A x \in 1..Len(c) : x + 1 <= Len(m.list) /\ c[x].st = m.list[x + 1]
  /\ \A x \in 1..Len(c) : c[x].st \in pub[i]
  /\ m.on.st # Zero => OnChain(i, m.on)
  /\ Len(m.list) <= Len(c) + 2
Confirmed == \A i \in I : iss[i].sent => ~(iss[i].on.st = txs[iss[i].tx].new)
Kept == \A i \in I : LET m == iss[i] IN
  m.made => /\ \A x \in 1..(Len(m.list) - 1) : m.list[x] # m.list[x + 1] /\ \A d \in 1..3 : m.list[x][d] <= m.list[x + 1][d]
            /\ \A d \in 1..3 : m.list[Len(m.list)][d] <= Cur(m)[d]
            \* the claims root of every listed state is in its own roots tree, so the holder finds it
            /\ \A x \in 1..Len(m.list) : \E r \in 1..m.list[x][3] : m.rt[r] = m.list[x][1]
\* A crash or fault never leaves something that cannot be published later.
Publishable == <>[](\A i \in I : iss[i].made /\ ~iss[i].only => (Settled(i) \/ (iss[i].pend = Zero /\ iss[i].on.st = Zero /\ Cur(iss[i]) = iss[i].list[1])))
\* C13, C14: what is handed out is a fact, and stays one.
CredFact == \A k \in 1..Len(creds) : LET c == creds[k] IN
  FactE(c.i, c.on, c.e, Revs(c.i, c.on.st[2]), Roots(c.i, c.on.st[3]))
ValFact == \A k \in 1..Len(vals) : LET v == vals[k] IN OnChain(v.i, v.to) /\ ~Revoked(v.i, v.to.st, v.e.n)
Permanent == [][\A i \in I : \A x \in 1..Len(iss[i].rv) : Len(iss'[i].rv) >= x /\ iss'[i].rv[x] = iss[i].rv[x]]_vars
\* C25
OnlyGenesis == \A i \in I : iss[i].only => (Len(iss[i].list) = 1 /\ Cur(iss[i]) = iss[i].list[1] /\ chain[i] = <<>> /\ pub[i] = {})
OnlyForever == [][\A i \in I : iss[i].made => (iss'[i].made /\ iss'[i].only = iss[i].only /\ iss'[i].list[1] = iss[i].list[1])]_vars
Emit == (Rec /\ nxt = "done") => PrintT(ToJson(out))
=============================================================================
