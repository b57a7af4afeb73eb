------------------------------ MODULE IssuerLin ------------------------------
(* Histories of several goroutines using one issuer, recorded from the real   *)
(* code, decided against the issuer as an abstract object whose operations    *)
(* take effect at one instant each.  Issued claims are pairs                  *)
(* <<content, revocation nonce>>; a state of the identity is                  *)
(* [cl: claims, rev: revoked nonces, rts: the sets of claims published].      *)
(* The life of a state (A -> B -> C) is that of Identity.tla.                 *)
EXTENDS Naturals, Sequences, FiniteSets, Json, IOUtils, TLC

H == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES h, done, st

Set(s) == {s[i] : i \in 1 .. Len(s)}
State(r) == [cl |-> Set(r.cl), rev |-> Set(r.rev), rts |-> {Set(x) : x \in Set(r.rts)}]
Known(r) == r.ok /\ State(r) = State(r)
Ops == H[h].ops
ConfirmBlocks == H[h].confirm

Enabled(k) == /\ k \notin done
              /\ \A m \in DOMAIN Ops \ done : Ops[m].ret > Ops[k].call

Now(s) == [cl |-> s.cl, rev |-> s.rev, rts |-> s.rts]
Last(s) == s.list[Len(s.list)]
Contents(cl) == {c[1] : c \in cl}
NonceOf(cl, c) == (CHOOSE x \in cl : x[1] = c)[2]

Writers == {"issue", "revoke", "publish", "sync", "mine", "advance"}
Reader(o) == o.op \notin Writers

Is(r, s, i) == IF i = 0 THEN r.zero ELSE ~r.zero /\ Known(r) /\ State(r) = s.list[i]

Answers(o, s) ==
  CASE o.op = "issue" ->
         IF o.c \in Contents(s.cl) THEN o.res = "exists"
         ELSE o.res = "ok" /\ o.n \notin s.used
    [] o.op = "revoke" ->
         o.res = IF o.c \notin Contents(s.cl) THEN "notfound"
                 ELSE IF NonceOf(s.cl, o.c) \in s.rev THEN "exists" ELSE "ok"
    [] o.op = "publish" -> o.res = IF s.pend # 0 /\ s.tr THEN "pending" ELSE "ok"
    [] o.op = "sync" -> o.res = "ok"
    [] o.op = "mine" -> IF s.infl = "sent" THEN ~o.s.zero /\ Known(o.s) /\ State(o.s) = s.list[s.pend] ELSE o.s.zero
    [] o.op = "advance" -> TRUE
    [] o.op = "state" -> Known(o.s) /\ State(o.s) = Now(s)
    [] o.op \in {"onchain", "data"} -> Is(o.s, s, s.on)
    [] o.op = "pending" -> Is(o.s, s, s.pend) /\ o.tr = s.tr
    [] o.op = "cred" ->
         IF s.on = 0 THEN o.res = "zero"
         ELSE IF o.c \notin Contents(s.list[s.on].cl)
           THEN o.res = IF <<o.c, o.n>> \in s.cl THEN "notyet" ELSE "notfound"
         ELSE IF <<o.c, o.n>> \notin s.list[s.on].cl THEN o.res = "notfound"
         ELSE o.res = "ok" /\ Is(o.s, s, s.on)
    [] o.op = "submitted" -> [i \in 1 .. Len(o.l) |-> State(o.l[i])] = [i \in 1 .. Len(s.subs) |-> s.list[s.subs[i]]]
    [] OTHER -> FALSE

Publish(s) ==
  IF s.pend # 0 /\ s.tr THEN s
  ELSE IF s.pend # 0 THEN [s EXCEPT !.tr = TRUE, !.infl = "sent", !.subs = Append(@, s.pend)]
  ELSE IF Now(s) = Last(s) THEN s
  ELSE LET r == IF s.cl # Last(s).cl THEN s.rts \cup {s.cl} ELSE s.rts
           n == [cl |-> s.cl, rev |-> s.rev, rts |-> r] IN
       [s EXCEPT !.rts = r, !.list = Append(@, n), !.pend = Len(s.list) + 1, !.tr = TRUE,
                 !.infl = "sent", !.subs = Append(@, Len(s.list) + 1)]

Sync(s) ==
  IF ~(s.pend # 0 /\ s.tr) THEN s
  ELSE CASE s.infl = "sent" -> s
         [] s.infl = "failed" -> [s EXCEPT !.tr = FALSE]
         [] s.infl = "ok" -> IF s.age < ConfirmBlocks THEN s
                             ELSE [s EXCEPT !.on = s.pend, !.pend = 0, !.tr = FALSE, !.infl = "none"]

After(o, s) ==
  CASE o.op = "issue" /\ o.res = "ok" -> [s EXCEPT !.cl = @ \cup {<<o.c, o.n>>}, !.used = @ \cup {o.n}]
    [] o.op = "revoke" /\ o.res = "ok" -> [s EXCEPT !.rev = @ \cup {NonceOf(s.cl, o.c)}]
    [] o.op = "publish" -> Publish(s)
    [] o.op = "sync" -> Sync(s)
    [] o.op = "mine" -> IF s.infl = "sent" THEN [s EXCEPT !.infl = IF o.good THEN "ok" ELSE "failed", !.age = 0]
                        ELSE [s EXCEPT !.age = @ + 1]
    [] o.op = "advance" -> [s EXCEPT !.age = @ + o.n]
    [] OTHER -> s

Start == LET g == State(H[h].genesis) IN
         [cl |-> g.cl, rev |-> g.rev, rts |-> g.rts, used |-> {c[2] : c \in g.cl}, list |-> <<g>>,
          pend |-> 0, tr |-> FALSE, on |-> 0, infl |-> "none", age |-> 0, subs |-> <<>>]
Void == [cl |-> {}]

TInit == h = 1 /\ done = {} /\ st = Start

Ready == {k \in DOMAIN Ops : Enabled(k) /\ Answers(Ops[k], st)}
(* Operations that change nothing here can take effect now.                   *)
Idle == {k \in Ready : Reader(Ops[k])}
Lin == IF Idle # {} THEN /\ done' = done \cup {CHOOSE k \in Idle : TRUE}
                         /\ UNCHANGED <<h, st>>
       ELSE \E k \in Ready : /\ done' = done \cup {k}
                             /\ st' = After(Ops[k], st)
                             /\ UNCHANGED h

NextHistory == /\ done = DOMAIN Ops
               /\ PrintT(<<"accepted", h>>)
               /\ h' = h + 1 /\ done' = {}
               /\ st' = IF h < Len(H) THEN Start' ELSE Void

TNext == h <= Len(H) /\ (Lin \/ NextHistory)
NotAccepted == h <= Len(H)
=============================================================================
