--------------------------------- MODULE Sign ---------------------------------
(***************************************************************************)
(* Signatures of the key store, the identity signer, an issuer and of      *)
(* Ethereum keys.  Property C21.                                           *)
(* A signature is a token that names the key, the message and, where the   *)
(* form has them, the prefix and the date; it is accepted for exactly that.*)
(* The mechanism signs the hash of the bytes prefix|date|message, taken in *)
(* chunks; Sound states how far that is from the token (see DESIGN.md).    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

P == JsonDeserialize(IOEnv.PARAMS)
Ops   == {P.ops[i] : i \in 1..Len(P.ops)}
Depth == P.depth
Rec   == P.rec
Kinds == {P.kinds[i] : i \in 1..Len(P.kinds)}
Keys  == 1..P.keys
Msgs  == 1..P.msgs
Prefixes == 1..P.prefixes
Layouts == 1..P.layouts           \* how the caller's slices lie in memory
MaxSigs == P.maxSigs

Dated == {"dated", "idendate", "ethdate"}
Prefixed == {"dated", "binary"}

VARIABLES sigs, now, out, nxt
vars == <<sigs, now, out, nxt>>
Init == sigs = <<>> /\ now = 0 /\ out = <<>> /\ nxt = IF P.draw THEN P.ops[1] ELSE "any"
Draw == nxt' = IF P.draw THEN P.ops[RandomElement(1..Len(P.ops))] ELSE nxt
Step(s) == out' = (IF Rec THEN Append(out, s) ELSE out) /\ Draw
More == ~Rec \/ Len(out) < Depth
On(o) == o \in Ops /\ More /\ nxt \in {o, "any"}
Sel(S) == IF P.draw /\ S # {} THEN {RandomElement(S)} ELSE S
Fin == Rec /\ Len(out) = Depth /\ nxt # "done" /\ nxt' = "done" /\ UNCHANGED <<sigs, now, out>>
Skip == P.draw /\ More /\ Draw /\ UNCHANGED <<sigs, now, out>>
Recent == {i \in 1..Len(sigs) : Len(sigs) - i < 12}

Token(kind, k, p, d, m) == [kind |-> kind, key |-> k, prefix |-> IF kind \in Prefixed THEN p ELSE 0,
                            date |-> IF kind \in Dated THEN d ELSE 0, msg |-> m]
Sign == /\ On("sign") /\ Len(sigs) < MaxSigs
        /\ \E kind \in Sel(Kinds), k \in Sel(Keys), p \in Sel(Prefixes), m \in Sel(Msgs), l \in Sel(Layouts) :
             LET t == Token(kind, k, p, now, m) IN
             /\ sigs' = Append(sigs, t)
             /\ Step([op |-> "sign", t |-> t, l |-> l])
        /\ UNCHANGED now
\* Asking whether signature i stands for the token t.
Ask(i, t, l, what, x) == Step([op |-> "verify", i |-> i, t |-> t, l |-> l, what |-> what, x |-> x, exp |-> t = sigs[i] /\ what # "alter"])
Verify == /\ On("verify")
          /\ \E i \in Sel(Recent), l \in Sel(Layouts), what \in Sel({"same", "key", "msg", "prefix", "date", "all"}),
                k \in Sel(Keys), p \in Sel(Prefixes), m \in Sel(Msgs), d \in Sel({-1, 1, 2, 256, 65536, -now, 0}) :
               LET s == sigs[i]
                   all == what = "all"
                   t == Token(s.kind, IF what = "key" \/ all THEN k ELSE s.key, IF what = "prefix" \/ all THEN p ELSE s.prefix,
                              IF what = "date" \/ all THEN s.date + d ELSE s.date, IF what = "msg" \/ all THEN m ELSE s.msg)
               IN Ask(i, t, l, "ask", 0)
          /\ UNCHANGED <<sigs, now>>
\* An altered signature or a malformed key (x selects the alteration).
Alter == /\ On("alter")
         /\ \E i \in Sel(Recent), l \in Sel(Layouts), x \in Sel(1..P.alters) : Ask(i, sigs[i], l, "alter", x)
         /\ UNCHANGED <<sigs, now>>
\* The signature of one token attached to another one of the same form.
Swap == /\ On("swap")
        /\ \E i \in Sel(Recent), l \in Sel(Layouts) :
           \E j \in Sel({x \in Recent : sigs[x].kind = sigs[i].kind}) : Ask(i, sigs[j], l, "ask", 0)
        /\ UNCHANGED <<sigs, now>>
\* A message padded with zeros, or bytes shifted between prefix, date and message.
Pad == /\ On("pad")
       /\ \E i \in Sel({x \in Recent : sigs[x].kind \notin {"elem", "elems", "state", "eth", "ethdate"}}), n \in Sel(1..3) : Step([op |-> "pad", i |-> i, n |-> n])
       /\ UNCHANGED <<sigs, now>>
Shift == /\ On("shift")
         /\ \E i \in Sel({x \in Recent : sigs[x].kind \in Prefixed}), n \in Sel(1..2) : Step([op |-> "shift", i |-> i, n |-> n])
         /\ UNCHANGED <<sigs, now>>
\* A message that is no field element.
Outside == /\ On("outside")
           /\ \E k \in Sel(Keys), n \in Sel(1..5) : Step([op |-> "outside", k |-> k, n |-> n])
           /\ UNCHANGED <<sigs, now>>
\* A key that is not at hand: no signature is made, or one that is right.
Away == /\ On("away")
        /\ \E k \in Sel(Keys), m \in Sel(Msgs), n \in Sel(1..4) :
             Step([op |-> "away", k |-> k, m |-> m, how |-> <<"locked", "wrongpass", "closed", "reclosed">>[n]])
        /\ UNCHANGED <<sigs, now>>
Trip == /\ On("trip")
        /\ \E i \in Sel(Recent), n \in Sel(1..8) : Step([op |-> "trip", i |-> i, n |-> n])
        /\ UNCHANGED <<sigs, now>>
Tick == /\ On("tick") /\ (~Rec => now < 2)
        /\ \E d \in Sel(IF P.draw THEN {1, 1, 2, 255, 3600, 100000} ELSE {1}) : now' = now + d /\ Step([op |-> "tick", now |-> now'])
        /\ UNCHANGED sigs
Next == Sign \/ Verify \/ Alter \/ Swap \/ Pad \/ Shift \/ Outside \/ Away \/ Trip \/ Tick \/ Skip \/ Fin
Spec == Init /\ [][Next]_vars

(********************************* mechanism ******************************)
\* Small strings over two bytes; a date is one byte; a chunk is two bytes.
Strings == UNION {[1..n -> {0, 1}] : n \in 0..P.strlen}
Bytes(t) == t.prefix \o <<t.date>> \o t.msg
Chunk == 2
\* The hash sees the number of chunks and their values, the last one padded.
Hashed(b) == IF Len(b) % Chunk = 0 THEN b ELSE Append(b, 0)
Tokens == [key : {1, 2}, prefix : Strings, date : {0, 1}, msg : Strings]
Accepts(s, t) == s.key = t.key /\ Hashed(Bytes(s)) = Hashed(Bytes(t))
Padded(s, t) == LET a == Bytes(s)  b == Bytes(t) IN
                a # b /\ (a = Append(b, 0) \/ b = Append(a, 0))
Shifted(s, t) == Len(s.prefix) # Len(t.prefix)
\* Nothing but padding and shifting is accepted beyond the token itself...
Sound == \A s, t \in Tokens : Accepts(s, t) => s = t \/ Padded(s, t) \/ Shifted(s, t)
\* ... so that prefixes of one length and messages that do not end in zero are safe.
Exact == \A s, t \in Tokens : /\ Accepts(s, t) /\ Len(s.prefix) = Len(t.prefix)
                              /\ \A u \in {s, t} : u.msg = <<>> \/ u.msg[Len(u.msg)] # 0
                              /\ (s.msg = <<>> <=> t.msg = <<>>)
                              => s = t
Complete == \A t \in Tokens : Accepts(t, t)

Emit == (Rec /\ nxt = "done") => PrintT(ToJson(out))
=============================================================================
