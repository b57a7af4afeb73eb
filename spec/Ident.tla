------------------------------- MODULE Ident --------------------------------
(***************************************************************************)
(* Identifiers of identities (core/id.go, core/genesis): the checksummed   *)
(* byte string, the identity state as a commitment to three roots, and the *)
(* genesis identifier as a commitment to the genesis claims.  Property C10.*)
(*                                                                         *)
(* Bytes are numbers below Base; an identifier is TLen type bytes, GLen    *)
(* genesis bytes and a two byte checksum.  Hashes are free terms.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, IOUtils

P == JsonDeserialize(IOEnv.PARAMS)
Base == P.base
TLen == P.tlen
GLen == P.glen
Rec  == P.rec
Byte == 0..(Base - 1)

Sum(b) == FoldSeq(LAMBDA x, a : x + a, 0, b)
Check(body) == LET s == Sum(body) IN <<(s \div Base) % Base, s % Base>>
NewId(body) == body \o Check(body)
Valid(b) == /\ Len(b) = TLen + GLen + 2
            /\ LET body == SubSeq(b, 1, TLen + GLen) ck == SubSeq(b, TLen + GLen + 1, TLen + GLen + 2)
               IN ck # <<0, 0>> /\ ck = Check(body)

\* Terms: the root of a set of leaves, the state of an identity, its identifier.
Root(s) == <<"root", s>>
State(a, b, c) == <<"state", a, b, c>>
GenId(claims) == <<"id", State(Root(claims), Root({}), Root({Root(claims)}))>>

VARIABLES id,      \* bytes last made or received
          ids,     \* genesis claim lists already used
          sts,     \* triples of roots already combined
          out, nxt
vars == <<id, ids, sts, out, nxt>>
More == ~Rec \/ Len(out) < P.depth
Draw == nxt' = IF P.draw THEN P.ops[RandomElement(1..Len(P.ops))] ELSE nxt
Step(s) == out' = (IF Rec THEN Append(out, s) ELSE out) /\ Draw
Sel(S) == IF P.draw /\ S # {} THEN {RandomElement(S)} ELSE S
On(op) == More /\ nxt \in {op, "any"}
Pos == 1..(TLen + GLen)

Init == id = <<>> /\ ids = <<>> /\ sts = <<>> /\ out = <<>> /\ nxt = IF P.draw THEN P.ops[1] ELSE "any"

\* A fresh identifier: any body; in draw mode random bytes with runs of equal ones.
Bodies == IF P.draw
          THEN LET lo == RandomElement({0, 0, 100, 255}) hi == RandomElement({0, 1, 2, 255})
                   mk == RandomElement(1..4)
               IN {[i \in Pos |-> CASE mk = 1 -> RandomElement(Byte)
                                    [] mk = 2 -> RandomElement({lo, hi})
                                    [] mk = 3 -> IF i <= TLen THEN RandomElement({0, 1, 255}) ELSE RandomElement(Byte)
                                    [] OTHER -> IF i <= TLen THEN 0 ELSE hi]}
          ELSE [Pos -> Byte]
Make == /\ On("make")
        /\ \E body \in Bodies : id' = NewId(body) /\ Step([op |-> "make", b |-> NewId(body), ok |-> Valid(NewId(body))])
        /\ UNCHANGED <<ids, sts>>
\* Somebody hands in bytes that are not the ones that were made.
Edit(b, k, i, j, v) ==
  CASE k = "byte" -> [b EXCEPT ![i] = v]
    [] k = "swap" -> [b EXCEPT ![i] = b[j], ![j] = b[i]]
    [] k = "two"  -> [b EXCEPT ![i] = v, ![j] = (b[j] + b[i] - v) % Base]
    [] k = "cut"  -> SubSeq(b, 1, Len(b) - 1 - (i % 3))
    [] k = "add"  -> b \o [n \in 1..(1 + (i % 2)) |-> v]
    [] k = "head" -> <<v>> \o b
    [] k = "none" -> <<>>
    [] k = "zero" -> [n \in 1..Len(b) |-> 0]
    [] OTHER      -> b
Kinds == {"byte", "swap", "two", "cut", "add", "head", "none", "zero", "same"}
Given == /\ On("given") /\ Len(id) = TLen + GLen + 2
         /\ \E k \in (IF P.draw THEN Sel({"byte", "byte2", "swap", "two", "cut", "add", "head", "none", "zero", "same"}) ELSE Kinds) :
            \E i \in Sel(1..Len(id)) : \E j \in Sel((1..Len(id)) \ {i}) : \E v \in Sel(Byte) :
              LET kk == IF k = "byte2" THEN "byte" ELSE k
                  b == Edit(id, kk, i, j, v)
              IN Step([op |-> "given", kind |-> kk, b |-> b, ok |-> Valid(b)])
         /\ UNCHANGED <<id, ids, sts>>
\* Text that is not the base58 form of any bytes.
Text == /\ On("text") /\ Len(id) = TLen + GLen + 2
        /\ \E k \in Sel({"badchar", "space", "empty", "case", "prefix1", "quote"}) : \E i \in Sel(1..40) :
             Step([op |-> "text", kind |-> k, i |-> i, b |-> id])
        /\ UNCHANGED <<id, ids, sts>>
\* The state of an identity out of three roots; the class is the first use of
\* the same triple.
Class(seq, t) == IF \E i \in 1..Len(seq) : seq[i] = t THEN CHOOSE i \in 1..Len(seq) : seq[i] = t /\ \A j \in 1..(i - 1) : seq[j] # t
                 ELSE Len(seq) + 1
Idst == /\ On("state") /\ Len(sts) < P.maxSts
        /\ \E a \in Sel(0..P.roots) : \E b \in Sel(0..P.roots) : \E c \in Sel(0..P.roots) :
             /\ sts' = Append(sts, <<a, b, c>>)
             /\ Step([op |-> "state", roots |-> <<a, b, c>>, class |-> Class([i \in 1..Len(sts) |-> State(sts[i][1], sts[i][2], sts[i][3])], State(a, b, c))])
        /\ UNCHANGED <<id, ids>>
\* The identifier of a new identity: key k and extra claims, in order.
Keys == 1..P.keys
Extras == 1..P.extras
Lists == IF P.draw THEN {[n \in 1..RandomElement(0..P.maxEx) |-> RandomElement(Extras)]} ELSE BoundedSeq(Extras, P.maxEx)
Prev == IF P.draw /\ ids # <<>> THEN LET e == ids[RandomElement(1..Len(ids))] IN
              IF RandomElement(1..2) = 1 THEN {<<e[1], Reverse(e[2])>>} ELSE {<<RandomElement(Keys), e[2]>>}
        ELSE {}
Content(k, ex) == {<<"kop", k>>} \cup {<<"extra", ex[i]>> : i \in 1..Len(ex)}
NoDup(ex) == Cardinality({ex[i] : i \in 1..Len(ex)}) = Len(ex)
Genesis == /\ On("genesis") /\ Len(ids) < P.maxIds
           /\ \E p \in (IF P.draw /\ ids # <<>> /\ RandomElement(1..2) = 1 THEN Prev ELSE (Sel(Keys) \X Lists)) :
                LET k == p[1] ex == p[2] ok == NoDup(ex)
                IN /\ ids' = (IF ok THEN Append(ids, <<k, ex>>) ELSE ids)
                   /\ Step([op |-> "genesis", key |-> k, extras |-> ex, ok |-> ok,
                            class |-> Class([i \in 1..Len(ids) |-> GenId(Content(ids[i][1], ids[i][2]))], GenId(Content(k, ex)))])
           /\ UNCHANGED <<id, sts>>
Fin == Rec /\ Len(out) = P.depth /\ nxt # "done" /\ nxt' = "done" /\ UNCHANGED <<id, ids, sts, out>>
Skip == P.draw /\ More /\ Draw /\ UNCHANGED <<id, ids, sts, out>>
Next == Make \/ Given \/ Text \/ Idst \/ Genesis \/ Skip \/ Fin
Spec == Init /\ [][Next]_vars

(***************************** properties **********************************)
\* What is made is accepted, except the all zero body.
Accepts == id # <<>> => (Valid(id) <=> \E i \in Pos : id[i] # 0)
\* Every change of a single byte is detected.
Detects == (id # <<>> /\ Valid(id)) =>
             \A i \in 1..Len(id) : \A v \in Byte : v # id[i] => ~Valid([id EXCEPT ![i] = v])
Lengths == id # <<>> => \A n \in 0..(Len(id) - 1) : ~Valid(SubSeq(id, 1, n))
\* Identifiers agree exactly when the claims do (hashes are free terms).
Commits == \A i, j \in 1..Len(ids) :
             (GenId(Content(ids[i][1], ids[i][2])) = GenId(Content(ids[j][1], ids[j][2])))
               <=> (ids[i][1] = ids[j][1] /\ Range(ids[i][2]) = Range(ids[j][2]))
Emit == (Rec /\ nxt = "done") => PrintT(ToJson(out))
=============================================================================
