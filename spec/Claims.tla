------------------------------- MODULE Claims -------------------------------
(***************************************************************************)
(* The claim codec (core/claims): where every field of every kind of claim *)
(* lives in the 8 x 32 byte entry, and what survives encoding, decoding    *)
(* and changes of the metadata.  Property C09.                             *)
(*                                                                         *)
(* A cell is <<element, byte>>; a field is a named run of cells; the value *)
(* of a field is an identifier that the driver turns into boundary or      *)
(* random bytes.                                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, IOUtils

P == JsonDeserialize(IOEnv.PARAMS)
Depth == P.depth
Rec   == P.rec
Ids   == 0..P.ids                    \* value identifiers of every field

Headers == [subject : {"self", "other", "object"}, pos : {"index", "value"}, exp : BOOLEAN, ver : BOOLEAN]
HBasic == [subject |-> "self", pos |-> "index", exp |-> FALSE, ver |-> FALSE]
HOther == [subject |-> "other", pos |-> "index", exp |-> FALSE, ver |-> FALSE]
Kinds == {"basic", "babyjub", "otheriden", "generic", "leafroot", "leafrev"}
HeaderOf(kind) == CASE kind = "generic" -> Headers
                    [] kind = "otheriden" -> {HOther}
                    [] OTHER -> {HBasic}

Run(e, a, b) == [i \in 1..(b - a + 1) |-> <<e, a + i - 1>>]      \* bytes a..b of element e
\* The documented layout.  31 of the 32 bytes of an element carry data.
Meta(h) == << <<"type", Run(0, 0, 7)>>, <<"flags", Run(0, 8, 8)>>, <<"nonce", Run(4, 0, 3)>> >>
           \o (IF h.ver THEN << <<"version", Run(0, 12, 15)>> >> ELSE <<>>)
           \o (IF h.exp THEN << <<"expiration", Run(4, 4, 11)>> >> ELSE <<>>)
           \o (IF h.subject # "self" THEN << <<"subject", Run(IF h.pos = "index" THEN 1 ELSE 5, 0, 30)>> >> ELSE <<>>)
Body(kind) ==
  CASE kind = "basic" -> << <<"islot", Run(0, 12, 30) \o Run(1, 0, 30) \o Run(2, 0, 30) \o Run(3, 0, 30)>>,
                            <<"vslot", Run(4, 4, 30) \o Run(5, 0, 30) \o Run(6, 0, 30) \o Run(7, 0, 30)>> >>
    [] kind = "otheriden" -> << <<"islot", Run(0, 12, 30) \o Run(2, 0, 30) \o Run(3, 0, 30)>>,
                                <<"vslot", Run(4, 4, 30) \o Run(5, 0, 30) \o Run(6, 0, 30) \o Run(7, 0, 30)>> >>
    [] kind = "babyjub" -> << <<"keytype", Run(1, 0, 7)>>, <<"ax", Run(2, 0, 31)>>, <<"ay", Run(3, 0, 31)>> >>
    [] OTHER -> <<>>
Cells(f) == {f[2][i] : i \in 1..Len(f[2])}
Used(fs) == UNION {Cells(fs[i]) : i \in 1..Len(fs)}
\* A generic claim carries a payload in every cell that the metadata leaves.
Payload(h) == LET free == (((0..7) \X (0..30)) \ Used(Meta(h))) \ {<<0, 9>>, <<0, 10>>, <<0, 11>>}
              IN SetToSortSeq(free, LAMBDA a, b : a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2]))
LayoutDef(kind, h) ==
  CASE kind = "leafroot" -> << <<"root", Run(0, 0, 31)>> >>
    [] kind = "leafrev" -> << <<"nonce", Run(0, 0, 3)>>, <<"version", Run(4, 0, 3)>> >>
    [] kind = "generic" -> Append(Meta(h), <<"payload", Payload(h)>>)
    [] OTHER -> Meta(h) \o Body(kind)
LayoutTab == [kind \in Kinds |-> [h \in HeaderOf(kind) |-> LayoutDef(kind, h)]]   \* computed once
Layout(kind, h) == LayoutTab[kind][h]
Names(kind, h) == {Layout(kind, h)[i][1] : i \in 1..Len(Layout(kind, h))}
Fixed == {"type", "flags"}             \* determined by kind and header

VARIABLES cl,      \* the claim: [kind, h, f: field name -> value identifier]
          out, nxt
vars == <<cl, out, nxt>>

\* An entry as the set of <<cell, field, byte of the field, value>>.
Encode(c) == LET L == Layout(c.kind, c.h) IN
             UNION {{<<L[i][2][n], L[i][1], n, c.f[L[i][1]]>> : n \in 1..Len(L[i][2])} : i \in 1..Len(L)}
\* Decoding reads every field back from its cells, all of which must agree.
Decode(kind, h, e) == [kind |-> kind, h |-> h,
                       f |-> [n \in Names(kind, h) |->
                                LET L == Layout(kind, h)
                                    i == CHOOSE i \in 1..Len(L) : L[i][1] = n
                                    vs == {x[4] : x \in {y \in e : y[1] \in Cells(L[i])}}
                                IN IF Cardinality(vs) = 1 THEN CHOOSE v \in vs : TRUE ELSE -1]]

Fields(c) == {[n |-> x, v |-> c.f[x]] : x \in DOMAIN c.f}
Init == /\ cl = [kind |-> "none", h |-> HBasic, f |-> [x \in {} |-> 0]]
        /\ out = <<>> /\ nxt = "any"
Step(s) == out' = (IF Rec THEN Append(out, s) ELSE out) /\ UNCHANGED nxt
More == ~Rec \/ Len(out) < Depth
Sel(S) == IF P.draw /\ S # {} THEN {RandomElement(S)} ELSE S
Pick == IF P.draw THEN Ids ELSE {0}
Build == /\ More /\ cl.kind = "none"
         /\ \E kind \in (IF P.draw THEN {P.kinds[RandomElement(1..Len(P.kinds))]} ELSE Kinds) : \E h \in Sel(HeaderOf(kind)) :
              /\ cl' = [kind |-> kind, h |-> h, f |-> [x \in Names(kind, h) |-> IF x \in Fixed THEN 0 ELSE RandomElement(Pick)]]
              /\ Step([op |-> "build", kind |-> kind, h |-> h, layout |-> Layout(kind, h), f |-> Fields(cl')])
\* A change of one metadata field of the claim object.
Settable == {"nonce", "version", "expiration", "subject"} \cap DOMAIN cl.f
Set == /\ More /\ cl.kind \in {"basic", "babyjub", "otheriden", "generic"}
       /\ \E x \in Sel(Settable) : \E v \in Sel(Ids) :
            /\ cl' = [cl EXCEPT !.f[x] = v]
            /\ Step([op |-> "set", n |-> x, v |-> v, f |-> Fields(cl'),
                     index |-> x \in {"version"} \/ (x = "subject" /\ cl.h.pos = "index")])
\* The claim goes through its entry, JSON metadata, or hex, and comes back.
Through == /\ More /\ cl.kind # "none"
           /\ \E way \in Sel({"entry", "typed", "json", "hex"}) :
                Step([op |-> "through", way |-> way, f |-> Fields(cl)])
           /\ UNCHANGED cl
\* Decoding arbitrary bytes: never a crash; refused outside the field or for unknown types.
AnyEntry == /\ More
            /\ \E ty \in Sel({"basic", "babyjub", "otheriden", "unknown"}), fl \in Sel(0..255), bad \in Sel({0, 0, 1, 2, 3, 4, 5, 6, 7, 8}) :
                 Step([op |-> "any", type |-> ty, flags |-> fl, outside |-> bad, ok |-> (ty # "unknown" /\ bad = 0)])
            /\ UNCHANGED cl
\* JSON metadata whose header does not belong to its type.
BadMeta == /\ More
           /\ \E ty \in Sel({"basic", "babyjub", "otheriden", "custom"}) : \E h \in Sel(Headers), id \in Sel(BOOLEAN) :
                Step([op |-> "badmeta", type |-> ty, h |-> h, withid |-> id,
                      ok |-> /\ (ty = "custom" \/ h \in HeaderOf(ty))
                             /\ (h.subject = "self" \/ id)])
           /\ UNCHANGED cl
Skip == P.draw /\ More /\ UNCHANGED vars
Fin == Rec /\ Len(out) = Depth /\ nxt # "done" /\ nxt' = "done" /\ UNCHANGED <<cl, out>>
Next == Build \/ Set \/ Through \/ (Rec /\ (AnyEntry \/ BadMeta)) \/ Fin
Spec == Init /\ [][Next]_vars

(***************************** properties **********************************)
\* No two fields share a cell, for every kind and header.
Disjoint == cl.kind = "none" => \A kind \in Kinds : \A h \in HeaderOf(kind) : LET L == Layout(kind, h) IN
              \A i, j \in 1..Len(L) : i # j => Cells(L[i]) \cap Cells(L[j]) = {}
\* Everything fits the field: only field elements themselves use the last byte.
InField == cl.kind = "none" => \A kind \in Kinds : \A h \in HeaderOf(kind) : LET L == Layout(kind, h) IN
             \A i \in 1..Len(L) : L[i][1] \notin {"ax", "ay", "root"} => \A c \in Cells(L[i]) : c[2] <= 30
\* What identifies a claim is in the index; nonce and expiration are not.
Placed == cl.kind = "none" => \A kind \in Kinds \ {"leafroot", "leafrev"} : \A h \in HeaderOf(kind) : LET L == Layout(kind, h) IN
            \A i \in 1..Len(L) :
              /\ L[i][1] \in {"type", "flags", "version", "islot", "keytype", "ax", "ay"} => \A c \in Cells(L[i]) : c[1] <= 3
              /\ L[i][1] \in {"nonce", "expiration", "vslot"} => \A c \in Cells(L[i]) : c[1] >= 4
              /\ L[i][1] = "subject" => \A c \in Cells(L[i]) : c[1] = (IF h.pos = "index" THEN 1 ELSE 5)
RoundTrip == cl.kind # "none" => Decode(cl.kind, cl.h, Encode(cl)) = cl
\* Changing a field changes no other field's cells.
Frame == [][cl.kind # "none" => LET a == Encode(cl) b == Encode(cl') IN
              {x[1] : x \in a} = {x[1] : x \in b} /\ \A x \in a \ b : cl.f[x[2]] # cl'.f[x[2]]]_vars
Emit == (Rec /\ nxt = "done") => PrintT(ToJson(out))
=============================================================================
