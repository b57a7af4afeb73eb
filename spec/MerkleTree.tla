----------------------------- MODULE MerkleTree -----------------------------
(***************************************************************************)
(* The sparse Merkle tree of go-iden3 as an authenticated, persistent map. *)
(*                                                                         *)
(* Abstract state: the map from keys to values held in memory, the map on  *)
(* disk, every map that was ever committed ("roots"), and the snapshots    *)
(* that have been taken.  Hashing is symbolic: a node is a term of a free  *)
(* algebra, so equality of terms is equality of hashes.  The conformance   *)
(* driver evaluates every term with its own implementation of the hash and *)
(* compares it with the code, and the answers below with the code's.       *)
(*                                                                         *)
(* Properties: C01 (exact map), C02 (canonical root), C03 (proofs),        *)
(* C04 (old roots), C05 (restart/crash/fault), C06 (dump/import).          *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, IOUtils

P == JsonDeserialize(IOEnv.PARAMS)      \* run parameters, see check.py
KeyTab == JsonDeserialize(IOEnv.KEYTAB) \* path bits of every key

Keys  == {P.keys[i] : i \in 1..Len(P.keys)}     \* indexes into KeyTab
Vals  == 1..P.vals
MaxLevels == P.maxLevels
Ops   == {P.ops[i] : i \in 1..Len(P.ops)}
Depth == P.depth                                \* length of a behaviour
Rec   == P.rec                                  \* record the behaviour?

Bit(k, d) == KeyTab[k].path[d + 1]

(***************************** terms ***************************************)
E0 == [t |-> "E"]
Lf(k, v) == [t |-> "L", k |-> k, v |-> v]
Md(l, r) == [t |-> "M", l |-> l, r |-> r]
Op(i) == [t |-> "O", k |-> i]     \* an opaque node (somebody else's hash)

RECURSIVE Build(_, _, _)
Build(S, m, d) ==
    CASE S = {} -> E0
      [] Cardinality(S) = 1 -> LET k == CHOOSE k \in S : TRUE IN Lf(k, m[k])
      [] OTHER -> Md(Build({k \in S : Bit(k, d) = 0}, m, d + 1),
                     Build({k \in S : Bit(k, d) = 1}, m, d + 1))
Root(m) == Build(DOMAIN m, m, 0)

\* Deepest level at which a leaf would sit.
RECURSIVE Deepest(_, _)
Deepest(S, d) ==
    IF Cardinality(S) <= 1 THEN d
    ELSE LET a == Deepest({k \in S : Bit(k, d) = 0}, d + 1)
             b == Deepest({k \in S : Bit(k, d) = 1}, d + 1)
         IN IF a > b THEN a ELSE b
\* An entry can be stored iff its own leaf ends above the level limit.
RECURSIVE LeafLevel(_, _, _)
LeafLevel(S, k, d) ==
    IF Cardinality(S) <= 1 THEN d
    ELSE LeafLevel({x \in S : Bit(x, d) = Bit(k, d)}, k, d + 1)
Fits(m, k) == LeafLevel(DOMAIN m \cup {k}, k, 0) <= MaxLevels - 1

Put(m, k, v) == [x \in DOMAIN m \cup {k} |-> IF x = k THEN v ELSE m[x]]
Empty == [x \in {} |-> 0]
MapSeq(m) == {[k |-> k, v |-> m[k]] : k \in DOMAIN m}   \* for JSON

(***************************** proofs **************************************)
NoAux == [k |-> 0, v |-> 0]
RECURSIVE Walk(_, _, _, _, _)
Walk(S, m, k, d, sibs) ==
    CASE S = {} -> [ex |-> FALSE, sibs |-> sibs, aux |-> NoAux]
      [] Cardinality(S) = 1 ->
            LET x == CHOOSE x \in S : TRUE IN
            IF x = k THEN [ex |-> TRUE, sibs |-> sibs, aux |-> NoAux]
            ELSE [ex |-> FALSE, sibs |-> sibs, aux |-> [k |-> x, v |-> m[x]]]
      [] OTHER ->
            LET same  == {x \in S : Bit(x, d) = Bit(k, d)}
                other == S \ same
            IN Walk(same, m, k, d + 1, Append(sibs, Build(other, m, d + 1)))
Prove(m, k) == Walk(DOMAIN m, m, k, 0, <<>>)

\* Climb from the term at the bottom of the path of k to the root.
Up(t, sibs, k) ==
    FoldLeft(LAMBDA acc, d : IF Bit(k, d - 1) = 1 THEN Md(sibs[d], acc) ELSE Md(acc, sibs[d]),
             t, [i \in 1..Len(sibs) |-> Len(sibs) + 1 - i])

BadRoot == [t |-> "X"]            \* "no root": the proof must be refused
RootFrom(p, k, v) ==
    IF ~p.ex /\ p.aux.k = k THEN BadRoot
    ELSE Up(IF p.ex THEN Lf(k, v)
            ELSE IF p.aux.k = 0 THEN E0 ELSE Lf(p.aux.k, p.aux.v),
            p.sibs, k)
Verify(p, k, v, root) == RootFrom(p, k, v) = root

(* All alterations of a proof that touch one component. *)
Replace(s, i, t) == [s EXCEPT ![i] = t]
Swap(s, i) == [s EXCEPT ![i] = s[i + 1], ![i + 1] = s[i]]
Pool(m) == {Root(m), E0, Op(1)} \cup {Lf(k, m[k]) : k \in DOMAIN m}
Alter(p, m, ks) ==
    {p, [p EXCEPT !.ex = ~p.ex], [p EXCEPT !.aux = NoAux]}
    \cup {[p EXCEPT !.ex = FALSE, !.aux = [k |-> k, v |-> v]] : k \in ks, v \in Vals}
    \cup {[p EXCEPT !.sibs = Append(p.sibs, t)] : t \in Pool(m)}
    \cup {[p EXCEPT !.sibs = <<t>> \o p.sibs] : t \in {E0, Op(1)}}
    \cup (IF Len(p.sibs) = 0 THEN {} ELSE
            {[p EXCEPT !.sibs = SubSeq(p.sibs, 1, Len(p.sibs) - 1)],
             [p EXCEPT !.sibs = SubSeq(p.sibs, 2, Len(p.sibs))],
             [p EXCEPT !.sibs = <<>>],
             [p EXCEPT !.sibs = SubSeq(p.sibs, 1, Len(p.sibs) - 1), !.ex = FALSE, !.aux = NoAux]})
    \cup UNION {{[p EXCEPT !.sibs = Replace(p.sibs, i, t)] : t \in Pool(m)} : i \in 1..Len(p.sibs)}
    \cup {[p EXCEPT !.sibs = Swap(p.sibs, i)] : i \in 1..(Len(p.sibs) - 1)}

(***************************** state ***************************************)
VARIABLES mem,    \* the map of the open tree
          disk,   \* the map a reopening would give
          up,     \* is a tree object open?
          roots,  \* sequence of every map ever committed in this storage
          snaps,  \* maps of the snapshots taken from this storage
          out,    \* the recorded behaviour
          nxt     \* simulation only: the operation drawn for the next step
vars == <<mem, disk, up, roots, snaps, out, nxt>>

Init == /\ mem = Empty /\ disk = Empty /\ up = TRUE
        /\ roots = <<Empty>> /\ snaps = <<>> /\ out = <<>>
        /\ nxt = IF P.draw THEN P.ops[1] ELSE "any"

Known(m) == \E i \in 1..Len(roots) : roots[i] = m
Draw == nxt' = IF P.draw THEN P.ops[RandomElement(1..Len(P.ops))] ELSE nxt
Step(s) == out' = (IF Rec THEN Append(out, s) ELSE out) /\ Draw
More == ~Rec \/ Len(out) < Depth
On(o) == o \in Ops /\ More /\ nxt \in {o, "any"}
Sel(S) == IF P.draw /\ S # {} THEN {RandomElement(S)} ELSE S
Fin == Rec /\ Len(out) = Depth /\ nxt # "done" /\ nxt' = "done"
       /\ UNCHANGED <<mem, disk, up, roots, snaps, out>>
Skip == P.draw /\ More /\ Draw /\ UNCHANGED <<mem, disk, up, roots, snaps, out>>

(* What any reader must see at map m: per key the value or absence and the proof *)
ProbeOf(m) == [root |-> Root(m),
               map  |-> MapSeq(m),
               keys |-> {[k |-> k, found |-> k \in DOMAIN m,
                          v |-> IF k \in DOMAIN m THEN m[k] ELSE 0,
                          proof |-> Prove(m, k)] : k \in Keys}]
LightOf(m) == [root |-> Root(m), map |-> MapSeq(m)]

Commit(m) == /\ mem' = m /\ disk' = m
             /\ roots' = IF Known(m) THEN roots ELSE Append(roots, m)

AddRes(k, v) == IF k \in DOMAIN mem THEN "dup"
                ELSE IF ~Fits(mem, k) THEN "max" ELSE "ok"

Add == /\ On("add") /\ up
       /\ \E k \in Sel(Keys), v \in Sel(Vals) :
            LET r == AddRes(k, v) IN
            /\ IF r = "ok" THEN Commit(Put(mem, k, v))
               ELSE UNCHANGED <<mem, disk, roots>>
            /\ Step([op |-> "add", k |-> k, v |-> v, res |-> r, after |-> LightOf(mem')])
            /\ UNCHANGED <<up, snaps>>

\* Only insertions that succeed (to reach deep trees quickly in simulation).
AddNew == /\ On("addnew") /\ up
          /\ \E k \in Sel(Keys \ DOMAIN mem), v \in Sel(Vals) :
               /\ Fits(mem, k)
               /\ Commit(Put(mem, k, v))
               /\ Step([op |-> "add", k |-> k, v |-> v, res |-> "ok", after |-> LightOf(mem')])
               /\ UNCHANGED <<up, snaps>>

\* An insertion that the code must refuse although the key is new.
AddBad == /\ On("addbad") /\ up
          /\ \E k \in Sel(Keys), e \in Sel(0..7) :
               /\ Step([op |-> "addbad", k |-> k, elem |-> e, res |-> "field", after |-> LightOf(mem)])
               /\ UNCHANGED <<mem, disk, up, roots, snaps>>

Get == /\ On("get") /\ up
       /\ Step([op |-> "probe", at |-> 0, exp |-> ProbeOf(mem)])
       /\ UNCHANGED <<mem, disk, up, roots, snaps>>

\* Query an old root through the live tree and through a fresh snapshot.
GetAt == /\ On("getat") /\ up
         /\ \E i \in Sel(1..Len(roots)) :
              Step([op |-> "probe", at |-> i, exp |-> ProbeOf(roots[i])])
         /\ UNCHANGED <<mem, disk, up, roots, snaps>>

Unknown == /\ On("unknown") /\ up
           /\ Step([op |-> "unknown", exp |-> LightOf(mem)])
           /\ UNCHANGED <<mem, disk, up, roots, snaps>>

Snap == /\ On("snap") /\ up /\ Len(snaps) < 4
        /\ \E i \in Sel(1..Len(roots)) :
             /\ snaps' = Append(snaps, roots[i])
             /\ Step([op |-> "snap", at |-> i, exp |-> LightOf(roots[i])])
        /\ UNCHANGED <<mem, disk, up, roots>>

GetSnap == /\ On("snap")
           /\ \E i \in Sel(1..Len(snaps)) :
                Step([op |-> "probesnap", snap |-> i, exp |-> ProbeOf(snaps[i])])
           /\ UNCHANGED <<mem, disk, up, roots, snaps>>

AddSnap == /\ On("snap") /\ up
           /\ \E i \in Sel(1..Len(snaps)), k \in Sel(Keys), v \in Sel(Vals) :
                Step([op |-> "addsnap", snap |-> i, k |-> k, v |-> v, res |-> "notwritable",
                      exp |-> LightOf(snaps[i]), after |-> LightOf(mem)])
           /\ UNCHANGED <<mem, disk, up, roots, snaps>>

(***************************** restart, crash, fault ***********************)
Reopen == /\ On("reopen") /\ up
          /\ mem' = disk /\ up' = TRUE
          /\ Step([op |-> "reopen", after |-> LightOf(disk)])
          /\ UNCHANGED <<disk, roots, snaps>>

\* Opening while the storage cannot be read: an error, and nothing changes.
OpenFault == /\ On("fault") /\ up
             /\ mem' = disk
             /\ Step([op |-> "openfault", res |-> "err", after |-> LightOf(disk)])
             /\ UNCHANGED <<disk, up, roots, snaps>>

\* A storage error at some operation of an insertion: an error is reported
\* (unless the insertion does not perform such an operation), memory and disk
\* agree, and a retry succeeds.
AddFault == /\ On("fault") /\ up
            /\ \E k \in Sel(Keys \ DOMAIN mem), v \in Sel(Vals), w \in Sel({"newtx", "get", "txget", "commit"}), n \in Sel(1..3) :
                 /\ Fits(mem, k)
                 /\ Step([op |-> "addfault", k |-> k, v |-> v, where |-> w, nth |-> n,
                          before |-> LightOf(mem), done |-> LightOf(Put(mem, k, v))])
                 /\ Commit(Put(mem, k, v))      \* the driver retries until it succeeds
            /\ UNCHANGED <<up, snaps>>

\* A crash before or after some storage commit of an insertion, then a
\* reopening: the tree is the one before or the one after; the driver then
\* retries, so that the insertion is complete.
AddCrash == /\ On("crash") /\ up
            /\ \E k \in Sel(Keys \ DOMAIN mem), v \in Sel(Vals), w \in Sel({"before", "after"}), n \in Sel(1..2) :
                 /\ Fits(mem, k)
                 /\ Step([op |-> "addcrash", k |-> k, v |-> v, where |-> w, nth |-> n,
                          before |-> LightOf(mem), done |-> LightOf(Put(mem, k, v))])
                 /\ Commit(Put(mem, k, v))
            /\ UNCHANGED <<up, snaps>>

(***************************** dump and import *****************************)
\* The live tree is replaced by a fresh one that imported a dump of an old root.
Import == /\ On("import") /\ up
          /\ \E i \in Sel(1..Len(roots)), kind \in Sel({"tree", "claims"}) :
               /\ mem' = roots[i] /\ disk' = roots[i] /\ snaps' = <<>>
               /\ roots' = <<Empty>> \o (IF roots[i] = Empty THEN <<>> ELSE <<roots[i]>>)
               /\ Step([op |-> "import", at |-> i, kind |-> kind, exp |-> ProbeOf(roots[i])])
          /\ UNCHANGED up

\* Importing a damaged dump of a root fails and leaves the importing tree alone.
ImportBad == /\ On("importbad") /\ up
             /\ \E i \in Sel(1..Len(roots)), cut \in Sel(0..9) :
                  Step([op |-> "importbad", at |-> i, cut |-> cut, after |-> LightOf(mem)])
             /\ UNCHANGED <<mem, disk, up, roots, snaps>>

(***************************** proofs: forgery *****************************)
Rnd(S) == RandomElement(S)
\* One randomly drawn alteration (the same kinds as Alter, for large trees).
RndAlter(p, m, ks) ==
    CHOOSE q \in
      {CASE n = 1 -> p
         [] n = 2 -> [p EXCEPT !.ex = ~p.ex]
         [] n = 3 -> [p EXCEPT !.aux = NoAux]
         [] n = 4 -> [p EXCEPT !.ex = FALSE, !.aux = [k |-> a, v |-> IF a \in DOMAIN m THEN m[a] ELSE w]]
         [] n = 5 -> [p EXCEPT !.ex = FALSE, !.aux = [k |-> a, v |-> w]]
         [] n = 6 -> [p EXCEPT !.sibs = Append(p.sibs, t)]
         [] n = 7 -> [p EXCEPT !.sibs = <<t>> \o p.sibs]
         [] n = 8 /\ Len(p.sibs) > 0 -> [p EXCEPT !.sibs = SubSeq(p.sibs, 1, Len(p.sibs) - 1)]
         [] n = 9 /\ Len(p.sibs) > 0 -> [p EXCEPT !.sibs = SubSeq(p.sibs, 2, Len(p.sibs))]
         [] n = 10 /\ Len(p.sibs) > 0 -> [p EXCEPT !.sibs = SubSeq(p.sibs, 1, Len(p.sibs) - 1), !.ex = FALSE, !.aux = NoAux]
         [] n = 11 /\ Len(p.sibs) > 0 -> [p EXCEPT !.sibs = Replace(p.sibs, i, t)]
         [] n = 12 /\ Len(p.sibs) > 1 /\ i < Len(p.sibs) -> [p EXCEPT !.sibs = Swap(p.sibs, i)]
         [] n = 13 -> [p EXCEPT !.sibs = SubSeq(p.sibs, 1, i - 1), !.ex = FALSE, !.aux = NoAux]
         [] OTHER -> p :
         <<n, a, w, t, i>> \in
           {<<RandomElement(1..13), RandomElement(ks), RandomElement(Vals),
              CASE RandomElement(1..4) = 1 -> E0
                [] RandomElement(1..3) = 1 -> Op(1)
                [] RandomElement(1..2) = 1 /\ DOMAIN m # {} ->
                     (CHOOSE y \in {Lf(x, m[x]) : x \in {RandomElement(DOMAIN m)}} : TRUE)
                [] OTHER -> Root(m),
              IF Len(p.sibs) = 0 THEN 1 ELSE RandomElement(1..Len(p.sibs))>>}} : TRUE
ForgeOne(rs) ==
    CHOOSE r \in
      {[p |-> q, k |-> k2, v |-> v2, root |-> Root(h2), verifies |-> Verify(q, k2, v2, Root(h2))] :
         <<q, k2, v2, h2>> \in
           UNION {{<<RndAlter(Prove(h1, k1), h1, Keys),
                     IF Rnd(1..3) = 1 THEN Rnd(Keys) ELSE k1,
                     IF Rnd(1..2) = 1 \/ k1 \notin DOMAIN h1 THEN Rnd(Vals) ELSE h1[k1],
                     IF Rnd(1..3) = 1 THEN roots[Rnd(1..Len(roots))] ELSE h1>>} :
                  <<h1, k1>> \in {<<roots[Rnd(1..Len(roots))], Rnd(Keys)>>}}} : TRUE
Forge == /\ On("forge") /\ up
         /\ Step([op |-> "forge", tries |-> [i \in 1..30 |-> ForgeOne(i)]])
         /\ UNCHANGED <<mem, disk, up, roots, snaps>>

\* Proofs of any depth made of opaque siblings: encoding and verification.
Depths == {0, 1, 2, 7, 8, 9, 15, 16, 17, 63, 64, 65, 127, 128, 129, 191, 192, 193, 231, 232, 233, 238, 239, 240}
SynthOf(d, dens, k, v, kind, ak) ==
    LET p == [ex |-> kind = "ex",
              sibs |-> [i \in 1..d |-> IF Rnd(1..100) <= dens \/ i = d THEN Op(i) ELSE E0],
              aux |-> IF kind = "aux" THEN [k |-> ak, v |-> v] ELSE NoAux]
    IN p
Synth == /\ On("synth") /\ up
         /\ \E x \in {<<Rnd(Depths), Rnd({0, 5, 50, 100}), Rnd(Keys), Rnd(Vals), Rnd({"ex", "nex", "aux"}), Rnd(Keys)>>} :
            \E p \in {SynthOf(x[1], x[2], x[3], x[4], x[5], x[6])} :
              Step([op |-> "synth", p |-> p, k |-> x[3], v |-> x[4],
                    rejected |-> RootFrom(p, x[3], x[4]) = BadRoot,
                    root |-> RootFrom(p, x[3], x[4])])
         /\ UNCHANGED <<mem, disk, up, roots, snaps>>

\* Malformed proof encodings; the layout is: flags, depth, bitmap (30 bytes),
\* one 32-byte sibling per bit below depth, then two 32-byte words if aux.
DecodeOne(i) ==
    CHOOSE r \in {[flags |-> f, depth |-> d, bits |-> b, nsib |-> n, aux |-> a, extra |-> x,
                   valid |-> /\ d <= 240
                             /\ n + (IF a THEN 2 ELSE 0) =
                                  Cardinality({y \in b : y < d}) + (IF f = 3 THEN 2 ELSE 0)
                             /\ x = 0] :
        <<f, d, b, n, a, x>> \in {<<Rnd({0, 1, 3}), Rnd({0, 1, 3, 8, 200, 240, 241, 255}),
             Rnd({{}, {0}, {0, 1, 2}, {1, 7}, {199, 239}, {0, 8, 16}, {5, 100, 235}}),
             Rnd(0..3), Rnd(BOOLEAN), Rnd({0, 0, 0, 1, 31})>>}} : TRUE
Decode == /\ On("decode") /\ up
          /\ Step([op |-> "decode", tries |-> [i \in 1..40 |-> DecodeOne(i)]])
          /\ UNCHANGED <<mem, disk, up, roots, snaps>>

\* A tree with one leaf far below (imported): lookups and proofs at any depth.
DeepChain == /\ On("deep") /\ up
             /\ \E x \in {<<Rnd(Depths \ {0, 239, 240}), Rnd({0, 5, 50, 100}), Rnd(Keys), Rnd(Vals)>>} :
                \E p \in {SynthOf(x[1], x[2], x[3], x[4], "ex", 0)} :
                  Step([op |-> "deep", p |-> p, k |-> x[3], v |-> x[4], root |-> RootFrom(p, x[3], x[4])])
             /\ UNCHANGED <<mem, disk, up, roots, snaps>>

Next == \/ Add \/ AddNew \/ AddBad \/ Get \/ GetAt \/ Unknown \/ Snap \/ GetSnap \/ AddSnap
        \/ Reopen \/ OpenFault \/ AddFault \/ AddCrash \/ Import \/ ImportBad
        \/ Forge \/ Synth \/ Decode \/ DeepChain \/ Skip \/ Fin
Spec == Init /\ [][Next]_vars

(***************************** properties **********************************)
TypeOK == /\ DOMAIN mem \subseteq Keys /\ DOMAIN disk \subseteq Keys
Durable == up => mem = disk                              \* C05
Bounded == Deepest(DOMAIN mem, 0) <= MaxLevels - 1       \* C01
HistoryClosed == Known(mem)                              \* C04
\* C02: distinct maps have distinct roots (the converse is by construction).
Injective == \A i, j \in 1..Len(roots) : Root(roots[i]) = Root(roots[j]) => roots[i] = roots[j]
\* C03: completeness and soundness against every alteration, key, value and known root.
Complete == \A k \in Keys, v \in Vals :
              LET p == Prove(mem, k) IN
              /\ p.ex = (k \in DOMAIN mem)
              /\ ((p.ex /\ v = mem[k]) \/ ~p.ex) => Verify(p, k, v, Root(mem))
Sound == \A k1 \in Keys : \A q \in Alter(Prove(mem, k1), mem, Keys) :
           \A k2 \in Keys, v \in Vals, i \in 1..Len(roots) :
             Verify(q, k2, v, Root(roots[i])) =>
               IF q.ex THEN k2 \in DOMAIN roots[i] /\ roots[i][k2] = v
               ELSE k2 \notin DOMAIN roots[i]

\* Emission of recorded behaviours (always true).
Emit == (Rec /\ nxt = "done") => PrintT(ToJson(out))
=============================================================================
