------------------------------- MODULE KeyStore -------------------------------
(***************************************************************************)
(* Key stores kept in files (keystore/keystore.go).  Property C20.         *)
(* The user's view: `disk` (passphrase of every stored key), the handles   *)
(* with their unlocked keys, and who owns a file.  The mechanism below it: *)
(* advisory locks on the inode of a lock file that every storage object    *)
(* opens for itself, and a write in two steps (a new file, then a rename). *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

P == JsonDeserialize(IOEnv.PARAMS)
Ops   == {P.ops[i] : i \in 1..Len(P.ops)}
Depth == P.depth
Rec   == P.rec
Files == 1..P.files
Stors == 1..Len(P.stors)          \* storage objects, each of one file
FileOf(s) == P.stors[s]
Imported == 1..P.imported         \* keys whose secret the user has
Created == P.imported+1..P.imported+P.created
Passes == 1..P.passes
MaxH  == P.maxHandles
Shared == P.shared                \* whether several storage objects contend
Faults == P.faults                \* one in so many imports fails (0: none)

VARIABLES disk, maybe, hs, made, crashes, budget,
          ino, fh, held, tmp,     \* mechanism
          out, nxt
mech == <<ino, fh, held, tmp>>
user == <<disk, maybe, hs, made, crashes, budget>>
vars == <<disk, maybe, hs, made, crashes, budget, ino, fh, held, tmp, out, nxt>>
Empty == [x \in {} |-> 0]
With(f, n, v) == [x \in DOMAIN f \cup {n} |-> IF x = n THEN v ELSE f[x]]

Init == /\ disk = [f \in Files |-> Empty] /\ maybe = [f \in Files |-> {}] /\ hs = <<>> /\ made = {} /\ crashes = 0
        /\ budget = P.budget
        /\ ino = [f \in Files |-> 0] /\ fh = [s \in Stors |-> 0] /\ held = {} /\ tmp = <<>>
        /\ out = <<>> /\ nxt = IF P.draw THEN P.ops[1] ELSE "any"
Draw == nxt' = IF P.draw THEN P.ops[RandomElement(1..Len(P.ops))] ELSE nxt
Step(s) == out' = (IF Rec THEN Append(out, s) ELSE out) /\ Draw
More == ~Rec \/ Len(out) < Depth
On(o) == o \in Ops /\ More /\ nxt \in {o, "any"} /\ tmp = <<>>
Sel(S) == IF P.draw /\ S # {} THEN {RandomElement(S)} ELSE S
Fin == Rec /\ Len(out) = Depth /\ nxt # "done" /\ nxt' = "done" /\ UNCHANGED <<user, mech, out>>
Skip == P.draw /\ More /\ Draw /\ UNCHANGED <<user, mech, out>>
Rarely == IF P.draw THEN Faults > 0 /\ RandomElement(1..Faults) = 1 ELSE budget > 0

Hs == 1..Len(hs)
Opened == {h \in Hs : hs[h].open}
Closed == Hs \ Opened
\* The latest closed handles are the interesting ones.
Stale == {h \in Closed : Len(hs) - h < 6}
Owners(f) == {h \in Opened : FileOf(hs[h].s) = f}
F(h) == FileOf(hs[h].s)
\* The lock the mechanism sees: somebody else's lock on the same inode.
Conflict(s, i) == \E t \in held : t # s /\ fh[t] = i

\* Opening takes the lock; a storage object that failed keeps its lock file open.
Open == /\ On("open")
        /\ \E s \in Sel(Stors) :
             LET f == FileOf(s)
                 free == Owners(f) = {}
                 i == IF fh[s] # 0 THEN fh[s] ELSE IF ino[f] # 0 THEN ino[f] ELSE f
                 got == s \notin held /\ ~Conflict(s, i)
             IN /\ (Shared \/ free) /\ (~Rec => Len(hs) < MaxH)
                /\ ino' = [ino EXCEPT ![f] = IF fh[s] # 0 THEN @ ELSE i]
                /\ fh' = [fh EXCEPT ![s] = i]
                /\ held' = (IF got THEN held \cup {s} ELSE held)
                /\ hs' = (IF free THEN Append(hs, [s |-> s, open |-> TRUE, cache |-> {}]) ELSE hs)
                /\ Assert(got <=> free, "the lock does not decide the owner")
                /\ Step([op |-> "open", s |-> s, exp |-> IF free THEN "ok" ELSE "lock", keys |-> DOMAIN disk[f], maybe |-> maybe[f]])
        /\ UNCHANGED <<disk, maybe, made, crashes, budget, tmp>>
\* Closing again has no effect, whoever owns the file by then.
Close == /\ On("close")
         /\ \E h \in Sel(Opened \cup Stale) :
              /\ hs' = [hs EXCEPT ![h] = [@ EXCEPT !.open = FALSE, !.cache = {}]]
              /\ held' = (IF hs[h].open THEN held \ {hs[h].s} ELSE held)
              /\ fh' = (IF hs[h].open THEN [fh EXCEPT ![hs[h].s] = 0] ELSE fh)
              /\ Step([op |-> "close", h |-> h, first |-> hs[h].open])
         /\ UNCHANGED <<disk, maybe, made, crashes, budget, ino, tmp>>
\* The garbage collector finds handles that are no longer used.
Gc == /\ On("gc") /\ Step([op |-> "gc"]) /\ UNCHANGED <<user, mech>>

\* Storing a key writes a new file; renaming it makes it the file.
Store(h, k, p, op) ==
    /\ disk' = [disk EXCEPT ![F(h)] = With(@, k, p)]
    /\ Step([op |-> op, h |-> h, k |-> k, p |-> p, fault |-> "", exp |-> "ok"])
    /\ UNCHANGED <<maybe, hs, crashes, mech>>
New == /\ On("new")
       /\ \E h \in Sel(Opened), k \in Sel(Created \ made), p \in Sel(Passes) :
            made' = made \cup {k} /\ Store(h, k, p, "new") /\ UNCHANGED budget
Import == /\ On("import") /\ P.draw
          /\ \E h \in Sel(Opened), k \in Sel(Imported), p \in Sel(Passes) :
               Store(h, k, p, "import") /\ UNCHANGED <<made, budget>>
ImportBegin == /\ On("import") /\ ~P.draw
               /\ \E h \in Opened, k \in Imported, p \in Passes : tmp' = <<h, k, p>>
               /\ UNCHANGED <<user, ino, fh, held, out, nxt>>
ImportEnd == /\ tmp # <<>> /\ tmp' = <<>>
             /\ disk' = [disk EXCEPT ![F(tmp[1])] = With(@, tmp[2], tmp[3])]
             /\ UNCHANGED <<maybe, hs, made, crashes, budget, ino, fh, held, out, nxt>>
ImportLost == /\ tmp # <<>> /\ budget > 0 /\ tmp' = <<>> /\ budget' = budget - 1
              /\ UNCHANGED <<disk, maybe, hs, made, crashes, ino, fh, held, out, nxt>>
\* A write that fails, cut short after some bytes or before any.
ImportFails == /\ On("import") /\ Rec /\ Rarely
               /\ \E h \in Sel(Opened), k \in Sel(Imported), p \in Sel(Passes), n \in Sel({0, 1, 10, 100, 300}) :
                    Step([op |-> "import", h |-> h, k |-> k, p |-> p, fault |-> "write", n |-> n, exp |-> "err"])
               /\ UNCHANGED <<user, mech>>
NewFails == /\ On("new") /\ Rec /\ Rarely
            /\ \E h \in Sel(Opened), p \in Sel(Passes), n \in Sel({0, 1, 10, 100, 300}) :
                 Step([op |-> "new", h |-> h, k |-> 0, p |-> p, fault |-> "write", n |-> n, exp |-> "err"])
            /\ UNCHANGED <<user, mech>>
\* A closed handle stores nothing.
ImportStale == /\ On("stale")
               /\ \E h \in Sel(Stale), k \in Sel(Imported), p \in Sel(Passes) :
                    Step([op |-> "import", h |-> h, k |-> k, p |-> p, fault |-> "", exp |-> "err"])
               /\ UNCHANGED <<user, mech>>

Unlock == /\ On("unlock")
          /\ \E h \in Sel(Opened), k \in Sel(Imported \cup made), p \in Sel(Passes), right \in Sel({TRUE, FALSE}) :
               LET there == k \in DOMAIN disk[F(h)]
                   q == IF there /\ right THEN disk[F(h)][k] ELSE p
                   ok == there /\ disk[F(h)][k] = q
               IN /\ hs' = (IF ok THEN [hs EXCEPT ![h].cache = @ \cup {k}] ELSE hs)
                  /\ Step([op |-> "unlock", h |-> h, k |-> k, p |-> q, exp |-> IF ok THEN "ok" ELSE IF there THEN "bad" ELSE "absent"])
          /\ UNCHANGED <<disk, maybe, made, crashes, budget, mech>>
\* A passphrase near to the right one, which is another one.  (nul, digest: the
\* ones that the key derivation takes for the same.)
Near(op, hows) == /\ On(op)
                  /\ \E h \in Sel({x \in Opened : DOMAIN disk[F(x)] # {}}), how \in Sel(hows) :
                     \E k \in Sel(DOMAIN disk[F(h)]) :
                        Step([op |-> "near", h |-> h, k |-> k, p |-> disk[F(h)][k], how |-> how, exp |-> "bad"])
                  /\ UNCHANGED <<user, mech>>
Use(op) == /\ On(op)
           /\ \E h \in Sel(Opened \cup Stale), k \in Sel(Imported \cup made) :
                Step([op |-> op, h |-> h, k |-> k, exp |-> IF k \in hs[h].cache THEN "ok" ELSE "locked"])
           /\ UNCHANGED <<user, mech>>
Keys == /\ On("keys")
        /\ \E h \in Sel(Opened) : Step([op |-> "keys", h |-> h, keys |-> DOMAIN disk[F(h)], maybe |-> maybe[F(h)]])
        /\ UNCHANGED <<user, mech>>

\* Another process: it tries to open, stores a key and ends without closing, or
\* is ended in the middle of storing one (after some bytes, or at a system call).
ProcTry == /\ On("proc")
           /\ \E f \in Sel(Files) :
                Step([op |-> "proctry", f |-> f, exp |-> IF Owners(f) = {} THEN "ok" ELSE "lock", disk |-> {[k |-> k, p |-> disk[f][k]] : k \in DOMAIN disk[f]}, maybe |-> maybe[f]])
           /\ UNCHANGED <<user, mech>>
ProcImport == /\ On("proc")
              /\ \E f \in Sel({x \in Files : Owners(x) = {}}), k \in Sel(Imported), p \in Sel(Passes) :
                   /\ disk' = [disk EXCEPT ![f] = With(@, k, p)]
                   /\ Step([op |-> "procimport", f |-> f, k |-> k, p |-> p])
              /\ UNCHANGED <<maybe, hs, made, crashes, budget, mech>>
ProcCrash == /\ On("proc") /\ Rec
             /\ \E f \in Sel({x \in Files : Owners(x) = {}}), n \in Sel({0, 3, 50, 200, 400, 1000, -2, -3, -4, -5}) :
                  /\ crashes' = crashes + 1
                  /\ maybe' = [maybe EXCEPT ![f] = @ \cup {1000 + crashes}]
                  /\ Step([op |-> "proccrash", f |-> f, k |-> 1000 + crashes, n |-> n])
             /\ UNCHANGED <<disk, hs, made, budget, mech>>
\* A damaged file is refused and the file stays free.
Junk == /\ On("junk")
        /\ \E f \in Sel({x \in Files : Owners(x) = {}}), n \in Sel(1..6) : Step([op |-> "junk", f |-> f, n |-> n])
        /\ UNCHANGED <<user, mech>>
Enc == /\ On("enc")
       /\ \E n \in Sel({0, 1, 31, 32, 33, 64, 1000}), p \in Sel(Passes), q \in Sel(Passes) : Step([op |-> "enc", n |-> n, p |-> p, q |-> q, exp |-> p = q])
       /\ UNCHANGED <<user, mech>>

Next == Open \/ Close \/ Gc \/ New \/ Import \/ ImportBegin \/ ImportEnd \/ ImportLost \/ ImportFails \/ NewFails \/ ImportStale
        \/ Unlock \/ Near("near", {"space", "front", "case", "cut", "double", "bit", "ff", "newline", "empty"}) \/ Near("nul", {"nul", "nuls", "digest"})
        \/ Use("export") \/ Use("sign") \/ Keys \/ ProcTry \/ ProcImport \/ ProcCrash \/ Junk \/ Enc \/ Skip \/ Fin
Spec == Init /\ [][Next]_vars

OneOwner == \A f \in Files : Cardinality(Owners(f)) <= 1
\* The lock is held by the storage object of the owner, on the inode everybody opens.
LockIsOwner == /\ held = {hs[h].s : h \in Opened}
               /\ \A s \in Stors : fh[s] # 0 => fh[s] = ino[FileOf(s)]
UnlockedAreStored == \A h \in Opened : hs[h].cache \subseteq DOMAIN disk[F(h)]
ClosedAreLocked == \A h \in Closed : hs[h].cache = {}
NothingLost == [][\A f \in Files : DOMAIN disk[f] \subseteq DOMAIN disk'[f]]_vars
OnlyOwners == [][\A f \in Files : disk'[f] # disk[f] => Owners(f) # {} \/ "proc" \in Ops]_vars

Emit == (Rec /\ nxt = "done") => PrintT(ToJson(out))
=============================================================================
