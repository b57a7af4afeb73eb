---------------------------------- MODULE Zk ----------------------------------
(***************************************************************************)
(* Zero-knowledge artifacts: three files of a directory, fetched from a    *)
(* server when absent and used only with the expected hash (utils/zk).     *)
(* Property C22.  The fetching itself, with its lock, temporary file and   *)
(* rename, by several processes, is ZkFetch.tla.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

P == JsonDeserialize(IOEnv.PARAMS)
Ops   == {P.ops[i] : i \in 1..Len(P.ops)}
Depth == P.depth
Rec   == P.rec
MaxZ  == P.maxZ
Files == 1..3                     \* proving key, verification key, witness program
Pk == 1

\* What the server answers for a file.
Fails == {"404", "500", "close", "cut", "cutchunk", "redirect"}   \* noticed by the client
Wrong == {"bad", "other", "short", "empty"}                        \* a complete answer with other bytes
Modes == IF P.draw THEN {"good"} \cup Fails \cup Wrong ELSE {"good", "404", "bad"}
Hows == IF P.draw THEN {"remove", "restore", "flip", "cut", "other", "space", "empty"} ELSE {"remove", "restore", "flip"}

VARIABLES disk,                   \* "absent", "good" or "bad", per file
          srv, zs, out, nxt
vars == <<disk, srv, zs, out, nxt>>
Init == /\ disk = [f \in Files |-> "absent"] /\ srv = [f \in Files |-> "good"] /\ zs = <<>>
        /\ out = <<>> /\ nxt = IF P.draw THEN P.ops[1] ELSE "any"
Draw == nxt' = IF P.draw THEN P.ops[RandomElement(1..Len(P.ops))] ELSE nxt
Step(s) == out' = (IF Rec THEN Append(out, s) ELSE out) /\ Draw
More == ~Rec \/ Len(out) < Depth
On(o) == o \in Ops /\ More /\ nxt \in {o, "any"}
Sel(S) == IF P.draw /\ S # {} THEN {RandomElement(S)} ELSE S
Fin == Rec /\ Len(out) = Depth /\ nxt # "done" /\ nxt' = "done" /\ UNCHANGED <<disk, srv, zs, out>>
Skip == P.draw /\ More /\ Draw /\ UNCHANGED <<disk, srv, zs, out>>
Live == {i \in 1..Len(zs) : Len(zs) - i < 6}

New == /\ On("new") /\ Len(zs) < MaxZ
       /\ \E c \in Sel(BOOLEAN), wrong \in (IF P.draw THEN {RandomElement({{1}, {2}, {3}, {-1}, {-2}}) \cap Files} ELSE {{}, {2}}) :
            /\ zs' = Append(zs, [cache |-> c, wrong |-> wrong, checked |-> {}, loaded |-> {}, spent |-> {}])
            /\ Step([op |-> "new", cache |-> c, wrong |-> wrong])
       /\ UNCHANGED <<disk, srv>>
Serve == /\ On("serve")
         /\ \E f \in Sel(Files), m \in Sel(Modes) : srv' = [srv EXCEPT ![f] = m] /\ Step([op |-> "serve", f |-> f, m |-> m])
         /\ UNCHANGED <<disk, zs>>
\* The user (or a fault) changes the directory.
Touch == /\ On("touch")
         /\ \E f \in Sel(Files), how \in Sel(Hows) :
              /\ disk' = [disk EXCEPT ![f] = IF how = "remove" THEN "absent" ELSE IF how = "restore" THEN "good" ELSE "bad"]
              /\ Step([op |-> "touch", f |-> f, how |-> how])
         /\ UNCHANGED <<srv, zs>>

\* What asking z for file f gives: cached, "ok", "err", "safe" (an error or the
\* genuine file) or "wrong" (the server gives other bytes).
Answer(z, f) == IF disk[f] = "bad" THEN "err"
                ELSE IF disk[f] = "good" THEN IF f \in z.wrong THEN "err" ELSE "ok"
                ELSE IF f \in z.checked THEN "safe"
                ELSE IF srv[f] \in Fails THEN "err"
                ELSE IF srv[f] \in Wrong THEN "wrong"
                ELSE IF f \in z.wrong THEN "err" ELSE "ok"
After(z, f) == IF disk[f] = "absent" /\ f \notin z.checked /\ srv[f] = "good" THEN "good" ELSE disk[f]
Asking(op) ==
    /\ On(op)
    /\ \E i \in Sel(Live), f \in Sel(Files) :
         LET z == zs[i]
             cached == op # "download" /\ f \in z.loaded
             \* asking for a download looks again at what was checked before
             y == IF op = "download" THEN [z EXCEPT !.checked = @ \ {f}] ELSE z
             a == IF cached THEN "ok" ELSE Answer(y, f)
             ok == a = "ok"
             keep == ok /\ op # "download" /\ (f # Pk \/ z.cache)
         IN /\ f \notin z.spent
            /\ disk' = (IF cached THEN disk ELSE [disk EXCEPT ![f] = After(y, f)])
            /\ zs' = [zs EXCEPT ![i] = [z EXCEPT !.checked = IF ok /\ ~cached THEN @ \cup {f} ELSE @,
                                                  !.loaded = IF keep THEN @ \cup {f} ELSE @,
                                                  !.spent = IF a \in {"safe", "wrong"} THEN @ \cup {f} ELSE @]]
            /\ Step([op |-> op, z |-> i, f |-> f, exp |-> a, was |-> disk[f], held |-> f \in z.loaded])
    /\ UNCHANGED srv
\* All three at once, when each of them has a plain answer.
AskingAll(op, one) ==
    /\ On(op)
    /\ \E i \in Sel(Live) :
         LET z == IF one = "download" THEN [zs[i] EXCEPT !.checked = {}, !.loaded = {}] ELSE zs[i]
             a(f) == IF f \in z.loaded THEN "ok" ELSE Answer(z, f)
             bad == {f \in Files : a(f) = "err"}
             n == IF bad = {} THEN 4 ELSE CHOOSE f \in bad : \A g \in bad : f <= g
             got == {f \in Files : f < n}
         IN /\ zs[i].spent = {} /\ \A f \in Files : a(f) \in {"ok", "err"}
            /\ disk' = [f \in Files |-> IF f <= n /\ f \notin z.loaded THEN After(z, f) ELSE disk[f]]
            /\ zs' = [zs EXCEPT ![i] = [@ EXCEPT !.checked = @ \cup (got \ z.loaded),
                                               !.loaded = IF one = "download" THEN @ ELSE @ \cup {f \in got : f # Pk \/ z.cache}]]
            /\ Step([op |-> op, z |-> i, exp |-> IF bad = {} THEN "ok" ELSE "err"])
    /\ UNCHANGED srv
\* Without hashes: only the transfer counts.
Insecure == /\ On("insecure")
            /\ \E i \in Sel(Live) :
                 LET no == {f \in Files : disk[f] = "absent" /\ srv[f] \in Fails}
                     n == IF no = {} THEN 4 ELSE CHOOSE f \in no : \A g \in no : f <= g
                 IN /\ disk' = [f \in Files |-> IF f < n /\ disk[f] = "absent" THEN IF srv[f] = "good" THEN "good" ELSE "bad" ELSE disk[f]]
                    /\ \A f \in Files : srv[f] # "short"
                    /\ Step([op |-> "insecure", z |-> i, exp |-> IF no = {} THEN "ok" ELSE "err", disk |-> disk'])
            /\ UNCHANGED <<srv, zs>>
Hashes == /\ On("hashes")
          /\ \E i \in Sel(Live) : Step([op |-> "hashes", z |-> i, exp |-> IF \E f \in Files : disk[f] = "absent" THEN "err" ELSE "ok", disk |-> disk])
          /\ UNCHANGED <<disk, srv, zs>>
\* A process is ended while it fetches file f.
Crash == /\ On("crash")
         /\ \E f \in Sel({x \in Files : disk[x] = "absent"}), how \in Sel({"stall", "rename", "sync"}) : Step([op |-> "crash", f |-> f, how |-> how])
         /\ UNCHANGED <<disk, srv, zs>>
\* Several users at once; the first `fails` transfers fail.  The directory is
\* empty before and after.
Race == /\ On("race")
        /\ \E k \in Sel(2..8), fails \in Sel(0..3), m \in Sel(Fails), shared \in Sel(BOOLEAN), proc \in Sel({0, 0, 1, 2}) :
             /\ disk' = [f \in Files |-> "absent"]
             /\ Step([op |-> "race", k |-> k, fails |-> IF shared THEN 0 ELSE fails, m |-> m, shared |-> shared, proc |-> proc])
        /\ zs' = [i \in 1..Len(zs) |-> [zs[i] EXCEPT !.spent = {1, 2, 3}]] /\ UNCHANGED srv

Next == New \/ Serve \/ Touch \/ Asking("get") \/ Asking("load") \/ Asking("download") \/ AskingAll("loadall", "load") \/ AskingAll("downloadall", "download")
        \/ Insecure \/ Hashes \/ Crash \/ Race \/ Skip \/ Fin
Spec == Init /\ [][Next]_vars

\* Only a right expectation ever loads a file.
LoadedRight == \A i \in 1..Len(zs) : zs[i].loaded \cap zs[i].wrong = {} /\ zs[i].checked \cap zs[i].wrong = {}
LoadedChecked == \A i \in 1..Len(zs) : zs[i].loaded \subseteq zs[i].checked
\* A file appears only by a complete transfer, and is replaced only by the user.
Appears == [][\A f \in Files : disk[f] = "absent" /\ disk'[f] # "absent" => srv[f] \notin Fails \/ zs = zs']_vars

Emit == (Rec /\ nxt = "done") => PrintT(ToJson(out))
=============================================================================
