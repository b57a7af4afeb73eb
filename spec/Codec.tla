--------------------------------- MODULE Codec ---------------------------------
(***************************************************************************)
(* Text and byte forms of values: common/common.go, merkletree/utils.go,   *)
(* claim types, claims in hexadecimal, tree leaves.  Property C27.         *)
(* Texts are sequences of character codes, values are sequences of bytes,  *)
(* numbers are their base-256 digits, the lowest first.  A text is made    *)
(* from a value and then edited; what decoding it must give follows from   *)
(* the text alone.                                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

P == JsonDeserialize(IOEnv.PARAMS)
Ops    == {P.ops[i] : i \in 1..Len(P.ops)}
Depth  == P.depth
Rec    == P.rec
Codecs == {P.codecs[i] : i \in 1..Len(P.codecs)}
Byte   == {P.bytes[i] : i \in 1..Len(P.bytes)}      \* bytes that values are made of
Chars  == {P.chars[i] : i \in 1..Len(P.chars)}      \* characters put in by an edit
MaxLen == P.maxLen
MaxEdits == P.maxEdits

VARIABLES cur,        \* the text, what it was made from and how
          edits, out, nxt
vars == <<cur, edits, out, nxt>>

(******************************** the encodings ****************************)
Bad == [kind |-> "err", v |-> <<>>]
Unsaid == [kind |-> "any", v |-> <<>>]
Good(v) == [kind |-> "ok", v |-> v]
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Drop(s, n) == SubSeq(s, n + 1, Len(s))
Zeros(n) == [i \in 1..n |-> 0]
Pad(s, n) == s \o Zeros(n - Len(s))
Starts(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p

HexDigit(n) == IF n < 10 THEN 48 + n ELSE 87 + n
HexVal(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 97..102 THEN c - 87 ELSE IF c \in 65..70 THEN c - 55 ELSE -1
HexEnc(b) == [i \in 1..2 * Len(b) |-> LET x == b[(i + 1) \div 2] IN HexDigit(IF i % 2 = 1 THEN x \div 16 ELSE x % 16)]
HexDec(t) == IF Len(t) % 2 = 1 \/ \E i \in 1..Len(t) : HexVal(t[i]) = -1 THEN Bad
             ELSE Good([i \in 1..Len(t) \div 2 |-> 16 * HexVal(t[2 * i - 1]) + HexVal(t[2 * i])])
ZeroX == <<48, 120>>
Strip0x(t) == IF Starts(t, ZeroX) THEN Drop(t, 2) ELSE t
Sized(r, n) == IF r.kind = "ok" /\ Len(r.v) # n THEN Bad ELSE r

B64Char(n) == IF n < 26 THEN 65 + n ELSE IF n < 52 THEN 71 + n ELSE IF n < 62 THEN n - 4 ELSE IF n = 62 THEN 43 ELSE 47
B64Val(c) == IF c \in 65..90 THEN c - 65 ELSE IF c \in 97..122 THEN c - 71 ELSE IF c \in 48..57 THEN c + 4
             ELSE IF c = 43 THEN 62 ELSE IF c = 47 THEN 63 ELSE -1
Eq == 61
At(s, i) == IF i < Len(s) THEN s[i + 1] ELSE 0
B64Raw(b) == [k \in 1..(4 * Len(b) + 2) \div 3 |->
                LET o == 6 * (k - 1)  i == o \div 8 IN
                B64Char(((At(b, i) * 256 + At(b, i + 1)) \div 2 ^ (10 - (o % 8))) % 64)]
B64Enc(b) == LET r == B64Raw(b) IN r \o [i \in 1..(4 - (Len(r) % 4)) % 4 |-> Eq]
\* The letters of a text without padding; a lone letter and spare bits mean nothing.
B64Bytes(t) == LET c == [i \in 1..Len(t) |-> B64Val(t[i])] IN
               [j \in 1..(3 * Len(t)) \div 4 |->
                  LET o == 8 * (j - 1)  i == o \div 6 IN ((At(c, i) * 64 + At(c, i + 1)) \div 2 ^ (4 - (o % 6))) % 256]
Letters(t) == \A i \in 1..Len(t) : B64Val(t[i]) # -1
Unpadded(t) == IF Len(t) > 0 /\ t[Len(t)] = Eq
               THEN IF Len(t) > 1 /\ t[Len(t) - 1] = Eq THEN SubSeq(t, 1, Len(t) - 2) ELSE SubSeq(t, 1, Len(t) - 1)
               ELSE t
Foreign(t) == \E i \in 1..Len(t) : B64Val(t[i]) = -1 /\ t[i] \notin {Eq, 10, 13}
B64Dec(t, optional) ==
    LET l == Unpadded(t)  b == B64Bytes(l)  pads == Len(t) - Len(l) IN
    IF Foreign(t) THEN Bad
    ELSE IF \E i \in 1..Len(t) : t[i] \in {10, 13} THEN Unsaid           \* line breaks
    ELSE IF ~Letters(l) THEN Bad                                            \* padding inside
    ELSE IF Len(l) % 4 = 1 THEN Bad
    ELSE IF pads # (4 - (Len(l) % 4)) % 4 /\ ~(optional /\ pads = 0) THEN (IF optional THEN Unsaid ELSE Bad)
    ELSE IF B64Raw(b) # l THEN Unsaid                                          \* spare bits
    ELSE Good(b)

\* Claim types: names of the known kinds, 8 bytes in hexadecimal otherwise.
Str == <<115, 116, 114, 58>>
Hx  == <<104, 101, 120, 58>>
Names == << <<66, 97, 115, 105, 99>>,
            <<75, 101, 121, 66, 97, 98, 121, 74, 117, 98>>,
            <<79, 116, 104, 101, 114, 73, 100, 101, 110>> >>
TypeNum(n) == Zeros(7) \o <<n>>
TypeEnc(b) == IF \E n \in 0..2 : b = TypeNum(n) THEN Str \o Names[b[8] + 1] ELSE Hx \o HexEnc(b)
TypeDec(t) == IF Starts(t, Str) THEN IF \E n \in 1..3 : Names[n] = Drop(t, 4) THEN Good(TypeNum((CHOOSE n \in 1..3 : Names[n] = Drop(t, 4)) - 1)) ELSE Bad
              ELSE IF Starts(t, Hx) THEN Sized(HexDec(Strip0x(Drop(t, 4))), 8)
              ELSE Bad

\* n is the length a codec of fixed length wants.
Enc(c, b) == CASE c \in {"hex", "hexjson", "hexinto", "hash", "data", "entry"} -> ZeroX \o HexEnc(b)
               [] c \in {"hextype", "claim"} -> HexEnc(b)
               [] c \in {"b64", "b64opt"} -> B64Enc(b)
               [] c = "b64raw" -> B64Raw(b)
               [] c = "ctype" -> TypeEnc(b)
Dec(c, n, t) == CASE c \in {"hex", "hexjson"} -> HexDec(Strip0x(t))
                  [] c \in {"hexinto", "hash", "data", "entry", "claim"} -> Sized(HexDec(Strip0x(t)), n)
                  [] c = "hextype" -> HexDec(t)
                  [] c = "b64" -> B64Dec(t, FALSE)
                  [] c \in {"b64opt", "b64raw"} -> B64Dec(t, TRUE)
                  [] c = "ctype" -> TypeDec(t)
Fixed(c, n) == CASE c = "hash" -> 32 [] c \in {"data", "entry", "claim"} -> 256 [] c = "ctype" -> 8 [] OTHER -> n

(******************************** behaviours *******************************)
None == [codec |-> "", n |-> 0, b |-> <<>>, t |-> <<>>]
Init == cur = None /\ edits = 0 /\ out = <<>> /\ nxt = IF P.draw THEN P.ops[1] ELSE "any"
Draw == nxt' = IF P.draw THEN P.ops[RandomElement(1..Len(P.ops))] ELSE nxt
Step(s) == out' = (IF Rec THEN Append(out, s) ELSE out) /\ Draw
More == ~Rec \/ Len(out) < Depth
On(o) == o \in Ops /\ More /\ nxt \in {o, "any"}
Sel(S) == IF P.draw /\ S # {} THEN {RandomElement(S)} ELSE S
Fin == Rec /\ Len(out) = Depth /\ nxt # "done" /\ nxt' = "done" /\ UNCHANGED <<cur, edits, out>>
Skip == P.draw /\ More /\ Draw /\ UNCHANGED <<cur, edits, out>>
\* A sequence of n bytes (one of them when drawing).
Bytes(n) == IF P.draw THEN {[i \in 1..n |-> RandomElement(Byte)]} ELSE [1..n -> Byte]

Encode ==
    /\ On("encode") /\ (P.draw \/ cur.codec = "")
    /\ \E c \in Sel(Codecs), m \in Sel(0..MaxLen), small \in Sel(1..4) :
       LET n == IF P.draw THEN Fixed(c, m) ELSE m IN
       \E b0 \in Bytes(n) :
         LET b == IF c = "ctype" /\ n = 8 /\ small = 1 THEN TypeNum(b0[8] % 4) ELSE b0 IN
         /\ (c = "ctype" => n = 8) = TRUE
         /\ cur' = [codec |-> c, n |-> n, b |-> b, t |-> Enc(c, b)]
         /\ edits' = 0
         /\ Step([op |-> "encode", c |-> c, n |-> n, b |-> b, t |-> cur'.t])
\* One edit of the text, then decoding; the next edit starts from the edited text.
Edit(t, how, i, ch) ==
    CASE how = "put" -> IF i <= Len(t) THEN [t EXCEPT ![i] = ch] ELSE Append(t, ch)
      [] how = "ins" -> SubSeq(t, 1, i - 1) \o <<ch>> \o Drop(t, i - 1)
      [] how = "del" -> IF i <= Len(t) THEN SubSeq(t, 1, i - 1) \o Drop(t, i) ELSE t
      [] how = "cut" -> SubSeq(t, 1, i - 1)
      [] how = "drop" -> Drop(t, i - 1)
      [] how = "add" -> Append(t, ch)
      [] how = "upper" -> [j \in 1..Len(t) |-> IF j >= i /\ t[j] \in 97..122 THEN t[j] - 32 ELSE t[j]]
      [] how = "strip" -> Strip0x(t)
      [] how = "unpad" -> Unpadded(t)
      [] how = "pre" -> ZeroX \o t
      [] how = "twice" -> t \o t
Hows == {P.hows[i] : i \in 1..Len(P.hows)}
Positions(t) == IF P.draw THEN {RandomElement({1, 2, 3, Len(t), IF Len(t) > 1 THEN Len(t) - 1 ELSE 1, Len(t) + 1, RandomElement(1..Len(t) + 1)} \cap 1..Len(t) + 1)} ELSE 1..Len(t) + 1
Decode ==
    /\ On("decode") /\ cur.codec # ""
    /\ \E how \in Sel(Hows \cup {"none"}), i \in Positions(cur.t), ch \in Sel(Chars) :
         LET t == IF how = "none" THEN cur.t ELSE Edit(cur.t, how, i, ch)
             r == Dec(cur.codec, cur.n, t) IN
         /\ edits < MaxEdits
         /\ edits' = (IF t = cur.t THEN edits ELSE edits + 1)
         /\ cur' = [cur EXCEPT !.t = t]
         /\ Step([op |-> "decode", c |-> cur.codec, n |-> cur.n, how |-> how, t |-> t, exp |-> r.kind, v |-> r.v])

\* Numbers of 2, 4 and 8 bytes in both orders.
Uint == /\ On("uint")
        /\ \E w \in Sel({2, 4, 8}) : \E d \in Bytes(w) : Step([op |-> "uint", w |-> w, d |-> d, le |-> d, be |-> Rev(d)])
        /\ UNCHANGED <<cur, edits>>
\* Bitmaps: bits set one after another; bit n stands in byte n/8 from the left or the right.
BitByte(S, i) == LET R[j \in 0..8] == IF j = 8 THEN 0 ELSE (IF 8 * (i - 1) + j \in S THEN 2 ^ j ELSE 0) + R[j + 1] IN R[0]
Map(S, n) == [i \in 1..n |-> BitByte(S, i)]
Bits == /\ On("bits")
        /\ \E n \in Sel(1..P.bitmap) :
             \E S \in IF P.draw THEN {{RandomElement(0..8 * n - 1) : i \in 1..RandomElement(1..8)}} ELSE SUBSET (0..8 * n - 1) :
               Step([op |-> "bits", n |-> n, set |-> S, le |-> Map(S, n), be |-> Rev(Map(S, n))])
        /\ UNCHANGED <<cur, edits>>
\* Numbers as field elements and hashes: 32 bytes, the lowest first.
Trim(d) == LET k == CHOOSE j \in 0..Len(d) : (\A i \in j + 1..Len(d) : d[i] = 0) /\ (j = 0 \/ d[j] # 0) IN SubSeq(d, 1, k)
Elem == /\ On("elem")
        /\ \E n \in Sel(0..32) : \E d \in Bytes(n) :
             Step([op |-> "elem", d |-> Trim(d), e |-> Pad(d, 32)])
        /\ UNCHANGED <<cur, edits>>
\* The data of an entry made from eight numbers, or from eight hexadecimal strings.
Ints == /\ On("ints") /\ P.draw
        /\ \E d \in {[i \in 1..8 |-> [j \in 1..RandomElement({0, 1, 2, 3, 7}) |-> RandomElement(Byte)]]} :
           Step([op |-> "ints", d |-> [i \in 1..8 |-> Trim(d[i])], e |-> [i \in 1..8 |-> Pad(d[i], 32)]])
        /\ UNCHANGED <<cur, edits>>
Hexs == /\ On("hexs") /\ P.draw
        /\ \E d \in {[i \in 1..8 |-> [j \in 1..RandomElement({0, 1, 2, 31, 32}) |-> IF j = 1 THEN RandomElement(Byte \ {0}) ELSE RandomElement(Byte)]]},
              k \in Sel(1..8), how \in Sel({"none", "none ", "bad", "odd", "long"}) :
           LET t == [i \in 1..8 |-> (IF i % 2 = 0 THEN ZeroX ELSE <<>>) \o HexEnc(IF how = "long" /\ i = k THEN d[i] \o Zeros(33 - Len(d[i])) ELSE d[i])
                                    \o (IF i # k \/ how \in {"none", "none ", "long"} THEN <<>> ELSE IF how = "odd" THEN <<48>> ELSE <<48, 103>>)] IN
           Step([op |-> "hexs", t |-> t, exp |-> IF how \in {"none", "none "} THEN "ok" ELSE "err", e |-> [i \in 1..8 |-> Pad(d[i], 32)]])
        /\ UNCHANGED <<cur, edits>>
\* Strings that begin with zeros (see known_findings.txt).
HexZ == /\ On("hexz") /\ P.draw
        /\ \E d \in Bytes(8), z \in Sel(1..24) :
             Step([op |-> "hexz", t |-> [i \in 1..8 |-> HexEnc(IF i % 2 = 0 THEN Zeros(z) \o d ELSE d)],
                   e |-> [i \in 1..8 |-> Pad(IF i % 2 = 0 THEN Zeros(z) \o d ELSE d, 32)]])
        /\ UNCHANGED <<cur, edits>>
\* Lists of public signals: each is written as the digits of its number, the lowest
\* first; one of the texts may be edited.
Signals == /\ On("signals") /\ P.draw
           /\ \E d \in {[i \in 1..RandomElement(0..5) |-> Trim([j \in 1..RandomElement({0, 1, 2, 31, 32}) |-> RandomElement(Byte)])]},
                 how \in Sel({"none", "none ", "bad", "odd", "upper", "more"}) : \E k \in Sel(0..Len(d)) :
              LET t == [i \in 1..Len(d) |-> LET x == HexEnc(d[i]) IN
                          IF i # k THEN x ELSE CASE how = "bad" -> x \o <<48, 103>> [] how = "odd" -> x \o <<48>>
                                                 [] how = "upper" -> Edit(x, "upper", 1, 0) [] how = "more" -> x \o <<48, 48>> [] OTHER -> x] IN
              Step([op |-> "signals", d |-> d, e |-> [i \in 1..Len(d) |-> HexEnc(d[i])], t |-> t,
                    exp |-> IF k # 0 /\ how \in {"bad", "odd"} THEN "err" ELSE "ok"])
           /\ UNCHANGED <<cur, edits>>
\* The inputs of a circuit as decimal texts: single numbers and lists, names kept.
Inputs == /\ On("inputs") /\ P.draw
          /\ \E one \in Bytes(RandomElement({0, 1, 8, 9, 32})),
                many \in {[i \in 1..RandomElement(0..4) |-> [j \in 1..RandomElement({0, 1, 9, 32}) |-> RandomElement(Byte)]]} :
             Step([op |-> "inputs", one |-> Trim(one), many |-> [i \in 1..Len(many) |-> Trim(many[i])]])
          /\ UNCHANGED <<cur, edits>>
\* Byte strings as entries: exactly 256 bytes.
FromBytes == /\ On("bytes") /\ P.draw
             /\ \E n \in {IF RandomElement(1..2) = 1 THEN 256 ELSE RandomElement({0, 1, 32, 255, 257, 512})} : \E b \in Bytes(n) :
                Step([op |-> "bytes", b |-> b, exp |-> IF n = 256 THEN "ok" ELSE "err"])
             /\ UNCHANGED <<cur, edits>>
\* Lists of claims in hexadecimal; one of them may be damaged.
List == /\ On("list") /\ P.draw
        /\ \E n \in Sel(0..4), how \in Sel({"none", "short", "long", "char", "odd", "prefix"}) : \E bad \in Sel(0..n),
              kinds \in {[i \in 1..n |-> RandomElement(1..6)]} :
           Step([op |-> "list", kinds |-> kinds, bad |-> IF how = "none" THEN 0 ELSE bad, how |-> how,
                 exp |-> IF how \in {"none", "prefix"} \/ bad = 0 THEN "ok" ELSE "err"])
        /\ UNCHANGED <<cur, edits>>
\* Leaves of the tree of roots and of the tree of revocations.
Leaf == /\ On("leaf") /\ P.draw
        /\ \E root \in Bytes(31), nonce \in Bytes(4), ver \in Bytes(4) :
           Step([op |-> "leaf", root |-> Pad(root, 32), nonce |-> nonce, ver |-> ver])
        /\ UNCHANGED <<cur, edits>>
\* The hash of several byte strings is that of their concatenation; the hash of
\* up to six elements is that of six, filled up with zeros, the key in between.
Hash == /\ On("hash") /\ P.draw
        /\ \E parts \in {[i \in 1..RandomElement(0..4) |-> [j \in 1..RandomElement({0, 1, 2, 31, 64, 136}) |-> RandomElement(Byte)]]},
              elems \in {[i \in 1..RandomElement(0..8) |-> [j \in 1..RandomElement({0, 1, 2, 31}) |-> RandomElement(Byte)]]},
              key \in {[j \in 1..RandomElement({0, 1, 31}) |-> RandomElement(Byte)]} :
           Step([op |-> "hash", parts |-> parts, elems |-> elems, key |-> Trim(key), max |-> 6])
        /\ UNCHANGED <<cur, edits>>
Next == Encode \/ Decode \/ Uint \/ Bits \/ Elem \/ Ints \/ Hexs \/ HexZ \/ Signals \/ Inputs \/ FromBytes \/ List \/ Leaf \/ Hash \/ Skip \/ Fin
Spec == Init /\ [][Next]_vars

(******************************** properties *******************************)
Res == Dec(cur.codec, cur.n, cur.t)
\* What was encoded is what is decoded.
RoundTrip == cur.codec # "" /\ edits = 0 => Res = Good(cur.b)
\* Letter case and the optional parts aside, a text stands for one value only,
\* and is the encoding of that value.
Lower(t) == [i \in 1..Len(t) |-> IF t[i] \in 65..90 THEN t[i] + 32 ELSE t[i]]
Canon(c, t) == CASE c \in {"hex", "hexjson", "hexinto", "hash", "data", "entry", "claim"} -> Lower(Strip0x(t))
                 [] c = "hextype" -> Lower(t)
                 [] c \in {"b64", "b64opt", "b64raw"} -> Unpadded(t)
                 [] c = "ctype" -> IF Starts(t, Hx) THEN TypeEnc(Res.v) ELSE t
NoMisread == cur.codec # "" /\ Res.kind = "ok" => Canon(cur.codec, cur.t) = Canon(cur.codec, Enc(cur.codec, Res.v))
\* An edited text that still decodes to the same value differs in nothing that counts.
Distinct == cur.codec # "" /\ Res = Good(cur.b) => Canon(cur.codec, cur.t) = Canon(cur.codec, Enc(cur.codec, cur.b))
Emit == (Rec /\ nxt = "done") => PrintT(ToJson(out))
=============================================================================
