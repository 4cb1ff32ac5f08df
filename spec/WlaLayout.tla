----------------------------- MODULE WlaLayout -----------------------------
(* Structures, unions and enumerations as a machine with one action per     *)
(* source line.                                                             *)
(*                                                                          *)
(* A block (.STRUCT, .ENUM, .RAMSECTION) is a stack of frames. A frame has  *)
(* a position, the entries laid out so far, and for a union the size of its *)
(* largest alternative. A finished structure is a layout: a size and its    *)
(* entries, which an instance copies to its place. An entry is a name, its  *)
(* offset and size; f marks what takes data of its own in .DSTRUCT.         *)
EXTENDS WlaUtil, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES cid, ip, lay, blk, stk, labs, defs, rom, status, verdict
vars == <<cid, ip, lay, blk, stk, labs, defs, rom, status, verdict>>

C == Cases[cid]
S == C.prog[ip]

Entry(n, o, z, f) == [n |-> n, o |-> o, z |-> z, f |-> f]
Dot(p, n) == IF p = "" THEN n ELSE IF n = "" THEN p ELSE p \o "." \o n
Shift(es, p, o) == [j \in 1..Len(es) |-> [es[j] EXCEPT !.n = Dot(p, @), !.o = @ + o]]
NoData(es) == [j \in 1..Len(es) |-> [es[j] EXCEPT !.f = FALSE]]
\* pads: paddings of instances, as entries that have no label
Frame(nm) == [pos |-> 0, max |-> 0, nm |-> nm, es |-> << >>, done |-> << >>, pads |-> << >>, pdone |-> << >>, un |-> FALSE]

Top == stk[Len(stk)]
Under == SubSeq(stk, 1, Len(stk) - 1)
Desc == Len(stk) = 1 /\ blk.desc
\* where something of n bytes goes, and the position after it
Place(n) == IF Desc THEN Top.pos - n ELSE Top.pos
Next1(n) == IF Desc THEN Top.pos - n ELSE Top.pos + n

Fail == status' = "fail" /\ UNCHANGED <<cid, ip, lay, blk, stk, labs, defs, rom, verdict>>
Fine == ip' = ip + 1 /\ UNCHANGED <<cid, status, verdict>>
Put(es, ps, n) ==
  /\ stk' = Append(Under, [Top EXCEPT !.pos = Next1(n), !.es = @ \o es, !.pads = @ \o ps])
  /\ Fine /\ UNCHANGED <<lay, blk, labs, defs, rom>>

Open ==
  /\ S.t \in {"struct", "enum", "ram"}
  /\ IF stk # << >> THEN Fail
     ELSE blk' = S /\ stk' = <<Frame("")>> /\ Fine /\ UNCHANGED <<lay, labs, defs, rom>>

\* a field; the dotted ones take no room
Field ==
  /\ S.t = "field"
  /\ LET n == IF S.dot THEN 0 ELSE S.n IN
       Put(IF S.name = "" THEN (IF S.dot THEN << >> ELSE <<Entry("", Place(n), S.n, TRUE)>>) ELSE <<Entry(S.name, Place(n), S.n, ~S.dot)>>, << >>, n)

\* instances of a structure
Inst ==
  /\ S.t = "inst"
  /\ IF S.st \notin DOMAIN lay THEN Fail ELSE
     LET L == lay[S.st]
         z == IF S.size > 0 THEN S.size ELSE L.size
         many == S.n > 1
         total == z * S.n
         at == IF S.dot THEN Top.pos ELSE Place(total)
         one(p, o) == Shift(L.es, p, o)
         copies == ConcatAll([k \in 1..S.n |-> LET p == S.name \o "." \o ToString(S.from + k - 1) o == at + (k - 1) * z
                                               IN <<Entry(p, o, z, FALSE)>> \o one(p, o)])
         es == (IF S.name = "" THEN << >> ELSE <<Entry(S.name, at, total, FALSE)>>) \o (IF many THEN copies ELSE one(S.name, at))
         mine(p, o) == (IF z > L.sum /\ p # "" THEN <<Entry(p, o, z - L.sum, FALSE)>> ELSE << >>) \o Shift(L.pads, p, o)
         pads == IF many THEN ConcatAll([k \in 1..S.n |-> mine(S.name \o "." \o ToString(S.from + k - 1), 0)]) ELSE mine(S.name, 0)
     IN IF (S.size > 0 /\ S.size < L.size0) \/ S.n < 1 THEN Fail
        ELSE Put(IF S.dot THEN NoData(es) ELSE es, pads, IF S.dot THEN 0 ELSE total)

Union ==
  /\ S.t = "union"
  /\ stk' = Append(stk, [Frame(S.name) EXCEPT !.un = TRUE])
  /\ Fine /\ UNCHANGED <<lay, blk, labs, defs, rom>>
\* the alternative of the topmost frame is complete
Closed == [Top EXCEPT !.max = Max2(@, Top.pos), !.pos = 0, !.es = << >>, !.pads = << >>,
             !.done = @ \o (IF Top.nm = "" THEN Top.es ELSE <<Entry(Top.nm, 0, Top.pos, FALSE)>> \o Shift(Top.es, Top.nm, 0)),
             !.pdone = @ \o Shift(Top.pads, Top.nm, 0)]
Nextu ==
  /\ S.t = "nextu"
  /\ IF ~Top.un THEN Fail ELSE stk' = Append(Under, [Closed EXCEPT !.nm = S.name]) /\ Fine /\ UNCHANGED <<lay, blk, labs, defs, rom>>
Endu ==
  /\ S.t = "endu"
  /\ IF ~Top.un THEN Fail ELSE
     LET U == Closed
         below == Under[Len(Under)]
         back == Len(Under) = 1 /\ blk.desc
         at == IF back THEN below.pos - U.max ELSE below.pos
     IN /\ stk' = Append(SubSeq(Under, 1, Len(Under) - 1),
                    [below EXCEPT !.pos = IF back THEN @ - U.max ELSE @ + U.max,
                                  !.es = @ \o Shift(U.done, "", at), !.pads = @ \o U.pdone])
        /\ Fine /\ UNCHANGED <<lay, blk, labs, defs, rom>>

Named(es) == SelectSeq(es, LAMBDA e : e.n # "")
\* what an instance at base b lists: labels or definitions, and sizes
Values(es, b) == {<<e.n, b + e.o>> : e \in Range(Named(es))}
Sizes(es) == {<<"_sizeof_" \o e.n, e.z>> : e \in Range(Named(es))}
Paddings(ps) == {<<"_paddingof_" \o e.n, e.z>> : e \in Range(Named(ps))}

Close ==
  /\ S.t = "close"
  /\ IF Top.un THEN Fail
     ELSE IF blk.t = "struct" THEN
       IF blk.size > 0 /\ blk.size < Top.pos THEN Fail ELSE
       LET z == IF blk.size > 0 THEN blk.size ELSE Top.pos
           full == Shift(Top.es, blk.name, 0)
       IN /\ lay' = (blk.name :> [size |-> z, size0 |-> Top.pos, sum |-> Top.pos, es |-> Top.es, pads |-> Top.pads]) @@ lay
          /\ defs' = defs \cup {d \in Values(full, 0) \cup Sizes(full) \cup {<<"_sizeof_" \o blk.name, z>>} : d[1] \in Range(C.exports)}
          /\ blk' = C.none /\ stk' = << >> /\ Fine /\ UNCHANGED <<labs, rom>>
     ELSE IF blk.t = "enum" THEN
       /\ defs' = IF blk.export THEN defs \cup Values(Top.es, blk.at) \cup Sizes(Top.es) \cup Paddings(Top.pads)
                  ELSE defs \cup {d \in Values(Top.es, blk.at) \cup Sizes(Top.es) \cup Paddings(Top.pads) : d[1] \in Range(C.exports)}
       /\ blk' = C.none /\ stk' = << >> /\ Fine /\ UNCHANGED <<lay, labs, rom>>
     ELSE
       /\ labs' = labs \cup Values(Top.es, blk.at)
       /\ defs' = defs \cup Sizes(Top.es)
       /\ blk' = C.none /\ stk' = << >> /\ Fine /\ UNCHANGED <<lay, rom>>

\* bytes for a field of z bytes: a number takes them all, a string its length, the rest is the fill value
BigOrLittle(v, z) == IF C.big THEN BEBytes(v, z) ELSE LEBytes(v, z)
Stuff(x, z) == IF x.k = "n" THEN BigOrLittle(x.v, z) ELSE [j \in 1..z |-> IF j <= Len(x.s) THEN x.s[j] ELSE C.fill]
Filled(b, z) == b \o RepeatV(C.fill, z - Len(b))
Over(b, at, xs) == [j \in 1..Len(b) |-> IF j > at /\ j <= at + Len(xs) THEN xs[j - at] ELSE b[j]]
\* instances in .DSTRUCT have, besides k.1, k.2, ..., the fields of the first directly under k
Arrays(L) == L.es
HasUnion(n) == n \in Range(C.unions)

\* .DSTRUCT with the data in the order of the fields
Flat ==
  /\ S.t = "flat"
  /\ IF S.st \notin DOMAIN lay THEN Fail ELSE
     LET L == lay[S.st]
         z == IF S.size > 0 THEN S.size ELSE L.size
         fs == SelectSeq(L.es, LAMBDA e : e.f)
         img == FoldLeft(LAMBDA b, j : Over(b, fs[j].o, Stuff(S.items[j], fs[j].z)), RepeatV(C.fill, z), [j \in 1..Min2(Len(fs), Len(S.items)) |-> j])
         at == Len(rom)
         all == <<Entry(S.name, 0, z, FALSE)>> \o Shift(L.es, S.name, 0)
     IN IF (S.size > 0 /\ S.size < L.size0) \/ Len(S.items) > Len(fs) THEN Fail
        ELSE /\ rom' = rom \o img \o <<S.mark>>
             /\ labs' = IF S.nolabels \/ S.name = "" THEN labs ELSE labs \cup Values(all, at)
             /\ defs' = IF S.nolabels \/ S.name = "" THEN defs ELSE defs \cup Sizes(all)
             /\ Fine /\ UNCHANGED <<lay, blk, stk>>

\* .DSTRUCT with the fields by name
ByName ==
  /\ S.t = "byname"
  /\ IF S.st \notin DOMAIN lay THEN Fail ELSE
     LET L == lay[S.st]
         z == IF S.size > 0 THEN S.size ELSE L.size
         find(n) == CHOOSE e \in Range(L.es) : e.n = n
         ok(x) == (\E e \in Range(L.es) : e.n = x.n) /\ Len(x.b) <= find(x.n).z
         img == FoldLeft(LAMBDA b, x : Over(b, find(x.n).o, x.b), RepeatV(C.fill, z), S.vals)
         at == Len(rom)
         all == <<Entry(S.name, 0, z, FALSE)>> \o Shift(L.es, S.name, 0)
     IN IF (S.size > 0 /\ S.size < L.size0) \/ \E j \in 1..Len(S.vals) : ~ok(S.vals[j]) THEN Fail
        ELSE /\ rom' = rom \o img \o <<S.mark>>
             /\ labs' = IF S.nolabels \/ S.name = "" THEN labs ELSE labs \cup Values(all, at)
             /\ defs' = IF S.nolabels \/ S.name = "" THEN defs ELSE defs \cup Sizes(all)
             /\ Fine /\ UNCHANGED <<lay, blk, stk>>

Init ==
  /\ cid \in 1..Len(Cases) /\ ip = 1 /\ lay = [x \in {} |-> 0] /\ blk = Cases[cid].none /\ stk = << >>
  /\ labs = {} /\ defs = {} /\ rom = << >> /\ status = "run" /\ verdict = ""
Line == status = "run" /\ ip <= Len(C.prog) /\ (Open \/ Field \/ Inst \/ Union \/ Nextu \/ Endu \/ Close \/ Flat \/ ByName)
Eof == status = "run" /\ ip > Len(C.prog) /\ status' = (IF stk = << >> THEN "end" ELSE "fail") /\ UNCHANGED <<cid, ip, lay, blk, stk, labs, defs, rom, verdict>>

(* --- comparison with the real tools ---------------------------------------- *)
O == C.obs
Pairs(s) == {<<s[j].n, s[j].v>> : j \in 1..Len(s)}
\* arrays in .DSTRUCT may also have the first instance's fields without its number
Alias(d) == d[1] \in Range(C.alias)
First(D) == LET d == CHOOSE x \in D : TRUE IN d[1] \o " " \o ToString(d[2])
Judge ==
  /\ verdict = "" /\ status \in {"end", "fail"}
  /\ LET good == status = "end"
         ol == {d \in Pairs(O.labs) : ~Alias(d)} od == {d \in Pairs(O.defs) : ~Alias(d)}
         v == IF O.crash THEN <<"crash", O.msg>>
              ELSE IF good /\ ~O.ok THEN <<"rc", "should be accepted: " \o O.msg>>
              ELSE IF ~good /\ O.ok THEN <<"rc", "should be rejected, line " \o ToString(ip)>>
              ELSE IF ~good THEN <<"", "rejected">>
              ELSE IF labs \ ol # {} THEN <<"labels", "missing " \o First(labs \ ol)>>
              ELSE IF ol \ labs # {} THEN <<"labels", "extra " \o First(ol \ labs)>>
              ELSE IF defs \ od # {} THEN <<"defs", "missing " \o First(defs \ od)>>
              ELSE IF od \ defs # {} THEN <<"defs", "extra " \o First(od \ defs)>>
              ELSE IF Len(rom) > Len(O.rom) THEN <<"data", "short">>
              ELSE IF \E j \in 1..Len(rom) : rom[j] # O.rom[j] THEN
                   LET j == SetMin({k \in 1..Len(rom) : rom[k] # O.rom[k]}) IN <<"data", "byte " \o ToString(j - 1) \o ": model " \o ToString(rom[j]) \o " real " \o ToString(O.rom[j])>>
              ELSE <<"", "accepted">>
     IN verdict' = IF v[1] = "" THEN "VERDICT|" \o C.id \o "|OK|" \o v[2] ELSE "VERDICT|" \o C.id \o "|BAD|{" \o v[1] \o "}|" \o v[2]
  /\ PrintT(verdict')
  /\ UNCHANGED <<cid, ip, lay, blk, stk, labs, defs, rom, status>>

Next == Line \/ Eof \/ Judge
Spec == Init /\ [][Next]_vars

(* --- invariants ------------------------------------------------------------ *)
\* every field lies in its structure, and the fields with data of their own leave no room between them unless there is a union or padding
Inside == \A n \in DOMAIN lay : \A j \in 1..Len(lay[n].es) : LET e == lay[n].es[j] IN e.o >= 0 /\ (e.f => e.o + e.z <= lay[n].size)
NoGaps == \A n \in DOMAIN lay : ~HasUnion(n) /\ lay[n].pads = << >> /\ ~(n \in Range(C.padded)) =>
            LET fs == SelectSeq(lay[n].es, LAMBDA e : e.f) IN
            /\ \A j \in 2..Len(fs) : fs[j].o = fs[j - 1].o + fs[j - 1].z
            /\ Len(fs) > 0 => fs[1].o = 0
\* in a union all alternatives start together, and the largest counts
Alternatives == \A j \in 1..Len(stk) : stk[j].un => stk[j].pos >= 0 /\ \A k \in 1..Len(stk[j].done) : stk[j].done[k].o >= 0 /\ (stk[j].done[k].f => stk[j].done[k].o + stk[j].done[k].z <= stk[j].max)
=============================================================================
