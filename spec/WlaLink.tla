------------------------------ MODULE WlaLink ------------------------------
(* The link pipeline of WLA DX as a state machine over abstract programs.   *)
(*                                                                          *)
(* A case is an abstract program (memory map, list of elements: position    *)
(* changes, code blocks outside sections, ROM and RAM sections with their   *)
(* options) plus what the real tools produced for its rendering. One action *)
(* per critical step of the tools:                                          *)
(*   Assemble (per element)  assembler: current bank/slot/org, section data *)
(*   Merge    (per target)   APPENDTO                                       *)
(*   Discard  (per round)    -d                                             *)
(*   PlaceRam / PlaceRom     (per section)                                  *)
(*   Resolve  (per reference batch)                                         *)
(*   Judge                   compare with the recorded execution            *)
(* The invariants below are checked by TLC in every state reached.          *)
EXTENDS WlaExpr, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES cid, pc, i, S, blks, cur, todo, rom, own, ram, L, err, verdict
vars == <<cid, pc, i, S, blks, cur, todo, rom, own, ram, L, err, verdict>>

C == Cases[cid]
NBanks == Len(C.banks)
BankSize(b) == C.banks[b + 1]
BankAddr(b) == SumSeq(SubSeq(C.banks, 1, b))
RomSize == SumSeq(C.banks)
SlotAddr(s) == C.slots[s + 1][1]
SlotSize(s) == C.slots[s + 1][2]
NSlots == Len(C.slots)

RamKinds == {"RAM_FREE", "RAM_SEMIFREE", "RAM_SEMISUBFREE", "RAM_FORCE"}
Discardable == {"FREE", "SEMIFREE", "SEMISUBFREE", "SUPERFREE",
                "RAM_FREE", "RAM_SEMIFREE", "RAM_SEMISUBFREE"}

DontCare == 100000
Hole == 2000      \* a byte that a reference fills in later
WSize(w) == CASE w \in {"8", "r8", "9"} -> 1 [] w \in {"16", "r16", "13"} -> 2 [] w = "24" -> 3 [] w = "32" -> 4

-----------------------------------------------------------------------------
(* Flattening of item lists into data, labels and references                *)
ItemStep(f, it) ==
  CASE it.k = "d" -> [f EXCEPT !.data = @ \o it.v]
    [] it.k = "l" -> [f EXCEPT !.labs = Append(@, [n |-> it.n, loc |-> it.loc, off |-> Len(f.data)])]
    [] it.k = "v" -> [f EXCEPT !.labs = IF it.n = "" THEN @ ELSE Append(@, [n |-> it.n, loc |-> it.loc, off |-> Len(f.data)]),
                               !.data = @ \o RepeatV(0, it.sz)]
    [] it.k = "r" -> [f EXCEPT !.refs = Append(@, [off |-> Len(f.data) + Len(it.pre), w |-> it.w, x |-> it.x]),
                               !.data = @ \o it.pre \o RepeatV(Hole, WSize(it.w))]
    [] it.k = "s" -> f       \* .SYM and .BR leave no bytes
Flatten(items) == FoldLeft(ItemStep, [data |-> << >>, labs |-> << >>, refs |-> << >>], items)

-----------------------------------------------------------------------------
Init == /\ cid \in 1..Len(Cases)
        /\ pc = "asm" /\ i = 1 /\ S = << >> /\ blks = << >>
        /\ cur = [bank |-> 0, slot |-> 0, base |-> 0, org |-> 0]
        /\ todo = << >> /\ rom = << >> /\ own = << >> /\ ram = {} /\ L = << >>
        /\ err = "" /\ verdict = ""

Fail(e) == /\ err' = e /\ pc' = "judge"

\* a label keeps the base in force where it was written, also when its section follows another one
Based(labs, base) == [k \in 1..Len(labs) |-> [n |-> labs[k].n, loc |-> labs[k].loc, off |-> labs[k].off, base |-> base]]

(* --- the assembler's pass over the elements ----------------------------- *)
Assemble ==
  /\ pc = "asm" /\ i <= Len(C.els) /\ err = ""
  /\ i' = i + 1
  /\ LET e == C.els[i] IN
     CASE e.t = "set" ->
            /\ cur' = [bank |-> e.bank, slot |-> e.slot, base |-> e.base, org |-> e.org]
            /\ IF SlotSize(e.slot) < BankSize(e.bank) THEN Fail("slot smaller than bank")
               ELSE IF e.org >= BankSize(e.bank) THEN Fail("org outside bank") ELSE UNCHANGED <<pc, err>>
            /\ UNCHANGED <<S, blks>>
       [] e.t = "blk" ->
            LET f == Flatten(e.items) n == Len(f.data) IN
            /\ blks' = Append(blks, [obj |-> e.obj, bank |-> cur.bank, slot |-> cur.slot, base |-> cur.base,
                                     addr |-> cur.org, data |-> f.data, labs |-> Based(f.labs, cur.base), refs |-> f.refs, tg |-> {}])
            /\ cur' = [cur EXCEPT !.org = @ + n]
            /\ IF cur.org + n > BankSize(cur.bank) THEN Fail("overflow") ELSE UNCHANGED <<err, pc>>
            /\ UNCHANGED S
       [] e.t = "sec" ->
            LET f == Flatten(e.items)
                n == Len(f.data)
                sz == IF e.size >= 0 THEN e.size ELSE n
                bank == IF e.bank >= 0 THEN e.bank ELSE cur.bank
                slot == IF e.slot >= 0 THEN e.slot ELSE cur.slot
                base == IF e.base >= 0 THEN e.base ELSE cur.base
                org0 == IF e.org >= 0 THEN e.org ELSE cur.org
                addr == IF e.kind \in {"FREE", "SUPERFREE", "SEMISUPERFREE", "RAM_FREE"} THEN 0 ELSE org0
                data == IF sz > n THEN f.data \o RepeatV(C.fill, sz - n) ELSE f.data
                sec == [obj |-> e.obj, name |-> e.name, kind |-> e.kind, prio |-> e.prio, bank |-> bank,
                        slot |-> slot, base |-> base, addr |-> addr, align |-> e.align, offset |-> e.offset,
                        wlo |-> e.wlo, whi |-> e.whi, bitw |-> e.bitw, banks |-> e.banks, keep |-> e.keep,
                        rel |-> e.rel, target |-> e.target, ns |-> e.ns, data |-> data, osize |-> sz,
                        labs |-> Based(f.labs, base), refs |-> f.refs, alive |-> TRUE, placed |-> FALSE,
                        par |-> 0, mergedInto |-> 0, moff |-> 0, obank |-> bank, oaddr |-> addr, tg |-> {}]
            IN /\ IF n = 0 /\ sz <= 0 /\ ~e.keep
                  THEN UNCHANGED S      \* empty sections vanish
                  ELSE S' = Append(S, sec)
               \* sections move the origin outside them by their data, unless RETURNORG
               /\ cur' = IF e.ret THEN cur ELSE [cur EXCEPT !.org = @ + n]
               /\ IF e.size >= 0 /\ e.size < n THEN Fail("section bigger than SIZE")
                  ELSE UNCHANGED <<err, pc>>
               /\ UNCHANGED blks
  /\ UNCHANGED <<cid, todo, rom, own, ram, L, verdict>>

Before(a, b) ==   \* priority desc, size desc, source order
  \/ S[a].prio > S[b].prio
  \/ S[a].prio = S[b].prio /\ S[a].osize > S[b].osize
  \/ S[a].prio = S[b].prio /\ S[a].osize = S[b].osize /\ a < b

ByName(nm) == {s \in 1..Len(S) : S[s].name = nm}
Target(s) == IF S[s].rel = "" THEN 0
             ELSE IF ByName(S[s].target) = {} THEN 0 ELSE SetMin(ByName(S[s].target))
KidsOf(t) == SortSeq(SetToSeq({s \in 1..Len(S) : Target(s) = t}), Before)
RECURSIVE Ancestors(_, _)
Ancestors(s, n) == IF n = 0 \/ s = 0 THEN {} ELSE {s} \cup Ancestors(Target(s), n - 1)
Reaches0(s) == \* does following targets end at a section without one?
  LET RECURSIVE F(_, _)
      F(x, n) == IF n = 0 THEN FALSE ELSE IF Target(x) = 0 THEN TRUE ELSE F(Target(x), n - 1)
  IN F(s, Len(S) + 1)

RECURSIVE Preorder(_)
Preorder(seq) == IF seq = << >> THEN << >>
                 ELSE <<Head(seq)>> \o Preorder(KidsOf(Head(seq))) \o Preorder(Tail(seq))
Roots == LET R == SortSeq(SetToSeq({s \in 1..Len(S) : Target(s) = 0}), LAMBDA a, b : a < b)
         IN IF C.nosort THEN R ELSE SortSeq(R, Before)
\* the root a merged section finally lives in (itself when not appended)
RECURSIVE MergeRoot(_)
MergeRoot(s) == IF S[s].rel = "append" /\ Target(s) # 0 THEN MergeRoot(Target(s)) ELSE s

(* --- order the sections, resolve APPENDTO/AFTER targets ----------------- *)
Order ==
  /\ pc = "asm" /\ i > Len(C.els)
  /\ IF \E s \in 1..Len(S) : S[s].rel # "" /\ Cardinality(ByName(S[s].target)) > 1
     THEN /\ Fail("ambiguous target") /\ UNCHANGED <<todo, i>>
     ELSE IF \E s \in 1..Len(S) : ~Reaches0(s)
     THEN /\ Fail("circular target") /\ UNCHANGED <<todo, i>>
     ELSE /\ todo' = Preorder(Roots)
          /\ pc' = "merge" /\ i' = 1 /\ err' = err
  /\ UNCHANGED <<cid, S, blks, cur, rom, own, ram, L, verdict>>

(* --- APPENDTO: all descendants flow into their root, in preorder -------- *)
\* one step per appended section; todo is in preorder, so data arrives in order
Merge ==
  /\ pc = "merge" /\ i <= Len(todo)
  /\ i' = i + 1
  /\ LET s == todo[i]
         m == MergeRoot(s)
     IN IF m = s THEN
           \* AFTER sections take kind, bank, base and slot of what they follow
           IF S[s].rel = "after" /\ Target(s) # 0 THEN
              LET p == MergeRoot(Target(s)) IN
              S' = [S EXCEPT ![s] = [@ EXCEPT !.par = p, !.kind = S[p].kind, !.bank = S[p].bank,
                                              !.base = S[p].base, !.slot = S[p].slot]]
           ELSE S' = S
        ELSE
           LET off == Len(S[m].data)
               sl == [k \in 1..Len(S[s].labs) |-> [S[s].labs[k] EXCEPT !.off = @ + off]]
               sr == [k \in 1..Len(S[s].refs) |-> [S[s].refs[k] EXCEPT !.off = @ + off]]
           IN S' = [S EXCEPT ![m] = [@ EXCEPT !.data = @ \o S[s].data, !.labs = @ \o sl, !.refs = @ \o sr],
                             ![s] = [@ EXCEPT !.alive = FALSE, !.mergedInto = m, !.moff = off, !.labs = << >>, !.refs = << >>]]
  /\ UNCHANGED <<cid, pc, blks, cur, todo, rom, own, ram, L, err, verdict>>

-----------------------------------------------------------------------------
(* Name resolution. A label knows its section (0 = outside), its namespace. *)
LabTable ==  \* every label of every surviving-or-not section, before addresses
  LET secl == ConcatAll([s \in 1..Len(S) |->
                [k \in 1..Len(S[s].labs) |->
                   [n |-> S[s].labs[k].n, loc |-> S[s].labs[k].loc, sec |-> s, blk |-> 0, ns |-> S[s].ns,
                    off |-> S[s].labs[k].off, base |-> S[s].labs[k].base]]])
      blkl == ConcatAll([b \in 1..Len(blks) |->
                [k \in 1..Len(blks[b].labs) |->
                   [n |-> blks[b].labs[k].n, loc |-> blks[b].labs[k].loc, sec |-> 0, blk |-> b, ns |-> "",
                    off |-> blks[b].labs[k].off, base |-> blks[b].labs[k].base]]])
  IN blkl \o secl

IsGlobal(l) == l.sec = 0 \/ (~l.loc /\ l.ns = "")
Clash == \* two labels of one name in one scope
  \E a, b \in 1..Len(L) : a < b /\ L[a].n = L[b].n /\
     \/ L[a].sec = L[b].sec /\ L[a].sec # 0
     \/ IsGlobal(L[a]) /\ IsGlobal(L[b])
     \/ L[a].ns # "" /\ L[a].ns = L[b].ns /\ ~L[a].loc /\ ~L[b].loc

\* token t: [n, pre, post, ...]; s: section the reference is in (0 = outside). 0 when unknown.
Find(t, s) ==
  LET InNs  == IF t.pre = "" THEN {} ELSE {k \in 1..Len(L) : L[k].ns = t.pre /\ L[k].n = t.post /\ ~L[k].loc}
      MyNs  == IF s = 0 THEN {} ELSE IF S[s].ns = "" THEN {}
               ELSE {k \in 1..Len(L) : L[k].ns = S[s].ns /\ L[k].n = t.n /\ ~L[k].loc}
      MySec == IF s = 0 THEN {} ELSE {k \in 1..Len(L) : L[k].sec = s /\ L[k].n = t.n}
      Glob  == {k \in 1..Len(L) : IsGlobal(L[k]) /\ L[k].n = t.n}
  IN IF InNs # {} THEN SetMin(InNs) ELSE IF MyNs # {} THEN SetMin(MyNs)
     ELSE IF MySec # {} THEN SetMin(MySec) ELSE IF Glob # {} THEN SetMin(Glob) ELSE 0

LeafToks(x) == {k \in 1..Len(x) : x[k].k \in {"l", "b"}}

EndMerge ==
  /\ pc = "merge" /\ i > Len(todo)
  /\ L' = LabTable
  /\ pc' = "clash"
  /\ UNCHANGED <<cid, i, S, blks, cur, todo, rom, own, ram, err, verdict>>

RefTargets(refs, s) ==  \* sections (other than s) that references located in s mention
  {L[Find(refs[k].x[j], s)].sec : <<k, j>> \in
      {<<k, j>> \in (1..Len(refs)) \X (1..12) :
          /\ j <= Len(refs[k].x) /\ refs[k].x[j].k \in {"l", "b"}
          /\ ~refs[k].x[j].loc
          /\ Find(refs[k].x[j], s) # 0}} \ {0, s}

CheckClash ==
  /\ pc = "clash"
  /\ IF Clash THEN Fail("duplicate label") /\ UNCHANGED <<S, blks>>
     ELSE IF ~C.discard THEN pc' = "plan" /\ err' = err /\ UNCHANGED <<S, blks>>
     ELSE /\ pc' = "discard" /\ err' = err
          /\ S' = [s \in 1..Len(S) |-> [S[s] EXCEPT !.tg = RefTargets(S[s].refs, s)]]
          /\ blks' = [b \in 1..Len(blks) |-> [blks[b] EXCEPT !.tg = RefTargets(blks[b].refs, 0)]]
  /\ UNCHANGED <<cid, i, cur, todo, rom, own, ram, L, verdict>>

(* --- -d: one round of dropping unreferenced sections -------------------- *)
\* a section that must stay; one appended to another makes that one stay
Rooted(s) == \E t \in 1..Len(S) : (t = s \/ S[t].mergedInto = s) /\ (S[t].keep \/ S[t].kind \notin Discardable)
Referenced ==
  UNION {blks[b].tg : b \in 1..Len(blks)}
  \cup UNION {S[s].tg : s \in {t \in 1..Len(S) : S[t].alive}}

DiscardRound ==
  /\ pc = "discard"
  /\ LET ref == Referenced
         stay == {s \in 1..Len(S) : S[s].alive /\ (Rooted(s) \/ s \in ref)}
         now == {s \in 1..Len(S) : S[s].alive}
     IN IF stay = now THEN pc' = "plan" /\ S' = S
        ELSE /\ S' = [s \in 1..Len(S) |-> [S[s] EXCEPT !.alive = s \in stay]]
             /\ pc' = pc
  /\ UNCHANGED <<cid, i, blks, cur, todo, rom, own, ram, L, err, verdict>>

-----------------------------------------------------------------------------
(* Placement                                                                *)
OrderOf(kinds, seq) == ConcatAll([k \in 1..Len(kinds) |-> SelectSeq(seq, LAMBDA s : S[s].kind = kinds[k])])

BlockBytes(r, b) == [a \in 0..(RomSize - 1) |->
    LET o == a - (BankAddr(blks[b].bank) + blks[b].addr) IN
    IF o >= 0 /\ o < Len(blks[b].data) THEN blks[b].data[o + 1] ELSE r[a]]
BlockOwn(r, b) == [a \in 0..(RomSize - 1) |->
    LET o == a - (BankAddr(blks[b].bank) + blks[b].addr) IN
    IF o >= 0 /\ o < Len(blks[b].data) THEN -b ELSE r[a]]

Plan ==
  /\ pc = "plan"
  /\ LET live == SelectSeq(todo, LAMBDA s : S[s].alive)
         rams == SelectSeq(live, LAMBDA s : S[s].kind \in RamKinds)
         roms == SelectSeq(live, LAMBDA s : S[s].kind \notin RamKinds)
     IN todo' = (IF C.priram THEN rams ELSE OrderOf(C.ramorder, rams))
                \o (IF C.prirom THEN roms ELSE OrderOf(C.romorder, roms))
  /\ rom' = FoldLeft(BlockBytes, [a \in 0..(RomSize - 1) |-> -1], [b \in 1..Len(blks) |-> b])
  /\ own' = FoldLeft(BlockOwn, [a \in 0..(RomSize - 1) |-> 0], [b \in 1..Len(blks) |-> b])
  /\ pc' = "place"
  /\ UNCHANGED <<cid, i, S, blks, cur, ram, L, err, verdict>>

WindowOK(s, a) ==  \* a: address in the slot's address space
  LET n == Len(S[s].data) IN
  /\ S[s].wlo >= 0 /\ S[s].whi >= 0 =>
        /\ S[s].wlo <= a /\ a + n <= S[s].whi
  /\ S[s].bitw > 0 => (n > 0 => a \div Pow2(S[s].bitw) = (a + n - 1) \div Pow2(S[s].bitw))

FitsRom(s, b, a, limit) ==  \* a: in-bank address of the first byte
  LET n == Len(S[s].data) g == BankAddr(b) IN
  /\ a + n <= limit
  /\ \A k \in 0..(n - 1) : rom[g + a + k] = -1
RomCandidates(s, b, start, limit) ==
  {a \in (start + S[s].offset)..limit :
      /\ (a - S[s].offset + BankAddr(b)) % S[s].align = 0
      /\ FitsRom(s, b, a, limit)
      /\ WindowOK(s, SlotAddr(S[s].slot) + a)}
SlotOK(s, a) == a + Len(S[s].data) <= SlotSize(S[s].slot)

PutRom(s, b, a) ==
  LET g == BankAddr(b) + a n == Len(S[s].data) IN
  /\ rom' = [x \in 0..(RomSize - 1) |-> IF x >= g /\ x < g + n THEN S[s].data[x - g + 1] ELSE rom[x]]
  /\ own' = [x \in 0..(RomSize - 1) |-> IF x >= g /\ x < g + n THEN s ELSE own[x]]
  /\ S' = [S EXCEPT ![s] = [@ EXCEPT !.bank = b, !.addr = a, !.placed = TRUE]]
  /\ todo' = Tail(todo)
  /\ UNCHANGED <<pc, err, ram>>
NoPlace(e) == Fail(e) /\ UNCHANGED <<rom, own, S, todo, ram>>

EqualOrFree(s, b, a) ==
  \A k \in 0..(Len(S[s].data) - 1) :
     LET x == BankAddr(b) + a + k IN rom[x] = -1 \/ (rom[x] = S[s].data[k + 1] /\ rom[x] # Hole)

\* sections at fixed places may overlap where their bytes agree; whether they do is not known here when one of the
\* bytes is filled in later, and what happens then is not promised (strict cases: it has to be refused)
Murky(s, b, a) == ~C.strict /\ \E k \in 0..(Len(S[s].data) - 1) :
     LET x == BankAddr(b) + a + k IN rom[x] = Hole \/ (rom[x] # -1 /\ S[s].data[k + 1] = Hole)

PlaceFixed(s, a) ==  \* FORCE and sections after another one
  IF a + Len(S[s].data) > BankSize(S[s].bank) THEN NoPlace("bank overflow")
  ELSE IF ~SlotOK(s, a) THEN NoPlace("slot overflow")
  ELSE IF Murky(s, S[s].bank, a) THEN NoPlace("unspecified")
  ELSE IF ~EqualOrFree(s, S[s].bank, a) THEN NoPlace("no room")
  ELSE PutRom(s, S[s].bank, a)

PlaceOver(s, a) ==
  IF a + Len(S[s].data) > BankSize(S[s].bank) THEN NoPlace("bank overflow")
  ELSE IF ~SlotOK(s, a) THEN NoPlace("slot overflow")
  ELSE PutRom(s, S[s].bank, a)

PlaceSearch(s, b, start, limit) ==
  LET cand == RomCandidates(s, b, start, limit) IN
  IF cand = {} THEN NoPlace("no room")
  ELSE IF ~SlotOK(s, SetMin(cand)) THEN NoPlace("slot overflow")
  ELSE PutRom(s, b, SetMin(cand))

PlaceBanks(s, bankseq) ==  \* first bank of the list where it fits
  LET ok == {k \in 1..Len(bankseq) : RomCandidates(s, bankseq[k], 0, BankSize(bankseq[k])) # {}} IN
  IF ok = {} THEN NoPlace("no room")
  ELSE LET b == bankseq[SetMin(ok)]
           a == SetMin(RomCandidates(s, b, 0, BankSize(b))) IN
       IF ~SlotOK(s, a) THEN NoPlace("slot overflow") ELSE PutRom(s, b, a)

SuperBanks(s) == SelectSeq([k \in 1..NBanks |-> k - 1], LAMBDA b : BankSize(b) = SlotSize(S[s].slot))

AfterPos(s) == S[S[s].par].addr + Len(S[S[s].par].data) + S[s].offset

PlaceRom ==
  /\ pc = "place" /\ todo # << >> /\ S[Head(todo)].kind \notin RamKinds
  /\ LET s == Head(todo) k == S[s].kind IN
     IF S[s].par # 0 /\ ~S[S[s].par].placed THEN NoPlace("followed section not placed")
     ELSE LET b == IF S[s].par # 0 THEN S[S[s].par].bank ELSE S[s].bank IN
     IF S[s].par # 0 /\ k # "OVERWRITE" THEN
        LET a == AfterPos(s) IN
        IF a + Len(S[s].data) > BankSize(b) THEN NoPlace("bank overflow")
        ELSE IF ~SlotOK(s, a) THEN NoPlace("slot overflow")
        ELSE IF Murky(s, b, a) THEN NoPlace("unspecified")
        ELSE IF ~EqualOrFree(s, b, a) THEN NoPlace("no room")
        ELSE PutRom(s, b, a)
     ELSE IF S[s].par # 0 THEN PlaceOver(s, AfterPos(s))
     ELSE CASE k = "FORCE" -> PlaceFixed(s, S[s].addr)
            [] k = "OVERWRITE" -> PlaceOver(s, S[s].addr)
            [] k = "SEMISUBFREE" -> PlaceSearch(s, b, 0, Min2(S[s].addr, BankSize(b)))
            [] k = "SEMIFREE" -> PlaceSearch(s, b, S[s].addr, BankSize(b))
            [] k = "FREE" -> PlaceSearch(s, b, 0, BankSize(b))
            [] k = "SUPERFREE" -> PlaceBanks(s, SuperBanks(s))
            [] k = "SEMISUPERFREE" -> PlaceBanks(s, S[s].banks)
  /\ UNCHANGED <<cid, i, blks, cur, L, verdict>>

RamCells(s, a) == {<<S[s].bank, S[s].slot, x>> : x \in a..(a + Len(S[s].data) - 1)}
PutRam(s, a) ==
  /\ ram' = ram \cup RamCells(s, a)
  /\ S' = [S EXCEPT ![s] = [@ EXCEPT !.addr = a, !.placed = TRUE]]
  /\ todo' = Tail(todo)
  /\ UNCHANGED <<pc, err, rom, own>>
RamFits(s, a, limit) == a + Len(S[s].data) <= limit /\ RamCells(s, a) \cap ram = {}
RamCandidates(s, start, limit) ==
  {a \in (start + S[s].offset)..limit :
      /\ (a - S[s].offset + SlotAddr(S[s].slot)) % S[s].align = 0
      /\ RamFits(s, a, limit)
      /\ WindowOK(s, SlotAddr(S[s].slot) + a)}
PlaceRam ==
  /\ pc = "place" /\ todo # << >> /\ S[Head(todo)].kind \in RamKinds
  /\ LET s == Head(todo) k == S[s].kind sz == SlotSize(S[s].slot) IN
     IF S[s].par # 0 THEN
        IF ~S[S[s].par].placed THEN NoPlace("followed section not placed")
        ELSE IF RamFits(s, AfterPos(s), sz) THEN PutRam(s, AfterPos(s)) ELSE NoPlace("no room")
     ELSE IF k = "RAM_FORCE" THEN
        LET a == AlignUp(SlotAddr(S[s].slot) + S[s].addr, S[s].align) - SlotAddr(S[s].slot) + S[s].offset IN
        IF RamFits(s, a, sz) THEN PutRam(s, a) ELSE NoPlace("no room")
     ELSE LET cand == CASE k = "RAM_SEMISUBFREE" -> RamCandidates(s, 0, Min2(S[s].addr, sz))
                        [] k = "RAM_SEMIFREE" -> RamCandidates(s, S[s].addr, sz)
                        [] k = "RAM_FREE" -> RamCandidates(s, 0, sz)
          IN IF cand = {} THEN NoPlace("no room") ELSE PutRam(s, SetMin(cand))
  /\ UNCHANGED <<cid, i, blks, cur, L, verdict>>

-----------------------------------------------------------------------------
(* Labels get addresses, references are filled in                           *)
Addressed(l) ==
  IF l.sec = 0 THEN
    LET b == blks[l.blk] IN
    [n |-> l.n, loc |-> l.loc, sec |-> 0, blk |-> l.blk, ns |-> "", off |-> l.off,
     bank |-> b.bank, base |-> l.base, ram |-> FALSE, addr |-> SlotAddr(b.slot) + b.addr + l.off, live |-> TRUE]
  ELSE
    LET s == S[l.sec] IN
    [n |-> l.n, loc |-> l.loc, sec |-> l.sec, blk |-> 0, ns |-> l.ns, off |-> l.off,
     bank |-> s.bank, base |-> l.base, ram |-> s.kind \in RamKinds,
     addr |-> SlotAddr(s.slot) + s.addr + l.off, live |-> s.alive]

\* all references as [at: rom offset, pcaddr: cpu address of the field, sec, w, x]
AllRefs ==
  LET br == ConcatAll([b \in 1..Len(blks) |-> [k \in 1..Len(blks[b].refs) |->
              LET r == blks[b].refs[k] IN
              [at |-> BankAddr(blks[b].bank) + blks[b].addr + r.off,
               pc |-> SlotAddr(blks[b].slot) + blks[b].addr + r.off, sec |-> 0, w |-> r.w, x |-> r.x]]])
      sr == ConcatAll([s \in 1..Len(S) |-> IF S[s].alive /\ S[s].kind \notin RamKinds THEN
              [k \in 1..Len(S[s].refs) |->
              LET r == S[s].refs[k] IN
              [at |-> BankAddr(S[s].bank) + S[s].addr + r.off,
               pc |-> SlotAddr(S[s].slot) + S[s].addr + r.off, sec |-> s, w |-> r.w, x |-> r.x]]
              ELSE << >>])
  IN br \o sr

AssignLabels ==
  /\ pc = "place" /\ todo = << >>
  /\ L' = [k \in 1..Len(L) |-> Addressed(L[k])]
  /\ todo' = AllRefs
  /\ pc' = "resolve" /\ i' = 1
  /\ UNCHANGED <<cid, S, blks, cur, rom, own, ram, err, verdict>>

\* value of a label leaf inside reference r; unknown label is an error value
LeafValue(r, t) ==
  LET f == Find(t, r.sec) IN
  IF f = 0 THEN ErrV
  ELSE IF t.k = "b" THEN QI((L[f].bank + L[f].base) % 256)
  ELSE IF r.w = "24" THEN QI(L[f].addr + 65536 * (L[f].bank + L[f].base))
  ELSE QI(L[f].addr)

RefValue(r) ==
  LET q == EvalRPN(LAMBDA t : LeafValue(r, t), r.x) IN
  \* a relative field counts from the byte after it
  IF r.w \in {"r8", "r16"} THEN Binary("-", q, QI(r.pc + WSize(r.w))) ELSE q
Direct(r) == Len(r.x) = 1
InRange(r, v) ==
  CASE r.w = "8"   -> (IF Direct(r) THEN 0 ELSE -128) <= v /\ v <= 255
    [] r.w = "r8"  -> -128 <= v /\ v <= 127
    [] r.w = "16"  -> -32768 <= v /\ v <= 65535
    [] r.w = "r16" -> -32768 <= v /\ v <= 32767
    [] r.w = "13"  -> 0 <= v /\ v <= 8191
    [] r.w = "9"   -> 0 <= v /\ v <= 510 /\ v % 2 = 0
    [] r.w = "24"  -> -8388608 <= v /\ v <= 16777215
    [] r.w = "32"  -> TRUE
FieldBytes(r, v) ==
  LET n == WSize(r.w) IN IF C.be THEN BEBytes(v, n) ELSE LEBytes(v, n)

\* one reference at a time; fields that several references share (possible when sections overwrite each
\* other) have no promised content
PutField(m, at, bs) == FoldLeft(LAMBDA f, k : [f EXCEPT ![at + k - 1] = bs[k]], m, [k \in 1..Len(bs) |-> k])
\* who: the section (or 0: a block) the field belongs to
MarkField(m, at, n, who) == FoldLeft(LAMBDA f, k : [f EXCEPT ![at + k - 1] =
                          IF @ >= 1000 \/ (who > 0 /\ @ # who) \/ (who = 0 /\ @ > 0) THEN DontCare
                          ELSE 1000 + (IF @ < 0 THEN 0 ELSE @)], m, [k \in 1..n |-> k])
FillOne(r, q) ==
  IF IsErr(q) THEN Fail("reference") /\ UNCHANGED <<rom, own, todo>>
  ELSE IF ~InRange(r, QTrunc(q)) THEN Fail("reference") /\ UNCHANGED <<rom, own, todo>>
  ELSE /\ rom' = PutField(rom, r.at, FieldBytes(r, QTrunc(q)))
       /\ own' = MarkField(own, r.at, WSize(r.w), r.sec)
       /\ todo' = Tail(todo)
       /\ UNCHANGED <<pc, err>>
Resolve ==
  /\ pc = "resolve" /\ todo # << >>
  /\ FillOne(Head(todo), RefValue(Head(todo)))
  /\ UNCHANGED <<cid, i, S, blks, cur, ram, L, verdict>>
Resolved ==
  /\ pc = "resolve" /\ todo = << >>
  /\ pc' = "judge"
  /\ UNCHANGED <<cid, i, S, blks, cur, todo, rom, own, ram, L, err, verdict>>

-----------------------------------------------------------------------------
(* Comparison with the execution that was recorded from the real tools      *)
Obs == C.obs
ExpSecs == {<<S[s].name, BankAddr(S[s].bank) + S[s].addr, S[s].bank + S[s].base, S[s].addr,
              SlotAddr(S[s].slot) + S[s].addr, Len(S[s].data)>> :
              s \in {t \in 1..Len(S) : S[t].alive /\ S[t].kind \notin RamKinds}}
ExpRams == {<<S[s].name, 0, S[s].bank + S[s].base, S[s].addr,
              SlotAddr(S[s].slot) + S[s].addr, Len(S[s].data)>> :
              s \in {t \in 1..Len(S) : S[t].alive /\ S[t].kind \in RamKinds}}
ExpLabs == {<<L[k].n, L[k].bank + L[k].base, L[k].addr>> : k \in {j \in 1..Len(L) : L[j].live}}
RamGroups == {<<c[1], c[2]>> : c \in ram}
UsageLo(g) == SlotAddr(g[2]) + SetMin({c[3] : c \in {x \in ram : x[1] = g[1] /\ x[2] = g[2]}})
UsageHi(g) == SlotAddr(g[2]) + SetMax({c[3] : c \in {x \in ram : x[1] = g[1] /\ x[2] = g[2]}})
ExpUsage == {<<g[1], g[2], UsageLo(g), UsageHi(g)>> : g \in RamGroups}
SeqSet(q) == {q[k] : k \in 1..Len(q)}
Out(a) == IF rom[a] = -1 THEN C.fill ELSE rom[a]
RomDiff == {a \in 0..(RomSize - 1) : own[a] # DontCare /\ Obs.rom[a + 1] # Out(a)}

\* The weak reading of C01 on the recorded execution alone: wherever the tools put the sections, they are in
\* bounds, where their kind allows, aligned, intact and apart. Sections are recognised by name when it is unique.
OName(o) == {s \in 1..Len(S) : S[s].name = o[1] /\ S[s].alive /\ S[s].kind \notin RamKinds}
ObsUniq == {k \in 1..Len(Obs.secs) : Cardinality(OName(Obs.secs[k])) = 1}
OSec(k) == SetMin(OName(Obs.secs[k]))
ORange(k) == Obs.secs[k][2]..(Obs.secs[k][2] + Obs.secs[k][6] - 1)
RefOffs(refs) == UNION {{refs[k].off + j : j \in 0..(WSize(refs[k].w) - 1)} : k \in 1..Len(refs)}
ORefCells ==  \* cells that are filled in late
  UNION {{Obs.secs[k][2] + q : q \in RefOffs(S[OSec(k)].refs)} : k \in ObsUniq}
  \cup UNION {{BankAddr(blks[b].bank) + blks[b].addr + q : q \in RefOffs(blks[b].refs)} : b \in 1..Len(blks)}
MayBeHit(k) == \* cells some other section may legally have overwritten
  UNION {ORange(j) : j \in {j \in 1..Len(Obs.secs) : j # k /\ \E s \in OName(Obs.secs[j]) : S[s].kind = "OVERWRITE"}}
OPlaceOK(k) ==
  LET o == Obs.secs[k] s == OSec(k) b == o[3] - S[s].base a == o[4] IN
  /\ o[6] = Len(S[s].data)
  /\ b \in 0..(NBanks - 1)
  /\ a >= 0 /\ a + o[6] <= BankSize(b) /\ a + o[6] <= SlotSize(S[s].slot)
  /\ o[2] = BankAddr(b) + a
  /\ S[s].par = 0 =>
       /\ S[s].kind \notin {"FORCE", "OVERWRITE"} => (BankAddr(b) + a - S[s].offset) % S[s].align = 0 /\ WindowOK(s, SlotAddr(S[s].slot) + a)
       /\ S[s].kind = "SEMIFREE" => b = S[s].obank /\ a >= S[s].oaddr
       /\ S[s].kind = "SEMISUBFREE" => b = S[s].obank /\ a + o[6] <= S[s].oaddr
       /\ S[s].kind \in {"FORCE", "OVERWRITE"} => b = S[s].obank /\ a = S[s].oaddr
       /\ S[s].kind = "FREE" => b = S[s].obank
       /\ S[s].kind = "SEMISUPERFREE" => \E q \in 1..Len(S[s].banks) : S[s].banks[q] = b
       /\ S[s].kind = "SUPERFREE" => BankSize(b) = SlotSize(S[s].slot)
OIntact(k, refc) ==
  LET o == Obs.secs[k] s == OSec(k) h == MayBeHit(k) IN
     \A q \in 0..(o[6] - 1) : (o[2] + q) \in refc \/ (o[2] + q) \in h \/ Obs.rom[o[2] + q + 1] = S[s].data[q + 1]
MayShare(s) == S[s].kind \in {"OVERWRITE"} \/ S[s].kind = "FORCE" \/ S[s].par # 0
OApart(j, k) ==
  LET s == OSec(j) t == OSec(k) IN
  \/ MayShare(s) \/ MayShare(t)
  \/ ORange(j) \cap ORange(k) = {}
OBlkOK(b, refc) ==
  LET g == BankAddr(blks[b].bank) + blks[b].addr
      \* code outside sections may be written over by later code outside sections
      h == MayBeHit(0) \cup UNION {LET h0 == BankAddr(blks[c].bank) + blks[c].addr IN h0..(h0 + Len(blks[c].data) - 1) : c \in (b + 1)..Len(blks)} IN
     \A q \in 0..(Len(blks[b].data) - 1) : (g + q) \in refc \/ (g + q) \in h \/ Obs.rom[g + q + 1] = blks[b].data[q + 1]
ObsPlace ==
  LET refc == ORefCells
      bad == {k \in ObsUniq : ~OPlaceOK(k)}
      hurt == {k \in ObsUniq \ bad : ~OIntact(k, refc)}
      near == {q \in ObsUniq \X ObsUniq : q[1] < q[2] /\ ~OApart(q[1], q[2])}
      bb == {b \in 1..Len(blks) : ~OBlkOK(b, refc)}
  IN (IF bad # {} THEN {<<"place", "ill placed " \o ToString({Obs.secs[k] : k \in bad})>>} ELSE {})
     \cup (IF hurt # {} THEN {<<"place", "not intact " \o ToString({Obs.secs[k] : k \in hurt})>>} ELSE {})
     \cup (IF near # {} THEN {<<"place", "overlap " \o ToString({<<Obs.secs[q[1]], Obs.secs[q[2]]>> : q \in near})>>} ELSE {})
     \cup (IF bb # {} THEN {<<"place", "block hurt " \o ToString(bb)>>} ELSE {})

-----------------------------------------------------------------------------
(* What the symbol files say besides labels and sections (C.sym): symbols,  *)
(* breakpoints, definitions with the sizes of labels, and for every line    *)
(* that made data the address of its first byte. Lines are known by tags.   *)
ItemLen(it) == CASE it.k = "d" -> Len(it.v) [] it.k = "v" -> it.sz [] it.k = "r" -> Len(it.pre) + WSize(it.w) [] OTHER -> 0
MarkStep(f, it) == [off |-> f.off + ItemLen(it),
                    m |-> Append(f.m, [k |-> it.k, tag |-> it.tag, n |-> IF it.k = "s" THEN it.n ELSE "", off |-> f.off, len |-> ItemLen(it)])]
ItemMarks(items) == FoldLeft(MarkStep, [off |-> 0, m |-> << >>], items).m
\* place of a mark in section s
SecMark(s, x) ==
  LET m == IF S[s].mergedInto = 0 THEN s ELSE S[s].mergedInto
      a == S[m].addr + S[s].moff + x.off
  IN [k |-> x.k, tag |-> x.tag, n |-> x.n, len |-> x.len, live |-> S[m].alive /\ S[m].kind \notin RamKinds, sec |-> TRUE,
      bank |-> S[m].bank, base |-> S[s].base, rbase |-> S[m].base, rom |-> IF S[m].kind \in RamKinds THEN 0 ELSE BankAddr(S[m].bank) + a, addr |-> SlotAddr(S[m].slot) + a, off |-> a]
BlkMark(b, x) ==
  LET a == blks[b].addr + x.off
  IN [k |-> x.k, tag |-> x.tag, n |-> x.n, len |-> x.len, live |-> TRUE, sec |-> FALSE, bank |-> blks[b].bank, base |-> blks[b].base, rbase |-> blks[b].base,
      rom |-> BankAddr(blks[b].bank) + a, addr |-> SlotAddr(blks[b].slot) + a, off |-> a]
BlkEls == SelectSeq([k \in 1..Len(C.els) |-> k], LAMBDA k : C.els[k].t = "blk")
AllMarks ==
  ConcatAll([b \in 1..Len(blks) |-> LET q == ItemMarks(C.els[BlkEls[b]].items) IN [k \in 1..Len(q) |-> BlkMark(b, q[k])]])
  \o ConcatAll([e \in 1..Len(C.els) |->
       IF C.els[e].t # "sec" THEN << >>
       ELSE LET who == {s \in 1..Len(S) : S[s].name = C.els[e].name /\ S[s].obj = C.els[e].obj}
            IN IF who = {} THEN << >>
               ELSE LET q == ItemMarks(C.els[e].items) IN [k \in 1..Len(q) |-> SecMark(SetMin(who), q[k])]])

RomOf(l) == IF l.sec = 0 THEN BankAddr(blks[l.blk].bank) + blks[l.blk].addr + l.off ELSE BankAddr(S[l.sec].bank) + S[l.sec].addr + l.off
Least(X, d) == IF X = {} THEN d ELSE SetMin(X)
\* where the parts of a section begin
Joints(m) == {S[s].moff : s \in {t \in 1..Len(S) : S[t].mergedInto = m}}
VarSize(n) == LET X == UNION {{it \in SeqSet(C.els[e].items) : it.k = "v"} : e \in {x \in 1..Len(C.els) : C.els[x].t = "sec"}}
                  Y == {it \in X : it.n = n} IN IF Y = {} THEN -1 ELSE (CHOOSE y \in Y : TRUE).sz
LabelSizes(k) ==
  LET l == L[k]
      romlabs == {j \in 1..Len(L) : j # k /\ L[j].live /\ ~L[j].ram}
  IN IF l.ram THEN {VarSize(l.n)}
     ELSE IF l.sec # 0 THEN
       LET mates == {j \in romlabs : L[j].sec = l.sec}
           next == Least({L[j].off : j \in {x \in mates : L[x].off > l.off}}, Len(S[l.sec].data))
           twin == \E j \in mates : L[j].off = l.off
       IN {next - l.off} \cup (IF twin THEN {0} ELSE {}) \cup {q - l.off : q \in {z \in Joints(l.sec) : z >= l.off /\ z < next}}
     ELSE
       LET a == RomOf(l)
           twin == \E j \in romlabs : RomOf(L[j]) = a
           next == Least({RomOf(L[j]) : j \in {x \in romlabs : RomOf(L[x]) > a}}, RomSize)
           hole == Least({q \in a..(next - 1) : own[q] = 0}, next)
           bend == BankAddr(blks[l.blk].bank) + BankSize(blks[l.blk].bank)
       IN {hole - a} \cup (IF twin THEN {0} ELSE {}) \cup (IF hole > bend THEN {bend - a} ELSE {})

SymMismatch ==
  LET M == SeqSet(AllMarks)
      live == {x \in M : x.live}
      syms == {x \in live : x.k = "s" /\ x.n # ""}
      brks == {x \in live : x.k = "s" /\ x.n = ""}
      osyms == SeqSet(Obs.syms)
      bsym == {o \in osyms : ~\E x \in syms : o[1] = x.n /\ o[3] = x.addr /\ o[2] \in {x.bank, x.bank + x.base}}
      msym == {x \in syms : ~\E o \in osyms : o[1] = x.n /\ o[3] = x.addr}
      obrk == SeqSet(Obs.brks)
      bbrk == {o \in obrk : ~\E x \in brks : o[2] = x.addr /\ o[1] \in {x.bank, x.bank + x.base}}
      mbrk == {x \in brks : ~\E o \in obrk : o[2] = x.addr}
      defs == {<<C.defs[k].n, C.defs[k].v>> : k \in {j \in 1..Len(C.defs) : C.defs[j].export}}
      livel == {k \in 1..Len(L) : L[k].live}
      odef == SeqSet(Obs.defs)
      osize == SeqSet(Obs.sizes)
      mdef == (defs \ odef) \cup (odef \ defs)
      bsize == {o \in osize : ~\E k \in livel : L[k].n = o[1] /\ o[2] \in LabelSizes(k)}
      msize == IF C.nosizes THEN {o \in osize : \E k \in livel : L[k].n = o[1] /\ ~L[k].ram}
               ELSE {<<L[k].n, LabelSizes(k)>> : k \in {j \in livel : ~\E o \in osize : o[1] = L[j].n}}
      exp == {<<x.rom, x.bank + x.rbase, x.off, x.addr, x.tag>> : x \in {y \in live : y.sec /\ y.k \in {"d", "r"} /\ y.len > 0}}
      out == {<<x.rom, x.bank + x.rbase, x.off, x.addr, x.tag>> : x \in {y \in live : ~y.sec /\ y.k \in {"d", "r"} /\ y.len > 0}}
      oline == SeqSet(Obs.lines)
      mline == IF C.lines THEN (exp \ oline) \cup (oline \ (exp \cup out)) ELSE oline
  IN (IF bsym # {} \/ msym # {} THEN {<<"symbol", ToString(<<bsym, {x.n : x \in msym}>>)>>} ELSE {})
     \cup (IF bbrk # {} \/ mbrk # {} \/ (Obs.nbrk # Cardinality(brks) /\ Obs.nbrk # Cardinality(obrk)) THEN {<<"break", ToString(<<bbrk, {x.addr : x \in mbrk}, Obs.nbrk>>)>>} ELSE {})
     \cup (IF mdef # {} THEN {<<"defs", ToString(mdef)>>} ELSE {})
     \cup (IF bsize # {} \/ msize # {} THEN {<<"sizes", ToString(<<bsize, msize>>)>>} ELSE {})
     \cup (IF mline # {} THEN {<<"lines", ToString(<<mline, exp>>)>>} ELSE {})
     \cup (IF ~Obs.sums THEN {<<"sums", "checksums of the files in the symbol file">>} ELSE {})
     \cup (IF SeqSet(Obs.alt) # {<<x[1], IF C.alt = "equ" THEN 0 ELSE x[2], x[3]>> : x \in ExpLabs} THEN
             {<<"alt", ToString(<<SeqSet(Obs.alt), ExpLabs>>)>>} ELSE {})

Mismatch ==
  IF err # "" THEN
    IF Obs.rc = 2 THEN {<<"crash", "crash or no end, expected failure: " \o err>>}
    ELSE IF err = "unspecified" THEN {}
    ELSE IF Obs.rc = 0 THEN {<<"rc", "expected failure: " \o err>>}
    ELSE IF Obs.hasrom THEN {<<"rc", "failed link left a ROM">>} ELSE {}
  ELSE IF Obs.rc = 2 THEN {<<"crash", "crash or no end, expected success">>}
  ELSE IF Obs.rc # 0 THEN {<<"rc", "expected success">>}
  ELSE IF Len(Obs.rom) # RomSize THEN {<<"size", ToString(Len(Obs.rom))>>}
  ELSE
    LET lab == (ExpLabs \ SeqSet(Obs.labels)) \cup (SeqSet(Obs.labels) \ ExpLabs)
        sec == (ExpSecs \ SeqSet(Obs.secs)) \cup (SeqSet(Obs.secs) \ ExpSecs)
        rs == (ExpRams \ SeqSet(Obs.rams)) \cup (SeqSet(Obs.rams) \ ExpRams)
        d == IF sec # {} \/ rs # {} THEN {} ELSE RomDiff
        us == (ExpUsage \ SeqSet(Obs.usage)) \cup (SeqSet(Obs.usage) \ ExpUsage)
    IN (IF sec # {} THEN {<<"sec", ToString(sec)>>} ELSE {})
       \cup (IF rs # {} THEN {<<"ramsec", ToString(rs)>>} ELSE {})
       \cup (IF sec # {} \/ rs # {} THEN {<<"img", "">>} ELSE {})
       \cup ObsPlace
       \cup (IF us # {} THEN {<<"usage", ToString(us)>>} ELSE {})
       \cup (IF lab # {} THEN {<<"lab", ToString(lab)>>} ELSE {})
       \cup (IF C.sym THEN SymMismatch ELSE {})
       \cup (LET q == {a \in d : own[a] >= 1000} IN IF q # {} THEN {<<"ref", ToString(q)>>} ELSE {})
       \cup (LET q == {a \in d : own[a] > 0 /\ own[a] < 1000} IN IF q # {} THEN {<<"data", ToString(q)>>} ELSE {})
       \cup (LET q == {a \in d : own[a] < 0} IN IF q # {} THEN {<<"blk", ToString(q)>>} ELSE {})
       \cup (LET q == {a \in d : own[a] = 0} IN IF q # {} THEN {<<"fill", ToString(q)>>} ELSE {})

Judge ==
  /\ pc = "judge"
  /\ LET m == Mismatch IN
     /\ verdict' = (IF m = {} THEN "ok" ELSE "bad")
     /\ IF m = {} THEN PrintT("VERDICT|" \o C.id \o "|OK|" \o (IF err = "" THEN "pass" ELSE err))
        ELSE PrintT("VERDICT|" \o C.id \o "|BAD|" \o ToString({x[1] : x \in m}) \o "|" \o ToString(m) \o "|model " \o
                    (IF err = "" THEN "pass" ELSE err))
  /\ pc' = "done"
  /\ UNCHANGED <<cid, i, S, blks, cur, todo, rom, own, ram, L, err>>

Next == Assemble \/ Order \/ Merge \/ EndMerge \/ CheckClash \/ DiscardRound \/ Plan
        \/ PlaceRom \/ PlaceRam \/ AssignLabels \/ Resolve \/ Resolved \/ Judge

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* The properties, as invariants of the machine                             *)
Placed == {s \in 1..Len(S) : S[s].placed}
PlacedRom == {s \in Placed : S[s].kind \notin RamKinds}
PlacedRam == {s \in Placed : S[s].kind \in RamKinds}

InBounds ==
  /\ \A s \in PlacedRom : S[s].addr >= 0 /\ S[s].addr + Len(S[s].data) <= BankSize(S[s].bank)
                                 /\ S[s].addr + Len(S[s].data) <= SlotSize(S[s].slot)
  /\ \A s \in PlacedRam : S[s].addr >= 0 /\ S[s].addr + Len(S[s].data) <= SlotSize(S[s].slot)

RomCells(s) == {BankAddr(S[s].bank) + S[s].addr + k : k \in 0..(Len(S[s].data) - 1)}
NoRomOverlap ==
  (pc \in {"place", "resolve"}) =>
   \A s, t \in PlacedRom : s < t /\ ~MayShare(s) /\ ~MayShare(t) => RomCells(s) \cap RomCells(t) = {}
NoRamOverlap ==
   \A s, t \in PlacedRam : s < t /\ S[s].bank = S[t].bank /\ S[s].slot = S[t].slot =>
      \/ S[s].addr + Len(S[s].data) <= S[t].addr
      \/ S[t].addr + Len(S[t].data) <= S[s].addr
Intact ==   \* before references are filled, a placed section not overwritten holds its data
  (pc = "place") =>
   \A s \in PlacedRom : \A k \in 0..(Len(S[s].data) - 1) :
      LET a == BankAddr(S[s].bank) + S[s].addr + k IN own[a] = s => rom[a] = S[s].data[k + 1]
Aligned ==
   \A s \in Placed : S[s].par = 0 /\ S[s].kind \notin {"FORCE", "OVERWRITE"} =>
      (IF S[s].kind \in RamKinds THEN SlotAddr(S[s].slot) ELSE BankAddr(S[s].bank)) + S[s].addr - S[s].offset
         - S[s].align * (((IF S[s].kind \in RamKinds THEN SlotAddr(S[s].slot) ELSE BankAddr(S[s].bank)) + S[s].addr - S[s].offset) \div S[s].align) = 0
AfterAdjacent ==
   \A s \in Placed : S[s].par # 0 => S[s].bank = S[S[s].par].bank /\ S[s].addr = AfterPos(s)
KeepRoots == C.discard /\ pc \notin {"asm", "merge", "clash"} /\ L # << >> =>
   \A s \in 1..Len(S) : S[s].mergedInto = 0 /\ Rooted(s) => S[s].alive
=============================================================================
