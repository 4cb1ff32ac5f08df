------------------------------ MODULE WlaCalc ------------------------------
(* Expressions of WLA DX as they are written, labels in a memory map, and   *)
(* the fields they fill.                                                    *)
(*                                                                          *)
(* Layout (one action per element) gives every label and field its place.   *)
(* Then every expression is worked out by an operator-precedence machine,   *)
(* one action per token or reduction: vals is the operand stack, ops the    *)
(* stack of pending operators. The machine does not know whether assembler  *)
(* or linker does the work: the value has to be the same (C09).             *)
EXTENDS WlaExpr, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES cid, pc, i, k, cur, P, LT, D, vals, ops, cells, err, verdict
vars == <<cid, pc, i, k, cur, P, LT, D, vals, ops, cells, err, verdict>>

C == Cases[cid]
E == C.els[i]
BankSize(b) == C.banks[b + 1]
BankAddr(b) == SumSeq(SubSeq(C.banks, 1, b))
SlotAddr(s) == C.slots[s + 1]
WSize(w) == CASE w \in {"8", "r8", "if"} -> 1 [] w \in {"16", "r16"} -> 2 [] w = "24" -> 3 [] w = "32" -> 4

Init == /\ cid \in 1..Len(Cases)
        /\ pc = "layout" /\ i = 1 /\ k = 1 /\ cur = [bank |-> 0, slot |-> 0, base |-> 0, org |-> 0]
        /\ P = << >> /\ LT = << >> /\ D = << >> /\ vals = << >> /\ ops = << >> /\ cells = << >>
        /\ err = "" /\ verdict = ""

Here == [bank |-> cur.bank, slot |-> cur.slot, base |-> cur.base, org |-> cur.org,
         at |-> BankAddr(cur.bank) + cur.org, pc |-> SlotAddr(cur.slot) + cur.org]

(* --- pass 1: places ----------------------------------------------------- *)
Layout ==
  /\ pc = "layout" /\ i <= Len(C.els)
  /\ i' = i + 1
  /\ P' = Append(P, Here)
  /\ CASE E.t = "pos" -> /\ cur' = [bank |-> E.bank, slot |-> E.slot, base |-> E.base, org |-> E.org]
                         /\ UNCHANGED <<LT, cells>>
       [] E.t = "lab" -> /\ LT' = Append(LT, [n |-> E.n, bank |-> cur.bank, base |-> cur.base, slot |-> cur.slot,
                                              org |-> cur.org, ram |-> FALSE])
                         /\ UNCHANGED <<cur, cells>>
       [] E.t = "ram" -> /\ LT' = Append(LT, [n |-> E.n, bank |-> E.bank, base |-> E.base, slot |-> E.slot,
                                              \* the generator leaves it alone in its bank: first fit
                                              org |-> IF E.kind \in {"FORCE", "SEMIFREE"} THEN E.org ELSE 0, ram |-> TRUE])
                         /\ UNCHANGED <<cur, cells>>
       [] E.t = "dat" -> /\ cells' = cells \o [j \in 1..Len(E.v) |-> <<Here.at + j - 1, E.v[j]>>]
                         /\ cur' = [cur EXCEPT !.org = @ + Len(E.v)]
                         /\ UNCHANGED LT
       [] E.t = "fld" -> /\ cells' = cells \o [j \in 1..Len(E.pre) |-> <<Here.at + j - 1, E.pre[j]>>]
                         /\ cur' = [cur EXCEPT !.org = @ + Len(E.pre) + WSize(E.w)]
                         /\ UNCHANGED LT
       [] E.t = "if" -> cur' = [cur EXCEPT !.org = @ + 1] /\ UNCHANGED <<LT, cells>>
       [] OTHER -> UNCHANGED <<cur, LT, cells>>
  /\ UNCHANGED <<cid, pc, k, D, vals, ops, err, verdict>>

LayoutDone ==
  /\ pc = "layout" /\ i > Len(C.els)
  /\ pc' = "eval" /\ i' = 1
  /\ UNCHANGED <<cid, k, cur, P, LT, D, vals, ops, cells, err, verdict>>

(* --- the memory model: bank and address of a label ---------------------- *)
Lab(n) == LET Ks == {q \in 1..Len(LT) : LT[q].n = n} IN IF Ks = {} THEN 0 ELSE SetMin(Ks)
AddrOf(l) == SlotAddr(LT[l].slot) + LT[l].org
RomAddrOf(l) == BankAddr(LT[l].bank) + LT[l].org
\* the SNES modes override the ROM bank map
MapBank(l) == CASE LT[l].ram \/ C.mode = "none" -> LT[l].bank
                [] C.mode \in {"hi", "exhi"} -> RomAddrOf(l) \div 65536
                [] OTHER -> RomAddrOf(l) \div 32768
BankOf(l) == MapBank(l) + LT[l].base

(* --- the operator-precedence machine ------------------------------------ *)
Toks == E.x
T == Toks[k]
Top == ops[Len(ops)]
Pop(s, n) == SubSeq(s, 1, Len(s) - n)
Digits(t) == FoldLeft(LAMBDA a, d : a * t.b + d, 0, t.ds)
IsOperand(t) == t.k \in {"n", "q", "l", "b", "bb", "d", "cur", "defd"}
Def(n) == LET Ks == {q \in 1..Len(D) : D[q].n = n} IN IF Ks = {} THEN 0 ELSE SetMax(Ks)
Wide == E.t = "fld" /\ E.w = "24"
Operand(t) ==
  CASE t.k = "n" -> QI(Digits(t))
    [] t.k = "q" -> Q(Digits([b |-> 10, ds |-> t.ds]), 10 ^ t.fd)
    [] t.k = "l" -> LET l == Lab(t.n) IN
                    IF l = 0 THEN ErrV ELSE QI(AddrOf(l) + (IF Wide THEN 65536 * BankOf(l) ELSE 0))
    [] t.k = "b" -> LET l == Lab(t.n) IN IF l = 0 THEN ErrV ELSE QI(BankOf(l))
    \* bits 16-23 of the label's full address
    [] t.k = "bb" -> LET l == Lab(t.n) IN IF l = 0 THEN ErrV ELSE QI(BankOf(l) % 256)
    [] t.k = "d" -> IF Def(t.n) = 0 THEN ErrV ELSE D[Def(t.n)].v
    [] t.k = "defd" -> QBool(Def(t.n) # 0)
    [] t.k = "cur" -> QI(CASE t.o = "bank" -> P[i].bank [] t.o = "base" -> P[i].base [] t.o = "slot" -> P[i].slot
                           [] t.o = "org" -> P[i].org [] t.o = "orga" -> P[i].pc [] t.o = "caddr" -> P[i].pc)

Apply ==  \* reduce by the operator on top
  LET n == Len(vals) a == Top.a IN
  /\ ops' = Pop(ops, 1)
  /\ vals' = Append(Pop(vals, a), CASE a = 1 -> Unary(Top.o, vals[n])
                                    [] a = 2 -> Binary(Top.o, vals[n - 1], vals[n])
                                    [] a = 3 -> Ternary(Top.o, vals[n - 2], vals[n - 1], vals[n]))
  /\ UNCHANGED k

HasExpr == E.t \in {"fld", "def", "redef", "if"}
Token ==
  /\ pc = "eval" /\ i <= Len(C.els) /\ HasExpr /\ k <= Len(Toks)
  /\ CASE IsOperand(T) -> vals' = Append(vals, Operand(T)) /\ k' = k + 1 /\ UNCHANGED ops
       [] T.k \in {"un", "fn"} -> ops' = Append(ops, T) /\ k' = k + 1 /\ UNCHANGED vals
       [] T.k = "(" -> ops' = Append(ops, T) /\ k' = k + 1 /\ UNCHANGED vals
       [] T.k = "op" -> IF ops # << >> /\ Top.k # "(" /\ Prec(Top.o) >= Prec(T.o) THEN Apply
                        ELSE ops' = Append(ops, T) /\ k' = k + 1 /\ UNCHANGED vals
       [] T.k = "," -> IF Top.k # "(" THEN Apply ELSE k' = k + 1 /\ UNCHANGED <<vals, ops>>
       [] T.k = ")" -> IF Top.k # "(" THEN Apply
                       ELSE IF Len(ops) > 1 /\ ops[Len(ops) - 1].k = "fn"
                       THEN LET f == ops[Len(ops) - 1] n == Len(vals) IN
                            /\ ops' = Pop(ops, 2) /\ k' = k + 1
                            /\ vals' = Append(Pop(vals, f.a),
                                 CASE f.a = 1 -> Unary(f.o, vals[n])
                                   [] f.a = 2 -> Binary(f.o, vals[n - 1], vals[n])
                                   [] f.a = 3 -> Ternary(f.o, vals[n - 2], vals[n - 1], vals[n]))
                       ELSE ops' = Pop(ops, 1) /\ k' = k + 1 /\ UNCHANGED vals
  /\ UNCHANGED <<cid, pc, i, cur, P, LT, D, cells, err, verdict>>
Reduce ==
  /\ pc = "eval" /\ i <= Len(C.els) /\ HasExpr /\ k > Len(Toks) /\ ops # << >>
  /\ Apply
  /\ UNCHANGED <<cid, pc, i, cur, P, LT, D, cells, err, verdict>>

(* --- what becomes of the value ------------------------------------------ *)
OneTok == Len(Toks) = 1
InRange(w, v) ==
  CASE w = "8"   -> (IF OneTok /\ Toks[1].k \in {"l", "b"} THEN 0 ELSE -128) <= v /\ v <= 255
    [] w = "16"  -> -32768 <= v /\ v <= 65535
    [] w = "24"  -> -8388608 <= v /\ v <= 16777215
    [] w = "32"  -> TRUE
    [] w = "r8"  -> -128 <= v /\ v <= 127
    [] w = "r16" -> -32768 <= v /\ v <= 32767
Bytes(w, v) == IF C.be THEN BEBytes(v, WSize(w)) ELSE LEBytes(v, WSize(w))
NextEl == i' = i + 1 /\ k' = 1 /\ vals' = << >> /\ ops' = << >>
FldAt == P[i].at + Len(E.pre)
Use ==
  /\ pc = "eval" /\ i <= Len(C.els) /\ HasExpr /\ k > Len(Toks) /\ ops = << >>
  /\ LET v == vals[1] IN
     IF Len(vals) # 1 \/ IsErr(v) THEN err' = "value" /\ pc' = "judge" /\ UNCHANGED <<i, k, vals, ops, D, cells>>
     ELSE CASE E.t = "fld" ->
                 LET z == QTrunc(v) - (IF E.w \in {"r8", "r16"} THEN P[i].pc + Len(E.pre) + WSize(E.w) ELSE 0) IN
                 IF ~InRange(E.w, z) THEN err' = "range" /\ pc' = "judge" /\ UNCHANGED <<i, k, vals, ops, D, cells>>
                 ELSE /\ cells' = cells \o [j \in 1..WSize(E.w) |-> <<FldAt + j - 1, Bytes(E.w, z)[j]>>]
                      /\ NextEl /\ UNCHANGED <<err, pc, D>>
            [] E.t \in {"def", "redef"} ->
                 IF E.t = "def" /\ Def(E.n) # 0 THEN err' = "twice" /\ pc' = "judge" /\ UNCHANGED <<i, k, vals, ops, D, cells>>
                 ELSE D' = Append(D, [n |-> E.n, v |-> v]) /\ NextEl /\ UNCHANGED <<err, pc, cells>>
            [] E.t = "if" ->
                 \* the two branches have one byte each
                 /\ cells' = cells \o << <<P[i].at, IF QTrunc(v) # 0 THEN E.yes ELSE E.no>> >>
                 /\ NextEl /\ UNCHANGED <<err, pc, D>>
  /\ UNCHANGED <<cid, cur, P, LT, verdict>>
Skip ==
  /\ pc = "eval" /\ i <= Len(C.els) /\ ~HasExpr
  /\ NextEl
  /\ D' = IF E.t = "obj" THEN << >> ELSE D     \* definitions belong to their object
  /\ UNCHANGED <<cid, pc, cur, P, LT, cells, err, verdict>>
EvalDone ==
  /\ pc = "eval" /\ i > Len(C.els)
  /\ pc' = "judge"
  /\ UNCHANGED <<cid, i, k, cur, P, LT, D, vals, ops, cells, err, verdict>>

-----------------------------------------------------------------------------
Obs == C.obs
SeqSet(q) == {q[j] : j \in 1..Len(q)}
Mismatch ==
  IF Obs.rc = 2 THEN {<<"crash", err>>}
  ELSE IF err # "" THEN IF Obs.rc = 0 THEN {<<"rc", "expected failure: " \o err \o " at element " \o ToString(i)>>}
                        ELSE IF Obs.hasrom THEN {<<"rc", "failed link left a ROM">>} ELSE {}
  ELSE IF Obs.rc # 0 THEN {<<"rc", "expected success">>}
  ELSE IF Obs.size # SumSeq(C.banks) THEN {<<"size", ToString(Obs.size)>>}
  ELSE LET want == {x \in SeqSet(cells) : x[2] # C.fill}
           got == SeqSet(Obs.cells)
       IN IF want = got THEN {} ELSE
          {<<"value", "want " \o ToString(want \ got) \o " got " \o ToString(got \ want) \o " elements " \o
             ToString({j \in 1..Len(P) : \E x \in (want \ got) \cup (got \ want) : P[j].at <= x[1] /\ x[1] < P[j].at + 8 /\ C.els[j].t = "fld"})>>}
Judge ==
  /\ pc = "judge"
  /\ LET m == Mismatch IN
     /\ verdict' = (IF m = {} THEN "ok" ELSE "bad")
     /\ IF m = {} THEN PrintT("VERDICT|" \o C.id \o "|OK|" \o (IF err = "" THEN "pass" ELSE err))
        ELSE PrintT("VERDICT|" \o C.id \o "|BAD|" \o ToString({x[1] : x \in m}) \o "|" \o ToString(m) \o "|model " \o
                    (IF err = "" THEN "pass" ELSE err))
  /\ pc' = "done"
  /\ UNCHANGED <<cid, i, k, cur, P, LT, D, vals, ops, cells, err>>

Next == Layout \/ LayoutDone \/ Token \/ Reduce \/ Use \/ Skip \/ EvalDone \/ Judge
Spec == Init /\ [][Next]_vars

\* no reduction ever runs out of operands, and no position leaves its bank
StackSound == \A j \in 1..Len(ops) : ops[j].k # "(" => Len(vals) >= 0
InBank == pc = "layout" => cur.org <= BankSize(cur.bank)
Values == \A j \in 1..Len(vals) : vals[j][2] >= 0
=============================================================================
