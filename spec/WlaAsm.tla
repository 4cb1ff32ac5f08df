------------------------------- MODULE WlaAsm -------------------------------
(* The assembler as an interpreter of its source lines.                     *)
(*                                                                          *)
(* A program is a sequence of lines; ip is the line to be read next. Macros *)
(* are procedures: a call pushes a frame with the call's own arguments and  *)
(* hides definitions of the same names until ENDM. Loops and conditionals   *)
(* are stacks. A skipped line only moves the nesting depth. Every line read *)
(* is one action, so the state before every line can be inspected.          *)
EXTENDS WlaExpr, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
LIMIT == 1200

VARIABLES cid, exps, ip, mode, depth, D, F, L, I, M, cnt, out, labs, lates, prints, en, steps, status, verdict
vars == <<cid, exps, ip, mode, depth, D, F, L, I, M, cnt, out, labs, lates, prints, en, steps, status, verdict>>

C == Cases[cid]
S == C.prog[ip]

\* ---- values of definitions and arguments
Val(k, q, s, n) == [k |-> k, q |-> q, s |-> s, n |-> n, x |-> << >>]
Num(q) == Val("v", q, << >>, "")
Str(s) == Val("s", QI(0), s, "")
LabV(n) == Val("l", QI(0), << >>, n)      \* a label, or a name not known yet
NameV(n) == Val("n", QI(0), << >>, n)     \* &name: the definition itself
LateV(x) == [k |-> "p", q |-> QI(0), s |-> << >>, n |-> "", x |-> x]   \* a calculation with names not known yet
None == Val("u", QI(0), << >>, "")
EmptyF == [x \in {} |-> None]
Put(f, n, v) == [x \in DOMAIN f \cup {n} |-> IF x = n THEN v ELSE f[x]]
Del(f, ns) == [x \in DOMAIN f \ ns |-> f[x]]

Init == /\ cid \in 1..Len(Cases)
        /\ exps = {} /\ ip = 1 /\ mode = "run" /\ depth = 0
        /\ D = EmptyF /\ F = << >> /\ L = << >> /\ I = << >>
        /\ M = EmptyF                      \* macro name -> line of its definition
        /\ cnt = [x \in {} |-> 0]          \* macro name -> calls so far
        /\ out = << >> /\ labs = [x \in {} |-> 0] /\ lates = {} /\ prints = << >>
        /\ en = [def |-> FALSE, v |-> 0, step |-> 1, exp |-> FALSE]
        /\ steps = 0 /\ status = "run" /\ verdict = ""

Frame == F[Len(F)]
InMacro == F # << >>
Args == IF InMacro THEN Frame.args ELSE << >>
Arg(i) == IF i \in 1..Len(Args) THEN Args[i] ELSE None
DefOf(n) == IF n \in DOMAIN D THEN D[n] ELSE None
\* ref: [k |-> "d", n] a definition, [k |-> "a", i] an argument, [k |-> "qa", i] the value of the definition an argument names
Ref(r) == CASE r.k = "d" -> DefOf(r.n)
            [] r.k = "a" -> Arg(r.i)
            [] r.k = "qa" -> IF Arg(r.i).k = "n" THEN DefOf(Arg(r.i).n) ELSE None

Leaf(t) ==
  CASE t.k \in {"d", "a", "qa"} -> LET v == Ref(t) IN IF v.k = "v" THEN v.q ELSE ErrV
    [] t.k = "at" -> IF InMacro THEN QI(Frame.at) ELSE ErrV
    [] t.k = "nargs" -> IF InMacro THEN QI(Len(Args)) ELSE ErrV
    [] t.k = "defd" -> QBool(t.n \in DOMAIN D)
    [] t.k = "len" -> LET v == Ref(t.r) IN IF v.k = "s" THEN QI(Len(v.s)) ELSE IF v.k = "v" THEN QI(0)
                      ELSE IF v.k = "u" /\ t.r.k = "d" THEN QI(Len(t.r.n)) ELSE ErrV   \* no definition: the length of the word
Eval(x) == EvalRPN(Leaf, x)
\* an expression with everything known now worked out: what is left are names to be known later
Const(q) == [k |-> "c", q |-> q]
Later(n) == [k |-> "nm", n |-> n]
Known(t) ==
  IF t.k \in {"d", "a", "qa"} THEN
    LET v == Ref(t) IN
    CASE v.k = "v" -> <<Const(v.q)>>
      [] v.k = "p" -> v.x
      [] v.k \in {"l", "n"} -> <<Later(v.n)>>
      [] v.k = "u" /\ t.k = "d" -> <<Later(t.n)>>
      [] v.k = "u" /\ t.k = "qa" /\ Arg(t.i).k = "n" -> <<Later(Arg(t.i).n)>>
      [] OTHER -> <<Const(ErrV)>>
  ELSE IF t.k \in {"at", "nargs", "len", "defd"} THEN <<Const(Leaf(t))>>
  ELSE <<t>>
Rest(x) == FoldLeft(LAMBDA acc, t : acc \o Known(t), << >>, x)
IsLate(x) == \E j \in 1..Len(x) : x[j].k = "nm"
IsBad(x) == \E j \in 1..Len(x) : x[j].k = "c" /\ IsErr(x[j].q)

\* ---- conditions: "T", "F" or "E" (cannot be decided: an error)
TF(b) == IF b THEN "T" ELSE "F"
OfQ(q) == IF IsErr(q) THEN "E" ELSE TF(QTrunc(q) # 0)
SideV(a) == IF a.k = "s" THEN Str(a.s) ELSE IF a.k = "x" THEN Num(Eval(a.x)) ELSE Ref(a)
SeqLess(a, b) ==   \* strings in character order
  \E j \in 1..(Len(a) + 1) : /\ j <= Len(b)
                             /\ \A m \in 1..(j - 1) : m <= Len(a) /\ a[m] = b[m]
                             /\ (j = Len(a) + 1 \/ a[j] < b[j])
Cmp(o, a, b) ==
  IF a.k = "v" /\ b.k = "v" THEN
    IF IsErr(a.q) \/ IsErr(b.q) THEN "E" ELSE OfQ(Binary(o, a.q, b.q))
  ELSE IF a.k = "s" /\ b.k = "s" THEN
    TF(CASE o = "==" -> a.s = b.s [] o = "!=" -> a.s # b.s
         [] o = "<" -> SeqLess(a.s, b.s) [] o = ">" -> SeqLess(b.s, a.s)
         [] o = "<=" -> ~SeqLess(b.s, a.s) [] o = ">=" -> ~SeqLess(a.s, b.s))
  ELSE "E"
ArgType(v) == CASE v.k = "v" -> "ARG_NUMBER" [] v.k = "s" -> "ARG_STRING" [] v.k \in {"l", "n"} -> "ARG_LABEL"
                     [] v.k = "p" -> "ARG_PENDING_CALCULATION" [] OTHER -> "?"
Cond(c) ==
  CASE c.f = "x" -> OfQ(Eval(c.x))
    [] c.f = "cmp" -> Cmp(c.o, SideV(c.a), SideV(c.b))
    [] c.f = "def" -> TF(c.n \in DOMAIN D)
    [] c.f = "ndef" -> TF(c.n \notin DOMAIN D)
    [] c.f = "defm" -> IF InMacro THEN TF(c.i \in 1..Len(Args)) ELSE "E"
    [] c.f = "ndefm" -> IF InMacro THEN TF(c.i \notin 1..Len(Args)) ELSE "E"
    [] c.f = "exists" -> TF(c.n \in {C.files[j] : j \in 1..Len(C.files)})
    [] c.f = "type" -> IF Arg(c.i).k = "u" THEN "E" ELSE TF(ArgType(Arg(c.i)) = c.ty)

\* ---- output cells
Cell(b) == [b |-> b, n |-> "", j |-> 0, w |-> 0, x |-> << >>]
Pend(n, w) == [j \in 1..w |-> [b |-> 0, n |-> n, j |-> j - 1, w |-> w, x |-> << >>]]
PendX(x, w) == [j \in 1..w |-> [b |-> 0, n |-> "", j |-> j - 1, w |-> w, x |-> x]]
Lo(w) == IF w = 1 THEN -128 ELSE -32768
Hi(w) == IF w = 1 THEN 255 ELSE 65535
NumCells(q, w) ==
  IF IsErr(q) THEN <<FALSE, << >>>>
  ELSE LET v == QTrunc(q) IN
       IF v < Lo(w) \/ v > Hi(w) THEN <<FALSE, << >>>> ELSE <<TRUE, [j \in 1..w |-> Cell(Byte(v, j - 1))]>>
StrCells(s, w) == IF w # 1 THEN <<FALSE, << >>>> ELSE <<TRUE, [j \in 1..Len(s) |-> Cell(s[j])]>>
LabName(n, at) == IF ~at THEN n ELSE IF InMacro THEN n \o ToString(Frame.at) ELSE "?"
ItemCells(t, w) ==
  CASE t.k = "x" -> LET x == Rest(t.x) IN
                    IF IsBad(x) THEN <<FALSE, << >>>> ELSE IF IsLate(x) THEN <<TRUE, PendX(x, w)>> ELSE NumCells(Eval(t.x), w)
    [] t.k = "s" -> StrCells(t.s, w)
    [] t.k = "qs" -> IF Arg(t.i).k = "s" THEN StrCells(Arg(t.i).s, w) ELSE <<FALSE, << >>>>
    [] t.k = "ats" /\ ~InMacro -> <<FALSE, << >>>>
    [] t.k = "ats" -> StrCells(t.pre \o (IF Frame.at < 10 THEN <<48 + Frame.at>>
                                        ELSE <<48 + (Frame.at \div 10), 48 + (Frame.at % 10)>>), w)
    [] t.k = "lab" -> <<TRUE, Pend(LabName(t.n, t.at), w)>>
    [] OTHER -> LET v == Ref(t) IN
         CASE v.k = "v" -> NumCells(v.q, w)
           [] v.k = "s" -> StrCells(v.s, w)
           [] v.k \in {"l", "n"} -> <<TRUE, Pend(v.n, w)>>
           [] v.k = "p" -> <<TRUE, PendX(v.x, w)>>
           [] v.k = "u" /\ t.k = "d" -> <<TRUE, Pend(t.n, w)>>
           [] OTHER -> <<FALSE, << >>>>
DataCells(items, w) ==
  FoldLeft(LAMBDA acc, t : LET c == ItemCells(t, w) IN <<acc[1] /\ c[1], acc[2] \o c[2]>>, <<TRUE, << >>>>, items)

\* ---- values given to definitions and calls
Items2Str(items) ==
  FoldLeft(LAMBDA acc, t : IF t.k = "s" THEN <<acc[1], acc[2] \o t.s>>
                           ELSE LET q == Eval(t.x) IN <<acc[1] /\ ~IsErr(q), acc[2] \o (IF IsErr(q) THEN << >> ELSE <<QTrunc(q) % 256>>)>>,
           <<TRUE, << >>>>, items)
Given(v) ==   \* None: an error
  CASE v.k = "x" -> LET x == Rest(v.x) IN
                    IF IsBad(x) THEN None
                    ELSE IF IsLate(x) THEN (IF Len(x) = 1 THEN LabV(x[1].n) ELSE LateV(x))
                    ELSE LET q == Eval(v.x) IN IF IsErr(q) THEN None ELSE Num(q)
    [] v.k = "s" -> Str(v.s)
    [] v.k = "m" -> LET r == Items2Str(v.items) IN IF r[1] THEN Str(r[2]) ELSE None
    [] v.k = "lab" -> LabV(v.n)
    [] v.k = "amp" -> NameV(v.n)
    [] v.k = "qs" -> IF Arg(v.i).k = "s" THEN Arg(v.i) ELSE None   \* the text of an argument in quotes
    [] v.k = "nothing" -> Num(QI(0))
    [] OTHER -> Ref(v)

Stay == <<cid, verdict>>
Next1 == ip' = ip + 1
Odd == status' = "odd" /\ UNCHANGED <<ip, mode, depth, D, F, L, I, M, cnt, out, labs, lates, prints, en>>
Fail == status' = "fail" /\ UNCHANGED <<ip, mode, depth, D, F, L, I, M, cnt, out, labs, lates, prints, en>>
U(vs) == UNCHANGED vs

\* the name a DEFINE/REDEFINE works on: written out, or the one an argument names
Target == IF S.n # "" THEN S.n ELSE IF Arg(S.ni).k = "n" THEN Arg(S.ni).n ELSE ""

Data ==
  /\ S.t = "data"
  /\ LET c == DataCells(S.items, S.w) IN
       IF c[1] THEN out' = out \o c[2] /\ Next1 /\ U(<<mode, depth, D, F, L, I, M, cnt, labs, lates, prints, en, status>>)
       ELSE Fail

Define ==
  /\ S.t \in {"def", "redef"}
  /\ LET v == Given(S.v) IN
       IF v.k \in {"u", "n"} \/ Target = "" \/ (S.t = "def" /\ Target \in DOMAIN D) \/ (S.t = "redef" /\ S.v.k = "nothing") THEN Fail
       ELSE LET nv == IF v.k = "l" THEN LateV(<<Later(v.n)>>) ELSE v IN
            /\ D' = Put(D, Target, nv)
            /\ lates' = IF nv.k = "p" THEN lates \cup {nv.x} ELSE lates
            /\ Next1 /\ U(<<mode, depth, F, L, I, M, cnt, out, labs, prints, en, status>>)

Undefine ==
  /\ S.t = "undef"
  /\ D' = Del(D, {S.ns[j] : j \in 1..Len(S.ns)})
  /\ Next1 /\ U(<<mode, depth, F, L, I, M, cnt, out, labs, lates, prints, en, status>>)

EnumId ==
  /\ S.t = "enumid"
  /\ IF S.n = "" THEN en' = [def |-> TRUE, v |-> S.v, step |-> S.step, exp |-> S.exp] /\ U(<<D, status>>) /\ Next1
                      /\ U(<<mode, depth, F, L, I, M, cnt, out, labs, lates, prints>>)
     ELSE IF S.n \in DOMAIN D /\ D[S.n].k = "v" THEN   \* a name that has a value is a value
       /\ en' = [def |-> TRUE, v |-> QTrunc(D[S.n].q), step |-> 1, exp |-> FALSE] /\ U(<<D, status>>) /\ Next1
       /\ U(<<mode, depth, F, L, I, M, cnt, out, labs, lates, prints>>)
     ELSE IF ~en.def \/ S.n \in DOMAIN D THEN Fail
     ELSE /\ D' = Put(D, S.n, Num(QI(en.v))) /\ en' = [en EXCEPT !.v = @ + en.step]
          /\ Next1 /\ U(<<mode, depth, F, L, I, M, cnt, out, labs, lates, prints, status>>)

Label ==
  /\ S.t = "label"
  /\ LET n == LabName(S.n, S.at) IN
       IF n \in DOMAIN labs \/ n = "?" THEN Fail
       ELSE /\ labs' = [x \in DOMAIN labs \cup {n} |-> IF x = n THEN Len(out) ELSE labs[x]]
            /\ Next1 /\ U(<<mode, depth, D, F, L, I, M, cnt, out, lates, prints, en, status>>)

PrintLine ==
  /\ S.t = "print"
  /\ LET q == Eval(S.x) IN
       IF IsErr(q) THEN Fail
       ELSE prints' = Append(prints, QTrunc(q)) /\ Next1 /\ U(<<mode, depth, D, F, L, I, M, cnt, out, labs, lates, en, status>>)

Export == S.t = "export" /\ Next1 /\ U(<<mode, depth, D, F, L, I, M, cnt, out, labs, lates, prints, en, status>>)
Stop == S.t = "fail" /\ Fail

(* --- conditionals --------------------------------------------------------- *)
If ==
  /\ S.t = "if"
  /\ LET c == Cond(S.c) IN
       IF c = "E" THEN Fail
       ELSE /\ I' = Append(I, c = "T")
            /\ IF c = "T" THEN U(<<mode, depth>>) ELSE mode' = "find" /\ depth' = 0
            /\ Next1 /\ U(<<D, F, L, M, cnt, out, labs, lates, prints, en, status>>)
\* reached while a branch of the chain is running: the chain is over
Else ==
  /\ S.t \in {"else", "elif"}
  /\ IF I = << >> THEN Fail
     ELSE mode' = "end" /\ depth' = 0 /\ Next1 /\ U(<<D, F, L, I, M, cnt, out, labs, lates, prints, en, status>>)
Endif ==
  /\ S.t = "endif"
  /\ IF I = << >> THEN Fail
     ELSE I' = SubSeq(I, 1, Len(I) - 1) /\ Next1 /\ U(<<mode, depth, D, F, L, M, cnt, out, labs, lates, prints, en, status>>)

(* --- loops ---------------------------------------------------------------- *)
\* a frame of the loop stack: start line, kind, repetitions left and done, index name, conditionals open at the start
Rept ==
  /\ S.t = "rept"
  /\ LET q == Eval(S.x) IN
       IF IsErr(q) THEN Fail ELSE
       LET n == QTrunc(q) IN
       IF n < 0 THEN Fail
       ELSE IF n = 0 THEN mode' = "loop" /\ depth' = 0 /\ Next1 /\ U(<<F, L, I, M, cnt, out, labs, lates, prints, en, status>>)
                          /\ D' = D
       ELSE /\ L' = Append(L, [at |-> ip, while |-> FALSE, left |-> n, done |-> 0, idx |-> S.idx, ifs |-> I, f |-> Len(F)])
            /\ D' = IF S.idx = "" THEN D ELSE Put(D, S.idx, Num(QI(0)))
            /\ Next1 /\ U(<<mode, depth, F, I, M, cnt, out, labs, lates, prints, en, status>>)
While ==
  /\ S.t = "while"
  /\ LET c == Cond(S.c) IN
       IF c = "E" THEN Fail
       ELSE IF c = "F" THEN mode' = "loop" /\ depth' = 0 /\ Next1 /\ U(<<D, F, L, I, M, cnt, out, labs, lates, prints, en, status>>)
       ELSE /\ L' = Append(L, [at |-> ip, while |-> TRUE, left |-> 0, done |-> 0, idx |-> "", ifs |-> I, f |-> Len(F)])
            /\ Next1 /\ U(<<mode, depth, D, F, I, M, cnt, out, labs, lates, prints, en, status>>)
Loop == L[Len(L)]
Unloop(s) == SubSeq(s, 1, Len(s) - 1)
NoIdx == IF Loop.idx = "" THEN D ELSE Del(D, {Loop.idx})
\* ENDR and CONTINUE: the next round, if there is one; CONTINUE of the last round leaves
Again ==
  /\ S.t \in {"endr", "continue"}
  /\ IF L = << >> THEN Fail
     ELSE IF Loop.f # Len(F) THEN Odd   \* a loop of another call: nothing is said about it
     ELSE IF Loop.while THEN   \* read the WHILE line again
       /\ ip' = Loop.at /\ L' = Unloop(L) /\ I' = Loop.ifs
       /\ U(<<mode, depth, D, F, M, cnt, out, labs, lates, prints, en, status>>)
     ELSE IF Loop.left > 1 THEN
       /\ ip' = Loop.at + 1 /\ I' = Loop.ifs
       /\ L' = [L EXCEPT ![Len(L)] = [@ EXCEPT !.left = @ - 1, !.done = @ + 1]]
       /\ D' = IF Loop.idx = "" THEN D ELSE Put(D, Loop.idx, Num(QI(Loop.done + 1)))
       /\ U(<<mode, depth, F, M, cnt, out, labs, lates, prints, en, status>>)
     ELSE
       /\ L' = Unloop(L) /\ D' = NoIdx /\ Next1
       /\ IF S.t = "endr" THEN U(<<mode, depth, I>>) ELSE mode' = "loop" /\ depth' = 0 /\ I' = Loop.ifs
       /\ U(<<F, M, cnt, out, labs, lates, prints, en, status>>)
Break ==
  /\ S.t = "break"
  /\ IF L = << >> THEN Fail
     ELSE IF Loop.f # Len(F) THEN Odd
     ELSE /\ L' = Unloop(L) /\ I' = Loop.ifs /\ D' = NoIdx /\ mode' = "loop" /\ depth' = 0 /\ Next1
          /\ U(<<F, M, cnt, out, labs, lates, prints, en, status>>)

(* --- macros --------------------------------------------------------------- *)
Macro ==
  /\ S.t = "macro"
  /\ IF S.n \in DOMAIN M THEN Fail
     ELSE /\ M' = [x \in DOMAIN M \cup {S.n} |-> IF x = S.n THEN ip ELSE M[x]]
          /\ cnt' = [x \in DOMAIN cnt \cup {S.n} |-> IF x = S.n THEN 0 ELSE cnt[x]]
          /\ mode' = "macro" /\ depth' = 0 /\ Next1
          /\ U(<<D, F, L, I, out, labs, lates, prints, en, status>>)
Call ==
  /\ S.t = "call"
  /\ IF S.n \notin DOMAIN M THEN Fail
     ELSE LET def == C.prog[M[S.n]]
              as == [j \in 1..Len(S.args) |-> Given(S.args[j])]
              \* a plain name that is neither a definition nor known is taken as a label
              av == [j \in 1..Len(as) |-> IF as[j].k = "u" /\ S.args[j].k = "d" THEN LabV(S.args[j].n) ELSE as[j]]
              n == Min2(Len(def.args), Len(av))
              hid == {def.args[j] : j \in 1..Len(def.args)}   \* every name of the macro is its own
              got == {def.args[j] : j \in 1..n}
          IN IF \E j \in 1..Len(av) : av[j].k = "u" THEN Fail
             ELSE /\ F' = Append(F, [ret |-> ip + 1, m |-> S.n, args |-> av, at |-> cnt[S.n], names |-> def.args,
                                     bound |-> hid,
                                     hidden |-> [x \in hid \cap DOMAIN D |-> D[x]], ifs |-> Len(I), loops |-> Len(L)])
                  /\ D' = [x \in (DOMAIN D \ hid) \cup got |->
                             IF x \in got THEN LET j == SetMin({y \in 1..n : def.args[y] = x}) IN av[j] ELSE D[x]]
                  /\ cnt' = [cnt EXCEPT ![S.n] = @ + 1]
                  /\ ip' = M[S.n] + 1
                  /\ lates' = lates \cup {av[j].x : j \in {y \in 1..Len(av) : av[y].k = "p"}}
                  /\ U(<<mode, depth, L, I, M, out, labs, prints, en, status>>)
Endm ==
  /\ S.t = "endm"
  /\ IF ~InMacro THEN Fail
     ELSE IF L # << >> /\ Loop.f = Len(F) THEN Odd
     ELSE /\ D' = [x \in (DOMAIN D \ Frame.bound) \cup DOMAIN Frame.hidden |->
                     IF x \in DOMAIN Frame.hidden THEN Frame.hidden[x] ELSE D[x]]
          /\ F' = SubSeq(F, 1, Len(F) - 1)
          /\ ip' = Frame.ret
          /\ U(<<mode, depth, L, I, M, cnt, out, labs, lates, prints, en, status>>)
Shift ==
  /\ S.t = "shift"
  /\ IF ~InMacro \/ Args = << >> THEN Fail
     ELSE LET a == Tail(Args)
              n == Min2(Len(Frame.names), Len(a))
              old == {Frame.names[j] : j \in 1..Min2(Len(Frame.names), Len(Args))}
              now == {Frame.names[j] : j \in 1..n}
          IN /\ F' = [F EXCEPT ![Len(F)] = [@ EXCEPT !.args = a]]
             /\ D' = [x \in (DOMAIN D \ old) \cup now |->
                        IF x \in now THEN LET j == SetMin({y \in 1..n : Frame.names[y] = x}) IN a[j] ELSE D[x]]
             /\ Next1 /\ U(<<mode, depth, L, I, M, cnt, out, labs, lates, prints, en, status>>)

(* --- text that is not assembled ------------------------------------------- *)
\* "find": to the next ELIF that holds, ELSE or ENDIF of this chain; "end": to its ENDIF;
\* "loop": to the ENDR of this loop; "macro": to the ENDM of this definition
Skip ==
  /\ mode # "run"
  /\ IF mode = "macro" THEN
       /\ (IF S.t = "endm" THEN mode' = "run" ELSE U(mode))
       /\ Next1 /\ U(<<depth, D, F, L, I, M, cnt, out, labs, lates, prints, en, status>>)
     ELSE IF mode = "loop" THEN
       /\ (IF S.t \in {"rept", "while"} THEN depth' = depth + 1 /\ U(mode)
           ELSE IF S.t = "endr" THEN (IF depth = 0 THEN mode' = "run" /\ U(depth) ELSE depth' = depth - 1 /\ U(mode))
           ELSE U(<<depth, mode>>))
       /\ Next1 /\ U(<<D, F, L, I, M, cnt, out, labs, lates, prints, en, status>>)
     ELSE IF S.t = "if" THEN depth' = depth + 1 /\ Next1 /\ U(<<mode, D, F, L, I, M, cnt, out, labs, lates, prints, en, status>>)
     ELSE IF S.t = "endif" THEN
       /\ (IF depth > 0 THEN depth' = depth - 1 /\ U(<<mode, I>>)
           ELSE mode' = "run" /\ I' = SubSeq(I, 1, Len(I) - 1) /\ U(depth))
       /\ Next1 /\ U(<<D, F, L, M, cnt, out, labs, lates, prints, en, status>>)
     ELSE IF mode = "find" /\ depth = 0 /\ S.t = "else" THEN
       /\ mode' = "run" /\ I' = [I EXCEPT ![Len(I)] = TRUE]
       /\ Next1 /\ U(<<depth, D, F, L, M, cnt, out, labs, lates, prints, en, status>>)
     ELSE IF mode = "find" /\ depth = 0 /\ S.t = "elif" THEN
       LET c == Cond(S.c) IN
       IF c = "E" THEN Fail
       ELSE /\ IF c = "T" THEN mode' = "run" /\ I' = [I EXCEPT ![Len(I)] = TRUE] ELSE U(<<mode, I>>)
            /\ Next1 /\ U(<<depth, D, F, L, M, cnt, out, labs, lates, prints, en, status>>)
     ELSE Next1 /\ U(<<mode, depth, D, F, L, I, M, cnt, out, labs, lates, prints, en, status>>)

Step ==
  /\ status = "run" /\ ip <= Len(C.prog) /\ steps < LIMIT
  /\ steps' = steps + 1
  /\ exps' = IF mode # "run" THEN exps
             ELSE IF S.t = "export" THEN exps \cup {S.n}
             ELSE IF S.t \in {"def", "redef"} /\ S.exp THEN exps \cup {Target}
             ELSE IF S.t = "enumid" /\ S.n # "" /\ en.exp /\ S.n \notin DOMAIN D THEN exps \cup {S.n}
             ELSE exps
  /\ IF mode # "run" THEN Skip
     ELSE \/ Data \/ Define \/ Undefine \/ EnumId \/ Label \/ PrintLine \/ Export \/ Stop \/ If \/ Else \/ Endif \/ Rept \/ While
          \/ Again \/ Break \/ Macro \/ Call \/ Endm \/ Shift
  /\ UNCHANGED Stay

\* the end of the source: every block has to be closed, but for loops: the text of the last round may just end
Eof ==
  /\ status = "run" /\ ip > Len(C.prog)
  /\ status' = IF mode # "run" \/ I # << >> \/ F # << >> THEN "fail" ELSE "end"
  /\ UNCHANGED <<cid, exps, ip, mode, depth, D, F, L, I, M, cnt, out, labs, lates, prints, en, steps, verdict>>

(* --- names used before they were known: their final values ----------------- *)
RECURSIVE Final(_, _)
Final(n, seen) ==
  IF n \in DOMAIN labs THEN QI(C.base + labs[n])
  ELSE IF n \notin DOMAIN D \/ n \in seen THEN ErrV
  ELSE IF D[n].k = "v" THEN D[n].q
  ELSE IF D[n].k = "p" THEN EvalRPN(LAMBDA t : IF t.k = "c" THEN t.q ELSE Final(t.n, seen \cup {n}), D[n].x)
  ELSE ErrV
NoneSeen == {}
FinalX(x) == EvalRPN(LAMBDA t : IF t.k = "c" THEN t.q ELSE Final(t.n, NoneSeen), x)
\* EXPORT is seen wherever it is assembled; what counts is the value at the end
Fits(q, lo, hi) == ~IsErr(q) /\ QTrunc(q) >= lo /\ QTrunc(q) <= hi
Plain(n) == n \in DOMAIN labs \/ (n \in DOMAIN D /\ D[n].k = "v")   \* otherwise a calculation
Good(c) == IF c.x # << >> THEN Fits(FinalX(c.x), Lo(c.w), Hi(c.w))
           ELSE c.n = "" \/ (IF Plain(c.n) THEN Fits(Final(c.n, NoneSeen), -32768, IF c.w = 2 THEN 65535 ELSE 255)
                              ELSE Fits(Final(c.n, NoneSeen), Lo(c.w), Hi(c.w)))
ByteOf(c) == IF c.x # << >> THEN Byte(QTrunc(FinalX(c.x)), c.j)
             ELSE IF c.n = "" THEN c.b ELSE Byte(QTrunc(Final(c.n, NoneSeen)), c.j)
Linked == \A j \in 1..Len(out) : Good(out[j])
\* calculations nothing in the ROM depends on: the linker, which knows labels only, may complain about names they miss
Loose == \E x \in lates : IsErr(FinalX(x)) \/ \E j \in 1..Len(x) : x[j].k = "nm" /\ x[j].n \notin DOMAIN labs
\* names in calculations that change after the calculation was written: which of their values counts is not said
Waits == lates \cup {out[j].x : j \in 1..Len(out)}
Unsure == \E x \in Waits : \E j \in 1..Len(x) :
            x[j].k = "nm" /\ x[j].n \notin DOMAIN labs /\ x[j].n \notin {C.once[k] : k \in 1..Len(C.once)}
\* a second object uses names of this one: labels, and definitions that were exported, with their last values
Shown(n) == IF n \in DOMAIN labs THEN Fits(QI(C.base + labs[n]), 0, 65535)
            ELSE n \in exps /\ n \in DOMAIN D /\ Fits(Final(n, NoneSeen), -32768, 65535)
Ok == status = "end" /\ Linked /\ \A j \in 1..Len(C.use) : Shown(C.use[j])
O == C.obs
Fill(s, j) == IF j <= Len(s) THEN s[j] ELSE C.fill
UseV(n) == IF n \in DOMAIN labs THEN C.base + labs[n] ELSE QTrunc(Final(n, NoneSeen))
Uses == [j \in 1..(2 * Len(C.use)) |-> Byte(UseV(C.use[(j + 1) \div 2]), (j - 1) % 2)]
Bytes == [j \in 1..Len(out) |-> ByteOf(out[j])]
BadByte == LET b == Bytes IN SelectSeq([j \in 1..Max2(Len(b), Len(O.rom)) |-> j], LAMBDA j : Fill(b, j) # Fill(O.rom, j))

Judge ==
  /\ verdict = ""
  /\ status \in {"end", "fail", "odd"} \/ steps >= LIMIT
  /\ LET bad == IF Ok /\ ~O.ok /\ ~O.crash /\ Loose THEN <<"", "loose">>
                ELSE IF (Unsure \/ status = "odd") /\ ~O.crash THEN <<"", "unsure">>
                ELSE IF Ok /\ ~O.ok THEN <<"rc", "should be accepted: " \o O.msg>>
                ELSE IF ~Ok /\ O.ok THEN <<"rc", "should be rejected, " \o (IF status = "fail" THEN "line " \o ToString(ip) ELSE "unresolved")>>
                ELSE IF O.crash THEN <<"crash", O.msg>>
                ELSE IF ~Ok THEN <<"", "rejected">>
                ELSE LET bb == BadByte IN
                     IF bb # << >> THEN <<"data", "byte " \o ToString(bb[1] - 1) \o ": model " \o ToString(Fill(Bytes, bb[1]))
                                                  \o " real " \o ToString(Fill(O.rom, bb[1]))>>
                     ELSE IF O.uses # Uses THEN <<"data", "second object: model " \o ToString(Uses) \o " real " \o ToString(O.uses)>>
                     ELSE IF O.prints # prints THEN <<"print", "model " \o ToString(prints) \o " real " \o ToString(O.prints)>>
                     ELSE <<"", "accepted">>
     IN verdict' = IF steps >= LIMIT /\ status = "run" THEN "VERDICT|" \o C.id \o "|OK|long"
                   ELSE IF bad[1] = "" THEN "VERDICT|" \o C.id \o "|OK|" \o bad[2]
                   ELSE "VERDICT|" \o C.id \o "|BAD|{" \o bad[1] \o "}|" \o bad[2]
  /\ PrintT(verdict')
  /\ UNCHANGED <<cid, exps, ip, mode, depth, D, F, L, I, M, cnt, out, labs, lates, prints, en, steps, status>>

Next == Step \/ Eof \/ Judge
Spec == Init /\ [][Next]_vars

(* --- invariants ------------------------------------------------------------ *)
\* calls nest: a frame never outlives the loops and conditionals opened before it
Nesting == C.bal => \A j \in 1..Len(F) : status = "run" /\ mode = "run" => F[j].ifs <= Len(I) /\ F[j].loops <= Len(L)
\* a running loop has rounds left, its index counts them, and the text it repeats lies before the reader
Loops == C.bal => \A j \in 1..Len(L) : /\ L[j].while \/ L[j].left >= 1
                              /\ Len(L[j].ifs) <= Len(I)
\* arguments of every call stay what the call gave (SHIFT only drops them)
Visible == \A j \in 1..Len(F) : F[j].bound \cap DOMAIN F[j].hidden = DOMAIN F[j].hidden
Taken == mode = "find" => ~I[Len(I)]
TypeOK == /\ mode \in {"run", "find", "end", "loop", "macro"} /\ depth >= 0 /\ steps <= LIMIT
=============================================================================
