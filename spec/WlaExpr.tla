------------------------------ MODULE WlaExpr ------------------------------
(* Meaning of WLA DX expressions.                                           *)
(*                                                                          *)
(* Values are exact rationals <<n, d>> (d > 0): the documentation gives     *)
(* every expression the value of ordinary arithmetic with fractions kept,   *)
(* truncated towards zero when used as an integer.                          *)
(*                                                                          *)
(* Two layers:                                                              *)
(*   - EvalInfix: tokens as written, by the documented precedence and       *)
(*     left association (a shunting-yard machine, one fold step per token)  *)
(*   - EvalRPN:   an already ordered token list                             *)
EXTENDS WlaUtil, Bitwise

RECURSIVE GCD(_, _)
GCD(a, b) == IF b = 0 THEN a ELSE GCD(b, a % b)
AbsI(x) == IF x < 0 THEN -x ELSE x
Q(n, d) == IF n = 0 THEN <<0, 1>>
           ELSE LET g == GCD(AbsI(n), AbsI(d)) IN
                IF d < 0 THEN <<-(n \div g), (-d) \div g>> ELSE <<n \div g, d \div g>>
QI(n) == <<n, 1>>
QTrunc(q) == CDiv(q[1], q[2])
QFloor(q) == q[1] \div q[2]
QCeil(q) == -((-q[1]) \div q[2])
QRound(q) ==   \* half away from zero
  LET t == QTrunc(q)  r2 == 2 * AbsI(q[1] - t * q[2])
  IN IF r2 >= q[2] THEN (IF q[1] < 0 THEN t - 1 ELSE t + 1) ELSE t
QLess(a, b) == a[1] * b[2] < b[1] * a[2]
QEq(a, b) == a = b
QBool(b) == IF b THEN QI(1) ELSE QI(0)
Pow2(n) == 2 ^ n

ErrV == <<0, 0>>          \* denominator 0 marks an evaluation error
IsErr(q) == q[2] = 0

RECURSIVE QPow(_, _)
QPow(a, n) == IF n <= 0 THEN QI(1) ELSE LET r == QPow(a, n - 1) IN Q(a[1] * r[1], a[2] * r[2])

Binary(o, a, b) ==
  IF IsErr(a) \/ IsErr(b) THEN ErrV ELSE
  CASE o = "+"  -> Q(a[1] * b[2] + b[1] * a[2], a[2] * b[2])
    [] o = "-"  -> Q(a[1] * b[2] - b[1] * a[2], a[2] * b[2])
    [] o = "*"  -> Q(a[1] * b[1], a[2] * b[2])
    [] o = "/"  -> IF b[1] = 0 THEN ErrV ELSE Q(a[1] * b[2], a[2] * b[1])
    [] o = "#"  -> IF QTrunc(b) = 0 THEN ErrV ELSE QI(CMod(QTrunc(a), QTrunc(b)))
    [] o = "^"  -> QPow(a, QCeil(b))
    [] o = "&"  -> QI(QTrunc(a) & QTrunc(b))
    [] o = "|"  -> QI(QTrunc(a) | QTrunc(b))
    [] o = "~"  -> QI(QTrunc(a) ^^ QTrunc(b))
    [] o = "<<" -> QI(QTrunc(a) * Pow2(QTrunc(b)))
    [] o = ">>" -> QI(QTrunc(a) \div Pow2(QTrunc(b)))
    [] o = "<"  -> QBool(QLess(a, b))
    [] o = ">"  -> QBool(QLess(b, a))
    [] o = "<=" -> QBool(~QLess(b, a))
    [] o = ">=" -> QBool(~QLess(a, b))
    [] o = "==" -> QBool(QEq(a, b))
    [] o = "!=" -> QBool(~QEq(a, b))
    [] o = "&&" -> QBool(a[1] # 0 /\ b[1] # 0)
    [] o = "||" -> QBool(a[1] # 0 \/ b[1] # 0)
    [] o = "min" -> IF QLess(b, a) THEN b ELSE a
    [] o = "max" -> IF QLess(a, b) THEN b ELSE a
    [] o = "pow" -> IF b[2] = 1 /\ b[1] >= 0 THEN QPow(a, b[1]) ELSE ErrV

Unary(o, a) ==
  IF IsErr(a) THEN ErrV ELSE
  CASE o = "neg"    -> <<-a[1], a[2]>>
    [] o = "lobyte" -> QI(QTrunc(a) & 255)
    [] o = "hibyte" -> QI((QTrunc(a) \div 256) & 255)
    [] o = "loword" -> QI(QTrunc(a) & 65535)
    [] o = "hiword" -> QI((QTrunc(a) \div 65536) & 65535)
    [] o = "bankbyte" -> QI((QTrunc(a) \div 65536) & 255)
    [] o = "abs"    -> <<AbsI(a[1]), a[2]>>
    [] o = "sign"   -> QI(IF a[1] < 0 THEN -1 ELSE IF a[1] > 0 THEN 1 ELSE 0)
    [] o = "round"  -> QI(QRound(a))
    [] o = "floor"  -> QI(QFloor(a))
    [] o = "ceil"   -> QI(QCeil(a))
    [] o = "lnot"   -> QBool(QTrunc(a) = 0)
    [] o = "not8"   -> QI(QTrunc(a) ^^ 255)
    [] o = "not16"  -> QI(QTrunc(a) ^^ 65535)
    [] o = "not24"  -> QI(QTrunc(a) ^^ 16777215)
    [] o = "not32"  -> QI(-1 - QTrunc(a))

Ternary(o, a, b, c) ==
  IF IsErr(a) \/ IsErr(b) \/ IsErr(c) THEN ErrV ELSE
  CASE o = "clamp" -> IF QLess(a, b) THEN b ELSE IF QLess(c, a) THEN c ELSE a

\* ---- RPN: tokens [k |-> "n", v |-> int], [k |-> "q", v |-> int, d |-> int],
\*           [k |-> "o", o |-> name, a |-> arity], or a leaf resolved by Leaf(tok)
RPNStep(Leaf(_), st, tok) ==
  IF tok.k = "n" THEN Append(st, QI(tok.v))
  ELSE IF tok.k = "q" THEN Append(st, Q(tok.v, tok.d))
  ELSE IF tok.k = "o" THEN
    LET n == Len(st) IN
    IF n < tok.a THEN <<ErrV>>
    ELSE CASE tok.a = 1 -> Append(SubSeq(st, 1, n - 1), Unary(tok.o, st[n]))
           [] tok.a = 2 -> Append(SubSeq(st, 1, n - 2), Binary(tok.o, st[n - 1], st[n]))
           [] tok.a = 3 -> Append(SubSeq(st, 1, n - 3), Ternary(tok.o, st[n - 2], st[n - 1], st[n]))
  ELSE Append(st, Leaf(tok))

EvalRPN(Leaf(_), toks) ==
  LET st == FoldLeft(LAMBDA s, t : RPNStep(Leaf, s, t), << >>, toks)
  IN IF Len(st) # 1 THEN ErrV ELSE st[1]

\* ---- documented precedences (higher binds tighter)
Prec(o) ==
  CASE o = "||" -> 10 [] o = "&&" -> 20 [] o = "|" -> 30 [] o = "~" -> 40 [] o = "&" -> 50
    [] o \in {"==", "!="} -> 60 [] o \in {"<", ">", "<=", ">="} -> 70
    [] o \in {"<<", ">>"} -> 80 [] o \in {"+", "-"} -> 90
    [] o \in {"*", "/", "#", "^"} -> 100 [] o = "neg" -> 100
    [] OTHER -> 110
=============================================================================
