------------------------------- MODULE WlaData ------------------------------
(* The data directives as a machine that appends cells to the output.        *)
(*                                                                          *)
(* One action per source line. A cell is one byte of the final image: known *)
(* at once, taken from a name when everything is known, or (random numbers, *)
(* sines) any of the values the directive allows. Besides the output the    *)
(* machine has the character table, the string tables, the arrays, the      *)
(* columns of .TABLE with the next column, the bits not yet written and the *)
(* file handles with their positions.                                       *)
EXTENDS WlaUtil, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES cid, ip, out, labs, D, asc, smaps, arr, fmt, col, bits, fp, status, verdict
vars == <<cid, ip, out, labs, D, asc, smaps, arr, fmt, col, bits, fp, status, verdict>>

C == Cases[cid]
S == C.prog[ip]
Big == C.big                                   \* most significant byte first
BITSMAX == 2147483647

\* ---- cells
Cell(b, n, add, calc, w, j, lo, hi) == [b |-> b, n |-> n, add |-> add, calc |-> calc, w |-> w, j |-> j, lo |-> lo, hi |-> hi, bs |-> << >>]
BitsCell(bs) == [b |-> -2, n |-> "", add |-> 0, calc |-> FALSE, w |-> 1, j |-> 0, lo |-> 0, hi |-> 0, bs |-> bs]
At(w, j) == IF Big THEN w - 1 - j ELSE j       \* which byte of the value comes j-th
Known(v, w) == [j \in 1..w |-> Cell(Byte(v, At(w, j - 1)), "", 0, FALSE, w, j - 1, 0, 0)]
NameC(n, add, calc, w) == [j \in 1..w |-> Cell(0, n, add, calc, w, At(w, j - 1), 0, 0)]
Between(lo, hi, w) == [j \in 1..w |-> Cell(-1, "", 0, FALSE, w, j - 1, lo, hi)]

Lo(w) == CASE w = 1 -> -128 [] w = 2 -> -32768 [] w = 3 -> -8388608 [] OTHER -> -BITSMAX
Hi(w) == CASE w = 1 -> 255 [] w = 2 -> 65535 [] w = 3 -> 16777215 [] OTHER -> BITSMAX
Fits(v, w) == v >= Lo(w) /\ v <= Hi(w)

Fail == status' = "fail" /\ UNCHANGED <<cid, ip, out, labs, D, asc, smaps, arr, fmt, col, bits, verdict>>
Fine == ip' = ip + 1 /\ UNCHANGED <<cid, status, verdict>>
Emit(cs) == out' = out \o cs /\ Fine
U(v) == UNCHANGED v

\* ---- one item of a directive that takes units of w bytes; << >> cells and TRUE, or FALSE when it cannot be emitted
Ok(cs) == [ok |-> TRUE, cs |-> cs]
Bad == [ok |-> FALSE, cs |-> << >>]
NumItem(v, w) == IF Fits(v, w) THEN Ok(Known(v, w)) ELSE Bad
Bytes(s) == ConcatAll([j \in 1..Len(s) |-> Known(s[j], 1)])
Item(x, w) ==
  CASE x.k = "n" -> NumItem(x.v, w)
    [] x.k = "s" -> IF w = 1 THEN Ok(Bytes(x.s)) ELSE Bad
    [] x.k = "d" -> IF x.n \in DOMAIN D THEN NumItem(D[x.n], w) ELSE Ok(NameC(x.n, 0, FALSE, w))
    [] x.k = "l" -> Ok(NameC(x.n, x.add, x.calc, w))
    [] x.k = "asc" -> IF x.v \in 0..255 THEN NumItem(asc[x.v + 1], w) ELSE Bad
AllOk(rs) == \A j \in 1..Len(rs) : rs[j].ok
Cells(rs) == ConcatAll([j \in 1..Len(rs) |-> rs[j].cs])

Rest == <<labs, D, asc, smaps, arr, fmt, col, bits>>

\* .DB .DW .DL .DD
Data ==
  /\ S.t = "data"
  /\ LET rs == [j \in 1..Len(S.items) |-> Item(S.items[j], S.w)] IN
       IF S.items # << >> /\ AllOk(rs) THEN Emit(Cells(rs)) /\ U(Rest) ELSE Fail

\* .DSB .DSW .DSL .DSD
Spread ==
  /\ S.t = "ds"
  /\ LET r == Item(S.x, S.w) IN
       IF S.n \in 1..65535 /\ S.x.k # "s" /\ r.ok THEN Emit(ConcatAll([j \in 1..S.n |-> r.cs])) /\ U(Rest) ELSE Fail

\* .TABLE, .ROW and .DATA
Table == S.t = "table" /\ IF S.fmt = << >> THEN Fail
                          ELSE fmt' = S.fmt /\ col' = 0 /\ Fine /\ U(<<out, labs, D, asc, smaps, arr, bits>>)
Column(j) == fmt[((col + j - 1) % Len(fmt)) + 1]
\* a text of at most as many characters as the column has bytes is one value: its first character most significant, zeros after the last
Word(s, w) == [j \in 1..w |-> Cell(s[w - At(w, j - 1)], "", 0, FALSE, w, j - 1, 0, 0)]
RowItem(x, w) == IF x.k = "s" THEN (IF Len(x.s) \in 1..w THEN Ok(Word(x.s \o [j \in 1..(w - Len(x.s)) |-> 0], w)) ELSE Bad) ELSE Item(x, w)
Row ==
  /\ S.t = "row"
  /\ IF fmt = << >> \/ S.items = << >> \/ (S.whole /\ (col # 0 \/ Len(S.items) # Len(fmt))) THEN Fail
     ELSE LET rs == [j \in 1..Len(S.items) |-> RowItem(S.items[j], Column(j))] IN
          IF AllOk(rs) THEN /\ Emit(Cells(rs))
                            /\ col' = (col + Len(S.items)) % Len(fmt)
                            /\ U(<<labs, D, asc, smaps, arr, fmt, bits>>)
          ELSE Fail

Hex == S.t = "hex" /\ IF S.good /\ S.s # << >> THEN Emit(Bytes(S.s)) /\ U(Rest) ELSE Fail

\* .BITS: the bits of the values one after the other, most significant bit first
\* a bit is the k-th bit of a value known now (n = "") or of a name plus add
Bit(v, k) == IF k = 31 THEN (IF v < 0 THEN 1 ELSE 0) ELSE (v \div (2 ^ k)) % 2
BitsOf(x, n) ==
  IF x.k = "n" \/ (x.k = "d" /\ x.n \in DOMAIN D)
  THEN LET v == IF x.k = "n" THEN x.v ELSE D[x.n] IN [j \in 1..n |-> [b |-> Bit(v, n - j), n |-> "", add |-> 0, k |-> 0, w |-> n]]
  ELSE [j \in 1..n |-> [b |-> 0, n |-> x.n, add |-> IF x.k = "l" THEN x.add ELSE 0, k |-> n - j, w |-> n]]
Zero == [b |-> 0, n |-> "", add |-> 0, k |-> 0, w |-> 1]
BitFits(v, n) == IF n >= 31 THEN n = 32 \/ v >= 0 ELSE v >= 0 /\ v < 2 ^ n
Pack(bs) == FoldLeft(LAMBDA a, b : 2 * a + b, 0, bs)
PackAll(bs) == [j \in 1..(Len(bs) \div 8) |-> BitsCell(SubSeq(bs, 8 * j - 7, 8 * j))]
BitItem(x, n) == CASE x.k = "n" -> BitFits(x.v, n)
                   [] x.k = "d" /\ x.n \in DOMAIN D -> BitFits(D[x.n], n)
                   [] OTHER -> x.k \in {"d", "l"}
Bits ==
  /\ S.t = "bits"
  /\ IF S.n \notin 1..32 \/ \E j \in 1..Len(S.items) : ~BitItem(S.items[j], S.n) THEN Fail
     ELSE LET bs == bits \o ConcatAll([j \in 1..Len(S.items) |-> BitsOf(S.items[j], S.n)]) IN
          /\ Emit(PackAll(bs))
          /\ bits' = SubSeq(bs, 8 * (Len(bs) \div 8) + 1, Len(bs))
          /\ U(<<labs, D, asc, smaps, arr, fmt, col>>)
EndBits ==
  /\ S.t = "endbits"
  /\ Emit(IF bits = << >> THEN << >> ELSE PackAll(bits \o [j \in 1..(8 - Len(bits)) |-> Zero]))
  /\ bits' = << >> /\ U(<<labs, D, asc, smaps, arr, fmt, col>>)

Random == S.t = "rnd" /\ IF S.n >= 1 /\ S.lo < S.hi
                         THEN (IF Fits(S.lo, S.w) /\ Fits(S.hi, S.w)
                               THEN Emit(ConcatAll([j \in 1..S.n |-> Between(S.lo, S.hi, S.w)])) /\ U(Rest)
                               ELSE status' = "open" /\ UNCHANGED <<cid, ip, verdict, out, labs, D, asc, smaps, arr, fmt, col, bits>>)
                         ELSE Fail

\* sin of 0..90 degrees, times 100000
Sine == <<0, 1745, 3490, 5234, 6976, 8716, 10453, 12187, 13917, 15643, 17365, 19081, 20791, 22495, 24192, 25882, 27564, 29237, 30902,
  32557, 34202, 35837, 37461, 39073, 40674, 42262, 43837, 45399, 46947, 48481, 50000, 51504, 52992, 54464, 55919, 57358, 58779, 60182,
  61566, 62932, 64279, 65606, 66913, 68200, 69466, 70711, 71934, 73135, 74314, 75471, 76604, 77715, 78801, 79864, 80902, 81915, 82904,
  83867, 84805, 85717, 86603, 87462, 88295, 89101, 89879, 90631, 91355, 92050, 92718, 93358, 93969, 94552, 95106, 95630, 96126, 96593,
  97030, 97437, 97815, 98163, 98481, 98769, 99027, 99255, 99452, 99619, 99756, 99863, 99939, 99985, 100000>>
Sin(a) == LET d == a % 360 IN
  CASE d <= 90 -> Sine[d + 1]
    [] d <= 180 -> Sine[181 - d]
    [] d <= 270 -> -Sine[d - 179]
    [] OTHER -> -Sine[361 - d]
\* m and n are tenths: the exact value lies within err millionths of X / 1000000, and is truncated
Wave(a) == LET X == S.m * Sin(IF S.cos THEN a + 90 ELSE a) + S.add * 100000
               e == (IF S.m < 0 THEN -S.m ELSE S.m) + 50 IN
           [lo |-> CDiv(X - e, 1000000), hi |-> CDiv(X + e, 1000000)]
Waves ==
  /\ S.t = "wave"
  /\ LET ws == [j \in 1..(S.n + 1) |-> Wave(S.a + (j - 1) * S.step)] IN
       IF S.n < 0 \/ \E j \in 1..Len(ws) : ~Fits(ws[j].lo, S.w) /\ ~Fits(ws[j].hi, S.w) THEN Fail
       ELSE IF \E j \in 1..Len(ws) : ~Fits(ws[j].lo, S.w) \/ ~Fits(ws[j].hi, S.w)
       THEN status' = "open" /\ UNCHANGED <<cid, ip, verdict, out, labs, D, asc, smaps, arr, fmt, col, bits>>
       ELSE Emit(ConcatAll([j \in 1..Len(ws) |-> Between(ws[j].lo, ws[j].hi, S.w)])) /\ U(Rest)

\* .ASCIITABLE starts from the identity; later lines win
Identity == [j \in 1..256 |-> j - 1]
MapOk(m) == ~m.odd /\ m.from \in 0..255 /\ m.to \in 0..255 /\ m.v \in 0..255 /\ m.to >= m.from /\ m.v + m.to - m.from <= 255
AscTable ==
  /\ S.t = "asctable"
  /\ IF \A j \in 1..Len(S.maps) : MapOk(S.maps[j])
     THEN /\ asc' = FoldLeft(LAMBDA t, m : [j \in 1..256 |-> IF j - 1 >= m.from /\ j - 1 <= m.to THEN m.v + (j - 1 - m.from) ELSE t[j]],
                             Identity, S.maps)
          /\ Fine /\ U(<<out, labs, D, smaps, arr, fmt, col, bits>>)
     ELSE Fail
AscItem(x, strings) ==
  CASE x.k = "s" -> Ok(Bytes([j \in 1..Len(x.s) |-> asc[x.s[j] + 1]]))
    [] x.k = "n" -> IF strings THEN NumItem(x.v, 1) ELSE IF x.v \in 0..255 THEN NumItem(asc[x.v + 1], 1) ELSE Bad
    [] OTHER -> Bad
Asc ==
  /\ S.t = "asc"
  /\ LET rs == [j \in 1..Len(S.items) |-> AscItem(S.items[j], S.str)] IN
       IF AllOk(rs) THEN Emit(Cells(rs)) /\ U(Rest) ELSE Fail

\* .STRINGMAPTABLE: a name stands for a list of <<text, bytes>>; of equal texts the last one counts
NewMap == /\ S.t = "smt" /\ Fine
          /\ smaps' = [x \in DOMAIN smaps \cup {S.n} |-> IF x = S.n THEN S.map ELSE smaps[x]]
          /\ U(<<out, labs, D, asc, arr, fmt, col, bits>>)
IsAt(s, p, t) == p + Len(t) - 1 <= Len(s) /\ \A j \in 1..Len(t) : s[p + j - 1] = t[j]
Best(m, s, p) ==
  LET cand == {j \in 1..Len(m) : IsAt(s, p, m[j].text)} IN
  IF cand = {} THEN 0
  ELSE LET l == SetMax({Len(m[j].text) : j \in cand}) IN SetMax({j \in cand : Len(m[j].text) = l})
RECURSIVE Translate(_, _, _)
Translate(m, s, p) ==
  IF p > Len(s) THEN Ok(<< >>)
  ELSE LET b == Best(m, s, p) IN
       IF b = 0 THEN Bad
       ELSE LET r == Translate(m, s, p + Len(m[b].text)) IN
            IF r.ok THEN Ok(Bytes(m[b].bytes) \o r.cs) ELSE Bad
UseMap ==
  /\ S.t = "smap"
  /\ IF S.n \notin DOMAIN smaps THEN Fail
     ELSE LET r == Translate(smaps[S.n], S.s, 1) IN IF r.ok THEN Emit(r.cs) /\ U(Rest) ELSE Fail

\* arrays have at least 256 elements, grow when written, and hold 0 where nothing was written
ArrayDef == S.t = "arrdef" /\ IF S.n \in DOMAIN arr THEN Fail
                              ELSE /\ arr' = [x \in DOMAIN arr \cup {S.n} |-> IF x = S.n THEN [size |-> Max2(256, S.size), v |-> << >>] ELSE arr[x]]
                                   /\ Fine /\ U(<<out, labs, D, asc, smaps, fmt, col, bits>>)
ArrayIn ==
  /\ S.t = "arrin"
  /\ IF S.n \notin DOMAIN arr \/ S.i < 0 THEN Fail
     ELSE LET a == arr[S.n]
              w == S.i + Len(S.vs) IN
          /\ arr' = [arr EXCEPT ![S.n] = [size |-> Max2(a.size, w), v |-> [j \in 1..Max2(Len(a.v), w) |->
                       IF j > S.i /\ j <= w THEN S.vs[j - S.i] ELSE IF j <= Len(a.v) THEN a.v[j] ELSE 0]]]
          /\ Fine /\ U(<<out, labs, D, asc, smaps, fmt, col, bits>>)
Elem(a, i) == IF i + 1 <= Len(a.v) THEN a.v[i + 1] ELSE 0
InArr(a, i) == i >= 0 /\ i < a.size
ArrayOut ==
  /\ S.t = "arrout"
  /\ IF S.n \notin DOMAIN arr THEN Fail
     ELSE IF ~InArr(arr[S.n], S.i) THEN Fail
     ELSE /\ D' = [x \in DOMAIN D \cup {S.d} |-> IF x = S.d THEN Elem(arr[S.n], S.i) ELSE D[x]]
          /\ Fine /\ U(<<out, labs, asc, smaps, arr, fmt, col, bits>>)
ArrayData ==
  /\ S.t = "arrdata"
  /\ IF S.n \notin DOMAIN arr THEN Fail
     ELSE LET a == arr[S.n]
              ix == ConcatAll([j \in 1..Len(S.items) |-> IF S.items[j].k = "s" THEN S.items[j].s ELSE <<S.items[j].v>>]) IN
          IF \A j \in 1..Len(ix) : InArr(a, ix[j]) /\ Fits(Elem(a, ix[j]), S.w)
          THEN Emit(ConcatAll([j \in 1..Len(ix) |-> Known(Elem(a, ix[j]), S.w)])) /\ U(Rest)
          ELSE Fail

\* .DBM .DWM .DLM .DDM: every value through a macro that leaves its result in _out: (\1 * a + \2 * b + c) & mask
Filter ==
  /\ S.t = "dxm"
  /\ LET ix == ConcatAll([j \in 1..Len(S.items) |-> IF S.items[j].k = "s" THEN S.items[j].s ELSE <<S.items[j].v>>])
         r == [j \in 1..Len(ix) |-> LET v == ix[j] * S.a + (j - 1) * S.b + S.c IN IF S.mod = 0 THEN v ELSE v % S.mod] IN
       IF ix # << >> /\ \A j \in 1..Len(r) : Fits(r[j], S.w) THEN Emit(ConcatAll([j \in 1..Len(r) |-> Known(r[j], S.w)])) /\ U(Rest)
       ELSE Fail

\* --- files: C.files gives the bytes of every file there is
FileOk(f) == f \in DOMAIN C.files
SetD(n, v) == D' = [x \in DOMAIN D \cup {n} |-> IF x = n THEN v ELSE D[x]]
Set1(D0, n, v) == IF n = "" THEN D0 ELSE [x \in DOMAIN D0 \cup {n} |-> IF x = n THEN v ELSE D0[x]]
\* .INCBIN: bytes skip+1 .. skip+count of the file, in pairs (or units of the filter) the other way round with SWAP
Count(n) == IF S.read > 0 THEN S.read ELSE n - S.skip + S.read
Unit == IF S.filt # "" /\ S.fsz > 1 THEN S.fsz ELSE 2
Rev(s) == [j \in 1..Len(s) |-> s[Len(s) + 1 - j]]
Units0(s, u) == [j \in 1..(Len(s) \div u) |-> SubSeq(s, (j - 1) * u + 1, j * u)]
Included == LET s == SubSeq(C.files[S.file], S.skip + 1, S.skip + Count(Len(C.files[S.file])))
                us == Units0(s, Unit) IN
            IF S.swap THEN ConcatAll([j \in 1..Len(us) |-> Rev(us[j])]) ELSE s
\* what the filter macro gets (least significant byte first) and what it makes of it
Little(s) == FoldLeft(LAMBDA a, k : a * 256 + s[Len(s) + 1 - k], 0, [k \in 1..Len(s) |-> k])
Through(v, j) == LET x == v * S.a + j * S.b + S.c IN IF S.mod = 0 THEN x ELSE x % S.mod
Incbin ==
  /\ S.t = "incbin" /\ UNCHANGED fp
  /\ IF ~FileOk(S.file) THEN Fail
     ELSE LET n == Len(C.files[S.file])
              c == Count(n) IN
          IF n = 0 THEN status' = "open" /\ UNCHANGED <<cid, ip, verdict, out, labs, D, asc, smaps, arr, fmt, col, bits>>
          ELSE IF S.skip < 0 \/ S.skip >= n \/ c < 0 \/ S.skip + c > n THEN Fail
          ELSE IF (S.swap /\ c % Unit # 0) \/ (S.filt # "" /\ c % S.fsz # 0) THEN Fail
          ELSE IF (({S.fsize, S.fread} \ {""}) \cap DOMAIN D) # {} \/ (S.fsize # "" /\ S.fsize = S.fread) THEN Fail
          ELSE LET r == IF S.filt = "" THEN << >> ELSE LET us == Units0(Included, S.fsz) IN [j \in 1..Len(us) |-> Through(Little(us[j]), j - 1)] IN
               IF \E j \in 1..Len(r) : ~Fits(r[j], S.fsz) THEN Fail
               ELSE /\ Emit(IF S.filt = "" THEN Bytes(Included) ELSE ConcatAll([j \in 1..Len(r) |-> Known(r[j], S.fsz)]))
                    /\ D' = Set1(Set1(D, S.fsize, n), S.fread, c)
                    /\ UNCHANGED <<labs, asc, smaps, arr, fmt, col, bits>>
\* handles: a position in a file; reading advances it and is an error at the end
Most == <<out, labs, asc, smaps, arr, fmt, col, bits>>
Open == S.t = "fopen" /\ IF ~FileOk(S.file) THEN Fail /\ UNCHANGED fp
                         ELSE fp' = [x \in DOMAIN fp \cup {S.h} |-> IF x = S.h THEN [f |-> S.file, pos |-> 0] ELSE fp[x]] /\ Fine /\ UNCHANGED <<Most, D>>
Size(h) == Len(C.files[fp[h].f])
OnFile ==
  /\ S.t \in {"fread", "fseek", "fsize", "ftell", "fclose"}
  /\ IF S.h \notin DOMAIN fp THEN Fail /\ UNCHANGED fp
     ELSE LET p == fp[S.h].pos
              q == CASE S.mode = "START" -> S.off [] S.mode = "END" -> Size(S.h) + S.off [] OTHER -> p + S.off
          IN
          \/ /\ S.t = "fread"
             /\ IF p >= Size(S.h) THEN Fail /\ UNCHANGED fp
                ELSE fp' = [fp EXCEPT ![S.h].pos = p + 1] /\ SetD(S.d, C.files[fp[S.h].f][p + 1]) /\ Fine /\ UNCHANGED Most
          \/ /\ S.t = "fseek"
             /\ IF q < 0 THEN Fail /\ UNCHANGED fp ELSE fp' = [fp EXCEPT ![S.h].pos = q] /\ Fine /\ UNCHANGED <<Most, D>>
          \/ /\ S.t = "fsize"
             /\ IF S.d \in DOMAIN D THEN Fail /\ UNCHANGED fp ELSE SetD(S.d, Size(S.h)) /\ Fine /\ UNCHANGED <<Most, fp>>
          \/ S.t = "ftell" /\ SetD(S.d, p) /\ Fine /\ UNCHANGED <<Most, fp>>
          \/ S.t = "fclose" /\ fp' = [x \in DOMAIN fp \ {S.h} |-> fp[x]] /\ Fine /\ UNCHANGED <<Most, D>>

Label == S.t = "label" /\ Fine /\ labs' = [x \in DOMAIN labs \cup {S.n} |-> IF x = S.n THEN C.base + Len(out) ELSE labs[x]]
         /\ U(<<out, D, asc, smaps, arr, fmt, col, bits>>)
Define == S.t = "def" /\ Fine /\ D' = [x \in DOMAIN D \cup {S.n} |-> IF x = S.n THEN S.v ELSE D[x]]
          /\ U(<<out, labs, asc, smaps, arr, fmt, col, bits>>)

Init == /\ cid \in 1..Len(Cases) /\ ip = 1 /\ out = << >> /\ labs = [x \in {} |-> 0] /\ D = [x \in {} |-> 0]
        /\ asc = Identity /\ smaps = [x \in {} |-> << >>] /\ arr = [x \in {} |-> << >>] /\ fmt = << >> /\ col = 0 /\ bits = << >>
        /\ fp = [x \in {} |-> 0] /\ status = "run" /\ verdict = ""

Plain0 == \/ Data \/ Spread \/ Table \/ Row \/ Hex \/ Bits \/ EndBits \/ Random \/ Waves \/ AscTable \/ Asc \/ NewMap \/ UseMap
          \/ ArrayDef \/ ArrayIn \/ ArrayOut \/ ArrayData \/ Filter \/ Label \/ Define
Line == /\ status = "run" /\ ip <= Len(C.prog)
        /\ \/ Incbin \/ Open \/ OnFile
           \/ UNCHANGED fp /\ Plain0
Eof == /\ status = "run" /\ ip > Len(C.prog) /\ status' = "end"
       /\ UNCHANGED <<cid, ip, out, labs, D, asc, smaps, arr, fmt, col, bits, fp, verdict>>

(* --- what the tools did --------------------------------------------------- *)
O == C.obs
Known2(n) == n = "" \/ n \in DOMAIN labs \cup DOMAIN D
ValueOf(c) == IF c.n \in DOMAIN labs THEN labs[c.n] + c.add ELSE D[c.n] + c.add
CellOk(c) == IF c.bs # << >> THEN \A k \in 1..8 : c.bs[k].n = "" \/ (Known2(c.bs[k].n) /\ BitFits(ValueOf(c.bs[k]), c.bs[k].w))
             ELSE c.n = "" \/ (/\ c.n \in DOMAIN labs \cup DOMAIN D
                          /\ IF c.calc \/ c.n \notin DOMAIN labs THEN Fits(ValueOf(c), c.w) ELSE ValueOf(c) <= Hi(c.w))
Linked == \A j \in 1..Len(out) : CellOk(out[j])
Good == status = "end" /\ Linked /\ Len(out) <= C.room
RomAt(j) == IF j <= Len(O.rom) THEN O.rom[j] ELSE C.fill
\* the w-byte value that starts at j, as two's complement and as a plain number
Plain(j, w) == FoldLeft(LAMBDA a, k : a * 256 + RomAt(j + (IF Big THEN k ELSE w - 1 - k)), 0, [k \in 1..w |-> k - 1])
Signed(j, w) == LET p == Plain(j, w) IN IF p >= (IF w = 1 THEN 128 ELSE 32768) THEN p - (IF w = 1 THEN 256 ELSE 65536) ELSE p
TheBit(x) == IF x.n = "" THEN x.b ELSE Bit(ValueOf(x), x.k)
Hit(j) == LET c == out[j] IN
          IF c.bs # << >> THEN RomAt(j) = Pack([k \in 1..8 |-> TheBit(c.bs[k])]) ELSE
          IF c.b = -1 THEN c.j # 0 \/ \E v \in {Plain(j, c.w), Signed(j, c.w)} : c.lo <= v /\ v <= c.hi
          ELSE IF c.n # "" THEN RomAt(j) = Byte(ValueOf(c), c.j) ELSE RomAt(j) = c.b
Judge ==
  /\ verdict = "" /\ status \in {"end", "fail", "open"}
  /\ LET bad == {j \in 1..Len(out) : ~Hit(j)}
         v == IF O.crash THEN <<"crash", O.msg>>
              ELSE IF status = "open" THEN <<"", "open">>
              ELSE IF Good /\ ~O.ok THEN <<"rc", "should be accepted: " \o O.msg>>
              ELSE IF ~Good /\ O.ok THEN <<"rc", "should be rejected" \o (IF status = "fail" THEN ", line " \o ToString(ip) ELSE ", unresolved")>>
              ELSE IF ~Good THEN <<"", IF status = "fail" THEN "rejected, " \o S.t ELSE "rejected, unresolved">>
              ELSE IF bad # {} THEN LET j == SetMin(bad) IN <<"data", "byte " \o ToString(j - 1) \o ": model " \o ToString(out[j]) \o " real " \o ToString(RomAt(j))>>
              ELSE IF Len(O.rom) > Len(out) THEN <<"data", "bytes after the end: " \o ToString(Len(O.rom) - Len(out))>>
              ELSE <<"", "accepted">>
     IN verdict' = IF v[1] = "" THEN "VERDICT|" \o C.id \o "|OK|" \o v[2]
                   ELSE "VERDICT|" \o C.id \o "|BAD|{" \o v[1] \o "}|" \o v[2]
  /\ PrintT(verdict')
  /\ UNCHANGED <<cid, ip, out, labs, D, asc, smaps, arr, fmt, col, bits, fp, status>>

Next == Line \/ Eof \/ Judge
Spec == Init /\ [][Next]_vars

(* --- invariants ------------------------------------------------------------ *)
\* whatever was emitted for a column of .TABLE, the next column is one of the table
Columns == fmt = << >> \/ col \in 0..(Len(fmt) - 1)
\* fewer than eight bits wait
Waiting == Len(bits) <= 7 /\ \A j \in 1..Len(bits) : bits[j].b \in {0, 1}
\* every cell is a byte of a unit, and every unit is complete
Units == \A j \in 1..Len(out) : out[j].j \in 0..(out[j].w - 1) /\ (out[j].n # "" \/ out[j].b \in -2..255)
\* a label lies where it was reached
Marks == \A n \in DOMAIN labs : labs[n] >= C.base /\ labs[n] <= C.base + Len(out)
\* a handle is open on a file that is there, not before its start
Handles == \A h \in DOMAIN fp : FileOk(fp[h].f) /\ fp[h].pos >= 0
Codes == \A j \in 1..256 : asc[j] \in 0..255
=============================================================================
