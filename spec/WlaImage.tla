------------------------------ MODULE WlaImage -----------------------------
(* The ROM image: banks, blocks outside of sections, background images,     *)
(* header directives, checksums and what part of it is written to the file. *)
(*                                                                          *)
(* The image is a set of runs <<address, length, value>>; what no run       *)
(* covers is unused and holds the fill byte. One action per source element, *)
(* then one for every thing that happens to the image when it is finished.  *)
EXTENDS WlaUtil, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES cid, ip, pos, runs, hdr, labs, fileruns, size, ph, status, verdict
vars == <<cid, ip, pos, runs, hdr, labs, fileruns, size, ph, status, verdict>>

C == Cases[cid]
S == C.prog[ip]
RomSize == SumSeq(C.banks)
Start(b) == SumSeq(SubSeq(C.banks, 1, b))       \* b from 0

Say(st, v) == status' = st /\ verdict' = v
Next_ == ip' = ip + 1 /\ UNCHANGED <<cid, ph, fileruns, size, status, verdict>>
Refuse(what) == Say("refused", what) /\ UNCHANGED <<cid, ip, pos, runs, hdr, labs, fileruns, size, ph>>

\* ---- runs
At(a, bytes) == [i \in 1..Len(bytes) |-> <<a + i - 1, 1, bytes[i]>>]
Lap(r, lo, hi) == Max2(0, Min2(r[1] + r[2], hi) - Max2(r[1], lo))
Covered(rs, lo, hi) == FoldLeft(LAMBDA a, r : a + Lap(r, lo, hi), 0, rs)
Cut(rs, lo, hi) == SelectSeq(ConcatAll([i \in 1..Len(rs) |->
                     LET r == rs[i] IN IF Lap(r, lo, hi) = 0 THEN <<r>>
                     ELSE <<<<r[1], lo - r[1], r[3]>>, <<hi, r[1] + r[2] - hi, r[3]>>>>]), LAMBDA r : r[2] > 0)
Clip(rs, lo, hi, d) == [i \in 1..Len(rs) |-> <<Max2(rs[i][1], lo) + d, Lap(rs[i], lo, hi), rs[i][3]>>]
\* the byte of the image at a
ByteAt(rs, a) == LET x == SelectSeq(rs, LAMBDA r : r[1] <= a /\ a < r[1] + r[2]) IN IF Len(x) = 0 THEN C.fill ELSE x[1][3]
\* sum of the bytes of the image in [lo, hi)
Sum(rs, lo, hi) == IF hi <= lo THEN 0 ELSE C.fill * (hi - lo) + FoldLeft(LAMBDA a, r : a + Lap(r, lo, hi) * (r[3] - C.fill), 0, rs)
Evens(lo, hi) == IF hi <= lo THEN 0 ELSE (hi + 1) \div 2 - (lo + 1) \div 2
SumEven(rs, lo, hi) == C.fill * Evens(lo, hi) +
      FoldLeft(LAMBDA a, r : a + Evens(Max2(r[1], lo), Min2(r[1] + r[2], hi)) * (r[3] - C.fill), 0, rs)

\* ---- source elements
Org == /\ S.t = "org"
       /\ IF S.bank >= Len(C.banks) \/ S.slot >= Len(C.slots) THEN Refuse("no such bank or slot")
          ELSE pos' = <<S.bank, S.org, S.slot>> /\ UNCHANGED <<runs, hdr, labs>> /\ Next_
Place(rs, n) ==
  /\ IF pos[2] + n > C.banks[pos[1] + 1] THEN Refuse("writes outside of the bank")
     ELSE /\ runs' = runs \o rs
          /\ pos' = <<pos[1], pos[2] + n, pos[3]>>
          /\ UNCHANGED hdr /\ Next_
Here == Start(pos[1]) + pos[2]
RECURSIVE Lay(_, _)
Lay(a, l) == IF Len(l) = 0 THEN <<>> ELSE <<<<a, l[1][1], l[1][2]>>>> \o Lay(a + l[1][1], Tail(l))
Length(l) == FoldLeft(LAMBDA a, x : a + x[1], 0, l)
Data == S.t = "data" /\ Place(Lay(Here, S.l), Length(S.l)) /\ UNCHANGED labs
Label == /\ S.t = "label" /\ labs' = Append(labs, <<S.n, C.slots[pos[3] + 1] + pos[2], Here>>) /\ UNCHANGED <<pos, runs, hdr>> /\ Next_
\* a reference to a label, wherever it is; all labels are known when the image is written, their values are put in then
Ref == /\ S.t = "ref" /\ Place(<<<<Here, 2, -S.n>>>>, 2) /\ UNCHANGED labs
Back == /\ S.t = "back"
        /\ IF Length(S.l) > RomSize THEN Refuse("background too large")
           ELSE runs' = Lay(0, S.l) /\ UNCHANGED <<pos, hdr, labs>> /\ Next_
Unback == /\ S.t = "unback"
          /\ IF S.b < S.a \/ S.a >= RomSize THEN Refuse("no such block")
             ELSE runs' = Cut(runs, S.a, Min2(S.b + 1, RomSize)) /\ UNCHANGED <<pos, hdr, labs>> /\ Next_

\* ---- header settings, a set of <<key, values>>
Has(k) == \E e \in hdr : e[1] = k
V(k) == (CHOOSE e \in hdr : e[1] = k)[2]
V1(k) == V(k)[1]
Or(k, d) == IF Has(k) THEN V(k) ELSE d
Or1(k, d) == IF Has(k) THEN V1(k) ELSE d
Clash(a, b) == (Has(a) /\ S.k = b) \/ (Has(b) /\ S.k = a)
Limits == [cart |-> <<-128, 255>>, ramsize |-> <<-128, 255>>, country |-> <<-128, 255>>, version |-> <<-128, 255>>, licold |-> <<-128, 255>>,
           snesromsize |-> <<-128, 255>>, lic |-> <<-128, 255>>, smsversion |-> <<0, 15>>, region |-> <<3, 7>>, smsromsize |-> <<0, 15>>, sram |-> <<0, 7>>, romsize |-> <<-128, 255>>]
Lengths == [name |-> IF C.plat = "gb" THEN 16 ELSE 21, id |-> 4, systype |-> 16, copyright |-> 16, domestic |-> 48, overseas |-> 48, serial |-> 14, devices |-> 16,
            modem |-> 12, regions |-> 3]
Wrong ==
  \/ S.k \in DOMAIN Limits /\ Len(S.v) = 1 /\ (S.v[1] < Limits[S.k][1] \/ S.v[1] > Limits[S.k][2])
  \/ S.k \in DOMAIN Lengths /\ Len(S.v) > Lengths[S.k]
  \/ S.k = "licnew" /\ Len(S.v) # 2
  \/ Clash("licold", "licnew") \/ Clash("dmg", "sgb") \/ Clash("dmg", "gbc") \/ Clash("dmg", "gbconly") \/ Clash("gbc", "gbconly")
  \/ Clash("cksize", "force") \/ Clash("lorom", "hirom") \/ Clash("lorom", "exhirom") \/ Clash("hirom", "exhirom") \/ Clash("fast", "slow")
Setting == /\ S.t = "h"
        /\ IF Wrong THEN Refuse("bad header")
           ELSE hdr' = {e \in hdr : e[1] # S.k} \union {<<S.k, S.v>>} /\ UNCHANGED <<pos, runs, labs>> /\ Next_

\* ---- the headers of the platforms
Pad(s, n, c) == [i \in 1..n |-> IF i <= Len(s) THEN s[i] ELSE c]
If(b, s) == IF b THEN s ELSE <<>>
One(a, k) == If(Has(k), At(a, <<Or1(k, 0) % 256>>))
Logo == <<206, 237, 102, 102, 204, 13, 0, 11, 3, 115, 0, 131, 0, 12, 0, 13, 0, 8, 17, 31, 136, 137, 0, 14,
          220, 204, 110, 230, 221, 221, 217, 153, 187, 187, 103, 99, 110, 14, 236, 204, 221, 220, 153, 159, 187, 185, 51, 62>>
GbSize(n) == CASE n <= 2 -> 0 [] n <= 4 -> 1 [] n <= 8 -> 2 [] n <= 16 -> 3 [] n <= 32 -> 4 [] n <= 64 -> 5
               [] n <= 72 -> 82 [] n <= 80 -> 83 [] n <= 96 -> 84 [] n <= 128 -> 6 [] n <= 256 -> 7 [] OTHER -> 8
GbHead ==
  If(Has("logo"), At(260, Logo))
  \o If(Has("name"), At(308, Pad(Or("name", <<>>), IF Has("gbc") \/ Has("gbconly") THEN 15 ELSE 16, 0)))
  \o If(Has("gbc"), At(323, <<128>>)) \o If(Has("gbconly"), At(323, <<192>>))
  \o If(Has("dmg"), At(326, <<0>>)) \o If(Has("sgb"), At(326, <<3>>))
  \o If(Has("licold"), At(331, <<Or1("licold", 0) % 256>>) \o At(324, <<0, 0>>))
  \o If(Has("licnew"), At(331, <<51>>) \o At(324, Or("licnew", <<>>)))
  \o One(327, "cart") \o One(329, "ramsize") \o One(330, "country") \o One(332, "version")
  \o If(Has("romsize"), At(328, <<IF Len(Or("romsize", <<>>)) = 0 THEN GbSize(Len(C.banks)) ELSE V1("romsize") % 256>>))

SmsAt == IF Has("base") THEN V1("base") ELSE IF RomSize < 16384 THEN 8176 ELSE IF RomSize < 32768 THEN 16368 ELSE 32752
SmsNibble == IF RomSize < 16384 THEN 10 ELSE IF RomSize < 32768 THEN 11 ELSE 12
SmsSums == Has("smsheader") \/ Has("smstag") \/ Has("smssum")
SmsHead ==
  If(Has("smsheader"),
       At(SmsAt + 8, Or("reserved", <<0, 0>>)) \o At(SmsAt + 12, SubSeq(Or("product", <<0, 0, 0>>), 1, 2))
       \o At(SmsAt + 14, <<Or("product", <<0, 0, 0>>)[3] * 16 + Or1("smsversion", 0), Or1("region", 4) * 16 + Or1("smsromsize", SmsNibble)>>))
  \o If(Has("smsheader") \/ Has("smstag"), At(SmsAt, <<84, 77, 82, 32, 83, 69, 71, 65>>))
  \o If(SmsSums /\ ~Has("smsheader") /\ Covered(runs, SmsAt + 15, SmsAt + 16) = 0, At(SmsAt + 15, <<64 + SmsNibble>>))

SnesAt == IF Has("exhirom") THEN 4227072 ELSE IF Has("hirom") THEN 32768 ELSE 0   \* what is at $7Fxx in LoROM is at this + $7Fxx
Mode == IF Has("exhirom") THEN 5 ELSE IF Has("hirom") THEN 1 ELSE 0
Words(l) == ConcatAll([i \in 1..Len(l) |-> LEBytes(IF l[i] >= 0 THEN l[i] ELSE (CHOOSE e \in {labs[j] : j \in 1..Len(labs)} : e[1] = -l[i])[2], 2)])
SnesHead ==
  At(SnesAt + 32725, <<32 + Mode + (IF Has("fast") THEN 16 ELSE 0)>>)
  \o One(SnesAt + 32726, "cart") \o One(SnesAt + 32727, "snesromsize") \o One(SnesAt + 32728, "sram") \o One(SnesAt + 32729, "country")
  \o One(SnesAt + 32730, "lic") \o One(SnesAt + 32731, "version")
  \o If(Has("id"), At(SnesAt + 32690, Pad(Or("id", <<>>), 4, 0)))
  \o If(Has("name"), At(SnesAt + 32704, Pad(Or("name", <<>>), 21, 0)))
  \o If(Has("native"), At(SnesAt + 32740, Words(Or("native", <<>>))))
  \o If(Has("emu"), At(SnesAt + 32756, Words(Or("emu", <<>>))))

Text(k, n, d) == Pad(Or(k, d), n, 32)
SmdHead == If(Has("smdheader"),
  At(256, Text("systype", 16, <<83, 69, 71, 65, 32, 77, 69, 71, 65, 32, 68, 82, 73, 86, 69>>) \o Text("copyright", 16, <<>>) \o Text("domestic", 48, <<>>)
          \o Text("overseas", 48, <<>>) \o Text("serial", 14, <<>>))
  \o At(400, Text("devices", 16, <<74>>)
          \o BEBytes(Or("romrange", <<0, -1>>)[1], 4) \o BEBytes(IF Or("romrange", <<0, -1>>)[2] = -1 THEN RomSize - 1 ELSE V("romrange")[2], 4)
          \o BEBytes(Or("ramrange", <<16711680, 16777215>>)[1], 4) \o BEBytes(Or("ramrange", <<16711680, 16777215>>)[2], 4)
          \o SubSeq(Or("extra", <<82, 65, 160, 32, 0, 0>>), 1, 4) \o BEBytes(Or("extra", <<82, 65, 160, 32, 0, 0>>)[5], 4) \o BEBytes(Or("extra", <<82, 65, 160, 32, 0, 0>>)[6], 4)
          \o Text("modem", 12, <<>>) \o Pad(<<>>, 40, 32) \o Text("regions", 3, <<74, 85, 69>>) \o Pad(<<>>, 13, 32)))

\* ---- finishing the image
Resolved(r) == IF r[3] >= 0 THEN <<r>>
               ELSE LET a == (CHOOSE e \in {labs[j] : j \in 1..Len(labs)} : e[1] = -r[3])[2]
                    IN  At(r[1], IF C.big THEN BEBytes(a, 2) ELSE LEBytes(a, 2))
Phase(p) == ip > Len(C.prog) /\ ph = p /\ ph' = p + 1 /\ UNCHANGED <<cid, ip, pos, hdr, labs, fileruns, size, status, verdict>>
Resolve == Phase(1) /\ runs' = ConcatAll([i \in 1..Len(runs) |-> Resolved(runs[i])])
Heads == Phase(2) /\ runs' = runs \o (CASE C.plat = "gb" -> GbHead [] C.plat = "sms" -> SmsHead [] C.plat = "snes" -> SnesHead [] C.plat = "smd" -> SmdHead [] OTHER -> <<>>)

\* sums that are part of other sums come first
Complement == Phase(3) /\ runs' = runs \o If(C.plat = "gb" /\ (Has("gbheader") \/ Has("gbcomplement")), At(333, <<(-(Sum(runs, 308, 333) + 25)) % 256>>))
\* the first of the bytes hi/lo of a 16-bit sum
GbSum == (Sum(runs, 0, 334) + Sum(runs, 336, RomSize)) % 65536
SmsNib == ByteAt(runs, SmsAt + 15) % 16
SmsRange == IF Has("cksize") THEN V1("cksize")
            ELSE CASE SmsNib = 10 -> 8192 [] SmsNib = 11 -> 16384 [] SmsNib = 12 -> 32768 [] SmsNib = 13 -> 49152 [] SmsNib = 14 -> 65536 [] SmsNib = 15 -> 131072
                   [] SmsNib = 0 -> 262144 [] SmsNib = 1 -> 524288 [] SmsNib = 2 -> 1048576
SmsSum == (Sum(runs, 0, Min2(SmsAt, SmsRange)) + Sum(runs, SmsAt + 16, SmsRange)) % 65536
SmdSum == (256 * (SumEven(runs, 512, RomSize) % 256) + (Sum(runs, 512, RomSize) - SumEven(runs, 512, RomSize))) % 65536
Pow2 == SetMax({p \in {2 ^ i : i \in 0..23} : p <= RomSize})
SnesSumAt == SnesAt + 32732
\* without the four bytes of the sum and its inverse, which count as $FF $FF $00 $00
Sum4(lo, hi, h) == IF lo <= h /\ h < hi THEN Sum(runs, lo, h) + Sum(runs, h + 4, hi) + 510 ELSE Sum(runs, lo, hi)
SnesSum == IF Has("exhirom")
           THEN (Sum4(0, 4194304, 65500) + (4194304 \div (RomSize - 4194304)) * (Sum4(4194304, RomSize, SnesSumAt) % 65536)) % 65536
           ELSE (Sum4(0, Pow2, SnesSumAt) + (IF RomSize = Pow2 THEN 0 ELSE (Pow2 \div (RomSize - Pow2)) * (Sum(runs, Pow2, RomSize) % 65536))) % 65536
Mirror(rs) == IF ~Has("exhirom") THEN rs ELSE rs \o Clip(SelectSeq(rs, LAMBDA r : Lap(r, 4227072 + 32688, 4227072 + 32768) > 0), 4227072 + 32688, 4227072 + 32768, -4194304)
Mirrors == Phase(4) /\ runs' = Mirror(runs)
Sums == Phase(5) /\ runs' = runs \o
  (CASE C.plat = "gb" /\ (Has("gbheader") \/ Has("gbsum")) -> At(334, BEBytes(GbSum, 2))
     [] C.plat = "sms" /\ SmsSums -> At(SmsAt + 10, LEBytes(IF Has("force") THEN V1("force") ELSE SmsSum, 2))
     [] C.plat = "smd" /\ (Has("smdheader") \/ Has("smdsum")) -> At(398, BEBytes(SmdSum, 2))
     [] C.plat = "snes" /\ (Has("snesheader") \/ Has("snessum")) ->
           LET s == SnesSum IN At(SnesSumAt, LEBytes(65535 - s, 2) \o LEBytes(s, 2)) \o If(Has("exhirom"), At(65500, LEBytes(65535 - s, 2) \o LEBytes(s, 2)))
     [] OTHER -> <<>>)

\* ---- the file
Edge(x, d) == IF Len(x) = 0 THEN d ELSE IF x[1] >= 0 THEN x[1] ELSE (CHOOSE e \in {labs[j] : j \in 1..Len(labs)} : e[1] = -x[1])[3]
Lo == Edge(C.bs, SetMin({runs[i][1] : i \in 1..Len(runs)}))
Hi == Edge(C.be, SetMax({runs[i][1] + runs[i][2] - 1 : i \in 1..Len(runs)}))
Smc == IF Has("smc") THEN At(Len(C.head), LEBytes(RomSize \div 8192, 2) \o <<(IF Mode > 0 THEN 48 ELSE 0) + 4 * (3 - (Or1("sram", 0) % 4))>>)
                          \o <<<<Len(C.head) + 3, 5, 0>>, <<Len(C.head) + 11, 501, 0>>>>
       ELSE <<>>
Before == Len(C.head) + (IF Has("smc") THEN 512 ELSE 0)
Write ==
  /\ ip > Len(C.prog) /\ ph = 6 /\ ph' = 7
  /\ UNCHANGED <<cid, ip, pos, runs, hdr, labs>>
  /\ IF C.prg
     THEN IF Len(runs) = 0 /\ (Len(C.bs) = 0 \/ Len(C.be) = 0) THEN Say("open", "nothing to write") /\ UNCHANGED <<fileruns, size>>
          ELSE IF Lo > Hi \/ Hi >= RomSize THEN Say("refused", "no such part") /\ UNCHANGED <<fileruns, size>>
          ELSE /\ fileruns' = At(0, C.head) \o Clip(SelectSeq(runs, LAMBDA r : Lap(r, Lo, Hi + 1) > 0), Lo, Hi + 1, Len(C.head) - Lo) \o At(Len(C.head) + Hi + 1 - Lo, C.foot)
               /\ size' = Len(C.head) + (Hi + 1 - Lo) + Len(C.foot) /\ Say("written", "")
     ELSE /\ fileruns' = At(0, C.head) \o Smc \o Clip(runs, 0, RomSize, Before) \o At(Before + RomSize, C.foot)
          /\ size' = Before + RomSize + Len(C.foot) /\ Say("written", "")

\* ---- the observation
O == C.obs
Same(o) == FoldLeft(LAMBDA a, e : a + FoldLeft(LAMBDA b, x : b + (IF x[3] = e[3] THEN Lap(x, e[1], e[1] + e[2]) ELSE 0), 0, o), 0, fileruns)
Total(rs) == FoldLeft(LAMBDA a, r : a + r[2], 0, rs)
Open == IF Has("smc") THEN <<Len(C.head) + 8, Len(C.head) + 11>> ELSE <<0, 0>>
Others(o) == LET n == SelectSeq(o, LAMBDA r : r[3] # C.fill) IN Total(n) - Covered(n, Open[1], Open[2])
Known(o) == LET n == SelectSeq(o, LAMBDA r : r[3] # C.fill) IN FoldLeft(LAMBDA a, e : a + Covered(n, e[1], e[1] + e[2]), 0, fileruns)
Differs == {fileruns[i] : i \in {j \in 1..Len(fileruns) : \E k \in 1..Len(O.runs) : Lap(O.runs[k], fileruns[j][1], fileruns[j][1] + fileruns[j][2]) > 0 /\ O.runs[k][3] # fileruns[j][3]}}
SumCells == LET d == IF C.prg THEN Len(C.head) - Lo ELSE Before IN
            CASE C.plat = "gb" -> {333 + d, 334 + d, 335 + d} [] C.plat = "sms" -> {SmsAt + 10 + d, SmsAt + 11 + d} [] C.plat = "smd" -> {398 + d, 399 + d}
              [] C.plat = "snes" -> {SnesSumAt + i + d : i \in 0..3} [] OTHER -> {}
\* a wrong byte where the sum is belongs to the sums, one in a header to the headers
What == IF {e[1] : e \in Differs} # {} /\ {e[1] : e \in Differs} \subseteq SumCells THEN "{sum}" ELSE "{bytes}"
Judge ==
  CASE O.crash -> "BAD|{crash}|crash"
    [] status = "open" -> "OK|open"
    [] status = "refused" -> IF O.ok THEN "BAD|{accepted}|accepted: " \o verdict ELSE "OK|refused"
    [] ~O.ok -> "BAD|{rc}|refused"
    [] O.size # size -> "BAD|{size}|size " \o ToString(O.size) \o " not " \o ToString(size)
    [] Same(O.runs) # Total(fileruns) -> "BAD|" \o What \o "|differs at " \o ToString(Take(SetToSeq(Differs), 4))
    [] Others(O.runs) # Known(O.runs) -> "BAD|{bytes}|bytes that nothing put there"
    [] OTHER -> "OK|" \o ToString(Len(fileruns))

Init == /\ cid \in 1..Len(Cases) /\ ip = 1 /\ pos = <<0, 0, 0>> /\ runs = <<>> /\ hdr = {} /\ labs = <<>> /\ fileruns = <<>> /\ size = 0
        /\ ph = 1 /\ status = "run" /\ verdict = ""
Element == status = "run" /\ ip <= Len(C.prog) /\ (Org \/ Data \/ Label \/ Ref \/ Back \/ Unback \/ Setting)
Finish == status = "run" /\ (Resolve \/ Heads \/ Complement \/ Mirrors \/ Sums \/ Write)
Tell == /\ status \in {"refused", "written", "open"}
        /\ PrintT("VERDICT|" \o C.id \o "|" \o Judge)
        /\ status' = "told" /\ UNCHANGED <<cid, ip, pos, runs, hdr, labs, fileruns, size, ph, verdict>>
Spec == Init /\ [][Element \/ Finish \/ Tell]_vars

\* every byte of the image is put there once, and inside of it
Once == \A i \in 1..Len(runs) : runs[i][2] > 0 /\ runs[i][1] >= 0 /\ runs[i][1] + runs[i][2] <= RomSize
                               /\ (ph > 5 => \A j \in 1..(i - 1) : Lap(runs[j], runs[i][1], runs[i][1] + runs[i][2]) = 0)
\* the position is inside of a bank, or at its end
Inside == pos[1] < Len(C.banks) /\ pos[3] < Len(C.slots) /\ (ip > 1 /\ C.prog[ip - 1].t \in {"data", "ref"} => pos[2] <= C.banks[pos[1] + 1])
\* the sum over the finished image is the one that is written in it
Sound == status = "written" /\ C.plat = "snes" /\ (Has("snesheader") \/ Has("snessum")) /\ ~Has("exhirom") =>
            LET w == <<ByteAt(runs, SnesSumAt), ByteAt(runs, SnesSumAt + 1), ByteAt(runs, SnesSumAt + 2), ByteAt(runs, SnesSumAt + 3)>>
            IN  w[1] + w[3] = 255 /\ w[2] + w[4] = 255
                /\ (RomSize = Pow2 => Sum(runs, 0, RomSize) % 65536 = w[3] + 256 * w[4])
============================================================================
