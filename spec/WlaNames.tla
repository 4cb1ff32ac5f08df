------------------------------ MODULE WlaNames -----------------------------
(* Labels and the names that reach them.                                    *)
(*                                                                          *)
(* The machine reads the items of all objects in order: it keeps the open   *)
(* section, the stack of included files (with namespaces), and a stack of   *)
(* label contexts, each with the current parent of every level. When all is *)
(* read, every reference is resolved by one action to the one label its     *)
(* name may denote at its place, and compared with the ROM.                 *)
EXTENDS WlaUtil, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
BANK == 1024

VARIABLES cid, ip, file, sec, pos, inc, ctx, nctx, secs, labs, refs, k, status, verdict
vars == <<cid, ip, file, sec, pos, inc, ctx, nctx, secs, labs, refs, k, status, verdict>>

C == Cases[cid]
S == C.prog[ip]

\* sec: 0 outside sections, otherwise index of secs; pos: offset in the section, otherwise address in the ROM.
\* inc: stack of [ns, src]; ctx: stack of [id, un, lo, child, par]; par: sequence of [lvl, key], levels rising
Top(s) == s[Len(s)]
Pop(s) == SubSeq(s, 1, Len(s) - 1)
FreshCtx == [id |-> 0, un |-> FALSE, lo |-> FALSE, child |-> -1, lvl |-> 0, par |-> << >>]
Root == [ns |-> "", src |-> 0]

NsOf(s) == IF s = 0 THEN "" ELSE secs[s].ns
Key(q, p, c, loc) == [q |-> q, p |-> p, c |-> c, loc |-> loc]

\* the parents that may own a name with n at-signs
Over(n) == SelectSeq(Top(ctx).par, LAMBDA e : e.lvl < n)
Under(n, p) == LET o == Top(Over(n)) IN Key(o.key.q, o.key.p \o RepeatV("", n - 1 - o.lvl) \o p, o.key.c, o.key.loc)

Size == CASE S.t = "pad" -> S.n
          [] S.t = "ref" -> CASE S.form \in {"dw", "calc"} -> 2 [] S.form = "jp" -> 3 [] S.form = "rel" -> 2 [] OTHER -> 1
          [] OTHER -> 0

Fail == status' = "fail" /\ UNCHANGED <<cid, ip, file, sec, pos, inc, ctx, nctx, secs, labs, refs, k, verdict>>
Next1 == ip' = ip + 1 /\ UNCHANGED <<cid, k, status, verdict>>

File == S.t = "file" /\ file' = file + 1 /\ sec' = 0 /\ pos' = 0 /\ inc' = <<[ns |-> "", src |-> ip]>> /\ ctx' = <<FreshCtx>>
        /\ UNCHANGED <<nctx, secs, labs, refs>> /\ Next1
Org == S.t = "org" /\ pos' = S.a /\ UNCHANGED <<file, sec, inc, ctx, nctx, secs, labs, refs>> /\ Next1
Sec == S.t = "sec" /\ secs' = Append(secs, [ns |-> S.ns, base |-> pos, to |-> 0, size |-> 0]) /\ sec' = Len(secs) + 1 /\ pos' = 0
       /\ UNCHANGED <<file, inc, ctx, nctx, labs, refs>> /\ Next1
App == S.t = "app" /\ secs' = Append(secs, [ns |-> S.ns, base |-> -1, to |-> S.to, size |-> 0]) /\ sec' = Len(secs) + 1 /\ pos' = 0
       /\ UNCHANGED <<file, inc, ctx, nctx, labs, refs>> /\ Next1
Ends == S.t = "ends" /\ secs' = [secs EXCEPT ![sec].size = pos] /\ sec' = 0 /\ pos' = secs[sec].base + pos
        /\ UNCHANGED <<file, inc, ctx, nctx, labs, refs>> /\ Next1
Inc == S.t = "inc" /\ inc' = Append(inc, [ns |-> S.ns, src |-> ip]) /\ UNCHANGED <<file, sec, pos, ctx, nctx, secs, labs, refs>> /\ Next1
EndInc == S.t = "endinc" /\ inc' = Pop(inc) /\ UNCHANGED <<file, sec, pos, ctx, nctx, secs, labs, refs>> /\ Next1

\* a macro with a label context of its own, or one that makes its labels children of the label before the call
Into ==
  /\ S.t = "in"
  /\ IF S.child
     THEN /\ ctx' = [ctx EXCEPT ![Len(ctx)].child = IF Top(ctx).par = << >> THEN 0 ELSE Top(ctx).lvl + 1]
          /\ nctx' = nctx
     ELSE /\ ctx' = Append(ctx, [id |-> nctx + 1, un |-> S.un, lo |-> S.lo, child |-> -1, lvl |-> 0, par |-> << >>])
          /\ nctx' = nctx + 1
  /\ UNCHANGED <<file, sec, pos, inc, secs, labs, refs>> /\ Next1
Out ==
  /\ S.t = "out"
  /\ ctx' = IF S.child THEN [ctx EXCEPT ![Len(ctx)].child = -1, ![Len(ctx)].lvl = Top(ctx).child - 1] ELSE Pop(ctx)
  /\ UNCHANGED <<file, sec, pos, inc, nctx, secs, labs, refs>> /\ Next1

Deep(at, q) == IF Top(ctx).child >= 0 /\ q THEN at + Top(ctx).child ELSE at
LabelKey(at) ==
  IF at > 0 /\ Over(at) # << >> THEN Under(at, <<S.id>>)
  ELSE Key(IF S.loc \/ NsOf(sec) # "" THEN "" ELSE Top(inc).ns, <<S.id>>, IF S.loc /\ Top(ctx).lo THEN Top(ctx).id ELSE 0, S.loc)
Lab(key, anon) == [key |-> key, anon |-> anon, actx |-> IF Top(ctx).un THEN Top(ctx).id ELSE 0, sec |-> sec, off |-> pos,
                   file |-> file, src |-> Top(inc).src]
Label ==
  /\ S.t = "lab"
  /\ LET at == Deep(S.at, TRUE) key == LabelKey(at) IN
       /\ labs' = Append(labs, Lab(key, ""))
       /\ ctx' = [ctx EXCEPT ![Len(ctx)].lvl = at, ![Len(ctx)].par = Append(Over(at), [lvl |-> at, key |-> key])]
  /\ UNCHANGED <<file, sec, pos, inc, nctx, secs, refs>> /\ Next1
Anon ==
  /\ S.t = "anon"
  /\ labs' = Append(labs, Lab(Key("", << >>, 0, FALSE), S.n))
  /\ UNCHANGED <<file, sec, pos, inc, ctx, nctx, secs, refs>> /\ Next1
Pad == S.t = "pad" /\ pos' = pos + Size /\ UNCHANGED <<file, sec, inc, ctx, nctx, secs, labs, refs>> /\ Next1

\* what a reference asks for: an anonymous label, the latest parent label (last), or a name (none: a child name without parent)
RefKey ==
  LET at == Deep(S.at, S.q)
  IN IF at > 0 THEN (IF Over(at) = << >> THEN Key("", << >>, 0, FALSE) ELSE Under(at, S.p))
     ELSE Key(S.ns, S.p, IF S.loc /\ Top(ctx).lo THEN Top(ctx).id ELSE 0, S.loc)
Ref ==
  /\ S.t = "ref"
  /\ refs' = Append(refs, [key |-> IF S.last THEN Top(SelectSeq(Top(ctx).par, LAMBDA e : e.lvl = 0)).key ELSE IF S.anon = "" THEN RefKey ELSE Key("", << >>, 0, FALSE),
                           anon |-> S.anon, actx |-> IF Top(ctx).un THEN Top(ctx).id ELSE 0, sec |-> sec,
                           off |-> pos + (IF S.form \in {"jp", "rel"} THEN 1 ELSE 0),
                           file |-> file, src |-> Top(inc).src, inc |-> Top(inc).ns, form |-> S.form, add |-> S.add])
  /\ pos' = pos + Size
  /\ UNCHANGED <<file, sec, inc, ctx, nctx, secs, labs>> /\ Next1

\* ---- where things are
Base(s) == IF s = 0 THEN 0 ELSE IF secs[s].base >= 0 THEN secs[s].base ELSE secs[secs[s].to].base + secs[secs[s].to].size
Where(x) == Base(x.sec) + x.off

\* ---- names
Scope(l) == IF l.key.loc THEN (IF l.sec = 0 THEN <<"file", l.file>> ELSE <<"section", l.sec>>)
            ELSE IF NsOf(l.sec) # "" THEN <<"namespace", NsOf(l.sec)>> ELSE <<"all", 0>>
Named == {i \in 1..Len(labs) : labs[i].anon = ""}
Clash == \E i, j \in Named : i < j /\ labs[i].key = labs[j].key /\ Scope(labs[i]) = Scope(labs[j])

Of(key, sc) == {i \in Named : labs[i].key = key /\ Scope(labs[i]) = sc}
Plain(key) == [key EXCEPT !.q = ""]
\* inside an included file with a namespace a plain name means the file's own label, if it has one
Own(r) ==
  LET key == [r.key EXCEPT !.q = r.inc]
  IN IF r.inc # "" /\ NsOf(r.sec) = "" /\ r.key.q = "" /\ ~r.key.loc /\ (\E i \in Of(key, <<"all", 0>>) : labs[i].src = r.src /\ labs[i].file = r.file)
     THEN key ELSE r.key
Found(r) ==
  LET key == Own(r)
      tries == << IF key.q = "" THEN {} ELSE Of(Plain(key), <<"namespace", key.q>>),
                  IF NsOf(r.sec) = "" THEN {} ELSE Of(key, <<"namespace", NsOf(r.sec)>>),
                  IF r.sec = 0 THEN {} ELSE Of(key, <<"section", r.sec>>),
                  Of(key, <<"file", r.file>>),
                  Of(key, <<"all", 0>>) >>
      good == SelectSeq(tries, LAMBDA t : t # {})
  IN IF good = << >> THEN {} ELSE good[1]

\* ---- anonymous labels
SignOf(a) == IF a \in {"_f", "_b"} THEN "__" ELSE a
Forward(a) == a \in {"_f", "+", "++", "+++"}
Nearest(r) ==
  LET same == {i \in 1..Len(labs) : /\ labs[i].anon = SignOf(r.anon) /\ labs[i].file = r.file /\ labs[i].sec = r.sec /\ labs[i].actx = r.actx
                                     /\ IF Forward(r.anon) THEN Where(labs[i]) > Where(r) ELSE Where(labs[i]) <= Where(r)}
  IN IF same = {} THEN {}
     ELSE {CHOOSE i \in same : \A j \in same : IF Forward(r.anon) THEN Where(labs[i]) <= Where(labs[j]) ELSE Where(labs[i]) >= Where(labs[j])}

\* ---- values
Target(r) == IF r.anon # "" THEN Nearest(r) ELSE Found(r)
Value(r, l) ==
  CASE r.form = "bank" -> Where(l) \div BANK
    [] r.form = "rel" -> (Where(l) % BANK) - (Where(r) % BANK) - 1
    [] OTHER -> (Where(l) % BANK) + r.add
Width(r) == IF r.form \in {"bank", "rel"} THEN 1 ELSE 2
Fits(r, v) == r.form # "rel" \/ (v >= -128 /\ v <= 127)

Read ==
  /\ status = "read"
  /\ IF ip <= Len(C.prog)
     THEN File \/ Org \/ Sec \/ App \/ Ends \/ Inc \/ EndInc \/ Into \/ Out \/ Label \/ Anon \/ Pad \/ Ref
     ELSE IF Clash THEN Fail
     ELSE status' = "resolve" /\ k' = 1 /\ UNCHANGED <<cid, ip, file, sec, pos, inc, ctx, nctx, secs, labs, refs, verdict>>

Say(cl, det) ==
  /\ verdict' = IF cl = {} THEN "OK" ELSE "BAD"
  /\ status' = "done"
  /\ PrintT("VERDICT|" \o C.id \o "|" \o verdict' \o "|" \o ToString(cl) \o "|" \o det)
  /\ UNCHANGED <<cid, ip, file, sec, pos, inc, ctx, nctx, secs, labs, refs, k>>

Resolve ==
  /\ status = "resolve"
  /\ IF k > Len(refs) THEN (IF C.obs.crash THEN Say({"crash"}, C.obs.msg) ELSE IF C.obs.ok THEN Say({}, "") ELSE Say({"rc"}, "refused: " \o C.obs.msg))
     ELSE LET r == refs[k] t == Target(r) IN
       IF t = {} THEN Fail
       ELSE LET l == labs[CHOOSE i \in t : TRUE] v == Value(r, l) IN
         IF ~Fits(r, v) THEN Fail
         ELSE IF C.obs.ok /\ ~C.obs.crash /\ [j \in 1..Width(r) |-> C.obs.rom[Where(r) + j]] # LEBytes(v, Width(r))
              THEN Say({"ref"}, "reference " \o ToString(k) \o " to " \o (IF r.anon = "" THEN ToString(r.key) ELSE r.anon) \o " should be " \o ToString(v))
              ELSE k' = k + 1 /\ UNCHANGED <<cid, ip, file, sec, pos, inc, ctx, nctx, secs, labs, refs, status, verdict>>

Refused ==
  /\ status = "fail"
  /\ IF C.obs.crash THEN Say({"crash"}, C.obs.msg)
     ELSE IF C.obs.ok
     THEN Say({"accepted"}, IF ip <= Len(C.prog) THEN "item " \o ToString(ip)
              ELSE IF k > 0 /\ k <= Len(refs) THEN "reference " \o ToString(k) \o " " \o ToString(refs[k].key) \o refs[k].anon ELSE "clash")
     ELSE Say({}, "refused")

Init ==
  /\ cid \in 1..Len(Cases) /\ ip = 1 /\ file = 0 /\ sec = 0 /\ pos = 0 /\ inc = <<Root>> /\ ctx = <<FreshCtx>> /\ nctx = 0 /\ secs = << >>
  /\ labs = << >> /\ refs = << >> /\ k = 0 /\ status = "read" /\ verdict = ""
Next == Read \/ Resolve \/ Refused
Spec == Init /\ [][Next]_vars

\* the parents of a context have rising levels, and each is the beginning of the next
Parents == \A c \in 1..Len(ctx) : \A i \in 1..(Len(ctx[c].par) - 1) :
             LET a == ctx[c].par[i] b == ctx[c].par[i + 1]
             IN a.lvl < b.lvl /\ SubSeq(b.key.p, 1, Len(a.key.p)) = a.key.p /\ a.key.q = b.key.q /\ a.key.c = b.key.c
\* when references are resolved every name denotes at most one label in a scope, and what is found may be seen from there
OneEach == status = "resolve" => ~Clash
Seen == (status = "resolve" /\ k \in 1..Len(refs)) =>
          \A i \in Target(refs[k]) :
            LET l == labs[i] r == refs[k]
            IN /\ l.anon # "" => (l.file = r.file /\ l.sec = r.sec /\ l.actx = r.actx)
               /\ (l.anon = "" /\ l.key.loc) => (IF l.sec = 0 THEN l.file = r.file ELSE l.sec = r.sec)
=============================================================================
