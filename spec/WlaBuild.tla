------------------------------ MODULE WlaBuild -----------------------------
(* Histories of builds over a file system.                                  *)
(*                                                                          *)
(* A case is a history of tool runs. The machine holds the files of the     *)
(* directories the tools run in (name -> digest of the contents) and what   *)
(* it has learned: the digest of the output of every run, by the inputs and *)
(* options that may matter (the key). Each action is one run: the tool may  *)
(* write its output and side outputs only, the output depends on the key    *)
(* only, and a failed run leaves no output but the old or the right one.    *)
EXTENDS WlaUtil, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES cid, ip, fs, learned, status, verdict
vars == <<cid, ip, fs, learned, status, verdict>>

C == Cases[cid]
S == C.steps[ip]

\* files are sets of <<name, digest>>
Names(f) == {e[1] : e \in f}
Has(f, n) == \E e \in f : e[1] = n
Get(f, n) == IF Has(f, n) THEN (CHOOSE e \in f : e[1] = n)[2] ELSE "none"
After == {<<S.after[i][1], S.after[i][2]>> : i \in 1..Len(S.after)}
Outs == {S.outs[i].name : i \in 1..Len(S.outs)}
Known(k) == \E e \in learned : e[1] = k

Bad(what) == status' = "bad" /\ verdict' = what /\ UNCHANGED <<cid, ip, fs, learned>>
Go == ip' = ip + 1 /\ fs' = After /\ UNCHANGED <<cid, verdict>> /\ status' = IF ip = Len(C.steps) THEN "done" ELSE "run"

\* somebody else changes files between two runs: new directories, leftovers of other builds, lost outputs
World == /\ S.t = "world" /\ Go /\ UNCHANGED learned

\* the run of a tool
Same(o) == ~Known(o.key) \/ <<o.key, Get(After, o.name)>> \in learned
Frame == {e \in fs : e[1] \notin Outs} = {e \in After : e[1] \notin Outs}
Good == /\ S.rc = 0 /\ \A i \in 1..Len(S.outs) : (S.outs[i].must => Has(After, S.outs[i].name)) /\ (Has(After, S.outs[i].name) => Same(S.outs[i]))
Failed == /\ S.rc = 1
          /\ \A i \in 1..Len(S.outs) : S.outs[i].must => (~Has(After, S.outs[i].name) \/ Get(After, S.outs[i].name) = Get(fs, S.outs[i].name)
                                                      \/ <<S.outs[i].key, Get(After, S.outs[i].name)>> \in learned)
Why == IF S.rc \notin {0, 1} THEN "crash|exit status of step "
       ELSE IF ~Frame THEN "frame|other files changed in step "
       ELSE IF S.rc = 0 /\ S.exp = "fail" THEN "accepted|step "
       ELSE IF S.rc = 1 /\ S.exp = "ok" THEN "rc|step "
       ELSE IF S.rc = 1 THEN "left|a failed run left an output in step "
       ELSE "differs|output of step "
Tool ==
  /\ S.t = "tool"
  /\ IF /\ Frame
        /\ CASE S.exp = "ok" -> Good [] S.exp = "fail" -> Failed [] OTHER -> Good \/ Failed
     THEN /\ Go
          /\ learned' = IF S.rc # 0 THEN learned
                        ELSE learned \union {<<S.outs[i].key, Get(After, S.outs[i].name)>> : i \in {j \in 1..Len(S.outs) : Has(After, S.outs[j].name)}}
     ELSE Bad(Why)

Init == /\ cid \in 1..Len(Cases) /\ ip = 1 /\ fs = {} /\ learned = {} /\ status = "run" /\ verdict = ""
Step == status = "run" /\ (World \/ Tool)
Tell ==
  /\ status \in {"done", "bad"}
  /\ PrintT("VERDICT|" \o C.id \o (IF status = "done" THEN "|OK|" \o ToString(Cardinality(learned)) ELSE "|BAD|" \o verdict \o ToString(ip) \o " " \o S.tag))
  /\ status' = "told" /\ UNCHANGED <<cid, ip, fs, learned, verdict>>
Next == Step \/ Tell
Spec == Init /\ [][Next]_vars

\* one output per key, for all times
Function == \A a, b \in learned : a[1] = b[1] => a[2] = b[2]
Paths == \A a, b \in fs : a[1] = b[1] => a[2] = b[2]
=============================================================================
