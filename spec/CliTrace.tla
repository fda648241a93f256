------------------------------- MODULE CliTrace -------------------------------
(* Checks recorded command lines of the real assembler against Cli.          *)
EXTENDS Cli, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, n, cli, pr, st
vars == <<tr, n, cli, pr, st>>

Set(s) == {s[i] : i \in 1..Len(s)}
EarlyBad(c, s, o) ==
  LET e == Early(c, s)
  IN  {f \in {"rc", "files", "txt", "err"} :
        CASE f = "rc" -> o.rc # e.rc
          [] f = "files" -> Set(o.files) # e.files
          [] f = "txt" -> IF s.end = "help" THEN SubSeq(o.txt, 1, Len(e.txt) + Len(Help)) # e.txt \o Codes(Help) ELSE o.txt # e.txt
          [] f = "err" -> o.err # e.err}
LateBad(c, s, P, a, o) ==
  LET e == Late(c, s, P, a)
      errs == e.a >= 2
      Own(f) == ~Agrees(P, a, f, o)
      skip == (IF errs THEN {"out", "im", "cnt", "sta", "lab"} ELSE {}) \cup (IF e.gave THEN {"txt", "lst"} ELSE {})
              \cup (IF e.short THEN {"im", "rc"} ELSE {})
  IN  {f \in {"rc", "files", "out", "ds", "im", "txt", "err", "col", "lab", "lst", "cnt", "sta"} \ skip :
        CASE f = "rc" -> o.rc # e.rc /\ (~errs \/ o.rc # 3 \/ e.a # 2)
          [] f = "files" -> Set(o.files) # e.files
          [] f = "out" -> o.out # e.out
          [] f = "ds" -> o.ds # e.ds
          [] f = "im" -> o.im # e.im
          [] f = "txt" -> o.txt # e.txt
          [] f = "err" -> o.err # e.err
          [] f = "col" -> o.col # ("N" \notin s.fl)
          [] f \in {"lab", "lst"} -> (IF f = "lab" THEN "L" ELSE "T") \in s.fl /\ ~e.gave /\ Own(f)
          [] f = "cnt" -> IF "C" \in s.fl /\ ~e.gave THEN Own("cnt") ELSE "cnt" \in DOMAIN o /\ o.cnt # <<>>
          [] f = "sta" -> IF "S" \in s.fl /\ ~e.gave THEN Own("sta") ELSE "sta" \in DOMAIN o /\ o.sta # <<>>}

Report(ok, bad, e, rc) == PrintT("VERDICT " \o ToJson([i |-> Traces[tr].i, ok |-> ok, bad |-> bad, e |-> e, steps |-> n, rc |-> rc]))
C == Traces[tr].p
NoRun == [ph |-> "no"]
Ran == [ph |-> "end"]
Init == tr \in 1..Len(Traces) /\ n = 0 /\ cli = Cli0 /\ pr = NoRun /\ st = NoRun
Read == /\ cli.end = ""
        /\ cli' = ArgRun(C, cli)
        /\ UNCHANGED <<pr, st>>
        /\ IF cli'.end \in {"help", "bad", "fatal"}
           THEN LET b == EarlyBad(C, cli', Traces[tr].o) IN Report(b = {}, b, Early(C, cli'), Early(C, cli').rc)
           ELSE TRUE
Start == /\ cli.end = "run" /\ st.ph = "no"
         /\ pr' = Prog(C, cli)
         /\ st' = Init0(pr')
         /\ UNCHANGED cli
Assemble == /\ cli.end = "run" /\ st.ph \notin {"no", "end"}
            /\ LET P == pr
               IN  /\ st' = Step(P, st)
                   /\ IF st'.ph = "end"
                      THEN LET b == LateBad(C, cli, P, st', Traces[tr].o)
                           IN  Report(b = {}, b, IF b = {} THEN [x |-> 0] ELSE [Late(C, cli, P, st') EXCEPT !.short = <<"lst", Expect(P, st', "lst"), "lab", Expect(P, st', "lab"), Expect(P, st', "sta"), Expect(P, st', "cnt")>>], Exit(P, st'))
                      ELSE TRUE
            /\ UNCHANGED <<cli, pr>>
Next == n' = n + 1 /\ tr' = tr /\ (Read \/ Start \/ Assemble)
View == <<tr, n>>

(* The order of options among themselves does not matter, except for       *)
(* values of the same option: options only ever add.                       *)
Adds == [][/\ cli.fl \subseteq cli'.fl
           /\ Len(cli.incs) <= Len(cli'.incs) /\ SubSeq(cli'.incs, 1, Len(cli.incs)) = cli.incs
           /\ Len(cli.defs) <= Len(cli'.defs)]_vars
===========================================================================
