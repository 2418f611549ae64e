------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Validation of recorded executions: a trace is accepted iff every event  *)
(* is a step of the specification (Step of Vmmlib.tla) whose outcome and   *)
(* resulting registers are the recorded ones.                              *)
(***************************************************************************)
EXTENDS Vmmlib, Json, IOUtils

Tr == TLCEval(ndJsonDeserialize(IOEnv.VMTRACE))

VARIABLE l
tvars == <<mvars, l>>

\* recorded numbers num / q equal to the specified numbers v / sq; never
\* computes with a recorded number other than comparing it
EqNums(num, q, v, sq) ==
    /\ Len(num) = Len(v)
    /\ IF q = sq THEN num = v
       ELSE \A k \in 1..Len(v) : /\ (v[k] * q) % sq = 0
                                 /\ num[k] = (v[k] * q) \div sq

\* the event lists the registers that changed: <<index, q, numerators...>>
ConformsRegs(e, old, new) ==
    LET Listed == {e.s[k][1] : k \in 1..Len(e.s)} IN
    /\ \A k \in 1..Len(e.s) :
         LET w == e.s[k] m == new[w[1] + 1]
         IN EqNums(SubSeq(w, 3, Len(w)), w[2], m.v, m.q)
    /\ \A i \in 1..Len(new) : (i - 1) \in Listed \/ new[i] = old[i]
                                \/ Same(new[i], old[i])

ConformsOut(e, o) == e.ok = 1 /\ e.x = o.x /\ EqNums(e.r, e.q, o.v, o.q)

TInit == /\ l = 1 /\ kind = "none" /\ par = <<>> /\ regs = <<>> /\ aux = <<>>
         /\ out = Void

TStart == LET e == Tr[l] IN
    /\ e.op = "@"
    /\ Begin(e.kind, e.a)
    /\ e.ok = 1
    /\ Len(e.s) = Len(regs')
    /\ ConformsRegs(e, regs', regs')

TStep == LET e == Tr[l] IN
    /\ e.op # "@"
    /\ Step([op |-> e.op, a |-> e.a])
    /\ ConformsOut(e, out')
    /\ ConformsRegs(e, regs, regs')

TNext == /\ l <= Len(Tr)
         /\ l' = l + 1
         /\ TStart \/ TStep

TSpec == TInit /\ [][TNext]_tvars

\* every event consumed; otherwise print the index of the first rejected one
Accepted == LET n == TLCGet("stats").diameter - 1 IN
    IF n = Len(Tr) THEN PrintT(<<"ACCEPTED", n>>)
    ELSE PrintT(<<"REJECTED", n + 1>>) /\ PrintT(ToJson(Tr[n + 1]))
=============================================================================
