------------------------------ MODULE Machine ------------------------------
(***************************************************************************)
(* The common form of all the specified objects: a machine is a register   *)
(* file of values; every public operation is one action that updates       *)
(* registers and yields an outcome (a returned value and/or an exception). *)
(* Everything an action does not mention is unchanged: this is what makes  *)
(* "operands are not modified" part of every action.                       *)
(*                                                                         *)
(*   kind   which machine, e.g. "matstore"                                 *)
(*   par    its parameters (dimensions, build configuration, ...)          *)
(*   regs   the registers, addressed 0, 1, 2, ...                          *)
(*   aux    machine specific further state (queues, files, histories)      *)
(*   out    outcome of the last operation: x = 1 iff it raised an          *)
(*          exception, v / q the returned numbers                          *)
(*                                                                         *)
(* A command is a record [op |-> name, a |-> sequence of integers].        *)
(***************************************************************************)
EXTENDS LinAlg

VARIABLES kind, par, regs, aux, out
mvars == <<kind, par, regs, aux, out>>

R(i) == regs[i + 1]
Void == [x |-> 0, q |-> 1, v |-> <<>>]
Raised == [x |-> 1, q |-> 1, v |-> <<>>]
RetI(s) == [x |-> 0, q |-> 1, v |-> s]
RetV(m) == [x |-> 0, q |-> m.q, v |-> m.v]
RetQ(q, s) == [x |-> 0, q |-> q, v |-> s]

Set(i, m) == regs' = [regs EXCEPT ![i + 1] = m]
Set2(i, m, j, n) == regs' = [regs EXCEPT ![i + 1] = m, ![j + 1] = n]
Frame == UNCHANGED <<kind, par, aux>>

\* an operation that writes the value m to register i
Write(i, m) == Set(i, m) /\ out' = Void /\ Frame
\* ... and also returns o
WriteRet(i, m, o) == Set(i, m) /\ out' = o /\ Frame
\* a pure query with outcome o
Query(o) == out' = o /\ UNCHANGED regs /\ Frame
\* an operation rejected with an exception and without effect
Reject == out' = Raised /\ UNCHANGED regs /\ Frame
\* ... and the content of register i is not specified: harness and
\* specification both continue with zero
RejectScrub(i) == Set(i, ZeroM(R(i).r, R(i).c)) /\ out' = Raised /\ Frame

From(s, i) == SubSeq(s, i, Len(s))
=============================================================================
