--------------------------------- MODULE MC ---------------------------------
(***************************************************************************)
(* Model checking of the specification itself.  Every module MC<Machine>   *)
(* defines a set of start states and a set of commands; TLC explores all   *)
(* behaviours up to a small length and checks the laws the machine has to  *)
(* obey - stated independently of the actions, as algebraic identities,    *)
(* quantified definitions over small grids or read-after-write axioms.     *)
(* Every complete behaviour is also exported (Emit) and replayed on the    *)
(* real code, whose trace Trace.tla validates.                             *)
(***************************************************************************)
EXTENDS Vmmlib, Json, IOUtils, Randomization

VARIABLES start, hist, pre
mcvars == <<mvars, start, hist, pre>>

Big == "VMBIG" \in DOMAIN IOEnv /\ IOEnv.VMBIG = "1"
Mode == IF "VMMODE" \in DOMAIN IOEnv THEN IOEnv.VMMODE ELSE ""
\* the whole set, or n (thorough: m) of its elements
Some(n, m, S) == LET k == IF Big THEN m ELSE n IN
                 IF Cardinality(S) <= k THEN S ELSE RandomSubset(k, S)
Cm(op, a) == [op |-> op, a |-> a]

\* registers after loading: f is a sequence of <<index, value>>
RECURSIVE With(_, _)
With(rs, f) == IF f = <<>> THEN rs
               ELSE With([rs EXCEPT ![f[1][1] + 1] = f[1][2]], Tail(f))
Begins(k, p, S) ==
    /\ kind = k /\ par = p /\ aux = InitAux(k, p) /\ out = Void /\ hist = <<>>
    /\ regs \in {With(InitRegs(k, p), f) : f \in S}
    /\ start = regs /\ pre = regs
Goes(Cmds) == \E c \in Cmds :
    Step(c) /\ hist' = Append(hist, c) /\ pre' = regs /\ UNCHANGED start
Done == hist # <<>>
Last == hist[Len(hist)]
P(i) == pre[i + 1]

\* unchanged except the registers in D
Only(D) == \A i \in 1..Len(regs) : (i - 1) \in D \/ regs[i] = pre[i]

MatsOver(r, c, D) == {Raw(r, c, 1, s) : s \in [1..(r * c) -> D]}
VecsOver(n, D) == MatsOver(n, 1, D)
SomeMats(r, c, D, n, m) == {Raw(r, c, 1, s) : s \in Some(n, m, [1..(r * c) -> D])}
Near1(a, b, t) == Abs(a - b) <= t

\* print the behaviour
Export(Complete) == Complete =>
    PrintT(ToJson([par |-> par, cmds |-> hist,
        ld |-> LET d == InitRegs(kind, par)
                   ch == SelectSeq([i \in 1..Len(start) |-> i], LAMBDA i : start[i] # d[i])
               IN [k \in 1..Len(ch) |-> <<ch[k] - 1, start[ch[k]].q>> \o start[ch[k]].v]]))
=============================================================================
