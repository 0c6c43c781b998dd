------------------------------- MODULE RunLoop -------------------------------
(* The main loop of a simulation: clock, stop rule, and which files appear   *)
(* at which iteration.  Time is counted in 1/1000 of the time step.          *)
EXTENDS Integers, FiniteSets, Sequences, TLC

CONSTANT Period          \* iterations between two looks at the convergence
Tick  == 1000
Never == 1000000000      \* an interval at least this long switches an output off

VARIABLES cfg,     \* what the user asked for
          phase,   \* "idle", "loop", "done"
          i, t,    \* iteration and time
          known,   \* the velocity change over the last Period iterations is known
          below,   \* ... and is below the threshold
          vtu, chk, rows, grid   \* what has been written by this run
vars == <<cfg, phase, i, t, known, below, vtu, chk, rows, grid>>

Reached   == i >= cfg.N
TimeUp    == t >= cfg.end
Converged == i % Period = 0 /\ known /\ below
Stop == Reached \/ TimeUp \/ Converged

On(n) == n < Never
SolDue(final) == ~cfg.off /\ (final \/ (On(cfg.sol) /\ i % cfg.sol = 0))
ChkDue(final) == ~cfg.off /\ On(cfg.chk) /\ (final \/ i % cfg.chk = 0) /\ i # cfg.start
RowDue        == ~cfg.off /\ i % cfg.tab = 0

New(b) == IF b THEN {i} ELSE {}
Write(final) == /\ vtu'  = vtu \cup New(SolDue(final))
                /\ chk'  = chk \cup New(ChkDue(final))
                /\ rows' = rows \o (IF RowDue THEN <<i>> ELSE <<>>)
                /\ grid' = (grid \/ ~(cfg.off \/ cfg.gas)) \* runs with energy transport do not show the mesh

Begin(c, t0) == /\ phase \in {"idle", "done"}
                /\ cfg' = c
                /\ phase' = "loop"
                /\ i' = c.start
                /\ t' = t0
                /\ t0 = c.start * Tick
                /\ known' = FALSE /\ below' = FALSE
                /\ vtu' = {} /\ chk' = {} /\ rows' = <<>> /\ grid' = FALSE

(* Files of the present iteration are written, then the flow is advanced.    *)
Step(k, b) == /\ phase = "loop"
              /\ ~Stop
              /\ Write(FALSE)
              /\ i' = i + 1
              /\ t' = t + Tick
              /\ IF i' % Period = 0
                   THEN /\ known' = k
                        /\ below' = b
                        /\ (b => k)
                        \* nothing to compare with before a full period has passed
                        /\ (k <=> i' - Period >= cfg.start)
                   ELSE UNCHANGED <<known, below>>
              /\ UNCHANGED <<cfg, phase>>

End == /\ phase = "loop"
       /\ Stop
       /\ Write(TRUE)
       /\ phase' = "done"
       /\ UNCHANGED <<cfg, i, t, known, below>>

------------------------------------------------------------------------------
(* The guarantees, over what has been written when the run is over.          *)
Ran == cfg.start..(i-1)
Mult(n) == {k \in Ran : k % n = 0}

ClockRuns == phase # "idle" => t = i * Tick

StopsInTime ==
   phase = "done" =>
      /\ (Reached \/ TimeUp \/ Converged)
      \* no iteration too many
      /\ (i > cfg.start => i - 1 < cfg.N /\ (i - 1) * Tick < cfg.end)

SolutionsComplete ==
   (phase = "done" /\ ~cfg.off) => vtu = (IF On(cfg.sol) THEN Mult(cfg.sol) ELSE {}) \cup {i}
CheckpointsComplete ==
   (phase = "done" /\ ~cfg.off /\ On(cfg.chk)) =>
        chk = (Mult(cfg.chk) \cup {i}) \ {cfg.start}
TableComplete ==
   (phase = "done" /\ ~cfg.off) =>
        /\ {rows[k] : k \in 1..Len(rows)} = {k \in cfg.start..i : k % cfg.tab = 0}
        /\ \A k \in 1..(Len(rows)-1) : rows[k] < rows[k+1]
Silent == (phase # "idle" /\ cfg.off) => vtu = {} /\ chk = {} /\ rows = <<>> /\ ~grid
LastStateKept == (phase = "done" /\ ~cfg.off) =>
        /\ i \in vtu
        /\ (On(cfg.chk) /\ i # cfg.start => i \in chk)
=============================================================================
