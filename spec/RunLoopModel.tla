---------------------------- MODULE RunLoopModel ----------------------------
(* All runs of RunLoop within small bounds; also the source of the scenarios *)
(* that are run on the implementation.                                       *)
EXTENDS RunLoop, Json, IOUtils
CONSTANTS MaxN, Ends, Intervals, Starts

Configs == [N : 1..MaxN, end : Ends, start : Starts, sol : Intervals, tab : Intervals,
            chk : Intervals, off : BOOLEAN, gas : {FALSE}]

Init == /\ phase = "idle"
        /\ cfg \in Configs
        /\ i = 0 /\ t = 0 /\ known = FALSE /\ below = FALSE
        /\ vtu = {} /\ chk = {} /\ rows = <<>> /\ grid = FALSE
Start == phase = "idle" /\ Begin(cfg, cfg.start * Tick)
Go == \E k, b \in BOOLEAN : Step(k, b)
Next == Start \/ Go \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Terminates == <>(phase = "done")

(* one scenario per configuration and reason for stopping *)
Emit == (phase = "done" /\ "EMIT" \in DOMAIN IOEnv /\ RandomElement(1..100) <= atoi(IOEnv.EMIT)) =>
           PrintT("@@" \o ToJson([cfg |-> cfg, stopped |-> i, why |-> <<Reached, TimeUp, Converged>>,
                                  files |-> Cardinality(vtu) + Cardinality(chk) + Len(rows)]))
=============================================================================
