----------------------------- MODULE AirwayTrace -----------------------------
(* Recorded use of the airway network: files of the recorder's own making, of up to  *)
(* sixty places and forked, closed and doubled courses, and what segments of them     *)
(* were expanded to. Each answer has to be one that the specification allows.         *)
EXTENDS Airway, IOUtils
VARIABLE at
Trace == ndJsonDeserialize(IOEnv.VP_TRACE)

TInit == Init /\ at = 0
Fresh == order' = <<>> /\ edges' = EmptyF /\ known' = {} /\ hist' = <<>>
AskedOf(r) == LET A == Answers(r.s, r.e, r.w) IN IF r.some THEN r.path \in {Show(x) : x \in A} ELSE A = {}
TNext == /\ at < Len(Trace) /\ at' = at + 1
         /\ LET r == Trace[at + 1] IN
            \/ r.op = "new" /\ Fresh
            \/ r.op = "rec" /\ Record(r.r)
            \/ r.op = "know" /\ Know(r.k, r.p)
            \/ r.op = "ask" /\ AskedOf(r) /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<vars, at>>
TView == at
Accepted == TLCGet("stats").diameter = Len(Trace) + 1 \/ (PrintT(<<"REJECTED", TLCGet("stats").diameter>>) /\ FALSE)
=============================================================================
