-------------------------- MODULE SectorIndexTrace --------------------------
(* Is a recorded execution of the real code - several threads on one shared       *)
(* adaptation - a behaviour of SectorIndex? Each record has to be a step of the    *)
(* specification; what a lookup answered has to be what the snapshot says that     *)
(* lookups are answered from at that point.                                        *)
EXTENDS SectorIndex, IOUtils
VARIABLE at       \* how much of the recording is accounted for
Trace == ndJsonDeserialize(IOEnv.VP_TRACE)

Answered == cache' = <<InUse>> /\ UNCHANGED <<secs, vols, other, hist>>
Fresh == secs' = EmptyF /\ vols' = EmptyF /\ cache' = <<>> /\ other' = <<>> /\ hist' = <<>>
TInit == Init /\ at = 0
TNext == /\ at < Len(Trace) /\ at' = at + 1
         /\ LET r == Trace[at + 1] IN
            \/ r.op = "new" /\ Fresh
            \/ r.op = "idle" /\ UNCHANGED vars
            \/ r.op = "setsec" /\ SetSector(r.id, r.prio, Range(r.vs))
            \/ r.op = "delsec" /\ DelSector(r.id)
            \/ r.op = "setvol" /\ SetVolume(r.id, [ring |-> r.ring, lv |-> <<r.lo, r.hi>>])
            \/ r.op = "delvol" /\ DelVolume(r.id)
            \/ r.op = "rebuild" /\ Rebuild
            \/ r.op = "clone" /\ CloneIt
            \/ r.op = "swap" /\ Swap
            \/ r.op = "find" /\ r.r = Find(InUse, r.p, r.l2) /\ Answered
            \* as lists: nothing may be named twice
            \/ r.op = "at" /\ Range(r.r) = At(InUse, r.p) /\ IsInjective(r.r) /\ Answered
            \/ r.op = "near" /\ Range(r.r) = Near(InUse, r.l) /\ IsInjective(r.r) /\ Answered
TSpec == TInit /\ [][TNext]_<<vars, at>>
TView == at
\* the whole recording is accounted for; otherwise, how far it is
Accepted == TLCGet("stats").diameter = Len(Trace) + 1 \/ (PrintT(<<"REJECTED", TLCGet("stats").diameter>>) /\ FALSE)
=============================================================================
