-------------------------------- MODULE OnsetImpl --------------------------------
(* The per-bin history buffers each detection function type keeps, and when it    *)
(* updates them, compared exhaustively with the definition over the frames        *)
(* themselves; and the phase vocoder's unwrapping recurrence.                     *)
EXTENDS OnsetOps
CONSTANTS Mags, MaxFrames, Omegas, Turn
VARIABLES type, magH, phaH, phaO, frames, value, omega, pv, un, th
vars == <<type, magH, phaH, phaO, frames, value, omega, pv, un, th>>
Quarters == {-1, 0, 1, 2}
Rise == 1995
Init == /\ type \in 1..5 /\ omega \in Omegas
        /\ magH = 0 /\ phaH = 0 /\ phaO = 0 /\ frames = <<>> /\ value = 0
        /\ pv = -omega /\ un = -omega /\ th = 0
Princ(x) == LET y == x % Turn IN IF 2 * y > Turn THEN y - Turn ELSE y
Frame(m, q) ==
  LET dev == PrincQ(q - 2 * phaH + phaO)
  IN /\ Len(frames) < MaxFrames
     /\ frames' = Append(frames, [m |-> m, q |-> q])
     /\ value' = CASE type = 1 -> 1000 * m
                   [] type = 2 -> Milli(Abs(m * m - magH * magH))
                   [] type = 3 -> 1000 * Abs(dev)
                   [] type = 4 -> IF dev = 0 THEN 1000 * Abs(magH - m) ELSE IF Abs(dev) = 2 THEN 1000 * (magH + m) ELSE Milli(magH * magH + m * m)
                   [] type = 5 -> IF magH > 0 /\ 1000 * m * m > Rise * magH THEN 1000 ELSE 0
     /\ magH' = CASE type \in {2, 4} -> m [] type = 5 -> m * m [] OTHER -> magH
     /\ phaH' = IF type \in {3, 4} THEN q ELSE phaH
     /\ phaO' = IF type \in {3, 4} THEN phaH ELSE phaO
     \* phase vocoder, Turn units to the turn
     /\ LET theta == q * (Turn \div 4)
            err == Princ(theta - (pv + omega))
        IN /\ un' = un + omega + err /\ pv' = theta /\ th' = theta
     /\ UNCHANGED <<type, omega>>
Next == \E m \in Mags, q \in Quarters : Frame(m, q)
Spec == Init /\ [][Next]_vars
At(k) == IF k < 1 THEN Silent(1) ELSE <<frames[k]>>
N == Len(frames)
Definition == N > 0 => value = DFValue(type, Rise, At(N), At(N - 1), At(N - 2))
Unwrapped == N > 0 => (un - th) % Turn = 0
Deviation == [][2 * Abs(un' - un - omega) <= Turn]_vars
First == N = 1 => un = th
=============================================================================
