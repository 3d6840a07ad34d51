----------------------------- MODULE C24Model -----------------------------
(* Moves of an image: transposition, reflection, translation, brightening.   *)
(* A marked point with a direction (quarter turns) follows the image.        *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT Depth
VARIABLES w, h, x, y, dx, dy, gain, word
vars == <<w, h, x, y, dx, dy, gain, word>>
Init == w = 5 /\ h = 3 /\ x = 1 /\ y = 2 /\ dx = 1 /\ dy = 0 /\ gain = 0 /\ word = <<>>
Do(o) == word' = Append(word, o)
Transpose == w' = h /\ h' = w /\ x' = y /\ y' = x /\ dx' = dy /\ dy' = dx /\ Do("T") /\ UNCHANGED gain
FlipX == x' = w - 1 - x /\ dx' = -dx /\ Do("F") /\ UNCHANGED <<w, h, y, dy, gain>>
Shift == \E a \in {-1, 1, 2}, b \in {0, -1, 2} : x + a \in 0..(w - 1) /\ y + b \in 0..(h - 1) /\ x' = x + a /\ y' = y + b
            /\ Do("S") /\ UNCHANGED <<w, h, dx, dy, gain>>
Gain == \E g \in {-1, 1} : gain' = gain + g /\ Do("G") /\ UNCHANGED <<w, h, x, y, dx, dy>>
Next == Len(word) < Depth /\ (Transpose \/ FlipX \/ Shift \/ Gain)
Inside == x \in 0..(w - 1) /\ y \in 0..(h - 1)
Unit == dx * dx + dy * dy = 1
\* the moves generate the symmetries of the square: four of (transpose after reflect) is nothing
Count(o) == Len(SelectSeq(word, LAMBDA q : q = o))
Quarter == (word = <<"T", "F", "T", "F", "T", "F", "T", "F">>) => (x = 1 /\ y = 2 /\ dx = 1 /\ dy = 0)
Twice == (word \in {<<"T", "T">>, <<"F", "F">>}) => (w = 5 /\ h = 3 /\ x = 1 /\ y = 2 /\ dx = 1 /\ dy = 0)
Emit == Len(word) < Depth \/ PrintT(<<"CASE", ToJson(word)>>)
===========================================================================
