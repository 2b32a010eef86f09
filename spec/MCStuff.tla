------------------------------ MODULE MCStuff ------------------------------
(* Design facts about stuffing, for every byte string over Alphabet up to    *)
(* length N: it is undone by removing the stuffed bytes, adds one zero per   *)
(* 255 and nothing else, and no two consecutive output bytes look like the   *)
(* words of the frame markers (255 255 or 255 254).                          *)
EXTENDS Codec
CONSTANTS Alphabet, N
VARIABLES b
Init == b = <<>>
Next == Len(b) < N /\ \E x \in Alphabet : b' = Append(b, x)
Undone == Unstuff(Stuff(b)) = b
OnlyZeros == Len(Stuff(b)) = Len(b) + Cardinality({i \in 1..Len(b) : b[i] = 255})
NoMarker == \A i \in 1..Len(Stuff(b)) - 1 : Stuff(b)[i] = 255 => Stuff(b)[i + 1] = 0
Padded == LET w == Stuff(b) IN Len(w) % 2 = 1 => w[Len(w)] # 255
=============================================================================
