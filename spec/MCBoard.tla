------------------------------ MODULE MCBoard ------------------------------
(* Closed: for every coded body (no two adjacent bytes 255, as stuffing guarantees) the program's verdicts on what the *)
(* core delivers are the right ones: both markers found, the end marker's kind told, the body accepted; and a body     *)
(* changed in one byte is refused.                                                                                     *)
EXTENDS BoardProgram
CONSTANTS Bytes, MaxLen
VARIABLES body, end
Good(b) == \A i \in 1..(Len(b) - 1) : b[i] = 255 => b[i + 1] = 0
Init == body = <<>> /\ end \in {FF, FE}
Next == Len(body) < MaxLen /\ (\E x \in Bytes : body' = Append(body, x)) /\ end' = end
Coded == Good(body) /\ (body = <<>> \/ Last(body) # 255)
Mem == Delivered(body, end)
Tells == Coded => /\ FirstSays(Mem) = <<"marker found.">>
                  /\ LastSays(Mem, Len(body)) = <<(IF end = FF THEN "normal" ELSE "force") \o " marker found - offset is "
                                                  \o ToString(Len(body) % 2) \o ".">>
                  /\ ValidateSays(Mem, body) = {<<"Validation succeeded.">>}
Refuses == Coded => \A i \in 1..Len(body), x \in Bytes :
                      x # body[i] => <<"Validation succeeded.">> \notin ValidateSays(Delivered([body EXCEPT ![i] = x], end), body)
NoMarker == Coded => /\ FirstSays(Swap(Even(body) \o Eight(end))) = <<"No marker found.">> \/ (body = <<>> /\ end = FF)
                     /\ LastSays(Swap(Eight(FF) \o Even(body)), Len(body)) = <<"No marker found.">>
=============================================================================
