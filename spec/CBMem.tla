----------------------------------------------- MODULE CBMem ------------------------------------------------
(***************************************************************************************************************)
(* A design level model of the storage management of circular_buffer_space_optimized: how much storage is       *)
(* allocated for how many elements, and what the reallocations cost over whole histories.                      *)
(* TLC explores every history of insertions, erasures and changes of the capacity within the bounds.           *)
(***************************************************************************************************************)
EXTENDS Integers, FiniteSets, TLC

CONSTANTS Slack,     \* what may be saved in an empty buffer
          MaxCap,    \* capacities 0..MaxCap
          Mins,      \* minimum capacities
          Credit,    \* what every inserted or erased element contributes to the cost of moving elements
          Changes    \* TRUE: capacities may be changed

VARIABLES cap, mn, n, amt, bank, op
vars == <<cap, mn, n, amt, bank, op>>

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
(* at least a fifth of reserve, but never more than the capacity *)
Reserve(c, a, sz) == LET d == IF sz + a \div 5 >= a THEN (IF a > c \div 2 THEN c ELSE 2 * a) ELSE a IN Min2(d, c)
RECURSIVE Double(_, _)
Double(a, sz) == IF sz > a THEN Double(2 * a, sz) ELSE a
RECURSIVE Halve(_, _, _)
Halve(a, sz, m) == IF a \div 3 >= sz /\ a > 0 THEN (IF a \div 2 <= m THEN m ELSE Halve(a \div 2, sz, m)) ELSE a
Low(c, a, sz)  == IF sz > a THEN Reserve(c, Double(Max2(a, 1), sz), sz) ELSE a      \* before an insertion
High(c, m, a, sz) == Reserve(c, Halve(a, sz, m), sz)                               \* after an erasure
Adjusted(c, m, a, sz) == IF m > a THEN m ELSE High(c, m, a, Min2(c, sz))

Cap_(c, k) == Min2(bank + c, Credit * k + Slack)      \* k elements: savings beyond this are not counted (a long past does not pay for today)
Grow(k) == LET k2 == Min2(k, cap - n)      \* k elements inserted; only so many stay
               a == Low(cap, amt, n + k2)
           IN /\ k > 0 /\ cap > 0
              /\ amt' = a /\ n' = n + k2
              /\ bank' = Cap_(Credit * k, n + k2) - (IF a # amt THEN n ELSE 0)
              /\ op' = "grow" /\ UNCHANGED <<cap, mn>>
Shrink(k) == LET a == High(cap, mn, amt, n - k)
             IN /\ k > 0 /\ k <= n
                /\ amt' = a /\ n' = n - k
                /\ bank' = Cap_(Credit * k, n) - (IF a # amt THEN n - k ELSE 0)
                /\ op' = "shrink" /\ UNCHANGED <<cap, mn>>
Change(c, m) == /\ Changes /\ m <= c
                /\ cap' = c /\ mn' = m /\ n' = Min2(n, c)
                /\ amt' = Adjusted(c, m, amt, n)
                /\ bank' = Cap_(Credit * n + 1, n) /\ op' = "change"     \* a change of the capacity is linear in the size
Init == \E c \in 0..MaxCap, m \in Mins : m <= c /\ cap = c /\ mn = m /\ n = 0 /\ amt = m /\ bank = 0 /\ op = "new"
Next == \/ \E k \in 1..cap : Grow(k)
        \/ \E k \in 1..n : Shrink(k)
        \/ \E c \in 0..MaxCap, m \in Mins : Change(c, m)
Spec == Init /\ [][Next]_vars

Enough   == n <= amt                        \* the elements have room
NotMore  == amt <= cap                      \* never more storage than the capacity
Floor    == amt >= mn                       \* never less than the minimum capacity
NoWaste  == op = "shrink" => amt <= Max2(mn, Max2(6 * n, 2)) \* erasing gives storage back
Amortized == bank >= 0                      \* the cost of reallocations is covered by the elements inserted and erased
==========================================================================================================
