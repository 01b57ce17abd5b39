----------------------------------------------- MODULE CBImpl -----------------------------------------------
(***************************************************************************************************************)
(* A design level model of circular_buffer: the ring itself.  A machine state has the slots of the storage, the *)
(* positions of the first element and one past the last element, the number of elements, and executes every     *)
(* call as a sequence of elementary steps on slots (construct, assign, destroy), each of which may fail.        *)
(*                                                                                                             *)
(* TLC starts from EVERY well-formed machine state (all capacities, rotations and fill levels within the       *)
(* bounds, whether or not a particular history leads there), executes one call with every argument and every   *)
(* position of the first failing step (0: none fails), and checks                                              *)
(*   - no slot is constructed twice, and none is read, assigned or destroyed while it holds no object;          *)
(*   - the result is well formed, also after a failure (basic guarantee; with the strong guarantee: unchanged); *)
(*   - a completed call refines CB!Effect, and returns the position CB!Rets allows;                             *)
(*   - elements CB!Surv1 promises to stay (iterator validity) are in the same slots afterwards.                 *)
(* As well-formedness is what the check starts from and arrives at, it is an inductive invariant: the result    *)
(* holds for histories of any length (within the bounds on the capacity).                                      *)
(***************************************************************************************************************)
EXTENDS CB, TLC

CONSTANTS Caps,     \* capacities
          NT,       \* the move operations of the element type do not throw (else elements are copied)
          MaxN,     \* largest count beyond the capacity
          MaxK      \* the largest number of the failing step

RAW == -9           \* a slot without object
MVD == -1           \* a moved-from object
END == -1           \* the position "end()": iterators keep no slot for it

VARIABLES st, last
vars == <<st, last>>

(*---------------------------------------- slots -------------------------------------------------------------*)
Inc(m, p)    == (p + 1) % m.cap
Dec(m, p)    == (p + m.cap - 1) % m.cap
Add(m, p, d) == IF m.cap = 0 THEN 0 ELSE (p + d) % m.cap
Sub(m, p, d) == IF m.cap = 0 THEN 0 ELSE (p + m.cap - d) % m.cap
IsFull(m)    == m.n = m.cap
Uninit(m, p) == IF m.f < m.l THEN p >= m.l \/ p < m.f ELSE p >= m.l /\ p < m.f    \* by the markers, not by the slots
Bad(m, s)    == IF m.exc \/ m.err # "" THEN m ELSE [m EXCEPT !.err = s]
Stop(m)      == m.exc \/ m.err # ""
(* one step that may fail *)
Tick(m)      == IF m.k = 1 THEN [m EXCEPT !.exc = TRUE, !.k = 0] ELSE IF m.k > 1 THEN [m EXCEPT !.k = @ - 1] ELSE m
Construct(m, p, v) ==       \* copy construction of v in slot p
    IF Stop(m) THEN m ELSE IF m.mem[p] # RAW THEN Bad(m, "constructed twice")
    ELSE LET t == Tick(m) IN IF t.exc THEN t ELSE [t EXCEPT !.mem[p] = v]
Assign(m, p, v) ==
    IF Stop(m) THEN m ELSE IF m.mem[p] = RAW THEN Bad(m, "assigned without object")
    ELSE LET t == Tick(m) IN IF t.exc THEN t ELSE [t EXCEPT !.mem[p] = v]
Destroy(m, p) ==
    IF Stop(m) THEN m ELSE IF m.mem[p] = RAW THEN Bad(m, "destroyed without object") ELSE [m EXCEPT !.mem[p] = RAW]
(* transfer the value of slot s to slot p: move_if_noexcept *)
ConstructFrom(m, p, s) ==
    IF Stop(m) THEN m ELSE IF m.mem[s] = RAW THEN Bad(m, "read without object")
    ELSE IF NT THEN IF m.mem[p] # RAW THEN Bad(m, "constructed twice") ELSE [m EXCEPT !.mem = [@ EXCEPT ![p] = m.mem[s], ![s] = MVD]]
    ELSE Construct(m, p, m.mem[s])
AssignFrom(m, p, s) ==
    IF Stop(m) THEN m ELSE IF m.mem[s] = RAW THEN Bad(m, "read without object")
    ELSE IF NT THEN IF m.mem[p] = RAW THEN Bad(m, "assigned without object") ELSE [m EXCEPT !.mem = [@ EXCEPT ![p] = m.mem[s], ![s] = MVD]]
    ELSE Assign(m, p, m.mem[s])
CopyFrom(m, p, s) ==       \* construct or replace by a copy, as the markers say
    IF Stop(m) THEN m ELSE IF m.mem[s] = RAW THEN Bad(m, "read without object")
    ELSE IF Uninit(m, p) THEN Construct(m, p, m.mem[s]) ELSE Assign(m, p, m.mem[s])
Put1(m, p, v, c) == IF c THEN Construct(m, p, v) ELSE Assign(m, p, v)
Put1From(m, p, s, c) == IF c THEN ConstructFrom(m, p, s) ELSE AssignFrom(m, p, s)
Catch(m, H(_)) == IF m.exc THEN [H([m EXCEPT !.exc = FALSE]) EXCEPT !.exc = TRUE] ELSE m    \* catch, clean up, rethrow
Then(m, F(_)) == IF Stop(m) THEN m ELSE F(m)

(*---------------------------------------- positions ---------------------------------------------------------*)
At(m, i)   == IF i = m.n THEN END ELSE Add(m, m.f, i)            \* the iterator to position i
Index(m, p) == IF p = END THEN m.n ELSE (p - m.f + m.cap) % m.cap
Slot(m, p) == IF p = END THEN m.l ELSE p
Ret(m, p)  == IF Stop(m) THEN m ELSE [m EXCEPT !.ret = Index(m, p)]

(*---------------------------------------- calls -------------------------------------------------------------*)
PushB(m, v) ==
    IF m.cap = 0 THEN m
    ELSE IF IsFull(m) THEN Then(Assign(m, m.l, v), LAMBDA t : LET l == Inc(t, t.l) IN [t EXCEPT !.l = l, !.f = l])
    ELSE Then(Construct(m, m.l, v), LAMBDA t : [t EXCEPT !.l = Inc(t, t.l), !.n = @ + 1])
PushF(m, v) ==
    IF m.cap = 0 THEN m
    ELSE LET d == [m EXCEPT !.f = Dec(m, m.f)]
             r == IF IsFull(m) THEN Then(Assign(d, d.f, v), LAMBDA t : [t EXCEPT !.l = t.f])
                  ELSE Then(Construct(d, d.f, v), LAMBDA t : [t EXCEPT !.n = @ + 1])
         IN Catch(r, LAMBDA t : [t EXCEPT !.f = Inc(t, t.f)])
PopB(m) == LET l == Dec(m, m.l) IN Then(Destroy([m EXCEPT !.l = l], l), LAMBDA t : [t EXCEPT !.n = @ - 1])
PopF(m) == Then(Destroy(m, m.f), LAMBDA t : [t EXCEPT !.f = Inc(t, t.f), !.n = @ - 1])

(* push with a value taken from slot s (rotate) *)
PushBFrom(m, s) == Then(ConstructFrom(m, m.l, s), LAMBDA t : [t EXCEPT !.l = Inc(t, t.l), !.n = @ + 1])
PushFFrom(m, s) == LET d == [m EXCEPT !.f = Dec(m, m.f)] IN
                   Catch(Then(ConstructFrom(d, d.f, s), LAMBDA t : [t EXCEPT !.n = @ + 1]), LAMBDA t : [t EXCEPT !.f = Inc(t, t.f)])

RECURSIVE ShiftUp(_, _, _, _, _)
ShiftUp(m, p, src, dest, c) ==      \* insert: make room in slot p; result: <<machine, nothing constructed yet>>
    IF Stop(m) \/ src = p THEN <<m, c>>
    ELSE LET s == Dec(m, src) t == Put1From(m, dest, s, c) IN
         IF Stop(t) THEN <<t, c>> ELSE ShiftUp(t, p, s, Dec(m, dest), FALSE)
Insert1(m, pos, v) ==
    IF IsFull(m) /\ pos = At(m, 0) THEN Ret(m, pos)
    ELSE LET fin(t, p) == Then(t, LAMBDA z : LET l == Inc(z, z.l)
                                            y == IF IsFull(z) THEN [z EXCEPT !.l = l, !.f = l] ELSE [z EXCEPT !.l = l, !.n = @ + 1]
                                        IN Ret(y, p))
         IN IF pos = END THEN fin(Put1(m, m.l, v, ~IsFull(m)), m.l)
            ELSE LET r == ShiftUp(m, pos, m.l, m.l, ~IsFull(m))
                     t == Assign(r[1], pos, v)
                     c == r[2]
                 IN fin(Catch(t, LAMBDA z : IF ~c /\ ~IsFull(z) THEN [z EXCEPT !.l = Inc(z, z.l), !.n = @ + 1] ELSE z), pos)

RECURSIVE ShiftDown(_, _, _, _, _)
ShiftDown(m, p, src, dest, c) ==
    IF Stop(m) \/ src = p THEN <<m, c>>
    ELSE LET t == Put1From(m, dest, src, c) IN
         IF Stop(t) THEN <<t, c>> ELSE ShiftDown(t, p, Inc(m, src), Inc(m, dest), FALSE)
RInsert1(m, pos, v) ==
    IF IsFull(m) /\ pos = END THEN Ret(m, END)
    ELSE LET fin(t, p) == Then(t, LAMBDA z : Ret(IF IsFull(z) THEN [z EXCEPT !.l = z.f] ELSE [z EXCEPT !.n = @ + 1], p))
         IN IF pos = At(m, 0)
            THEN LET d == [m EXCEPT !.f = Dec(m, m.f)]
                 IN fin(Catch(Put1(d, d.f, v, ~IsFull(m)), LAMBDA z : [z EXCEPT !.f = Inc(z, z.f)]), d.f)
            ELSE LET q == Slot(m, pos)
                     r == ShiftDown(m, q, m.f, Dec(m, m.f), ~IsFull(m))
                     t == Assign(r[1], Dec(m, q), v)
                     c == r[2]
                     u == Catch(t, LAMBDA z : IF ~c /\ ~IsFull(z) THEN [z EXCEPT !.f = Dec(z, z.f), !.n = @ + 1] ELSE z)
                 IN fin(Then(u, LAMBDA z : [z EXCEPT !.f = Dec(z, z.f)]), Dec(m, q))

(* insert(pos, n, item) and insert(pos, first, last): xs is what is to be inserted *)
RECURSIVE FillAt(_, _, _, _)
FillAt(m, p, xs, c) ==      \* construct the first c items, replace by the others; <<machine, number of items stored>>
    IF Stop(m) \/ xs = <<>> THEN <<m, 0>>
    ELSE LET t == Put1(m, p, Head(xs), c > 0) IN
         IF Stop(t) THEN <<t, 0>> ELSE LET r == FillAt(t, Inc(m, p), Tail(xs), Max2(c - 1, 0)) IN <<r[1], r[2] + 1>>
RECURSIVE CopyUp(_, _, _, _)
CopyUp(m, p, src, dest) ==
    IF Stop(m) \/ src = p THEN <<m, dest>>
    ELSE LET s == Dec(m, src) t == CopyFrom(m, dest, s) IN IF Stop(t) THEN <<t, dest>> ELSE CopyUp(t, p, s, Dec(m, dest))
RECURSIVE PutAll(_, _, _)
PutAll(m, p, xs) ==
    IF Stop(m) \/ xs = <<>> THEN <<m, p>>
    ELSE LET t == Put1(m, p, Head(xs), Uninit(m, p)) IN IF Stop(t) THEN <<t, p>> ELSE PutAll(t, Inc(m, p), Tail(xs))
RECURSIVE Undo(_, _, _, _)
Undo(m, p, e, up) ==        \* destroy what the markers call uninitialised, from p to e
    IF p = e \/ m.err # "" THEN m ELSE Undo(IF Uninit(m, p) THEN Destroy(m, p) ELSE m, IF up THEN Inc(m, p) ELSE Dec(m, p), e, up)
RECURSIVE UndoN(_, _, _)
UndoN(m, p, j) == IF j = 0 \/ m.err # "" THEN m ELSE UndoN(IF Uninit(m, p) THEN Destroy(m, p) ELSE m, Inc(m, p), j - 1)
Dist(m, a, b) == (b - a + m.cap) % m.cap
InsertN(m, pos, ys) ==
    LET copy == m.cap - (m.n - Index(m, pos))
        xs   == LastN(copy, ys)
        n    == Len(xs)
        cn   == Min2(m.cap - m.n, n)
    IN IF n = 0 THEN m
       ELSE LET done(z) == [z EXCEPT !.l = Add(z, z.l, n), !.f = Add(z, z.f, n - cn), !.n = @ + cn]
            IN IF pos = END
               THEN LET r == FillAt(m, m.l, xs, cn) j == Min2(r[2], cn)
                    IN Then(Catch(r[1], LAMBDA z : [z EXCEPT !.l = Add(z, z.l, j), !.n = @ + j]), done)
               ELSE LET top == Add(m, m.l, n - 1)
                        a == CopyUp(m, pos, m.l, top)
                        b == PutAll(a[1], pos, xs)
                        j == IF Stop(a[1]) THEN 0 ELSE Dist(m, pos, b[2])
                    IN Then(Catch(b[1], LAMBDA z : UndoN(Undo(z, top, a[2], FALSE), pos, j)), done)

RECURSIVE FillFront(_, _, _, _)
FillFront(m, p, xs, rep) ==     \* replace rep items, construct the others; <<machine, next slot, items left>>
    IF Stop(m) \/ xs = <<>> THEN <<m, p, Len(xs)>>
    ELSE LET t == Put1(m, p, Head(xs), rep = 0) IN
         IF Stop(t) THEN <<t, p, Len(xs)>> ELSE FillFront(t, Inc(m, p), Tail(xs), Max2(rep - 1, 0))
RECURSIVE DestroyBack(_, _, _)
DestroyBack(m, p, j) == IF j <= 0 \/ m.err # "" THEN m ELSE LET q == Dec(m, p) IN DestroyBack(Destroy(m, q), q, j - 1)
RECURSIVE CopyDown(_, _, _, _)
CopyDown(m, p, src, dest) ==
    IF Stop(m) \/ src = p THEN <<m, dest>>
    ELSE LET t == CopyFrom(m, dest, src) IN IF Stop(t) THEN <<t, dest>> ELSE CopyDown(t, p, Inc(m, src), Inc(m, dest))
RInsertN(m, pos, ys) ==
    LET copy == m.cap - Index(m, pos)
        xs   == FirstN(copy, ys)
        n    == Len(xs)
        cn   == Min2(m.cap - m.n, n)
    IN IF n = 0 THEN m
       ELSE LET done(z) == [z EXCEPT !.f = Sub(z, z.f, n), !.l = Sub(z, z.l, n - cn), !.n = @ + cn]
                lo   == Sub(m, m.f, n)
            IN IF pos = At(m, 0)
               THEN LET r == FillFront(m, lo, xs, n - cn)
                    IN Then(Catch(r[1], LAMBDA z : DestroyBack(z, r[2], cn - r[3])), done)
               ELSE LET a == CopyDown(m, Slot(m, pos), m.f, lo)
                        b == IF Stop(a[1]) THEN a ELSE PutAll(a[1], a[2], xs)
                    IN Then(Catch(b[1], LAMBDA z : Undo(z, lo, b[2], TRUE)), done)

RECURSIVE MoveDownTo(_, _, _)
MoveDownTo(m, p, s) ==      \* erase: slots p, p+1, ... receive s, s+1, ... up to the end; <<machine, next slot>>
    IF Stop(m) \/ s = m.l THEN <<m, p>>
    ELSE LET t == AssignFrom(m, p, s) IN IF Stop(t) THEN <<t, p>> ELSE MoveDownTo(t, Inc(m, p), Inc(m, s))
RECURSIVE PopTo(_, _)
PopTo(m, p) == IF Stop(m) THEN m ELSE LET t == PopB(m) IN IF Stop(t) \/ t.l = p THEN t ELSE PopTo(t, p)
Back2End(m, p) == Ret(m, IF m.l = p THEN END ELSE p)
Erase1(m, pos) == Then(MoveDownTo(m, pos, Inc(m, pos))[1], LAMBDA t : Back2End(PopB(t), pos))
(* erasing one slot of a full buffer must not mistake the start for the end: the loops stop at the end marker *)
EraseN(m, a, b) ==
    IF a = b THEN Ret(m, a)
    ELSE LET r == IF b = END THEN <<m, a>> ELSE MoveDownTo(m, a, b)
         IN Then(r[1], LAMBDA t : Back2End(PopTo(t, r[2]), a))

RECURSIVE MoveUpTo(_, _, _)
MoveUpTo(m, p, s) ==        \* rerase: slots p-1, p-2, ... receive s-1, s-2, ... down to the first; <<machine, last slot written>>
    IF Stop(m) \/ s = m.f THEN <<m, p>>
    ELSE LET q == Dec(m, p) r == Dec(m, s) t == AssignFrom(m, q, r) IN IF Stop(t) THEN <<t, p>> ELSE MoveUpTo(t, q, r)
RECURSIVE PopFTo(_, _)
PopFTo(m, p) == IF Stop(m) THEN m ELSE LET t == PopF(m) IN IF Stop(t) \/ t.f = p THEN t ELSE PopFTo(t, p)
REraseN(m, a, b) ==
    IF a = b THEN Ret(m, a)
    ELSE LET q == Slot(m, b) r == MoveUpTo(m, q, a)
         IN Then(r[1], LAMBDA t : LET z == PopFTo(t, r[2]) IN IF Stop(z) THEN z ELSE Ret(z, IF z.f = q THEN At(z, 0) ELSE Dec(z, q)))
RErase1(m, pos) == REraseN(m, pos, IF Inc(m, pos) = m.l THEN END ELSE Inc(m, pos))

RECURSIVE DestroyN(_, _, _)
DestroyN(m, p, j) == IF j = 0 THEN m ELSE DestroyN(Destroy(m, p), Inc(m, p), j - 1)
Clear(m) == IF m.n = 0 THEN m ELSE [DestroyN(m, m.f, m.n) EXCEPT !.f = Add(m, m.f, m.n), !.n = 0]

RECURSIVE RotF(_, _)
RotF(m, j) == IF Stop(m) \/ j = 0 THEN m ELSE RotF(Then(PushBFrom(m, m.f), LAMBDA t : PopF(t)), j - 1)
RECURSIVE RotB(_, _)
RotB(m, j) == IF Stop(m) \/ j = 0 THEN m ELSE RotB(Then(PushFFrom(m, Dec(m, m.l)), LAMBDA t : PopB(t)), j - 1)
RotateTo(m, pos) == IF IsFull(m) THEN [m EXCEPT !.f = pos, !.l = pos]
                    ELSE LET j == Index(m, pos) IN IF m.n - j < j THEN RotB(m, m.n - j) ELSE RotF(m, j)

(* linearize: exchange elements in place, constructing in free slots; the elements end at the start of the storage *)
Exchange(m, a, b) ==        \* tmp = a; a = b; b = tmp, by moving or copying
    IF Stop(m) THEN m
    ELSE IF NT THEN [m EXCEPT !.mem = [@ EXCEPT ![a] = m.mem[b], ![b] = m.mem[a]]]
    ELSE LET t == Tick(m) u == IF Stop(t) THEN t ELSE Assign(t, a, m.mem[b]) IN Then(u, LAMBDA z : [z EXCEPT !.mem[b] = m.mem[a]])
          \* the last assignment moves from tmp: the model has types with non-throwing moves or copies, tmp is moved at no cost
RECURSIVE LinInner(_, _, _, _, _, _, _)
LinInner(m, src, dest, moved, built, first, ii) ==
    IF Stop(m) \/ src >= m.cap THEN <<m, src, dest, moved, built, first>>
    ELSE IF moved = m.n THEN <<m, src, dest, moved, built, dest>>
    ELSE IF dest = first THEN <<m, src, dest, moved, built, first + ii>>
    ELSE IF Uninit(m, dest)
         THEN LET t == ConstructFrom(m, dest, src) IN IF Stop(t) THEN <<t, src, dest, moved, built, first>>
              ELSE LinInner(t, src + 1, dest + 1, moved + 1, built + 1, first, ii + 1)
         ELSE LET t == Exchange(m, src, dest) IN IF Stop(t) THEN <<t, src, dest, moved, built, first>>
              ELSE LinInner(t, src + 1, dest + 1, moved + 1, built, first, ii + 1)
RECURSIVE LinOuter(_, _, _, _, _, _, _)
LinOuter(m, src, dest, moved, built, first, fuel) ==
    IF Stop(m) \/ dest >= src THEN <<m, built>>
    ELSE IF fuel = 0 THEN <<Bad(m, "linearize does not end"), built>>
    ELSE LET r == LinInner(m, src, dest, moved, built, first, 0)
         IN LinOuter(r[1], r[6], r[3], r[4], r[5], r[6], fuel - 1)
RECURSIVE DestroyRange(_, _, _)
DestroyRange(m, p, e) == IF p >= e \/ m.err # "" THEN m ELSE DestroyRange(Destroy(m, p), p + 1, e)
Linearize(m) ==
    IF m.n = 0 THEN [m EXCEPT !.ret = 0]
    ELSE IF m.f < m.l \/ m.l = 0 THEN [m EXCEPT !.ret = 1]
    ELSE LET r == LinOuter(m, m.f, 0, 0, 0, m.f, m.cap + 1)
             t == Catch(r[1], LAMBDA z : [z EXCEPT !.l = @ + r[2], !.n = @ + r[2]])
         IN Then(t, LAMBDA z : LET y == DestroyRange(z, z.cap - r[2], z.cap) IN [y EXCEPT !.f = 0, !.l = Add(y, 0, y.n), !.ret = 1])

(* new storage: the elements are copied or moved there in order; on a failure they are destroyed again *)
RECURSIVE Fresh(_, _, _)
Fresh(t, c, xs) ==          \* <<memory, steps left, failed>>
    IF xs = <<>> THEN <<t, c, FALSE>>
    ELSE IF c = 1 THEN <<t, 0, TRUE>> ELSE Fresh(Append(t, Head(xs)), IF c > 1 THEN c - 1 ELSE c, Tail(xs))
NewStorage(c, xs) == [i \in 0..c - 1 |-> IF i < Len(xs) THEN xs[i + 1] ELSE RAW]
Content(m) == [i \in 1..m.n |-> m.mem[Add(m, m.f, i - 1)]]
Moveto(m, c, xs, mayfail) ==    \* elements xs in new storage of c slots, then the old storage is given up
    LET a == IF c > 0 THEN Tick(m) ELSE m       \* allocation
        r == Fresh(<<>>, IF mayfail THEN a.k ELSE 0, xs)
    IN IF a.exc THEN a ELSE IF r[3] THEN [a EXCEPT !.exc = TRUE, !.k = 0]
       ELSE [m EXCEPT !.cap = c, !.mem = NewStorage(c, xs), !.f = 0, !.l = IF Len(xs) = c THEN 0 ELSE Len(xs), !.n = Len(xs), !.k = 0]
Capacity(m, c, rev) == IF c = m.cap THEN m ELSE Moveto(m, c, IF rev THEN LastN(c, Content(m)) ELSE FirstN(c, Content(m)), ~NT)
Resized(m, e) ==
    LET v == 0 rev == e.o = "rrsz" t == IF e.n > m.cap THEN Capacity(m, e.n, FALSE) ELSE m
    IN IF e.n > m.n THEN Then(t, LAMBDA z : IF rev THEN RInsertN(z, At(z, 0), Rep(e.n - z.n, e.w[1])) ELSE InsertN(z, At(z, z.n), Rep(e.n - z.n, e.w[1])))
       ELSE IF rev THEN REraseN(m, At(m, 0), At(m, m.n - e.n)) ELSE EraseN(m, At(m, e.n), END)
(* assign(capacity, ...): in place if the capacity stays, else in new storage *)
Assigned(m, c, xs) ==
    IF c = m.cap
    THEN LET z == IF m.n = 0 THEN m ELSE [DestroyN(m, m.f, m.n) EXCEPT !.f = Add(m, m.f, m.n)]
             r == Fresh(<<>>, z.k, xs)
         IN IF m.cap = 0 THEN m
            ELSE IF r[3] THEN [z EXCEPT !.exc = TRUE, !.n = 0, !.k = 0, !.l = z.l]
            ELSE [z EXCEPT !.mem = NewStorage(c, xs), !.f = 0, !.l = Add(m, 0, Len(xs)), !.n = Len(xs)]
    ELSE Moveto(m, c, xs, TRUE)

Exec(m, e) ==
    CASE e.o = "pb"   -> PushB(m, e.w[1])
      [] e.o = "pf"   -> PushF(m, e.w[1])
      [] e.o = "qb"   -> PopB(m)
      [] e.o = "qf"   -> PopF(m)
      [] e.o = "ins"  -> Insert1(m, At(m, e.p), e.w[1])
      [] e.o = "rin"  -> RInsert1(m, At(m, e.p), e.w[1])
      [] e.o = "insr" -> InsertN(m, At(m, e.p), e.w)
      [] e.o = "rinr" -> RInsertN(m, At(m, e.p), e.w)
      [] e.o = "era"  -> Erase1(m, At(m, e.p))
      [] e.o = "rer"  -> RErase1(m, At(m, e.p))
      [] e.o = "erar" -> EraseN(m, At(m, e.p), At(m, e.q))
      [] e.o = "rerr" -> REraseN(m, At(m, e.p), At(m, e.q))
      [] e.o = "clr"  -> Clear(m)
      [] e.o = "rot"  -> RotateTo(m, At(m, e.p))
      [] e.o = "lin"  -> Linearize(m)
      [] e.o = "cap"  -> Capacity(m, e.c, FALSE)
      [] e.o = "rcap" -> Capacity(m, e.c, TRUE)
      [] e.o \in {"rsz", "rrsz"} -> Resized(m, e)
      [] e.o = "asg"  -> Assigned(m, e.c, LastN(e.c, e.w))

(*---------------------------------------- the machine as a state machine ------------------------------------*)
Layout(c, f, n) == LET in(i) == (i - f + c) % c < n IN
    [cap |-> c, f |-> f, n |-> n, l |-> IF c = 0 THEN 0 ELSE (f + n) % c,
     mem |-> [i \in 0..c - 1 |-> IF in(i) THEN 11 + ((i - f + c) % c) ELSE RAW], exc |-> FALSE, err |-> "", k |-> 0, ret |-> ANY]
E0(o) == [o |-> o, x |-> 0, y |-> 0, k |-> 0, t |-> 0, p |-> 0, q |-> 0, n |-> 0, c |-> 0, m |-> 0, w |-> <<>>]
Seqs(n) == [j \in 1..n |-> 50 + j]
Calls(m) ==
    LET ns == 0..m.cap + MaxN ps == 0..m.n - 1 IN
    UNION {
      {[E0(o) EXCEPT !.w = <<51>>] : o \in {"pb", "pf"}},
      IF m.n > 0 THEN {E0(o) : o \in {"qb", "qf"}} ELSE {},
      {[E0(o) EXCEPT !.p = p, !.w = <<51>>] : o \in {"ins", "rin"}, p \in 0..m.n},
      {[E0(o) EXCEPT !.p = p, !.w = Seqs(n)] : o \in {"insr", "rinr"}, p \in 0..m.n, n \in ns},
      {[E0(o) EXCEPT !.p = p] : o \in {"era", "rer", "rot"}, p \in ps},
      {[E0(o) EXCEPT !.p = z[1], !.q = z[2]] : o \in {"erar", "rerr"}, z \in {u \in (0..m.n) \X (0..m.n) : u[1] <= u[2]}},
      {E0("clr"), E0("lin")},
      {[E0(o) EXCEPT !.c = c] : o \in {"cap", "rcap"}, c \in ns},
      {[E0(o) EXCEPT !.n = n, !.w = <<51>>] : o \in {"rsz", "rrsz"}, n \in ns},
      {[E0("asg") EXCEPT !.k = 5, !.c = c, !.w = Seqs(n)] : c \in ns, n \in ns}}

None == [o |-> "none"]
Init == /\ \E c \in Caps : \E n \in 0..c : \E f \in (IF c = 0 THEN {0} ELSE 0..c - 1) : st = Layout(c, f, n)
        /\ last = [e |-> None, pre |-> st]
Next == /\ last.e = None
        /\ \E e \in Calls(st) : \E k \in 0..MaxK :
              /\ last' = [e |-> e, pre |-> st]
              /\ st' = Exec([st EXCEPT !.k = k], e)
Spec == Init /\ [][Next]_vars

(*---------------------------------------- what is checked ---------------------------------------------------*)
In(m, i) == m.cap > 0 /\ (i - m.f + m.cap) % m.cap < m.n
Formed(m) == /\ m.n \in 0..m.cap
             /\ DOMAIN m.mem = 0..m.cap - 1
             /\ IF m.cap = 0 THEN m.f = 0 /\ m.l = 0
                ELSE m.f \in 0..m.cap - 1 /\ m.l = (m.f + m.n) % m.cap
             /\ \A i \in 0..m.cap - 1 : (m.mem[i] # RAW) <=> In(m, i)
Abs(m) == Buf(0, m.cap, 0, Content(m))
Called == last.e # None

NoError   == st.err = ""                     \* life cycle of every object
WellFormed == Formed(st)                     \* also after failures: the basic guarantee
Refines   == Called /\ ~st.exc => LET B0 == [x \in {0} |-> Abs(last.pre)] IN
                /\ Abs(st) = Effect(B0, last.e)[0]
                /\ Rets(B0, last.e) = {ANY} \/ st.ret = ANY \/ st.ret \in Rets(B0, last.e)
Basic     == Called /\ st.exc =>
                /\ Range_(Content(st)) \subseteq Range_(Content(last.pre)) \cup Range_(last.e.w) \cup {MVD}
                /\ ~NT => MVD \notin Range_(Content(st))
                /\ st.cap \in {last.pre.cap, Effect([x \in {0} |-> Abs(last.pre)], last.e)[0].cap}
StrongRule == Called /\ st.exc /\ last.e.o \in {"cap", "rcap", "pb", "pf"} =>
                /\ Abs(st) = Abs(last.pre) /\ st.f = last.pre.f /\ st.mem = last.pre.mem
(* the calls documented not to throw never execute a step that may fail *)
NoThrow   == Called /\ last.e.o \in {"qb", "qf", "clr"} => ~st.exc
NoThrowNT == Called /\ NT /\ last.e.o \in {"rot", "lin", "era", "rer", "erar", "rerr"} => ~st.exc
(* iterators: who survives stays in its slot *)
Stays     == Called /\ ~st.exc => LET b == Abs(last.pre) IN
                last.e.o \notin {"lin", "asg"} =>
                \A z \in Surv1(b, last.e) : Add(last.pre, last.pre.f, z[1]) = Add(st, st.f, z[2])
                                            /\ st.mem[Add(st, st.f, z[2])] = last.pre.mem[Add(last.pre, last.pre.f, z[1])]
==========================================================================================================
