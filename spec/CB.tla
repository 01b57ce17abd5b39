------------------------------------------------ MODULE CB ------------------------------------------------
(***************************************************************************************************************)
(* The observable behaviour of boost::circular_buffer and boost::circular_buffer_space_optimized.              *)
(*                                                                                                             *)
(* A buffer is a record [al, cap, min, v]: allocator instance, capacity, minimum capacity (space optimized      *)
(* buffers only, else 0) and the stored sequence.  A system state is a function from buffer names to buffers.  *)
(* Every public call is described by a uniform record                                                          *)
(*    o  operation      x  target buffer     y  other buffer     k  variant    t  iterator category            *)
(*    p, q  positions (from 0)    n  count   c  new capacity     m  1000 * allocator + new minimum capacity     *)
(*    w  item values                                                                                           *)
(* Effect(B, e) is the state after a call that completes, Rets(B, e) the admissible results.                   *)
(***************************************************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

CONSTANTS SO,         \* TRUE: the buffers are space optimized
          MAXSZ       \* max_size(): what the allocator allows, if differences can express it

ANY     == -1         \* "unspecified" capacity/allocator (moved-from buffers)

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
FirstN(n, s) == IF n >= Len(s) THEN s ELSE SubSeq(s, 1, n)
LastN(n, s)  == IF n >= Len(s) THEN s ELSE SubSeq(s, Len(s) - n + 1, Len(s))
Rep(n, x)    == [i \in 1..n |-> x]
Pre(s, p)    == SubSeq(s, 1, p)              \* the first p elements
Post(s, p)   == SubSeq(s, p + 1, Len(s))     \* everything from position p (from 0) on
Range_(s)    == {s[i] : i \in DOMAIN s}

Full(b)  == Len(b.v) = b.cap
Huge(n)  == n < 0                              \* the harness codes counts close to the largest size_type as n < 0
Cnt(b, n) == IF Huge(n) THEN b.cap + Len(b.v) + 1 ELSE n   \* more items than the capacity can never be told apart

NewAl(e)  == e.m \div 1000
NewMin(e) == IF SO THEN e.m % 1000 ELSE 0

(*---------------------------------------- arguments -----------------------------------------*)
Item(b, e) == CASE e.k = 2 -> 0                           \* default constructed
                [] e.k = 3 /\ e.o \in {"pb", "pf"} -> b.v[e.p + 1]   \* a reference to an element of the buffer itself
                [] OTHER   -> e.w[1]
Items(e)   == IF e.t = 6 THEN Rep(e.n, e.w[1]) ELSE e.w   \* t = 6: a pair of integers means count and value

(*---------------------------------------- elementary effects --------------------------------*)
PushBack(b, x)  == [b EXCEPT !.v = LastN(b.cap, Append(@, x))]
PushFront(b, x) == [b EXCEPT !.v = FirstN(b.cap, <<x>> \o @)]
PopBack(b)      == [b EXCEPT !.v = FirstN(Len(@) - 1, @)]
PopFront(b)     == [b EXCEPT !.v = LastN(Len(@) - 1, @)]
InsertSeq(b, p, xs)  == [b EXCEPT !.v = LastN(b.cap, Pre(@, p) \o xs \o Post(@, p))]
RInsertSeq(b, p, xs) == [b EXCEPT !.v = FirstN(b.cap, Pre(@, p) \o xs \o Post(@, p))]
EraseRange(b, p, q)  == [b EXCEPT !.v = Pre(@, p) \o Post(@, q)]
Rotate(b, p)         == [b EXCEPT !.v = Post(@, p) \o Pre(@, p)]
SetCap(b, c, mn)     == [b EXCEPT !.cap = c, !.min = mn, !.v = FirstN(c, @)]
RSetCap(b, c, mn)    == [b EXCEPT !.cap = c, !.min = mn, !.v = LastN(c, @)]
Resize(b, n, x)      == IF n > Len(b.v) THEN [b EXCEPT !.cap = Max2(@, n), !.v = @ \o Rep(n - Len(b.v), x)]
                        ELSE [b EXCEPT !.v = FirstN(n, @)]
RResize(b, n, x)     == IF n > Len(b.v) THEN [b EXCEPT !.cap = Max2(@, n), !.v = Rep(n - Len(b.v), x) \o @]
                        ELSE [b EXCEPT !.v = LastN(n, @)]
Buf(al, c, mn, v)    == [al |-> al, cap |-> c, min |-> mn, v |-> v]
MovedFrom            == Buf(ANY, ANY, ANY, <<>>)

(* contents established by constructors (al given) and by assign (al kept) *)
Built(e, al) ==
    CASE e.k = 0 -> Buf(al, 0, 0, <<>>)
      [] e.k = 1 -> Buf(al, e.c, NewMin(e), <<>>)
      [] e.k = 2 -> Buf(al, e.n, 0, Rep(e.n, e.w[1]))
      [] e.k = 3 -> Buf(al, e.c, NewMin(e), Rep(e.n, e.w[1]))
      [] e.k = 4 -> Buf(al, Len(Items(e)), 0, Items(e))
      [] e.k = 5 -> Buf(al, e.c, NewMin(e), LastN(e.c, Items(e)))
      [] e.k = 8 -> Buf(al, e.c, NewMin(e), Rep(e.c, e.w[1]))

Put(B, i, b) == [j \in DOMAIN B \cup {i} |-> IF j = i THEN b ELSE B[j]]
Del(B, i)    == [j \in DOMAIN B \ {i} |-> B[j]]

(* the effect on the target buffer alone *)
Eff1(b, e) ==
    CASE e.o = "pb"   -> PushBack(b, Item(b, e))
      [] e.o = "pf"   -> PushFront(b, Item(b, e))
      [] e.o = "qb"   -> PopBack(b)
      [] e.o = "qf"   -> PopFront(b)
      [] e.o = "ins"  -> InsertSeq(b, e.p, <<Item(b, e)>>)
      [] e.o = "rin"  -> RInsertSeq(b, e.p, <<Item(b, e)>>)
      [] e.o = "insn" -> InsertSeq(b, e.p, Rep(Cnt(b, e.n), e.w[1]))
      [] e.o = "rinn" -> RInsertSeq(b, e.p, Rep(Cnt(b, e.n), e.w[1]))
      [] e.o = "insr" -> InsertSeq(b, e.p, Items(e))
      [] e.o = "rinr" -> RInsertSeq(b, e.p, Items(e))
      [] e.o \in {"era", "rer"}   -> EraseRange(b, e.p, e.p + 1)
      [] e.o \in {"erar", "rerr"} -> EraseRange(b, e.p, e.q)
      [] e.o = "erb"  -> EraseRange(b, 0, e.n)
      [] e.o = "ere"  -> EraseRange(b, Len(b.v) - e.n, Len(b.v))
      [] e.o = "clr"  -> [b EXCEPT !.v = <<>>]
      [] e.o = "rot"  -> Rotate(b, e.p)
      [] e.o = "cap"  -> SetCap(b, e.c, NewMin(e))
      [] e.o = "rcap" -> RSetCap(b, e.c, NewMin(e))
      [] e.o = "rsz"  -> Resize(b, e.n, Item(b, e))
      [] e.o = "rrsz" -> RResize(b, e.n, Item(b, e))
      [] e.o = "wr"   -> [b EXCEPT !.v[e.p + 1] = e.w[1]]
      [] OTHER        -> b         \* lin, at, cmp, que, obs, itm, ro, trt: contents unchanged

Effect(B, e) ==
    CASE e.o = "new" /\ e.k = 6 -> Put(B, e.x, B[e.y])
      [] e.o = "new" /\ e.k = 7 -> Put(Put(B, e.x, B[e.y]), e.y, MovedFrom)
      [] e.o = "new"            -> Put(B, e.x, Built(e, NewAl(e)))
      [] e.o = "del"            -> Del(B, e.x)
      [] e.o = "asg" /\ e.k = 0 -> Put(B, e.x, [B[e.y] EXCEPT !.al = B[e.x].al])
      [] e.o = "asg" /\ e.k = 1 -> Put(Put(B, e.x, B[e.y]), e.y, MovedFrom)
      [] e.o = "asg"            -> Put(B, e.x, Built(e, B[e.x].al))
      [] e.o = "swp"            -> [B EXCEPT ![e.x] = B[e.y], ![e.y] = B[e.x]]
      [] OTHER                  -> Put(B, e.x, Eff1(B[e.x], e))

(*---------------------------------------- results -------------------------------------------*)
(* comparison: with PO the elements are only partially ordered (3 is unequal to, and unordered with, everything) *)
EEq(PO, a, b) == a = b /\ ~(PO /\ a = 3)
ELt(PO, a, b) == a < b /\ ~(PO /\ 3 \in {a, b})
RECURSIVE LexLess(_, _, _)
LexLess(PO, a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
                     ELSE IF ELt(PO, a[1], b[1]) THEN TRUE ELSE IF ELt(PO, b[1], a[1]) THEN FALSE ELSE LexLess(PO, Tail(a), Tail(b))
SeqEq(PO, a, b) == Len(a) = Len(b) /\ \A j \in 1..Len(a) : EEq(PO, a[j], b[j])
B2I(x) == IF x THEN 1 ELSE 0
CmpRes(PO, a, b) == <<B2I(SeqEq(PO, a, b)), B2I(~SeqEq(PO, a, b)), B2I(LexLess(PO, a, b)), B2I(~LexLess(PO, b, a)),
                      B2I(LexLess(PO, b, a)), B2I(~LexLess(PO, a, b))>>

(* the admissible returned positions (ANY result when the set is {ANY}) *)
Rets(B, e) ==
    LET b == B[e.x] sz == Len(b.v)
    IN CASE e.o = "ins"  -> {IF Full(b) THEN Max2(e.p - 1, 0) ELSE e.p}
         [] e.o = "rin"  -> {e.p}     \* full and p = size: end(), i.e. size again
         [] e.o \in {"era", "erar"} -> {e.p}
         [] e.o = "rer"  -> {Max2(e.p - 1, 0)}
         [] e.o = "rerr" -> IF e.p = e.q THEN {e.p, Max2(e.p - 1, 0)} ELSE {Max2(e.p - 1, 0)}
         [] e.o = "lin"  -> {IF sz = 0 THEN 0 ELSE 1}
         [] e.o = "at"   -> {b.v[e.p + 1]}
         [] e.o = "asg" /\ e.k \in {0, 1} -> {1}
         [] OTHER -> {ANY}

(*---------------------------------------- documented exceptions -----------------------------*)
(* without failures injected, only these calls raise: *)
OutOfRange(B, e) == e.o = "at" /\ (e.p < 0 \/ e.p >= Len(B[e.x].v))
(* a size or capacity no storage can have *)
Wanted(B, e) ==   \* the amount of storage the call asks for explicitly
    CASE e.o \in {"cap", "rcap"} -> IF SO THEN NewMin(e) ELSE e.c
      [] e.o \in {"rsz", "rrsz"} -> IF Huge(e.n) THEN MAXSZ + 1 ELSE e.n
      [] e.o \in {"new", "asg"} /\ e.k = 1 /\ e.o = "new" -> IF SO THEN NewMin(e) ELSE e.c
      [] e.o \in {"new", "asg"} /\ e.k = 2 -> IF Huge(e.n) THEN MAXSZ + 1 ELSE e.n
      [] e.o \in {"new", "asg"} /\ e.k = 3 -> IF SO THEN Max2(NewMin(e), e.n) ELSE e.c
      [] e.o \in {"new", "asg"} /\ e.k = 4 -> Len(Items(e))
      [] e.o \in {"new", "asg"} /\ e.k = 5 -> IF SO THEN Max2(NewMin(e), Min2(e.c, Len(Items(e)))) ELSE e.c
      [] e.o = "new" /\ e.k = 8 -> e.c
      [] OTHER -> 0
MustLength(B, e) == Wanted(B, e) > MAXSZ
MayLength(B, e)  == MustLength(B, e) \/ (e.o \in {"new", "asg"} /\ e.k \in {3, 5} /\ e.c > MAXSZ)

(*---------------------------------------- iterator validity ---------------------------------*)
(* Surv(B, e): the pairs <<i, j>> such that an iterator at position i of the target before the call is still   *)
(* valid after it, at position j, according to the documentation of circular_buffer ("Iterator Invalidation"). *)
Ident(n)      == {<<i, i>> : i \in 0..n - 1}
Shift(l, h, d) == {<<i, i + d>> : i \in l..h - 1}
Inserted(b, p, n)  == Min2(n, b.cap - (Len(b.v) - p))           \* how many of n items insert really stores
RInserted(b, p, n) == Min2(n, b.cap - p)
InsSurv(b, p, n) ==
    LET k == Inserted(b, p, n) d == Max2(0, Len(b.v) + k - b.cap)   \* d elements at the front are overwritten
    IN IF k <= 0 THEN Ident(Len(b.v)) ELSE Shift(Min2(d, p), p, -d)
RInsSurv(b, p, n) ==
    LET k == RInserted(b, p, n) sz == Len(b.v) d == Max2(0, sz + k - b.cap)  \* d elements at the back are overwritten
    IN IF k <= 0 THEN Ident(sz) ELSE Shift(p, sz - d, k)
Surv1(b, e) ==
    LET sz == Len(b.v) full == Full(b)
    IN CASE e.o = "pb" -> IF full /\ sz > 0 THEN Shift(1, sz, -1) ELSE Ident(sz)
         [] e.o = "pf" -> IF full /\ sz > 0 THEN Shift(0, sz - 1, 1) ELSE IF full THEN {} ELSE Shift(0, sz, 1)
         [] e.o = "qb" -> Ident(sz - 1)
         [] e.o = "qf" -> Shift(1, sz, -1)
         [] e.o = "ins"  -> InsSurv(b, e.p, 1)
         [] e.o = "insn" -> InsSurv(b, e.p, Cnt(b, e.n))
         [] e.o = "insr" -> InsSurv(b, e.p, Len(Items(e)))
         [] e.o = "rin"  -> RInsSurv(b, e.p, 1)
         [] e.o = "rinn" -> RInsSurv(b, e.p, Cnt(b, e.n))
         [] e.o = "rinr" -> RInsSurv(b, e.p, Len(Items(e)))
         [] e.o = "era"  -> Ident(e.p)
         [] e.o = "erar" -> IF e.p = e.q THEN Ident(sz) ELSE Ident(e.p)
         [] e.o = "rer"  -> Shift(e.p + 1, sz, -1)
         [] e.o = "rerr" -> IF e.p = e.q THEN Ident(sz) ELSE Shift(e.q, sz, -(e.q - e.p))
         [] e.o = "erb"  -> Shift(e.n, sz, -e.n)
         [] e.o = "ere"  -> Ident(sz - e.n)
         [] e.o = "clr"  -> {}
         [] e.o = "rot"  -> LET n == e.p m == sz - e.p
                            IN IF full THEN {<<i, (i + m) % sz>> : i \in 0..sz - 1}
                               ELSE IF n = 0 THEN Ident(sz)
                               ELSE IF m < n THEN Shift(0, n, m) ELSE Shift(n, sz, -n)
         [] e.o \in {"cap", "rcap"} -> IF e.c = b.cap THEN Ident(sz) ELSE {}
         [] e.o = "rsz"  -> IF e.n > b.cap THEN {} ELSE Ident(Min2(sz, e.n))
         [] e.o = "rrsz" -> IF e.n > b.cap THEN {} ELSE IF e.n >= sz THEN Shift(0, sz, e.n - sz) ELSE Shift(sz - e.n, sz, -(sz - e.n))
         [] e.o \in {"at", "cmp", "que", "wr", "itm", "ro", "obs"} -> Ident(sz)
         [] e.o = "asg" /\ e.k = 0 /\ e.x = e.y -> Ident(sz)
         [] OTHER -> {}

(* "the iterators stay valid because nothing had to be done" *)
NoOp(b, e) ==
    LET sz == Len(b.v)
    IN \/ e.o \in {"at", "cmp", "que", "wr", "itm", "ro", "obs"}
       \/ e.o \in {"pb", "pf"} /\ b.cap = 0
       \/ e.o = "ins" /\ Full(b) /\ e.p = 0
       \/ e.o = "rin" /\ Full(b) /\ e.p = sz
       \/ e.o = "insn" /\ Inserted(b, e.p, Cnt(b, e.n)) = 0
       \/ e.o = "rinn" /\ RInserted(b, e.p, Cnt(b, e.n)) = 0
       \/ e.o = "insr" /\ Inserted(b, e.p, Len(Items(e))) = 0
       \/ e.o = "rinr" /\ RInserted(b, e.p, Len(Items(e))) = 0
       \/ e.o \in {"erar", "rerr"} /\ e.p = e.q
       \/ e.o \in {"erb", "ere"} /\ e.n = 0
       \/ e.o \in {"cap", "rcap"} /\ e.c = b.cap
       \/ e.o = "asg" /\ e.k = 0 /\ e.x = e.y
       \/ e.o \in {"rsz", "rrsz"} /\ e.n = sz
       \/ e.o = "rot" /\ (Full(b) \/ e.p = 0)

(* operations on circular_buffer_space_optimized that are inherited unchanged *)
Inherited == {"lin", "rot", "at", "cmp", "que", "wr"}
==========================================================================================================
