----------------------------------------------- MODULE CBLaws -----------------------------------------------
(***************************************************************************************************************)
(* Validation of the specification CB itself: the effects of the calls are related to each other the way the   *)
(* documentation relates them.  TLC evaluates every law on every buffer and every call within the bounds.      *)
(***************************************************************************************************************)
EXTENDS CB, TLC

CONSTANTS Caps, MaxN, Alpha       \* capacities, counts beyond the capacity, contents over 1..Alpha (0: all different)

VARIABLES b, e
vars == <<b, e>>

E0(o) == [o |-> o, x |-> 0, y |-> 0, k |-> 0, t |-> 0, p |-> 0, q |-> 0, n |-> 0, c |-> 0, m |-> 0, w |-> <<>>]
Seqs(n) == [j \in 1..n |-> 50 + j]
Calls(a) ==
    LET sz == Len(a.v) ns == 0..a.cap + MaxN IN
    UNION {
      {[E0(o) EXCEPT !.w = <<51>>] : o \in {"pb", "pf"}},
      IF sz > 0 THEN {E0(o) : o \in {"qb", "qf"}} ELSE {},
      {[E0(o) EXCEPT !.p = p, !.w = <<51>>] : o \in {"ins", "rin"}, p \in 0..sz},
      {[E0(o) EXCEPT !.p = p, !.n = n, !.w = <<51>>] : o \in {"insn", "rinn"}, p \in 0..sz, n \in ns},
      {[E0(o) EXCEPT !.p = p, !.w = Seqs(n)] : o \in {"insr", "rinr"}, p \in 0..sz, n \in ns},
      {[E0(o) EXCEPT !.p = p] : o \in {"era", "rer", "rot"}, p \in 0..sz - 1},
      {[E0(o) EXCEPT !.p = z[1], !.q = z[2]] : o \in {"erar", "rerr"}, z \in {u \in (0..sz) \X (0..sz) : u[1] <= u[2]}},
      {[E0(o) EXCEPT !.n = n] : o \in {"erb", "ere"}, n \in 0..sz},
      {E0("clr"), E0("lin")},
      {[E0(o) EXCEPT !.c = c] : o \in {"cap", "rcap"}, c \in ns},
      {[E0(o) EXCEPT !.n = n, !.w = <<51>>] : o \in {"rsz", "rrsz"}, n \in ns}}
Init == /\ \E c \in Caps : \E n \in 0..c : \E v \in (IF Alpha = 0 THEN {[i \in 1..n |-> 10 + i]} ELSE [1..n -> 1..Alpha]) : b = Buf(7, c, 0, v)
        /\ e = E0("none")
Next == e.o = "none" /\ e' \in Calls(b) /\ UNCHANGED b
Spec == Init /\ [][Next]_vars

R   == Eff1(b, e)
N   == Len(b.v)
Is(o) == e.o = o
Call(a, o, p, w) == Eff1(a, [E0(o) EXCEPT !.p = p, !.w = w])
RetOf(a, o, p, w) == CHOOSE z \in Rets([x \in {0} |-> a], [E0(o) EXCEPT !.p = p, !.w = w]) : TRUE
(* mirror image *)
Rev(a)  == [a EXCEPT !.v = Reverse(@)]
Mir(z)  == CASE z.o = "pb" -> [z EXCEPT !.o = "pf"] [] z.o = "pf" -> [z EXCEPT !.o = "pb"]
             [] z.o = "qb" -> [z EXCEPT !.o = "qf"] [] z.o = "qf" -> [z EXCEPT !.o = "qb"]
             [] z.o = "ins" -> [z EXCEPT !.o = "rin", !.p = N - @] [] z.o = "rin" -> [z EXCEPT !.o = "ins", !.p = N - @]
             [] z.o = "insn" -> [z EXCEPT !.o = "rinn", !.p = N - @] [] z.o = "rinn" -> [z EXCEPT !.o = "insn", !.p = N - @]
             [] z.o = "insr" -> [z EXCEPT !.o = "rinr", !.p = N - @, !.w = Reverse(@)] [] z.o = "rinr" -> [z EXCEPT !.o = "insr", !.p = N - @, !.w = Reverse(@)]
             [] z.o = "era" -> [z EXCEPT !.o = "rer", !.p = N - 1 - @] [] z.o = "rer" -> [z EXCEPT !.o = "era", !.p = N - 1 - @]
             [] z.o = "erar" -> [z EXCEPT !.o = "rerr", !.p = N - z.q, !.q = N - z.p] [] z.o = "rerr" -> [z EXCEPT !.o = "erar", !.p = N - z.q, !.q = N - z.p]
             [] z.o = "erb" -> [z EXCEPT !.o = "ere"] [] z.o = "ere" -> [z EXCEPT !.o = "erb"]
             [] z.o = "cap" -> [z EXCEPT !.o = "rcap"] [] z.o = "rcap" -> [z EXCEPT !.o = "cap"]
             [] z.o = "rsz" -> [z EXCEPT !.o = "rrsz"] [] z.o = "rrsz" -> [z EXCEPT !.o = "rsz"]
             [] OTHER -> z

(* every call keeps within the capacity *)
Bounded == e.o # "none" => Len(R.v) <= R.cap
(* the calls at the back and at the front are mirror images of each other *)
Mirror == e.o \notin {"none", "rot"} => Rev(Eff1(Rev(b), Mir(e))) = R
(* ... and so is the validity of iterators *)
MirrorSurv == e.o \notin {"none", "rot"} =>
    LET M == Surv1(Rev(b), Mir(e)) n2 == Len(R.v) IN Surv1(b, e) = {<<N - 1 - z[1], n2 - 1 - z[2]>> : z \in M}
(* inserting a range is inserting its elements one after the other *)
RECURSIVE OneByOne(_, _, _)
OneByOne(a, p, xs) == IF xs = <<>> THEN a
    ELSE IF Full(a) /\ p = 0 THEN a ELSE OneByOne(Call(a, "ins", p, <<Head(xs)>>), RetOf(a, "ins", p, <<Head(xs)>>) + 1, Tail(xs))
RECURSIVE ROneByOne(_, _, _)
ROneByOne(a, p, xs) == IF xs = <<>> THEN a
    ELSE IF Full(a) /\ p = Len(a.v) THEN a ELSE ROneByOne(Call(a, "rin", p, <<Head(xs)>>), RetOf(a, "rin", p, <<Head(xs)>>) + 1, Tail(xs))
Single == /\ Is("insr") => R = OneByOne(b, e.p, e.w)
          /\ Is("rinr") => R = ROneByOne(b, e.p, e.w)
          /\ Is("insn") => R = Eff1(b, [e EXCEPT !.o = "insr", !.w = Rep(e.n, 51)])
          /\ Is("rinn") => R = Eff1(b, [e EXCEPT !.o = "rinr", !.w = Rep(e.n, 51)])
          /\ Is("pb") => R = Call(b, "ins", N, <<51>>) \/ b.cap = 0
          /\ Is("pf") => R = Call(b, "rin", 0, <<51>>) \/ b.cap = 0
(* erasing a range is erasing its elements one after the other; both directions leave the same contents *)
RECURSIVE EraseK(_, _, _)
EraseK(a, p, n) == IF n = 0 THEN a ELSE EraseK(Call(a, "era", p, <<>>), p, n - 1)
Erasing == /\ Is("erar") => R = EraseK(b, e.p, e.q - e.p) /\ R = Eff1(b, [e EXCEPT !.o = "rerr"])
           /\ Is("erb") => R = Eff1(b, [e EXCEPT !.o = "rerr", !.p = 0, !.q = e.n])
           /\ Is("ere") => R = Eff1(b, [e EXCEPT !.o = "erar", !.p = N - e.n, !.q = N])
           /\ Is("qb") => R = Call(b, "era", N - 1, <<>>)
           /\ Is("qf") => R = Call(b, "era", 0, <<>>)
           /\ Is("clr") => R = Eff1(b, [e EXCEPT !.o = "erar", !.p = 0, !.q = N])
(* rotating by p and then by q is rotating by p + q *)
Rotation == Is("rot") => /\ \A q \in 0..N - 1 : Rotate(R, q) = Rotate(b, (e.p + q) % N)
                         /\ R.v[1] = b.v[e.p + 1] /\ Len(R.v) = N
(* a capacity is taken for good, elements beyond it are lost; resizing to a smaller size and setting a capacity agree *)
Sizes == /\ Is("cap") => R.cap = e.c /\ \A d \in Caps : d <= e.c => SetCap(R, d, 0) = SetCap(b, d, 0)
         /\ Is("rsz") => Len(R.v) = e.n /\ R.cap = Max2(b.cap, e.n) /\ IsPrefix(FirstN(e.n, b.v), R.v)
         /\ Is("rrsz") => Len(R.v) = e.n /\ R.cap = Max2(b.cap, e.n)
         /\ Is("rsz") /\ e.n <= N => R.v = SetCap(b, e.n, 0).v
(* iterator validity: one position each, the same element *)
Validity == e.o # "none" => LET S == Surv1(b, e) IN
    /\ \A z \in S : z[1] \in 0..N - 1 /\ z[2] \in 0..Len(R.v) - 1 /\ R.v[z[2] + 1] = b.v[z[1] + 1]
    /\ \A y, z \in S : (y[1] = z[1]) <=> (y[2] = z[2])
    /\ NoOp(b, e) /\ e.o # "rot" => R = b /\ S = Ident(N)
(* comparison is a total order on the contents, of which == is the equality *)
Order == e.o # "none" => LET r == CmpRes(FALSE, b.v, R.v) s == CmpRes(FALSE, R.v, b.v) IN
    /\ r[1] + r[3] + r[5] = 1
    /\ r[2] = 1 - r[1] /\ r[4] = 1 - r[5] /\ r[6] = 1 - r[3]
    /\ r[3] = s[5] /\ r[5] = s[3] /\ (r[1] = 1 <=> b.v = R.v)
==========================================================================================================
