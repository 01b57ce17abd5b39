----------------------------------------------- MODULE CBSys -----------------------------------------------
(***************************************************************************************************************)
(* The system: up to three circular buffers and every public call on them, as a state machine over CB!Effect.  *)
(*                                                                                                             *)
(* It is used in two ways.  TLC checks the invariants and action properties below on it (the specification is  *)
(* consistent, and the space optimized buffer refines the plain one).  And its behaviours are the test plans:  *)
(* the history variable plan records the behaviour as the calls to be made on the real code; it is printed when the   *)
(* behaviour is complete; exhaustively (breadth first) over all layouts and arguments within the constants, or *)
(* at random (tlc -simulate) for long histories.                                                               *)
(***************************************************************************************************************)
EXTENDS CB, TLC

CONSTANTS Sim,     \* random mode: arguments are drawn, not enumerated
          Ops,     \* the operations in use
          Ks,      \* variants of pb, pf, ins, rin, rsz, rrsz
          Ts,      \* iterator categories
          Ns,      \* counts
          Ls,      \* lengths of ranges
          Cs,      \* new capacities
          Ms,      \* minimum capacities (space optimized) and arenas, m = 1000 * arena + minimum
          NKs,     \* kinds of construction
          AKs,     \* kinds of assignment
          Caps,    \* initial capacities of buffer 0
          Caps1,   \* initial capacities of the other buffers
          Mins,    \* initial minimum capacities
          Peak,    \* also start from layouts that had been full
          NB,      \* number of buffers created at the start
          NX,      \* number of buffer names (targets of new)
          Targets, \* buffers calls are made on
          Small,   \* ranges up to this size are enumerated, beyond it only characteristic points are taken
          Alpha,   \* 0: all items are different; n > 0: contents are arbitrary over 1..n
          Depth,   \* number of calls
          Flags,   \* 1: sweep over all failures
          Epi,     \* calls appended to every plan
          Emitting,
          MKs,     \* misuse kinds
          Lead,    \* the operations in use before the last call ({}: the same)
          IntRange \* a pair of integers is usable with constructors and assign (element type int)

VARIABLES B, plan, len
vars == <<B, plan, len>>

Pts(n)  == IF n <= Small THEN 0..n ELSE {0, 1, n \div 3, n \div 2, n - 1, n}
Idx(n)  == {p \in Pts(n) : p < n}
Fresh(k) == 500 + 10 * len + k
S(n)    == ToString(n)
Join(s) == FoldLeft(LAMBDA acc, z : acc \o " " \o S(z), "", s)
Enc(f, e) == " " \o f \o " " \o e.o \o Join(<<e.x, e.y, e.k, e.t, e.p, e.q, e.n, e.c, e.m, Len(e.w)>> \o e.w)

E0(o, x) == [o |-> o, x |-> x, y |-> 0, k |-> 0, t |-> 0, p |-> 0, q |-> 0, n |-> 0, c |-> 0, m |-> 0, w |-> <<>>]
Seqs(n)  == IF Alpha = 0 THEN {[j \in 1..n |-> Fresh(j)]} ELSE [1..n -> 1..Alpha]
It(e)    == {[e EXCEPT !.w = s] : s \in IF e.k = 2 /\ e.o \notin {"new", "asg"} THEN {<<0>>} ELSE Seqs(1)}
RS(U) == IF Sim THEN {RandomElement(U)} ELSE U
(* in random mode the sizes are also drawn relative to the buffer and to a capacity given in the call *)
Fit(U)   == {z \in U : 0 <= z /\ z <= 300}
RelTo(e) == IF ~Sim THEN {}
            ELSE Fit((IF e.x \in DOMAIN B THEN LET b == B[e.x] sz == Len(b.v) IN {b.cap - sz - 1, b.cap - sz, b.cap - sz + 1, b.cap - 1, b.cap, b.cap + 1, 2 * b.cap, sz, sz + 1} ELSE {})
                     \cup (IF e.c > 0 THEN {e.c - 1, e.c, e.c + 1, 2 * e.c, 2 * e.c + 1} ELSE {}))
OneOf(U, W) == IF ~Sim THEN U ELSE {IF W = {} \/ RandomElement({TRUE, FALSE}) THEN RandomElement(U) ELSE RandomElement(W)}
Lens(e)  == OneOf(Ls, RelTo(e))
Ranges(e) == UNION {IF tt = 6 THEN {[e EXCEPT !.t = 6, !.n = l, !.w = <<Fresh(1)>>] : l \in Lens(e)}
                    ELSE UNION {{[e EXCEPT !.t = tt, !.w = s] : s \in Seqs(l)} : l \in Lens(e)} : tt \in RS(Ts)}
Unions(U) == UNION U

Pick(U)  == IF Sim /\ U # {} THEN {RandomElement(U)} ELSE U
Pick2(U) == IF Sim THEN {RandomElement(U) : z \in 1..6} ELSE U
Cnts     == {IF z > 9000 THEN -(z - 9000) ELSE z : z \in Ns}    \* 9001.. stand for the huge counts
NsOf(e)  == OneOf(Cnts, RelTo(e))
CsOf(e)  == OneOf(Cs, Fit(IF Sim /\ e.x \in DOMAIN B THEN LET b == B[e.x] sz == Len(b.v) IN {sz - 1, sz, sz + 1, b.cap - 1, b.cap, b.cap + 1, b.cap \div 2, 2 * b.cap} ELSE {}))
PMs      == Pick(Ms)
PKs      == Ks
PNKs     == Pick(NKs)
PAKs     == Pick(AKs)
PPts(n)  == IF Sim THEN {RandomElement(0..n)} ELSE Pts(n)
PIdx(n)  == IF n = 0 THEN {} ELSE IF Sim THEN {RandomElement(0..n - 1)} ELSE Idx(n)

Args(o, x) ==
    LET b == B[x] sz == Len(b.v) e == E0(o, x) live == x \in DOMAIN B PCs == CsOf(e) PNs == NsOf(e)
        PNs3 == IF Sim THEN UNION {NsOf([e EXCEPT !.c = cc]) : cc \in PCs} ELSE Cnts IN
    IF ~live /\ o # "new" THEN {}
    ELSE CASE o \in {"pb", "pf"} -> Unions({It([e EXCEPT !.k = kk]) : kk \in PKs \ {3}})
                                    \cup (IF 3 \in PKs THEN {[e EXCEPT !.k = 3, !.p = pp, !.w = <<0>>] : pp \in PIdx(sz)} ELSE {})
           [] o \in {"qb", "qf"} -> IF sz > 0 THEN {e} ELSE {}
           [] o \in {"ins", "rin"} -> Unions({It([e EXCEPT !.k = kk, !.p = pp]) : kk \in PKs \ {3}, pp \in PPts(sz)})
           [] o \in {"insn", "rinn"} -> Unions({It([e EXCEPT !.n = nn, !.p = pp]) : nn \in PNs, pp \in PPts(sz)})
           [] o \in {"insr", "rinr"} -> Unions({Ranges([e EXCEPT !.p = pp]) : pp \in PPts(sz)})
           [] o \in {"era", "rer", "rot"} -> {[e EXCEPT !.p = pp] : pp \in PIdx(sz)}
           [] o \in {"erar", "rerr"} -> {[e EXCEPT !.p = z[1], !.q = z[2]] : z \in {u \in Pick2(Pts(sz) \X Pts(sz)) : u[1] <= u[2]}}
           [] o \in {"erb", "ere"} -> IF SO THEN {} ELSE {[e EXCEPT !.n = nn] : nn \in PPts(sz)}
           [] o \in {"clr", "lin", "que", "itm", "ro", "trt", "del"} -> {e}
           [] o = "at" -> {[e EXCEPT !.p = pp, !.k = kk] : pp \in PPts(sz) \cup {-1, sz + 1, b.cap}, kk \in {0, 1}}
           [] o = "wr" -> Unions({It([e EXCEPT !.k = kk, !.p = pp]) : kk \in {0, 1, 4, 5, 6, 7} \cup {2, 3}, pp \in PIdx(sz)})
           [] o \in {"cap", "rcap"} -> IF SO THEN {[e EXCEPT !.c = cc, !.m = mm] : cc \in PCs, mm \in {z % 1000 : z \in PMs}} \cap {z \in {[e EXCEPT !.c = cc, !.m = mm] : cc \in PCs, mm \in {y % 1000 : y \in PMs}} : z.m <= z.c}
                                       ELSE {[e EXCEPT !.c = cc] : cc \in PCs}
           [] o \in {"rsz", "rrsz"} -> Unions({It([e EXCEPT !.n = nn, !.k = kk]) : nn \in PNs, kk \in PKs \cap {0, 2}})
           [] o = "cmp" -> {[e EXCEPT !.y = yy] : yy \in DOMAIN B}
           [] o = "swp" -> {[e EXCEPT !.y = yy, !.k = kk] : yy \in DOMAIN B, kk \in {0, 1}}
           [] o = "asg" -> Unions({CASE kk = 0 -> {[e EXCEPT !.k = 0, !.y = yy] : yy \in DOMAIN B}
                                     [] kk = 1 -> {[e EXCEPT !.k = 1, !.y = yy] : yy \in DOMAIN B \ {x}}
                                     [] kk = 2 -> Unions({It([e EXCEPT !.k = 2, !.n = nn]) : nn \in PNs})
                                     [] kk = 3 -> Unions({It([e EXCEPT !.k = 3, !.n = nn, !.c = cc, !.m = mm]) :
                                                     nn \in {z \in PNs3 : z >= 0}, cc \in PCs, mm \in {z % 1000 : z \in PMs}})
                                     [] kk = 4 -> Ranges([e EXCEPT !.k = 4])
                                     [] kk = 5 -> Unions({Ranges([e EXCEPT !.k = 5, !.c = cc, !.m = mm]) : cc \in PCs, mm \in {z % 1000 : z \in PMs}})
                                     [] OTHER -> {} : kk \in PAKs})
           [] o = "new" -> IF live THEN {} ELSE
                           Unions({CASE kk = 0 -> {[e EXCEPT !.m = mm - (mm % 1000)] : mm \in PMs}
                                     [] kk = 1 -> {[e EXCEPT !.k = 1, !.c = cc, !.m = mm] : cc \in PCs, mm \in PMs}
                                     [] kk = 2 -> Unions({It([e EXCEPT !.k = 2, !.n = nn, !.m = mm - (mm % 1000)]) : nn \in PNs, mm \in PMs})
                                     [] kk = 3 -> Unions({It([e EXCEPT !.k = 3, !.n = nn, !.c = cc, !.m = mm]) :
                                                     nn \in {z \in PNs3 : z >= 0}, cc \in PCs, mm \in PMs})
                                     [] kk = 4 -> Unions({Ranges([e EXCEPT !.k = 4, !.m = mm - (mm % 1000)]) : mm \in PMs})
                                     [] kk = 5 -> Unions({Ranges([e EXCEPT !.k = 5, !.c = cc, !.m = mm]) : cc \in PCs, mm \in PMs})
                                     [] kk \in {6, 7} -> {[e EXCEPT !.k = kk, !.y = yy] : yy \in DOMAIN B}
                                     [] kk = 8 -> IF ~SO THEN {} ELSE Unions({It([e EXCEPT !.k = 8, !.c = cc, !.m = mm]) : cc \in PCs, mm \in PMs})
                                     [] OTHER -> {} : kk \in PNKs})
           [] o = "mis" -> UNION {LET z == [e EXCEPT !.k = kk] IN
                               CASE kk \in {0, 1, 12, 13, 16, 17, 18, 19, 20, 21, 22} -> {[z EXCEPT !.p = pp] : pp \in PPts(sz) \cup {sz + 1, b.cap, b.cap + 1}}
                                 [] kk \in {14, 15} -> {[z EXCEPT !.p = pp] : pp \in PPts(sz) \cup {-1, sz + 1, b.cap + 1}}
                                 [] kk \in {8, 9} -> IF SO THEN {} ELSE {[z EXCEPT !.n = nn] : nn \in PPts(sz) \cup {sz + 1, b.cap + 1}}
                                 [] kk \in {10, 11} -> {[z EXCEPT !.p = u[1], !.q = u[2]] : u \in Pick2(Pts(sz + 1) \X Pts(sz + 1))}
                                 [] kk \in {23, 24} -> {[z EXCEPT !.c = cc, !.n = nn] : cc \in 0..2, nn \in 0..3}
                                 [] kk = 25 -> IF SO THEN {[z EXCEPT !.c = cc, !.m = mm] : cc \in 0..2, mm \in 0..3} ELSE {}
                                 [] kk \in 50..65 -> {[z EXCEPT !.y = yy] : yy \in DOMAIN B \ {x}}
                                 [] kk \in {74, 75} /\ SO -> {}
                                 [] kk \in 70..75 -> {[z EXCEPT !.p = pp, !.q = qq] : pp \in 0..2, qq \in 0..2}
                                 [] OTHER -> {z} : kk \in Pick(MKs)}
           [] OTHER -> {}

(* well-formed calls: a minimum capacity never exceeds the capacity, a count never the capacity given with it *)
HasCap(e) == e.o \in {"cap", "rcap"} \/ (e.o \in {"new", "asg"} /\ e.k \in {1, 3, 5, 8} /\ ~(e.o = "asg" /\ e.k = 1))
Legal(e) == /\ HasCap(e) => e.m % 1000 <= e.c
            /\ e.o \in {"new", "asg"} /\ e.k = 3 => e.n <= e.c
            /\ e.o \in {"new", "asg"} /\ e.k = 5 /\ e.t = 6 => e.n <= e.c
            /\ ~SO => (e.o \in {"cap", "rcap", "asg"} => e.m = 0)
            /\ (e.t = 6 /\ e.o \in {"new", "asg"}) => IntRange

(*---------------------------------------- initial layouts ---------------------------------------------------*)
Layouts(x) == {z \in [c : IF x = 0 THEN Caps ELSE Caps1, off : UNION {Idx(cc) : cc \in Caps \cup Caps1} \cup {0}, n : UNION {Pts(cc) : cc \in Caps \cup Caps1},
                      pk : {FALSE} \cup Peak, mn : Mins] :
                 /\ z.n <= z.c /\ (z.off = 0 \/ z.off < z.c) /\ z.mn <= z.c /\ z.n \in Pts(z.c) /\ (z.off = 0 \/ z.off \in Idx(z.c))
                 /\ (z.pk => z.n < z.c)}
Lay(x, z, s) == [E0("lay", x) EXCEPT !.c = z.c, !.p = z.off, !.n = z.n, !.q = IF z.pk THEN z.c ELSE 0,
                                     !.m = 1000 * (7 + x) + z.mn, !.k = 11 + 20 * x, !.w = s]
Vals(x, n)   == IF Alpha = 0 THEN {[j \in 1..n |-> 10 + 100 * x + j]} ELSE [1..n -> 1..Alpha]
Made(x, z, s) == Buf(7 + x, z.c, IF SO THEN z.mn ELSE 0, s)

Init == /\ len = 0
        /\ CASE NB = 0 -> B = [x \in {} |-> 0] /\ plan = <<>>
             [] NB = 1 -> \E z \in Layouts(0) : \E s \in Vals(0, z.n) : B = [x \in {0} |-> Made(0, z, s)] /\ plan = <<Lay(0, z, s)>>
             [] NB = 2 -> \E z \in Layouts(0), y \in Layouts(1) : \E s \in Vals(0, z.n), r \in Vals(1, y.n) :
                             /\ B = [x \in {0, 1} |-> IF x = 0 THEN Made(0, z, s) ELSE Made(1, y, r)]
                             /\ plan = <<Lay(0, z, s), Lay(1, y, r)>>

Fix(b) == [b EXCEPT !.cap = IF @ = ANY THEN 0 ELSE @, !.min = IF @ = ANY THEN 0 ELSE @, !.al = IF @ = ANY THEN 99 ELSE @]
Call(o) ==
    /\ len < Depth
    /\ \E x \in Targets : x < NX /\ \E e \in Args(o, x) :
          /\ Legal(e)
          /\ plan' = Append(plan, e)
          /\ len' = IF e.o = "mis" THEN Depth ELSE len + 1     \* a misuse ends the plan
          /\ B' = IF OutOfRange(B, e) \/ MustLength(B, e) \/ e.o = "mis" THEN B
                  ELSE LET E == Effect(B, e) IN [z \in DOMAIN E |-> Fix(E[z])]
Done == len = Depth /\ len' = Depth + 1 /\ UNCHANGED <<B, plan>>
(* in random mode a few operations are drawn at each step (not all are evaluated) *)
OpsNow == LET U == IF Lead # {} /\ len + 1 < Depth THEN Lead ELSE Ops
          IN IF Sim /\ Cardinality(U) > 4 THEN {RandomElement(U) : z \in 1..(5 + 0 * len)} ELSE U
Next == (\E o \in OpsNow : Call(o)) \/ Done
Spec == Init /\ [][Next]_vars

Emit == (Emitting /\ len = Depth + 1) => PrintT("PLAN " \o S(Flags) \o FoldLeft(LAMBDA acc, z : acc \o Enc(IF z.o = "lay" THEN "S" ELSE "M", z), "", plan) \o Epi)

(*---------------------------------------- what the specification itself guarantees -------------------------*)
TypeOK == \A x \in DOMAIN B : /\ Len(B[x].v) <= B[x].cap
                              /\ SO => B[x].min <= B[x].cap
                              /\ B[x].cap >= 0
==========================================================================================================
