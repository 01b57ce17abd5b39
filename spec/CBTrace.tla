---------------------------------------------- MODULE CBTrace ----------------------------------------------
(***************************************************************************************************************)
(* Trace validation: decides whether the runs recorded from the real code by harness/driver.cpp are behaviours  *)
(* of the specification CB, and evaluates every property (C01..C28) at every recorded call.                    *)
(*                                                                                                             *)
(* One behaviour of this module is one recorded run: variable t picks the run, i the event.  B is the abstract  *)
(* state (the projection CB!Effect works on), AD the identities of the stored objects, LV the set of live       *)
(* element objects, BK the storage blocks obtained and not yet returned, FL the storage floor promised by the   *)
(* minimum capacity of space optimized buffers.                                                                *)
(* A run that is not a behaviour of the specification yields a VIOL line naming the property it breaks.        *)
(***************************************************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC, Json

CONSTANTS File,      \* the recorded runs (ndjson)
          Props      \* the properties to decide in this run of TLC

Traces == ndJsonDeserialize(File)

VARIABLES t, i, B, AD, LV, BK, FL, BN, dirty
vars == <<t, i, B, AD, LV, BK, FL, BN, dirty>>

(* the configuration the run was recorded with *)
SO  == Traces[t].so = 1      \* space optimized buffers
DBG == Traces[t].dbg = 1     \* debug support
TY  == Traces[t].ty          \* element type: 0 nothrow move, 1 throwing move, 2 int, 3 move-only, 4 copy-only, 5 plain struct
PO  == Traces[t].po = 1      \* partially ordered elements
MAXSZ == IF Traces[t].sz = 1 THEN 32767 ELSE 1000    \* 16 bit sizes: the largest difference, else what the allocator says
UC  == Traces[t].uc = 1      \* allocator without construct/destroy
SL  == Traces[t].sl = 1      \* stateless allocator

INSTANCE CB

CLS == TY \notin {2, 5}
NM  == TY \in {0, 3}
TM  == TY = 1
BASIC == IF SO THEN "C21" ELSE "C13"

Ev(tt, k)  == Traces[tt].ev[k]
NEv(tt)    == Len(Traces[tt].ev)

(*---------------------------------------- projection of a recorded state ------------------------------------*)
StateOf(bs) == [x \in {bs[j].i : j \in DOMAIN bs} |->
                  LET r == bs[CHOOSE j \in DOMAIN bs : bs[j].i = x]
                  IN Buf(r.al, r.cap, r.min, r.v)]
AdOf(bs)    == [x \in {bs[j].i : j \in DOMAIN bs} |-> bs[CHOOSE j \in DOMAIN bs : bs[j].i = x].ad]
Sane(bs)    == \A j \in DOMAIN bs : bs[j].sz = Len(bs[j].v) /\ bs[j].sz >= 0
Blocks(lb)  == {<<lb[j][1], lb[j][2] * 100 + lb[j][3]>> : j \in DOMAIN lb}
AllAd(ad)   == UNION {Range_(ad[x]) : x \in DOMAIN ad}

(*---------------------------------------- matching --------------------------------------------------------*)
Same(s, l)  == (s = ANY \/ s = l)
MatchBuf(s, l) == s.v = l.v /\ Same(s.cap, l.cap) /\ Same(s.min, l.min)
Match(S, L) == DOMAIN S = DOMAIN L /\ \A x \in DOMAIN S : MatchBuf(S[x], L[x])
NotAl(b) == <<b.cap, b.min, b.v>>
Involved(e) == {e.x} \cup (IF e.o \in {"swp"} \/ (e.o \in {"new"} /\ e.k = 7) \/ (e.o = "asg" /\ e.k = 1) THEN {e.y} ELSE {})

IsRange(e) == e.o \in {"insr", "rinr"} \/ (e.o \in {"new", "asg"} /\ e.k \in {4, 5})
Cat0(e) == CASE e.o \in {"pb", "pf", "qb", "qf"} -> {"C01"}
             [] e.o \in {"ins", "rin", "insn", "rinn", "insr", "rinr"} -> {"C02"}
             [] e.o \in {"era", "rer", "erar", "rerr", "erb", "ere", "clr"} -> {"C03"}
             [] e.o \in {"cap", "rcap", "rsz", "rrsz"} -> {"C04"}
             [] e.o \in {"lin", "rot"} -> {"C07"}
             [] e.o \in {"at", "wr", "que"} -> {"C08"}
             [] e.o = "cmp" -> {"C09"}
             [] (e.o = "new" /\ e.k \notin {6, 7}) \/ (e.o = "asg" /\ e.k > 1) -> {"C05"}
             [] OTHER -> {"C06"}
Cat(e) == Cat0(e)
          \cup (IF IsRange(e) THEN {"C25"} ELSE {})
          \cup (IF e.o \in {"pb", "pf"} /\ e.k = 3 THEN {"C26"} ELSE {})
          \cup (IF e.o = "asg" /\ e.k = 0 /\ e.x = e.y THEN {"C26"} ELSE {})
          \cup (IF SO THEN {"C19"} ELSE {})
          \cup (IF TY = 3 THEN {"C22"} ELSE {})
          \cup (IF e.o = "at" THEN {"C14"} ELSE {})
          \cup (IF e.ep = 1 THEN Props ELSE {})     \* afterwards the buffer works normally

V(ps, tag) == {<<p, tag>> : p \in ps}
If(c, s) == IF c THEN s ELSE {}

(*---------------------------------------- functional behaviour ---------------------------------------------*)
FuncViol(e, L, LA) ==
    LET E == Effect(B, e)
        R == Rets(B, e)
        oth == {x \in DOMAIN B : x \notin Involved(e)}
    IN IF e.ex = 0
       THEN   If(OutOfRange(B, e), V(Cat(e), "missing out_of_range"))
         \cup If(MustLength(B, e), V(Cat(e), "missing length_error"))
         \cup If(~OutOfRange(B, e) /\ ~MustLength(B, e) /\ ~Match(E, L), V(Cat(e), "state"))
         \cup If(~OutOfRange(B, e) /\ ~(ANY \in R) /\ e.r \notin R, V(Cat(e), "result"))
         \cup If(e.o = "cmp" /\ e.cp # CmpRes(PO, B[e.x].v, B[e.y].v), V(Cat(e), "comparison"))
         \cup If(\E x \in oth : x \notin DOMAIN L \/ NotAl(L[x]) # NotAl(B[x]) \/ LA[x] # AD[x], V({"C06"}, "other buffer affected"))
         \cup If(e.o = "lin" /\ e.x \in DOMAIN LA /\ \E j \in 1..Len(LA[e.x]) - 1 : LA[e.x][j + 1] # LA[e.x][j] + 1, V(Cat(e), "not linear"))
         \cup If(e.o = "lin" /\ e.x \in DOMAIN LA /\ Len(LA[e.x]) > 0 /\ e.ra # LA[e.x][1], V(Cat(e), "linearize result"))
         \cup If(e.o \in {"ins", "rin", "era", "rer", "erar", "rerr"} /\ e.x \in DOMAIN LA
                 /\ e.ra # (IF e.r \in 0..Len(LA[e.x]) - 1 THEN LA[e.x][e.r + 1] ELSE 0), V(Cat(e), "returned iterator"))
         \cup If(IsRange(e) /\ (e.ie # 0 \/ (e.t = 0 /\ e.dr > Len(e.w))), V({"C25"}, "iterator misused"))
       ELSE IF e.ft = 1 THEN If(IsRange(e) /\ e.ie # 0, V({"C25"}, "iterator misused"))
       ELSE IF (e.ex = 3 /\ MayLength(B, e)) \/ (e.ex = 4 /\ OutOfRange(B, e))
            THEN If(L # B \/ LA # AD, V(Cat(e) \cup {"C14"}, "changed by a rejected call"))
       ELSE V(Cat(e) \cup {BASIC} \cup (IF e.ex = 5 THEN {"C17", "C18"} ELSE {}), "unexpected exception")

(*---------------------------------------- views -------------------------------------------------------------*)
ObsViol(o) ==
    LET b == B[o.x] v == b.v n == Len(v)
        Pr(p) == IF SO THEN {p, "C19"} ELSE {p}
    IN    If(o.as # 0, V({"C08", "C17", "C18"}, "assertion in observation"))
     \cup If(o.as = 0 /\ ~(o.at = v /\ o.cat = v /\ o.ix = v /\ o.cix = v /\ o.it = v /\ o.cit = v /\ o.rit = Reverse(v) /\ o.crit = Reverse(v)
                   /\ o.dd = n /\ o.cd = n /\ o.oor = 8 /\ \A j \in DOMAIN o.eq : o.eq[j] = 1), V(Pr("C08"), "views"))
     \cup If(o.as = 0 /\ n > 0 /\ ~(o.fr = v[1] /\ o.cfr = v[1] /\ o.bk = v[n] /\ o.cbk = v[n]), V(Pr("C08"), "front/back"))
     \cup If(o.as = 0 /\ ~(o.one \o o.two = v /\ o.cone \o o.ctwo = v /\ o.ip = 1 /\ o.n1 = Len(o.one) /\ o.n2 = Len(o.two)
                   /\ (o.n2 > 0 => o.n1 > 0)), V(Pr("C07"), "array views"))
     \cup If(o.as = 0 /\ o.li # B2I(o.n2 = 0), V(Pr("C07"), "is_linearized"))
     \cup If(o.as = 0 /\ ~(o.em = B2I(n = 0) /\ o.fu = B2I(n = b.cap) /\ o.rs = b.cap - n /\ o.mx = MAXSZ /\ n <= b.cap), V(Pr("C04"), "size queries"))

Mask(a, c) == (IF a = c THEN 1 ELSE 2) + (IF a < c THEN 4 ELSE 0) + (IF a > c THEN 8 ELSE 0) + (IF a <= c THEN 16 ELSE 0) + (IF a >= c THEN 32 ELSE 0)
ItmViol(e) ==
    LET v == B[e.x].v n == Len(v)
        N == Len(e.ps)          \* the positions considered: all of a small buffer
        Ps(z) == e.ps[z + 1]
        M == [k \in 1..(2 * N * N) |-> LET z == (k - 1) \div 2 a == Ps(z \div N) c == Ps(z % N) IN IF k % 2 = 1 THEN a - c ELSE Mask(a, c)]
        D == SelectSeq(e.ps, LAMBDA p : p < n)
        Sub == [k \in 1..(5 * Len(D) * N) |-> LET z == (k - 1) \div 5 IN v[D[(z % Len(D)) + 1] + 1]]
        P == {"C08"} \cup If(DBG, {"C17", "C18"})
    IN IF e.as # 0 THEN V(P, "assertion on legal iterator use")
       ELSE If((n <= 14 /\ e.ps # [k \in 1..n + 1 |-> k - 1]) \/ ~({0, n} \subseteq Range(e.ps)), V({"C08"}, "iteration"))
       \cup If(~(e.m1 = M /\ e.m2 = M /\ e.m3 = M /\ e.m4 = M), V({"C08"}, "iterator relations"))
       \cup If(\E k \in DOMAIN e.mv : e.mv[k] # 1, V({"C08"}, "iterator arithmetic"))
       \cup If(e.sub # Sub, V({"C08"}, "iterator subscript"))

(*---------------------------------------- life cycle of the elements (C10) ---------------------------------*)
External(a) == a <= -100000
LiveStep(acc, x) ==
    LET k == x[1] a == x[2] b == x[3]
    IN CASE k \in {1, 2} -> [lv |-> acc.lv \cup {a}, bad |-> acc.bad \cup If(a \in acc.lv, {"constructed over a live element"})]
         [] k \in {3, 4} -> [lv |-> acc.lv \cup {a}, bad |-> acc.bad \cup If(a \in acc.lv, {"constructed over a live element"})
                                                              \cup If(~External(b) /\ b \notin acc.lv, {"copied from a dead element"})]
         [] k \in {5, 6} -> [lv |-> acc.lv, bad |-> acc.bad \cup If(a \notin acc.lv, {"assigned to a dead element"})
                                                              \cup If(~External(b) /\ b \notin acc.lv, {"assigned from a dead element"})]
         [] k = 7 -> [lv |-> acc.lv \ {a}, bad |-> acc.bad \cup If(a \notin acc.lv \/ b # 1, {"destroyed a dead element"})]
         [] k = 14 -> [lv |-> acc.lv, bad |-> acc.bad \cup {"compared a dead element"}]
         [] OTHER -> acc
LiveAfter(le) == FoldLeft(LiveStep, [lv |-> LV, bad |-> {}], le)

LifeViol(e, LA, acc, P) ==
    UNION {V(P, s) : s \in acc.bad}
    \cup If(\E a \in acc.lv : a <= 0, V(P, "temporary not destroyed"))
    \cup If({a \in acc.lv : a > 0} # AllAd(LA), V(P, "live elements differ from the stored ones"))

(*---------------------------------------- storage (C11) -----------------------------------------------------*)
BlkStep(acc, x) ==
    LET k == x[1] a == x[2] b == x[3]
    IN CASE k = 8 -> [bk |-> acc.bk \cup {<<a, b>>}, bad |-> acc.bad, prev |-> x]
         [] k = 9 -> [bk |-> acc.bk \ {<<a, b>>}, prev |-> x,
                      bad |-> acc.bad \cup If(<<a, b>> \notin acc.bk, {"block returned that was not obtained so"})]
         [] k = 15 -> [acc EXCEPT !.bad = @ \cup {"memory outside the block written"}, !.prev = x]
         [] k \in {1, 2, 3, 4} /\ a > 0 /\ ~UC ->
               [acc EXCEPT !.bad = @ \cup If(acc.prev[1] # 11 \/ acc.prev[2] # a, {"not constructed through the allocator"}), !.prev = x]
         [] k = 7 /\ a > 0 /\ ~UC ->
               [acc EXCEPT !.bad = @ \cup If(acc.prev[1] # 12 \/ acc.prev[2] # a, {"not destroyed through the allocator"}), !.prev = x]
         [] OTHER -> [acc EXCEPT !.prev = x]
BlkAfter(le) == FoldLeft(BlkStep, [bk |-> BK, bad |-> {}, prev |-> <<0, 0, 0>>], le)

BlkOf(a) == (a \div 4096)                \* the block an element lies in
Slot(a)  == (a % 4096) - 1024
Bag(S, f(_)) == [z \in {f(s) : s \in S} |-> Cardinality({s \in S : f(s) = z})]
StoreViol(e, L, LA, acc, P) ==
    LET bks == acc.bk
        own == {x \in DOMAIN L : L[x].cap > 0}
        Al(x) == IF SL THEN 7 ELSE L[x].al
    IN UNION {V(P, s) : s \in acc.bad}
    \cup If(bks # Blocks(e.lb), V(P, "blocks held differ from the allocator's account"))
    \cup If(\E z \in bks : z[1] < 0, V(P, "auxiliary block kept"))
    \cup If(~SO /\ Bag(bks, LAMBDA z : z[2]) # Bag(own, LAMBDA x : L[x].cap * 100 + Al(x)), V(P, "storage owned"))
    \cup If(SO /\ (Cardinality(bks) > Cardinality(own)), V(P, "storage owned"))
    \cup If(\E x \in DOMAIN L : \E j \in DOMAIN LA[x] : ~(\E z \in bks : z[1] = BlkOf(LA[x][j]) /\ Slot(LA[x][j]) \in 0..(z[2] \div 100) - 1),
            V(P, "element outside the storage"))
    \cup If(\E x, y \in DOMAIN L : x < y /\ LA[x] # <<>> /\ LA[y] # <<>> /\ BlkOf(LA[x][1]) = BlkOf(LA[y][1]), V(P, "storage shared"))

(*---------------------------------------- no allocation (C12) ----------------------------------------------*)
NoAlloc(e) ==
    LET b == B[e.x]
    IN CASE e.o \in {"pb", "pf", "qb", "qf", "ins", "rin", "insn", "rinn", "insr", "rinr", "era", "rer", "erar", "rerr", "erb", "ere", "clr",
                     "lin", "rot", "swp", "wr", "cmp", "que", "del"} -> TRUE
         [] e.o = "at" -> ~OutOfRange(B, e)
         [] e.o \in {"cap", "rcap"} -> e.c = b.cap
         [] e.o \in {"rsz", "rrsz"} -> e.n \in 0..b.cap
         [] e.o = "new" -> e.k \in {0, 7}
         [] e.o = "asg" /\ e.k = 1 -> TRUE
         [] e.o = "asg" /\ e.k = 0 -> e.x = e.y     \* the strong guarantee of copy assignment needs a second block
         [] e.o = "asg" /\ e.k = 2 -> e.n = b.cap
         [] e.o = "asg" /\ e.k = 3 -> e.c = b.cap
         [] e.o = "asg" /\ e.k = 4 -> e.t # 0 /\ Len(Items(e)) = b.cap
         [] e.o = "asg" /\ e.k = 5 -> e.t # 0 /\ e.c = b.cap
         [] OTHER -> FALSE
AllocViol(e) == If(~SO /\ NoAlloc(e) /\ e.ex \in {0, 1, 4, 5} /\ (e.na > 0 \/ e.nw > 0), V({"C12"}, "allocation"))

(*---------------------------------------- no-throw operations (C15) ----------------------------------------*)
Silent(e) == \/ e.o \in {"qb", "qf", "clr", "swp", "del", "fin", "que"}
             \/ e.o = "at" /\ ~OutOfRange(B, e)
             \/ e.o = "asg" /\ e.k = 1
             \/ e.o = "new" /\ e.k \in {0, 7}
             \/ e.o = "rot" /\ (Full(B[e.x]) \/ e.p = 0)
ThrowingStep(x) == x[1] \in {1, 2, 3, 4, 5, 6, 8, 10}
NoThrowViol(e) == If(~SO /\ Silent(e) /\ (\E j \in DOMAIN e.le : ThrowingStep(e.le[j])), V({"C15"}, "throwing step"))
             \cup If(~SO /\ Silent(e) /\ e.o # "fin" /\ e.ex # 0, V({"C15"}, "exception"))

Linear(ad) == \A j \in 1..Len(ad) - 1 : ad[j + 1] = ad[j] + 1

(*---------------------------------------- iterator validity (C16, C17) ------------------------------------*)
Whole(e) == e.o \in {"swp"} \/ (e.o = "asg" /\ e.k = 1 /\ e.x # e.y) \/ (e.o = "new" /\ e.k = 7)   \* exchange storage between buffers
Survivor(e, x, p) ==   \* the position (or ANY) at which an iterator to position p of buffer x is guaranteed valid after e
    IF x # e.x \/ e.o \in {"new", "mis"} THEN (IF Whole(e) /\ x \in Involved(e) THEN ANY ELSE p)
    ELSE IF e.o = "del" \/ Whole(e) THEN ANY
    ELSE IF e.o = "lin" /\ Linear(AD[x]) THEN p       \* nothing is invalidated when the postcondition is already met
    ELSE LET S == {z \in Surv1(B[x], e) : z[1] = p} IN IF S = {} THEN ANY ELSE (CHOOSE z \in S : TRUE)[2]
ValidH(e, h, L, LA) ==
    LET x == h[1] p == h[2] j == Survivor(e, x, p)
    IN j # ANY => /\ h[3] = 1 /\ h[4] = h[6] /\ h[5] = j /\ h[6] = AD[x][p + 1]
                  /\ x \in DOMAIN L /\ j + 1 \in DOMAIN L[x].v
                  /\ (e.o # "wr" => L[x].v[j + 1] = B[x].v[p + 1]) /\ LA[x][j + 1] = AD[x][p + 1]
IterViol16(e, L, LA) ==
    IF SO \/ e.ex # 0 THEN {} ELSE
      If(\E k \in DOMAIN e.hv : e.hv[k][2] >= 0 /\ ~ValidH(e, e.hv[k], L, LA), V({"C16"}, "valid iterator disturbed"))
 \cup If(\E k \in DOMAIN e.hv : LET h == e.hv[k] IN h[2] = -1 /\ ~Whole(e) /\ e.o # "del" /\ ~(h[3] = 1 /\ h[5] = 0), V({"C16"}, "end() iterator disturbed"))

(* debug support: exactly the invalidated iterators are detected *)
MustDie(e, x, p) ==   \* documented as invalidated, and something happened
    \/ x = e.x /\ e.o = "del"
    \/ Whole(e) /\ x \in Involved(e) /\ ~(e.o = "swp" /\ e.x = e.y)
    \/ ~SO /\ x = e.x /\ ~Whole(e) /\ e.o # "new" /\ ~NoOp(B[x], e) /\ Survivor(e, x, p) = ANY
    \/ SO /\ x = e.x /\ ~Whole(e) /\ e.o # "new" /\ ~NoOp(B[x], e) /\ e.o \notin Inherited
    \/ SO /\ x = e.x /\ e.o = "lin" /\ ~NoOp(B[x], e) /\ Survivor(e, x, p) = ANY
IterViol17(e, L, LA) ==
    IF ~DBG THEN {} ELSE
      If(\E k \in DOMAIN e.hv : e.hv[k][2] = -2 /\ e.hv[k][3] # 0, V({"C17"}, "an invalidated iterator came back"))
 \cup IF e.ex # 0 THEN {} ELSE
      If(\E k \in DOMAIN e.hv : e.hv[k][3] = 2, V({"C17"}, "copies of an iterator disagree"))
 \cup If(\E k \in DOMAIN e.hv : LET h == e.hv[k] IN h[2] >= 0 /\ MustDie(e, h[1], h[2]) /\ h[3] # 0, V({"C17"}, "invalid iterator not detected"))
 \cup If((~SO \/ e.o \in Inherited) /\ \E k \in DOMAIN e.hv : e.hv[k][2] >= 0 /\ ~ValidH(e, e.hv[k], L, LA), V({"C17"}, "valid iterator reported or moved"))
 \cup If(SO /\ \E k \in DOMAIN e.hv : LET h == e.hv[k] IN h[1] # e.x /\ ~Whole(e) /\ h[2] >= 0 /\ ~ValidH(e, h, L, LA), V({"C17"}, "iterator of another buffer affected"))
 \cup If(\E k \in DOMAIN e.hv : LET h == e.hv[k] IN h[2] = -1 /\ h[1] = e.x /\ e.o = "del" /\ h[3] # 0, V({"C17"}, "iterator of a destroyed buffer not detected"))
 \cup If(~SO /\ \E k \in DOMAIN e.hv : LET h == e.hv[k] IN h[2] = -1 /\ ~Whole(e) /\ e.o # "del" /\ ~(h[3] = 1 /\ h[5] = 0), V({"C17"}, "end() iterator disturbed"))

(*---------------------------------------- marking of unused storage (C28) ----------------------------------*)
MarkViol(e) == If(DBG /\ e.ft = 0 /\ ~dirty /\ e.uf # 0, V({"C28"}, "unused storage not marked"))

(*---------------------------------------- misuse (C18) ------------------------------------------------------*)
Misused(e) ==
    LET sz == Len(B[e.x].v) k == e.k p == e.p q == e.q
    IN CASE k \in {0, 1, 12, 13, 16, 18, 20, 21, 22} -> p >= sz
         [] k \in 2..7   -> sz = 0
         [] k \in {8, 9} -> e.n > sz
         [] k \in {10, 11} -> p > sz \/ q > sz \/ p > q
         [] k \in {14, 15} -> p < 0 \/ p > sz
         [] k \in {17, 19} -> p = 0 \/ p > sz
         [] k \in {23, 24} -> e.c < e.n
         [] k = 25 -> e.c < e.m
         [] k \in 26..46 /\ k # 29 -> TRUE    \* two uninitialized iterators may be compared for equality
         [] k \in 50..65 -> TRUE
         [] k \in 70..75 -> p > q
         [] OTHER -> FALSE
MisuseViol(e, L, LA) ==
      If(Misused(e) /\ e.as # 1, V({"C18"} \cup If(e.k \in 26..65, {"C17"}), "misuse not reported"))
 \cup If(~Misused(e) /\ (e.as # 0 \/ e.ex # 0), V({"C18"} \cup If(e.k \in 80..85, {"C17"}), "legal call reported"))
 \cup If(e.as = 1 /\ (L # B \/ LA # AD), V({"C18"}, "damage before the report"))

(*---------------------------------------- exceptions (C13, C14, C21) ---------------------------------------*)
ArgVals(e) == Range_(e.w) \cup {0} \cup If(NM, {-1})
BasicOK(e, L, LA) ==
    /\ \A x \in DOMAIN L : LET b == L[x] IN
          /\ Len(b.v) <= b.cap
          /\ -9 \notin Range_(b.v)
          /\ Cardinality(Range_(LA[x])) = Len(b.v)
          /\ x \in DOMAIN B
          /\ IF x # e.x THEN NotAl(b) = NotAl(B[x]) /\ LA[x] = AD[x]
             ELSE /\ Range_(b.v) \subseteq Range_(B[x].v) \cup ArgVals(e) \cup (IF e.o = "asg" /\ e.k = 0 THEN Range_(B[e.y].v) ELSE {})
                  /\ b.cap \in {B[x].cap, Effect(B, e)[x].cap}
    /\ DOMAIN L = DOMAIN B
Strong(e) == \/ e.o = "new"
             \/ e.o \in {"cap", "rcap", "at"}
             \/ e.o = "asg" /\ e.k = 0
FaultViol(e, L, LA, SB) ==
    IF e.ft = 0 THEN {} ELSE
      If(e.ex = 0, V({BASIC}, "exception swallowed"))
 \cup If(e.ex \notin {0, 1, 2}, V({BASIC}, "exception replaced"))
 \cup If(~SB \/ (e.ex # 0 /\ ~BasicOK(e, L, LA)), V({BASIC}, "basic guarantee"))
 \cup If(e.ex # 0 /\ Strong(e) /\ (~SO \/ e.o = "new") /\ (L # B \/ LA # AD \/ Blocks(e.lb) # BK), V({"C14"} \cup If(SO, {"C21"}), "strong guarantee"))
 \cup If(e.ex # 0 /\ Strong(e) /\ SO /\ (L # B), V({"C21"}, "strong guarantee"))

(*---------------------------------------- memory of the space optimized buffer (C20) -----------------------*)
AmountIn(S, A, bks, x) ==   \* S: buffers, A: identities of their elements, bks: blocks <<id, size, arena>>; ANY when it cannot be told
    LET held == {BlkOf(A[y][1]) : y \in {z \in DOMAIN S : A[z] # <<>>}}
        free == {z \in bks : z[1] > 0 /\ z[3] = S[x].al /\ z[1] \notin held}
    IN IF A[x] # <<>> THEN (LET own == {z \in bks : z[1] = BlkOf(A[x][1])} IN IF own = {} THEN ANY ELSE (CHOOSE z \in own : TRUE)[2])
       ELSE IF \E y \in DOMAIN S : y # x /\ S[y].al = S[x].al /\ A[y] = <<>> THEN ANY
       ELSE IF free = {} THEN 0 ELSE IF Cardinality(free) > 1 THEN ANY ELSE (CHOOSE z \in free : TRUE)[2]
Amount(x, L, LA, lb) == AmountIn(L, LA, {<<lb[j][1], lb[j][2], lb[j][3]>> : j \in DOMAIN lb}, x)
OldAmount(x) == AmountIn(B, AD, {<<z[1], z[2] \div 100, z[2] % 100>> : z \in BK}, x)
Initial(e) ==    \* the storage documented for constructors and assign (ANY: not specified)
    LET n == Len(Items(e))
    IN CASE e.o = "new" /\ e.k = 0 -> 0
         [] e.o = "new" /\ e.k = 1 -> NewMin(e)
         [] e.o \in {"new", "asg"} /\ e.k = 2 -> e.n
         [] e.o \in {"new", "asg"} /\ e.k = 3 -> Max2(e.n, NewMin(e))
         [] e.o \in {"new", "asg"} /\ e.k = 4 -> n
         [] e.o \in {"new", "asg"} /\ e.k = 5 -> Max2(NewMin(e), Min2(e.c, n))
         [] e.o = "new" /\ e.k = 8 -> e.c
         [] e.o = "cap" \/ e.o = "rcap" -> ANY
         [] OTHER -> ANY
Floors(e) ==     \* operations that establish the minimum capacity
    e.o \in {"cap", "rcap"} \/ (e.o = "new" /\ e.k \in {0, 1, 2, 3, 4, 5, 8}) \/ (e.o = "asg" /\ e.k > 1)
NextFL(e, L) ==  \* per buffer: is the floor established?
    [x \in DOMAIN L |->
       IF e.ex # 0 THEN (IF x \in DOMAIN FL THEN FL[x] ELSE FALSE)
       ELSE CASE e.o = "swp" /\ x = e.x -> FL[e.y]
              [] e.o = "swp" /\ x = e.y -> FL[e.x]
              [] e.o = "new" /\ e.k = 7 /\ x = e.x -> FL[e.y]
              [] e.o = "asg" /\ e.k = 1 /\ x = e.x -> FL[e.y]
              [] ((e.o = "new" /\ e.k = 7) \/ (e.o = "asg" /\ e.k = 1)) /\ x = e.y -> FALSE
              [] x = e.x /\ Floors(e) -> TRUE
              [] x = e.x /\ e.o \in {"new", "asg"} -> FALSE
              [] OTHER -> x \in DOMAIN FL /\ FL[x]]
Adds(e) == e.o \in {"pb", "pf", "ins", "rin", "insn", "rinn", "insr", "rinr"}
Removes(e) == e.o \in {"qb", "qf", "era", "rer", "erar", "rerr", "clr"}
(* what is saved for moving elements: every element inserted or erased contributes Credit, a reallocation costs the elements
   it moves; savings are limited to what the present elements account for (CBMem shows that the documented policy gets by) *)
Credit == 8
Saved(n) == Credit * n + Credit
Handled(e) == CASE e.o \in {"insn", "rinn"} -> Max2(1, Min2(Cnt(B[e.x], e.n), B[e.x].cap))
                [] e.o \in {"insr", "rinr"} -> Max2(1, Min2(Len(Items(e)), B[e.x].cap))
                [] e.o \in {"erar", "rerr"} -> Max2(1, e.q - e.p)
                [] e.o = "clr" -> Max2(1, Len(B[e.x].v))
                [] OTHER -> 1
NextBN(e, L, LA) ==
    [x \in DOMAIN L |->
       IF x \notin DOMAIN BN \/ e.ex # 0 \/ ~(e.x = x /\ (Adds(e) \/ Removes(e)))
       THEN (IF x \in DOMAIN BN /\ x \notin Involved(e) THEN BN[x] ELSE Saved(Len(L[x].v)))
       ELSE Min2(BN[x] + Credit * Handled(e), Saved(Len(L[x].v)))
            - (IF AD[x] # <<>> /\ LA[x] # <<>> /\ BlkOf(AD[x][1]) # BlkOf(LA[x][1]) THEN Min2(Len(AD[x]), Len(LA[x])) ELSE 0)]
MemViol(e, L, LA, fl) ==
    IF ~SO THEN {} ELSE
      If(\E x \in DOMAIN L : NextBN(e, L, LA)[x] < 0, V({"C20"}, "reallocations not amortised"))
 \cup
      UNION {LET al == Amount(x, L, LA, e.lb) b == L[x] IN
               If(al # ANY /\ al < Len(b.v), V({"C20"}, "storage below the size"))
          \cup If(al # ANY /\ al > b.cap, V({"C20"}, "storage above the capacity"))
          \cup If(al # ANY /\ fl[x] /\ al < b.min, V({"C20"}, "storage below the minimum capacity")) : x \in DOMAIN L}
 \cup (IF e.ex # 0 \/ e.x \notin DOMAIN L THEN {} ELSE
       LET x == e.x b == L[x] al == Amount(x, L, LA, e.lb) sz == Len(b.v)
           old == IF x \in DOMAIN B THEN OldAmount(x) ELSE 0
       IN IF al = ANY \/ old = ANY THEN {} ELSE
          If(Initial(e) # ANY /\ ~Huge(e.n) /\ al # Initial(e), V({"C20"}, "initial storage"))
     \cup If(Removes(e) /\ sz < Len(B[x].v) /\ al > Max2(2 * b.min, 4 * sz + 8), V({"C20"}, "storage not released"))
     \cup If(Adds(e) /\ old > 0 /\ al > old /\ al < Min2(b.cap, Min2(2 * old, old + old \div 2)), V({"C20"}, "storage does not grow geometrically"))
     \cup If(Adds(e) /\ al > Max2(Max2(old, b.min), 4 * sz + 8), V({"C20"}, "storage grows too much"))
     \cup If(e.o \in {"pb", "pf", "ins", "rin"} /\ sz <= old /\ e.na > 0 /\ al > old, V({"C20"}, "needless growth")))

(*---------------------------------------- moves (C22) ------------------------------------------------------*)
NothingInserted(b, e) == b.cap = 0 \/ (e.o = "ins" /\ Full(b) /\ e.p = 0) \/ (e.o = "rin" /\ Full(b) /\ e.p = Len(b.v))
HasLe(e, P(_)) == \E j \in DOMAIN e.le : P(e.le[j])
CntLe(e, P(_)) == Cardinality({j \in DOMAIN e.le : P(e.le[j])})
Reloc(e) == e.o \in {"cap", "rcap", "lin", "rot", "ins", "rin", "era", "rer", "erar", "rerr"} \/ (SO /\ e.o \in {"pb", "pf", "qb", "qf", "clr"})
MoveViol(e, L) ==
    IF ~CLS \/ e.ex # 0 \/ e.ft # 0 \/ dirty THEN {} ELSE
      If(e.k = 1 /\ e.o \in {"pb", "pf", "ins", "rin"} /\ TY # 4 /\ HasLe(e, LAMBDA x : x[1] \in {3, 5} /\ External(x[3])), V({"C22"}, "rvalue copied"))
 \cup If(e.k = 1 /\ e.o \in {"pb", "pf", "ins", "rin"} /\ TY # 4 /\ ~NothingInserted(B[e.x], e) /\ e.sv # -1, V({"C22"}, "rvalue not moved"))
 \cup If(e.o \in {"pb", "pf"} /\ ~SO /\ B[e.x].cap > 0 /\ Full(B[e.x])
         /\ (HasLe(e, LAMBDA x : x[1] \in {1, 2, 3, 4, 7} /\ x[2] > 0) \/ ~HasLe(e, LAMBDA x : x[1] \in {5, 6} /\ x[2] > 0)), V({"C22"}, "not overwritten by assignment"))
 \cup If(e.o \in {"pb", "pf"} /\ ~SO /\ ~Full(B[e.x])
         /\ (HasLe(e, LAMBDA x : x[1] \in {5, 6, 7} /\ x[2] > 0) \/ CntLe(e, LAMBDA x : x[1] \in {1, 2, 3, 4} /\ x[2] > 0) # 1), V({"C22"}, "free slot not filled by construction"))
 \cup If(NM /\ Reloc(e) /\ ~(e.o \in {"pb", "pf"} /\ e.k = 3) /\ HasLe(e, LAMBDA x : x[1] \in {3, 5} /\ ~External(x[3])), V({"C22"}, "relocated by copying"))
 \cup If(TM /\ Reloc(e) /\ HasLe(e, LAMBDA x : x[1] \in {4, 6} /\ x[3] > 0), V({"C22"}, "relocated by a throwing move"))
 \cup If(\E x \in DOMAIN L : -1 \in Range_(L[x].v), V({"C22"}, "moved-from element left"))

(*---------------------------------------- complexity (C23) -------------------------------------------------*)
CC == 4
KK == 10
Work(e) ==      \* the documented order of the number of element operations, apart from destroying the old contents
    LET b == B[e.x] sz == Len(b.v)
    IN CASE e.o \in {"pb", "pf", "qb", "qf", "at", "que", "wr"} -> 0
         [] e.o = "swp" \/ (e.o = "asg" /\ e.k = 1) \/ (e.o = "new" /\ e.k \in {0, 1, 7}) -> 0
         [] e.o = "new" /\ e.k = 6 -> Len(B[e.y].v)
         [] e.o = "new" -> Len(Built(e, 0).v)
         [] e.o = "asg" /\ e.k = 0 -> Len(B[e.y].v)
         [] e.o = "asg" -> Len(Built(e, 0).v)
         [] e.o = "ins" -> sz - e.p
         [] e.o = "rin" -> e.p
         [] e.o = "insn" -> sz - e.p + Min2(Cnt(b, e.n), b.cap)
         [] e.o = "insr" -> sz - e.p + Len(Items(e))
         [] e.o = "rinn" -> e.p + Min2(Cnt(b, e.n), b.cap)
         [] e.o = "rinr" -> e.p + Len(Items(e))
         [] e.o \in {"era", "erar"} -> sz - e.p
         [] e.o = "rer" -> e.p + 1
         [] e.o = "rerr" -> e.q
         [] e.o \in {"erb", "ere"} -> 0
         [] e.o = "clr" -> 0
         [] e.o = "lin" -> sz
         [] e.o = "rot" -> IF Full(b) THEN 0 ELSE Min2(e.p, sz - e.p)
         [] e.o \in {"cap", "rcap"} -> IF e.c = b.cap THEN 0 ELSE Min2(sz, e.c)
         [] e.o \in {"rsz", "rrsz"} -> IF e.n > b.cap THEN e.n ELSE IF e.n > sz THEN e.n - sz ELSE 0
         [] OTHER -> 0
Trivial(e) == \/ e.o \in {"swp", "que", "at"} \/ (e.o = "asg" /\ e.k = 1 /\ e.x = e.y) \/ (e.o = "new" /\ e.k \in {0, 1, 7})
              \/ e.o = "rot" /\ ~SO /\ (Full(B[e.x]) \/ e.p = 0)
              \/ e.o = "lin" /\ Linear(AD[e.x])
              \/ e.o \in {"cap", "rcap"} /\ ~SO /\ e.c = B[e.x].cap
              \/ e.o = "cmp"
Destr(e) == IF e.x \in DOMAIN B THEN   \* old elements that go away
              CASE e.o \in {"cap", "rcap", "asg", "del", "clr"} -> Len(B[e.x].v)
                [] e.o \in {"rsz", "rrsz"} -> Len(B[e.x].v)
                [] e.o \in {"era", "rer", "qb", "qf"} -> 1
                [] e.o \in {"erar", "rerr"} -> e.q - e.p
                [] e.o \in {"erb", "ere"} -> e.n
                [] OTHER -> 0
            ELSE 0
CostViol(e) ==
    IF ~CLS \/ e.ex # 0 \/ (IsRange(e) /\ e.t = 0) THEN {} ELSE
    LET mk == CntLe(e, LAMBDA x : x[1] \in 1..6)
        ds == CntLe(e, LAMBDA x : x[1] = 7)
        extra == IF SO /\ e.na > 0 /\ e.x \in DOMAIN B THEN Len(B[e.x].v) ELSE 0
    IN If(mk > CC * (Work(e) + extra) + KK, V({"C23"}, "too many element operations"))
  \cup If(ds > Destr(e) + extra + mk + 2, V({"C23"}, "too many destructions"))
  \cup If(Trivial(e) /\ mk + ds > 0, V({"C23"}, "element operations in a constant-time call"))
  \cup If(e.o = "cmp" /\ e.cm > 12 * Min2(Len(B[e.x].v), Len(B[e.y].v)) + 12, V({"C23"}, "too many comparisons"))
  \cup If(e.o # "cmp" /\ e.cm > 0, V({"C23"}, "comparisons"))

(*---------------------------------------- allocators (C24) -------------------------------------------------*)
AlViol(e, L, LA) ==
    IF SL THEN {} ELSE
    LET E == Effect(B, e)
        user == IF e.o = "new" THEN (IF e.k = 6 THEN B[e.y].al ELSE IF e.k = 7 THEN B[e.y].al ELSE NewAl(e)) ELSE B[e.x].al
    IN If(e.ex = 0 /\ DOMAIN E = DOMAIN L /\ \E x \in DOMAIN L : ~Same(E[x].al, L[x].al), V({"C24"}, "allocator"))
  \cup If(\E j \in DOMAIN e.le : e.le[j][1] = 8 /\ e.le[j][3] % 100 # user, V({"C24"}, "storage from a wrong allocator"))
  \cup If(\E x \in DOMAIN L : LA[x] # <<>> /\ \E j \in DOMAIN e.lb : e.lb[j][1] = BlkOf(LA[x][1]) /\ e.lb[j][3] # L[x].al, V({"C24"}, "storage of another allocator"))
  \cup If(\E s \in BlkAfter(e.le).bad : s = "block returned that was not obtained so", V({"C24"}, "block released to a wrong allocator"))

(*---------------------------------------- one step ---------------------------------------------------------*)
On(p) == p \in Props
CallViol(e, L, LA, live, blks, fl, SB) ==
    IF ~SB THEN V(Cat(e) \cup {BASIC} \cup Props, "insane size") ELSE
    LET flt == e.ft = 1
        PL == {"C10"} \cup If(flt \/ dirty, {BASIC}) \cup If(e.ft = 1 /\ Strong(e) /\ (~SO \/ e.o = "new"), {"C14"})
        PS == {"C11"} \cup If(flt \/ dirty, {BASIC}) \cup If(e.ft = 1 /\ Strong(e) /\ (~SO \/ e.o = "new"), {"C14"})
    IN IF e.o = "mis" THEN MisuseViol(e, L, LA)
       ELSE FuncViol(e, L, LA)
       \cup FaultViol(e, L, LA, SB)
       \cup If(CLS /\ PL \cap Props # {}, LifeViol(e, LA, live, PL))
       \cup If(PS \cap Props # {}, StoreViol(e, L, LA, blks, PS))
       \cup If(On("C12"), AllocViol(e))
       \cup If(On("C15"), NoThrowViol(e))
       \cup If(On("C16"), IterViol16(e, L, LA))
       \cup If(On("C17"), IterViol17(e, L, LA))
       \cup If(On("C20"), MemViol(e, L, LA, fl))
       \cup If(On("C28"), MarkViol(e))
       \cup If(On("C22"), MoveViol(e, L))
       \cup If(On("C23"), CostViol(e))
       \cup If(On("C24"), AlViol(e, L, LA))

FinViol(e, live, blks) ==
    LET PL == {"C10"} \cup If(dirty, {BASIC, "C14"})
        PS == {"C11"} \cup If(dirty, {BASIC, "C14"})
    IN If(CLS, UNION {V(PL, s) : s \in live.bad} \cup If(live.lv # {}, V(PL, "element leaked")))
  \cup UNION {V(PS, s) : s \in blks.bad} \cup If(blks.bk # {} \/ e.lb # <<>>, V(PS, "storage leaked"))
  \cup If(On("C15"), NoThrowViol(e))
  \cup If(On("C12") /\ ~SO /\ (e.na > 0 \/ e.nw > 0), V({"C12"}, "allocation"))

NeedLive == CLS /\ Props \cap {"C10", "C13", "C14", "C21"} # {}
NeedBlk  == Props \cap {"C11", "C13", "C14", "C21", "C20", "C24"} # {}

Report(bad, e) == PrintT(<<"VIOL", Traces[t].id, Traces[t].f, i, e.o, bad>>)

Init == /\ t \in 1..Len(Traces) /\ i = 1
        /\ LET e == Ev(t, 1) IN
             /\ B = StateOf(e.bs) /\ AD = AdOf(e.bs) /\ LV = AllAd(AD) /\ BK = Blocks(e.lb)
        /\ FL = [x \in DOMAIN B |-> FALSE] /\ BN = [x \in DOMAIN B |-> Saved(Len(B[x].v))] /\ dirty = FALSE

Stop(bad, e) == Report(bad, e) /\ i' = NEv(t) /\ UNCHANGED <<t, B, AD, LV, BK, FL, BN, dirty>>

Quiet(e) == i' = i + 1 /\ UNCHANGED <<t, B, AD, LV, BK, FL, BN, dirty>>

Check(e, bad0) == LET bad == {z \in bad0 : z[1] \in Props} IN IF bad # {} THEN Stop(bad, e) ELSE Quiet(e)

Observe(e) == e.o = "obs" /\ Check(e, IF e.ep = 1 THEN UNION {V(Props, z[2]) : z \in ObsViol(e)} ELSE ObsViol(e))
Matrix(e)  == e.o = "itm" /\ Check(e, ItmViol(e))
ReadOnly(e) == e.o = "ro" /\ Check(e, If(\E k \in DOMAIN e.ch : e.ch[k] # 0, V({"C27"}, "modified by a read-only operation")))
Traits(e)  == e.o = "trt" /\ Check(e, If(\E k \in DOMAIN e.nx : e.nx[k] # 1, V({"C15"}, "not noexcept")))
Skip(e)    == e.o = "skip" /\ Quiet(e)
Crash(e)   == e.o = "crash" /\ Check(e, V(Props, "crash"))
Final(e)   == /\ e.o = "fin"
              /\ LET live == IF NeedLive THEN LiveAfter(e.le) ELSE [lv |-> {}, bad |-> {}]
                     blks == IF NeedBlk THEN BlkAfter(e.le) ELSE [bk |-> {}, bad |-> {}]
                 IN Check(e, FinViol(e, live, blks))
Call(e) ==
    /\ e.o \notin {"obs", "itm", "ro", "trt", "skip", "crash", "fin"}
    /\ LET SB == Sane(e.bs)
           L  == StateOf(e.bs)
           LA == AdOf(e.bs)
           live == IF NeedLive THEN LiveAfter(e.le) ELSE [lv |-> {}, bad |-> {}]
           blks == IF NeedBlk THEN BlkAfter(e.le) ELSE [bk |-> {}, bad |-> {}]
           fl == NextFL(e, L)
           bad == {z \in CallViol(e, L, LA, live, blks, fl, SB) : z[1] \in Props}
       IN IF bad # {} THEN Stop(bad, e)
          ELSE /\ i' = i + 1 /\ B' = L /\ AD' = LA /\ LV' = live.lv /\ BK' = blks.bk /\ FL' = fl /\ BN' = NextBN(e, L, LA)
               /\ dirty' = (dirty \/ e.ft = 1) /\ UNCHANGED t

Next == /\ i < NEv(t)
        /\ LET e == Ev(t, i + 1) IN
             \/ Observe(e) \/ Matrix(e) \/ ReadOnly(e) \/ Traits(e) \/ Skip(e) \/ Crash(e) \/ Final(e) \/ Call(e)

Spec == Init /\ [][Next]_vars
==========================================================================================================
