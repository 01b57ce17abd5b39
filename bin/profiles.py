"""What is explored for each property: which behaviours of spec/CBSys.tla, on which configurations of the real code."""

# T: 0 nothrow-movable class, 1 class with throwing moves, 2 int, 3 move-only, 4 copy-only, 5 plain struct; SO: space optimized; DBG: debug support
CONFIGS = {
    "A": dict(T=0), "B": dict(T=1), "C": dict(T=2), "D": dict(T=3), "E": dict(T=0, DBG=1),
    "F": dict(T=0, SO=1), "G": dict(T=1, SO=1), "H": dict(T=2, SO=1), "I": dict(T=0, SO=1, DBG=1),
    "J": dict(T=0, FANCY=1), "K": dict(T=0, SL=1), "L": dict(T=4), "M": dict(T=3, SO=1), "N": dict(T=0, UC=1),
    "O": dict(T=2, DBG=1), "P": dict(T=4, SO=1), "Q": dict(T=1, DBG=1), "R": dict(T=0, SO=1, SL=1), "S": dict(T=0, FANCY=1, SO=1),
    # T: partially ordered elements; U, V, X: a plain struct; Y, Z: allocator with a 16 bit size_type
    "T": dict(T=0, CMP=1), "U": dict(T=5), "V": dict(T=5, SO=1), "X": dict(T=5, DBG=1), "Y": dict(T=0, SZ=1), "Z": dict(T=0, SO=1, SZ=1), "W": dict(T=0, SO=1, CMP=1),
}

PUSH = {"pb", "pf", "qb", "qf"}
INS1 = {"ins", "rin"}
INSN = {"insn", "rinn"}
INSR = {"insr", "rinr"}
ERA = {"era", "rer", "erar", "rerr", "erb", "ere", "clr"}
CAP = {"cap", "rcap"}
RSZ = {"rsz", "rrsz"}
LIN = {"lin", "rot"}
ALL1 = PUSH | INS1 | INSN | INSR | ERA | CAP | RSZ | LIN | {"wr", "que", "at", "cmp"}
WALK = ALL1 | {"new", "del", "asg", "swp"}

DEF = dict(SO=False, MAXSZ=1000, Ops=set(), Ks={0, 1, 2, 3}, Ts={0, 2}, Ns={0, 1, 2, 5}, Ls={0, 1, 2, 3}, Cs={0, 1, 2, 3, 5}, Ms={7000},
           NKs={0, 1, 2, 3, 4, 5, 6, 7, 8}, AKs={0, 1, 2, 3, 4, 5}, Caps={0, 1, 2, 3, 4}, Caps1={0, 1, 3}, Mins={0}, Peak=set(),
           NB=1, NX=1, Targets={0}, Small=100, Alpha=0, Depth=1, Flags=0, Epi="", MKs=set(), Lead=set(), IntRange=False)

# calls made after the region in which failures were injected: whatever is left must work normally
EPI = "".join([
    " E obs 0 0 0 0 0 0 0 0 0 0",
    " E pb 0 0 0 0 0 0 0 0 0 1 901", " E pf 0 0 1 0 0 0 0 0 0 1 902", " E ins 0 0 0 0 1 0 0 0 0 1 903", " E obs 0 0 0 0 0 0 0 0 0 0",
    " E rsz 0 0 0 0 0 0 6 0 0 1 904", " E rer 0 0 0 0 1 0 0 0 0 0", " E lin 0 0 0 0 0 0 0 0 0 0",
    " E rinn 0 0 0 0 1 0 2 0 0 1 905", " E cap 0 0 0 0 0 0 0 4 0 0", " E qf 0 0 0 0 0 0 0 0 0 0", " E pb 0 0 0 0 0 0 0 0 0 1 906",
    " E asg 0 0 3 0 0 0 2 5 0 1 907", " E clr 0 0 0 0 0 0 0 0 0 0", " E pf 0 0 0 0 0 0 0 0 0 1 908"])
EPI_MO = "".join([
    " E obs 0 0 0 0 0 0 0 0 0 0", " E pb 0 0 1 0 0 0 0 0 0 1 901", " E pf 0 0 1 0 0 0 0 0 0 1 902", " E ins 0 0 1 0 1 0 0 0 0 1 903",
    " E rer 0 0 0 0 1 0 0 0 0 0", " E lin 0 0 0 0 0 0 0 0 0 0", " E cap 0 0 0 0 0 0 0 4 0 0", " E qf 0 0 0 0 0 0 0 0 0 0", " E clr 0 0 0 0 0 0 0 0 0 0",
    " E pf 0 0 1 0 0 0 0 0 0 1 908"])
EPI2 = EPI + EPI.replace(" E obs 0", " E obs 1").replace("E pb 0", "E pb 1").replace("E pf 0", "E pf 1").replace("E ins 0", "E ins 1") \
    .replace("E rsz 0", "E rsz 1").replace("E rer 0", "E rer 1").replace("E lin 0", "E lin 1").replace("E rinn 0", "E rinn 1") \
    .replace("E cap 0", "E cap 1").replace("E qf 0", "E qf 1").replace("E asg 0", "E asg 1").replace("E clr 0", "E clr 1")
EPI2_MO = EPI_MO + EPI_MO.replace("E obs 0", "E obs 1").replace("E pb 0", "E pb 1").replace("E pf 0", "E pf 1").replace("E ins 0", "E ins 1") \
    .replace("E rer 0", "E rer 1").replace("E lin 0", "E lin 1").replace("E cap 0", "E cap 1").replace("E qf 0", "E qf 1").replace("E clr 0", "E clr 1")

# calls made after the call under test, on every buffer there is: it left a buffer that works normally
def probe(x):
    return "".join(" E " + z.replace("X", "%d 0" % x) for z in (
        "obs X 0 0 0 0 0 0 0 0", "pb X 0 0 0 0 0 0 0 1 911", "pf X 0 0 0 0 0 0 0 1 912", "obs X 0 0 0 0 0 0 0 0", "ins X 0 0 1 0 0 0 0 1 913",
        "qf X 0 0 0 0 0 0 0 0", "rer X 0 0 1 0 0 0 0 0", "obs X 0 0 0 0 0 0 0 0"))


def probe_mo(x):
    return probe(x).replace("pb %d 0 0" % x, "pb %d 0 1" % x).replace("pf %d 0 0" % x, "pf %d 0 1" % x).replace("ins %d 0 0" % x, "ins %d 0 1" % x)


def prof(name, so, sim=0, seed=0, mo=False, **c):
    """a profile of plans (for plain or space optimized buffers; mo: for move-only elements)"""
    d = dict(DEF)
    d.update(c)
    d["SO"] = bool(so)
    d["Ops"] = set(d["Ops"])
    d["Sim"] = sim > 0
    d["IntRange"] = True
    if d["Epi"] is True:
        d["Epi"] = "".join((probe_mo if mo else probe)(x) for x in range(d["NX"]))
    gone = set()
    if mo:
        gone |= {"insn", "rinn", "insr", "rinr", "rsz", "rrsz", "wr"}
        d["Ks"] = set(d["Ks"]) & {1, 2}
        d["Ts"] = {4}
        d["NKs"] = set(d["NKs"]) & {0, 1, 4, 5, 7}
        d["AKs"] = set(d["AKs"]) & {1, 4, 5}
        gone |= (set() if d["AKs"] else {"asg"}) | (set() if d["NKs"] else {"new"})
    if so:
        gone |= {"erb", "ere"}
        if d["Mins"] == {0}:
            d["Mins"] = {0, 2}
        if not d["Peak"]:
            d["Peak"] = {True}
        if d["Ms"] == {7000}:
            d["Ms"] = {7000, 7002}
    else:
        d["Mins"], d["Peak"] = {0}, set()
        d["NKs"] = set(d["NKs"]) - {8}
        d["Ms"] = {(m // 1000) * 1000 for m in d["Ms"]}
    d["Ops"] -= gone
    d["Lead"] = set(d["Lead"]) - gone
    if not d["Ops"]:
        return None
    return dict(name=name, c=d, sim=sim, seed=seed)


def keep_for(cfg):
    """which calls of a plan exist in configuration cfg (a plan containing another call is left out)"""
    k = CONFIGS[cfg]
    ty = k.get("T", 0)

    def keep(plan):
        z = plan.split()
        n = 1
        while n < len(z):
            o, kk, t, nw = z[n + 1], z[n + 4], z[n + 5], int(z[n + 11])
            if o == "rot" and k.get("FANCY"):
                return False
            if ty == 4 and kk == "1" and o in ("pb", "pf", "ins", "rin"):
                return False
            if t == "6" and o in ("new", "asg") and ty != 2:
                return False
            n += 12 + nw
        return True
    return keep


def job(cfg, flags, profiles, epi=""):
    ps = []
    for p in profiles:
        p, stride = p if isinstance(p, tuple) else (p, 1)
        for q in p if isinstance(p, list) else [p]:
            if q is not None and q["c"]["Ops"]:
                ps.append((q, stride))
    return dict(cfg=cfg, flags=["%s=1" % f for f in flags.split()], profiles=ps, keep=keep_for(cfg), epi=epi)


def walk(so, n, depth, ops=WALK, name="walk", seed=0, mo=False, **c):
    """random histories over three buffers"""
    a = dict(Ops=ops, Depth=depth, Caps={0, 3, 5, 9}, Caps1={4}, NB=2, NX=3, Targets={0, 1, 2}, Small=1,
             Ns={0, 1, 2, 4, 7}, Ls={0, 1, 3}, Ts={0, 1, 2, 3, 4, 5, 6, 7, 8}, Cs={2, 4, 6, 9}, Ms={7000, 8002, 9003})
    a.update(c)
    chunk = max(1, 12000 // depth)
    return [prof("%s%d" % (name, s), so, sim=min(chunk, n - s * chunk), seed=seed * 100 + s, mo=mo, **a) for s in range((n + chunk - 1) // chunk)]


def big(so, ops, caps=(17, 48), name="big", **c):
    """large buffers, characteristic sizes and positions only"""
    a = dict(Ops=ops, Caps=set(caps), Small=3, Ns={0, 1, 7, 60}, Ls={0, 5, 40}, Cs={0, 1, 16, 17, 47, 48, 49, 64}, Ts={1, 2}, Mins={0})
    a.update(c)
    return prof(name, so, **a)


def exh(so, ops, name="exh", **c):
    """every layout and every argument within the constants"""
    return prof(name, so, Ops=ops, **c)


# ---------------------------------------------------------------------------------------------------------------
NEWASG = {"new", "asg"}
TWO = {"asg", "swp", "new", "del"}
MIS1 = set(range(0, 26)) | set(range(26, 47)) | set(range(70, 76)) | set(range(80, 86))
MIS2 = set(range(50, 66))


def jobs_for(prop, tier):
    th = tier == "thorough"
    J = []

    def so(g):
        return bool(CONFIGS[g].get("SO"))

    def mo(g):
        return CONFIGS[g].get("T") == 3

    def add(cfgs, flags, *mk, epi="", stride=1):
        """one job per configuration; mk(so, mo) makes a profile, a (profile, stride) pair or a list of them"""
        for g in cfgs:
            ps = []
            for m in mk:
                x = m(so(g), mo(g))
                if isinstance(x, tuple):
                    ps.append((x[0], max(1, x[1] * stride)))
                elif x is not None:
                    ps.append((x, stride))
            J.append(job(g, flags, ps, epi=({EPI: EPI_MO, EPI2: EPI2_MO}.get(epi, epi) if mo(g) else epi)))

    def E(ops, name="exh", caps=(0, 1, 2, 3), thcaps=None, st=1, **c):
        """exhaustive plans"""
        cp = set(thcaps or caps) if th else set(caps)
        return lambda s, m: (exh(s, ops, name=name, mo=m, Caps=cp - {4} if m else cp, **c), max(1, st // 3) if th else st)

    def W(n, depth=30, ops=WALK, name="walk", seed=0, **c):
        """random histories"""
        k = n * 8 if th else n
        return lambda s, m: [z for z in walk(s, k, depth, ops=ops, name=name, seed=seed, mo=m, **c) if z is not None]

    def S(n, ops, depth=3, name="short", seed=11, **c):
        """short random histories: any calls, then one of the calls in ops, on buffers of any small size"""
        k = n * 8 if th else n
        a = dict(Lead=WALK - {"wr", "que", "at", "cmp"}, Caps={0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12}, Caps1={0, 4, 7}, Ns={0, 1, 2, 3, 4, 7}, Ls={0, 1, 2, 3, 5, 8},
                 Cs={0, 1, 2, 3, 4, 6, 8, 9, 12}, Epi=True)
        a.update(c)
        return lambda s, m: [z for z in walk(s, k, depth, ops=set(ops), name=name, seed=seed, mo=m, **a) if z is not None]

    def H(n, ops, **c):
        """short histories of buffers of some hundred elements"""
        return S(n, ops, depth=2, **dict(dict(name="huge", seed=17, Caps={100, 257, 300}, Small=0, Ts={1, 2}, Peak={False}), **c))

    def V(n, ops, **c):
        """buffers of more than a thousand elements (only with configurations whose allocator allows them)"""
        return S(n, ops, depth=1, **dict(dict(name="vast", seed=18, Caps={1500, 2100}, Caps1={1200}, Small=0, Ts={1, 2}, Peak={False}, Ns={1, 40, 1100}, Ls={2, 1100}, Cs={1000, 1025, 2500}, Epi=""), **c))

    def SF(n, ops, depth=2, **c):
        """short histories with every failure"""
        return S(n, ops, depth=depth, **dict(dict(name="fltshort", seed=13, Flags=1, Caps={2, 4, 5, 6, 8}, Caps1={0, 3, 6}, Epi="", Ts={0, 2, 4}, Ls={0, 2, 4, 7}), **c))

    def B(ops, **c):
        return lambda s, m: big(s, ops, mo=m, **c)

    def std(ops, flags="", cfgs="ABCDFGHJKLMUVYZ", full="AF", walks="AF", num=200, depth=30, wops=None, caps=None, thcaps=None, bigs="AF", stride=5, short=300, **c):
        caps = set(caps or {0, 1, 2, 3, 4})
        w = wops or (set(ops) | PUSH | {"cap", "lin", "rot"})
        for g in cfgs:
            mk = [E(ops, caps=caps, thcaps=thcaps or (caps | {max(caps) + 1, max(caps) + 2}), st=1 if g in full or mo(g) else stride, Epi=True, **c),
                  S(short if g in walks else short // 3, ops)]
            if g in walks:
                mk += [W(num, depth, ops=w), W(num, depth, name="all", seed=3), H(30, ops)]
            else:
                mk += [W(num // 3, depth, ops=w, seed=5)]
            if g in bigs:
                mk.append(B(ops))
            if g in "YZ":
                mk.append(V(12, ops))
            add(g, flags, *mk)

    if prop == "C01":
        std(PUSH, caps={0, 1, 2, 3, 4, 5})
    elif prop == "C02":
        std(INS1 | INSN | INSR, Ts={0, 2, 6}, Ns={0, 1, 2, 4, 6, 9001, 9002, 9003} if th else {0, 1, 2, 4, 6, 9001})
    elif prop == "C03":
        std(ERA, caps={0, 1, 2, 3, 4, 5})
    elif prop == "C04":
        std(CAP | RSZ, flags="OB", Ns={0, 1, 2, 3, 4, 6, 9001, 9002, 1001}, Cs={0, 1, 2, 3, 4, 5, 7, 1001})
    elif prop == "C05":
        new = dict(Caps={0}, Targets={1}, NX=2, Ms={7000, 8002}, Cs={0, 1, 2, 4, 6, 1001}, Ns={0, 1, 2, 4, 6, 1001, 9001}, Ls={0, 1, 2, 4, 5, 6})
        asg = dict(Cs={0, 1, 2, 3, 4, 6, 1001}, Ns={0, 1, 2, 3, 5, 1001, 9001}, Ls={0, 1, 2, 3, 5}, AKs={2, 3, 4, 5})
        for g in "ABCDFGHJKLMUVYZ":
            f = g in "AF"
            ts = {0, 1, 2, 3, 4, 5, 6, 7, 8} if f or th else {0, 2, 4, 5, 6}
            add(g, "OB", lambda s, m: exh(s, {"new"}, name="new", mo=m, Ts=ts, NKs={0, 1, 2, 3, 4, 5, 8}, Epi=True, **new),
                E({"asg"}, caps=(0, 1, 2, 3), thcaps=(0, 1, 2, 3, 4, 5), Ts=ts if th else {0, 2, 4, 6}, st=2 if f else 8, Epi=True, **asg), S(300 if f else 80, NEWASG, AKs={2, 3, 4, 5}, NKs={0, 1, 2, 3, 4, 5, 8}),
                W(200 if f else 80, 25, ops=PUSH | CAP | LIN | NEWASG | {"del", "rsz"}))
            if g in "YZ":
                add(g, "", V(10, NEWASG, AKs={2, 3, 4, 5}, NKs={2, 3, 4, 5, 8}))
            if f:
                add(g, "", B({"asg"}, AKs={2, 3, 4, 5}, Ts={0, 2}, Ns={0, 1, 7, 17, 18, 49, 60}), H(30, NEWASG, AKs={2, 3, 4, 5}, NKs={2, 3, 4, 5, 8}))
    elif prop == "C06":
        two = dict(NB=2, NX=3, caps=(0, 1, 3), thcaps=(0, 1, 2, 3), Caps1={0, 2}, Targets={0, 1, 2}, NKs={6, 7}, AKs={0, 1})
        for g in "ABCDFGHJKLMUY":
            f = g in "AF"
            add(g, "OB" if f else "", E(TWO, st=1 if f else 4, **two), epi=EPI2)
            add(g, "", S(300 if f else 100, TWO, AKs={0, 1}, NKs={6, 7}), *([H(30, TWO, AKs={0, 1}, NKs={6, 7})] if f else []), *([V(8, TWO, AKs={0, 1}, NKs={6, 7})] if g == "Y" else []),
                W(200 if f else 80, 25, ops=TWO | PUSH | {"ins", "rer", "cap", "rsz", "rot", "lin", "wr", "que"}),
                W(150 if f else 50, 30, name="all", seed=3))
    elif prop == "C07":
        std(LIN, flags="OB", caps={0, 1, 2, 3, 4, 5, 6}, thcaps={0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10}, num=200)
    elif prop == "C08":
        ops = {"que", "at", "wr"}
        for g in "ABCDEFGHIJKLMOPSUXYZ":
            f = g in "AF"
            add(g, "OB", E(ops, caps=(0, 1, 2, 3, 4), thcaps=range(8), st=1 if f else 3), S(150 if f else 40, ops), B({"at", "que"}) if f else W(20, 20),
                W(150 if f else 50, 30, ops=WALK - {"cmp"}))
            add(g, "", E({"itm"}, caps=range(6) if f else (0, 1, 3), thcaps=range(8)), S(60 if f else 20, {"itm"}, Epi=""), *([E({"itm"}, name="far", caps=(17, 300), Small=0), H(12, {"itm", "at"}, Epi="")] if g in "AFES" else []), *([E({"itm"}, name="far", caps=(1500,), Small=0, st=1 if g == "Y" else 2)] if g in "YZ" else []))
    elif prop == "C09":
        for g in "ABCDEFGHJKLMUTW":
            f = g in "AF"
            if g in "TW":
                add(g, "", E({"cmp"}, name="cmp3", NB=2, NX=2, Alpha=3, caps=(0, 1, 2), thcaps=(0, 1, 2, 3), Caps1={0, 1, 2}, Targets={0, 1}, st=1 if g == "T" else 3))
                continue
            add(g, "", E({"cmp"}, NB=2, NX=2, Alpha=2, caps=(0, 1, 2, 3), Caps1={0, 2, 3} if f else {0, 3}, st=1 if f else 6),
                W(150 if f else 50, 40, ops=PUSH | CAP | LIN | {"cmp", "ins", "rer", "asg", "swp", "que"}, AKs={0, 1}))
            if f:
                add(g, "", E({"cmp"}, name="cmp3", NB=2, NX=2, Alpha=3, caps=(2,), thcaps=(3,), Caps1={2}, Targets={0, 1}))
    elif prop in ("C10", "C11"):
        ops = ALL1 - {"cmp", "que", "at"}
        fl = "LE"
        for g in ("ABDFGLM" if prop == "C10" else "ABCDFGHJKLMNRSUY"):
            f = g in "AF"
            st = 3 if f or mo(g) else 9 if g in "BGL" else 18
            add(g, fl, E(ops, st=st, Ts={0, 2, 4}, Ls={0, 2, 3}, Ns={0, 1, 2, 4}, Cs={0, 1, 2, 4}, thcaps=(0, 1, 2, 3, 4)),
                E(NEWASG, name="build", caps=(0, 3), NX=2, Targets={0, 1}, st=st, Ts={0, 1, 2, 4, 6}),
                W(80 if f else 30, 25), S(150 if f else 50, ops | NEWASG | {"swp", "del"}))
            if g not in "CHUY":
                add(g, fl, E(ops | NEWASG, name="flt", Flags=1, caps=(0, 1, 3), NX=2, Targets={0, 1}, st=12 if f else 40 if not mo(g) else 4, Ts={0, 2},
                             Ls={0, 3}, Ns={0, 1, 3, 4}, Cs={0, 2, 4}, AKs={0, 2, 3, 4, 5}),
                    W(8 if f else 3, 8, name="fltwalk", seed=9, Flags=1), SF(30 if f else 10, ops | NEWASG), epi=EPI)
    elif prop == "C12":
        for g in "ABCDJKLNU":
            f = g in "AC"
            add(g, "", E(ALL1, st=1 if f or mo(g) else 6, Ts={0, 1, 2, 4, 5}, Ls={0, 1, 3}), W(100, 30), S(250 if f else 100, ALL1 | TWO, Epi=""),
                E(TWO, name="two", NB=2, NX=3, caps=(0, 1, 3), Caps1={0, 3}, Targets={0, 1, 2}, st=1 if f else 4),
                *([B(ALL1 | {"asg"}, Ts={0, 2}, AKs={2, 3, 4, 5}, Ns={0, 1, 7, 17, 18, 40, 49, 60}, Ls={0, 18, 40}), H(60, ALL1 | TWO, Epi="")] if g == "A" else []))
    elif prop == "C13":
        ops = (ALL1 | NEWASG) - {"cmp", "que", "at", "qb", "qf"}
        for g in "ABLDJCN":
            f = g in "AB"
            st = 6 if f else 24 if not mo(g) else 2
            add(g, "LE", E(ops, name="flt", Flags=1, caps=(0, 1, 2, 3), thcaps=(0, 1, 2, 3, 4), NX=2, Targets={0, 1}, st=st, Ts={0, 2},
                           Ls={0, 1, 3}, Ns={0, 1, 2, 4}, Cs={0, 2, 4}, AKs={0, 2, 3, 4, 5}, Ks={0, 1, 2}),
                W(8 if f else 3, 10, name="fltwalk", seed=9, Flags=1), SF(80 if f else 20, ops), SF(40 if f else 12, ops, name="fltlast", seed=14, Flags=3), epi=EPI)
            if f:
                add(g, "LE", E(LIN | {"erar", "rerr"}, name="fltlin", Flags=1, caps=(7, 9), thcaps=(5, 6, 7, 8, 9, 10, 11), st=4), epi=EPI)
                add(g, "LE", E(INSN | INSR | {"asg", "rsz", "rrsz"}, name="rng", Flags=1, caps=(3,), thcaps=(3, 4), st=4, Ts={0, 1, 2, 3, 4, 5, 7, 8},
                               Ls={2, 3}, Ns={2, 3}, Cs={2, 4, 5}, AKs={4, 5}, Ks={0, 2}), epi=EPI)
    elif prop == "C14":
        for g in "ABCLDFGN":
            f = g in "AB"
            ops = CAP | {"at", "asg"}
            add(g, "LE", *([] if so(g) else [E(ops, name="flt", Flags=1, caps=(0, 1, 2, 3, 4), thcaps=range(7), st=1 if f or mo(g) else 3, Cs={0, 1, 2, 3, 4, 6}, AKs={0}, NB=1, NX=1),
                                             E({"asg"}, name="flt2", Flags=1, NB=2, NX=2, caps=(0, 1, 3), Caps1={0, 1, 3}, AKs={0}, Targets={0, 1}, st=1 if f else 3)]),
                E({"new"}, name="fltnew", Flags=1, caps=(0, 3), NX=2, Targets={1}, Cs={0, 1, 3, 5}, Ns={0, 1, 3}, Ls={0, 1, 3, 5}, Ms={8000, 8002},
                  Ts={0, 1, 2, 3, 4, 5, 6, 7, 8}, st=2 if f else 6),
                *([] if so(g) else [SF(50 if f else 15, ops, AKs={0}), SF(40 if f else 12, ops, AKs={0}, name="fltlast", seed=14, Flags=3), W(12 if f else 4, 12, ops=ops | PUSH | {"new", "rot", "lin"}, AKs={0}, name="fltwalk", Flags=1)]), epi=EPI)
    elif prop == "C15":
        silent = {"qb", "qf", "clr", "swp", "del", "que", "at", "rot"}
        for g in "ABCDJKLN":
            f = g in "AB"
            add(g, "LE", E(silent | {"trt"}, caps=(0, 1, 2, 3, 4, 5), thcaps=range(9), st=1 if f or mo(g) else 2),
                E(silent | {"new", "asg"}, name="two", NB=2, NX=3, NKs={0, 7}, AKs={1}, caps=(0, 1, 3), Caps1={0, 2}, Targets={0, 1, 2}, st=1 if f else 3),
                W(60 if f else 20, 25), S(200 if f else 60, silent | {"asg", "new"}, NKs={0, 7}, AKs={1}, Epi=""), *([B(silent), H(30, silent, Epi="")] if g == "A" else []))
        add("FGHMR", "LE", E({"trt"}, caps=(0, 2)))
    elif prop == "C16":
        for g in "ABCDJKLN":
            f = g in "A"
            add(g, "HD", E(ALL1, caps=(0, 1, 2, 3, 4), st=2 if f else 4 if mo(g) else 12, Ts={0, 2, 5}, Ls={0, 1, 3}),
                E(TWO, name="two", NB=2, NX=3, caps=(0, 1, 3), Caps1={0, 2}, Targets={0, 1, 2}, st=2 if f else 8),
                W(100 if f else 30, 30), S(200 if f else 60, ALL1 | TWO, Epi=""), *([B(ALL1 - INSR)] if g == "A" else []))
    elif prop == "C17":
        for g in "EOQIX":
            f = g in "EI"
            add(g, "HD", E(ALL1 | {"itm"}, caps=(0, 1, 2, 3), thcaps=(0, 1, 2, 3, 4), st=2 if f else 6, Ts={0, 2, 5}, Ls={0, 1, 3}),
                E(TWO, name="two", NB=2, NX=3, caps=(0, 1, 3), Caps1={0, 2}, Targets={0, 1, 2}, NKs={0, 3, 5, 6, 7}, Ts={0, 2}, Ls={0, 3}, Ns={0, 2}, Cs={0, 2, 4}, Ms={7000, 8002}, st=2 if f else 6),
                E({"mis"}, name="sing", MKs=set(range(26, 47)) | set(range(80, 86)), caps=(0, 1, 3)),
                E({"mis"}, name="other", MKs=MIS2, NB=2, NX=2, caps=(0, 2), Caps1={0, 2}),
                S(200 if f else 80, ALL1 | TWO, Epi=""),
                W(150 if f else 60, 25, ops=WALK | {"mis", "itm"}, MKs=set(range(26, 47)) | set(range(80, 86)) | MIS2))
            add(g, "HP",
                E((ALL1 | {"del", "swp", "asg"}) - {"at", "que"}, name="cpy", Lead={"new"}, NKs={6, 7}, Depth=2, NB=1, NX=2, caps=(2, 3) if f else (2,), Targets={0, 1}, Ks={0}, Ts={0}, Ls={0, 2}, Ns={0, 2}, Cs={1, 2, 4}, AKs={0, 1, 3}, st=2 if f else 4),
                E((ALL1 | {"del", "swp", "asg"}) - {"at", "que"}, name="cas", Lead={"asg"}, AKs={0, 1, 3}, Depth=2, NB=2, NX=2, caps=(2,), Caps1={1}, Targets={0, 1}, Ks={0}, Ts={0}, Ls={2}, Ns={2}, Cs={2, 4}, st=6 if f else 20),
                S(250 if f else 80, ALL1 | TWO, name="sp", Epi=""), W(120 if f else 40, 15, name="wp"))
    elif prop == "C18":
        for g in "EOQIX":
            f = g in "EI"
            add(g, "OB", E({"mis"}, MKs=MIS1, caps=(0, 1, 2, 3), thcaps=range(7)),
                E({"mis"}, name="other", MKs=MIS2, NB=2, NX=2, caps=(0, 1, 2), Caps1={0, 1, 2}),
                E(ALL1, name="legal", caps=(0, 1, 2, 3), st=2 if f else 6),
                E(NEWASG | {"swp", "del"}, name="two", NB=2, NX=3, caps=(0, 2), Caps1={0, 2}, Targets={0, 1, 2}, Ts={0, 2, 5}, st=3 if f else 9),
                S(200 if f else 80, {"mis"}, MKs=MIS1 | MIS2, Epi=""),
                W(150 if f else 60, 25, ops=WALK | {"mis", "itm"}, MKs=MIS1 | MIS2))
    elif prop == "C19":
        for g in "FGHMPRSIVZ":
            f = g in "FG"
            add(g, "OB" if f else "", E(ALL1, caps=(0, 1, 3, 4), thcaps=range(7), st=3 if f else 2 if mo(g) else 12, Ts={0, 2, 6}),
                S(300 if f else 80, WALK), *([H(30, WALK)] if f else []), W(150 if f else 40, 40), W(60 if f else 20, 25, name="deep", seed=5, Caps={9, 20, 40}, Ops=PUSH | INSN | INSR | ERA | {"cap", "rcap"}, Ns={1, 4, 9, 15}, Ls={3, 8},
                                           Cs={5, 20, 40}))
            if f:
                add(g, "", B(ALL1))
            if g == "Z":
                add(g, "", V(24, ALL1))
    elif prop == "C20":
        for g in "FHGMPZ":
            f = g in "FH"
            c = dict(Ms={7000, 7001, 7002, 7005}, Mins={0, 1, 2})
            ops = ALL1 - {"cmp", "at", "wr", "que"}
            add(g, "LE", E(ops, caps=(0, 1, 3, 6), thcaps=(0, 1, 2, 3, 4, 6, 9), st=8 if f else 4 if mo(g) else 20, Cs={0, 1, 2, 4, 6, 9}, Ts={0, 2}, **c),
                E(CAP, name="copied", Lead={"new"}, Depth=2, NX=2, NKs={6, 7}, caps=(1, 4), Targets={0, 1}, Mins={0, 3}, Cs={1, 3, 5}, Ms={7000, 7001, 7003}, Peak={False}, st=1 if f else 3),
                S(100 if f else 40, CAP, Lead={"new", "asg", "swp", "del", "erar", "pb"}, name="copied", NKs={6, 7}, AKs={0, 1}, Ms={7000, 7001, 8003, 9006}, Mins={0, 1, 4}, Epi=""),
                E(NEWASG, name="build", caps=(0, 3), NX=2, Targets={0, 1}, st=2 if f else 6, Ts={0, 2, 6}, Cs={0, 2, 4, 6}, Ls={0, 1, 3, 5}, AKs={2, 3, 4, 5}, Ms={8000, 8002, 8003, 8005}, Mins={0, 2}),
                W(120 if f else 40, 60, ops=PUSH | ERA | INSN | {"ins"} | ({"cap"} if f else set()), Caps={20, 64, 200}, Caps1={4}, Ns={1, 6, 20, 60}, Cs={20, 64, 100}, NB=1, NX=1, Targets={0}),
                S(250 if f else 80, ops | NEWASG | {"swp"}, Ms={7000, 7001, 8003, 9006}, Mins={0, 1, 4}, Epi=""), *([H(60, ops, Ms={7000, 7100}, Mins={0, 60}, Cs={0, 20, 64, 100, 200}, Epi="")] if f else []), *([V(12, ops, Mins={0, 1000}, Peak={True, False})] if g == "Z" else []),
                W(60 if f else 20, 30, name="all", seed=3, Ms={7000, 7002, 8003, 9001}),
                # growth and shrinkage one by one: around every threshold, and through several
                W(60 if f else 20, 50, ops={"pb", "pf", "qb", "qf"}, name="osc", seed=21, NB=1, NX=1, Targets={0}, Caps={9, 40, 100, 300}, Small=0, Ks={0, 1}, Mins={0, 3}, Peak={True}),
                W(30 if f else 10, 60, ops={"pb", "pf", "insn", "ins"}, name="grow", seed=22, NB=1, NX=1, Targets={0}, Caps={200, 300}, Small=0, Ks={0, 1}, Ns={1, 5}, Mins={0}, Peak={False}),
                W(30 if f else 10, 60, ops={"qb", "qf", "erar", "rer"}, name="shrink", seed=23, NB=1, NX=1, Targets={0}, Caps={200, 300}, Small=0, Ks={0}, Mins={0, 9}, Peak={True, False}),
                *[E({o}, name="only" + o, caps=(48, 120), Small=0, Depth=44, Ks={1} if mo(g) else {0}, Mins={0, 7}, st=1 if f else 3) for o in ("qb", "qf", "pb", "pf")],
                *[W(20 if f else 6, 44, ops={o}, name="only" + o, seed=24, NB=1, NX=1, Targets={0}, Caps={48, 120}, Small=0, Ks={0, 1}, Mins={0, 7}) for o in ("ins", "rin", "era", "rer")])
    elif prop == "C21":
        ops = (ALL1 | NEWASG) - {"cmp", "que", "at"}
        for g in "FGPMHS":
            f = g in "FG"
            st = 12 if f else 40 if not mo(g) else 3
            add(g, "LE", E(ops, name="flt", Flags=1, caps=(0, 1, 3), thcaps=(0, 1, 2, 3, 5), NX=2, Targets={0, 1}, st=st, Ts={0, 2},
                           Ls={0, 1, 3}, Ns={0, 1, 2, 4}, Cs={0, 2, 4}, AKs={0, 2, 3, 4, 5}, Ks={0, 1, 2}, Mins={0, 2}),
                W(10 if f else 3, 10, name="fltwalk", seed=9, Flags=1), SF(60 if f else 15, ops), SF(40 if f else 12, ops, name="fltlast", seed=14, Flags=3), epi=EPI)
            if f:
                add(g, "LE", E(LIN | {"erar", "rerr"}, name="fltlin", Flags=1, caps=(7, 9), thcaps=(5, 6, 7, 8, 9, 10, 11), Mins={0}, Peak={False}, st=9), epi=EPI)
            add(g, "LE", E(CAP | {"asg"}, name="strong", Flags=1, caps=(0, 1, 3, 4), thcaps=range(6), AKs={0}, Cs={0, 1, 2, 3, 5}, Ms={7000, 7001, 7003}, Mins={0, 1}, st=3 if f else 6),
                E({"asg"}, name="strong2", Flags=1, NB=2, NX=2, AKs={0}, caps=(0, 1, 3), Caps1={0, 2}, Targets={0, 1}, st=3 if f else 6), epi=EPI)
    elif prop == "C22":
        ops = ALL1 - {"cmp", "que", "at"}
        for g in "ABDLFGMJ":
            f = g in "ABDFM"
            add(g, "LE", E(ops, caps=(0, 1, 2, 3), thcaps=(0, 1, 2, 3, 4, 5), st=4 if f and not mo(g) else 1 if mo(g) else 12, Ts={0, 2, 4}, Ls={0, 1, 3}),
                E(NEWASG | {"swp"}, name="two", NB=2, NX=3, caps=(0, 2), Caps1={0, 2}, Targets={0, 1, 2}, st=4 if f else 12, Ts={0, 2, 4}),
                W(40 if f else 20, 25), S(150 if f else 50, ops | NEWASG | {"swp"}, Ts={0, 2, 4}, Epi=""), *([B(ops, Ts={2})] if g == "A" else []))
    elif prop == "C23":
        ops = ALL1
        for g in "ABDFGL":
            f = g in "AF"
            add(g, "LE", E(ops, caps=(0, 1, 3), thcaps=(0, 1, 2, 3, 4), st=8 if f else 2 if mo(g) else 24, Ts={2}, Ls={0, 3}), B(ops, caps=(24, 64), Ts={2}) if f else B(ops - INSR, caps=(40,), Ts={2}, Small=1),
                E({"swp", "cmp", "asg"}, name="two", NB=2, NX=2, caps=(24,), Caps1={30}, Small=0, Targets={0}, Mins={0}, Peak={False}, AKs={0, 1}, st=2 if f else 6),
                E(NEWASG, name="build", NB=1, NX=2, caps=(0, 24), Small=0, Targets={0, 1}, Mins={0}, Peak={False}, Ts={2, 4}, Ls={0, 20}, Ns={0, 20}, Cs={0, 24, 40}, st=1 if f else 3),
                S(100 if f else 40, ops | NEWASG | {"swp"}, Caps={10, 20, 40}, Caps1={20}, Ts={2, 4}, Epi=""),
                W(30 if f else 10, 30, Caps={20, 40}, Ns={0, 5, 20}, Ls={0, 10}, Cs={10, 30}))
    elif prop == "C24":
        two = dict(NB=2, NX=3, caps=(0, 1, 3), Caps1={0, 2}, Targets={0, 1, 2}, Ms={7000, 8000, 9000})
        for g in "ABCDFGHJNMS":
            f = g in "AF"
            add(g, "LE", E(TWO, st=12 if f else 36, Ts={0, 2}, Ns={0, 2}, Ls={0, 3}, Cs={0, 3}, **two), epi=EPI2)
            add(g, "LE", S(200 if f else 60, TWO, Ms={7000, 8002, 9000}),
                W(80 if f else 25, 20, ops=TWO | PUSH | {"cap", "ins", "rsz"}, Ms={7000, 8000, 9000}), W(40 if f else 15, 25, name="all", seed=3, Ms={7000, 8002, 9003}))
    elif prop == "C25":
        allt = {0, 1, 2, 3, 4, 5, 6, 7, 8}
        for g in "ABCDFGHJKLM":
            f = g in "ACFH"
            add(g, "", E(INSR, caps=(0, 1, 2, 3), thcaps=range(6), Ts=allt, Ls={0, 1, 2, 3, 4, 5}, st=2 if f else 6 if not mo(g) else 1, Epi=True), S(200 if f else 60, INSR | NEWASG, NKs={4, 5}, AKs={4, 5}, Ts=allt, Ls=set(range(10))),
                E(NEWASG, name="build", caps=(0, 1, 3), NX=2, Targets={0, 1}, NKs={4, 5}, AKs={4, 5}, Ts=allt, Ls={0, 1, 2, 3, 4, 5, 6, 7, 8, 9}, Cs={0, 1, 2, 3, 4, 6}, st=4 if f else 12, Epi=True),
                W(100 if f else 30, 20, ops=INSR | NEWASG | PUSH | {"del", "cap"}, NKs={4, 5}, AKs={4, 5}, Ts=allt, Ls={0, 1, 2, 5, 9}),
                *([B(INSR, Ts=allt, Ls={5, 40})] if g in "AF" else []))
    elif prop == "C26":
        for g in "ABCLFGHPJKSEIUVY":
            f = g in "AFBG"
            add(g, "", E({"pb", "pf", "asg"}, caps=(0, 1, 2, 3, 4, 5), thcaps=range(9), Ks={3}, AKs={0}, Mins={0, 1, 2}),
                S(250 if f else 80, {"pb", "pf"}, Ks={3}, Lead=WALK - {"wr", "que", "at", "cmp", "pb", "pf"}), S(60, {"asg"}, name="self", AKs={0}, Targets={0}, NB=1, Lead=ERA | CAP | RSZ | LIN | {"qf", "qb"}),
                W(120 if f else 40, 30, ops=PUSH | {"asg", "cap", "lin", "rot", "erar", "swp"}, Ks={0, 3}, AKs={0, 1}),
                E({"pb", "pf"}, name="own", caps=(17, 48), Small=3, Ks={3}), *([V(4, {"pb", "pf", "asg"}, AKs={0}, Ks={3})] if g == "Y" else []))
    elif prop == "C27":
        for g in "ABCDJKLN":
            f = g in "AC"
            add(g, "", E({"ro"}, caps=(0, 1, 2, 3, 4, 5), thcaps=range(10)), W(100 if f else 40, 25, ops=WALK | {"ro"}), S(200 if f else 60, {"ro"}, Epi=""), B({"ro"}))
        add("FGHMPRS", "", E({"ro"}, caps=(0, 1, 2, 3, 4, 5), thcaps=range(10)), W(80, 25, ops=WALK | {"ro"}))
    elif prop == "C28":
        for g in "EOQIX":
            f = g in "EI"
            add(g, "", E(ALL1, caps=(0, 1, 2, 3), thcaps=range(6), st=2 if f else 6, Ts={0, 2, 5}, Ls={0, 1, 3}),
                E(TWO, name="two", NB=2, NX=3, caps=(0, 1, 3), Caps1={0, 2}, Targets={0, 1, 2}, Ts={0, 2, 5}, Ls={0, 3}, Ns={0, 2}, Cs={0, 2, 4}, Ms={7000, 8002}, st=2 if f else 6),
                S(200 if f else 80, ALL1 | TWO, Epi=""), W(120 if f else 40, 25), B(ALL1 - INSR) if g == "E" else B(ERA | LIN, caps=(24,)))
    else:
        raise SystemExit("no jobs for " + prop)
    return J
