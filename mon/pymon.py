"""C19 monitor: drive the Python module and compare with what the C++ library did.
usage: pymon.py MODULE_DIR DUMP.jsonl SEED SCALE [--case N]"""
import hashlib, json, random, struct, sys


def hash(x):
    return int(hashlib.sha1(repr(x).encode()).hexdigest()[:15], 16)


mdir, dumpf, seed, scale = sys.argv[1:5]
only = int(sys.argv[6]) if len(sys.argv) > 6 else None
sys.path.insert(0, mdir)
import pyami, amiprobe  # noqa: E402
B = pyami.AmiBase
cnt, sig, samples, nviol = {}, set(), [], 0
evals = 0


def count(k, n=1):
    cnt[k] = cnt.get(k, 0) + n


def viol(case, msg, dump="", group="python"):
    global nviol
    nviol += 1
    print(json.dumps({"viol": {"group": group, "case": case, "key": "", "msg": msg, "dump": dump[:3000]}}), flush=True)


def hexd(d):
    return "%016x" % struct.unpack("<Q", struct.pack("<d", d))[0]


def hexc(z):
    return hexd(z.real) + "+" + hexd(z.imag)


def samec(z, h):
    if hexc(z) == h:
        return True
    a, b = h.split("+")
    f = lambda s: struct.unpack("<d", struct.pack("<Q", int(s, 16)))[0]
    r, i = f(a), f(b)
    return (r != r or i != i) and (z.real != z.real or z.imag != z.imag)


VI, VC = pyami.VectorInt, pyami.VectorComplex
gl = lambda g: [list(g.eps_), list(g.alpha_), g.species_]
pl = lambda p: [list(p.eps_), list(p.alpha_), p.index_, p.multiplicity_, p.der_, list(p.which_g_)]


# ---- constructors and members -------------------------------------------------
def members(rng):
    global evals
    E = {"stat_": B.stat_type, "eff_stat_": B.stat_type, "TYPE_": B.graph_type, "int_type_": B.int_type, "dispersion_": B.disp_type}
    num = {B.stat_type: ["Bose", "Fermi"], B.int_type: ["hubbard", "coulomb"], B.disp_type: ["tb", "fp", "hf"],
           B.graph_type: "Sigma Pi_phuu Pi_phud Hartree Bare Greens density doubleocc Pi_ppuu Pi_ppud DOS ENERGY FORCE".split()}

    def val(enum, i):
        return getattr(enum, num[enum][i])

    ri = lambda: VI([rng.randint(-9, 9) for _ in range(rng.randint(0, 4))])
    rc = lambda: VC([complex(rng.uniform(-3, 3), rng.uniform(-3, 3)) for _ in range(rng.randint(0, 4))])

    def chk(cls, obj, want, what):
        got = getattr(amiprobe, cls)(obj)
        for k, v in want.items():
            if got[k] != v:
                viol(0, "%s: member %s is %r on the C++ side, expected %r" % (what, k, got[k], v), group="members")
                return False
        count("constructor and member observations")
        return True

    cl = lambda v: [(z.real, z.imag) for z in v]
    n, n2, e = rng.randint(0, 50), rng.randint(0, 50), rng.uniform(-5, 5)
    t, it, d = rng.randrange(13), rng.randrange(2), rng.randrange(3)
    ok = chk("parms", B.ami_parms(n, e), {"N_INT_": n, "E_REG_": e, "TYPE_": 0, "N_EXT_": 1, "int_type_": 0, "dispersion_": 0}, "ami_parms(int,double)")
    ok &= chk("parms", B.ami_parms(n, e, val(B.graph_type, t)), {"N_INT_": n, "E_REG_": e, "TYPE_": t, "N_EXT_": 1}, "ami_parms(int,double,type)")
    ok &= chk("parms", B.ami_parms(n, e, val(B.graph_type, t), val(B.int_type, it), val(B.disp_type, d)), {"N_INT_": n, "E_REG_": e, "TYPE_": t, "N_EXT_": 1, "int_type_": it, "dispersion_": d}, "ami_parms(five arguments)")
    en, fr, b, pf = rc(), rc(), rng.uniform(0, 9), rng.uniform(-9, 9)
    ok &= chk("vars", B.ami_vars(), {"energy_": [], "frequency_": [], "prefactor": 1.0, "BETA_": 0.0, "gamma_": 0.0}, "ami_vars()")
    ok &= chk("vars", B.ami_vars(en, fr), {"energy_": cl(en), "frequency_": cl(fr), "prefactor": 1.0, "BETA_": 0.0}, "ami_vars(2)")
    ok &= chk("vars", B.ami_vars(en, fr, b), {"energy_": cl(en), "frequency_": cl(fr), "prefactor": 1.0, "BETA_": b}, "ami_vars(3)")
    ok &= chk("vars", B.ami_vars(en, fr, b, pf), {"energy_": cl(en), "frequency_": cl(fr), "prefactor": pf, "BETA_": b}, "ami_vars(4)")
    ep, al = ri(), ri()
    ok &= chk("g_struct", B.g_struct(), {"eps_": [], "alpha_": [], "stat_": 1, "species_": 0, "pp": -1}, "g_struct()")
    ok &= chk("g_struct", B.g_struct(ep, al), {"eps_": list(ep), "alpha_": list(al), "stat_": 1, "eff_stat_": 1, "species_": 0}, "g_struct(2)")
    s = rng.randrange(2)
    ok &= chk("g_struct", B.g_struct(ep, al, val(B.stat_type, s)), {"eps_": list(ep), "alpha_": list(al), "stat_": s, "eff_stat_": s}, "g_struct(3)")
    ok &= chk("pole_struct", B.pole_struct(), {"eps_": [], "alpha_": [], "multiplicity_": 1, "der_": 0}, "pole_struct()")
    ok &= chk("pole_struct", B.pole_struct(ep, al), {"eps_": list(ep), "alpha_": list(al), "multiplicity_": 1, "der_": 0}, "pole_struct(2)")
    pa, gp = pyami.pole_array_t(), pyami.g_prod_t()
    for _ in range(rng.randint(0, 2)):
        pa.append(B.pole_struct(ri(), ri()))
    for _ in range(rng.randint(0, 2)):
        gp.append(B.g_struct(ri(), ri()))
    got = amiprobe.term(B.term(pf, pa, gp))
    if got["sign"] != pf or [[x["eps_"], x["alpha_"]] for x in got["p_list"]] != [[list(x.eps_), list(x.alpha_)] for x in pa] or [[x["eps_"], x["alpha_"]] for x in got["g_list"]] != [[list(x.eps_), list(x.alpha_)] for x in gp]:
        viol(0, "term(sign, poles, propagators) arrives as %r" % (got,), group="members")
    # each member written from Python changes that member only, and reads back
    makers = {"vars": (B.ami_vars, "poke_vars"), "parms": (lambda: B.ami_parms(n2, 0.0, val(B.graph_type, 0), val(B.int_type, 0), val(B.disp_type, 0)), "poke_parms"), "g_struct": (B.g_struct, "poke_g_struct"), "pole_struct": (B.pole_struct, "poke_pole_struct")}
    for cls, (mk, poke) in makers.items():
        obj = mk()
        getattr(amiprobe, poke)(obj, rng.randint(2, 40))
        view = getattr(amiprobe, cls)(obj)
        for k in list(view):
            evals += 1
            sig.add(hash((cls, k, rng.random())))
            got = getattr(obj, k)
            v = view[k]
            if k in E:
                same = int(got) == v and got == val(E[k], v)
            elif isinstance(v, list) and k in ("energy_", "frequency_"):
                same = cl(got) == v
            elif isinstance(v, list):
                same = list(got) == v
            else:
                same = got == v
            if not same:
                viol(0, "reading %s.%s gives %r, the C++ member holds %r" % (cls, k, got, v), group="members")
                return
        for k in list(view):
            before = getattr(amiprobe, cls)(obj)
            if k in E:
                i = rng.randrange(len(num[E[k]])); setattr(obj, k, val(E[k], i)); want = i
            elif k in ("energy_", "frequency_"):
                x = rc(); setattr(obj, k, x); want = cl(x)
            elif isinstance(view[k], list):
                x = ri(); setattr(obj, k, x); want = list(x)
            elif isinstance(view[k], float):
                want = rng.uniform(-9, 9); setattr(obj, k, want)
            else:
                want = rng.randint(-99, 99); setattr(obj, k, want)
            after = getattr(amiprobe, cls)(obj)
            before[k] = want
            if after != before:
                viol(0, "writing %s.%s = %r changed the object to %r" % (cls, k, want, after), group="members")
                return
            count("member writes observed from C++")


def run(case, d, keep):
    global evals
    rng = random.Random(case * 7919 + int(seed))
    dump = json.dumps({k: d[k] for k in ("n", "type", "ereg", "g", "pts")})
    T = list(B.graph_type.__members__.values())
    T = {int(t): t for t in T}
    if d["type"] not in T:
        return viol(case, "graph type %d is not available in Python" % d["type"], dump)
    u = rng.randrange(3)
    if u == 0:
        pr = B.ami_parms(d["n"], d["ereg"], T[d["type"]])
    elif u == 1:
        pr = B.ami_parms(d["n"], d["ereg"], T[d["type"]], B.int_type.hubbard, B.disp_type.tb)
    else:
        pr = B.ami_parms(99, 0.5) if rng.random() < .5 else B.ami_parms()
        pr.N_INT_ = d["n"]; pr.E_REG_ = d["ereg"]; pr.TYPE_ = T[d["type"]]
    a = B(pr) if rng.random() < .3 else B()
    R0 = pyami.g_prod_t()
    for eps, al, sp in d["g"]:
        v = rng.randrange(3)
        if v == 0:
            g = B.g_struct(VI(eps), VI(al))
        elif v == 1:
            g = B.g_struct(VI(eps), VI(al), B.stat_type.Fermi)
        else:
            g = B.g_struct(); g.eps_ = VI(eps); g.alpha_ = VI(al)
        g.species_ = sp
        R0.append(g)
    if keep and rng.random() < .6:  # containers that already hold another solution
        R, P, S, Tt = keep[0]
    else:
        R, P, S, Tt = pyami.R_t(), pyami.P_t(), pyami.S_t(), pyami.terms()
    a.construct(pr, R0, R, P, S)
    a.construct(d["n"], R0, Tt)
    keep[:] = [(R, P, S, Tt)]
    if [gl(g) for g in R0] != d["g"]:
        return viol(case, "constructing changed the integrand", dump)
    r = [[[gl(g) for g in p] for p in lv] for lv in R]
    p = [[[pl(x) for x in q] for q in lv] for lv in P]
    s = [[list(x) for x in lv] for lv in S]
    t = [[x.sign, [pl(y) for y in x.p_list], [gl(g) for g in x.g_list]] for x in Tt]
    jp = [[[x for x in q] for q in lv] for lv in d["P"]]
    if r != d["R"] or p != jp or s != d["S"]:
        return viol(case, "the SPR solution seen from Python differs from the C++ one", dump)
    if t != d["T"]:
        return viol(case, "the terms seen from Python differ from the C++ ones", dump)
    count("solutions compared field by field")
    # containers that hold something else must be replaced, not extended
    mk = (lambda: (pyami.g_prod_t([B.g_struct(VI([1]), VI([1]))]), pyami.R_ref_t([[(0, 1)]]), pyami.R_ref_t([[(0, 1)]]))) if rng.random() < .5 else (lambda: (pyami.g_prod_t(), pyami.R_ref_t(), pyami.R_ref_t()))
    f1, f2 = mk(), mk()
    a.factorize_Rn(R[len(R) - 1], *f1)
    a.factorize_terms(Tt, *f2)
    evals += 1
    key = hash(dump)
    if key not in sig:
        sig.add(key)
        if len(samples) < 3:
            samples.append("python#%d: %s" % (case, dump[:500]))
    for x in d["pts"]:
        e = VC([complex(*z) for z in x["e"]]); f = VC([complex(*z) for z in x["f"]])
        v = rng.randrange(3)
        if v == 0:
            av = B.ami_vars(e, f, x["beta"], x["pf"])
        elif v == 1:
            av = B.ami_vars(e, f, x["beta"]); av.prefactor = x["pf"]
        else:
            av = B.ami_vars() if rng.random() < .5 else B.ami_vars(e, f)
            av.energy_ = e; av.frequency_ = f; av.BETA_ = x["beta"]; av.prefactor = x["pf"]
        vals = [a.evaluate(pr, R, P, S, av), a.evaluate(pr, Tt, av), a.evaluate(pr, R, P, S, av, *f1), a.evaluate(pr, Tt, av, *f2)]
        for k, nm in enumerate(("evaluate(SPR)", "evaluate(terms)", "evaluate(factorised SPR)", "evaluate(factorised terms)")):
            if not samec(vals[k], x["v"][k]):
                return viol(case, "%s gives %r, the C++ library %s" % (nm, vals[k], x["v"][k]), dump)
            count("values compared bit by bit")
        em = (pyami.g_prod_t(), pyami.R_ref_t(), pyami.R_ref_t())
        if not samec(a.evaluate(pr, R, P, S, av, *em), x["v"][0]):
            return viol(case, "evaluate with empty factorisation lists is not the plain evaluation", dump)
    # what Python writes into a solution is what is evaluated
    w0 = a.evaluate(pr, Tt, av)
    for x in Tt:
        x.sign = 2 * x.sign
    w1 = a.evaluate(pr, Tt, av)
    fin = lambda z: z.real == z.real and z.imag == z.imag and abs(z) < 1e300
    if fin(w0) and fin(w1) and not abs(w1 - 2 * w0) <= 1e-250:
        return viol(case, "doubling the sign of every term from Python changed the value from %r to %r" % (w0, w1), dump)
    count("solutions edited from Python")


rng = random.Random(int(seed))
if only is None:
    for _ in range(max(20, int(60 * float(scale)))):
        members(rng)
        if nviol >= 5:
            break
keep = []
for i, line in enumerate(open(dumpf)):
    if only is not None and i != only:
        continue
    run(i, json.loads(line), keep)
    if nviol >= 8:
        break
print(json.dumps({"stats": {"evals": evals, "counters": cnt, "max": {}, "samples": samples, "sig": [str(x) for x in sig]}}))
sys.stdout.flush()
