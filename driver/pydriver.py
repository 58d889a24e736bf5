"""The driver for the Python module: the same operations and the same trace as
driver.cpp, through pyami.   pydriver.py DIR-OF-PYAMI < cases > trace"""
import json, math, os, select, signal, sys, time
sys.path.insert(0, sys.argv[1])
import pyami

A = pyami.AmiBase
LN2 = math.log(2.0)


def dbl(x):
    if math.isnan(x):
        return "nan"
    if math.isinf(x):
        return "inf" if x > 0 else "-inf"
    return "%.17e" % x


def rat(d):
    for k in [1, 2] + list(range(4, 16)):
        v = d * math.factorial(k)
        r = math.floor(v + 0.5)
        if abs(v - r) <= 1e-12 * abs(v) and abs(r) < 1e6:
            return [int(r), math.factorial(k)] if k <= 12 else [int(r), math.factorial(12), math.factorial(k) // math.factorial(12)]
    return [0, 0]


def show_g(g):
    return {"a": list(g.alpha_), "e": list(g.eps_), "s": g.species_}


def show_pole(p):
    return {"a": list(p.alpha_), "e": list(p.eps_), "i": p.index_, "m": p.multiplicity_, "d": p.der_, "g": list(p.which_g_)}


def show_spr(a):
    R, P, S = a
    return {"R": [[[show_g(g) for g in q] for q in x] for x in R],
            "P": [[[show_pole(p) for p in q] for q in x] for x in P],
            "S": [[[rat(s) for s in q] for q in x] for x in S]}


def show_terms(ts):
    return [{"sg": rat(t.sign), "p": [show_pole(p) for p in t.p_list], "g": [show_g(g) for g in t.g_list]} for t in ts]


def refs(r):
    return [[[int(x[0]), int(x[1])] for x in v] for v in r]


def show_fac(f):
    return {"U": [show_g(g) for g in f[0]], "Ref": refs(f[1]), "Ev": refs(f[2])}


class Session:
    def __init__(self):
        self.ami = A()
        self.spr, self.terms, self.fac = {}, {}, {}

    # how: which constructor, or setting the attributes one by one
    def g(self, l, byattr):
        if byattr:
            x = A.g_struct()
            x.alpha_ = pyami.VectorInt(l["a"])
            x.eps_ = pyami.VectorInt(l["e"])
        else:
            x = A.g_struct(pyami.VectorInt(l["e"]), pyami.VectorInt(l["a"]))
        x.species_ = l.get("s", 0)
        return x

    def R0(self, op):
        return self.gprod(op["R0"], op.get("ctor", 1) % 2)

    def gprod(self, ls, how):
        if how:
            r = pyami.g_prod_t()
            for l in ls:
                r.append(self.g(l, True))
            return r
        return pyami.g_prod_t([self.g(l, False) for l in ls])

    def pole(self, q, how):
        if how:
            p = A.pole_struct()
            p.eps_ = pyami.VectorInt(q["e"])
            p.alpha_ = pyami.VectorInt(q["a"])
        else:
            p = A.pole_struct(pyami.VectorInt(q["e"]), pyami.VectorInt(q["a"]))
        p.index_ = q.get("i", 0)
        p.der_ = q.get("d", 0)
        return p

    def term(self, t, how):
        ps = pyami.pole_array_t([self.pole(q, how) for q in t["p"]])
        if how:
            x = A.term()
            x.sign = t["sg"][0] / t["sg"][1]
            x.p_list = ps
            x.g_list = self.gprod(t["g"], how)
            return x
        return A.term(t["sg"][0] / t["sg"][1], ps, self.gprod(t["g"], how))

    def parms(self, op):
        q = op.get("ereg", [0, 1])
        if op.get("ctor", 0) == 1 or op.get("ctor", 0) == 3:
            p = A.ami_parms()
            p.N_INT_ = op["n"]
            p.E_REG_ = q[0] / q[1]
            return p
        return A.ami_parms(op["n"], q[0] / q[1])

    def point(self, v):
        den, wden = float(v["den"]) * 2.0 ** v.get("ex", 0), float(v["wden"])
        beta = v["beta"][0] / v["beta"][1] if "beta" in v else v["kk"] * float(v["den"]) * LN2
        ei = v.get("ei", [0] * len(v["e"]))
        wr = v.get("wr", [0] * len(v["w"]))
        E = [complex(a / den, b / den) for a, b in zip(v["e"], ei)]
        X = [complex(a / wden, b / wden) for a, b in zip(wr, v["w"])]
        pf = v.get("pf", [1, 1])
        pf = pf[0] / pf[1]
        E, X, how = pyami.VectorComplex(E), pyami.VectorComplex(X), v.get("ctor", 0)
        if how == 1:
            return A.ami_vars(E, X, beta, pf)
        x = A.ami_vars(E, X, beta) if how == 0 else A.ami_vars(E, X) if how == 2 else A.ami_vars()
        if how == 3:
            x.energy_ = E
            x.frequency_ = X
        x.BETA_ = beta
        if pf != 1:
            x.prefactor = pf
        return x

    def value(self, v, before, after):
        return {"v": [dbl(v.real), dbl(v.imag)], "ovf": 0, "mut": 0 if before == after else 1}

    def run(self, op):
        k, ami = op["op"], self.ami
        out = op.get("out", 1)
        if k == "spr":
            a = self.spr.setdefault(op["dst"], (pyami.R_t(), pyami.P_t(), pyami.S_t()))
            ami.construct(self.parms(op), self.R0(op), a[0], a[1], a[2])
            return {"res": show_spr(a)} if out else {"ok": 1}
        if k == "object":
            self.ami = A(A.ami_parms(1, 0.0)) if op["ctor"] else A()
            return {"ok": 1}
        if k == "set_terms":
            self.terms[op["dst"]] = pyami.terms([self.term(t, op.get("ctor", 0) % 2) for t in op["terms"]])
            return {"ok": 1}
        if k == "terms":
            t = self.terms.setdefault(op["dst"], pyami.terms())
            ami.construct(op["n"], self.R0(op), t)
            return {"res": show_terms(t)} if out else {"ok": 1}
        if k in ("fact_spr", "fact_terms"):
            f = self.fac.setdefault(op["dst"], (pyami.g_prod_t(), pyami.R_ref_t(), pyami.R_ref_t()))
            if k == "fact_spr":
                R = self.spr[op["src"]][0]
                ami.factorize_Rn(R[len(R) - 1], f[0], f[1], f[2])
            else:
                ami.factorize_terms(self.terms[op["src"]], f[0], f[1], f[2])
            return {"res": show_fac(f)} if out else {"ok": 1}
        if k in ("eval_spr", "eval_spr_opt", "eval_terms", "eval_terms_opt"):
            p, x = self.parms(op), self.point(op["vars"])
            c = self.spr[op["src"]] if "spr" in k else (self.terms[op["src"]],)
            f = self.fac.setdefault(op["fac"], (pyami.g_prod_t(), pyami.R_ref_t(), pyami.R_ref_t())) if k.endswith("opt") else ()

            def all_():
                return (p.N_INT_, p.E_REG_, list(x.energy_), list(x.frequency_), x.BETA_, x.prefactor,
                        show_spr(c) if len(c) == 3 else show_terms(c[0]), show_fac(f) if f else 0)
            b = all_()
            v = ami.evaluate(p, *c, x, *f)
            return self.value(v, b, all_())
        if k == "dump_spr":
            return {"res": show_spr(self.spr[op["src"]])}
        if k == "dump_terms":
            return {"res": show_terms(self.terms[op["src"]])}
        if k == "dump_fac":
            return {"res": show_fac(self.fac[op["src"]])}
        return None


def run_case(c, out):
    s = Session()
    for op in c["ops"]:
        try:
            for _ in range(op.get("times", 1)):    # how often it is performed, the last outcome being recorded
                r = s.run(op)
        except Exception as e:
            out.write(json.dumps({"in": {"op": "CRASH"}, "what": "%s in %s: %s" % (type(e).__name__, op["op"], str(e)[:200])}) + "\n")
            break
        if r is None:
            continue
        e = {"in": op}
        e.update(r)
        out.write(json.dumps(e, separators=(",", ":")) + "\n")
    out.flush()


def main():
    out = os.fdopen(os.dup(1), "w")
    null = os.open("/dev/null", os.O_WRONLY)
    os.dup2(null, 1)
    os.dup2(null, 2)
    for line in sys.stdin:
        c = json.loads(line)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            run_case(c, os.fdopen(w, "w"))
            os._exit(0)
        os.close(w)
        got, end, late = b"", time.monotonic() + 60, False
        while True:
            left = end - time.monotonic()
            if left <= 0:
                late = True
                os.kill(pid, signal.SIGKILL)
                break
            if not select.select([r], [], [], left)[0]:
                continue
            b = os.read(r, 65536)
            if not b:
                break
            got += b
        os.close(r)
        st = os.waitpid(pid, 0)[1]
        evs = got.decode().split("\n")[:-1]
        if late or st != 0:
            evs.append(json.dumps({"in": {"op": "CRASH"}, "what": "timeout" if late else "status %d" % st}))
        out.write('{"id":%d,"ev":[%s]}\n' % (c["id"], ",".join(evs)))
        out.flush()


main()
