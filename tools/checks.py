"""The checks: which models, generators, drivers and trace specs decide each property."""

CHECKS = {}
NOTES = {}


def check(prop):
    def deco(f):
        CHECKS[prop] = f
        return f
    return deco


COO_OPS = {"new", "from", "put", "clear", "assign", "add", "assign_real", "add_real", "lagrange", "scalevals", "show", "mul", "mulup", "tmul", "crash"}


def sparse(c, relevant):
    c.model("MC_Sparse", consts={"Depth": 5 if c.thorough else 4})
    sc = c.generate("MC_Sparse", "GenSparse", limit=6000 if c.thorough else 1200)
    sc += c.generate("MC_Sparse", "SimSparse", simulate=150 if c.thorough else 40, depth=16, limit=1500 if c.thorough else 300)
    sc += c.random_stimuli("sparse", 5000 if c.thorough else 1000)
    tr = c.execute("sparse", sc)
    c.count_kinds(tr)
    c.validate("SparseTrace", tr, relevant=relevant)


@check("S01")
def s01(c):
    sparse(c, lambda e: e["e"] in COO_OPS)


@check("S02")
def s02(c):
    sparse(c, lambda e: e["e"] not in COO_OPS or e["e"] == "crash")


@check("S03")
def s03(c):
    c.model("MC_LinSolver", consts={"Depth": 8 if c.thorough else 6})
    sc = c.generate("MC_LinSolver", "GenLinSolver", consts={"Gen": 4}, limit=6000 if c.thorough else 1500)
    sc += c.generate("MC_LinSolver", "GenLinSolver", consts={"Gen": 9}, simulate=100 if c.thorough else 20, depth=12, limit=1500 if c.thorough else 300)
    sc += c.random_stimuli("lin", 12000 if c.thorough else 2000)
    tr = c.execute("lin", sc)
    c.count_kinds(tr)
    c.validate("LinSolverTrace", tr)


@check("S04")
def s04(c):
    c.model("MC_MatMarket")
    sc = c.generate("MC_MatMarket", consts={"Gen": 1}, limit=None if c.thorough else 1500)
    sc += c.random_stimuli("mm", 12000 if c.thorough else 2000)
    tr = c.execute("mm", sc)
    c.count_kinds(tr)
    c.validate("MatMarketTrace", tr)


def ode(c, area, n, nt, gen):
    c.model("MC_Ode", consts={"MaxTry": 7 if c.thorough else 5})
    sc = c.generate("GenOde", consts={"Area": '"%s"' % area}, limit=None if c.thorough else gen)
    sc += c.random_stimuli("ode" + area, nt if c.thorough else n)
    tr = c.execute("ode" + area, sc)
    c.count_kinds(tr)
    c.validate("OdeTrace", tr)


@check("O01")
def o01(c):
    ode(c, "a", 1500, 12000, 1500)


@check("O02")
def o02(c):
    ode(c, "b", 800, 8000, 800)


@check("O03")
def o03(c):
    ode(c, "c", 1200, 9000, 700)


@check("O04")
def o04(c):
    ode(c, "d", 3000, 30000, 1500)


@check("O05")
def o05(c):
    c.model("MC_Stiff", consts={"Most": 11 if c.thorough else 9})
    sc = c.generate("GenStiff", consts={"Most": 8 if c.thorough else 6})
    sc += c.random_stimuli("odee", 12000 if c.thorough else 1500)
    tr = c.execute("odee", sc)
    c.count_kinds(tr)
    c.validate("StiffTrace", tr)


def config(c, n, nt, limit):
    c.model("MC_Config", consts={"Depth": 5 if c.thorough else 4})
    sc = c.generate("GenConfig", consts={"Prop": '"%s"' % c.prop}, limit=None if c.thorough else limit)
    sc += c.random_stimuli(c.prop, nt if c.thorough else n)
    tr = c.execute("cfg", sc)
    c.count_kinds(tr)
    c.validate("ConfigTrace", tr)


@check("O06")
def o06(c):
    config(c, 600, 6000, 700)


@check("N04")
def n04(c):
    config(c, 1500, 12000, 1500)


def nonlin(c, n, nt):
    c.model("MC_Nonlin", consts={"MaxTry": 12 if c.thorough else 8, "Target": 17 if c.thorough else 11})
    sc = c.generate("GenNonlin", consts={"Prop": '"%s"' % c.prop}, limit=({"N02": 1500}.get(c.prop) if c.thorough else {"N02": 250}.get(c.prop, 700)))
    sc += c.random_stimuli(c.prop, nt if c.thorough else n)
    tr = c.execute("nonlin", sc)
    c.count_kinds(tr)
    c.validate("NonlinTrace", tr)


@check("N01")
def n01(c):
    nonlin(c, 1500, 12000)


@check("N02")
def n02(c):
    nonlin(c, 800, 6000)


@check("N03")
def n03(c):
    nonlin(c, 1500, 12000)


def pde(c, n, nt, gen):
    c.model("MC_Pde", consts={"Depth": 4 if c.thorough else 3})
    sc = c.generate("GenPde", consts={"Prop": '"%s"' % c.prop}, limit=None if c.thorough else gen)
    sc += c.random_stimuli(c.prop, nt if c.thorough else n)
    tr = c.execute("pde", sc)
    c.count_kinds(tr)
    c.validate("PdeTrace", tr)


@check("D01")
def d01(c):
    pde(c, 2000, 20000, 1500)


@check("D02")
def d02(c):
    pde(c, 1500, 10000, 700)


@check("D03")
def d03(c):
    c.model("MC_Spectral", consts={"MaxDeg": 4 if c.thorough else 3})
    sc = c.generate("GenSpectral")
    sc += c.random_stimuli(c.prop, 40000 if c.thorough else 2500)
    tr = c.execute("spc", sc)
    c.count_kinds(tr)
    c.validate("SpectralTrace", tr)


@check("D04")
def d04(c):
    c.model("MC_Mapping", consts={"R": 3 if c.thorough else 1})
    sc = c.generate("GenMapping")
    sc += c.random_stimuli(c.prop, 60000 if c.thorough else 3000)
    tr = c.execute("map", sc)
    c.count_kinds(tr)
    c.validate("MappingTrace", tr)


@check("L01")
def l01(c):
    c.model("MC_Dense", consts={"Steps": 3 if c.thorough else 2, "Wide": "TRUE" if c.thorough else "FALSE"})
    sc = c.random_stimuli(c.prop, 60000 if c.thorough else 4000)
    tr = c.execute("la", sc)
    c.count_kinds(tr)
    c.validate("DenseTrace", tr)

@check("L02")
def l02(c):
    c.model("MC_Factor", consts={"R": 2 if c.thorough else 1})
    sc = c.generate("GenFactor", consts={"R": 3 if c.thorough else 1})
    sc += c.random_stimuli(c.prop, 100000 if c.thorough else 3000)
    tr = c.execute("fac", sc)
    c.count_kinds(tr)
    c.validate("FactorTrace", tr)


@check("L03")
def l03(c):
    c.model("MC_Order", consts={"N": 7 if c.thorough else 5})
    sc = c.generate("GenOrder", consts={"N": 7 if c.thorough else 5})
    sc += c.random_stimuli(c.prop, 40000 if c.thorough else 3000)
    tr = c.execute("ord", sc)
    c.count_kinds(tr)
    c.validate("OrderTrace", tr)


@check("L04")
def l04(c):
    c.model("MC_Text", consts={"N": 3 if c.thorough else 2})
    sc = c.generate("GenText", consts={"N": 3 if c.thorough else 2})
    sc += c.random_stimuli(c.prop, 40000 if c.thorough else 4000)
    tr = c.execute("txt", sc)
    c.count_kinds(tr)
    c.validate("TextTrace", tr)


@check("L05")
def l05(c):
    c.model("MC_Search", consts={"N": 6 if c.thorough else 4, "W": 1})
    sc = c.generate("GenSearch", consts={"R": 4 if c.thorough else 2})
    sc += c.random_stimuli(c.prop, 40000 if c.thorough else 3000)
    tr = c.execute("sea", sc)
    c.count_kinds(tr)
    c.validate("SearchTrace", tr)


@check("L06")
def l06(c):
    c.model("MC_Newton", consts={"Its": 4 if c.thorough else 3, "Levels": 2})
    sc = c.generate("GenNewton", consts={"R": 4 if c.thorough else 2})
    sc += c.random_stimuli(c.prop, 60000 if c.thorough else 4000)
    tr = c.execute("nwt", sc)
    c.count_kinds(tr)
    c.validate("NewtonTrace", tr)


@check("L07")
def l07(c):
    c.model("MC_Approx", consts={"C": 2 if c.thorough else 1, "Most": 4 if c.thorough else 3})
    sc = c.generate("GenApprox", consts={"R": 4 if c.thorough else 2})
    sc += c.random_stimuli(c.prop, 60000 if c.thorough else 4000)
    tr = c.execute("app", sc)
    c.count_kinds(tr)
    c.validate("ApproxTrace", tr)


@check("L08")
def l08(c):
    c.model("MC_Special", consts={"N": 9 if c.thorough else 8, "R": 250 if c.thorough else 60})
    sc = c.generate("GenSpecial", consts={"W": 4 if c.thorough else 2})
    sc += c.random_stimuli(c.prop, 60000 if c.thorough else 3000)
    tr = c.execute("spf", sc)
    c.count_kinds(tr)
    c.validate("SpecialTrace", tr)


@check("A01")
def a01(c):
    c.model("MC_Stat", consts={"D": 5 if c.thorough else 4})
    sc = c.generate("GenStat", consts={"N": 5 if c.thorough else 4, "M": 4 if c.thorough else 3})
    sc += c.random_stimuli(c.prop, 100000 if c.thorough else 6000)
    tr = c.execute("sta", sc)
    c.count_kinds(tr)
    c.validate("StatTrace", tr)


@check("A02")
def a02(c):
    c.model("MC_Dist", consts={"K": 48 if c.thorough else 40})
    sc = c.generate("GenDist", consts={"W": 4 if c.thorough else 1})
    sc += c.random_stimuli(c.prop, 20000 if c.thorough else 2000)
    tr = c.execute("sta", sc)
    c.count_kinds(tr)
    c.validate("DistTrace", tr)


@check("T01")
def t01(c):
    c.model("MC_Tensor", consts={"D": 3 if c.thorough else 2})
    sc = c.generate("GenTensor")
    sc += c.random_stimuli(c.prop, 12000 if c.thorough else 1200)
    tr = c.execute("ten", sc)
    c.count_kinds(tr)
    c.validate("TensorTrace", tr)


@check("T02")
def t02(c):
    c.model("MC_TensorOps", consts={"K": 5 if c.thorough else 3})
    sc = c.generate("GenTensorOps")
    sc += c.random_stimuli(c.prop, 100000 if c.thorough else 12000)
    tr = c.execute("ten", sc)
    c.count_kinds(tr)
    c.validate("TensorOpsTrace", tr)


@check("T03")
def t03(c):
    c.model("MC_Invariants", consts={"K": 4 if c.thorough else 3})
    sc = c.generate("GenInvariants")
    if c.thorough:
        sc += c.generate("GenInvariants", consts={"W": 1})
    sc += c.random_stimuli(c.prop, 60000 if c.thorough else 6000)
    tr = c.execute("ten", sc)
    c.count_kinds(tr)
    c.validate("InvariantsTrace", tr)
