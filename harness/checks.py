"""Registry: which specification and which driver decide each property.

mc: model checking of the specification (tier omitted: both tiers);
families: driver + trace specification, gen: behaviours generated by TLC."""


def both(module):
    """quick configuration in the quick tier, thorough configuration in the thorough one"""
    return [{"module": module, "cfg": module + ".cfg", "tier": "quick"},
            {"module": module, "cfg": module + "_thorough.cfg", "tier": "thorough"}]


def fun(driver, trace=None):
    return {"driver": driver, "trace": trace or "Trace" + driver.capitalize()}


def hist(driver, trace, gen=None, prop=None):
    d = {"driver": driver, "trace": trace, "hist": True, "gen": both(gen) if gen else []}
    if prop:
        d["prop"] = prop
    return d


CHECKS = {
    "D01": {"families": [hist("heaps", "TraceLeftist", "LeftistGen")]},
    "D02": {"families": [hist("heaps", "TracePairing", "PairingGen")]},
    "D03": {"families": [hist("structs", "TraceUnionFind", "PartitionGen"), hist("structs", "TraceNamed", "NamedGen", "D03n")]},
    "D04": {"families": [hist("structs", "TraceStrike", "StrikeGen")]},
    "U01": {"families": [hist("structs", "TraceMemo", "MemoGen")]},
    "G01": {"families": [hist("graphobj", "TraceGraphObject", "GraphObjectGen")]},
    "G03": {"mc": both("PathsMC"), "families": [fun("paths")]},
    "G04": {"mc": both("TreesMC"), "families": [fun("trees")]},
    "G05": {"mc": both("TreesMC"), "families": [fun("trees")]},
    "G06": {"mc": both("TraversalMC"), "families": [fun("trees")]},
    "G07": {"mc": both("CliquesMC"), "families": [fun("cliques")]},
    "G08": {"mc": both("CliquesMC"), "families": [fun("cliques")]},
    "G09": {"mc": both("CliquesMC"), "families": [fun("cliques")]},
    "G10": {"mc": both("CliquesMC"), "families": [fun("cliques")]},
    "G11": {"mc": both("SteinerMC"), "families": [fun("steiner")]},
    "G12": {"mc": both("HamiltonMC"), "families": [fun("hamilton")]},
    "G13": {"mc": both("DegreesMC"), "families": [fun("degrees")]},
    "G02": {"mc": both("DerivedMC"), "families": [fun("derived")]},
    "C01": {"mc": both("GenerationMC"), "families": [fun("generation")]},
    "C02": {"mc": both("GenerationMC"), "families": [fun("generation")]},
    "C03": {"mc": both("CountingMC"), "families": [fun("counting")]},
    "C04": {"mc": both("CountingMC"), "families": [fun("counting")]},
    "C05": {"mc": both("ExactCoverMC"), "families": [fun("exactcover")]},
    "C06": {"mc": both("PackingMC"), "families": [fun("packing")]},
    "C07": {"mc": both("ToursMC"), "families": [fun("tours")]},
    "C08": {"mc": both("AlphameticMC"), "families": [fun("alphametic")]},
    "N01": {"mc": both("ElementaryMC") + both("BigMC"), "families": [fun("elementary")]},
    "N02": {"mc": both("ElementaryMC") + both("BigMC"), "families": [fun("elementary")]},
    "N03": {"mc": both("ElementaryMC") + both("BigMC"), "families": [fun("elementary")]},
    "N04": {"mc": both("PrimalityMC"), "families": [fun("primality")]},
    "N05": {"mc": both("SievesMC") + both("PrimeSumsMC"), "families": [fun("sieves")]},
    "N06": {"mc": both("PrimeSumsMC"), "families": [fun("primecount")]},
    "N07": {"mc": both("BigMC") + both("FactoringMC"), "families": [fun("factoring")]},
    "N08": {"mc": both("DivisorsMC"), "families": [fun("divisors")]},
    "N09": {"mc": both("ArithMC"), "families": [fun("arith")]},
    "N10": {"mc": both("ArithMC"), "families": [fun("tables")]},
    "N14": {"mc": both("ClassifyMC"), "families": [fun("classify")]},
    "N11": {"mc": both("InverseMC"), "families": [fun("inversephi")]},
    "N12": {"mc": both("ZnMC"), "families": [fun("znarith")]},
    "N13": {"mc": both("ZnMC"), "families": [fun("znarith")]},
    "N15": {"mc": both("ContFracMC"), "families": [fun("contfrac")]},
    "N16": {"mc": both("ContFracMC") + both("PellMC"), "families": [fun("pell")]},
    "N17": {"mc": both("ProgressionsMC"), "families": [fun("progressions")]},
    "N18": {"mc": both("OptimiseMC"), "families": [fun("optimise")]},
    "A01": {"mc": both("PolyMC"), "families": [fun("algebra")]},
    "A02": {"mc": both("PolyMC"), "families": [fun("algebra")]},
    "A03": {"mc": both("SeriesMC"), "families": [fun("algebra")]},
    "A04": {"mc": both("MatrixMC"), "families": [fun("matrices")]},
}
