"""The deciding method, and what its verdict means, per property."""
POLY = "gated value-flow analysis with canonical index-notation polynomials, compared with first-principles references"
COND = "gated value-flow analysis of the recognisers; their offer conditions are compared as BDDs with the specified ones"
FLOW = "gated value-flow (global value numbering) of the construction code with effects; projections are compared with their specification"
REGISTRY = "abstract interpretation of module initialisation with registration effects"
_EXACT = (
    "For every input and every alternative of the kernel's code, under the trusted table of Aesara's parametrisations "
    "(DESIGN.md) and exact real arithmetic. "
)
_GRAPH = "For every model graph, on every path of the analysed functions; Aesara's own functions are opaque value constructors. "
NOTES = {
    "C01": (POLY, _EXACT + "The steps are read off the recognisers. Known finding K4 is recorded."),
    "C02": (POLY, _EXACT + "Shapes (n, p) of the design matrix are symbolic."),
    "C03": (POLY, _EXACT + "Precision matrices are taken to be symmetric positive definite."),
    "C04": (POLY, _EXACT + "Trusts the Polya-Gamma identity and that PG draws are what their name says."),
    "C05": (POLY, _EXACT),
    "C06": (POLY, _EXACT + "Known finding K1 is recorded."),
    "C07": (POLY, _EXACT + "Filtered probabilities are compared up to state-independent factors."),
    "C08": (COND, _GRAPH),
    "C09": (FLOW, _GRAPH + "The keys of the returned mappings and the arguments of the general sampler."),
    "C10": (FLOW, _GRAPH + "The replacements made in each step and their order."),
    "C11": (FLOW, _GRAPH),
    "C12": (FLOW, _GRAPH + "What aeppl's transforms and aehmc's NUTS kernel compute is trusted."),
    "C13": (FLOW, _GRAPH + "Effects are those of the modelled Aesara functions; clone_get_equiv is trusted to copy."),
    "C14": (FLOW, _GRAPH + "DimShuffle composition is the specified one."),
    "C15": (FLOW, _GRAPH + "aesara.scan is trusted to apply the updates between draws."),
    "C16": (FLOW, "For every combination of mappings and orders, including the exceptions."),
    "C17": (FLOW, _GRAPH),
    "C18": (FLOW, "For every parameter expression, as goals over expression tuples. Known findings K2 and K3 are recorded."),
    "C19": (REGISTRY, "For the registrations made by importing the package."),
    "C20": (FLOW, _GRAPH + "Iteration over sets is tracked as a value."),
    "C21": (FLOW, "For every argument; the polyagamma package's sampler is trusted."),
    "C22": (FLOW, "For every mapping of steps."),
    "C23": (FLOW, _GRAPH + "For every sequence of results that a recogniser can return."),
}
