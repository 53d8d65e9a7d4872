from collections.abc import Mapping
from functools import wraps
from typing import Callable, Dict, Iterable, List, Optional, Sequence, Set, Tuple, Union

from aeppl.rewriting import MeasurableConversionTracker
from aesara.compile.builders import OpFromGraph
from aesara.compile.mode import optdb
from aesara.graph.basic import Apply, Variable, clone_get_equiv, io_toposort
from aesara.graph.features import AlreadyThere, Feature
from aesara.graph.fg import FunctionGraph
from aesara.graph.op import Op
from aesara.graph.rewriting.basic import in2out, node_rewriter
from aesara.graph.rewriting.db import SequenceDB
from aesara.tensor.elemwise import DimShuffle, Elemwise
from aesara.tensor.random.op import RandomVariable
from aesara.tensor.random.utils import RandomStream
from aesara.tensor.rewriting.shape import ShapeFeature
from aesara.tensor.var import TensorVariable
from cons.core import _car
from unification.core import _unify

from aemcmc.utils import remove_constants

SamplerFunctionReturnType = Optional[
    Iterable[Tuple[Variable, Variable, Dict[Variable, Variable]]]
]
SamplerFunctionType = Callable[
    [FunctionGraph, Apply, RandomStream], SamplerFunctionReturnType
]
LocalRewriterReturnType = Optional[Union[Dict[Variable, Variable], Sequence[Variable]]]

sampler_ir_db = SequenceDB()
sampler_ir_db.name = "sampler_ir_db"
sampler_ir_db.register(
    "sampler_canonicalize",
    optdb.query("+canonicalize"),
    "basic",
)

sampler_rewrites_db = SequenceDB()
sampler_rewrites_db.name = "sampler_rewrites_db"

sampler_finder_db = SequenceDB()
sampler_finder_db.name = "sampler_finder_db"

sampler_rewrites_db.register(
    "sampler_finders",
    sampler_finder_db,
    "basic",
    position=0,
)


def construct_ir_fgraph(
    obs_rvs_to_values: Dict[Variable, Variable], clone=True
) -> Tuple[
    FunctionGraph,
    Dict[Variable, Variable],
    Dict[Variable, Variable],
    Dict[Variable, Variable],
]:
    memo = {v: v for v in obs_rvs_to_values.values()}

    rv_outputs = tuple(
        node.outputs[1]
        for node in io_toposort([], list(obs_rvs_to_values.keys()))
        if isinstance(node.op, RandomVariable)
    )

    observed_vars = tuple(obs_rvs_to_values.keys())

    assert all(obs_rv in obs_rvs_to_values for obs_rv in observed_vars)

    fgraph = FunctionGraph(
        outputs=rv_outputs,
        clone=clone,
        memo=memo,
        copy_orphans=False,
        copy_inputs=False,
        features=[ShapeFeature(), MeasurableConversionTracker()],
    )

    obs_rvs_to_values = {memo.get(k, k): v for k, v in obs_rvs_to_values.items()}

    sampler_ir_db.query("+basic").rewrite(fgraph)

    new_to_old_rvs = {
        new_rv: old_rv for old_rv, new_rv in zip(rv_outputs, fgraph.outputs)
    }

    return fgraph, obs_rvs_to_values, memo, new_to_old_rvs


class SamplerTracker(Feature):

    def __init__(self, srng: RandomStream):
        self.srng: RandomStream = srng
        self.rvs_to_samplers: Dict[
            TensorVariable,
            List[Tuple[str, TensorVariable, Optional[Dict[Variable, Variable]]]],
        ] = {}
        self.rvs_seen: Set[TensorVariable] = set()

    def on_attach(self, fgraph: FunctionGraph):
        if hasattr(fgraph, "sampler_mappings"):  # pragma: no cover
            raise AlreadyThere(
                f"{fgraph} already has the `SamplerTracker` feature attached."
            )

        fgraph.sampler_mappings = self


def get_measurable_children(fgraph: FunctionGraph, var: Variable) -> Set[Apply]:
    children: Set[Apply] = set()
    to_visit = [var]
    visited: Set[Variable] = set()

    while to_visit:
        var = to_visit.pop()

        if var in visited:
            continue

        visited.add(var)

        for client, _ in fgraph.clients.get(var, ()):
            if client == "output":
                continue

            if isinstance(client.op, RandomVariable):
                children.add(client)
            else:
                to_visit.extend(client.outputs)

    return children


def sampler_finder(tracks: Optional[Sequence[Union[Op, type]]]):

    def decorator(f: SamplerFunctionType):
        @node_rewriter(tracks)
        @wraps(f)
        def sampler_finder(
            fgraph: FunctionGraph, node: Apply
        ) -> LocalRewriterReturnType:
            sampler_mappings = getattr(fgraph, "sampler_mappings", None)

            rv_var = node.outputs[1]
            key = (f.__name__, rv_var)

            if sampler_mappings is None or key in sampler_mappings.rvs_seen:
                return None  # pragma: no cover

            srng = sampler_mappings.srng

            rvs_and_posteriors: SamplerFunctionReturnType = f(fgraph, node, srng)

            if not rvs_and_posteriors:
                return None  # pragma: no cover

            for rv, posterior_rv, updates in rvs_and_posteriors:
                if get_measurable_children(fgraph, rv) - {node}:
                    continue

                sampler_mappings.rvs_to_samplers.setdefault(rv, []).append(
                    (f.__name__, posterior_rv, updates)
                )
            sampler_mappings.rvs_seen.add(key)

            return rv_var.owner.outputs

        return sampler_finder

    return decorator


class SubsumingElemwise(OpFromGraph):
    __props__ = Elemwise.__props__


    def __init__(self, inputs, outputs, *args, **kwargs):
        self.elemwise_op = outputs[0].owner.op
        self.scalar_op = self.elemwise_op.scalar_op
        self.nfunc_spec = self.elemwise_op.nfunc_spec
        self.inplace_pattern = self.elemwise_op.inplace_pattern
        self.ufunc = None
        self.nfunc = None

        OpFromGraph.__init__(self, inputs, outputs, *args, **kwargs)

    def make_node(self, *inputs):
        used_inputs = remove_constants(inputs)

        num_expected_inps = len(self.inner_inputs) - len(self.shared_inputs)

        if len(used_inputs) == num_expected_inps:
            used_inputs = used_inputs + self.shared_inputs

        node = super().make_node(*used_inputs)

        real_inputs = node.inputs[: len(node.inputs) - len(self.shared_inputs)]
        return Apply(self, real_inputs, [o.clone() for o in node.outputs])

    def perform(self, *args, **kwargs):
        raise NotImplementedError(  # pragma: no cover
            "This `OpFromGraph` should have been in-line expanded."
        )

    def clone(self):
        res = OpFromGraph.clone(self)
        res.elemwise_op = self.elemwise_op
        res.scalar_op = self.scalar_op
        res.nfunc_spec = self.nfunc_spec
        res.inplace_pattern = self.inplace_pattern
        res.ufunc = self.ufunc
        res.nfunc = self.nfunc
        return res

    def __str__(self):
        return repr(self)

    def __repr__(self):
        return f"{type(self).__name__}{{{self.scalar_op}}}"

    def __eq__(self, other):
        return OpFromGraph.__eq__(self, other)

    def __hash__(self):
        return OpFromGraph.__hash__(self)


def _unify_SubsumingElemwise(u: Elemwise, v: SubsumingElemwise, s: Mapping):
    yield _unify(u, v.elemwise_op, s)


_unify.add(
    (Elemwise, SubsumingElemwise, Mapping),
    lambda u, v, s: _unify_SubsumingElemwise(u, v, s),
)
_unify.add(
    (SubsumingElemwise, Elemwise, Mapping),
    lambda u, v, s: _unify_SubsumingElemwise(v, u, s),
)
_unify.add(
    (SubsumingElemwise, SubsumingElemwise, Mapping),
    lambda u, v, s: _unify(v.elemwise_op, u.elemwise_op, s),
)


def car_SubsumingElemwise(x):
    return type(x.elemwise_op)


_car.add((SubsumingElemwise,), car_SubsumingElemwise)


@node_rewriter([Elemwise])
def local_elemwise_dimshuffle_subsume(fgraph, node):

    if isinstance(node.op, SubsumingElemwise):
        return None

    new_inputs = []
    subsumed_inputs = []

    out_ndim = node.outputs[0].type.ndim

    found_subsumable_ds = False
    for i in node.inputs:
        if i.owner and isinstance(i.owner.op, DimShuffle):
            ds_order = i.owner.op.new_order
            dim_shuffle_input = i.owner.inputs[0]

            ndim_diff = out_ndim - dim_shuffle_input.type.ndim

            el_order = ds_order[:ndim_diff]
            new_ds_order = ds_order[ndim_diff:]

            if len(el_order) == 0 or not all(d == "x" for d in el_order):
                subsumed_inputs.append(i)
                new_inputs.append(i)
                continue

            found_subsumable_ds = True

            if new_ds_order and not new_ds_order == tuple(range(len(new_ds_order))):
                new_dim_shuffle_input = dim_shuffle_input.dimshuffle(new_ds_order)
                new_subsumed_input = new_dim_shuffle_input.dimshuffle(
                    el_order + tuple(range(new_dim_shuffle_input.type.ndim))
                )

                subsumed_inputs.append(new_subsumed_input)
                new_inputs.append(new_dim_shuffle_input)
            else:
                subsumed_inputs.append(i)
                new_inputs.append(dim_shuffle_input)

        else:
            subsumed_inputs.append(i)
            new_inputs.append(i)

    if not found_subsumable_ds:
        return None  # pragma: no cover

    assert len(subsumed_inputs) == len(node.inputs)
    new_outputs = node.op.make_node(*subsumed_inputs).outputs

    used_inputs = remove_constants(new_inputs)
    new_op = SubsumingElemwise(used_inputs, new_outputs, inline=True)

    new_out = new_op(*used_inputs)

    return new_out.owner.outputs


sampler_ir_db.register(
    "elemwise_dimshuffle_subsume",
    in2out(local_elemwise_dimshuffle_subsume),
    "basic",
    position=-10,
)


@node_rewriter([SubsumingElemwise])
def inline_SubsumingElemwise(fgraph, node):
    op = node.op

    if not isinstance(op, SubsumingElemwise):
        return False

    if not op.is_inline:
        return False  # pragma: no cover

    memo = clone_get_equiv(
        [],
        op.inner_outputs,
        copy_inputs=False,
        copy_orphans=False,
        memo=dict(zip(op.inner_inputs, [*node.inputs, *op.shared_inputs])),
    )

    return [memo[out] for out in op.inner_outputs]


expand_subsumptions = in2out(inline_SubsumingElemwise)

sampler_rewrites_db.register(
    "expand_subsumptions",
    expand_subsumptions,
    "basic",
    position="last",
)
