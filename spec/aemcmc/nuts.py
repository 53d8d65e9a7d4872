from typing import Callable, Dict, List, Tuple

import aesara
import aesara.tensor as at
from aehmc import nuts as aehmc_nuts
from aehmc.utils import RaveledParamsMap
from aeppl import joint_logprob
from aeppl.transforms import (
    RVTransform,
    TransformValuesRewrite,
    _default_transformed_rv,
)
from aesara import config
from aesara.compile.sharedvalue import SharedVariable
from aesara.graph.basic import (
    Apply,
    Variable,
    clone_replace,
    graph_inputs,
    io_toposort,
)
from aesara.graph.type import Constant
from aesara.tensor.random import RandomStream
from aesara.tensor.random.op import RandomVariable
from aesara.tensor.var import TensorVariable

from aemcmc.types import SamplingStep

NUTSStateType = Tuple[TensorVariable, TensorVariable, TensorVariable]
NUTSKernelType = Callable[
    [NUTSStateType],
    Tuple[
        Tuple[
            NUTSStateType,
            Dict[TensorVariable, TensorVariable],
            Dict[TensorVariable, TensorVariable],
        ],
        Dict,
    ],
]


class NUTSKernel(SamplingStep):
    pass


def step(
    srng: RandomStream,
    to_sample_rvs: Dict[RandomVariable, TensorVariable],
    realized_rvs_to_values: Dict[RandomVariable, TensorVariable],
) -> Tuple[
    Dict[RandomVariable, TensorVariable], Dict, Tuple[TensorVariable, TensorVariable]
]:

    initial_values = to_sample_rvs.values()

    transforms = {rv: get_transform(rv) for rv in to_sample_rvs}
    current_values = {**realized_rvs_to_values, **to_sample_rvs}
    transformed_values = [
        transform_forward(rv, vv, transforms[rv], current_values)
        for rv, vv in zip(to_sample_rvs, initial_values)
    ]

    logprob, placeholder_values = joint_logprob(
        *to_sample_rvs.keys(),
        realized=realized_rvs_to_values,
        extra_rewrites=TransformValuesRewrite(transforms),
    )

    rp_map = RaveledParamsMap(transformed_values)
    rp_map.ref_params = placeholder_values

    def logprob_fn(q):
        unraveled_q = rp_map.unravel_params(q)
        memo = aesara.graph.basic.clone_get_equiv(
            [], [logprob], copy_inputs=False, copy_orphans=False, memo=unraveled_q
        )
        return memo[logprob]

    nuts_kernel = aehmc_nuts.new_kernel(srng, logprob_fn)

    initial_q = rp_map.ravel_params(transformed_values)
    initial_state = aehmc_nuts.new_state(initial_q, logprob_fn)

    step_size = at.scalar("step_size", dtype=config.floatX)
    inverse_mass_matrix = at.tensor(
        name="inverse_mass_matrix", shape=initial_q.type.shape, dtype=config.floatX
    )

    (new_q, *_), updates = nuts_kernel(*initial_state, step_size, inverse_mass_matrix)
    transformed_params = rp_map.unravel_params(new_q)
    rvs_to_placeholders = dict(zip(to_sample_rvs, placeholder_values))
    new_values = dict(realized_rvs_to_values)
    for node in io_toposort([], list(to_sample_rvs)):
        for rv in node.outputs:
            if rv in rvs_to_placeholders:
                new_values[rv] = transform_backward(
                    rv,
                    transformed_params[rvs_to_placeholders[rv]],
                    transforms[rv],
                    new_values,
                )

    results = {rv: new_values[rv] for rv in to_sample_rvs}

    return (
        results,
        updates,
        (step_size, inverse_mass_matrix),
    )


def construct_sampler(
    srng: RandomStream,
    to_sample_rvs: Dict[RandomVariable, TensorVariable],
    realized_rvs_to_values: Dict[RandomVariable, TensorVariable],
) -> Tuple[Dict[RandomVariable, TensorVariable], Dict, Dict[Apply, TensorVariable]]:
    results, updates, parameters = step(srng, to_sample_rvs, realized_rvs_to_values)

    update_outputs = list(updates.values())
    outputs = list(results.values()) + update_outputs
    inputs = [
        var_in
        for var_in in graph_inputs(outputs)
        if not isinstance(var_in, Constant) and not isinstance(var_in, SharedVariable)
    ]
    nuts_op = NUTSKernel(inputs, outputs)

    posterior = nuts_op(*inputs)
    results = {rv: posterior[i] for i, rv in enumerate(to_sample_rvs)}

    updates = dict(zip(updates.keys(), posterior[len(results) :]))

    return results, updates, {nuts_op: parameters}


def get_transform(rv: TensorVariable):
    transform = _default_transformed_rv(rv.owner.op, rv.owner)
    if transform:
        return transform.op.transform
    else:
        return None


def get_transform_inputs(
    rv: TensorVariable, rvs_to_values: Dict[TensorVariable, TensorVariable]
) -> List[Variable]:
    return clone_replace(rv.owner.inputs, rvs_to_values)


def transform_forward(
    rv: TensorVariable,
    vv: TensorVariable,
    transform: RVTransform,
    rvs_to_values: Dict[TensorVariable, TensorVariable],
):
    if transform:
        res = transform.forward(vv, *get_transform_inputs(rv, rvs_to_values))
        if vv.name:
            res.name = f"{vv.name}_trans"
        return res
    else:
        return vv


def transform_backward(
    rv: TensorVariable,
    vv: TensorVariable,
    transform: RVTransform,
    rvs_to_values: Dict[TensorVariable, TensorVariable],
):
    if transform:
        res = transform.backward(vv, *get_transform_inputs(rv, rvs_to_values))
        return res
    else:
        return vv
