"""Entry points of the construction code, for the analysis of classes."""
from aesara.tensor.elemwise import Elemwise

from aemcmc.dists import PolyaGammaRV, polyagamma
from aemcmc.rewriting import SamplerTracker, SubsumingElemwise
from aemcmc.types import Sampler, SamplingStep
from aemcmc.utils import ModelInfo


def subsuming(inputs, outputs):
    return SubsumingElemwise(inputs, outputs, inline=True)


def subsuming_kind(inputs, outputs):
    return isinstance(SubsumingElemwise(inputs, outputs), Elemwise)


def subsuming_props():
    return SubsumingElemwise.__props__


def subsuming_node(self, *inputs):
    return SubsumingElemwise.make_node(self, *inputs)


def subsuming_clone(self):
    return SubsumingElemwise.clone(self)


def subsuming_eq(self, other):
    return SubsumingElemwise.__eq__(self, other)


def subsuming_hash(self):
    return SubsumingElemwise.__hash__(self)


def sampling_step(inputs, outputs):
    return SamplingStep(inputs, outputs)


def sampling_step_options(inputs, outputs):
    return SamplingStep(inputs, outputs, inline=True, name="step", on_unused_input="ignore")


def sampling_step_connections(self, node):
    return SamplingStep.connection_pattern(self, node)


def sampler(steps, updates, parameters):
    return Sampler(steps, updates, parameters)


def sampler_defaults(steps):
    return Sampler(steps)


def sampler_twice(steps):
    a, b = Sampler(steps), Sampler(steps)
    return a.updates is b.updates, a.parameters is b.parameters, a.stages is b.stages


def model(observed, values, deterministic, updates):
    return ModelInfo(observed, values, deterministic, updates)


def model_defaults(observed, values):
    return ModelInfo(observed, values)


def tracker(srng):
    return SamplerTracker(srng)


def tracker_stream(srng):
    return SamplerTracker(srng).srng


def trackers(srng):
    a, b = SamplerTracker(srng), SamplerTracker(srng)
    return a.rvs_to_samplers is b.rvs_to_samplers, a.rvs_seen is b.rvs_seen


def attach(tracker, fgraph):
    return SamplerTracker.on_attach(tracker, fgraph)


def finder(make, tracks, f):
    return make(tracks)(f)


def pg_attributes():
    return PolyaGammaRV.name, PolyaGammaRV.ndim_supp, list(PolyaGammaRV.ndims_params), PolyaGammaRV.dtype


def pg_bases():
    return polyagamma


def pg_call(self, h, z, size, **kwargs):
    return PolyaGammaRV.__call__(self, h, z, size=size, **kwargs)


def pg_defaults(self):
    return PolyaGammaRV.__call__(self)


def pg_draw(rng, h, z, size):
    return PolyaGammaRV.rng_fn(rng, h, z, size)
