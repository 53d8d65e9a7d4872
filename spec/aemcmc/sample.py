import aesara
import aesara.tensor as at
import aesara.tensor.random as ar

from aemcmc.utils import get_rv_updates


def sample_prior(
    srng: ar.RandomStream, num_samples: at.TensorVariable, *rvs: at.TensorVariable
) -> at.TensorVariable:

    rv_updates = get_rv_updates(srng, *rvs)

    def step_fn():
        return rvs, rv_updates

    samples, updates = aesara.scan(step_fn, n_steps=num_samples)

    return samples, updates
