"""Forward filtering, backward sampling.

The forward quantities are only defined up to positive factors that don't
depend on the state; they are used in normalised form.
"""
import aesara
import aesara.tensor as at


def ffbs(gamma_0, Gammas, log_lik, srng):
    N = log_lik.shape[1]
    G = at.broadcast_to(Gammas, (N, Gammas.shape[-2], Gammas.shape[-1]))

    def forward(ll, Gamma, alpha):
        return (alpha @ Gamma) * at.exp(ll)

    alphas, _ = aesara.scan(
        forward, sequences=[log_lik.T, G], outputs_info=[gamma_0], n_steps=N
    )

    last = srng.categorical(alphas[N - 1] / at.sum(alphas[N - 1]))

    def backward(alpha, Gamma, state):
        p = alpha * Gamma[:, state]
        return srng.categorical(p / at.sum(p))

    states, updates = aesara.scan(
        backward,
        sequences=[alphas[: N - 1], G[1:]],
        outputs_info=[last],
        go_backwards=True,
    )
    states = at.join(0, at.atleast_1d(last), states)
    return states[::-1], updates
