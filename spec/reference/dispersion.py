"""Dispersion of a negative binomial under a gamma prior (CRT augmentation).

NB(y; h, p) ∝ Γ(y + h) / Γ(h) p^h (1 - p)^y with ``p`` the success probability,
so that h | l ~ Gamma(a + Σ l_i, rate = 1 / b - Σ log p_i) for l_i ~ CRT(y_i, h).
"""
import aesara
import aesara.tensor as at


def crt(srng, y, h):
    def one(y_i, h):
        k = at.arange(2, y_i + 1)
        return at.switch(y_i < 1, 0, 1 + at.sum(srng.bernoulli(h / (h + k - 1))))

    res, updates = aesara.scan(one, sequences=[y], non_sequences=[h])
    return res, updates


def crt_many(srng, y, h):
    # one count for each element of an array
    res, updates = crt(srng, y.ravel(), h)
    return res.reshape(y.shape), updates


def dispersion(srng, h, p, a, b, y):
    l, updates = crt(srng, y, h)
    return (
        srng.gamma(a + at.sum(l), 1 / b - at.sum(at.log(p))),
        updates,
    )


def dispersion_k1(srng, h, p, a, b, y):
    # known finding K1: `p` is used as if it were the probability of failure
    l, updates = crt(srng, y, h)
    return (
        srng.gamma(a + at.sum(l), 1 / b - at.sum(at.log(1 - p))),
        updates,
    )


def probability(X, beta):
    # the probability of success of the likelihood, sigmoid(-X beta)
    return 1 / (1 + at.exp(X @ beta))


def dispersion_model(srng, h, X, beta, a, b, y):
    return dispersion(srng, h, probability(X, beta), a, b, y)


def dispersion_model_k1(srng, h, X, beta, a, b, y):
    return dispersion_k1(srng, h, probability(X, beta), a, b, y)
