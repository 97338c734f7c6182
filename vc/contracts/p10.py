"""Learning rates."""
from ..spec import contract


def _rates(S):
    m = S.mod("learning_rate")
    return m


@contract("P10", ["learning_rate.constant_learn_rate_one"])
def constant(S):
    m = _rates(S)
    N = S.int("N", 1, 10**6)
    t = S.int("t", 1, N)
    S.ensure("the constant rate is 1", S.eq(m.constant_learn_rate_one(t, N), 1.0))


@contract("P10", ["learning_rate.linear_learn_rate"])
def linear(S):
    m = _rates(S)
    N = S.int("N", 1)
    t = S.int("t", 1, N)
    r = m.linear_learn_rate(t, N)
    S.ensure("linear rate is the fraction done", S.eq(r, t / N))
    S.ensure("in (0, 1]", S.and_(S.gt(r, 0), S.le(r, 1)))
    S.ensure("does not decrease", S.implies(t + 1 <= N, lambda: S.le(r, m.linear_learn_rate(t + 1, N))))


@contract("P10", ["learning_rate.half_linear_learn_rate"])
def half_linear(S):
    m = _rates(S)
    N = S.int("N", 1)
    t = S.int("t", 1, N)
    r = m.half_linear_learn_rate(t, N)
    S.ensure("half-linear rate is twice the fraction capped at 1", S.eq(r, S.min(2 * t / N, 1.0)))
    S.ensure("in (0, 1]", S.and_(S.gt(r, 0), S.le(r, 1)))
    S.ensure("does not decrease", S.implies(t + 1 <= N, lambda: S.le(r, m.half_linear_learn_rate(t + 1, N))))


@contract("P10", ["learning_rate.logistic_learn_rate"])
def logistic(S):
    m = _rates(S)
    N = S.int("N", 1)
    t = S.int("t", 1, N)
    r = m.logistic_learn_rate(t, N)
    S.ensure("in (0, 1]", S.and_(S.gt(r, 0), S.le(r, 1)))
    S.ensure("strictly below 1", S.lt(r, 1))
    S.ensure("increases", S.implies(t + 1 <= N, lambda: S.lt(r, m.logistic_learn_rate(t + 1, N) + (0 if S.sym else 1e-15))))
    S.ensure("reaches 0.999999999 in the last iteration", S.close(m.logistic_learn_rate(N, N), 0.999999999, 1e-12))
    # tanh shape: (1 - r)/(1 + r) = exp(t/N * log((1-s)/(1+s)))
    s = 0.999999999
    k = S.np.log((1 - s) / (1 + s))
    S.ensure("hyperbolic tangent shape", S.eq((1 - r) / (1 + r), S.exp(t * k / N), rtol=1e-5))
