"""P25: dispersion mode, choice of the update of a bin."""
import numpy as np
import scipy.stats

from . import p18, util
from ..spec import bounded, contract

NB = "nbinom."


def _pmf(S, m):
    """the log-probability of a sample: any number, or not a number"""
    f = S.fn("logpmf", 3)
    bad = S.fn("bad", 3)

    def g(x, n, p):
        v, b = f(x, n, p), bad(x, n, p)
        if S.sym:
            return S.ite(S.gt(b, 2), float("nan"), v)
        return np.nan if b > 2.0 else v

    S.stub(m, "nbinom_log_pmf", g, needed=False)
    return g


def _sample_loss(S, pmf, y, mu, c_link, gamma, step):
    """negative log-likelihood of sample i with its penalty, 400 where it is not finite"""

    def loss(i):
        c = 1.0 / (1.0 + S.exp(-(step + S.at(c_link, i))))
        p = S.min(1.0 / (1.0 + c * S.at(mu, i)), 1.0 - 1e-8)
        v = -pmf(S.at(y, i), S.at(mu, i) * p / (1 - p), p)
        pen = gamma * c
        return S.ite(S.isfinite(v), v, 400.0) + pen

    return loss


def _data(S):
    n, b = S.dim("n", 0), S.dim("nb", 1)
    y = S.array("y", n, lo=0, hi=None if S.sym else 9)
    mu = S.array("mu", n, lo=0, hi=None if S.sym else 9, lo_open=True)
    c_link = S.array("c_link", n, None if S.sym else -3, None if S.sym else 3)
    lex = S.array("bin", n, lo=0, hi=b - 1, dtype="i")
    gamma = S.real("gamma", 0, 2)
    return n, b, y, mu, c_link, lex, gamma


@contract("P25", [NB + "binned_loss_nbinom_c"])
def binned(S):
    """the loss of a bin is the sum over its own samples"""
    m = S.mod("nbinom")
    n, b, y, mu, c_link, lex, gamma = _data(S)
    step = S.real("step", -11, 11)
    pmf = _pmf(S, m)
    r = m.binned_loss_nbinom_c(y, mu, c_link, lex, b, gamma, step)
    S.ensure("one loss per bin", S.eq(S.len(r), b, 0, 0))
    one = _sample_loss(S, pmf, y, mu, c_link, gamma, step)
    S.ensure_forall("summed negative log-likelihood of the samples of the bin", b, lambda j: S.eq(S.at(r, j), util.binsum(S, n, lex, j, one), 1e-9, 1e-9))


@contract("P25", [NB + "compute_2d_loss"])
def table(S):
    m = S.mod("nbinom")
    n, b, y, mu, c_link, lex, gamma = _data(S)
    k = S.dim("k", 1)
    cand = S.array("cand", k, -11, 11)
    F = S.fn("binloss", 2)

    def row(y, mu, c_link, binnumbers, minlength, gamma, new_c_link):
        out = S.np.zeros(minlength)
        return F(new_c_link + out, S.np.arange(minlength) + out)

    S.stub(m, "binned_loss_nbinom_c", row)
    r = m.compute_2d_loss(y, mu, c_link, lex, b, gamma, cand)
    S.ensure("one row per candidate, one column per bin", S.and_(S.eq(S.shape(r)[0], k, 0, 0), S.eq(S.shape(r)[1], b, 0, 0)))
    S.ensure_forall("loss of a candidate in a bin", (k, b), lambda i, j: S.eq(S.at(r, i, j), F(S.at(cand, i), j * 1.0), 1e-12, 1e-12))


@contract("P25", [NB + "calc_parameters_nbinom_c"])
def chosen(S):
    """the update of a bin is the candidate with the smallest loss in this bin"""
    m = S.mod("nbinom")
    n, b, y, mu, c_link, lex, gamma = _data(S)
    k = S.dim("k", 1)
    cand = S.array("cand", k, -11, 11)
    loss = S.array("loss", (k, b), None if S.sym else -3, None if S.sym else 3)
    l0 = S.copy(loss)
    S.stub(m, "compute_2d_loss", lambda y, mu, c_link, binnumbers, minlength, gamma, new_c_link: loss)
    r = m.calc_parameters_nbinom_c(y, mu, c_link, lex, b, gamma, 0, cand)
    S.ensure("one update per bin", S.eq(S.len(r), b, 0, 0))
    if S.sym:
        q = S.np.argmin(l0, axis=0)
        S.ensure_forall("one of the candidates, with the smallest loss", b, lambda j: S.eq(S.at(r, j), S.at(cand, S.at(q, j)), 0, 0))
        S.ensure_forall("no candidate is better", (k, b), lambda i, j: S.at(l0, S.at(q, j), j) <= S.at(l0, i, j))
    else:
        for j in range(b):
            best = [cand[i] for i in range(k) if l0[i, j] <= l0[:, j].min()]
            S.ensure("one of the candidates, with the smallest loss", any(r[j] == v for v in best))


@contract("P25", [NB + "calc_parameters_nbinom_c", NB + "bayes_result"])
def posterior_mean(S):
    m = S.mod("nbinom")
    n, b, y, mu, c_link, lex, gamma = _data(S)
    k = S.dim("k", 1)
    cand = S.array("cand", k, -11, 11)
    loss = S.array("loss", (k, b), None if S.sym else -3, None if S.sym else 300)
    l0 = S.copy(loss)
    S.stub(m, "compute_2d_loss", lambda y, mu, c_link, binnumbers, minlength, gamma, new_c_link: loss)
    r = m.calc_parameters_nbinom_c(y, mu, c_link, lex, b, gamma, 1, cand)
    S.ensure("one update per bin", S.eq(S.len(r), b, 0, 0))
    lo, hi = S.real("below", -11, 11), S.real("above", -11, 11)
    if not S.sym:
        lo, hi = cand.min(), cand.max()
    S.assume_forall(k, lambda i: S.and_(lo <= S.at(cand, i), S.at(cand, i) <= hi))

    def weight(j):
        top = (-l0[:, j]).max()
        return lambda i: S.exp(-S.at(l0, i, j) - top)

    S.ensure_forall("mean of the candidates weighted with their likelihoods", b, lambda j: S.eq(S.at(r, j), S.sum(k, lambda i: weight(j)(i) * S.at(cand, i)) / S.sum(k, weight(j)), 1e-9, 1e-9))

    def between(j):
        if S.sym:
            w = weight(j)
            S.lemma("weights are positive", S.sum(k, w) > 0)
            S.lemma("weighted excess over the smallest", S.sum(k, lambda i: w(i) * (S.at(cand, i) - lo)) >= 0)
            S.lemma("weighted distance to the largest", S.sum(k, lambda i: w(i) * (hi - S.at(cand, i))) >= 0)
        return S.and_(lo - 1e-12 <= S.at(r, j), S.at(r, j) <= hi + 1e-12)

    S.ensure_forall("the posterior mean lies between the smallest and the largest candidate", b, between)


@contract("P25", [NB + "get_new_c_link_for_iteration"])
def candidates(S):
    m = S.mod("nbinom")
    it = S.int("iteration", 1, None if S.sym else 12)
    steps = S.int("n_steps", 0, None if S.sym else 40)
    r = m.get_new_c_link_for_iteration(it, steps)
    k = S.len(r)
    h = S.integer((k - 1) / 2) if not S.sym else (k - 1) // 2
    S.ensure("an odd number of candidates", S.eq(k, 2 * h + 1, 0, 0))
    S.ensure("no update is among the candidates", S.eq(S.at(r, h), 0, 0, 0))
    S.ensure_forall("candidates are symmetric around zero", k, lambda i: S.eq(S.at(r, i), -S.at(r, k - 1 - i), 0, 0))


@contract("P25", [NB + "nbinom_log_pmf"])
def log_probability(S):
    """logarithm of the negative binomial probability"""
    m = S.mod("nbinom")
    x = S.real("x", 0) if S.sym else S._rec("x", float(S.given.get("x", S.rng.integers(0, 30))))
    n = S.real("n", 0 if S.sym else 0.05, None if S.sym else 40, lo_open=True)
    p = S.real("p", 0 if S.sym else 0.01, 1 if S.sym else 0.99, lo_open=True, hi_open=True)
    r = m.nbinom_log_pmf(x, n, p)
    if S.sym:
        g = m.lgamma
        S.ensure("negative binomial log-probability", S.eq(r, g(n + x) - g(x + 1) - g(n) + n * S.log(p) + x * S.log(1 - p)))
    else:
        S.ensure("negative binomial log-probability", S.close(r, scipy.stats.nbinom.logpmf(x, n, p), 1e-7 * (1 + abs(r))))


@contract("P25", [NB + "loss_nbinom_c"])
def overall(S):
    """the loss that is reported is the mean over all samples"""
    m = S.mod("nbinom")
    n = S.dim("n", 1)
    y = S.array("y", n, lo=0, hi=None if S.sym else 9)
    mu = S.array("mu", n, lo=0, hi=None if S.sym else 9, lo_open=True)
    c = S.array("c", n, lo=0, hi=1)
    gamma = S.real("gamma", 0, 2)
    pmf = _pmf(S, m)
    r = m.loss_nbinom_c(y, mu, c, gamma)

    def one(i):
        p = S.min(1.0 / (1 + S.at(c, i) * S.at(mu, i)), 1.0 - 1e-8)
        v = -pmf(S.at(y, i), S.at(mu, i) * p / (1 - p), p)
        return S.ite(S.isfinite(v), v, 400.0) + gamma * S.at(c, i)

    S.ensure("mean loss of the samples", S.eq(r, S.sum(n, one) / n, 1e-9, 1e-9))


@contract("P25", [NB + "CBNBinomC.calc_parameters"])
def update(S):
    """an update of a bin uses the candidates of the running iteration and the samples, means and dispersion at hand"""
    m = S.mod("nbinom")
    n, b, y, mu, c_link, lex, gamma = _data(S)
    it = S.int("iteration", 0, 50)
    steps = S.int("n_steps", 1, 60)
    bayes = S.bool("bayes")
    F = util.feature(S, ("a",), None, None, bins=b, lex=lex, wsum=None)
    e = util.make(S, "nbinomc", ["a"], gamma=gamma, bayes=bayes, n_steps=steps)
    e.iteration_ = it
    e.mu = mu
    cand = S.array("cand", S.dim("k", 1), -11, 11)
    res = S.array("res", b + 1)
    seen, asked = {}, {}

    def candidates(iteration, n_steps):
        asked.update(iteration=iteration, n_steps=n_steps)
        return cand

    def chosen(y, mu, c_link, binnumbers, minlength, gamma, bayes, new_c_link):
        seen.update(y=y, mu=mu, c_link=c_link, binnumbers=binnumbers, minlength=minlength, gamma=gamma, bayes=bayes, new=new_c_link)
        return res

    S.stub(m, "get_new_c_link_for_iteration", candidates)
    S.stub(m, "calc_parameters_nbinom_c", chosen)
    r, u = e.calc_parameters(F, y, util.pred(S, c_link), None)
    S.ensure("candidates of the running iteration", S.and_(S.eq(asked["iteration"], it + 1, 0, 0), S.eq(asked["n_steps"], steps, 0, 0)))
    S.ensure("one update per bin", S.and_(S.eq(S.len(r), b + 1, 0, 0), S.eq(S.len(u), b + 1, 0, 0), S.eq(seen["minlength"], b + 1, 0, 0)))
    S.ensure("penalty and method as set", S.and_(S.eq(seen["gamma"], gamma, 0, 0), S.iff(S.ne(seen["bayes"], 0), bayes)))
    S.ensure_forall("chosen among the candidates", S.len(cand), lambda i: S.eq(S.at(seen["new"], i), S.at(cand, i), 0, 0))
    for k, v in (("y", y), ("mu", mu), ("c_link", c_link), ("binnumbers", lex)):
        S.ensure_forall("samples as given: " + k, n, lambda i, k=k, v=v: S.eq(S.at(seen[k], i), S.at(v, i), 0, 0))
    S.ensure_forall("the update is the chosen one", b + 1, lambda j: S.eq(S.at(r, j), S.at(res, j), 0, 0))
    cnt = lambda j: util.binsum(S, n, lex, j, lambda i: 1.0)
    S.ensure_forall("uncertainty falls with the number of samples", b + 1, lambda j: S.and_(S.gt(S.at(u, j), 0), S.eq(S.at(u, j) * S.at(u, j) * S.max(cnt(j), 1.0), 1, 1e-9, 1e-9)))


@contract("P25", [NB + "CBNBinomC._fit_predict"])
def means(S):
    """the means of the samples are the column named in the settings"""
    n = S.dim("n", 1)
    a, b = S.array("a", n), S.array("b", n)
    X = S.frame({"a": a, "m": b, "z": S.array("z", n)})
    e = util.make(S, "nbinomc", ["a"])
    e.mean_prediction_column = "m"
    base = S.mod("base").CyclicBoostingBase
    seen = []
    S.stub(base, "_fit_predict", lambda self, X, y=None: seen.append(self.mu))
    e._fit_predict(X, a)
    S.ensure("one training", len(seen) == 1)
    S.ensure_forall("means of the samples", n, lambda i: S.eq(S.at(seen[0], i), S.at(b, i), 0, 0))


for _c in p18.RANGES["nbinomc"]:
    contract("P25", ["base.CyclicBoostingBase.predict", "link.Logit2LinkMixin.unlink_func"])(_c)


@bounded("P25", [NB + "CBNBinomC.fit", NB + "CBNBinomC._fit_predict", NB + "CBNBinomC.calc_parameters", NB + "calc_parameters_nbinom_c"], trials=12)
def trained(S):
    """bounded: in real trainings every update is the best candidate for the samples of its own bin"""
    m = S.mod("nbinom")
    c = util.Case(S, "nbinomc", n=int(S.rng.integers(8, 30)), weights=False, prior=False)
    bayes = bool(S.rng.random() < 0.3)
    e = util.make(S, "nbinomc", c.groups, c.props, **c.kw(S, bayes=bayes, n_steps=8, maximal_iterations=2))
    log = []
    real = type(e).calc_parameters

    def spy(self, feature, y, pred, prefit_data):
        link = np.array(pred.predict_link())
        r = real(self, feature, y, pred, prefit_data)
        log.append((np.array(feature.lex_binned_data), feature.n_bins, link, self.iteration_, np.array(self.mu), np.array(r[0])))
        return r

    S.patch(type(e), "calc_parameters", spy)
    e.fit(c.X, c.y)
    y = np.asarray(c.y, float)
    S.ensure("updates were made", len(log) > 0)
    for lex, nb, link, it, mu, r in log[:12]:
        cand = m.get_new_c_link_for_iteration(it + 1, 8)
        loss = np.zeros((len(cand), nb))
        for q, v in enumerate(cand):
            cc = 1 / (1 + np.exp(-(v + link)))
            p = np.minimum(1 / (1 + cc * mu), 1 - 1e-8)
            l = -scipy.stats.nbinom.logpmf(y, mu * p / (1 - p), p)
            l = np.where(np.isfinite(l), l, 400.0) + e.gamma * cc
            loss[q] = np.bincount(lex, weights=l, minlength=nb)
        if bayes:
            w = np.exp(-(loss - loss.min(axis=0)))
            S.ensure("posterior mean", bool(np.allclose(r, (w * cand[:, None]).sum(0) / w.sum(0), atol=1e-5)))
        else:
            got = np.array([loss[np.abs(cand - r[j]).argmin(), j] for j in range(nb)])
            S.ensure("one of the candidates", bool((np.abs(cand[:, None] - r).min(axis=0) < 1e-12).all()))
            S.ensure("smallest loss", bool((got <= loss.min(axis=0) + 1e-5 * (1 + np.abs(got))).all()))
    q = e.predict(c.X)
    S.ensure("dispersion between 0 and 1", bool(((q >= 0) & (q <= 1)).all()))
