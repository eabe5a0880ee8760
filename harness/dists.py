"""Integer-valued distributions: the specification record and the real object."""
import numpy as np


def mk(rng, n, flavio, kinds=('normal', 'normal', 'uniform', 'asym', 'delta')):
    """Return (spec record, real distribution) with n components."""
    P = flavio.statistics.probability
    if n == 1:
        k = rng.choice(kinds)
        m = rng.randint(-40, 40)
        if k == 'normal':
            s = rng.randint(1, 9)
            return {'k': 'normal', 'mu': [m], 's': s}, P.NormalDistribution(m, s)
        if k == 'uniform':
            s = rng.randint(1, 9)
            return {'k': 'uniform', 'mu': [m], 's': s}, P.UniformDistribution(m, s)
        if k == 'asym':
            r, l = rng.randint(1, 9), rng.randint(1, 9)
            return ({'k': 'asym', 'mu': [m], 'r': r, 'l': l},
                    P.AsymmetricNormalDistribution(m, right_deviation=r, left_deviation=l))
        return {'k': 'delta', 'mu': [m]}, P.DeltaDistribution(m)
    mu = [rng.randint(-40, 40) for _ in range(n)]
    while True:
        s = [rng.randint(2, 30) for _ in range(n)]
        cov = [[0] * n for _ in range(n)]
        for a in range(n):
            for b in range(a, n):
                if a == b:
                    cov[a][a] = s[a] ** 2
                else:
                    rho = rng.choice([0.95, 0.9, -0.5, 0.3, 0.99, 0.0])
                    cov[a][b] = cov[b][a] = int(round(rho * s[a] * s[b]))
        ev = np.linalg.eigvalsh(np.array(cov, float))
        if ev.min() > 1e-3 * ev.max() and np.linalg.det(np.array(cov, float)) > 1:
            break
    return {'k': 'mvn', 'mu': mu, 'cov': cov}, P.MultivariateNormalDistribution(mu, covariance=cov)
