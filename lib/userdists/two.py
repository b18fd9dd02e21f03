import numpyro.distributions as dist


class Bump(dist.Cauchy):
    """a Cauchy density half a unit below the given location"""

    def __init__(self, loc=0.0, scale=1.0, validate_args=None):
        super().__init__(loc - 0.5, scale, validate_args=validate_args)


class Uniform(dist.Normal):
    """not what numpyro calls by this name"""

    def __init__(self, low=0.0, high=1.0, validate_args=None):
        super().__init__((low + high) / 2, high - low, validate_args=validate_args)
