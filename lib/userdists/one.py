import numpyro.distributions as dist


class Bump(dist.Normal):
    """a normal density five units above the given location"""

    def __init__(self, loc=0.0, scale=1.0, validate_args=None):
        super().__init__(loc + 5.0, scale, validate_args=validate_args)


class Normal(dist.Cauchy):
    """not what numpyro calls by this name"""
