"""Distributions a user builds with the package's mixins, as its documentation invites them to ("required for creating new
distributions").  Imported after the package; reached through families.lib() under the same roof as the package's own."""
from dataclasses import dataclass

import numpy as np
from conjugate._typing import NUMERIC
from conjugate.plot import ContinuousPlotDistMixin, DiscretePlotMixin
from conjugate.slice import SliceMixin
from scipy import stats


@dataclass
class UserLaplace(ContinuousPlotDistMixin, SliceMixin):
    mu: NUMERIC
    b: NUMERIC = 1.0

    @property
    def dist(self):
        return stats.laplace(loc=self.mu, scale=self.b)


@dataclass
class UserDiscreteLaplace(DiscretePlotMixin, SliceMixin):
    mu: NUMERIC
    a: NUMERIC

    @property
    def dist(self):
        return stats.dlaplace(a=self.a, loc=self.mu)


@dataclass
class UserArcsine(ContinuousPlotDistMixin, SliceMixin):
    """A user's class that brings its own upper bound, as Beta or Uniform do."""

    low: NUMERIC
    width: NUMERIC

    def __post_init__(self):
        self.min_value = np.min(self.low) - 1.0
        self.max_value = np.max(np.add(self.low, self.width)) + 1.0

    @property
    def dist(self):
        return stats.arcsine(loc=self.low, scale=self.width)


class _All:
    """The package's distributions and the user's."""

    def __init__(self, module):
        self.__dict__["_m"] = module

    def __getattr__(self, name):
        return globals()[name] if name.startswith("User") else getattr(self._m, name)

    def __dir__(self):
        return dir(self._m) + [n for n in globals() if n.startswith("User")]
