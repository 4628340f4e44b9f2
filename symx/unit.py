"""A unit: one harness with fixed structural parameters; values, identities, outcomes and choices inside it are symbolic."""


class Unit:
    def __init__(self, name, fn, params=None, reach=(), tier='quick', int_bits=40, float_bits=64, weight=1):
        self.name = name
        self.fn = fn
        self.params = params or {}
        self.reach = tuple(reach)     # labels some path must reach: the vacuity guard
        self.tier = tier              # 'quick' (both tiers) or 'thorough'
        self.int_bits = int_bits
        self.float_bits = float_bits
        self.weight = weight


class Registry(list):
    def unit(self, reach=(), tier='quick', name=None, weight=1, **params):
        def deco(fn):
            self.append(Unit(name or fn.__name__, fn, params, reach, tier, weight=weight))
            return fn
        return deco

    def add(self, name, fn, reach=(), tier='quick', weight=1, **params):
        self.append(Unit(name, fn, params, reach, tier, weight=weight))
