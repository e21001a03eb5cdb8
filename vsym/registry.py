HARNESSES = {}


class Harness:
    def __init__(self, prop, name, fn, configs, expect, path_timeout, timeout, quick_only, functions, bounds, stubs):
        self.prop, self.name, self.fn = prop, name, fn
        self.configs, self.expect = configs, expect
        self.path_timeout, self.timeout = path_timeout, timeout
        self.functions, self.bounds, self.stubs = functions, bounds, stubs

    def config_list(self, tier):
        c = self.configs
        if callable(c):
            c = c(tier)
        return list(c)


def harness(prop, name=None, configs=({},), expect=(), path_timeout=60, timeout=600, functions=(), bounds="",
            stubs=()):
    """expect: labels that at least one path of the harness (over all its configs) must reach (vacuity guard)."""
    def deco(fn):
        n = name or fn.__name__
        key = (prop, n)
        if key in HARNESSES:
            raise RuntimeError("duplicate harness %s" % (key,))
        HARNESSES[key] = Harness(prop, n, fn, configs, expect, path_timeout, timeout, False, list(functions), bounds,
                                 list(stubs))
        return fn
    return deco
