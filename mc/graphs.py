"""Symbolic plugin graphs and the reference semantics of the deduced workflow."""

import itertools

from mc import toys

TRACE = []  # executions in order: (plugin name, key in, parameters, inputs)
_classes = {}


def spec_plugin(name, depends_on, provides, parameters=()):
    """A plugin computing symbolic terms, cached by its full description."""
    ident = (name, tuple(depends_on), tuple(provides), tuple(parameters))
    if ident not in _classes:
        def func(self, key, params, *deps):
            TRACE.append((name, key, params, deps))
            return (("k", name, key), *[("d", name, p, deps) for p in ident[2]])

        _classes[ident] = toys.plugin(name, depends_on, provides, func, parameters, register=False)
    cls = _classes[ident]
    setattr(toys.apt.plugins, name, cls)
    return cls


class Missing(Exception):
    pass


class Cyclic(Exception):
    pass


class Ref:
    """Reference semantics. specs: list of (name, depends_on, provides, parameters) in order of
    registration."""

    def __init__(self, specs, nodep="batch_size"):
        self.nodep = nodep
        self.provider = {}
        for s in specs:
            for p in s[2]:
                self.provider[p] = s

    def plan(self, request):
        """Names of needed plugins; raises Missing or Cyclic."""
        needed, done, stack = [], set(), []

        def visit(name):
            if name == self.nodep:
                return
            if name not in self.provider:
                raise Missing(name)
            s = self.provider[name]
            if s[0] in done:
                return
            if s[0] in stack:
                raise Cyclic
            stack.append(s[0])
            for d in s[1]:
                visit(d)
            stack.pop()
            done.add(s[0])
            needed.append(s)

        missing = None
        for n in request:
            try:
                visit(n)
            except Missing as e:
                missing = e
                stack.clear()
        if missing:
            raise missing
        return needed

    def terms(self, request, source):
        """Value of each requested data name."""
        memo = {}

        def value(name):
            if name == self.nodep:
                return source
            s = self.provider[name]
            if s[0] not in memo:
                memo[s[0]] = tuple(value(d) for d in s[1])
            return ("d", s[0], name, memo[s[0]])

        return [value(n) for n in request]

    def is_acyclic(self, request):
        """Also over missing names: the whole reachable part has no plugin cycle."""
        try:
            self.plan(request)
        except Missing:
            pass
        except Cyclic:
            return False
        # cycles hidden behind a missing name
        color = {}

        def dfs(name):
            if name == self.nodep or name not in self.provider:
                return True
            s = self.provider[name]
            if color.get(s[0]) == 1:
                return False
            if color.get(s[0]) == 2:
                return True
            color[s[0]] = 1
            ok = all(dfs(d) for d in s[1])
            color[s[0]] = 2
            return ok

        return all(dfs(n) for n in request)


def final_request(request, no_eff):
    out = [n for n in request if n != "eff"]
    return out if no_eff else out + ["eff"]


def plugin_options(pool, own, max_provides, max_deps, nodep="batch_size", ordered=True):
    """All (depends_on, provides) of a plugin over a pool of data names."""
    out = []
    for prov in toys.subsets(own, 1, max_provides):
        rest = [nodep] + [p for p in pool if p not in prov]
        gen = toys.ordered(rest, 1, max_deps) if ordered else toys.subsets(rest, 1, max_deps)
        for deps in gen:
            out.append((deps, prov))
    return out


def dags(n, names, nodep="batch_size"):
    """All graphs in which plugin i provides names[i] and depends on a non-empty subset of
    the source and the earlier names."""
    choices = []
    for i in range(n):
        opts = list(toys.subsets([nodep] + list(names[:i]), 1))
        choices.append(opts)
    return itertools.product(*choices)


def shapes(n):
    """Graphs with a size: (name, plugins, requests)."""
    src = ("batch_size",)
    chain = [(f"L{i}", src if i == 0 else (f"v{i - 1}",), (f"v{i}",), (f"q{i}",)) for i in range(n)]
    yield "chain", chain, [(f"v{n - 1}",), (f"v{n - 1}", "v0"), (f"v{n // 2}",)]
    skip = [(f"L{i}", src if i == 0 else tuple(f"v{j}" for j in dict.fromkeys((i - 1, i - 2, 0)) if j >= 0), (f"v{i}",), ("shared",)) for i in range(n)]
    yield "every second", skip, [(f"v{n - 1}",)]
    full = [(f"L{i}", src if i == 0 else tuple(f"v{j}" for j in range(i)), (f"v{i}",), (f"q{i}",)) for i in range(n)]
    yield "all earlier ones", full, [(f"v{n - 1}",), (f"v{n // 2}", "v0")]
    fan = [(f"L{i}", src, (f"v{i}",), (f"q{i}",)) for i in range(n)] + [("Sum", tuple(f"v{i}" for i in reversed(range(n))), ("s",), ("qs",))]
    yield "many inputs", fan, [("s",), tuple(f"v{i}" for i in range(0, n, 2)) + ("s",)]
    out = [("Split", src, tuple(f"w{i}" for i in range(n)), ("qw",))] + [(f"L{i}", tuple(dict.fromkeys((f"w{i}", f"w{n - 1 - i}"))), (f"v{i}",), ()) for i in range(n)]
    yield "many outputs", out, [(f"v{n - 1}", "v0"), tuple(f"w{i}" for i in reversed(range(n)))]
    ladder = []
    for i in range(n):
        below = src if i == 0 else (f"a{i - 1}", f"b{i - 1}")
        ladder += [(f"A{i}", below, (f"a{i}",), (f"pa{i}",)), (f"B{i}", below[::-1], (f"b{i}",), (f"pb{i}",))]
    yield "ladder", ladder, [(f"a{n - 1}",), (f"b{n - 1}", f"a{n // 2}")]
    again = [(f"L{i}", src, ("v0",), (f"q{i}",)) for i in range(n)] + [("Use", ("v0",), ("u",), ())]
    yield "provided again and again", again, [("u", "v0")]
