"""Recording proxies that generated functions call; referenced by configuration as mc.proxies.X."""

CALLS = []
ANSWER = [None]  # callable(operation class) -> list of results


class Ctx:
    """A type for extra arguments."""

    def __init__(self, n=0):
        self.n = n


def _record(who, args, kwargs):
    CALLS.append((who, args, kwargs))
    op = next((a for a in args if isinstance(a, type)), None)
    return ANSWER[0](op) if ANSWER[0] else [None, None]


def query(*args, **kwargs):
    return _record("query", args, kwargs)[0]


def mutate(*args, **kwargs):
    return _record("mutate", args, kwargs)[0]


async def aquery(*args, **kwargs):
    return _record("aquery", args, kwargs)[0]


async def amutate(*args, **kwargs):
    return _record("amutate", args, kwargs)[0]


def subscribe(*args, **kwargs):
    yield from _record("subscribe", args, kwargs)


async def asubscribe(*args, **kwargs):
    for x in _record("asubscribe", args, kwargs):
        yield x


USE = {("query", False): "mc.proxies.query", ("query", True): "mc.proxies.aquery",
       ("mutation", False): "mc.proxies.mutate", ("mutation", True): "mc.proxies.amutate",
       ("subscription", False): "mc.proxies.subscribe", ("subscription", True): "mc.proxies.asubscribe"}


def definitions(**extra):
    return [{"type": k, "is_async": a, "use": u, **extra} for (k, a), u in USE.items()]


def call(fn, args, kwargs):
    """Runs a generated function of any flavour; -> (results, recorded calls)"""
    import asyncio
    import inspect

    del CALLS[:]
    if inspect.isasyncgenfunction(fn):
        async def collect():
            return [x async for x in fn(*args, **kwargs)]
        out = run(collect())
    elif inspect.iscoroutinefunction(fn):
        out = [run(fn(*args, **kwargs))]
    elif inspect.isgeneratorfunction(fn):
        out = list(fn(*args, **kwargs))
    else:
        out = [fn(*args, **kwargs)]
    return out, list(CALLS)


def run(coro):
    """Drives a coroutine that never really suspends (no event loop needed)."""
    try:
        coro.send(None)
    except StopIteration as e:
        return e.value
    raise RuntimeError("the generated coroutine suspended")
