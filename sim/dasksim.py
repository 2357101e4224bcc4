"""A dask scheduler that runs tasks one at a time, in an order the scenario decides."""
import random


def install(spec):
    import dask

    seed = spec.get("seed", 0)
    state = {"n": 0}

    def get(dsk, keys, **kw):
        from dask._task_spec import convert_legacy_graph

        from dask.utils import ensure_dict

        if hasattr(dsk, "__dask_graph__"):
            dsk = dsk.__dask_graph__()
        g = convert_legacy_graph(ensure_dict(dsk))
        rng = random.Random(seed * 1000003 + state["n"])
        state["n"] += 1
        want = []

        def flat(k):
            if isinstance(k, list):
                for x in k:
                    flat(x)
            else:
                want.append(k)

        flat(keys)
        need, todo = set(), list(want)
        while todo:
            k = todo.pop()
            if k in need:
                continue
            need.add(k)
            todo.extend(g[k].dependencies)
        order = {k: i for i, k in enumerate(sorted(need, key=str))}
        waiting = {k: {d for d in g[k].dependencies} for k in need}
        dependents = {}
        for k in need:
            for d in waiting[k]:
                dependents.setdefault(d, []).append(k)
        ready = sorted([k for k in need if not waiting[k]], key=order.get)
        done = {}
        while ready:
            k = ready.pop(rng.randrange(len(ready)) if seed else 0)
            node = g[k]
            done[k] = node({d: done[d] for d in node.dependencies})
            new = []
            for m in dependents.get(k, ()):
                waiting[m].discard(k)
                if not waiting[m]:
                    new.append(m)
            ready += sorted(new, key=order.get)

        def pack(k):
            return [pack(x) for x in k] if isinstance(k, list) else done[k]

        return tuple(pack(k) for k in keys) if isinstance(keys, (list, tuple)) else done[keys]

    dask.config.set(scheduler=get)
