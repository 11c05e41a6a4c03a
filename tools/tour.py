"""Turns the transitions of a state graph enumerated by TLC into scripts that take every transition."""
from collections import deque

from vf import Episode, OPENERS


def tours(rng, edges, render, max_len=400, finish=None):
    """edges: [from, call, to, result tag]. `render(call, tag)` gives the script lines of a call.
    `finish(depth)` gives lines that end an episode (after all scopes have been closed).
    Every episode starts in the initial state, which is where the first edge starts."""
    ids = {}

    def sid(s):
        return ids.setdefault(s, len(ids))

    init = sid(edges[0][0])
    out = {}
    uniq = set()
    for f, call, t, tag in edges:
        a, b = sid(f), sid(t)
        if (a, call, b) in uniq:
            continue
        uniq.add((a, call, b))
        out.setdefault(a, []).append((call, b, tag))
    todo = {a: deque(rng.sample(es, len(es))) for a, es in out.items()}
    # self loops first, so that a state is used up when it is left
    for a in todo:
        todo[a] = deque(sorted(todo[a], key=lambda e: e[1] != a))
    left = sum(len(es) for es in todo.values())
    total = left
    episodes = []

    def path_to_work(src):
        """The shortest path to a state with untaken transitions."""
        if todo.get(src):
            return []
        prev = {src: None}
        q = deque([src])
        while q:
            s = q.popleft()
            for call, t, tag in out.get(s, ()):
                if t in prev:
                    continue
                prev[t] = (s, call, tag)
                if todo.get(t):
                    path = []
                    while prev[t] is not None:
                        s0, c, g = prev[t]
                        path.append((c, t, g))
                        t = s0
                    return path[::-1]
                q.append(t)
        return None

    while left:
        cur = init
        lines, depth = [], 0

        def take(call, tag):
            nonlocal depth
            op = call.split(" ")[0]
            lines.extend(render(call, tag))
            if op in OPENERS:
                if tag == "panic":
                    lines.append("close")
                else:
                    depth += 1
            elif op == "close":
                depth -= 1

        while left and len(lines) < max_len:
            p = path_to_work(cur)
            if p is None:
                break
            for call, t, tag in p:
                take(call, tag)
                cur = t
            call, t, tag = todo[cur].popleft()
            left -= 1
            take(call, tag)
            cur = t
        if not lines:
            raise RuntimeError("unreachable transitions")
        lines += ["close"] * depth
        if finish:
            lines += finish()
        episodes.append(Episode(lines, "transition tour"))
    return episodes, total
