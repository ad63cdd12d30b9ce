"""Turn the labelled state graph that TLC printed into scripts."""
import collections, json


def parse_edges(out):
    """EDGE lines printed with PrintT(ToJson(<<"EDGE", from, op, to>>))."""
    edges = []
    for line in out.split("\n"):
        if not line.startswith('"[\\"EDGE'):
            continue
        _, a, op, b = json.loads(json.loads(line))
        edges.append((a, tuple(op), b))
    return edges


def cover(edges, init, rng, maxlen=400):
    """Walks from init that together take every edge at least once."""
    adj = collections.defaultdict(dict)
    for a, op, b in edges:
        adj[a][op] = b
    todo = {a: set(d) for a, d in adj.items()}
    left = sum(len(s) for s in todo.values())
    walks = []
    while left:
        walk, cur = [], init
        while left and len(walk) < maxlen:
            if todo.get(cur):
                op = rng.choice(sorted(todo[cur], key=repr))
                todo[cur].discard(op)
                left -= 1
                walk.append((cur, op))
                cur = adj[cur][op]
                continue
            # breadth first to the nearest state with an untaken edge
            prev = {cur: None}
            queue = collections.deque([cur])
            goal = None
            while queue:
                s = queue.popleft()
                if todo.get(s):
                    goal = s
                    break
                for op, t in adj[s].items():
                    if t not in prev:
                        prev[t] = (s, op)
                        queue.append(t)
            if goal is None:
                break
            steps = []
            s = goal
            while prev[s]:
                steps.append(prev[s])
                s = prev[s][0]
            walk.extend(reversed(steps))
            cur = goal
        if not walk:
            break               # unreachable leftovers
        walks.append(walk)
    return walks
