"""Transcript automata: language of labelled operations of one entry point."""


def build(edges, start, accept):
    """-> minimal DFA as a canonical form [(accepting, {(kind, label): state})], state 0 first."""
    eps, tr = {}, {}
    for a, k, l, b in edges:
        if k is None:
            eps.setdefault(a, set()).add(b)
        else:
            tr.setdefault(a, set()).add(((k, l), b))

    def close(s):
        todo, seen = list(s), set(s)
        while todo:
            x = todo.pop()
            for y in eps.get(x, ()):
                if y not in seen:
                    seen.add(y)
                    todo.append(y)
        return frozenset(seen)
    ids, trans, acc = {}, [], []
    q0 = close([start])
    ids[q0] = 0
    todo = [q0]
    trans.append({})
    acc.append(bool(q0 & accept))
    while todo:
        q = todo.pop()
        i = ids[q]
        d = {}
        for x in q:
            for l, y in tr.get(x, ()):
                d.setdefault(l, set()).add(y)
        for l, ys in d.items():
            r = close(ys)
            if r not in ids:
                ids[r] = len(trans)
                trans.append({})
                acc.append(bool(r & accept))
                todo.append(r)
            trans[i][l] = ids[r]
    # drop states from which nothing is accepted
    live = {i for i in range(len(trans)) if acc[i]}
    ch = True
    while ch:
        ch = False
        for i, t in enumerate(trans):
            if i not in live and any(j in live for j in t.values()):
                live.add(i)
                ch = True
    # partition refinement
    part = {i: int(acc[i]) for i in live}
    while True:
        sig = {i: (part[i], tuple(sorted((repr(l), part[j]) for l, j in trans[i].items()
                                         if j in live))) for i in live}
        names = {s: k for k, s in enumerate(sorted(set(sig.values())))}
        new = {i: names[sig[i]] for i in live}
        if len(set(new.values())) == len(set(part.values())):
            break
        part = new
    if 0 not in live:
        return []
    num, out, queue = {part[0]: 0}, [], [0]
    rep = {}
    for i in live:
        rep.setdefault(part[i], i)
    while queue:
        i = queue.pop(0)
        row = {}
        for l, j in sorted(trans[rep[part[i]]].items(), key=lambda x: repr(x[0])):
            if j not in live:
                continue
            p = part[j]
            if p not in num:
                num[p] = len(num)
                queue.append(rep[p])
            row[l] = num[p]
        out.append((acc[rep[part[i]]], row))
    return out


def differ(a, b):
    """A shortest sequence accepted by exactly one of two DFAs, or None."""
    seen, queue = {(0 if a else None, 0 if b else None)}, [((0 if a else None,
                                                              0 if b else None), ())]
    while queue:
        (x, y), w = queue.pop(0)
        ax = x is not None and a[x][0]
        by = y is not None and b[y][0]
        if ax != by:
            return w, ax
        ls = set(a[x][1] if x is not None else ()) | set(b[y][1] if y is not None else ())
        for l in sorted(ls, key=repr):
            n = (a[x][1].get(l) if x is not None else None,
                 b[y][1].get(l) if y is not None else None)
            if n not in seen:
                seen.add(n)
                queue.append((n, w + (l,)))
    return None


def word(w):
    return ' '.join('%s:%s' % (k, l.decode() if isinstance(l, bytes) else l) for k, l in w)


def idle(edges, hdrs, skips):
    """Labels of loops that use the transcript in some rounds only: {(kind, label)}."""
    eps = {}
    for a, k, l, b in edges:
        if k is None and (a, b) not in skips:
            eps.setdefault(a, set()).add(b)
    out = set()
    for h, v in hdrs.items():
        n = len(h[3])
        own = {(k, l) for a, k, l, b in edges if k is not None and
               b[3][:n] == h[3] and b[3][n:n + 1] == (v,)}
        if not own:
            continue
        todo, seen = list(eps.get(h, ())), set()
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            todo += eps.get(x, ())
        if h in seen:
            out |= own
    return out


def repeated(edges, skips):
    """Challenges drawn twice with nothing in between (loops in between run at least once)."""
    eps, out = {}, set()
    for a, k, l, b in edges:
        if k is None and (a, b) not in skips:
            eps.setdefault(a, set()).add(b)
    draws = {}
    for a, k, l, b in edges:
        if k == 'chal':
            draws.setdefault(a, set()).add(l)
    for a, k, l, b in edges:
        if k != 'chal':
            continue
        todo, seen = [b], set()
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            if l in draws.get(x, ()):
                out.add((k, l))
            todo += eps.get(x, ())
    return out
