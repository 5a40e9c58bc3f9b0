"""Clustering by Committee from its definition, on label-keyed plain data (reference for P21/P22)."""
import math

EPS = [1e-9]   # two values closer than this are a tie (raised when the library computes in single precision)


class Tie(Exception):
    """the outcome hinges on a tie or on undefined values: any choice is right"""


def cosine(u, v):
    a = math.sqrt(sum(x * x for x in u))
    b = math.sqrt(sum(x * x for x in v))
    if a == 0 or b == 0:
        return 0.0
    return sum(x * y for x, y in zip(u, v)) / (a * b)


def at_least(x, theta):
    if theta == 0 and x >= 0:       # cosines of vectors without negative values are never below 0, rounded or not
        return True
    if abs(x - theta) < EPS[0]:
        raise Tie('value %r at the threshold %r' % (x, theta))
    return x >= theta


def argmax(vals):
    m = max(vals)
    if sum(1 for v in vals if abs(v - m) < EPS[0]) > 1:
        raise Tie('two largest values')
    return vals.index(m)


def clean(L):
    """[(score, elements)] -> ({elements: set of scores}, singletons)"""
    pos = {}
    for s, c in L:
        if s > 0:
            pos.setdefault(frozenset(c), set()).add(s)
    kept = {c: s for c, s in pos.items() if not any(d < c for d in pos)}
    covered = set().union(*pos) if pos else set()
    singles = {e for s, c in L if not s > 0 for e in c} - covered
    return kept, singles


def committee_vector(rows, members, freq):
    """ppmi of the mean row of the members against all other rows"""
    cols = range(len(next(iter(freq.values()))))
    total = [sum(freq[r][j] for r in rows) for j in cols]
    ssum = [sum(freq[r][j] for r in members) for j in cols]
    cent = [x / len(members) for x in ssum]
    rest = [t - s for t, s in zip(total, ssum)]
    tot = sum(cent) + sum(rest)
    if tot == 0:
        raise Tie('no frequencies at all')
    out, near = [], False
    for c, r in zip(cent, rest):
        if c == 0:
            out.append(0.0)
            continue
        v = math.log((c / tot) / ((sum(cent) / tot) * ((c + r) / tot)))
        near = near or abs(v) < 1e-9
        out.append(max(0.0, v))
    if near and max(out) < 1e-9:
        raise Tie('direction is rounding noise')
    return out


def neighbours(e, rows, dist, k):
    others = sorted((x for x in rows if x != e), key=lambda x: dist[e, x])
    ds = [dist[e, x] for x in others]
    if 0 < k < len(others) and abs(ds[k - 1] - ds[k]) < EPS[0]:
        raise Tie('neighbours')
    return others[:k]


def average_linkage(items, dist):
    """-> merge heights in order and the clusters that each merge joins"""
    cl = [frozenset([i]) for i in items]
    merges = []
    while len(cl) > 1:
        best = []
        for i in range(len(cl)):
            for j in range(i + 1, len(cl)):
                d = sum(dist[a, b] for a in cl[i] for b in cl[j]) / (len(cl[i]) * len(cl[j]))
                best.append((d, i, j))
        best.sort()
        if len(best) > 1 and best[1][0] - best[0][0] < EPS[0]:
            raise Tie('linkage')
        d, i, j = best[0]
        new = cl[i] | cl[j]
        merges.append((d, new))
        cl = [c for k, c in enumerate(cl) if k not in (i, j)] + [new]
    return merges


def percentile(vals, q):
    v = sorted(vals)
    pos = (len(v) - 1) * q / 100.0
    lo = int(math.floor(pos))
    hi = min(lo + 1, len(v) - 1)
    return v[lo] + (v[hi] - v[lo]) * (pos - lo)


def cut(items, merges, method, t):
    hs = [h for h, _ in merges]
    if method == 'minsize':
        thr = 1.0
        for h, c in merges:
            if len(c) >= t:
                thr = h
                break
    elif t == 'mean':
        thr = sum(hs) / len(hs)
    elif t == 'median':
        thr = percentile(hs, 50)
    elif isinstance(t, str):
        thr = percentile(hs, int(t[:t.index('%')]))
    else:
        thr = t
        if any(abs(h - t) < EPS[0] for h in hs):
            raise Tie('height')
    part = {i: frozenset([i]) for i in items}
    for h, c in merges:
        if h <= thr + EPS[0]:
            for i in c:
                part[i] = c
    return sorted(set(part.values()), key=sorted)


def candidates(e, rows, dist, k, method, t, metric):
    """the scored clusters of the k nearest elements of e"""
    near = neighbours(e, rows, dist, k)
    if len(near) < 2:
        return []
    out = []
    for c in cut(near, average_linkage(near, dist), method, t):
        if len(c) == 1:
            out.append((-1, c))
            continue
        cc = sorted(c)
        pairs = [1 - dist[a, b] for i, a in enumerate(cc) for b in cc[i + 1:]]
        avg = sum(pairs) / len(pairs)
        if callable(metric):
            out.append((metric(len(c), avg), c))
            continue
        f = {'without_size': 1, 'with_size': len(c), 'with_size_sqrt': math.sqrt(len(c))}[metric]
        out.append((f * avg, c))
    return out


def highest(cands):
    multi = sorted((c for c in cands if len(c[1]) > 1 and c[0] > 0), key=lambda c: -c[0])
    if not multi:
        return []
    if len(multi) > 1 and multi[0][0] - multi[1][0] < EPS[0]:
        raise Tie('highest')
    return multi[:1]


def step2(L, rows, freq, meas, theta):
    """-> [(members)] in order, vectors"""
    kept, singles = clean(L)
    if not kept:
        return [], None
    order = sorted(kept, key=lambda c: -max(kept[c]))
    for a, b in zip(order, order[1:]):
        if max(kept[a]) - max(kept[b]) < EPS[0]:
            raise Tie('scores')
    vec = [committee_vector(rows, c, freq) for c in order]
    merged, out = set(), []
    for i in range(len(order)):
        if i in merged:
            continue
        rest = [j for j in range(i + 1, len(order)) if j not in merged]
        c = set(order[i])
        if rest:
            sims = [cosine(vec[i], vec[j]) for j in rest]
            if at_least(max(sims), theta):
                j = rest[argmax(sims)]
                merged.add(j)
                c |= order[j]
        out.append(c)
    mv = [committee_vector(rows, c, freq) for c in out]
    for s in singles:
        sims = [cosine(meas[s], v) for v in mv]
        if at_least(max(sims), theta):
            out[argmax(sims)].add(s)
    return out, [committee_vector(rows, c, freq) for c in out]


def step3(rows, meas, comms, vecs, theta):
    """-> residues in order, committees with every other element added to its most similar committee"""
    res, out = [], [set(c) for c in comms]
    for e in rows:
        sims = [cosine(meas[e], v) for v in vecs]
        if not at_least(max(sims), theta):
            res.append(e)
        else:
            out[argmax(sims)].add(e)
    return res, out


def cluster(elements, freq, meas, dist, k, theta1, theta2, method, t, metric, high, num_iter):
    """-> list of (committees, residues) per recursion"""
    rows, out = list(elements), []
    for _ in range(num_iter):
        if not rows:
            break
        kk = int(k * len(rows)) if k < 1 else k
        L = []
        for e in rows:
            c = candidates(e, rows, dist, kk, method, t, metric)
            L.extend(highest(c) if high else c)
        comms, vec = step2(L, rows, freq, meas, theta1)
        if comms:
            res, _x = step3(rows, meas, comms, vec, theta2)
        else:
            res = list(rows)
        out.append((comms, res))
        if len(res) <= 2 or len(res) == len(rows):
            break
        rows = res
    return out
