"""Independent fixed-point computation on (parent, children, shifts) rule sets."""

INF = None


def lfp(rules):
    """least fixed point of 'terms computable': dict label -> int or None (=infinite).

    F(f)(p) = max over rules p<-(c_i, s_i) of min_i (f(c_i) + s_i)   (infinite for a leaf rule),
    never below 0, computed on the lattice {0..cap, infinity}; finite values of the least fixed
    point are at most (number of classes) * (largest shift), so the cap is far above them."""
    labels = set()
    g = 1
    for p, cs, ss in rules:
        labels.add(p)
        labels.update(cs)
        g = max([g] + [abs(s) for s in ss])
    cap = 3 * (len(labels) + 1) * g + 3
    f = dict.fromkeys(labels, 0)
    changed = True
    while changed:
        changed = False
        for p, cs, ss in rules:
            if f[p] is INF:
                continue
            v = INF
            for c, s in zip(cs, ss):
                if f[c] is not INF:
                    w = f[c] + s
                    v = w if v is INF else min(v, w)
            if v is INF or v > cap:
                f[p] = INF
                changed = True
            elif v > f[p]:
                f[p] = v
                changed = True
    return f


def pumping(rules):
    return {k for k, v in lfp(rules).items() if v is INF}
