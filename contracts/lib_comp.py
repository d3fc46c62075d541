"""Shared: utils.compositions yields exactly the bounded compositions, each once."""

ASSUMPTIONS = ["termination of the recursion of utils.compositions is not proved (its second argument decreases)"]


def add(w, props):
    w.macro("noneg(m)", "all(pat(implies(0 <= i and i < len(m), m[i] >= 0), m[i]) for i in ints())")
    w.macro("within(c, lo, hi)", "all(pat(implies(0 <= i and i < len(c), lo[i] <= c[i] and (hi[i] is None or c[i] <= hi[i])), c[i]) for i in ints())")
    # the compositions of n into k parts within the bounds
    w.macro("iscomp(c, n, k, lo, hi)", "len(c) == k and tsum(c, k) == n and c[0] + tsum(tl(c), k - 1) == n and within(c, lo, hi)")
    shift = ("induct", "j", "all(pat(implies(stp(tl(t), j - 1) and stp(t, j) and j < len(t), tsum(tl(t), j) == tsum(t, j + 1) - t[0]), tsum(tl(t), j)) for t in every('tup[int]'))", "tsum(tl(min_sizes), j)")
    pos = ("induct", "j", "all(pat(implies(stp(t, j - 1) and j <= len(t) and noneg(t), tsum(t, j) >= 0), tsum(t, j)) for t in every('tup[int]'))", "tsum(min_sizes, j)")
    mono = ("induct", "j", "all(all(pat(implies(stp(t, j - 1) and stp(u, j - 1) and all(pat(implies(0 <= i and i < j, t[i] <= u[i]), t[i], u[i]) for i in ints()), tsum(t, j) <= tsum(u, j)), (tsum(t, j), tsum(u, j))) for t in every('tup[int]')) for u in every('tup[int]'))", "tsum(min_sizes, j)")
    sound = "all(pat(implies(0 <= j and j < len(Y), iscomp(Y[j], n, k, min_sizes, max_sizes)), Y[j]) for j in ints())"
    once = "all(all(implies(0 <= a and a < b and b < len(Y), Y[a] != Y[b]) for b in ints()) for a in ints())"
    Y = lambda s, y: s.replace("Y", y)
    w.contract("utils.compositions", params={"n": "int", "k": "int", "min_sizes": "tup[int]", "max_sizes": "tup[opt[int]]"}, yields="tup[int]", props=props,
               requires=[("one bound per part", "len(min_sizes) == k and len(max_sizes) == k"), ("sizes are not negative", "noneg(min_sizes)")],
               entry_lemmas=[shift, pos, mono],
               loops={0: {"inv": [("only compositions within the bounds", Y(sound, "_yield")), ("each once", Y(once, "_yield")),
                                  ("first parts so far", "all(pat(implies(0 <= j and j < len(_yield), _yield[j][0] < min_sizes[0] + _i0), _yield[j]) for j in ints())"),
                                  ("all with these first parts", "all(pat(implies(iscomp(c, n, k, min_sizes, max_sizes) and c[0] < min_sizes[0] + _i0, has(_yield, c)), has(_yield, c)) for c in every('tup[int]'))")]}},
               ensures=[("only compositions within the bounds", Y(sound, "result")), ("each once", Y(once, "result")),
                        ("all compositions within the bounds", "k == 0 or all(pat(implies(iscomp(c, n, k, min_sizes, max_sizes), has(result, c)), has(result, c), tsum(c, k)) for c in every('tup[int]'))")])
