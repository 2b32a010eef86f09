"""Random prefix-free code tables."""
import pipe


def rand_table(r, ncat, maxlen=16, shuffle=True):
    """[[code, length]] for 17 categories, the first ncat of them prefix-free (no all-ones code)"""
    while True:
        st = r.random()
        lens = [r.randint(1, maxlen) if st < .4 else r.randint(2, min(maxlen, 7)) if st < .8 else r.choice([3, 4, 5, maxlen, maxlen])
                for _ in range(ncat)]
        if sum(2.0 ** -l for l in lens) < 1:
            break
    order = sorted(range(ncat), key=lambda k: (lens[k], r.random() if shuffle else k))
    tab = [list(x) for x in pipe.DEFAULT_CODES]
    code = prev = 0
    for n, k in enumerate(order):
        if n:
            code = (code + 1) << (lens[k] - prev)
        prev = lens[k]
        tab[k] = [code, lens[k]]
    return tab


def entry(bd, cat, tab):
    code, ln = tab[cat]
    return ln << (16 + bd) | (code if cat == 16 else code << cat)
