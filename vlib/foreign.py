"""Random but valid compound files as other applications could have written them."""
from . import cfbref
from .cfbworld import MDir, MFile, content, fold, random_attrs
from aaf2 import auid


def foreign(ctx, ss, biggest=30000, width=30):
    rng = ctx.rng
    root = MDir()

    def name():
        r = rng.random()
        if r < 0.1:
            return "".join(rng.choice("abcdefghijklmno") for _ in range(rng.choice([29, 30, 31])))
        if r < 0.2:
            return "".join(rng.choice(u"äöüßéñ\u0416\u4e2d\u6587\uac00aB") for _ in range(rng.randint(1, 12)))
        return "".join(rng.choice("abcdefgXYZ0123-{} ") for _ in range(rng.randint(1, 9))).strip() or "n"

    def fill(d, t, depth):
        for _ in range(rng.choice([0, 1, 3, 8, 20]) if depth else rng.choice([0, 1, 3, 8, width])):
            n = name()
            if fold(n) in {fold(k) for k in d.kids}:
                continue
            if rng.random() < 0.3 and depth < 4:
                m = MDir()
                if rng.random() < 0.6:
                    m.clsid = auid.AUID(int=rng.getrandbits(128) | 1)
                d.kids[n] = m
                tn = cfbref.TNode(n, None, m.clsid.bytes_le if m.clsid is not None else b"\0" * 16)
                t.children[n] = tn
                fill(m, tn, depth + 1)
            else:
                sz = rng.choice([0, 1, 63, 64, 65, 300, 4095, 4096, 4097, 9000, 30000])
                dat = content(rng, sz)
                d.kids[n] = MFile(dat)
                t.children[n] = cfbref.TNode(n, dat)
            if rng.random() < 0.3:
                d.kids[n].attrs = t.children[n].attrs = random_attrs(rng)
    t = cfbref.TNode("Root Entry", None)
    fill(root, t, 0)
    if rng.random() < 0.3:
        root.attrs = t.attrs = random_attrs(rng)
    if biggest > 30000:
        dat = content(rng, biggest)
        root.kids["the big one"] = MFile(dat)
        t.children["the big one"] = cfbref.TNode("the big one", dat)
    how = dict(shuffle=rng.random() < 0.8, holes=rng.choice([0, 0, 0.3, 1.0]),
               tree=rng.choice(["random", "balanced", "chain"]), eoc_none=rng.random() < 0.7,
               dir_holes=rng.choice([0, 0, 5, 40]), free_tail=rng.choice([0, 0, 300]))
    img = cfbref.build(t, rng, ss, **how)
    ctx.log("foreign", ss, len(img), sorted(how.items()))
    return root, img, how
