import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vcg"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import front, check, tree
import C14
from check import U


def units(tier, seed):
    mod = front.module("treew", flags=front.REAL)
    us = []
    for n in (1024, 512):
        H = n.bit_length() - 1
        parts = [U("ffldl%d_%d" % (H, l), "falcon_tree::ffldl<%d, %d, %d>" % (n >> l, l, H), tree.u_ffldl(mod, n >> l, l, H)) for l in range(H)]
        parts += [U("ldl%d" % (1 << k), "falcon_tree::ldl<%d>" % (1 << k), tree.u_ldl(mod, 1 << k)) for k in range(1, H + 1)]
        us.append(U("gram%d" % n, "keygen::compute_gram_matrix<%d>" % n, tree.u_gram(mod, n)))
        parts += [U("normalize%d" % n, "falcon_tree::normalize_tree<%d>" % n, tree.u_norm(mod, n)),
                  U("tree%d" % n, "falcon::compute_falcon_tree<%d>" % n, tree.u_tree(mod, n))]
        us.append(U("tree%d" % n, "falcon::compute_falcon_tree<%d>, keygen::compute_gram_matrix, falcon_tree::ldl, ffldl, normalize_tree (every level)" % n,
                    tree.either(parts, tree.u_tree(mod, n, inline=True))))
        if tier == "thorough":
            us.append(U("whole%d" % n, "falcon::compute_falcon_tree<%d>, all callees in place" % n, tree.u_tree(mod, n, inline=True)))
    return us


if __name__ == "__main__":
    check.main(check.Check("C15", "signing tree", units, assumptions=C14.ASSUME + ["square roots: congruence only (equal arguments, equal roots)"],
                           trusted=["-fcx-limited-range: complex products and quotients by their textbook formulas"],
                           replay=("replay", ["-O2"], 0, 40)))
