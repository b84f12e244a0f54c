"""Checks of the matrix class mt_mat (specification folder spec/mat)."""
import mat
from check import build, generated


def run(chk, cfgs, quick=300, **kw):
    ex = mat.Exec(build("drv_mat"))
    try:
        generated(chk, "mat", "MatGen", "MatTrace", ex, ["MatGen_" + c for c in cfgs], quick, describe=mat.describe, **kw)
    finally:
        ex.close()


def A01(chk):
    for c in ("MC_MatView", "MC_MatView_channels") + (("MC_MatView_cube",) if chk.thorough else ()):
        chk.model("mat", "MC_Mat", c)
    run(chk, ["views"], 1600)


def A02(chk):
    chk.model("mat", "MC_Mat", "MC_MatShare_wide" if chk.thorough else "MC_MatShare")
    run(chk, ["share"], 1600)


def A03(chk):
    run(chk, ["arith", "pow"], 1000)


def A04(chk):
    run(chk, ["write"], 1600)


def A05(chk):
    run(chk, ["reduce", "gather"], 900)


def A06(chk):
    run(chk, ["ask"], 1600)


def A07(chk):
    run(chk, ["json"], 1200)
