"""Checks of the small algorithms and of rectangles (specification folders spec/alg and spec/rect)."""
import plain


def A08(chk):
    for c in ("big", "small") + (("wide",) if chk.thorough else ()):
        chk.model("alg", "MC_Select", "MC_Select_" + c)
    plain.run(chk, "drv_alg", "alg", "AlgGen", "AlgTrace", ["AlgGen_sort"], 1200, "Alg")


def A09(chk):
    chk.model("alg", "MC_Dynamic")
    plain.run(chk, "drv_alg", "alg", "AlgGen", "AlgTrace", ["AlgGen_help", "AlgGen_draw"], 1200, "Alg")


def A10(chk):
    chk.model("rect", "MC_Rect", "MC_Rect_wide" if chk.thorough else "MC_Rect")
    plain.run(chk, "drv_rect", "rect", "RectGen", "RectTrace", ["RectGen"], 2000, "Rect")
