"""Checks of basicimg outside MSER: components and pictures (spec/conn), edges (spec/edge)."""
import plain


def C01(chk):
    chk.model("conn", "MC_Conn", "MC_Conn_wide" if chk.thorough else "MC_Conn")
    plain.run(chk, "drv_img", "conn", "ConnGen", "ConnTrace", ["ConnGen"], 800, "Conn")


def C02(chk):
    chk.model("edge", "MC_Edges", "MC_Edges_wide" if chk.thorough else "MC_Edges")
    plain.run(chk, "drv_edge_img", "edge", "EdgesGen", "EdgesTrace", ["EdgesGen"], 1200, "Edges")
