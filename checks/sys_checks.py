"""Checks of basicsys: documents and buffers (specification folder spec/sys)."""
import plain


def S01(chk):
    chk.model("sys", "MC_Text", "MC_Text_wide" if chk.thorough else "MC_Text")
    plain.run(chk, "drv_doc", "sys", "DocGen", "DocTrace", ["DocGen"], 1000, "Doc")


def S02(chk):
    chk.model("sys", "MC_Buffer", "MC_Buffer_wide" if chk.thorough else "MC_Buffer")
    plain.run(chk, "drv_buf", "sys", "BufferGen", "BufferTrace", ["BufferGen"], 1200, "Buffer")


def S03(chk):
    chk.model("str", "MC_Strings", "MC_Strings_wide" if chk.thorough else "MC_Strings")
    plain.run(chk, "drv_str", "str", "StringsGen", "StringsTrace", ["StringsGen"], 1600, "Strings")


def S04(chk):
    chk.model("file", "MC_Files")
    plain.run(chk, "drv_file", "file", "FilesGen", "FilesTrace", ["FilesGen"], 1200, "Files")


def L01(chk):
    chk.model("log", "MC_Log", "MC_Log_wide" if chk.thorough else "MC_Log")
    plain.run(chk, "drv_log", "log", "LogGen", "LogTrace", ["LogGen"], 500, "Log")


def S05(chk):
    chk.model("stat", "MC_Stats")
    plain.run(chk, "drv_stat", "stat", "StatsGen", "StatsTrace", ["StatsGen"], 1000, "Stats")
