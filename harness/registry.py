from . import checks_api as a
from . import checks_hist as h
from . import checks_io as io
from . import checks_py as py
from . import checks_solver as s
from . import pysim

CHECKS = {"C01": s.c01, "C02": s.c02, "C03": s.c03, "C04": h.c04, "C05": h.c05,
          "C06": h.c06, "C08": h.c08, "C10": io.c10, "C11": io.c11, "C12": io.c12, "C13": io.c13, "C14": io.c14, "C23": io.c23,
          "C07": a.c07, "C15": a.c15, "C16": a.c16, "C17": a.c17, "C21": a.c21, "C22": a.c22, "C09": a.c09, "C20": a.c20,
          "C18": py.c18, "C19": py.c19}


def replay(doc):
    return {"solver": s.replay, "pysim": pysim.replay}[doc["kind"]](doc)
