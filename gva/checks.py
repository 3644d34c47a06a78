from . import c_cfg as g
from . import c_cli as l
from . import c_crs as c
from . import c_poly as p

TABLE = {"C01": p.c01, "C02": p.c02, "C03": p.c03, "C04": p.c04, "C05": p.c05, "C06": p.c06, "C07": p.c07, "C08": p.c08,
         "C09": p.c09, "C10": p.c10, "C11": p.c11, "C12": p.c12,
         "C13": c.c13, "C14": c.c14, "C15": c.c15, "C16": c.c16, "C17": c.c17, "C18": c.c18,
         "C19": g.c19, "C20": g.c20, "C21": g.c21, "C22": g.c22, "C23": l.c23, "C24": l.c24, "C25": l.c25,
         "C26": g.c26, "C27": l.c27, "C28": l.c28, "C29": l.c29}
