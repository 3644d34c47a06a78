"""Model of pandas tables as used for input and output."""
import numpy as np

from . import terms as tt
from .terms import T, FALSE, TRUE, tm
from .values import MISSING, Arr, LDict, Lib, LibObj, LList, Obj, PhiV, as_int, is_scalar, oarr

HARMLESS = {"engine", "encoding", "low_memory", "memory_map", "float_precision", "names", "filepath_or_buffer"}


# default values of the options of read_csv
DEFAULTS = {"index_col": (None, False), "skipinitialspace": (False, True), "skiprows": (None, 0), "skipfooter": (0,),
            "nrows": (None,), "na_values": (None,), "keep_default_na": (True,), "na_filter": (True,), "skip_blank_lines": (True,),
            "parse_dates": (None, False), "iterator": (False,), "chunksize": (None,), "compression": ("infer", None),
            "thousands": (None,), "decimal": (".",), "lineterminator": (None,), "quotechar": ('"',), "quoting": (0,),
            "doublequote": (True,), "escapechar": (None,), "comment": (None,), "encoding_errors": ("strict", None),
            "on_bad_lines": ("error",), "delim_whitespace": (False, None), "usecols": (None,), "converters": (None,)}
DEFINITE = ("skiprows", "nrows", "usecols", "skipfooter", "na_values", "decimal", "thousands", "index_col", "on_bad_lines")

# methods of tables with a row number for an index that leave the table as it is
SAME = ("copy", "infer_objects", "set_flags", "rename_axis")
# methods that leave out or reorder rows
ROWS = ("drop_duplicates", "dropna", "sort_values", "sample", "nlargest", "nsmallest", "query", "head", "tail", "truncate")
NOEFFECT = ("info", "describe", "memory_usage", "equals", "isna", "isnull", "notna", "any", "all", "sum", "mean", "min", "max", "nunique",
            "duplicated", "to_string", "to_dict", "to_records", "to_markdown", "std", "count")


class Frames:
    def init_df(self):
        for m in ("pandas.", "pandas.core.frame."):
            self.X[m + "DataFrame"] = self.df_new
        self.X["pandas.MultiIndex.from_tuples"] = lambda v, names=None, **k: self.colidx(v)
        self.X["pandas.MultiIndex.from_arrays"] = lambda v, names=None, **k: self.colidx(self.b_zip(*self.I.tolist(v)))
        self.X["pandas.Index"] = lambda v, **k: self.colidx(v)
        self.X["pandas.read_csv"] = self.read_csv
        self.X["pandas.concat"] = self.df_concat
        self.X["pandas.DataFrame.from_records"] = self.df_new
        self.X["numpy.savetxt"] = self.savetxt

    def colidx(self, v):
        l = self.I.tolist(v)
        return LibObj("columns", items=None if l is None else [self.label(x) for x in l])

    def label(self, x):
        x = self.I.resolve(x)
        if isinstance(x, LList):
            x = tuple(self.I.tolist(x))
        if isinstance(x, tuple):
            return tuple(self.label(q) for q in x)
        if isinstance(x, Obj) and x.cls.strenum:
            return x.attrs["value"]
        return x

    def labels(self, c):
        c = self.I.resolve(c)
        if c is None:
            return None
        if isinstance(c, LibObj) and c.kind == "columns":
            return c.d["items"]
        l = self.I.tolist(c)
        return None if l is None else [self.label(x) for x in l]

    def seg_columns(self, o):
        return None if o.d["items"] is None else [("one", x) for x in o.d["items"]]

    def df_new(self, data=None, index=None, columns=None, dtype=None, copy=None):
        I = self.I
        data = I.force(data)
        if isinstance(data, LibObj) and data.kind == "df":
            data = data.d["arr"]
        if isinstance(data, LDict):
            labs = [data.keys_.get(k, k) for k in data.cells]
            arr = self.column_stack(LList(list(data.cells.values())))
            if columns is not None:
                return I.opq("table from dictionary with columns")
            return LibObj("df", I.ctx, arr=arr, cols=[self.label(x) for x in labs])
        arr = self.asarr(data) if data is not None else MISSING
        if arr is None:
            return LibObj("df", I.ctx, arr=I.opq("table data", data), cols=self.labels(columns))
        if isinstance(arr, Arr) and arr.a.ndim == 1:
            arr = self.column_stack(LList([arr]))
        return LibObj("df", I.ctx, arr=arr, cols=self.labels(columns) if columns is not None else None)

    def df_values(self, o):
        a = o.d["arr"]
        return a if isinstance(a, Arr) else None

    def isa_df(self, v, n):
        return n == "pandas.DataFrame"

    def g_df(self, o, name):
        if name in ("values",):
            return o.d["arr"]
        if name == "columns":
            return LibObj("columns", items=o.d["cols"])
        if name == "T":
            return LibObj("df", self.I.ctx, arr=self.I.getattr(o.d["arr"], "T"), cols=None)
        if name in ("shape", "size", "ndim"):
            return self.I.getattr(o.d["arr"], name)
        if name in ("arr", "cols"):
            return self.I.opq("column " + name)
        if name in ("loc", "iloc"):
            return LibObj("dfloc", df=o, how=name)
        if name == "index":
            return LibObj("dfindex", df=o)
        if name == "attrs":
            return LDict(self.I.ctx)
        return MISSING

    def tablelike(self, o, arr, cols=MISSING):
        return LibObj("df", self.I.ctx, arr=arr, cols=o.d["cols"] if cols is MISSING else cols)

    def unknown_table(self, o, what):
        return self.tablelike(o, self.I.opq("table." + what, *self.I.scalars(o.d["arr"])), None)

    def full(self, i):
        return isinstance(i, tuple) and len(i) == 4 and i[0] == "slice" and all(self.I.resolve(q) is None for q in i[1:])

    def gi_dfloc(self, l, i):
        o = l.d["df"]
        if self.full(i):
            return self.tablelike(o, o.d["arr"])
        if isinstance(i, tuple) and len(i) == 3 and i[0] == "idx" and self.full(i[1]):
            if self.full(i[2]):
                return self.tablelike(o, o.d["arr"])
            if l.d["how"] == "loc":
                return self.gi_df(o, self.I.resolve(i[2]))
            r = self.arr_get(o.d["arr"], i) if isinstance(o.d["arr"], Arr) else None
            if isinstance(r, Arr):
                if r.a.ndim == 1:
                    return r
                if isinstance(o.d["cols"], list):
                    k = self.arr_get(self.asarr(LList(list(range(len(o.d["cols"]))))), i[2])
                    n = [as_int(q) for q in k.a.reshape(-1)] if isinstance(k, Arr) else [None]
                    if all(q is not None for q in n):
                        return self.tablelike(o, r, [o.d["cols"][q] for q in n])
                elif o.d["cols"] is None:
                    return self.tablelike(o, r)
        if l.d["how"] == "iloc" and isinstance(o.d["arr"], Arr):
            r = self.arr_get(o.d["arr"], i)
            if isinstance(r, Arr) and r.a.ndim == 2 and not (isinstance(i, tuple) and i[0] == "idx"):
                return self.tablelike(o, r)
        return self.unknown_table(o, l.d["how"])

    def somerows(self, a, tag):
        """other rows, or the rows in another order: a collection of its own"""
        I = self.I
        if isinstance(a, Arr) and a.fam and a.fam[0] is not None:
            i = a.fam[0]
            j = i if tag in tt.REORDER else tt.index(f"{tag}.{i.args[0][2:]}")
            out = np.empty(a.a.shape, dtype=object)
            for q, t in enumerate(a.a.reshape(-1)):
                out.reshape(-1)[q] = tt.subst(t, {i: tt.fn("row:" + tag, i.args[3], tm(j))}) if isinstance(t, T) else t
            return I.arr(out, (j,) + tuple(a.fam[1:]), a.dt)
        return I.opq("rows " + tag, *I.scalars(a))

    def sa_df(self, o, name, v):
        if name == "columns":
            self.I.setcell(o.d, "cols", self.labels(v))
            return True
        return False

    def gi_df(self, o, i):
        I = self.I
        cols = o.d["cols"]
        ks = self.labels(i) if isinstance(i, LList) else [self.label(i)]
        if cols is None or any(k not in cols for k in ks):
            n = [as_int(k) for k in ks]
            if cols is None and all(k is not None for k in n):
                r = self.arr_get(o.d["arr"], ("idx", ("slice", None, None, None), LList(n)))
            else:
                return I.opq("table column")
        else:
            r = self.arr_get(o.d["arr"], ("idx", ("slice", None, None, None), LList([cols.index(k) for k in ks])))
        if isinstance(i, LList):
            return LibObj("df", I.ctx, arr=r, cols=ks)
        return self.arr_get(r, ("idx", ("slice", None, None, None), 0))

    def si_df(self, o, i, v):
        I = self.I
        ks = self.labels(i) if isinstance(i, LList) else [self.label(i)]
        cols = list(o.d["cols"] or [])
        x = self.asarr(v)
        if x is None or any(k in cols for k in ks):
            I.setcell(o.d, "arr", I.opq("table assignment"))
            return
        if o.d["arr"] is MISSING:
            new = x if x.a.ndim == 2 else self.column_stack(LList([x]))
        else:
            new = self.column_stack(LList([o.d["arr"], x]))
        I.setcell(o.d, "arr", new)
        I.setcell(o.d, "cols", cols + ks)

    def df_concat(self, objs, axis=0, **k):
        I = self.I
        l = I.tolist(objs)
        if l is None or as_int(axis) not in (1,) and axis != "columns" or \
                any(not (isinstance(x, LibObj) and x.kind == "df") for x in l):
            return I.opq("pandas.concat")
        cols = []
        for x in l:
            if x.d["cols"] is None:
                return I.opq("pandas.concat")
            cols += x.d["cols"]
        return LibObj("df", I.ctx, arr=self.column_stack(LList([x.d["arr"] for x in l])), cols=cols)

    def m_df(self, o, name, args, kw):
        I = self.I
        if name == "to_csv":
            kw = dict(kw)
            path = args[0] if args else kw.pop("path_or_buf", None)
            if path is None:
                return tt.fn("str:csvtext", *I.scalars(o.d["arr"]))
            c = self.canonpath(path)
            self.iofail("write", c)
            st = I.force(path)
            st = st if isinstance(st, LibObj) and st.kind == "file" else None
            if st is not None and "a" in str(st.d["mode"]):
                kw["mode"] = "a"
            I.live(lambda: I.event("write", file=c, data=o.d["arr"], cols=o.d["cols"], kw=kw, how="csv", stream=st))
            return None
        if name == "to_numpy":
            if kw.get("dtype") is not None:
                return self.np_array(o.d["arr"], kw["dtype"])
            return o.d["arr"]
        kw = dict(kw)
        inplace = I.simp(I.truth(kw.pop("inplace", False))) is TRUE

        def result(arr, cols=MISSING):
            if not inplace:
                return self.tablelike(o, arr, cols)
            I.setcell(o.d, "arr", arr)
            if cols is not MISSING:
                I.setcell(o.d, "cols", cols)
            return None
        if name in SAME:
            return result(o.d["arr"])
        if name == "reset_index":
            return result(o.d["arr"]) if I.resolve(kw.get("drop", False)) is True else self.unknown_table(o, name)
        if name == "sort_index":
            ok = as_int(kw.get("axis", args[0] if args else 0)) == 0 and I.resolve(kw.get("ascending", True)) is True
            return result(o.d["arr"]) if ok else result(self.somerows(o.d["arr"], name))
        if name == "pipe":
            return I.call(args[0], [o] + list(args[1:]), kw)
        if name in ("head", "tail") and args and isinstance(o.d["arr"], Arr) and \
                I.simp(I.truth(I.equal(args[0], self.b_len(o)))) is TRUE:
            return self.tablelike(o, o.d["arr"])
        if name == "fillna" and set(kw) <= {"value"} and isinstance(o.d["arr"], Arr):
            v = kw.get("value", args[0] if args else None)
            if is_scalar(v):
                return result(self.nan_to_num(o.d["arr"], v, False))
        if name in ROWS:
            return result(self.somerows(o.d["arr"], name))
        if name in ("reindex", "filter"):
            ks = kw.get("columns", kw.get("items"))
            if ks is not None:
                return self.gi_df(o, LList(self.labels(ks) or [], I.ctx))
            x = kw.get("index", args[0] if args else None)
            if name == "reindex" and isinstance(I.resolve(x), LibObj) and x.kind == "dfindex" and x.d["df"] is o:
                return self.tablelike(o, o.d["arr"])
            return self.unknown_table(o, name)
        if name == "drop":
            ks = self.labels(kw["columns"]) if "columns" in kw and isinstance(I.resolve(kw["columns"]), (LList, tuple)) else None
            if ks is not None and o.d["cols"] is not None and all(k in o.d["cols"] for k in ks):
                return self.gi_df(o, LList([c for c in o.d["cols"] if c not in ks], I.ctx))
            return self.unknown_table(o, name)
        if name in ("map", "applymap") and isinstance(o.d["arr"], Arr):
            return self.tablelike(o, I.map1(lambda t: I.force(I.call(args[0], [t], {})), o.d["arr"]))
        if name in ("abs", "round") and isinstance(o.d["arr"], Arr):
            f = self.b_abs if name == "abs" else self.b_round
            return self.tablelike(o, f(o.d["arr"], *args))
        if name in NOEFFECT:
            return I.opq("table." + name, *I.scalars(o.d["arr"]))
        if name == "astype":
            return LibObj("df", I.ctx, arr=self.cast(o.d["arr"], self.dtype(args[0])), cols=o.d["cols"])
        if name == "join":
            return self.df_concat(LList([o, args[0]]), axis=1)
        if name == "assign":
            r = LibObj("df", I.ctx, arr=o.d["arr"], cols=o.d["cols"])
            for k, v in kw.items():
                self.si_df(r, k, v)
            return r
        if name == "rename" or name == "set_axis":
            if name == "set_axis":
                return LibObj("df", I.ctx, arr=o.d["arr"], cols=self.labels(args[0]))
        if name == "itertuples":
            return o.d["arr"]
        if name == "rename" and o.d["cols"] is not None and isinstance(I.resolve(kw.get("columns")), LDict):
            m = I.resolve(kw["columns"])
            one = lambda x: self.label(self.m_dict_get(m, x, x))
            return result(o.d["arr"], [tuple(one(q) for q in c) if isinstance(c, tuple) else one(c) for c in o.d["cols"]])
        if inplace:
            I.setcell(o.d, "arr", I.opq("table." + name, *I.scalars(o.d["arr"])))
            return None
        return self.unknown_table(o, name)

    # ---------------------------------------------------------------- reading
    def csvterm(self, c, sep, header, opts, dt):
        I = self.I
        p = tm(self.pathterm(c))
        self.iofail("read", c)
        was = (I.config or {}).get("alias")
        if was is not None:
            p = tt.fn("str:earlier", was, p)        # what the file held then
        name = self.csvs.setdefault((p, sep, header, opts), f"csv{len(self.csvs)}" if self.csvs else "csv")
        i = tt.index(name)
        row = [tt.fn("csv", p, tm(sep), tm(header), tm(opts), i, k) for k in range(3)]
        return self.cast(I.arr(oarr([row]), (i, None), "cfg"), dt)

    def read_csv(self, path=MISSING, sep=",", **kw):
        I = self.I
        kw = dict(kw)
        if path is MISSING:
            path = kw.pop("filepath_or_buffer")
        sep = I.resolve(kw.pop("delimiter", sep))
        names = kw.pop("names", None)
        header = I.resolve(kw.pop("header", None if names is not None else "infer"))
        if header == "infer":
            header = 0
        dt = self.dtype(kw.pop("dtype", None)) or I.opts.get("csvdt", "cfg")
        opts = []
        for k, v in kw.items():
            v = I.resolve(v)
            if k in HARMLESS or k == "usecols" and I.tolist(v) == [0, 1, 2] or \
                    any(v is q or isinstance(v, (str, int)) and type(v) is type(q) and v == q for q in DEFAULTS.get(k, ())):
                continue
            if k in DEFINITE:
                opts.append(f"{k}={I.tolist(v) if isinstance(v, LList) else v}")
            else:
                return LibObj("df", I.ctx, arr=I.opq("read_csv option " + k), cols=None)
        if not isinstance(sep, str) and sep is not None:
            return LibObj("df", I.ctx, arr=I.opq("separator"), cols=None)
        h = "none" if header is None else str(header)
        c = self.canonpath(path)
        I.event("read", file=c)
        x = self.csvterm(c, str(sep), h, ";".join(opts), dt)
        return LibObj("df", I.ctx, arr=x, cols=self.labels(names) if names is not None else None)

    def np_loadtxt(self, path, dtype=None, delimiter=None, skiprows=0, ndmin=0, **kw):
        I = self.I
        kw = dict(kw)
        skip = as_int(I.resolve(kw.pop("skip_header", skiprows)))
        sep = I.resolve(delimiter)
        uc = kw.pop("usecols", None)
        if uc is not None and I.tolist(uc) != [0, 1, 2]:
            return I.opq("loadtxt columns")
        for k in ("encoding", "comments"):
            if kw.get(k, MISSING) is None or k == "encoding":
                kw.pop(k, None)
        if kw or skip is None:
            return I.opq("loadtxt option")
        c = self.canonpath(path)
        I.event("read", file=c)
        opts = "" if not skip else f"skiprows={skip}"
        return self.csvterm(c, "space" if sep is None else str(sep), "none", opts, self.dtype(dtype) or "f8")

    def savetxt(self, path, data, fmt=None, delimiter=" ", header="", comments="# ", **kw):
        I = self.I
        c = self.canonpath(path)
        self.iofail("write", c)
        I.live(lambda: I.event("write", file=c, data=self.asarr(data), cols=None, how="savetxt",
                               kw=dict(fmt=fmt, delimiter=delimiter, header=header, comments=comments)))
        return None
