"""picklable reader / process functions used by the pipeline runs"""
import pandas as pd
import coop

LAYOUT = 0


def note(ev, **kw):
    t = coop.cur()
    if t is not None:
        t.world.note(ev, **kw)


def frames(num, ID, n, layout):
    """the result of one input: tables whose values identify the input"""
    arg = pd.DataFrame({"ID": ID, "x": 1000 + n}, [num])
    arg.index.name = "ID"
    k = 1 + (n * (layout + 1)) % 3
    idx = pd.MultiIndex.from_product([[num], range(k)], names=["ID", "date"])
    ds = pd.DataFrame({"v": [n * 100 + j for j in range(k)]}, idx)
    out = {"const__reader_arg": arg, "dataset": ds}
    if layout >= 1:
        # constant layers whose names start with letters that also occur in the prefix
        st = pd.DataFrame({"s": [n * 7]}, pd.Index([num], name="ID"))
        out["const__static"] = st
    if layout >= 2:
        out.pop("dataset")
        out["cfgA"] = {"dataset": ds, "res": ds * 2}
        out["cfgB"] = {"dataset": ds + 1}
        if n % 2 == 0:   # not every input has every table
            out["cfgB"]["extra"] = ds * 3
    return out


def reader(arg):
    if arg["kind"] == "none":
        note("start", id=arg["n"])
        return None
    if arg["kind"] == "rfail":
        note("start", id=arg["n"])
        raise RuntimeError("reader failed")
    return arg


def process(arg, *extra):
    k = arg["kind"]
    note("start", id=arg["n"])
    if k == "skip":
        return None
    if k == "fail":
        raise RuntimeError("processing failed")
    if k == "bad":
        return [("not", "a", "dict"), 5, "text"][arg["n"] % 3]
    return frames(arg["_RT1_ID_num"], arg.get("storeID", arg["ID"]), arg["n"], arg["layout"])


def get_ID(arg):
    import keyword
    ID = str(arg["ID"])
    return ID if ID.isidentifier() and not keyword.iskeyword(ID) else f"RT1_{ID}"
