"""Functions of the pool runs of P05 (looked up by name after pickling)."""
FITS = {}


def process(arg, *extra):
    f, opts = FITS[arg["n"]]
    return f._get_fit_to_hdf_dict(ID=arg["num"], **opts)
