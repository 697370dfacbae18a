"""Which oracle judges which request, per property."""
import oracle as o
import search


def judges(prop, named):
    d = {"bits": o.j_bits, "fields": o.j_fields, "big": o.j_big, "enc": o.j_enc, "to32": o.j_to(32), "to64": o.j_to(64),
         "from32": o.j_from(32, named), "from64": o.j_from(64, named), "roundtrip": o.j_roundtrip,
         "halftrip32": o.j_halftrip, "halftrip64": o.j_halftrip, "named": o.j_named}
    d.update(getattr(search, "JUDGES", {}))
    if prop == "C16":
        d = {"big": o.j_bigframe, "enc": o.j_encframe, "from32": o.j_globals, "from64": o.j_globals,
             "isexact": search.j_exactframe}
    if prop == "C15":
        d = {}
    d.update(getattr(search, "PROPJUDGES", {}).get(prop, {}))
    return d
