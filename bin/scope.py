"""Which rejected calls count against which property."""

ASSUMPTIONS = [
    "TLC and its JSON/IO community modules evaluate the specification correctly",
    "the driver in harness/ projects matrices faithfully (it reads the public accessors and computes nothing)",
    "scalars are small integers (Gaussian integers for complex types) times a power of two, on which every element type is exact",
    "index types are used within their range",
]

SETUP = {"coo_new", "csr_new", "csc_new", "dok_new", "coo_with_size", "coo_with_capacity", "csr_with_size",
         "dok_with_capacity", "csr_clone", "coo_clone"}


def in_scope(prop, e, kind):
    op = e["op"]
    if prop == "C02":
        # any matrix handed back must be well formed; not handing one back at
        # all although the operands fit is a failure to do so
        return kind in ("illformed", "outcome")
    if prop == "C16":
        return kind in ("outcome", "operands")
    if prop == "C25":
        return op == "same" or kind == "operands" or "form" in e or "rk" in e
    if prop == "C18":
        return True
    if prop == "C17":
        return op.startswith("dok_")
    return op not in SETUP
