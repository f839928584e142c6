REF = "the reference model in src/ref.cc states the format correctly (RFC 3284 plus the documented extensions)"
MC = "model_checking"


def h(c, *specs):
    """(variant, only) pairs of the harness src/cXX.cc"""
    return [(v, c.lower() + ".cc", ["--only", o] if o else []) for v, o in specs]


PROPS = {}
PROPS["C01"] = (MC, h("C01", ("fast", "")), [])
PROPS["C02"] = (MC, h("C02", ("fast", "")), [REF])
PROPS["C03"] = (MC, h("C03", ("fast", ""), ("rel", "bad-")), [REF])
PROPS["C04"] = (MC, h("C04", ("fast", "")), [REF])
PROPS["C08"] = (MC, h("C08", ("fast", "")), [REF])
PROPS["C11"] = (MC, h("C11", ("fast", ""), ("san", "pairs")), [REF])
PROPS["C12"] = (MC, h("C12", ("fast", "")), [])
PROPS["C17"] = (MC, h("C17", ("fast", "")), [REF])
PROPS["C19"] = (MC, h("C19", ("fast", "")), [REF])
PROPS["C20"] = (MC, h("C20", ("fast", ""), ("san", "map")), [REF])
PROPS["C13"] = (MC, h("C13", ("fast", "")), [])
PROPS["C07"] = (MC, h("C07", ("fast", "")), [REF])
PROPS["C18"] = (MC, h("C18", ("fast", "")), [REF])
PROPS["C05"] = (MC, h("C05", ("san", ""), ("relsan", "")), ["AddressSanitizer and UndefinedBehaviorSanitizer report every invalid access or operation they instrument"])
PROPS["C06"] = (MC, h("C06", ("fast", "")), [REF])
PROPS["C09"] = (MC, h("C09", ("fast", "")), [])
PROPS["C10"] = (MC, h("C10", ("rel", "")), [REF])
PROPS["C15"] = (MC, h("C15", ("fast", "")), [REF])
PROPS["C16"] = ("fault_enumeration", h("C16", ("fast", "")), [REF, "a fault that the C library hides by retrying is not a failure"])
PROPS["C14"] = (MC, h("C14", ("mc", "")), [REF, "an execution without a happens-before race behaves the same under every placement of its plain accesses, so scheduling choices are only needed at synchronisation operations", "atomic loads return the latest value (stale values of relaxed atomics are not enumerated; missing ordering is reported as a race)"])
PROPS["C21"] = (MC, h("C21", ("san", ""), ("relsan", "")), ["AddressSanitizer and UndefinedBehaviorSanitizer report every invalid access or operation they instrument"])
PROPS["C22"] = (MC, h("C22", ("fast", ""), ("rel", "refusals")), [REF])
PROPS["C23"] = (MC, h("C23", ("cost", "")), ["control-flow edges executed plus bytes handled by memory functions measure the effort"])
PROPS["C24"] = (MC, h("C24", ("fast", "")), [])
PROPS["C25"] = (MC, h("C25", ("fast", "")), [REF])
