"""Fixed scenarios beyond what the generators produce: the inputs of known findings, and regressions of fixed ones."""


def ddl(prop):
    return []
