# z3 reuses the identifier of a term once the term is gone: a table keyed by identifiers has to keep its terms alive
KEEP = {}


def tid(t):
    i = t.get_id()
    if i not in KEEP:
        KEEP[i] = t
    return i
