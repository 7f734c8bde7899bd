"""Obligations per property."""
PROPERTIES: dict = {}


def prop(pid, *oids):
    PROPERTIES.setdefault(pid, []).extend(o for o in oids if o not in PROPERTIES.get(pid, []))
