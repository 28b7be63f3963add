"""Thin access to the public entry points of the code under test."""
import io, os, tempfile, importlib

_cache = {}


def mod(name):
    m = _cache.get(name)
    if m is None:
        m = _cache[name] = importlib.import_module("sldr." + name if name else "sldr")
    return m


def ldml(data, cls=None, **kw):
    """an LDML document object from text or bytes, through the public constructor"""
    if isinstance(data, str):
        data = data.encode("utf-8")
    cls = cls or mod("ldml").Ldml
    return cls(io.BytesIO(data), **kw)


def merge_doc(data, **kw):
    return ldml(data, mod("ldml_merge").LdmlMerge, **kw)


def text_of(doc, **kw):
    out = []
    doc.serialize_xml(out.append, **kw)
    return "".join(out)


def warm():
    """read the metadata once, before forking"""
    ldml("<ldml/>")
    mod("ldml_merge")
