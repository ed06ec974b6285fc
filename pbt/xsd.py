"""Schema validation of documents with the schemas shipped in /repo/schemas, by libxml2 called directly."""
import ctypes
import os
import re

_lib = None
_schemas = {}


class _Error(ctypes.Structure):
    _fields_ = [("domain", ctypes.c_int), ("code", ctypes.c_int), ("message", ctypes.c_char_p)]


_HANDLER = ctypes.CFUNCTYPE(None, ctypes.c_void_p, ctypes.POINTER(_Error))


_QUIET = _HANDLER(lambda _, e: None)


def _load():
    global _lib
    if _lib is None:
        _lib = ctypes.CDLL("libxml2.so.2")
        for f in ("xmlReadMemory", "xmlSchemaNewParserCtxt", "xmlSchemaParse", "xmlSchemaNewValidCtxt", "xmlDocGetRootElement",
                  "xmlReadFile", "xmlSchemaNewDocParserCtxt"):
            getattr(_lib, f).restype = ctypes.c_void_p
        _lib.xmlSetStructuredErrorFunc(None, _QUIET)
    return _lib


def _schema(root):
    lib = _load()
    if root not in _schemas:
        path = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "schemas", root + ".xsd")
        ctxt = lib.xmlSchemaNewParserCtxt(ctypes.c_char_p(path.encode()))
        s = lib.xmlSchemaParse(ctypes.c_void_p(ctxt)) if os.path.exists(path) else None
        if not s:
            raise AssertionError("no usable schema " + path)
        _schemas[root] = s
    return _schemas[root]


def _validate(lib, schema, doc):
    found = []

    def report(_, e):
        found.append((e.contents.message or b"").decode("utf-8", "replace").strip())
    h = _HANDLER(report)
    v = lib.xmlSchemaNewValidCtxt(ctypes.c_void_p(schema))
    lib.xmlSchemaSetValidStructuredErrors(ctypes.c_void_p(v), h, None)
    rc = lib.xmlSchemaValidateDoc(ctypes.c_void_p(v), ctypes.c_void_p(doc))
    lib.xmlSchemaFreeValidCtxt(ctypes.c_void_p(v))
    return found or (["code %d" % rc] if rc else [])


class _Node(ctypes.Structure):
    _fields_ = [("private", ctypes.c_void_p), ("type", ctypes.c_int), ("name", ctypes.c_char_p)]


def errors_in(path, text, folder):
    """What the schema in a folder that is named like the root element of a document finds wrong in it. Files have their XIncludes resolved."""
    lib = _load()
    if path is not None:
        if not os.path.exists(path):
            return ["no file"]
        doc = lib.xmlReadFile(ctypes.c_char_p(path.encode()), None, 0x860)
    else:
        raw = text.encode("utf-8", "surrogateescape")
        doc = lib.xmlReadMemory(ctypes.c_char_p(raw), len(raw), None, None, 0x860)
    if not doc:
        return ["not well formed"]
    try:
        if path is not None and lib.xmlXIncludeProcessFlags(ctypes.c_void_p(doc), 0x860) < 0:
            return ["XIncludes"]
        root = ctypes.cast(lib.xmlDocGetRootElement(ctypes.c_void_p(doc)), ctypes.POINTER(_Node)).contents.name.decode("utf-8", "replace")
        p = os.path.join(folder, root + ".xsd")
        if "/" in root or not os.path.exists(p):
            return ["no schema for " + root]
        fixed = folder == os.path.join(os.environ.get("VERIF_REPO", "/repo"), "schemas")
        if fixed and p in _schemas:
            schema = _schemas[p]
        else:
            sd = lib.xmlReadFile(ctypes.c_char_p(p.encode()), None, 0x860)
            if not sd:
                return ["no schema for " + root]
            ctxt = lib.xmlSchemaNewDocParserCtxt(ctypes.c_void_p(sd))
            lib.xmlSchemaSetParserStructuredErrors(ctypes.c_void_p(ctxt), _QUIET, None)
            schema = lib.xmlSchemaParse(ctypes.c_void_p(ctxt))
            lib.xmlSchemaFreeParserCtxt(ctypes.c_void_p(ctxt))
            if not schema:
                return ["no usable schema for " + root]
            if fixed:
                _schemas[p] = schema
        out = _validate(lib, schema, doc)
        if not fixed:
            lib.xmlSchemaFree(ctypes.c_void_p(schema))
        return out
    finally:
        lib.xmlFreeDoc(ctypes.c_void_p(doc))


def included(path, seen=None):
    """Files that a structure file includes by its own means, directly or not."""
    seen = [] if seen is None else seen
    with open(path, encoding="utf-8", errors="surrogateescape") as f:
        text = re.sub(r"<!--.*?-->", "", f.read(), flags=re.S)
    for m in re.finditer(r"<\w+Include\b[^<>]*?\bPath\s*=\s*[\"']([^\"']*)", text):
        p = os.path.join(os.path.dirname(path), m.group(1))
        if p not in seen:
            seen.append(p)
            if os.path.exists(p):
                included(p, seen)
    return seen


def errors(text, root):
    """What the schema of that root element finds wrong in a document; an empty list when it is valid."""
    lib = _load()
    raw = text.encode("utf-8", "surrogateescape")
    doc = lib.xmlReadMemory(ctypes.c_char_p(raw), len(raw), None, None, 0x860)
    if not doc:
        return ["not well formed"]
    found = []

    def report(_, e):
        found.append((e.contents.message or b"").decode("utf-8", "replace").strip())
    h = _HANDLER(report)
    v = lib.xmlSchemaNewValidCtxt(ctypes.c_void_p(_schema(root)))
    lib.xmlSchemaSetValidStructuredErrors(ctypes.c_void_p(v), h, None)
    rc = lib.xmlSchemaValidateDoc(ctypes.c_void_p(v), ctypes.c_void_p(doc))
    lib.xmlSchemaFreeValidCtxt(ctypes.c_void_p(v))
    lib.xmlFreeDoc(ctypes.c_void_p(doc))
    return found or (["code %d" % rc] if rc else [])
