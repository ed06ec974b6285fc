"""Common steps of the checks: starting instances and talking to them."""
import os
import pfstruct as ps
import xmlmut
from engine import Violation, Check


def boot(ctx, st, slot="a", criteria=(), domains=None, tuning_allowed=True, tuning_on=True, defaults=True,
         port=None, start=True, reset=True, keep=False):
    """Requests that start an instance. criteria: [{"name","incl","vals":[[num,name]..],"state"}]."""
    odd = st.get("noise")
    sp = ctx.write("struct-%s.xml" % slot, xmlmut.noise(ps.struct_xml(st), odd))
    dp = ctx.write("domains-%s.xml" % slot, xmlmut.noise(domains, odd)) if domains is not None else None
    cp = ctx.write("conf-%s.xml" % slot, xmlmut.noise(ps.config_xml(st, ctx.built, sp, dp, tuning_allowed, port=port), odd))
    q = [["reset"]] if reset else []
    if defaults:
        q.append(["rfault", "failRead", 1, "*"])
    q.append(["new", slot, cp])
    if port is not None:
        q.append(["opt", slot, "noremote", 0])
    q += criteria_requests(slot, criteria)
    if start:
        q.append(["start", slot])
        if tuning_on:
            q.append(["cmd", slot, "setTuningMode", "on"])
    return q


def criteria_requests(slot, criteria):
    q = []
    for c in criteria:
        t = "t_" + c["name"]
        q.append(["ctype", slot, t, 1 if c["incl"] else 0])
        for num, name in c["vals"]:
            q.append(["cadd", slot, t, num, name])
        q.append(["crit", slot, c["name"], t])
        if c.get("state") is not None:
            q.append(["cset", slot, c["name"], c["state"]])
    return q


def must(replies, what="setting up"):
    for i, r in enumerate(replies):
        if r[0] != "1":
            raise Violation("%s: request %d was refused: %s" % (what, i, r[1:]))


def read_all(ctx, leaves, slot="a"):
    r = ctx.run([["mget", slot] + [l.path for l in leaves]])[0][1:]
    return {l.path: (r[2 * i] == "1", r[2 * i + 1]) for i, l in enumerate(leaves)}


def check_all(ctx, values, raw, hx, slot="a", what="", skip=()):
    got = read_all(ctx, values.leaves, slot)
    compare_all(got, values, raw, hx, what, skip)
    return got


def compare_all(got, values, raw, hx, what="", skip=()):
    for l in values.leaves:
        if l.path in skip:
            continue
        ok, t = got[l.path]
        want = values.text(l.path, raw, hx)
        if not ok or t != want:
            raise Violation("%s: %s reads %s, expected %r" % (what, l.path, repr(t) if ok else "an error: " + t, want))


def expect(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def trim(t):
    """Commands drop blanks around their arguments."""
    return t.strip(" \f\n\r\t\v")
