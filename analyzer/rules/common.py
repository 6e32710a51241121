"""Helpers shared by the rules."""
import terms as T
from terms import FALSE, I, TRUE, add, app, bnot, eq0, fld, ge0, gt0, is_app, neg, show, sub
from ctx import Missing, events, flow, nodes


def where(o):
    return "%s (%s)" % (o.fn, o.span)


def judge(rep, E, kinds=None, skip=None, vague_fails=False):
    """obligations the engine met"""
    for (fn, kind, site), o in E.obl.items():
        if kinds is not None and kind not in kinds:
            continue
        if skip and skip(o):
            continue
        what = "%s in %s: %s" % (o.kind, o.fn, o.detail or o.kind)
        rep.count("obligation:" + o.kind)
        if o.status == "proven":
            rep.ok(what)
        elif o.status == "fails" or o.status == "unproven" or vague_fails:
            rep.fail("%s:%s:%s" % (o.kind, o.fn, o.detail), "%s: %s is not ensured on the path through %s (needs %s)" % (o.fn, o.detail or o.kind, " > ".join(o.stack), show(o.cond)[:200]), o.span)
        else:
            rep.undec("%s at %s: %s" % (what, o.span, show(o.cond)[:120]))


def finish(rep, E, err, f):
    """bookkeeping for one analysed entry; False when the analysis was cut short"""
    rep.count("entries")
    rep.count("functions", len(E.fns_seen))
    rep.soft = frozenset(E.unseen)
    if err:
        rep.undec("analysis of %s incomplete: %s" % (f.name, err))
        return False
    return True


def variant(P, t, facts):
    """known variant name of the enum value t, else None"""
    vs = facts.variants(t)
    return P.variant_name(t.ty, vs[0]) if vs and len(vs) == 1 else None


def failed(e):
    """did the operation of this event fail?"""
    return is_app(e.ret, "failed")
