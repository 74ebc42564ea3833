"""Derivations that cannot be carried out are refused with ProcessException; processing always comes to an end."""
from .. import common, gen, spec
from ..engine import Violation

ID = "P15"
RULE = "the document has to be refused because of a derivedFrom (self, circle, ancestor or descendant, nothing or two things of that name)"
QUICK, THOROUGH = 20000, 250000
MIN_NONTRIVIAL = 0.35
ASSUMPTIONS = common.ASSUME
PROFILES = [
    gen.profile(pers=(1, 3), rcs=(1, 3), derive=0.4, meta=0.05, prop=0.05, conts=0.2, cluster=0.4, depth=d, fields=(0, 2), dim=dim,
                chain=0.6, derive_conts=0.4, pool=0.8, ladder=0.08)
    for d in (1, 3) for dim in (0.0, 0.15)
]
LONG = [gen.profile(pers=(1, 3), rcs=(1, 2), derive=dv, meta=0.0, prop=0.1, conts=0.1, cluster=0.4, depth=2, fields=(0, 1), dim=0.2, chain=0.8,
                    ladder=0.6, masses=0.1, inherited_ref=0.6, nested_ref=0.6) for dv in (0.0, 0.1, 0.5)]
KEYS = ("peripherals", "registers_clusters", "fields", "enumerated_value_containers")


def everything(d):
    out = []

    def rec(e, chain):
        if e["_"] != "device":
            out.append((e, chain))
            chain = chain + [e]
        for k in KEYS:
            for c in e.get(k) or ():
                rec(c, chain)

    rec(d, [])
    return out


def path(e, chain):
    return ".".join((x["name"] or "?") for x in chain + [e])


def spoil(r, d):
    els = everything(d)
    kinds = sorted({e["_"] for e, _ in els})
    k = r.choice(kinds)
    e, chain = r.choice([x for x in els if x[0]["_"] == k])
    how = r.randrange(12)
    if how == 0:  # itself
        e["derived_from"] = r.choice([e["name"] or "?", path(e, chain)])
    elif how == 1:  # two or three elements in a circle
        same = [x for x in els if x[0]["_"] == k]
        n = min(len(same), r.choice([2, 2, 3, 4]))
        ring = r.sample(same, n)
        for (a, _), (b, bc) in zip(ring, ring[1:] + ring[:1]):
            a["derived_from"] = path(b, bc)
    elif how == 2 and chain:  # something that contains it
        up = r.randrange(len(chain))
        e["derived_from"] = path(chain[up], chain[:up])
    elif how == 3:  # something it contains
        inner = [x for x in els if any(y is e for y in x[1])]
        if inner:
            t, tc = r.choice(inner)
            e["derived_from"] = path(t, tc)
        else:
            e["derived_from"] = "Nowhere"
    elif how == 4:  # nothing of that name
        e["derived_from"] = r.choice(["Nowhere", "Nowhere.at.all", path(e, chain) + "X", (e["name"] or "?") + ".Nowhere", "Nowhere.Alpha",
                                      (chain[0]["name"] if chain else "Q") + ".Nope"])
    elif how == 5:  # another kind
        other = [x for x in els if x[0]["_"] != k]
        if other:
            t, tc = r.choice(other)
            e["derived_from"] = path(t, tc)
    elif how == 6:  # two elements of that name
        same = [x for x in els if x[0]["_"] == k and x[0] is not e]
        if same:
            t, tc = r.choice(same)
            twin = dict(t)
            twin["derived_from"] = None
            holder = tc[-1] if tc else d
            for key in KEYS:
                if holder.get(key) is not None and any(x is t for x in holder[key]):
                    holder[key].append(twin)
            e["derived_from"] = path(t, tc)
    elif how == 7:  # a circle over nesting: a base inside a derived group that leads back
        groups = [x for x in els if x[0]["_"] in ("peripheral", "cluster")]
        a, ac = r.choice(groups)
        b, bc = r.choice(groups)
        inner_a = [x for x in els if any(y is a for y in x[1]) and x[0]["_"] == b["_"]]
        if inner_a:
            t, tc = r.choice(inner_a)
            b["derived_from"] = path(t, tc)
            t["derived_from"] = path(b, bc)
        else:
            a["derived_from"], b["derived_from"] = path(b, bc), path(a, ac)
    elif how == 8:  # dangling expansion index or template name
        dims = [x for x in els if x[0].get("dim")]
        if dims:
            t, tc = r.choice(dims)
            same = [x for x, _ in els if x["_"] == t["_"] and x is not t]
            if same:
                full = path(t, tc).replace("[%s]", str(t["dim"] + 3)).replace("%s", "zz")
                r.choice(same)["derived_from"] = full
    elif how >= 10:  # almost the name of another one
        others = [x for x in els if x[0]["_"] == k and x[0] is not e]
        if others:
            t, tc = r.choice(others)
            name = (t["name"] or "?") if r.random() < 0.5 else path(t, tc)
            parts = name.split(".")
            e["derived_from"] = r.choice([
                name.swapcase(), name.lower(), name.upper(), name.capitalize(), name[:-1] or "x", name[1:] or "x", name + "0", name + "_", "_" + name,
                name + "[0]", name + "[%s]", name.replace("_", ""), name.replace(".", "_"), name.replace(".", "/"), ".".join(parts[1:]) or "x",
                ".".join(parts[:1] + parts[2:]), ".".join([parts[0]] + parts), ".".join(reversed(parts)), (t.get("display_name") or "Nm"),
                name.replace("%s", ""), name.replace("[%s]", ""), name + name, "." + name, name + ".", name.replace(".", "..", 1), name + ". ", name + ".*",
                name.replace(".", " . "), name.replace(".", "::")])
    else:
        e["derived_from"] = r.choice([".", "..", "%s", "[%s]", "a..b", ".Alpha", "Alpha.", "*", "-", "Alpha Beta", "", "", " ", "0", "None"])


def generate(r):
    if r.random() < 0.2:  # nothing impossible, but many steps
        return common.gen_case(r, r.choice(LONG), tries=2, style={"indent": 1})
    prof = r.choice(PROFILES)
    for left in range(10, 0, -1):
        d = gen.Gen(r, prof).device()
        for _ in range(r.choice([1, 1, 1, 2])):
            spoil(r, d)
        if left == 1:
            break
        kind, reason, _ = common.reference(d)
        if kind == "ok" and r.random() < 0.3:
            break  # close to impossible, but possible
        if kind == "refuse" and is_derivation(reason) and r.random() < (0.2 if "unresolvable" in reason else 1):
            break
    return {"doc": gen.write_doc(d, r), "style": {"indent": 1}}


def is_derivation(reason):
    return any(w in str(reason) for w in ("derived", "deriv", "circular"))


def check(case, ctx):
    dev, reason, out = common.judge(case, ctx)
    if dev is None:
        if out.kind == "refuse" and not (out.text or "").strip():
            raise Violation("ProcessException without a message")
        ctx.nontrivial(is_derivation(reason))


smaller, sample, explain = common.smaller, common.sample, common.explain
_ = spec
