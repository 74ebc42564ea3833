"""A device model made or changed by a program is processed, converted and written as it stands at that moment."""
import copy
import warnings

from .. import common, gen, refproc, spec, xmlast
from ..engine import Violation
from svdsuite import Parser, Process, ProcessException, PeripheralRegisterMap, Serializer

ID = "P30"
RULE = "the model was processed with a defined meaning before and after a change of it"
QUICK, THOROUGH = 8000, 120000
MIN_NONTRIVIAL = 0.4
ASSUMPTIONS = common.ASSUME
PROFILES = [
    gen.profile(pers=(1, 2), rcs=(1, 3), depth=1, fields=(0, 2), cluster=0.3, derive=d, dim=0.2, conts=0.3, cpu=0.3, meta=0.3, prop=0.3,
                wc=0.15, interrupts=0.2, alt=0.05)
    for d in (0.1, 0.35)
]
LISTS = ("peripherals", "registers_clusters", "fields", "enumerated_value_containers", "enumerated_values", "address_blocks", "interrupts",
         "regions")
ORIGINS = ("parsed", "built", "parents missing")


def children(e):
    """(key, index or None, child) of a plain element"""
    for carrier, _, attr, _, _ in spec.TABLE[e["_"]]:
        if carrier == "one" and e[attr] is not None:
            yield attr, None, e[attr]
        elif carrier in ("many", "wrapped"):
            for i, c in enumerate(e[attr]):
                yield attr, i, c


def everything(d):
    out = []

    def rec(e, path):
        out.append((path, e))
        for key, i, c in children(e):
            rec(c, path + [[key, i]])

    rec(d, [])
    return out


def at(d, path):
    for key, i in path:
        d = d[key]
        if i is not None:
            d = d[i]
    return d


def of(model, path):
    for key, i in path:
        model = getattr(model, key)
        if i is not None:
            model = model[i]
    return model


# ------------------------------------------------------------------------------------------------ the steps, on plain data
def apply_plain(d, op):
    """changes d; None where the step does not fit any more (after shrinking)"""
    try:
        what, path = op[0], op[1]
        e = at(d, path)
        if what == "set":
            if op[2] not in e or (op[3] is None and any(row[2] == op[2] and row[4] == "m" for row in spec.TABLE[e["_"]])):
                return None
            e[op[2]] = copy.deepcopy(op[3])
        elif what == "drop":
            del at(d, path[:-1])[path[-1][0]][path[-1][1]]
        elif what == "add":
            if op[2] not in e:
                return None
            e[op[2]].insert(op[3], copy.deepcopy(op[4]))
        elif what == "share":  # the same object, a second time in another list
            other = at(d, op[2])
            if e["_"] == "device" or other["_"] == "device" or path == op[2][:len(path)]:
                return None
            other_list = [k for k in LISTS if isinstance(other.get(k), list)]
            key = path[-1][0]
            if key not in other_list or path[-1][1] is None:
                return None
            if op[2] == path[:-1]:
                return None
            other[key].append(copy.deepcopy(e))
        elif what == "swap":
            lst = e[op[2]]
            i, j = op[3], op[4]
            lst[i], lst[j] = lst[j], lst[i]
        else:
            return None
    except (KeyError, IndexError, TypeError):
        return None
    return d


def kind_of(reader):
    return reader in spec.ENUMCLASS


def value(e_kind, attr, val):
    """plain value -> value for the model"""
    for carrier, _, a, reader, _ in spec.TABLE[e_kind]:
        if a == attr:
            if isinstance(val, dict):
                return spec.build(val)
            if carrier == "range":
                return tuple(val) if val is not None else None
            if val is not None and kind_of(reader):
                from svdsuite.model import types as mt

                return getattr(mt, spec.ENUMCLASS[reader])(val)
            return val
    raise KeyError(attr)


def apply_model(model, d, op, parents):
    """the same step on the model; d is the plain device before the step"""
    what, path = op[0], op[1]
    obj = of(model, path)
    if what == "set":
        setattr(obj, op[2], value(at(d, path)["_"], op[2], op[3]))
    elif what == "drop":
        del getattr(of(model, path[:-1]), path[-1][0])[path[-1][1]]
    elif what == "add":
        new = spec.build(op[4], parents)
        if parents:
            new.parent = obj
        getattr(obj, op[2]).insert(op[3], new)
    elif what == "share":
        getattr(of(model, op[2]), path[-1][0]).append(obj)
    elif what == "swap":
        lst = getattr(obj, op[2])
        lst[op[3]], lst[op[4]] = lst[op[4]], lst[op[3]]


# ------------------------------------------------------------------------------------------------ generation
NUMBERS = ("size", "reset_value", "reset_mask", "address_offset", "base_address", "offset", "dim", "dim_increment", "bit_offset", "lsb", "msb",
           "bit_width", "nvic_prio_bits", "base", "limit")
PREFER = ("name", "access", "size", "address_offset", "base_address", "reset_value", "derived_from", "description", "value", "usage", "dim",
          "protection", "reset_mask", "dim_index")


def change(r, d, other):
    """one step that changes something"""
    els = everything(d)
    how = r.random()
    path, e = r.choice(els)
    if how < 0.6:
        donors = [x for _, x in everything(other) if x["_"] == e["_"]] or [e]
        o = r.choice(donors)
        rows = [row for row in spec.TABLE[e["_"]] if row[0] in ("e", "a", "r", "range", "one")]
        if r.random() < 0.6:
            rows = [row for row in rows if row[2] in PREFER] or rows
        row = r.choice(rows)
        val = copy.deepcopy(o[row[2]])
        if row[2] == "address_offset" and r.random() < 0.6:
            val = r.randrange(0, 0x200, 4)
        elif row[2] == "name" and "derived_from" in e and r.random() < 0.4:
            val = r.choice(gen.NAMES) + ("%s" if "%s" in (e["name"] or "") else "")
        elif row[2] in NUMBERS and val is not None and r.random() < 0.2:
            val = val + r.choice([1, 4, 8])
        elif row[2] == "derived_from":
            same = [x["name"] for _, x in els if x["_"] == e["_"] and x is not e and x["name"]]
            val = r.choice([None, None] + same)
        if val is None and row[4] == "m":
            val = e[row[2]]
        return ["set", path, row[2], val]
    if how < 0.72:
        listed = [p for p, _ in els if p and p[-1][1] is not None and (len(d["peripherals"]) > 1 or p[-1][0] != "peripherals")]
        if listed:
            return ["drop", r.choice(listed)]
    if how < 0.84:
        donors = [(p, x) for p, x in everything(other) if p and p[-1][1] is not None]
        if donors:
            p, x = r.choice(donors)
            holders = [(q, y) for q, y in els if p[-1][0] in y and isinstance(y[p[-1][0]], list)]
            holders = [(q, y) for q, y in holders if p[-1][0] != "registers_clusters" or x["_"] == "register" or y["_"] == "peripheral"]
            if holders:
                q, y = r.choice(holders)
                x = copy.deepcopy(x)
                if "name" in x and x["name"] and "derived_from" in x and r.random() < 0.7:
                    x["name"] = f"New{r.randrange(99)}" + ("%s" if "%s" in x["name"] else "")
                    if "address_offset" in x:
                        x["address_offset"] += r.choice([0x80, 0x100])
                return ["add", q, p[-1][0], r.randint(0, len(y[p[-1][0]])), x]
    if how < 0.9:
        listed = [p for p, x in els if p and p[-1][1] is not None and x["_"] in ("register", "field", "enumeratedValues", "interrupt", "addressBlock",
                                                                                  "enumeratedValue", "peripheral")]
        if listed:
            p = r.choice(listed)
            holders = [q for q, y in els if isinstance(y.get(p[-1][0]), list) and q != p[:-1] and p != q[:len(p)]]
            if holders:
                return ["share", p, r.choice(holders)]
    lists = [(q, k) for q, y in els for k in LISTS if isinstance(y.get(k), list) and len(y[k]) > 1]
    if lists:
        q, k = r.choice(lists)
        n = len(at(d, q)[k])
        return ["swap", q, k, r.randrange(n), r.randrange(n)]
    return ["set", [], "description", "changed"]


def generate(r):
    prof = r.choice(PROFILES)
    for _ in range(4):
        d = gen.Gen(r, prof).device()
        if common.reference(d)[0] == "ok":
            break
    other = gen.Gen(r, prof).device()
    d = copy.deepcopy(d)
    now = copy.deepcopy(d)
    ops = [["process"]] if r.random() < 0.8 else []
    good = copy.deepcopy(now)
    for _ in range(r.choice([1, 2, 3, 5])):
        for _ in range(r.choice([1, 1, 2])):
            for left in range(6, 0, -1):
                op = change(r, now, other)
                trial = apply_plain(copy.deepcopy(now), op)
                if trial is None:
                    continue
                kind = common.reference(trial)[0]
                if kind == "ok" or left == 1 or (kind == "refuse" and r.random() < 0.2):
                    now = trial
                    ops.append(op)
                    break
        ops.append([r.choice(["process", "process", "process", "write", "convert", "adopt"])])
        if ops[-1][0] in ("convert", "adopt") and common.reference(now)[0] != "ok":
            ops[-1] = ["process"]
        if ops[-1][0] == "adopt":
            break  # the rest of the generation needs the plain device, which is known only at run time
    if ops[-1][0] == "adopt":
        ops += [["set", [], "description", "adopted"], ["set", [["peripherals", 0]], "base_address", r.choice([0, 0x20000000, 0x48000000])]]
    ops.append(["process"])
    del good
    return {"device": d, "origin": r.choice(ORIGINS), "ops": ops}


# ------------------------------------------------------------------------------------------------ check
def processed(model):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            p = Process(model, None)
            return "ok", p
        except ProcessException as e:
            return "refuse", str(e)


def check(case, ctx):
    now = copy.deepcopy(case["device"])
    if case["origin"] == "parsed":
        try:
            if spec.ref_parse(spec.to_ast(now)) != now:
                ctx.skip("not what the document says")
        except (spec.Reject, spec.OutOfDomain):
            ctx.skip("not to be parsed")
        model = Parser.from_xml_content(xmlast.emit_bytes(spec.to_ast(now))).get_parsed_device()
    else:
        model = spec.build(now, case["origin"] == "built")
    earlier = []  # (process object, what its device was like)
    changed = meanings = after = 0
    for n, op in enumerate(case["ops"]):
        what = op[0]
        where = f"step {n} ({what}): "
        if what in ("set", "drop", "add", "share", "swap"):
            before = copy.deepcopy(now)
            if apply_plain(now, op) is None:
                now = before
                continue
            apply_model(model, before, op, case["origin"] != "parents missing")
            if shared(model):
                model = unshare(model, now, what, ctx)
            changed += 1
        elif what in ("process", "convert", "adopt"):
            kind, dev, _ = common.reference(now)
            got, p = processed(model)
            if kind == "ok":
                if got != "ok":
                    raise Violation(f"{where}a model with a defined meaning is refused: {p}")
                seen = refproc.observe(p.get_processed_device())
                common.compare(refproc.without_src(dev), seen, where)
                earlier.append([p, seen, None])
                PeripheralRegisterMap(p.get_processed_device())
                meanings += 1
                after += bool(changed)
            elif kind == "refuse" and got == "ok":
                raise Violation(f"{where}a model that has to be refused is accepted: {dev}")
            if what != "process" and got == "ok" and kind == "ok":
                svd = p.convert_processed_device_to_svd_device()
                earlier[-1][2] = spec.observe_parsed(svd)
                if what == "convert":  # what is done to it is no business of the device it was made from
                    svd.name = "changed"
                    del svd.peripherals[1:]
                    for per in svd.peripherals:
                        per.registers_clusters.reverse()
                        per.base_address += 4
                if what == "adopt":
                    model, now = svd, spec.observe_parsed(svd)
        elif what == "write":
            content = Serializer.device_to_svd_content(model)
            try:
                want = spec.ref_parse(xmlast.from_bytes(content))
            except (spec.Reject, spec.OutOfDomain) as e:
                raise Violation(f"{where}the document written is not acceptable: {e}") from None
            common.compare(now, want, where)
        common.compare(now, spec.observe_parsed(model), where + "the model itself: ")
    for p, seen, converted in earlier:
        common.compare(seen, refproc.observe(p.get_processed_device()), "device processed earlier, after changing the model: ")
        if converted is not None:
            common.compare(converted, spec.observe_parsed(p.convert_processed_device_to_svd_device()),
                           "converted once more, after changing what was converted first: ")
    ctx.tag(case["origin"])
    ctx.tag("changes", changed)
    ctx.nontrivial(meanings > 1 and after > 0)


def shared(model):
    seen = set()

    def rec(o):
        for k in LISTS + ("dim_array_index", "cpu", "sau_regions_config"):
            below = getattr(o, k, None)
            for c in below if isinstance(below, list) else [below] if below is not None else []:
                if id(c) in seen:
                    return True
                seen.add(id(c))
                if rec(c):
                    return True
        return False

    return rec(model)


def unshare(model, now, what, ctx):
    """later steps change one of the two places only: process the model as it is, then go on with separate objects"""
    kind, dev, _ = common.reference(now)
    got, p = processed(model)
    if kind == "ok":
        if got != "ok":
            raise Violation(f"an object at two places of the model: refused: {p}")
        common.compare(refproc.without_src(dev), refproc.observe(p.get_processed_device()), "an object at two places of the model: ")
        ctx.tag("an object at two places")
    elif kind == "refuse" and got == "ok":
        raise Violation(f"an object at two places of the model: accepted although {dev}")
    return spec.build(now)


def smaller(case):
    ops = case["ops"]
    for i in range(len(ops)):
        if len(ops) > 1:
            yield dict(case, ops=ops[:i] + ops[i + 1:])
    if case["origin"] != "built":
        yield dict(case, origin="built")
    from . import p05

    for d in p05.smaller_dicts(case["device"]):
        yield dict(case, device=d)


def sample(case):
    return f"{case['origin']} " + " ".join(str(o)[:80] for o in case["ops"])


def explain(case):
    return f"{case['origin']}\n" + "\n".join(str(o) for o in case["ops"]) + "\n" + xmlast.emit(spec.to_ast(case["device"]))
