"""Reference processor: plain parsed device (spec.ref_parse) -> plain processed device.

Written as lazy recursive resolution over the document tree with static scoping.  The code under test instead rewrites
a dependency graph in rounds; the two share nothing but the rules.  Where the rules say nothing (or the document uses a
construct on which no property speaks) OutOfDomain is raised and the case is not judged.
"""
import re

from .spec import OutOfDomain, too_long

LIMIT_ITEMS = 4000


class Refuse(Exception):
    """the document must be refused with ProcessException"""


def _or(a, b):
    return a if a is not None else b


class Node:
    __slots__ = ("kind", "d", "parent", "own", "res", "base", "state", "kids_", "kstate", "bstate", "depth", "src")

    def __init__(self, d, parent, src=""):
        self.src = src  # position in the document, e.g. "0/2/1"
        self.kind = d["_"]
        self.d = d
        self.parent = parent
        self.own = []
        self.res = None
        self.base = None
        self.state = 0
        self.bstate = 0
        self.kids_ = None
        self.kstate = 0
        key = {"device": "peripherals", "peripheral": "registers_clusters", "cluster": "registers_clusters",
               "register": "fields", "field": "enumerated_value_containers"}.get(self.kind)
        if key:
            self.own = [Node(c, self, f"{src}/{i}") for i, c in enumerate(d[key])]

    @property
    def name(self):
        return self.d["name"]


class Item:
    """one concrete element (expansion index or plain) or the template of a dim element"""
    __slots__ = ("node", "name", "p", "template", "index")

    def __init__(self, node, name, p, template=False, index=0):
        self.node, self.name, self.p, self.template, self.index = node, name, p, template, index


RANK = {"peripheral": 0, "cluster": 1, "register": 2, "field": 3, "enumeratedValues": 4}
PROPS = ["size", "access", "protection", "reset_value", "reset_mask"]
DIMS = ["dim", "dim_index", "dim_increment"]
INHERIT = {
    "peripheral": PROPS + ["version", "description", "alternate_peripheral", "group_name", "prepend_to_name",
                           "append_to_name", "disable_condition"],
    "cluster": PROPS + ["description", "alternate_cluster", "header_struct_name"],
    "register": PROPS + ["description", "alternate_group", "alternate_register", "data_type", "write_constraint",
                         "read_action"],
    "field": ["access", "description", "write_constraint", "read_action"],
}


class RefProcessor:
    def __init__(self, parsed):
        self.parsed = parsed
        self.root = Node(parsed, None)
        self.warn = []  # finalisation warnings: (kind, name, other name or None)
        self.reswarn = set()  # kinds of warnings of the resolving stage
        self.reswarn_about = set()  # the same with the name or text they are about
        self.items_made = 0
        self.finding = 0  # number of path lookups in progress
        self.flags = set()

    def early(self, kind, about):
        self.reswarn.add(kind)
        self.reswarn_about.add((kind, about))

    # ---------------------------------------------------------------- names and lookup
    def names(self, node):
        """[(name, item key)] under which a node can be referred to; key None = plain, "T" = template, int = index"""
        raw = node.name
        if raw is None:
            return []
        if node.kind == "enumeratedValues" or "%s" not in raw:
            return [(raw, None)]
        out = [(raw, "T")]
        res = self.resolve(node)
        out += [(it.name, it.index) for it in res["items"]]
        return out

    def candidates(self, node, wanted):
        raw = node.name
        if raw is None:
            return []
        if node.kind == "enumeratedValues" or "%s" not in raw:
            return [None] if raw == wanted else []
        if raw == wanted:
            return ["T"]
        tpl = "[%s]" if "[%s]" in raw else "%s"
        rx = ".+".join(re.escape(p) for p in raw.split(tpl))
        if not re.fullmatch(rx, wanted):
            return []
        return [key for name, key in self.names(node) if name == wanted]

    def search(self, nodes, parts, me, kind, late=False):
        """matches (node, item key, late); late: exists only after some other element has been expanded or derived"""
        out = []
        for n in nodes:
            if n is me:
                continue  # nor any copy of it
            keys = self.candidates(n, parts[0])
            if not keys:
                continue
            if len(parts) == 1:
                if n.kind == kind:
                    out += [(n, k, late or isinstance(k, int)) for k in keys]
            elif RANK[n.kind] > RANK[kind] or (n.kind == kind and kind != "cluster"):
                continue
            else:
                # a dim element shares its children over template and expansions
                for k in keys:
                    inner = late or isinstance(k, int) or n.d["derived_from"] is not None
                    out += self.search(self.children(n), parts[1:], me, kind, inner)
        return out

    def pick(self, matches):
        if len(matches) <= 1:
            return matches[0] if matches else None
        if all(n.kind == "register" for n, _, _ in matches):
            plain = [(n, k, late) for n, k, late in matches if not self.in_alternate_group(n)]
            if len(plain) == 1:
                self.flags.add("altgroup-pick")
                return plain[0]
        elif any(late for _, _, late in matches):
            raise OutOfDomain("several elements at the end of a path, some of which come into being during resolving")
        raise Refuse("ambiguous derivedFrom")

    def in_alternate_group(self, n):
        if n.d["alternate_group"] is not None:
            return True
        return n.d["derived_from"] is not None and self.resolve(n)["items"][0].p["alternate_group"] is not None

    def find_base(self, node):
        if node.bstate == 2:
            return node.base
        if node.bstate == 1:
            raise OutOfDomain("lookup depends on itself")
        node.bstate = 1
        self.finding += 1
        try:
            parts = node.d["derived_from"].split(".")
            sib = self.search(self.children(node.parent), parts, node, node.kind)
            sib_pick = self.pick(sib)
            if sib_pick is not None:
                self.flags.add("scope")
                # an element that only comes into being during resolution competes with an absolute match
                if sib_pick[2] and node.kind != "peripheral":
                    try:
                        other = self.search(self.children(self.root), parts, node, node.kind)
                    except Refuse as e:
                        raise OutOfDomain(str(e)) from e
                    if any(o[0] is not sib_pick[0] for o in other):
                        raise OutOfDomain("both a late sibling and an absolute match")
                node.base = sib_pick[:2]
            else:
                m = self.pick(self.search(self.children(self.root), parts, node, node.kind))
                node.base = m[:2] if m else None
                self.flags.add("absolute")
            if node.base is None:
                raise Refuse(f"unresolvable derivedFrom {node.d['derived_from']}")
            node.bstate = 2
            return node.base
        finally:
            self.finding -= 1
            if node.bstate == 1:
                node.bstate = 0

    def children(self, node):
        """own children and those taken over from the base, as document nodes"""
        if node.kids_ is not None:
            return node.kids_
        if node.kstate:
            raise OutOfDomain("children depend on themselves")
        node.kstate = 1
        try:
            out = list(node.own)
            if node.kind != "device" and node.d.get("derived_from") is not None:
                base, _ = self.find_base(node)
                self.check_nesting(node, base)
                out += self.children(base)
            node.kids_ = out
            return out
        finally:
            node.kstate = 0

    def check_nesting(self, node, base):
        n = node
        while n is not None:
            if n is base:
                raise Refuse("derived from an element that contains it")
            n = n.parent

    # ---------------------------------------------------------------- values
    def resolve(self, node):
        if node.state == 2:
            return node.res
        if node.state == 1:
            if self.finding > node.depth:
                raise OutOfDomain("lookup depends on itself")
            raise Refuse("circular derivation")
        node.state = 1
        node.depth = self.finding
        ok = False
        try:
            base = None
            if node.d["derived_from"] is not None:
                bnode, key = self.find_base(node)
                self.check_nesting(node, bnode)
                bres = self.resolve(bnode)
                if key is None:
                    base = bres["items"][0]
                elif key == "T":
                    base = bres["template"] or bres["items"][0]
                else:
                    base = bres["items"][key]
            node.res = self.expand(node, base)
            node.state = 2
            ok = True
            return node.res
        finally:
            if not ok:
                node.state = 0

    def expand(self, node, base):
        d, b = node.d, (base.p if base else None)
        inh = {k: _or(d[k], b[k] if b else None) for k in DIMS}
        disp = None
        if node.kind == "register":
            disp = _or(d["display_name"], b["display_name"] if b else None)
            if d["display_name"] is None and base is not None and base.template and disp is not None:
                raise OutOfDomain("displayName inherited from a dim template")
        dim, name = inh["dim"], d["name"]
        if dim is None and "%s" in name:
            raise Refuse("name with %s but no dim")
        if dim is not None and "%s" not in name:
            self.early("dim-without-%s", name)
            dim = None
        if disp is not None and dim is None and "%s" in disp:
            raise Refuse("displayName with %s but no dim")
        if dim is None:
            return {"template": None, "items": [self.make(node, base, inh, name, disp, 0)]}
        labels, token = self.labels(node, name, dim, inh["dim_index"])
        if disp is not None:
            if token == "[%s]" and "[%s]" not in disp and "%s" in disp:
                raise Refuse("displayName list on array")
            if token == "%s" and "[%s]" in disp:
                raise Refuse("displayName array on list")
        if name.replace(token, "").count("%s"):
            raise OutOfDomain("mixed dim markers")
        items = []
        for i, lab in enumerate(labels):
            dn = disp.replace(token, lab) if disp is not None else None
            it = self.make(node, base, inh, name.replace(token, lab), dn, i)
            items.append(it)
        tpl = Item(node, name, dict(items[0].p), template=True)
        for it in items:
            for k in DIMS:
                it.p[k] = None
        return {"template": tpl, "items": items}

    def labels(self, node, name, dim, idx):
        if dim < 1:
            raise Refuse("dim < 1")
        if dim > 2000:
            raise OutOfDomain("huge dim")
        if "[%s]" in name:
            if node.kind == "field":
                raise Refuse("field array")
            return [str(i) for i in range(dim)], "[%s]"
        if node.kind == "peripheral":
            raise Refuse("peripheral list")
        labels = dim_labels(dim, idx)
        if len(labels) != dim:
            raise Refuse("dimIndex does not match dim")
        return labels, "%s"

    def make(self, node, base, inh, name, disp, i):
        self.items_made += 1
        if self.items_made > LIMIT_ITEMS:
            raise OutOfDomain("too large")
        d, b, kind = node.d, (base.p if base else None), node.kind
        p = dict(inh)
        for k in INHERIT[kind]:
            p[k] = _or(d[k], b[k] if b else None)
        step = (p["dim_increment"] or 0) * i
        if kind == "peripheral":
            p["header_struct_name"] = d["header_struct_name"]
            p["base_address"] = d["base_address"] + step
            blocks = [
                {"offset": a["offset"], "size": a["size"], "usage": a["usage"], "protection": a["protection"] or "any",
                 "@src": f"{node.src}/block{n}"}
                for n, a in enumerate(d["address_blocks"])
            ]
            blocks.sort(key=lambda a: a["offset"])
            p["address_blocks"] = blocks or (b["address_blocks"] if b else [])
            p["interrupts"] = sorted(
                (dict({k: x[k] for k in ("name", "description", "value")}, **{"@src": f"{node.src}/irq{n}"})
                 for n, x in enumerate(d["interrupts"])),
                key=lambda x: x["value"],
            )
        elif kind in ("cluster", "register"):
            p["address_offset"] = d["address_offset"] + step
        if kind in ("register", "field"):
            p["modified_write_values"] = _or(d["modified_write_values"], b["modified_write_values"] if b else "modify")
        if kind == "register":
            p["display_name"] = disp
        if kind == "field":
            lsb, msb = self.bits(d, b)
            p["lsb"], p["msb"] = lsb + step, msb + step
        return Item(node, name, p, index=i)

    def bits(self, d, b):
        blsb, bmsb = (b["lsb"], b["msb"]) if b else (None, None)
        if d["bit_range"] is not None:
            m = re.match(r"\[(\d+):(\d+)\]", d["bit_range"])
            if not m:
                raise Refuse("bitRange format")
            if m.end() != len(d["bit_range"]):
                raise OutOfDomain("bitRange with a tail")
            if any(too_long(x) for x in m.groups()):
                raise Refuse("bitRange with thousands of digits")
            hi, lo = int(m.group(1)), int(m.group(2))
            if hi < lo:
                self.early("bitrange-swapped", d["bit_range"])
                hi, lo = lo, hi
            return lo, hi
        lsb = msb = None
        if d["lsb"] is not None or d["msb"] is not None:
            lsb, msb = _or(d["lsb"], blsb), _or(d["msb"], bmsb)
        if (lsb is None or msb is None) and (d["bit_offset"] is not None or d["bit_width"] is not None):
            off = _or(d["bit_offset"], blsb)
            wid = _or(d["bit_width"], bmsb - blsb + 1 if b else None)
            if off is not None and wid is not None:
                lsb, msb = off, off + wid - 1
            else:
                lsb = msb = None
        elif lsb is None or msb is None:
            lsb = msb = None
        if lsb is None or msb is None:
            raise Refuse("field without bit position")
        if msb < lsb:
            raise OutOfDomain("msb below lsb")
        return lsb, msb

    # ---------------------------------------------------------------- whole device
    def run(self):
        d = self.parsed
        dev = {k: d[k] for k in (
            "vendor", "vendor_id", "name", "series", "version", "description", "license_text",
            "header_system_filename", "header_definitions_prefix", "address_unit_bits", "width")}
        dev["size"] = _or(d["size"], 32)
        dev["access"] = _or(d["access"], "read-write")
        dev["protection"] = _or(d["protection"], "any")
        dev["reset_value"] = _or(d["reset_value"], 0)
        dev["reset_mask"] = _or(d["reset_mask"], 0xFFFFFFFF)
        dev["cpu"] = ref_cpu(d["cpu"])
        tree = []
        for node in self.children(self.root):
            for it in self.resolve(node)["items"]:
                tree.append(self.assemble(it, [dev["size"]]))
        tree.sort(key=lambda t: (t["p"]["base_address"], t["name"]))
        self.warn = []
        pers = []
        seen = {}
        for t in tree:
            self.push_down(t, dev)
        for t in tree:
            per = self.fin_peripheral(t)
            if per is None:
                continue
            if per["name"] in seen:
                raise Refuse("duplicate peripheral")
            seen[per["name"]] = per
            pers.append(per)
        pers.sort(key=lambda p: (p["base_address"], p["name"]))
        self.peripheral_overlaps(pers, seen)
        dev["peripherals"] = pers
        return dev

    def assemble(self, it, sizes):
        """instance tree with adjusted sizes; sizes: stack of explicit sizes of the ancestors (device first)"""
        self.items_made += 1
        if self.items_made > LIMIT_ITEMS:
            raise OutOfDomain("too large")
        kind, p = it.node.kind, it.p
        t = {"kind": kind, "name": it.name, "p": dict(p), "kids": [], "src": it.node.src}
        if kind in ("peripheral", "cluster"):
            inner = sizes + [p["size"]]
            best = None
            for n in self.children(it.node):
                for c in self.resolve(n)["items"]:
                    k = self.assemble(c, inner)
                    t["kids"].append(k)
                    s = k["p"]["size"]
                    if s is not None and s % 8:
                        s = 0
                    if s is None:
                        s = next(x for x in reversed(inner) if x is not None)
                    best = s if best is None else max(best, s)
            if best is not None:
                t["p"]["size"] = best
            t["kids"].sort(key=lambda k: (k["p"]["address_offset"], k["name"]))
        elif kind == "register":
            for n in self.children(it.node):
                for c in self.resolve(n)["items"]:
                    t["kids"].append(self.assemble(c, sizes))
            t["kids"].sort(key=lambda k: (k["p"]["lsb"], k["name"]))
        elif kind == "field":
            conts = [self.container(n, p["lsb"], p["msb"]) for n in self.children(it.node)]
            usages = [c["usage"] for c in conts]
            if len(set(usages)) != len(usages):
                raise Refuse("two containers of one usage")
            if len(conts) > 2:
                raise Refuse("more than two containers")
            if len(conts) == 2 and "read-write" in usages:
                raise Refuse("usage combination")
            t["conts"] = conts
        return t

    def container(self, node, lsb, msb):
        seen = []
        while node.d["derived_from"] is not None:
            if node in seen:
                raise Refuse("circular container derivation")
            seen.append(node)
            if node.d["enumerated_values"]:
                self.flags.add("derived container with own values")
            node, _ = self.find_base(node)
        d = node.d
        return {"name": d["name"], "header_enum_name": d["header_enum_name"], "usage": d["usage"] or "read-write",
                "src": node.src,
                "vals": self.enum_values(d["enumerated_values"], lsb, msb)}

    def enum_values(self, vals, lsb, msb):
        width = msb - lsb + 1
        if width > 14 and any(v["is_default"] for v in vals):
            raise OutOfDomain("default value in a wide field")
        out, names, values, default = [], set(), set(), None
        for nth, v in enumerate(vals):
            spread = [None]
            wild = False
            if v["value"] is not None and v["value"] != "":
                spread, wild = enum_literal(v["value"])
            for val in spread:
                if v["name"].lower() == "reserved":
                    self.early("enum-reserved", "")
                    continue
                name = f"{v['name']}_{val}" if wild else v["name"]
                is_def = bool(v["is_default"])
                if is_def and val is not None:
                    if wild:
                        raise OutOfDomain("wildcard value on the default")
                    if name not in names and val not in values:
                        self.early("default-with-value", v["name"])
                        val = None
                if name in names:
                    self.early("enum-dup-name", name)
                    continue
                if val is not None and val in values:
                    self.early("enum-dup-value", name)
                    continue
                if is_def:
                    if default is not None:
                        raise Refuse("two defaults")
                    default = (v, nth)
                names.add(name)
                if val is not None:
                    values.add(val)
                if not is_def:
                    out.append((val, name, v["description"], nth))
        if default is not None:
            if width > 14:
                raise OutOfDomain("default on a very wide field")
            default, nth = default
            explicit = {n for _, n, _, _ in out}
            for val in range(2 ** width):
                if val not in values:
                    n = f"{default['name']}_{val}"
                    if n in explicit:
                        raise OutOfDomain("default expansion collides with a name")
                    out.append((val, n, default["description"], nth))
        out.sort(key=lambda x: x[0] if x[0] is not None else 0)
        return out

    def push_down(self, t, up):
        p = t["p"]
        for k in PROPS:
            p[k] = _or(p[k], up[k])
        for k in t["kids"]:
            if k["kind"] == "field":
                k["p"]["access"] = _or(k["p"]["access"], p["access"])
                k["p"]["write_constraint"] = _or(k["p"]["write_constraint"], p["write_constraint"])
            else:
                self.push_down(k, p)

    # ---------------------------------------------------------------- finalisation
    def fin_peripheral(self, t):
        p = t["p"]
        rcs = self.fin_rcs(t["kids"], p["base_address"])
        if not rcs:
            self.warn.append(("empty-peripheral", t["name"], None))
            return None
        if p["base_address"] % 4:
            self.warn.append(("align-peripheral", t["name"], None))
        if p["size"] % 8:
            self.warn.append(("size-peripheral", t["name"], None))
            return None
        blocks = p["address_blocks"]
        if not blocks:
            raise Refuse("no address block")
        for n, b in enumerate(blocks):
            for a in blocks[:n]:
                if b["offset"] < a["offset"] + a["size"]:
                    self.warn.append(("blocks-overlap", str(b["offset"]), str(a["offset"])))
        base = p["base_address"]
        out = {k: p[k] for k in PROPS + [
            "version", "description", "alternate_peripheral", "group_name", "prepend_to_name", "append_to_name",
            "header_struct_name", "disable_condition", "base_address", "address_blocks", "interrupts"]}
        out["name"] = t["name"]
        out["registers_clusters"] = rcs
        out["end_address"] = max(base + b["offset"] + b["size"] - 1 for b in blocks)
        out["peripheral_size"] = sum(b["size"] for b in blocks)
        out["end_address_effective"] = max(end_of(r) for r in rcs)
        out["peripheral_size_effective"] = out["end_address_effective"] - base + 1
        flat = []

        def collect(rs):
            for r in rs:
                if r["_"] == "register":
                    flat.append(r)
                else:
                    collect(r["registers_clusters"])

        collect(rcs)
        out["registers"] = sorted(flat, key=lambda r: (r["base_address"], r["name"]))
        out["_"] = "peripheral"
        out["@src"] = t["src"]
        return out

    def fin_rcs(self, kids, base):
        out, regs, clus = [], {}, {}
        for k in kids:
            r = self.fin_rc(k, base)
            if r is None:
                continue
            key = r["name"]
            if r["_"] == "register" and r["alternate_group"]:
                key = f"{key}_{r['alternate_group']}"
            if key in regs or key in clus:
                raise Refuse("duplicate register/cluster name")
            (regs if r["_"] == "register" else clus)[key] = r
            out.append(r)
        out.sort(key=lambda r: (
            r["base_address"],
            (0, "") if r.get("alternate_group") is None else (1, r["alternate_group"]),
            r["name"],
        ))
        self.rc_overlaps(out, regs, clus)
        return out

    def fin_rc(self, t, base):
        p, kind = t["p"], t["kind"]
        addr = base + p["address_offset"]
        if p["size"] % 8:
            self.warn.append(("size-rc", t["name"], None))
            return None
        if p["size"] not in (8, 16, 32, 64, 128):
            if p["size"] == 0 and kind == "cluster":
                raise OutOfDomain("cluster of nothing but odd-size registers")
            raise Refuse("unsupported size")
        if p["address_offset"] % min(p["size"] // 8, 4):
            self.warn.append(("align-rc", t["name"], None))
        if kind == "cluster":
            inner = self.fin_rcs(t["kids"], addr)
            if not inner:
                self.warn.append(("empty-cluster", t["name"], None))
                return None
            end = max(end_of(r) for r in inner)
            out = {k: p[k] for k in PROPS + ["description", "alternate_cluster", "header_struct_name",
                                             "address_offset"]}
            out.update({"_": "cluster", "name": t["name"], "@src": t["src"], "registers_clusters": inner, "base_address": addr,
                        "end_address": end, "cluster_size": end - addr + 1})
            return out
        if t["name"].lower() == "reserved":
            self.warn.append(("reserved-register", t["name"], None))
            return None
        if p["alternate_register"] is not None and p["alternate_group"] is not None:
            raise Refuse("alternateRegister and alternateGroup")
        out = {k: p[k] for k in PROPS + [
            "display_name", "description", "alternate_group", "alternate_register", "address_offset", "data_type",
            "modified_write_values", "read_action"]}
        out["write_constraint"] = ref_wc(p["write_constraint"])
        out.update({"_": "register", "name": t["name"], "@src": t["src"], "base_address": addr,
                    "fields": self.fin_fields(t["kids"], p["size"])})
        return out

    def fin_fields(self, kids, size):
        out, seen = [], set()
        for t in kids:
            p = t["p"]
            if t["name"].lower() == "reserved":
                self.warn.append(("reserved-field", t["name"], None))
                continue
            if t["name"] in seen:
                raise Refuse("duplicate field")
            seen.add(t["name"])
            conts = []
            width = p["msb"] - p["lsb"] + 1
            for c in t["conts"]:
                vals = []
                for val, name, desc, nth in c["vals"]:
                    if val is None:
                        raise Refuse("enumerated value without a value")
                    if val.bit_length() > width:
                        self.warn.append(("enum-range", name, None))
                        continue
                    vals.append({"name": name, "description": desc, "value": val, "@src": f"{c['src']}/{nth}"})
                conts.append({"name": c["name"], "header_enum_name": c["header_enum_name"], "usage": c["usage"],
                              "enumerated_values": vals, "@src": c["src"]})
            conts.sort(key=lambda c: (c["usage"], len(c["enumerated_values"])))
            f = {k: p[k] for k in ("description", "lsb", "msb", "modified_write_values", "read_action", "access")}
            f.update({"_": "field", "name": t["name"], "@src": t["src"], "write_constraint": ref_wc(p["write_constraint"]),
                      "bit_offset": p["lsb"], "bit_width": width, "bit_range": [p["msb"], p["lsb"]],
                      "enumerated_value_containers": conts})
            out.append(f)
        out.sort(key=lambda f: f["lsb"])
        for i, f in enumerate(out):
            if f["msb"] >= size:
                self.warn.append(("field-exceeds", f["name"], None))
        for i, f in enumerate(out):
            for g in out[:i]:
                if f["lsb"] <= g["msb"] and g["lsb"] <= f["msb"]:
                    rd = f["access"] != "write-only" and g["access"] != "write-only"
                    wr = f["access"] != "read-only" and g["access"] != "read-only"
                    if rd or wr:
                        raise Refuse("fields overlap")
        return out

    # ---------------------------------------------------------------- overlaps
    @staticmethod
    def closure(start, lookup, attr):
        todo, seen = [start], set()
        while todo:
            cur = todo.pop()
            if cur in seen:
                continue
            seen.add(cur)
            todo += [n for n, e in lookup.items() if e[attr] == cur]
            if cur in lookup and lookup[cur][attr] is not None:
                todo.append(lookup[cur][attr])
        return seen

    def allowed(self, later, earlier_name, lookup, attr):
        if later[attr] is not None:
            return earlier_name in self.closure(later[attr], lookup, attr)
        e = lookup.get(earlier_name)
        return e is not None and e[attr] == later["name"]

    def rc_overlaps(self, rcs, regs, clus):
        before = []
        for r in rcs:
            if r["_"] == "register" and r["alternate_group"] is not None:
                continue
            lookup, attr = (regs, "alternate_register") if r["_"] == "register" else (clus, "alternate_cluster")
            for e in before:
                if r["base_address"] <= end_of(e) and not self.allowed(r, e["name"], lookup, attr):
                    self.warn.append(("overlap-rc", r["name"], e["name"]))
            before.append(r)

    def peripheral_overlaps(self, pers, lookup):
        for i, p in enumerate(pers):
            for e in pers[:i]:
                ok = self.allowed(p, e["name"], lookup, "alternate_peripheral")
                if p["base_address"] <= e["end_address_effective"] and not ok:
                    self.warn.append(("overlap-effective", p["name"], e["name"]))
                if p["base_address"] <= e["end_address"] and not ok:
                    self.warn.append(("overlap-specified", p["name"], e["name"]))


def end_of(r):
    if r["_"] == "register":
        return r["base_address"] + r["size"] // 8 - 1
    return r["end_address"]


def ref_wc(w):
    if w is None:
        return None
    return {k: w[k] for k in ("write_as_read", "use_enumerated_values", "range_")}


def dim_labels(dim, idx):
    if idx is None:
        return [str(i) for i in range(dim)]
    m = re.fullmatch(r"([0-9]+)-([0-9]+)", idx)
    if m:
        if any(too_long(x) for x in m.groups()):
            raise Refuse("dimIndex with thousands of digits")
        a, b = int(m.group(1)), int(m.group(2))
        if a > b:
            raise Refuse("dimIndex range backwards")
        if b - a + 1 != dim:
            raise Refuse("dimIndex does not match dim")
        return [str(i) for i in range(a, b + 1)]
    m = re.fullmatch(r"([A-Z])-([A-Z])", idx)
    if m:
        a, b = m.groups()
        if a > b:
            raise Refuse("dimIndex range backwards")
        if a == b:
            raise OutOfDomain("dimIndex range of one letter")
        return [chr(c) for c in range(ord(a), ord(b) + 1)]
    if re.fullmatch(r"[_0-9a-zA-Z]+(,\s*[_0-9a-zA-Z]+)+", idx):
        return [x.strip() for x in idx.split(",")]
    if re.fullmatch(r"[_0-9a-zA-Z]+", idx):
        return [idx]
    raise Refuse("dimIndex")


def enum_literal(text):
    """(values, has don't-care bits)"""
    if too_long(text):
        raise Refuse("enum literal of thousands of digits")
    m = re.fullmatch(r"(?:#|0[bB])([01xX]+)", text)
    if m:
        bits = m.group(1).lower()
        wild = bits.count("x")
        if wild > 12:
            raise OutOfDomain("very many don't-care bits")
        out = [""]
        for ch in bits:
            out = [o + c for o in out for c in ("01" if ch == "x" else ch)]
        return sorted(int(o, 2) for o in out), wild > 0
    if re.fullmatch(r"0[xX][0-9a-fA-F]+", text):
        return [int(text[2:], 16)], False
    if re.fullmatch(r"[0-9]+", text):
        return [int(text)], False
    if re.fullmatch(r"\+[0-9]+", text):
        raise OutOfDomain("enum literal notation")
    raise Refuse(f"enum literal {text!r}")


def ref_cpu(c):
    if c is None:
        return None
    out = {k: c[k] for k in ("revision", "endian", "nvic_prio_bits", "vendor_systick_config",
                             "device_num_interrupts", "sau_num_regions")}
    out["name"] = "CM0PLUS" if c["name"] == "CM0+" else c["name"]
    for k in ("mpu_present", "fpu_present", "fpu_dp", "dsp_present", "icache_present", "dcache_present",
              "itcm_present", "dtcm_present"):
        out[k] = bool(c[k])
    out["vtor_present"] = True if c["vtor_present"] is None else c["vtor_present"]
    s = c["sau_regions_config"]
    if s is not None:
        s = {
            "enabled": True if s["enabled"] is None else s["enabled"],
            "protection_when_disabled": s["protection_when_disabled"] or "s",
            "regions": [
                {"enabled": True if r["enabled"] is None else r["enabled"], "name": r["name"], "base": r["base"],
                 "limit": r["limit"], "access": r["access"]}
                for r in s["regions"]
            ],
        }
    out["sau_regions_config"] = s
    return out


def ref_process(parsed):
    """(device dict, RefProcessor); raises Refuse or OutOfDomain"""
    if not parsed["peripherals"]:
        raise OutOfDomain("no peripherals")
    rp = RefProcessor(parsed)
    try:
        return rp.run(), rp
    except RecursionError as e:
        raise OutOfDomain("recursion") from e


# ----------------------------------------------------------------------------- observation of the real result
import dataclasses  # noqa: E402
import enum  # noqa: E402

_KINDS = {"Peripheral": "peripheral", "Cluster": "cluster", "Register": "register", "Field": "field"}


def observe(obj, src=None):
    """svdsuite process-model object -> plain dict; src maps ids of parsed objects to their position (see sources)"""
    if obj is None or type(obj) in (int, bool, str):
        return obj
    if isinstance(obj, enum.Enum):
        return obj.value
    if isinstance(obj, (list, tuple)):
        return [observe(o, src) for o in obj]
    if dataclasses.is_dataclass(obj):
        out = {}
        kind = _KINDS.get(type(obj).__name__)
        if kind:
            out["_"] = kind
        for f in dataclasses.fields(obj):
            if f.name != "parsed":
                out[f.name] = observe(getattr(obj, f.name), src)
            elif src is not None and type(obj).__name__ in _WITHSRC:
                out["@src"] = src.get(id(obj.parsed), "?")
        return out
    return f"<{type(obj).__name__} {obj!r}>"


_WITHSRC = {"Peripheral", "Cluster", "Register", "Field", "AddressBlock", "Interrupt", "EnumeratedValueContainer",
            "EnumeratedValue"}


def sources(svd_device):
    """id of every parsed object below the device -> its position, in the notation of Node.src"""
    out = {}

    def rec(obj, src):
        out[id(obj)] = src
        for attr in ("peripherals", "registers_clusters", "fields", "enumerated_value_containers", "enumerated_values"):
            for i, c in enumerate(getattr(obj, attr, ())):
                rec(c, f"{src}/{i}")
        for attr, tag in (("address_blocks", "block"), ("interrupts", "irq")):
            for i, c in enumerate(getattr(obj, attr, ())):
                out[id(c)] = f"{src}/{tag}{i}"

    rec(svd_device, "")
    return out


def without_src(d):
    if isinstance(d, dict):
        return {k: without_src(v) for k, v in d.items() if k != "@src"}
    if isinstance(d, list):
        return [without_src(v) for v in d]
    return d
