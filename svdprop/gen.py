"""Seeded random generation of abstract SVD devices (plain dicts of spec.py) and of ways to write them down."""
import re
from random import Random

from . import spec
from .spec import TABLE, to_ast  # noqa: F401
from . import xmlast
from .xmlast import N, L

BASE_PROFILE = {
    # shape
    "pers": (1, 3), "rcs": (1, 4), "depth": 2, "cluster": 0.3, "fields": (0, 3), "conts": 0.3, "vals": (1, 4),
    # chance that an optional thing is stated
    "prop": 0.25, "meta": 0.2, "dim": 0.12, "derive": 0.25, "derive_conts": 0.2, "wc": 0.12,
    "devprops": 0.3, "cpu": 0.2,
    # oddities
    "oddsize": 0.0, "reserved": 0.0, "dupname": 0.0, "alt": 0.05, "altgroup": 0.03, "twins": 0.02, "shadow": 0.02, "masses": 0.03, "overlap": 0.05, "noblock": 0.0,
    "emptyreg": 0.0, "emptycluster": 0.0, "wild": 0.25, "manyx": 0.0, "default": 0.2, "evoddity": 0.0, "fieldoverlap": 0.0,
    "widefield": 0.03, "partialbits": 0.25, "dimodd": 0.0, "unaligned": 0.0, "exceed": 0.0, "pool": 0.5, "longname": 0.008, "longtext": 0.02, "magnify": 0.05, "ladder": 0.02, "heap": 0.001, "altboth": 0.01,
    "dots": 0.0, "bigdim": 0.05, "chain": 0.0, "inherited_ref": 0.25, "interrupts": 0.2, "blocks": (1, 2), "blockoverlap": 0.04,
    "nested_ref": 0.3, "ownvals": 0.0, "dimheir": 0.4, "size64": 0.25, "baddim": 0.0, "tie": 0.0, "swap": 0.04, "coincide": 0.15,
}

TEXTS = ["text", "A longer description", "multi\nline  text", "Ünïcödé ✓ 漢字", "<b>&amp;\"quotes\"'</b>", "]]>", "0",
         "None", "false", "a;b,c", "\u00a0nbsp", "emoji \U0001F600"]
BADLITERALS = ["zz", "0xg", "1.0", "-1", "b01", "0x1#1", "0b#1", "##1", "0b0b1", "#0b1", "1_0", "0x_1", "0b1_0", "٣", "１", "²", "0b12", "0b",
               "#", "0x", "1x", "xx", "0xx", "1#0", "0x0x1", "0o7", "1e1", "#1 0", "1 0"]
RESERVED = ["reserved", "Reserved", "RESERVED", "ReSerVed"] * 5 + [
    "reserved_1", "reservedX", "Reserved_", "_reserved", "reserved0", "Reserve", "Reserved.", "Unreserved", "res erved", "reserviert"]
NAMES = ["Alpha", "Beta", "Gamma", "Delta", "Eps", "Zeta"]


def profile(**kw):
    p = dict(BASE_PROFILE)
    p.update(kw)
    return p


def bounded(d):
    """no default that, by derivation, has to be spelled out for every value of a wide field"""
    fields, todo = [], [d]
    while todo:
        e = todo.pop()
        fields += e.get("fields") or []
        for k in ("peripherals", "registers_clusters"):
            todo += e.get(k) or []

    def width(f):
        if f["bit_width"] is not None:
            return f["bit_width"]
        if f["lsb"] is not None and f["msb"] is not None:
            return f["msb"] - f["lsb"] + 1
        m = re.fullmatch(r"\[(\d+):(\d+)\]", f["bit_range"] or "")
        return abs(int(m.group(1)) - int(m.group(2))) + 1 if m else None

    widths = [width(f) for f in fields]
    if not any(w is not None and w > 14 for w in widths):
        return
    if not any((w is None or w > 14) and (f["derived_from"] or any(c["derived_from"] for c in f["enumerated_value_containers"]))
               for f, w in zip(fields, widths)):
        return
    for f in fields:
        for c in f["enumerated_value_containers"]:
            kept = [v for v in c["enumerated_values"] if not v["is_default"]]
            if c["enumerated_values"] and not kept:
                kept = c["enumerated_values"][:1]
                kept[0]["is_default"] = None
                kept[0]["value"] = kept[0]["value"] or "0"
            c["enumerated_values"] = kept


class Gen:
    def __init__(self, rnd: Random, prof):
        self.r = rnd
        self.p = prof
        self.n = 0
        self.all = []  # (element dict, parent chain)

    # ------------------------------------------------------------- little helpers
    def chance(self, key):
        v = self.p[key] if isinstance(key, str) else key
        return self.r.random() < v

    def rng(self, key):
        a, b = self.p[key]
        return self.r.randint(a, b)

    def pick(self, xs):
        return xs[self.r.randrange(len(xs))]

    def uid(self, stem):
        self.n += 1
        if self.chance("longname"):
            stem += "_" + "".join(self.pick("aZ0_") for _ in range(self.r.choice([17, 33, 65, 130, 260]))) + "_"
        return f"{stem}{self.n}"

    def name(self, stem, used):
        if self.chance("pool"):
            n = self.pick(NAMES)
            if self.chance(0.15):
                n += "_" + self.pick(["x", "9", "Z", "00"])
        else:
            n = self.uid(stem)
        if used and self.chance(0.02):
            n = self.pick(sorted(used)).swapcase()  # another name nevertheless
        if n in used and not self.chance("dupname"):
            n = self.uid(stem)
        used.add(n)
        return n

    def text(self):
        if self.chance("longtext"):
            return " ".join(self.pick(["lorem", "ipsum", "dolor", "é", "漢字"]) for _ in range(self.r.choice([20, 60, 200, 1000])))
        return self.pick(TEXTS)

    def blank(self, kind):
        d = {"_": kind}
        for carrier, _, attr, _, presence in TABLE[kind]:
            d[attr] = [] if carrier in ("many", "wrapped") else None
        return d

    def num(self, bits=32):
        k = self.r.randrange(6)
        if k == 0:
            return 0
        if k == 1:
            return (1 << self.r.choice([8, 16, bits])) - 1
        if k == 2:
            return 1 << self.r.randrange(bits)
        return self.r.randrange(1 << self.r.choice([4, 8, 16, bits]))

    # ------------------------------------------------------------- element pieces
    def props(self, d, scale=1.0):
        if self.chance(self.p["prop"] * scale):
            if self.chance("oddsize"):
                d["size"] = self.pick([1, 7, 12, 33, 4])
            else:
                d["size"] = self.pick([8, 16, 32, 32, 64] if self.chance("size64") else [8, 16, 32, 32])
        if self.chance(self.p["prop"] * scale):
            d["access"] = self.pick(["read-only", "write-only", "read-write"] * 5 + ["writeOnce", "read-writeOnce"])
        if self.chance(self.p["prop"] * scale):
            d["protection"] = self.pick(["s", "n", "p"])
        if self.chance(self.p["prop"] * scale):
            d["reset_value"] = self.num()
        if self.chance(self.p["prop"] * scale):
            d["reset_mask"] = self.num()

    def dims(self, d, name, array, lst, incr):
        """maybe turn the element into a dim element; returns the name to use"""
        if not self.chance("dim") or not (array or lst):
            return name
        n = self.r.choice([1, 2, 2, 3, 4])
        if self.chance("bigdim"):
            n = self.r.choice([10, 11, 12, 13])
        use_array = array and (not lst or self.chance(0.5))
        if use_array:
            out = name + "[%s]"
            if self.chance(0.2):
                d["dim_index"] = self.pick(["0-99", "A-C", "x,y"])
        else:
            out = self.pick([name + "%s", name + "_%s", "%s" + name, name + "%sEnd"] * 4 + [name + "%s_%s"] + [name + "%s%s_%s"] * (self.r.random() < 0.3))
            d["dim_index"] = self.index(n)
        if self.chance("baddim"):
            k = self.r.randrange(5)
            if k == 0:
                n = 0
            elif k == 1:
                d["dim_index"] = self.pick(["A,B,C,D,E,F,G,H,I", "3-1", "B-A", "-", "[a]", "0-3,5", "1-2-3", "A-Cx", "A-B,C", "0-3x", "0-4000000000",
                                           "A,,B", "A,B,", ",A", "a-c", "A B", "0..3", "A;B", "1,2-3", "-1-2"])
                labels = [x.strip() for x in (self.index(n) or "X,Y").split(",")]
                if self.chance(0.4) and "-" not in "".join(labels):  # a label twice: one too many, or for another one
                    labels.insert(self.r.randint(0, len(labels)), self.pick(labels))
                    d["dim_index"] = ",".join(labels if self.chance(0.7) else labels[:-1])
            elif k == 2:
                out = name
            elif k == 3:
                d["dim"] = None
                d["dim_increment"] = incr
                return out
            else:
                out = name + ("%s" if array and not lst else "[%s]")
        d["dim"] = n
        d["dim_increment"] = incr if not self.chance("dimodd") else self.pick([0, 1, None])
        if self.chance(0.1):
            d["dim_name"] = self.uid("DimType")
        if self.chance(0.08):
            d["dim_array_index"] = self.dim_array_index()
        return out

    def dim_array_index(self):
        d = self.blank("dimArrayIndex")
        if self.chance(0.5):
            d["header_enum_name"] = self.uid("Hdr")
        for i in range(self.r.randint(0, 3)):
            v = self.blank("enumeratedValue")
            v["name"] = self.uid("di")
            v["value"] = str(i)
            if self.chance(0.5):
                v["description"] = self.text()
            d["enumerated_values"].append(v)
        return d

    def index(self, n):
        k = self.r.randrange(6)
        if k == 0:
            return None
        if k == 1:
            a = self.r.choice([0, 1, 5, 9, 10, 98])
            return f"{a}-{a + n - 1}"
        if k == 2 and n > 1:
            a = self.r.randrange(26 - n)
            return f"{chr(65 + a)}-{chr(65 + a + n - 1)}"
        if k == 3 and n == 1:
            return self.pick(["X", "7", "_a"])
        if n > 1:
            labels = self.r.sample(["A", "B", "C", "a", "b", "00", "01", "_1", "Tx", "Rx", "7", "10", "LO", "HI", "z9"], n)
            return self.pick([",", ", ", ",  "]).join(labels)
        return None

    def write_constraint(self):
        d = self.blank("writeConstraint")
        k = self.r.randrange(3)
        if k == 0:
            d["write_as_read"] = self.chance(0.5)
        elif k == 1:
            d["use_enumerated_values"] = self.chance(0.5)
        else:
            lo = self.num(16)
            d["range_"] = [lo, lo + self.num(16)]
        return d

    def enum_values(self, width):
        vals = []
        used = set()
        names = set()
        top = (1 << width) - 1
        for _ in range(self.rng("vals")):
            v = self.blank("enumeratedValue")
            v["name"] = self.pick(["On", "Off", "Low", "High", "Mid"]) if self.chance(0.5) else self.uid("v")
            if v["name"] in names and not self.chance("evoddity"):
                v["name"] = self.uid("v")
            names.add(v["name"])
            if self.chance(0.4):
                v["description"] = self.text()
            if self.chance(0.06):
                v["is_default"] = False
            if width > 8 and self.chance("manyx"):
                bits = list(bin(self.r.getrandbits(width) | 1 << width)[3:])
                for at in self.r.sample(range(width), min(width, self.r.choice([2, 5, 9, 10, 11, 12]))):
                    bits[at] = "x"
                lit = self.pick(["0b", "#"]) + "".join(bits)
            elif self.chance("wild") and width <= 10:
                bits = "".join(self.r.choice("01x" if self.chance(0.7) else "xX") for _ in range(width))
                if "x" not in bits.lower():
                    bits = bits[:-1] + "x"
                lit = self.pick(["0b", "#", "0B"]) + bits
            elif self.chance("wild") and self.chance(0.3):
                bits = list(bin(self.r.getrandbits(width) | 1 << width)[3:])
                for at in self.r.sample(range(width), min(width, self.r.choice([1, 2, 4]))):
                    bits[at] = "x"
                lit = self.pick(["0b", "#"]) + "".join(bits)
            else:
                val = self.r.randint(0, top)
                if self.chance("evoddity"):
                    val = self.r.choice([top + 1, top + 5, 0, top])
                lit = self.literal(val, width)
            try:
                from .refproc import enum_literal

                vs = set(enum_literal(lit)[0])
            except Exception:
                vs = set()
            if vs & used and not self.chance("evoddity"):
                continue
            used |= vs
            v["value"] = lit
            if self.chance("evoddity"):
                k = self.r.randrange(6)
                if k == 0:
                    v["name"] = self.pick(["reserved", "Reserved", "RESERVED"])
                elif k == 1:
                    v["value"] = self.pick(BADLITERALS) if self.chance(0.3) else v["value"]
                elif k == 2 and self.chance(0.3):
                    v["value"] = None
            vals.append(v)
        if (self.chance("default") and width <= 8) or (width <= 13 and self.chance("manyx")):
            v = self.blank("enumeratedValue")
            v["name"] = self.uid("Def")
            v["is_default"] = True
            if self.chance(0.5):
                v["description"] = self.text()
            if self.chance("evoddity") and self.chance(0.4):
                v["value"] = str(self.r.randint(0, top))
            if self.chance("evoddity") and self.chance(0.3) and vals:
                v["name"] = self.pick(vals)["name"]
            vals.insert(self.r.randint(0, len(vals)), v)
            if self.chance("evoddity") and self.chance(0.15):
                w = dict(v)
                w["name"] = self.uid("Def")
                vals.append(w)
        return vals

    def literal(self, val, width=8):
        k = self.r.randrange(6)
        if k == 0:
            return f"0x{val:x}"
        if k == 1:
            return f"0X{val:X}"
        if k == 2:
            return f"0b{val:0{width}b}"
        if k == 3:
            return f"#{val:b}"
        if k == 4:
            return f"{val:03d}"
        return str(val)

    def containers(self, width):
        out = []
        if not self.chance("conts"):
            return out
        usages = self.r.choice([[None], [None], ["read-write"], ["read"], ["write"], ["read", "write"],
                                ["write", "read"]])
        if self.chance("evoddity") and self.chance(0.3):
            usages = self.r.choice([[None, None], ["read", "read"], ["read", "write", "read-write"], ["read", None]])
        for u in usages:
            c = self.blank("enumeratedValues")
            c["usage"] = u
            if self.chance(0.75):
                c["name"] = self.uid("Enum")
            if self.chance(0.2):
                c["header_enum_name"] = self.uid("HdrEnum")
            c["enumerated_values"] = self.enum_values(width)
            out.append(c)
        return out

    # ------------------------------------------------------------- structure
    def field(self, used, lo, regsize):
        d = self.blank("field")
        width = self.r.choice([1, 1, 2, 3, 4, 5])
        if self.chance("widefield"):
            width = self.r.choice([8, 9, 10, 11, 12, 13, 16, 16, 17, 24, 31, 32, 33])
        lsb = lo
        name = self.name("Fld", used)
        if self.chance("reserved"):
            name = self.pick(RESERVED)
        d["name"] = self.dims(d, name, False, True, width + self.r.choice([0, 0, 1]))
        n = d["dim"] or 1
        self.set_bits(d, lsb, width)
        if self.chance("prop"):
            d["access"] = self.pick(["read-only", "write-only", "read-write"] * 5 + ["writeOnce", "read-writeOnce"])
        if self.chance("meta"):
            d["description"] = self.text()
        if self.chance("meta"):
            d["modified_write_values"] = self.pick(spec.MWV)
        if self.chance("meta"):
            d["read_action"] = self.pick(spec.READACT)
        if self.chance("wc"):
            d["write_constraint"] = self.write_constraint()
        d["enumerated_value_containers"] = self.containers(width)
        end = lsb + (n - 1) * (d["dim_increment"] or 0) + width
        return d, end + self.r.choice([0, 0, 1, 3])

    def set_bits(self, d, lsb, width):
        for k in ("bit_offset", "bit_width", "lsb", "msb", "bit_range"):
            d[k] = None
        k = self.r.randrange(3)
        if k == 0:
            d["bit_offset"], d["bit_width"] = lsb, width
        elif k == 1:
            d["lsb"], d["msb"] = lsb, lsb + width - 1
        else:
            ends = [lsb + width - 1, lsb]
            if self.chance("swap"):
                ends.reverse()  # only warned about
            d["bit_range"] = f"[{ends[0]}:{ends[1]}]"

    def register(self, used, off, depth):
        d = self.blank("register")
        name = self.name("Reg", used)
        if self.chance("reserved"):
            name = self.pick(RESERVED)
        self.props(d)
        nbytes = max(1, (d["size"] or 32) // 8)
        incr = nbytes * self.r.choice([1, 1, 2, 4])
        d["name"] = self.dims(d, name, True, True, incr)
        d["address_offset"] = off
        if self.chance("meta"):
            d["description"] = self.text()
        if self.chance("meta"):
            disp = self.uid("Disp")
            if d["dim"] is not None and "%s" in d["name"] and self.chance(0.8):
                disp += (self.pick(["", " "]) + ("[%s]" if "[%s]" in d["name"] else "%s")) * self.r.choice([1, 1, 1, 1, 2])
            d["display_name"] = disp
        if self.chance("altgroup"):
            d["alternate_group"] = self.pick(["G1", "G2"])
        if self.chance("meta"):
            d["data_type"] = self.pick(spec.DATATYPE)
        if self.chance("meta"):
            d["modified_write_values"] = self.pick(spec.MWV)
        if self.chance("meta"):
            d["read_action"] = self.pick(spec.READACT)
        if self.chance("wc"):
            d["write_constraint"] = self.write_constraint()
        fused = set()
        bit = self.r.choice([0, 0, 0, 1, 5])
        size = d["size"] or 32
        for _ in range(self.rng("fields")):
            f, nxt = self.field(fused, bit, size)
            if nxt > size + 4 and not self.chance("exceed"):
                break
            d["fields"].append(f)
            if self.p["tie"] and self.chance(0.5):  # another field on the same bits, one to be read, one to be written
                g, _ = self.field(fused, bit, size)
                f["access"], g["access"] = self.r.sample(["read-only", "write-only"], 2)
                if not f["dim"] and not g["dim"]:
                    self.set_bits(g, bit, self.r.choice([1, 1, 2]))
                    if self.chance(0.6):
                        self.set_bits(f, bit, self.r.choice([1, 2]))
                d["fields"].append(g)
            bit = nxt
            if self.chance("fieldoverlap"):
                bit = max(0, bit - self.r.randint(1, 4))
        if self.chance(0.3):
            self.r.shuffle(d["fields"])
        n = d["dim"] or 1
        return d, off + max(nbytes, (n - 1) * (d["dim_increment"] or 0) + nbytes)

    def cluster(self, used, off, depth):
        d = self.blank("cluster")
        self.props(d, 0.7)
        name = self.name("Clu", used)
        d["registers_clusters"], span = self.rcs(depth - 1)
        if self.chance("emptycluster"):
            d["registers_clusters"] = []
        span = (span + 3) // 4 * 4
        d["name"] = self.dims(d, name, True, True, span * self.r.choice([1, 1, 2]))
        d["address_offset"] = off
        if self.chance("meta"):
            d["description"] = self.text()
        if self.chance("meta"):
            d["header_struct_name"] = self.uid("Hdr")
        n = d["dim"] or 1
        return d, off + (n - 1) * (d["dim_increment"] or 0) + span

    def rcs(self, depth):
        out = []
        used = set()
        off = self.r.choice([0, 0, 0, 4, 0x10])
        n = self.rng("rcs")
        for _ in range(n):
            if depth > 0 and self.chance("cluster"):
                e, nxt = self.cluster(used, off, depth)
            else:
                e, nxt = self.register(used, off, depth)
            out.append(e)
            if not self.chance("unaligned"):
                nxt = (nxt + 7) // 8 * 8 if self.chance(0.5) else (nxt + 3) // 4 * 4
            off = nxt + self.r.choice([0, 0, 0, 4, 16])
            if self.chance("overlap"):
                off = max(0, off - self.r.choice([1, 2, 4, 4, 8]))
        # alternates point at names of the same scope
        for e in out:
            if self.chance("alt"):
                target = self.pick(out)
                key = "alternate_register" if e["_"] == "register" else "alternate_cluster"
                if target["_"] == e["_"] and target is not e:
                    e[key] = target["name"]
                    if self.chance(0.7):
                        e["address_offset"] = target["address_offset"]
        if self.chance(0.35):
            self.r.shuffle(out)
        return out, off

    def peripheral(self, used, base):
        d = self.blank("peripheral")
        self.props(d, 0.7)
        d["registers_clusters"], span = self.rcs(self.p["depth"])
        if self.chance("emptyreg"):
            d["registers_clusters"] = []
        name = self.name("Per", used)
        d["name"] = self.dims(d, name, True, False, max(0x100, (span + 0xFF) // 0x100 * 0x100))
        d["base_address"] = base
        for key, stem in (("version", "1."), ("group_name", "Grp"), ("prepend_to_name", "Pre"), ("append_to_name", "App"),
                          ("header_struct_name", "Hdr")):
            if self.chance("meta"):
                d[key] = self.uid(stem)
        if self.chance("meta"):
            d["description"] = self.text()
        if self.chance("meta"):
            d["disable_condition"] = "(X->Y == 0)"
        if not self.chance("noblock"):
            off = 0 if self.chance(0.75) else self.r.choice([4, 0x10, 0x100, 0x1000, 0x4000])
            for _ in range(self.rng("blocks")):
                b = self.blank("addressBlock")
                b["offset"] = off
                b["size"] = self.r.choice([4, 0x10, 0x100, max(4, span)])
                b["usage"] = self.pick(spec.USAGE_AB)
                if self.chance(0.3):
                    b["protection"] = self.pick(["s", "n", "p"])
                d["address_blocks"].append(b)
                off += b["size"] + self.r.choice([0, 0, 0x100])
                if self.chance("blockoverlap"):
                    off = b["offset"] + self.r.choice([0, 4, b["size"] // 2])
            if self.chance(0.4):
                self.r.shuffle(d["address_blocks"])
        while self.chance("interrupts"):
            i = self.blank("interrupt")
            i["name"] = self.uid("IRQ")
            i["value"] = self.r.choice([0, 1, 2, 5, 17, 100, 255, 300, 1024, 70000])
            if self.chance(0.4):
                i["description"] = self.text()
            d["interrupts"].append(i)
        n = d["dim"] or 1
        return d, base + max(span, n * (d["dim_increment"] or 0), max([b["offset"] + b["size"] for b in d["address_blocks"]] or [0]))

    def cpu(self):
        d = self.blank("cpu")
        d["name"] = self.pick(spec.CPUNAMES)
        d["revision"] = self.pick(["r0p0", "r1p2"])
        d["endian"] = self.pick(spec.ENDIAN)
        for _, _, attr, reader, presence in TABLE["cpu"]:
            if reader == "bool" and (presence == "m" or self.chance(0.5)):
                d[attr] = self.chance(0.5)
        d["nvic_prio_bits"] = self.r.randint(0, 8)
        if self.chance(0.5):
            d["device_num_interrupts"] = self.r.choice([0, 1, 240, 480])
        if self.chance(0.5):
            d["sau_num_regions"] = self.r.choice([0, 1, 8])
        if self.chance(0.5):
            s = self.blank("sauRegionsConfig")
            if self.chance(0.5):
                s["enabled"] = self.chance(0.5)
            if self.chance(0.5):
                s["protection_when_disabled"] = self.pick(["s", "n", "p"])
            for _ in range(self.r.randint(0, 3)):
                g = self.blank("region")
                if self.chance(0.5):
                    g["enabled"] = self.chance(0.5)
                if self.chance(0.5):
                    g["name"] = self.uid("SAU")
                g["base"] = self.num()
                g["limit"] = self.num()
                g["access"] = self.pick(spec.SAUACC)
                s["regions"].append(g)
            d["sau_regions_config"] = s
        return d

    def device(self):
        d = self.blank("device")
        d["xs_no_namespace_schema_location"] = "CMSIS-SVD.xsd"
        d["schema_version"] = self.pick(["1.3", "1.3.9", "1.1"])
        d["name"] = self.uid("Dev")
        d["version"] = self.pick(["1.0", "0.0.1"])
        d["description"] = self.text()
        d["address_unit_bits"] = self.pick([8, 8, 16])
        d["width"] = self.pick([32, 32, 64])
        for key in ("vendor", "vendor_id", "series", "header_system_filename", "header_definitions_prefix"):
            if self.chance("meta"):
                d[key] = self.uid("M")
        if self.chance("meta"):
            d["license_text"] = self.text()
        if self.chance("cpu"):
            d["cpu"] = self.cpu()
        if self.chance("devprops"):
            self.props(d, 2.0)
        used = set()
        base = self.r.choice([0, 0x40000000, 0xE0000000, 0x1_0000_0000])
        for _ in range(self.rng("pers")):
            per, nxt = self.peripheral(used, base)
            d["peripherals"].append(per)
            base = (nxt + 0xFF) // 0x100 * 0x100
            if self.chance("overlap"):
                base = max(0, base - self.r.choice([4, 0x100, 0x200]))
            elif self.chance(0.2):
                base += 0x1000
            if self.chance("unaligned"):
                base += self.r.choice([1, 2, 3])
        pers = d["peripherals"]
        for e in pers:
            if self.chance("alt") and len(pers) > 1:
                t = self.pick(pers)
                if t is not e:
                    e["alternate_peripheral"] = t["name"]
                    if self.chance(0.7):
                        e["base_address"] = t["base_address"]
        if self.chance(0.35):
            self.r.shuffle(pers)
        self.derivations(d)
        self.shadows(d)
        self.twins(d)
        if self.chance("masses"):
            self.masses(d)
        if self.chance("ladder"):
            self.ladder(d)
        if self.chance("heap"):
            self.heap(d)
        if self.chance("altboth"):
            for e, _ in self.collect(d):
                t = self.base_of.get(id(e))
                if e["_"] == "register" and t is not None and e["derived_from"] is not None and self.chance(0.5):
                    x, y = (e, t) if self.chance(0.5) else (t, e)
                    x["alternate_group"], y["alternate_register"] = self.pick(["G1", "G2"]), self.pick(["Alpha", e["name"], t["name"]])
        if self.chance("coincide"):
            self.coincide(d)
        if self.chance("magnify"):
            self.magnify(d)
        bounded(d)
        return d

    def ladder(self, d):
        """elements of one name in several places, each derived from (what is made of) the one before"""
        els = self.collect(d)
        kind = self.pick(["register", "register", "cluster", "field", "peripheral"])
        if kind == "peripheral":
            places = [(d, [])] * self.r.randint(2, 5)
        else:
            want = ("register",) if kind == "field" else ("peripheral", "cluster")
            places = [(e, chain + [e]) for e, chain in els if e["_"] in want and e["fields" if kind == "field" else "registers_clusters"]
                      and all("%s" not in x["name"] for x in chain + [e])]
            self.r.shuffle(places)
            places = places[:self.r.randint(2, 5)]
        stem = self.uid("Ldr")
        dims = self.chance(0.75)
        mark = "[%s]" if kind == "peripheral" or kind != "field" and self.chance(0.5) else "%s"
        last, at = None, self.r.choice([0x400, 0x800])
        made = []
        for nth, (scope, chain) in enumerate(places):
            x = self.blank(kind)
            x["name"] = stem + (f"_{nth}" if kind == "peripheral" else "") + (mark if dims else "")
            if kind == "peripheral":
                x["base_address"] = 0x7000_0000 + 0x10000 * nth
            elif kind == "field":
                x["bit_offset"], x["bit_width"] = self.r.choice([24, 26, 28]), 1
            else:
                x["address_offset"] = at
            if dims:
                x["dim"], x["dim_increment"] = self.r.choice([1, 2, 3]), {"field": 1, "peripheral": 0x1000}.get(kind, 0x10)
            if last is not None:
                x["derived_from"] = last
            else:
                x["description"] = self.text()
                self.props(x, 1.0) if kind != "field" else None
                reg = self.blank("register")
                reg["name"], reg["address_offset"] = self.uid("Reg"), 0
                if kind in ("cluster", "peripheral"):
                    x["registers_clusters"] = [reg]
                if kind == "peripheral":
                    b = self.blank("addressBlock")
                    b["offset"], b["size"], b["usage"] = 0, 0x100, "registers"
                    x["address_blocks"] = [b]
            here = [y["name"] for y in chain] + [x["name"]]
            if dims:
                n = self.pick([0, x["dim"] - 1])
                here[-1] = here[-1].replace(mark, str(n)) if self.chance(0.85) else here[-1]
            last = ".".join(here)
            made.append((scope, x))
        for scope, x in made:
            lst = scope["peripherals" if x["_"] == "peripheral" else "fields" if x["_"] == "field" else "registers_clusters"]
            lst.insert(self.r.randint(0, len(lst)), x)

    def magnify(self, d):
        """some of the numbers get larger than usual"""
        places = []
        for e, _ in self.collect(d):
            if e["_"] == "peripheral":
                places += [(e, "base_address")] * 3 + [(x, "value") for x in e["interrupts"]]
                places += [(b, k) for b in e["address_blocks"] for k in ("offset", "size")]
            elif e["_"] in ("register", "cluster"):
                places += [(e, "address_offset")] * 2
            if e["_"] != "enumeratedValues":
                places += [(e, "dim_increment")] if e["dim"] is not None and e["_"] != "field" else []
                places += [(e["write_constraint"], "range_")] if e.get("write_constraint") else []
            if e["_"] in ("register", "cluster", "peripheral"):
                places += [(e, "reset_value"), (e, "reset_mask")]
        places += [(d, "reset_value"), (d, "reset_mask")]
        if d["cpu"]:
            places += [(d["cpu"], k) for k in ("nvic_prio_bits", "device_num_interrupts", "sau_num_regions")]
            if d["cpu"]["sau_regions_config"]:
                places += [(x, k) for x in d["cpu"]["sau_regions_config"]["regions"] for k in ("base", "limit")]
        for _ in range(self.r.choice([1, 2, 4])):
            e, key = self.pick(places)
            big = (1 << self.r.choice([16, 17, 24, 31, 32, 33, 40, 48, 53, 54, 63, 64, 65, 80])) + self.r.choice([0, 0, 4, -1, 0x100])
            if key in ("base_address", "address_offset", "dim_increment", "offset", "size") and self.chance(0.8):
                big &= ~3
            if key == "range_":
                if e[key] is not None:
                    e[key] = [e[key][0], e[key][1] + big]
            elif key in ("base_address", "address_offset") and self.chance(0.8):
                e[key] += big
            else:
                e[key] = big

    def heap(self, d):
        """hundreds of elements below one that others are derived from"""
        bases = {id(b) for b in self.base_of.values()}
        scopes = [e for e, _ in self.collect(d) if id(e) in bases and e["_"] in ("peripheral", "cluster")]
        if not scopes:
            return
        scope = self.pick(scopes)
        top = max([c["address_offset"] for c in scope["registers_clusters"]] + [0]) + 0x100
        for i in range(self.r.choice([50, 90, 130])):
            x = self.blank("register")
            x["name"], x["address_offset"], x["size"] = self.uid("Hp"), top + 4 * i, 32
            for k in range(self.r.choice([1, 1, 2])):
                f = self.blank("field")
                f["name"], f["bit_offset"], f["bit_width"] = self.uid("Hp"), 5 * k, 4
                c = self.blank("enumeratedValues")
                v = self.blank("enumeratedValue")
                v["name"], v["value"] = "On", str(i % 16)
                c["enumerated_values"] = [v]
                f["enumerated_value_containers"] = [c]
                x["fields"].append(f)
            scope["registers_clusters"].append(x)

    def masses(self, d):
        """many of one kind: where a list, a chain, a nest or a repetition is longer than usual"""
        els = [e for e, _ in self.collect(d)]
        scopes = [e for e in els if e["_"] in ("peripheral", "cluster") and e["registers_clusters"]]
        if not scopes:
            return
        scope = self.pick(scopes)
        lst = scope["registers_clusters"]
        top = max(c["address_offset"] for c in lst) + 0x100
        how = self.pick(["registers", "chain", "fields", "values", "interrupts", "blocks", "peripherals", "dim", "nest", "path"])
        n = self.r.choice([5, 7, 9, 12, 17, 33, 40])

        def register(i, base=None):
            r = self.blank("register")
            r["name"] = self.uid("Mas")
            r["address_offset"] = top + 8 * i
            r["description"] = f"number {i}"
            if base is not None:
                r["derived_from"] = base["name"]
                r["description"] = None
            return r

        if how in ("registers", "chain"):
            new = []
            for i in range(n):
                new.append(register(i, new[-1] if how == "chain" and new else None))
            if self.chance(0.7):
                self.r.shuffle(new)
            at = self.r.randint(0, len(lst))
            lst[at:at] = new
        elif how in ("fields", "values"):
            reg = register(0)
            reg["size"] = 64 if n > 32 else 32
            at = 0
            for i in range(n if how == "fields" else 1):
                f = self.blank("field")
                f["name"] = self.uid("Mas")
                f["bit_offset"], f["bit_width"] = at, 1 if how == "fields" else 7
                at += 1
                reg["fields"].append(f)
            if how == "values":
                c = self.blank("enumeratedValues")
                for v in self.r.sample(range(128), n):
                    e = self.blank("enumeratedValue")
                    e["name"] = self.uid("Val")
                    e["value"] = self.pick([str(v), hex(v), f"#{v:b}"])
                    e["description"] = self.text() if self.chance(0.3) else None
                    c["enumerated_values"].append(e)
                reg["fields"][0]["enumerated_value_containers"] = [c]
            self.r.shuffle(reg["fields"])
            lst.append(reg)
        elif how == "interrupts":
            per = self.pick(d["peripherals"])
            for i in range(n):
                x = self.blank("interrupt")
                x["name"], x["value"] = self.uid("IRQ"), self.r.randrange(2 * n)
                per["interrupts"].append(x)
        elif how == "blocks":
            pers = [p for p in d["peripherals"] if p["address_blocks"]]
            if not pers:
                return
            per = self.pick(pers)
            at = max(b["offset"] + b["size"] for b in per["address_blocks"])
            for i in range(min(n, 12)):
                b = self.blank("addressBlock")
                b["offset"], b["size"], b["usage"] = at, self.r.choice([4, 8, 0x20]), self.pick(spec.USAGE_AB)
                at += b["size"] + self.r.choice([0, 4])
                per["address_blocks"].append(b)
            self.r.shuffle(per["address_blocks"])
        elif how == "peripherals":
            base = max(p["base_address"] for p in d["peripherals"]) + 0x10000
            first = self.pick([p for p in d["peripherals"] if "%s" not in p["name"]] or d["peripherals"])
            chained = self.chance(0.5)
            new = []
            for i in range(min(n, 17)):
                p = self.blank("peripheral")
                p["name"] = self.uid("Mas")
                p["base_address"] = base + 0x10000 * i
                p["derived_from"] = (new[-1] if chained and new else first)["name"]
                new.append(p)
            if self.chance(0.7):
                self.r.shuffle(new)
            d["peripherals"] += new
        elif how == "dim":
            reg = register(0)
            reg["dim"] = self.r.choice([26, 27, 64, 100, 101, 130])
            reg["dim_increment"] = self.r.choice([4, 8])
            reg["name"] += self.pick(["%s", "[%s]"])
            lst.append(reg)
        else:
            inner = register(0)
            inner["address_offset"] = 0
            path = [inner["name"]]
            deep = self.r.randint(3, 9)
            x = inner
            for i in range(deep):
                c = self.blank("cluster")
                c["name"] = self.uid("Mas")
                c["address_offset"] = top if i == deep - 1 else self.r.choice([0, 4, 8])
                c["registers_clusters"] = [x]
                if self.chance(0.3):
                    c["access"] = self.pick(["read-only", "write-only", "read-write"])
                if self.chance(0.3):
                    c["reset_value"] = i
                path.insert(0, c["name"])
                x = c
            lst.append(x)
            if how == "path":
                heir = register(40)
                heir["description"] = None
                heir["derived_from"] = ".".join(path)
                lst.insert(self.r.randint(0, len(lst)), heir)

    def twins(self, d):
        """registers of one name, told apart by alternate groups, and registers derived from that name"""
        for e, chain in self.collect(d):
            lst = e.get("registers_clusters")
            if not lst or not self.chance("twins"):
                continue
            regs = [x for x in lst if x["_"] == "register" and "%s" not in x["name"]]
            if not regs:
                continue
            x = self.pick(regs)
            path = ".".join(self.ref_name(y) for y in chain + [e]) + "." + x["name"]
            if self.chance(0.6):
                x["alternate_group"] = None
            if self.chance(0.3):  # the group of the second of the name is inherited from a register of another name
                base, t, heir = self.blank("register"), self.blank("register"), self.blank("register")
                base["name"], t["name"], heir["name"] = self.uid("Twb"), x["name"], self.uid("Twh")
                for y, far in ((base, [x["address_offset"], 0x340]), (t, [x["address_offset"], 0x344]), (heir, [0x348, 0x34C])):
                    y["address_offset"] = self.pick(far)
                    self.props(y)
                base["alternate_group"] = self.pick(["G1", "G2", "G3"])
                base["description"], base["fields"] = self.text(), []
                t["derived_from"], heir["derived_from"] = base["name"], x["name"]
                for y in (base, t, heir):
                    lst.insert(self.r.randint(0, len(lst)), y)
            for g in self.r.sample(["G1", "G2", "G3"], self.r.choice([1, 1, 2, 3])) + ([None] if self.chance(0.6) else []):
                t = self.blank("register")
                t["name"] = x["name"] if g or self.chance(0.15) else self.uid("Twn")
                t["alternate_group"] = g
                t["address_offset"] = x["address_offset"] if g else self.r.choice([0x300, 0x304, 0x308])
                self.props(t)
                if self.chance(0.5 if g else 0.9):
                    t["derived_from"] = self.pick([x["name"], path])
                else:
                    t["description"] = self.text()
                    t["fields"] = []
                lst.insert(self.r.randint(0, len(lst)), t)
                if g and self.chance("dupname"):  # two of that group
                    again = dict(t, fields=[], address_offset=self.r.choice([t["address_offset"], 0x310, 0x314]))
                    lst.insert(self.r.randint(0, len(lst)), again)

    def shadows(self, d):
        """a derived element with a child named like the base of one of the children it inherits"""
        for e, chain in self.collect(d):
            t = self.base_of.get(id(e))
            if t is None or e["derived_from"] is None or not self.chance("shadow"):
                continue
            if e["_"] == "register":
                xs = [f for f in t["fields"] if "%s" not in f["name"] and f["derived_from"] is None]
                if not xs:
                    continue
                x = self.pick(xs)
                y, own = self.blank("field"), self.blank("field")
                for f, n in ((y, self.uid("Shd")), (own, x["name"])):
                    f["name"] = n
                    f["bit_offset"], f["bit_width"] = self.r.randrange(8, 28), 1
                y["derived_from"] = x["name"]
                t["fields"].insert(self.r.randint(0, len(t["fields"])), y)
            elif e["_"] in ("peripheral", "cluster"):
                xs = [c for c in t["registers_clusters"] if "%s" not in c["name"] and c["derived_from"] is None]
                if not xs:
                    continue
                x = self.pick(xs)
                path = x["name"]
                y, own = self.blank("register"), self.blank("register")
                inner = None
                if x["_"] == "cluster":
                    inner = [c for c in x["registers_clusters"] if c["_"] == "register" and "%s" not in c["name"]]
                    if not inner:
                        continue
                    inner = self.pick(inner)
                    path += "." + inner["name"]
                    own = self.blank("cluster")
                    again = self.blank("register")
                    again["name"] = inner["name"]
                    again["description"] = self.text()
                    again["address_offset"] = 4 * self.r.randrange(4)
                    own["registers_clusters"] = [again]
                elif self.chance(0.5):
                    x["alternate_group"] = self.pick(["G1", "G2"])
                elif self.chance("reserved"):
                    x["name"] = path = "Reserved"
                own["name"] = x["name"]
                own["description"] = self.text()
                own["address_offset"] = self.r.choice([0x40, 0x84, 0x200, x["address_offset"]])
                y["name"] = self.uid("Shd")
                y["derived_from"] = path
                y["address_offset"] = self.r.choice([0x60, 0x64, 0x220])
                t["registers_clusters"].insert(self.r.randint(0, len(t["registers_clusters"])), y)
            else:
                continue
            key = "fields" if e["_"] == "register" else "registers_clusters"
            e[key].insert(self.r.randint(0, len(e[key])), own)

    def coincide(self, d):
        """texts that happen to be the same as another text of the element"""
        for e, chain in self.collect(d):
            keys = [k for k in ("description", "display_name", "group_name", "header_struct_name", "header_enum_name", "version", "dim_name",
                                "alternate_group", "disable_condition", "prepend_to_name", "append_to_name") if e.get(k) is not None]
            for k in keys:
                if self.chance(0.3):
                    others = [x[a] for x in [e] + chain[-1:] for a in ("name", "description", "group_name") if x.get(a)]
                    if others:
                        t = self.pick(others).strip()
                        if "%s" not in t or (e.get("dim") is not None and t == e["name"]):
                            e[k] = t

    # ------------------------------------------------------------- derivedFrom
    def collect(self, d):
        out = []

        def rec(e, chain):
            out.append((e, chain))
            for k in ("registers_clusters", "fields", "enumerated_value_containers"):
                for c in e.get(k) or []:
                    rec(c, chain + [e])

        for per in d["peripherals"]:
            rec(per, [])
        return out

    def ref_name(self, e):
        """a name under which e can be referred to"""
        n = e["name"]
        if n is None or "%s" not in n or not e.get("dim"):
            return n
        if self.chance(0.45):
            return n
        from .refproc import dim_labels

        try:
            if "[%s]" in n:
                return n.replace("[%s]", str(self.r.randrange(e["dim"])))
            labels = dim_labels(e["dim"], e["dim_index"])
            return n.replace("%s", self.pick(labels))
        except Exception:
            return n

    def derivations(self, d):
        """choose bases level by level, outermost first, so that nothing chosen disappears or is renamed later"""
        self.base_of = {}
        pairs = []
        rank = {}
        levels = ["peripheral"] + [("cluster", i) for i in range(1, self.p["depth"] + 1)]
        levels += ["register", "field", "enumeratedValues"]
        mode = self.r.randrange(4)
        for level in levels:
            if level == "enumeratedValues":
                for e, _, t, _, _ in pairs:
                    if e["_"] == "field" and e["enumerated_value_containers"] and self.has_conts(t):
                        if self.chance(0.95):
                            e["enumerated_value_containers"] = []
            els = self.collect(d)
            order = list(range(len(els)))
            if mode < 2:
                self.r.shuffle(order)
            elif mode == 2:
                order.reverse()
            for (e, _), k in zip(els, order):
                rank.setdefault(id(e), k)
            kind, depth = level if isinstance(level, tuple) else (level, None)
            chosen = []
            for e, chain in els:
                if e["_"] != kind or (depth is not None and len(chain) != depth):
                    continue
                p = self.p["derive_conts"] if kind == "enumeratedValues" else self.p["derive"]
                if self.chance(p * (1.5 if kind == "peripheral" else 1.0)):
                    chosen.append((e, chain, self.strip(e)))
            live = self.collect(d)
            alive = {id(e) for e, _ in live}
            for e, chain, undo in chosen:
                if id(e) not in alive:
                    continue
                cands = [
                    (t, tc) for t, tc in live
                    if t["_"] == kind and t is not e and rank.get(id(t), 0) < rank[id(e)] and t["name"] is not None
                    and all(x is not t for x in chain) and all(x is not e for x in tc)
                ]
                if self.chance("chain"):
                    better = [(t, tc) for t, tc in cands if id(t) in self.base_of]
                    cands = better or cands
                if kind == "enumeratedValues" and len(chain[-1]["enumerated_value_containers"]) > 1:
                    if self.chance(0.95):
                        cands = [(t, tc) for t, tc in cands if self.usage(t) == (e["usage"] or "read-write")]
                same = [(x, xc) for x, xc in cands if xc and chain and xc[-1] is chain[-1]]
                if same and self.chance(0.5):
                    cands = same
                if not cands:
                    self.undo(e, undo)
                    continue
                t, tc = self.pick(cands)
                self.base_of[id(e)] = t
                pairs.append((e, chain, t, tc, self.loosen(e, t, chain[-1] if chain else None)))
        heirs = {}
        for e, chain, t, tc, _ in pairs:
            if len(chain) == len(tc) and all(x is y for x, y in zip(chain, tc)):
                heirs.setdefault(id(t), []).append(e)
        for e, chain, t, tc, whole in pairs:
            e["derived_from"] = self.path(e, chain, t, tc, whole, heirs)

    def path(self, e, chain, t, tc, whole, heirs):
        links = tc + [t]
        start = 0
        if e["_"] != "peripheral" and len(tc) >= len(chain) and all(x is y for x, y in zip(chain, tc)):
            if self.chance(0.7 if len(tc) == len(chain) else "nested_ref"):
                start = len(chain)
        names = []
        for i in range(start, len(links)):
            x = links[i]
            if i < len(links) - 1 and heirs.get(id(x)) and self.chance("inherited_ref"):
                h = self.pick(heirs[id(x)])
                if all(c is not h for c in chain):
                    x = h
            names.append(x["name"] if whole and x is t else self.ref_name(x))
        return ".".join(n or "?" for n in names)

    def strip(self, e):
        """before deriving: drop the children or rename them, so that they do not clash with the inherited ones"""
        key = {"peripheral": "registers_clusters", "cluster": "registers_clusters", "register": "fields"}.get(e["_"])
        if key is None or not e[key]:
            return None
        if self.chance(0.6):
            old, e[key] = e[key], []
            return key, old
        if key == "fields":
            hi = 20
            for f in e["fields"]:
                f["name"] = self.uid("Own") + ("%s" if "%s" in f["name"] else "")
                self.set_bits(f, hi, 1)
                f["enumerated_value_containers"] = []
                hi += 1 + ((f["dim"] or 1) - 1) * (f["dim_increment"] or 0)
            return None
        for c in e[key]:
            new = self.uid("Own") + ("[%s]" if "[%s]" in c["name"] else "%s" if "%s" in c["name"] else "")
            for x in e[key]:
                for k in ("alternate_register", "alternate_cluster"):
                    if x.get(k) == c["name"]:
                        x[k] = new
            c["name"] = new
            c["address_offset"] += 0x80 if e["_"] == "peripheral" else 0x40
        return None

    @staticmethod
    def undo(e, undo):
        if undo:
            e[undo[0]] = undo[1]

    def has_conts(self, f):
        seen = 0
        while f is not None and seen < 50:
            if f["enumerated_value_containers"]:
                return True
            f = self.base_of.get(id(f))
            seen += 1
        return False

    def usage(self, c):
        for _ in range(50):
            if id(c) not in self.base_of:
                break
            c = self.base_of[id(c)]
        return c["usage"] or "read-write"

    def bits(self, f, depth=0):
        """(lsb, msb, dim, increment) a field ends up with, as far as known now"""
        base = self.base_of.get(id(f))
        b = self.bits(base, depth + 1) if base is not None and depth < 50 else (None, None, None, None)
        blsb, bmsb = b[0], b[1]
        dim = f["dim"] if f["dim"] is not None else b[2]
        inc = f["dim_increment"] if f["dim_increment"] is not None else b[3]
        if "%s" not in f["name"]:
            dim = None
        if f["bit_range"]:
            hi, lo = [int(x) for x in f["bit_range"].strip("[]").split(":")]
            return min(lo, hi), max(lo, hi), dim, inc
        if f["bit_offset"] is not None or f["bit_width"] is not None:
            lo = f["bit_offset"] if f["bit_offset"] is not None else blsb
            if lo is None:
                return 0, 0, dim, inc
            w = f["bit_width"] if f["bit_width"] is not None else (bmsb - blsb + 1 if bmsb is not None else 1)
            return lo, lo + w - 1, dim, inc
        lo = f["lsb"] if f["lsb"] is not None else blsb
        hi = f["msb"] if f["msb"] is not None else bmsb
        return lo if lo is not None else 0, hi if hi is not None else 0, dim, inc

    def occupied(self, reg, but):
        out = []
        seen = 0
        while reg is not None and seen < 50:
            for f in reg["fields"]:
                if f is not but:
                    lo, hi, dim, inc = self.bits(f)
                    for i in range(dim or 1):
                        out.append((lo + i * (inc or 0), hi + i * (inc or 0)))
            reg = self.base_of.get(id(reg))
            seen += 1
        return out

    def place(self, e, t, reg):
        """bit position of a derived field: own, or partly the base's, where nothing else is"""
        taken = self.occupied(reg, e)
        self.base_of[id(e)] = t
        lo, hi, dim, inc = self.bits(t)
        tdim = e["dim"] if e["dim"] is not None else dim if "%s" in e["name"] else None
        tinc = e["dim_increment"] if e["dim_increment"] is not None else inc

        def free():
            a, b, n, step = self.bits(e)
            if b < a or b - a > 11:
                return False
            mine = [(a + i * (step or 0), b + i * (step or 0)) for i in range(n or 1)]
            return all(y < u or v < x for x, y in mine for u, v in taken + mine[:0]) and all(
                y < mine[j][0] or mine[j][1] < x for i, (x, y) in enumerate(mine) for j in range(i))

        def clear():
            for k in ("bit_offset", "bit_width", "lsb", "msb", "bit_range"):
                e[k] = None

        if self.chance("partialbits"):
            for k in self.r.sample(range(5), 5):
                clear()
                if k == 0:
                    e["bit_width"] = self.r.choice([1, 2, 3])
                elif k == 1:
                    e["msb"] = lo + self.r.randrange(0, 4)
                elif k == 2:
                    e["lsb"] = max(0, hi - self.r.randrange(0, 4))
                elif k == 3:
                    e["bit_offset"] = max([v for _, v in taken] + [-1]) + 1
                else:
                    e["lsb"], e["msb"] = lo, hi
                if free():
                    return
        if not any(e[k] is not None for k in ("bit_offset", "lsb", "bit_range")) or not free():
            top = max([v for _, v in taken] + [-1]) + 1
            clear()
            width = self.r.choice([1, 2, hi - lo + 1])
            if tdim and tdim > 1 and tinc:
                width = min(width, tinc)
            self.set_bits(e, top, max(1, width))

    def loosen(self, e, t, reg=None):
        """a derived element usually leaves most things to its base; true: the path has to name the dim template"""
        kind = e["_"]
        keep = {"name", "derived_from", "_", "address_offset", "base_address", "dim", "dim_increment", "dim_index"}
        if kind == "enumeratedValues":
            if not self.chance("ownvals"):
                e["enumerated_values"] = []
            return False
        whole = False
        if e["dim"] is None and t.get("dim") is not None and kind != "peripheral" and "%s" not in e["name"]:
            if self.chance("dimheir"):
                # take the dimension over from the base: the own name needs the marker, the base must be the template
                e["name"] += "[%s]" if "[%s]" in t["name"] and kind != "field" else "%s"
                if kind == "register":
                    e["display_name"] = None
                whole = True
        for carrier, _, attr, reader, presence in TABLE[kind]:
            if attr in keep or presence == "m" or carrier in ("many", "wrapped"):
                continue
            if attr in ("bit_offset", "bit_width", "lsb", "msb", "bit_range"):
                continue
            if e[attr] is not None and self.chance(0.5):
                e[attr] = None
        if kind == "peripheral" and self.chance(0.5):
            e["address_blocks"] = []
        if kind == "field":
            self.place(e, t, reg)
        return whole


# ----------------------------------------------------------------------------- writing it down
def write_number(val, r, kind, fancy):
    if r.random() >= fancy:
        return f"0x{val:X}" if kind == "hex" else str(val)
    k = r.randrange(8)
    if k == 0:
        return f"0x{val:08x}"
    if k == 1:
        return f"0X{val:x}"
    if k == 2:
        return f"0b{val:b}"
    if k == 3:
        return f"#{val:b}"
    if k == 4:
        return f"00{val}"
    if k == 5:
        return f"+{val}"
    if k == 6:
        return f"0x{val:X}"
    return str(val)


def write_bool(val, r, fancy):
    if r.random() >= fancy:
        return "true" if val else "false"
    return r.choice(["true", "1", "True", "TRUE"] if val else ["false", "0", "False", "FALSE"])


def write_enum(reader, val, r, fancy):
    if reader == "access" and r.random() < fancy:
        if val == "read-only" and r.random() < 0.4:
            return r.choice(["read", "READ"])
        if val == "write-only" and r.random() < 0.4:
            return r.choice(["write", "Write"])
        return r.choice([val, val.upper(), val.lower(), val.title()])
    if reader == "cpuname" and r.random() < fancy and val != "CM0+":
        return r.choice([val, val.lower(), val.upper()])
    return val


def write_doc(d, r, fancy=0.0, pad=0.0, shuffle=0.0, split=0.0, unknown=0.0, dup=0.0):
    """plain dict -> document, with varying notation.

    fancy: number/boolean/enum notations; pad: whitespace around texts; shuffle: order of child elements of different
    kinds; split: several <fields>/<registers> wrappers; unknown: elements SVD does not define; dup: repeated leaves"""
    kind = d["_"]
    attrs = {}
    groups = []  # list of lists of nodes; order inside a group is meaningful
    for carrier, xml, attr, reader, _ in spec.TABLE[kind]:
        val = d.get(attr)
        if val is None:
            continue
        if carrier in ("a", "e", "r"):
            if reader == "bool":
                text = write_bool(val, r, fancy)
            elif reader in ("int", "hex"):
                text = write_number(val, r, reader, fancy)
            elif reader == "str":
                text = val
            else:
                text = write_enum(reader, val, r, fancy)
            if carrier != "r" and pad and r.random() < pad and text:
                text = r.choice(["  ", "\n    ", "\t"]) + text + r.choice(["", " ", "\n  "])
            if carrier == "a":
                attrs[xml] = text
            else:
                nodes = [L(xml, text)]
                if dup and r.random() < dup and text:
                    nodes.insert(0, L(xml, "first"))
                groups.append(nodes)
        elif carrier == "one":
            groups.append([write_doc(val, r, fancy, pad, shuffle, split, unknown, dup)])
        elif carrier == "many":
            nodes = [write_doc(v, r, fancy, pad, shuffle, split, unknown, dup) for v in val]
            groups.append(nodes)
        elif carrier == "wrapped":
            nodes = [write_doc(v, r, fancy, pad, shuffle, split, unknown, dup) for v in val]
            if not nodes:
                if xml[0] == "peripherals" or r.random() < 0.05:
                    groups.append([N(xml[0])])
                continue
            if split and xml[0] != "peripherals" and len(nodes) > 1 and r.random() < split:
                cut = r.randrange(1, len(nodes))
                groups.append([N(xml[0], *nodes[:cut]), N(xml[0], *nodes[cut:])])
            else:
                groups.append([N(xml[0], *nodes)])
        elif carrier == "range":
            pair = [L("minimum", write_number(val[0], r, "int", fancy)), L("maximum", write_number(val[1], r, "int", fancy))]
            if shuffle and r.random() < shuffle:
                pair.reverse()
            groups.append([N("range", *pair)])
    if unknown and r.random() < unknown:
        groups.append([N("vendorExtensions", L("name", "nope"), L("size", "8"))])
    if unknown and r.random() < unknown:
        attrs["custom"] = "1"
    if shuffle and r.random() < shuffle:
        r.shuffle(groups)
        # interleave: keep the order inside every group
        if r.random() < 0.5:
            flat = []
            pools = [list(g) for g in groups if g]
            while pools:
                g = r.choice(pools)
                flat.append(g.pop(0))
                pools = [p for p in pools if p]
            groups = [flat]
    return N(kind, *[n for g in groups for n in g], attrs=attrs)


# ----------------------------------------------------------------------------- anything the tables allow
WORDS = ["A", "REG0", "Timer_1", "x", "Über", "名前", "a b", "P->Q & <R>", "'q'", '"dq"', "0", "None", "%s", "REG[%s]",
         "R%s", "A,B,C", "0-3", "true", "1.2.3", "_", "-", "a.b.c", "l\u00a0l", "\U0001F600", "#1", "0x", "]]>", "&amp;"]
RAWS = WORDS + ["  leading", "trailing \n", "two\n   lines", "\ttab", " ", "\n"]
BITRANGES = ["[7:0]", "[0:0]", "[31:16]", "[3:5]", "[ 3 : 1 ]", "3..1"]


def any_value(r, reader, carrier):
    if reader == "str":
        return r.choice(RAWS if carrier == "r" else WORDS)
    if reader in ("int", "hex"):
        k = r.randrange(5)
        return [0, r.randrange(10), r.randrange(1 << 16), r.randrange(1 << 32), r.randrange(1 << 64)][k]
    if reader == "bool":
        return r.random() < 0.5
    return r.choice(spec.ENUMS[reader])


def any_element(r, kind, p, depth, lists=2):
    """a plain dict with every optional thing stated with probability p, no matter whether it makes sense"""
    d = {"_": kind}
    for carrier, xml, attr, reader, presence in TABLE[kind]:
        if carrier in ("a", "e", "r"):
            stated = presence == "m" or isinstance(presence, tuple) or r.random() < p
            d[attr] = any_value(r, reader, carrier) if stated else None
            if attr == "bit_range" and d[attr] is not None and r.random() < 0.8:
                d[attr] = r.choice(BITRANGES)
        elif carrier == "one":
            d[attr] = any_element(r, reader, p, depth, lists) if r.random() < p else None
        elif carrier == "range":
            d[attr] = [any_value(r, "int", "e"), any_value(r, "int", "e")] if r.random() < p else None
        else:
            kinds = xml[1] if carrier == "wrapped" else xml
            kinds = (kinds,) if isinstance(kinds, str) else kinds
            out = []
            for _ in range(r.randint(1 if kind == "device" else 0, lists)):
                k = r.choice(kinds)
                if k == "cluster":
                    if depth <= 0:
                        k = "register"
                out.append(any_element(r, k, p, depth - (k == "cluster"), lists))
            d[attr] = out
    return d


def any_device(r, p=None, depth=2, lists=2):
    d = any_element(r, "device", p if p is not None else r.choice([0.1, 0.3, 0.6, 0.9]), depth, lists)
    if r.random() < 0.1:
        many(r, d)
    return d


def many(r, d):
    """one list of the device gets long, or one nest deep"""
    lists = []

    def rec(e):
        for carrier, xml, attr, reader, presence in TABLE[e["_"]]:
            if carrier == "one":
                if e[attr] is not None:
                    rec(e[attr])
            elif carrier in ("many", "wrapped"):
                kinds = xml[1] if carrier == "wrapped" else xml
                kinds = (kinds,) if isinstance(kinds, str) else kinds
                lists.append((e[attr], kinds))
                for x in e[attr]:
                    rec(x)

    rec(d)
    kind = r.choice(sorted({k for _, k in lists}))
    lst = r.choice([x for x, k in lists if k == kind])
    p = r.choice([0.05, 0.3])
    if "cluster" in kind and r.random() < 0.4:
        for _ in range(r.randint(3, 12)):
            c = any_element(r, "cluster", p, 0, 1)
            lst.append(c)
            lst = c["registers_clusters"]
        return
    for _ in range(r.choice([3, 5, 9, 17, 30, 65])):
        lst.insert(r.randint(0, len(lst)), any_element(r, r.choice(kind), p, 0, 1 if r.random() < 0.2 else 0))


def any_style(r):
    return {"indent": r.randrange(2), "seed": r.randrange(1 << 30), "comments": r.choice([0, 0, 10, 40]),
            "cdata": r.choice([0, 0, 15, 60]), "single": r.randrange(2), "charrefs": r.choice([0, 0, 30]), "intext": r.choice([0, 0, 0, 5, 30]), "entities": r.choice([0, 0, 0, 0, 10, 40]),
            "revattrs": r.randrange(2), "attrnl": r.randrange(2), "longempty": r.randrange(2),
            "decl": r.random() < 0.8, "prefix": r.choice(["xs", "xs", "xsi", "xsi", "i", "ns0"]),
            "namespaces": r.choice([{}, {}, {"xs": "http://www.w3.org/2001/XMLSchema"}, {"xsi": "http://www.w3.org/2001/XMLSchema"},
                                    {"v": "urn:vendor", "xs": "urn:vendor"}, {"xs": xmlast.XS, "xsi": xmlast.XS}])}
