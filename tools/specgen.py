"""C31: extend the shipped specification at random, in the forms it already uses, and write down for the monitor what
the extension says (harness/src/extra.rs). Codes are single bytes of domain 0, as in the shipped specification."""
import json, random

WORDS = """alpha beta gamma delta epsilon zeta kappa lambda sigma omega north south east west amber coral ivory jade
onyx pearl ruby topaz maple cedar birch aspen willow otter badger heron falcon raven lynx bison route ticket ledger
voucher quota lease grant tenant shard replica epoch cursor offset window margin budget weight level grade score label
owner origin peer hop relay bridge gate valve meter probe trace span batch chunk piece slice page leaf root stem""".split()

PRIM = {  # type: (Ty, D constructor, bits)
    "boolean": ("Bool", "B", 1), "ubyte": ("Ubyte", "U8", 8), "ushort": ("Ushort", "U16", 16),
    "uint": ("Uint", "U32", 32), "ulong": ("Ulong", "U64", 64),
}
ALIASES = {"handle": "uint", "seconds": "uint", "milliseconds": "uint", "sequence-no": "uint", "delivery-number": "uint",
           "transfer-number": "uint", "message-format": "uint"}
OLD_ENUMS = {"role": "ROLE", "sender-settle-mode": "SND", "receiver-settle-mode": "RCV", "sasl-code": "SASLCODE",
             "terminus-durability": "DURAB", "terminus-expiry-policy": "EXPIRY"}
OLD_COMPS = {"error": "ERROR", "received": "RECEIVED", "modified": "MODIFIED", "target": "TARGET", "accepted": "ACCEPTED"}
PLAIN = [("string", "Str"), ("symbol", "Sym"), ("binary", "Bin"), ("timestamp", "Ts"), ("fields", "Fields"), ("map", "AnyMap"),
         ("delivery-tag", "Bin"), ("node-properties", "Fields"), ("filter-set", "Filter")]
REQUIRED = [("address", "Ty::Str"), ("message-id", "Ty::MsgId"), ("error-condition", "Ty::ErrCond"),
            ("distribution-mode", "Ty::DistMode"), ("outcome", "Ty::OneOf(OUTCOMES)"), ("delivery-state", "Ty::OneOf(STATES)"),
            ("source", "Ty::Comp(&SOURCE)"), ("target", "Ty::Comp(&TARGET)")]
RESTRICTED = {"annotations": "SymMap", "string-variant-map": "StrMap", "binary": "Bin", "list": "List", "*": "Any"}


def camel(s):
    return "".join(w[:1].upper() + w[1:] for w in s.split("-"))


def snake(s):
    return {"type": "type_", "return": "return_"}.get(s, s.replace("-", "_"))


class Gen:
    def __init__(self, base, seed):
        self.r = random.Random("specgen-%d" % seed)
        self.base = base
        self.names = {t["name"] for t in base}
        for t in base:
            for x in (t.get("provides") or "").split(","):
                self.names.add(x.strip())
        self.camels = {camel(n).lower() for n in self.names}
        self.codes = {int(t["descriptor"]["code"].split(":")[1], 16) for t in base if "descriptor" in t}
        self.free = [c for c in range(1, 256) if c not in self.codes]
        self.r.shuffle(self.free)
        self.syms = {t["descriptor"]["name"] for t in base if "descriptor" in t}
        self.types, self.rs = [], []
        self.aliases = dict(ALIASES)
        self.enums = {}   # name: (rust static, source, [(choice, value)])
        self.comps = {}   # name: dict
        self.restricted = {}
        self.group_members = {}

    def name(self, lo=1, hi=3):
        while True:
            n = self.words(lo, hi)
            # generated items are told apart by their camel-cased names; plurals name multiples
            if camel(n).lower() not in self.camels and camel(n).lower() + "s" not in self.camels:
                self.camels.add(camel(n).lower())
                self.names.add(n)
                return n

    def words(self, lo, hi):
        n = "-".join(self.r.choice(WORDS) for _ in range(self.r.randint(lo, hi)))
        if self.r.random() < .15:
            n += self.r.choice(["", "-"][:1 if lo == hi else 2]) + str(self.r.randint(0, 99))
        return n

    def symbol(self, n, kind):
        pre = self.r.choice(["amqp", "amqp", "com.example", "x"])
        s = "%s:%s:%s" % (pre, n, kind)
        if self.r.random() < .25 and self.comps:
            # almost the symbol of another type
            o = self.r.choice(sorted(self.comps.values(), key=lambda c: c["sym"]))["sym"]
            s = self.r.choice([o + "s", o[:-1], o + ":list"])
        if s in self.syms:
            s = "y:%s:%d:%s" % (n, len(self.syms), kind)
        self.syms.add(s)
        return s

    # ---------------------------------------------------------------- items

    def alias(self):
        n = self.name()
        src = self.r.choice(["uint", "ulong", "ushort", "ubyte", "boolean"] + sorted(self.aliases))
        self.types.append({"name": n, "class": "restricted", "source": src})
        self.aliases[n] = self.aliases.get(src, src)

    def enum(self, source=None):
        n = self.name()
        src = source or self.r.choice(["boolean", "ubyte", "ubyte", "ushort", "uint", "uint", "ulong", "symbol", "symbol"])
        k = 2 if src == "boolean" else self.r.choice([1, 2, 3, 5, 9, 20])
        choices, seen = [], set()
        for _ in range(k):
            while True:
                c = "-".join(self.r.choice(WORDS) for _ in range(self.r.randint(1, 3)))
                if self.r.random() < .1:
                    c = self.r.choice(["none", "ok", "some", "err", "type", "self-test", "default"])
                if camel(c).lower() not in seen:
                    seen.add(camel(c).lower())
                    break
            choices.append(c)
        if src == "boolean":
            vals = ["true", "false"]
            self.r.shuffle(vals)
        elif src == "symbol":
            vals = []
            for c in choices:
                v = self.r.choice([c, n + ":" + c, "amqp:" + c, c.replace("-", "_"), c + "-" * self.r.choice([1, 7, 60, 200])])
                if vals and self.r.random() < .3:
                    v = self.r.choice(vals) + self.r.choice(["x", "-", ":a", ".b", "_c"])
                while v in vals:
                    v += "z"
                vals.append(v[:240] if v[:240] not in vals else v[:230] + str(len(vals)))
        else:
            top = 2 ** PRIM[src][2] - 1
            pool = set([0, 1, 2, 3, 127, 128, 254, 255, 256, 65535, 65536, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 63, top])
            pool |= {self.r.randint(0, top) for _ in range(20)} | {self.r.randint(0, 255) for _ in range(10)}
            vals = [str(v) for v in self.r.sample(sorted(x for x in pool if x <= top), k)]
        t = {"name": n, "class": "restricted", "source": src,
             "choice": [{"name": c, "value": v} for c, v in zip(choices, vals)]}
        self.types.append(t)
        st = "XE%d" % len(self.enums)
        self.enums[n] = (st, src, list(zip(choices, vals)))
        sfx = {"ubyte": "u8", "ushort": "u16", "uint": "u32", "ulong": "u64", "boolean": ""}

        def lit(v):
            return json.dumps(v) if src == "symbol" else v + sfx[src]
        vv = {"symbol": "S", "boolean": "B", "ubyte": "U8", "ushort": "U16", "uint": "U32", "ulong": "U64"}[src]
        rv = {"symbol": "Sym", "boolean": "Bool"}.get(src, vv)
        self.rs.append("static %s: En = En { name: %s, vals: &[%s] };" % (
            st, json.dumps(camel(n)), ", ".join("V::%s(%s)" % (vv, lit(v)) for v in vals)))
        self.rs.append("en!(%s, %s, [%s]);" % (camel(n), rv, ", ".join("%s = %s" % (camel(c), lit(v)) for c, v in zip(choices, vals))))
        return n

    def enum_default(self, src, choices):
        c, v = self.r.choice(choices)
        d = {"symbol": "D::S(%s)" % json.dumps(v), "boolean": "D::B(%s)" % v}.get(src)
        return c, d or "D::%s(%s)" % (PRIM[src][1], v)

    def fname(self, used):
        while True:
            n = self.words(1, 4)
            if self.r.random() < .06:
                n = self.r.choice(["type", "return"])
            if snake(n) not in used:
                used.add(snake(n))
                return n

    def corner_fields(self):
        """every kind of field, mandatory, optional and with every kind of default"""
        prims, enums, rest = [], [], []
        for t, (ty, dc, bits) in sorted(PRIM.items()):
            ds = ["true", "false"] if bits == 1 else [str(x) for x in sorted({0, 1, 4, 2 ** (bits - 1), 2 ** bits - 1})]
            for d in [None, "!"] + ds:
                prims.append((t, "Ty::" + ty, d, d and "D::%s(%s)" % (dc, d), {}))
        for e, (st, src, choices) in sorted(self.enums.items()):
            c, dtxt = self.enum_default(src, choices)
            enums += [(e, "Ty::En(&%s)" % st, None, None, {}), (e, "Ty::En(&%s)" % st, "!", None, {}), (e, "Ty::En(&%s)" % st, c, dtxt, {})]
        for t, ty in PLAIN:
            rest += [(t, "Ty::" + ty, None, None, {}), (t, "Ty::" + ty, "!", None, {})]
        for t, ty in REQUIRED:
            for d in (None, "!"):
                rest.append(("symbol" if t in ("error-condition", "distribution-mode") else "*", ty, d, None, {"requires": t}))
        for t in ("symbol", "ietf-language-tag"):
            for d in (None, "!"):
                rest.append((t, "Ty::MultiSym", d, None, {"multiple": "true"}))
        for c, st in sorted(OLD_COMPS.items()):
            rest += [(c, "Ty::Comp(&%s)" % st, None, None, {}), (c, "Ty::Comp(&%s)" % st, "!", None, {})]
        for x in (prims, enums, rest):
            self.r.shuffle(x)
        half = len(rest) // 2
        for kinds in (prims, enums, rest[:half], rest[half:]):
            used, fields, rf = set(), [], []
            for t, ty, d, dtxt, more in kinds:
                f = dict({"name": self.fname(used), "type": t}, **more)
                if d == "!":
                    f["mandatory"] = "true"
                elif d is not None:
                    f["default"] = d
                fields.append(f)
                rf.append('("%s", %s, %s)' % (snake(f["name"]), ty, "D::Req" if d == "!" else "D::Opt" if d is None else dtxt))
            yield fields, rf

    def field(self, used):
        r = self.r
        f = {"name": self.fname(used)}
        n = f["name"]
        k = r.random()
        default = None
        if k < .30:
            t = r.choice(sorted(PRIM))
            ty, dc, bits = PRIM[t]
            f["type"] = t
            default = (["true", "false"][r.getrandbits(1)] if bits == 1
                       else str(r.choice([0, 1, 127, 255, 2 ** bits - 1, 2 ** (bits - 1), r.getrandbits(bits)])))
            dtxt = "D::%s(%s)" % (dc, default)
            ty = "Ty::" + ty
        elif k < .42:
            a = r.choice(sorted(self.aliases))
            ty, dc, bits = PRIM[self.aliases[a]]
            f["type"] = a
            default = ["true", "false"][r.getrandbits(1)] if bits == 1 else str(r.getrandbits(r.randint(1, bits)))
            dtxt = "D::%s(%s)" % (dc, default)
            ty = "Ty::" + ty
        elif k < .56:
            if self.enums and r.random() < .8:
                e = r.choice(sorted(self.enums))
                st, src, choices = self.enums[e]
                default, dtxt = self.enum_default(src, choices)
            else:
                e = r.choice(sorted(OLD_ENUMS))
                st = OLD_ENUMS[e]
                t = [x for x in self.base if x["name"] == e][0]
                default, dtxt = self.enum_default(t["source"], [(c["name"], c["value"]) for c in t["choice"]])
            f["type"] = e
            ty = "Ty::En(&%s)" % st
        elif k < .72:
            f["type"], ty = r.choice(PLAIN)
            ty = "Ty::" + ty
        elif k < .80:
            f["type"] = r.choice(["symbol", "symbol", "ietf-language-tag"])
            f["multiple"] = "true"
            ty = "Ty::MultiSym"
        elif k < .90:
            f["requires"], ty = r.choice(REQUIRED)
            f["type"] = "symbol" if f["requires"] in ("error-condition", "distribution-mode") else "*"
        else:
            if self.comps and r.random() < .7:
                c = r.choice(sorted(self.comps))
                if self.comps[c]["depth"] < 2 and len(self.comps[c]["fields"]) < 20:
                    f["type"], ty = c, "Ty::Comp(&%s)" % self.comps[c]["static"]
            if "type" not in f:
                c = r.choice(sorted(OLD_COMPS))
                f["type"], ty = c, "Ty::Comp(&%s)" % OLD_COMPS[c]
        k = r.random()
        if default is not None and k < .4:
            f["default"] = default
            if r.random() < .3:
                f["mandatory"] = "false"
            d = dtxt
        elif k < .65:
            f["mandatory"] = "true"
            d = "D::Req"
        else:
            if r.random() < .2:
                f["mandatory"] = "false"
            d = "D::Opt"
        if f.get("multiple") is None and r.random() < .1:
            f["multiple"] = "false"
        return f, '("%s", %s, %s)' % (snake(n), ty, d)

    def comp(self, count=None, wide=False, given=None):
        r = self.r
        n = self.name()
        sym = self.symbol(n, "list")
        code = self.free.pop()
        if count is None:
            count = r.choice([0, 1, 1, 2, 3, 4, 6, 8, 12, 20])
        used, fields, rf = set(), [], []
        if given:
            fields, rf = given
            count = 0
        for i in range(count):
            if wide:
                # more fields than a one-byte count can tell
                f, x = {"name": "f-%d" % i, "type": "boolean"}, '("f_%d", Ty::Bool, D::Opt)' % i
                if i % 7 == 3:
                    f["default"], x = "true", '("f_%d", Ty::Bool, D::B(true))' % i
                if i % 11 == 5:
                    f["type"], x = "uint", '("f_%d", Ty::Uint, D::Opt)' % i
                    f.pop("default", None)
            else:
                f, x = self.field(used)
            fields.append(f)
            rf.append(x)
        depth = 0
        for f in fields:
            if f["type"] in self.comps:
                depth = max(depth, self.comps[f["type"]]["depth"] + 1)
        t = {"name": n, "class": "composite", "source": "list", "descriptor": {"name": sym, "code": "0x00000000:0x%08x" % code}}
        if fields or r.random() < .5:
            t["field"] = fields
        st = "XC%d" % len(self.comps)
        self.comps[n] = dict(static=st, code=code, sym=sym, fields=fields, depth=depth, spec=t)
        self.types.append(t)
        self.rs.append("static %s: Comp = Comp { name: %s, code: %#x, sym: %s, fields: &[%s] };" % (
            st, json.dumps(camel(n)), code, json.dumps(sym), ", ".join("F" + x for x in rf)))
        self.rs.append("comp!(%s, %#x, [%s]);" % (camel(n), code, ", ".join(snake(f["name"]) for f in fields)))
        return n

    def restrict(self, src):
        n = self.name()
        code, sym = self.free.pop(), self.symbol(n, src)
        t = {"name": n, "class": "restricted", "source": src, "descriptor": {"name": sym, "code": "0x00000000:0x%08x" % code}}
        self.restricted[n] = dict(code=code, sym=sym, kind=RESTRICTED[src], spec=t)
        self.types.append(t)
        return n

    def provide(self, t, g):
        have = t.get("provides")
        t["provides"] = g if not have else have + self.r.choice([",", ", "]) + g

    def group(self, comps, restricted):
        g = self.name()
        for c in comps:
            self.provide(self.comps[c]["spec"], g)
        for c in restricted:
            self.provide(self.restricted[c]["spec"], g)
        self.group_members[g] = (comps, restricted)

    def run(self):
        r = self.r
        for _ in range(4):
            self.alias()
        for s in ("boolean", "ubyte", "ushort", "uint", "ulong", "symbol"):
            self.enum(s)
        for _ in range(4):
            self.enum()
        self.comp(0)
        for k in list(self.corner_fields()):
            self.comp(given=k)
        for _ in range(12):
            self.comp()
        self.comp(270, wide=True)
        res = [self.restrict(s) for s in RESTRICTED] + [self.restrict(r.choice(sorted(RESTRICTED))) for _ in range(2)]
        names = [c for c in sorted(self.comps)]
        r.shuffle(names)
        self.group(names[:2], [])
        self.group(names[1:7], [])
        self.group([], res[:4])
        self.group(names[6:9], res[3:])
        self.group([names[6]] + names[11:13], [])
        # provided by one type only: no group arises
        for c in names[9:11]:
            self.provide(self.comps[c]["spec"], c)
        self.provide(self.comps[names[11]]["spec"], self.name())
        for g, (cs, rs) in sorted(self.group_members.items()):
            self.rs.append("group!(%s, [%s], [%s]);" % (
                camel(g), ", ".join("%s = %#x" % (camel(c), self.comps[c]["code"]) for c in cs),
                ", ".join("%s = %#x" % (camel(c), self.restricted[c]["code"]) for c in rs)))
        types = self.base + self.types
        r.shuffle(types)
        return types, self.rust()

    def rust(self):
        o = ["//! written by tools/specgen.py", "#![allow(dead_code, unused_variables, unused_imports, clippy::all)]",
             "use amqp_codec::protocol as p;", "use crate::conv::*;", "use crate::p::comps::{en_t, ops, EnT, Ops};",
             "use crate::p::extend::{group, Group, Kind, Member};", "use crate::rval::R;", "use crate::spec::*;", ""]
        o += self.rs
        o.append("pub fn comps() -> Vec<Ops> { vec![%s] }" % ", ".join(
            "ops::<p::%s>(&%s)" % (camel(n), c["static"]) for n, c in self.comps.items()))
        o.append("pub fn enums() -> Vec<EnT> { vec![%s] }" % ", ".join(
            "en_t::<p::%s>(&%s)" % (camel(n), e[0]) for n, e in self.enums.items()))
        gs = []
        for g, (cs, rs) in sorted(self.group_members.items()):
            ms = ["Member::Comp(&%s)" % self.comps[c]["static"] for c in cs]
            ms += ["Member::Value(%s, %#x, %s, Kind::%s)" % (json.dumps(camel(c)), self.restricted[c]["code"],
                                                          json.dumps(self.restricted[c]["sym"]), self.restricted[c]["kind"]) for c in rs]
            gs.append("group::<p::%s>(%s, vec![%s])" % (camel(g), json.dumps(camel(g)), ", ".join(ms)))
        o.append("pub fn groups() -> Vec<Group> { vec![%s] }" % ", ".join(gs))
        return "\n".join(o) + "\n"


def extend(base, seed):
    """(types of the extended specification, text of extra.rs, what it holds)"""
    g = Gen(base, seed)
    types, rs = g.run()
    what = dict(types=len(types), added=len(g.types), composites=len(g.comps), enums=len(g.enums), groups=len(g.group_members),
                fields=sum(len(c["fields"]) for c in g.comps.values()))
    return types, rs, what


if __name__ == "__main__":
    import sys
    t, rs, what = extend(json.load(open("/repo/codegen/specification.json")), int(sys.argv[1]))
    open(sys.argv[2], "w").write(json.dumps(t, indent=1))
    open(sys.argv[3], "w").write(rs)
    print(what)
