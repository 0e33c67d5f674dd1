"""Rust values during symbolic execution, and the Rust type -> sort mapping."""
import z3
from core import *
import core

class Agg:
    """a struct/tuple/enum/closure value with known variant"""
    __slots__ = ("ty", "v", "f")
    def __init__(self, ty, v, f): self.ty = ty; self.v = v; self.f = tuple(f)
    def __repr__(self): return f"Agg<{self.ty.name[-40:]}>{self.v}{list(self.f)}"
class Ref:
    __slots__ = ("cell", "path")
    def __init__(self, cell, path=()): self.cell = cell; self.path = tuple(path)
    def __repr__(self): return f"&{self.cell}{list(self.path)}"
class FnV:
    __slots__ = ("ty",)
    def __init__(self, ty): self.ty = ty
class BV:
    """byte array under construction: contiguous (length, term) pieces"""
    __slots__ = ("p",)
    def __init__(self, p): self.p = tuple(p)
    def term(self): return cat(*[t for _, t in self.p])
class Eng:
    """hash engine: algorithm/tag + absorbed bytes"""
    __slots__ = ("tag", "b")
    def __init__(self, tag, b=EMPTY): self.tag = tag; self.b = b
    def __repr__(self): return f"Eng({self.tag},{self.b})"
class Opaque:
    """an external value the engine only passes around (context objects, formatters...)"""
    __slots__ = ("name",)
    def __init__(self, name): self.name = name
class BoxU:
    """box under construction (vec![..]): its contents live in a cell"""
    __slots__ = ("cell",)
    def __init__(self, cell): self.cell = cell
class Poison:
    __slots__ = ("why",)
    def __init__(self, why=""): self.why = why

HASHNT = {"Txid", "Wtxid", "BlockHash", "TxMerkleNode", "PubkeyHash", "WPubkeyHash", "ScriptHash", "WScriptHash", "TapNodeHash", "TapTweakHash", "TapLeafHash", "FilterHash", "FilterHeader", "Hash", "WitnessMerkleNode", "WitnessCommitment", "TapSighash", "Fingerprint", "ChainCode"}
REALT = {("secp256k1", n) for n in ("PublicKey", "SecretKey", "Scalar", "XOnlyPublicKey", "Keypair")} | {("bitcoin", "TweakedPublicKey"), ("bitcoin", "TweakedKeypair")}
TRANSP = {("bitcoin", n) for n in ("TxIn", "TxOut", "OutPoint", "Transaction", "Block", "Header", "Input", "Output", "Psbt", "ProprietaryKey", "PrivateKey", "PublicKey", "Key", "Network", "NetworkKind", "TapTree", "Xpriv", "PsbtSighashType", "KeyRequest", "Signature", "Prevouts", "TapSighashType", "EcdsaSighashType", "WitnessVersion")} | {("bdk_core", "BlockId"), ("bdk_core", "ConfirmationBlockTime"), ("bdk_chain", "TxPosInBlock"), ("secp256k1", "Parity"), ("bitcoin_units", "Amount"), ("secp256k1", "Error"), ("secp256k1", "OutOfRangeError"), ("bip157", "IndexedFilter"), ("bip157", "Event"), ("bip157", "SyncUpdate"), ("bip157", "HeaderCheckpoint")}
CORE_TR = {"Poll", "Option", "Result", "ControlFlow", "Ordering", "Range", "RangeFrom", "RangeTo", "RangeInclusive", "PhantomData", "ManuallyDrop", "RangeToInclusive", "RangeFull"}
LOCALC = {"bdk_sp", "dleq", "indexer", "bdk_sp_oracles", "roots"}

KEYED = {("bip157", "IndexedFilter"): "height"}   # types whose order looks at one field only: an ordered set of them maps that field to the element
def adt_key(ty): return (ty.d.get("crate"), ty.d["def"].split("::")[-1])

class Types:
    def __init__(self, prog): self.prog = prog; self.cache = {}; self.adt = {}; self.busy = set(); self.dt = {}
    def sort(self, ty):
        s = self.cache.get(ty.id)
        if s is None:
            s = self._sort(ty); self.cache[ty.id] = s
        return s
    def kind(self, ty):
        """'int','bool','unit','ref','bytes','real','list','map','set','dt','box','opaque'"""
        k = ty.k
        if k in ("int", "uint", "char"): return "int"
        if k == "bool": return "bool"
        if k in ("ref", "ptr"): return "ref"
        if k == "str": return "bytes"
        if k in ("slice", "array"):
            return "bytes" if ty.elem.name == "u8" else "list"
        if k == "tuple": return "dt" if ty.d["elems"] else "unit"
        if k == "closure": return "dt"
        if k == "adt":
            c, n = adt_key(ty)
            if ty.d.get("is_box") or (c == "alloc" and n in ("Box", "Arc", "Rc")): return "box"
            if (c, n) in REALT: return "real"
            if c == "bitcoin" and n in ("ScriptBuf", "Script"): return "bytes"
            if c == "alloc" and n == "String": return "bytes"
            if c == "alloc" and n in ("Vec", "VecDeque"): return "bytes" if ty.args()[0].name == "u8" else "list"
            if c == "alloc" and n == "BTreeMap" or c == "std" and n == "HashMap": return "map"
            if c == "alloc" and n == "BTreeSet" and ty.args()[0].k == "adt" and adt_key(ty.args()[0]) in KEYED: return "kset"
            if c == "alloc" and n == "BTreeSet" or c == "std" and n == "HashSet": return "set"
            if n in HASHNT and c in ("bitcoin", "bitcoin_hashes"): return "bytes"
            if c == "core" and n in CORE_TR or (c, n) in TRANSP or c in LOCALC: return "dt"
        return "opaque"
    def elem(self, ty):
        if ty.k in ("slice", "array"): return ty.elem
        return ty.args()[0]
    def strip(self, ty):
        """remove references and boxes"""
        while True:
            if ty.k in ("ref", "ptr"): ty = ty.elem
            elif self.kind(ty) == "box": ty = ty.args()[0]
            else: return ty
    def _sort(self, ty):
        k = self.kind(ty)
        if k == "int": return I
        if k == "bool": return B
        if k == "unit": return Unit
        if k == "ref": return self.sort(ty.elem)
        if k == "box": return self.sort(ty.args()[0])
        if k == "bytes": return Bytes
        if k == "real": return R
        if k == "list": return ListS(self.sort(self.elem(ty)))
        if k == "map": a = ty.args(); return MapS(self.sort(a[0]), self.sort(a[1]))
        if k == "kset": return MapS(self.sort(dict(self.vfields(ty.args()[0], 0))[KEYED[adt_key(ty.args()[0])]]), self.sort(ty.args()[0]))
        if k == "set": return z3.ArraySort(self.sort(ty.args()[0]), B)
        if k == "dt": return self.dtsort(ty)
        return z3.DeclareSort("U_" + re.sub(r"[^A-Za-z0-9_<>,]", "_", self.oname(ty)))
    def oname(self, ty):
        if ty.k == "adt":
            c, n = adt_key(ty); a = ",".join(str(self.oname(x)) for x in ty.args())
            return f"{c}_{n}" + (f"<{a}>" if a else "")
        return ty.name
    def nvars(self, ty): return len(ty.d["variants"]) if ty.k == "adt" else 1
    def vfields(self, ty, v=0): return ty.fields(v) if ty.k == "adt" else ty.fields()
    def dtsort(self, ty):
        if ty.id in self.busy: raise Unsupported("recursive type " + ty.name)
        self.busy.add(ty.id)
        try:
            fs = [[self.sort(t) for _, t in self.vfields(ty, v)] for v in range(self.nvars(ty))]
        finally: self.busy.discard(ty.id)
        if ty.k == "adt":
            c, n = adt_key(ty); base = n if c not in ("secp256k1", "bdk_chain") or n not in ("PublicKey", "Error", "ChangeSet") else c + n
            if c == "bitcoin" and n in ("Input", "Output", "PublicKey", "Key"): base = "b" + n
            if c in LOCALC and len(ty.d["def"].split("::")) > 2 and n in ("ChangeSet",): base = "v2" + n
        elif ty.k == "tuple": base = "Tup"
        else: base = "Clo" + str(ty.id)
        key = base + "<" + ";".join(",".join(str(s) for s in f) for f in fs) + ">"
        if key in self.dt: return self.dt[key]
        if not fs: s = z3.DeclareSort(key); self.dt[key] = s; return s
        d = z3.Datatype(key)
        for v, f in enumerate(fs):
            vn = ty.d["variants"][v]["name"] if ty.k == "adt" else "t"
            names = [n for n, _ in self.vfields(ty, v)]
            d.declare(f"{base}.{vn}", *[(f"{base}.{vn}.{n}", s) for n, s in zip(names, f)])
        s = d.create(); self.dt[key] = s
        return s
    def tupsort(self, sorts):
        key = "Tup<" + ",".join(str(s) for s in sorts) + ">"
        if key not in self.dt:
            d = z3.Datatype(key); d.declare("Tup.t", *[(f"Tup.t.{i}", s) for i, s in enumerate(sorts)]); self.dt[key] = d.create()
        return self.dt[key]
    # --- datatype helpers by Rust type
    def mk(self, ty, v, *fs):
        s = self.sort(ty); c = s.constructor(v); return c(*fs) if fs else c()
    def is_v(self, ty, v, t):
        if self.nvars(ty) == 1: return z3.BoolVal(True)
        s = self.sort(ty)
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR: return z3.BoolVal(t.decl().eq(s.constructor(v)))
        return s.recognizer(v)(t)
    def acc(self, ty, v, i, t):
        if ty.k == "adt" and self.kind(ty) in ("bytes", "real", "box"): return t
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
            pass
        return ap(self.sort(ty).accessor(v, i), t)
    def intrange(self, ty):
        n = ty.name
        if n == "char": return (0, 0x10FFFF)
        bits = {"usize": 64, "isize": 64}.get(n) or int(n[1:])
        return (-(1 << bits-1), (1 << bits-1) - 1) if n[0] == "i" else (0, (1 << bits) - 1)
    def note(self, t, ty):
        """type-invariant facts of a term of Rust type ty (shallow)"""
        ty = self.strip(ty); k = self.kind(ty)
        if not z3.is_expr(t): return t
        if z3.is_app(t) and t.num_args() == 0 and t.decl().kind() != z3.Z3_OP_UNINTERPRETED: return t
        if k == "int" and not z3.is_int_value(t):
            lo, hi = self.intrange(ty); fact(t, z3.And(t >= lo, t <= hi))
        elif k == "real":
            n = adt_key(ty)[1]
            if n != "Scalar": fact(t, t != 0)
            if n in ("XOnlyPublicKey", "TweakedPublicKey"): fact(t, even(t))
        elif k == "bytes":
            if ty.k == "array":
                setlen(t, ty.d["len"])
            elif ty.k == "adt" and adt_key(ty)[1] in HASHNT:
                n = adt_key(ty)[1]
                setlen(t, {"PubkeyHash": 20, "WPubkeyHash": 20, "ScriptHash": 20, "Fingerprint": 4}.get(n, 32))
        elif k == "list":
            fact(t, llen(t) >= 0)
            if ty.k == "array": fact(t, llen(t) == ty.d["len"])
        return t
    def deep_note(self, t, ty, depth=3):
        ty = self.strip(ty); self.note(t, ty)
        if depth and self.kind(ty) == "dt" and self.nvars(ty) == 1:
            for i, (_, ft) in enumerate(self.vfields(ty)):
                self.deep_note(self.acc(ty, 0, i, t), ft, depth - 1)
        return t
