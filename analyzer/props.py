"""Which operations and which kinds of obligation decide each property."""

FULL = {"spec", "canon", "inv", "arith", "analysis", "intact", "io"}

# operations confirmed by hand, per field: key -> number of implementations (a floor: fewer is a violation)
PER_FIELD = {
    "neg": 1, "add": 16, "sub": 13, "mul": 16, "div": 4, "unpack": 1, "unpacked": 1, "pack": 1, "pack_normalized": 1,
    "packed": 1, "nbytes": 1, "normalize": 1, "normalize_self_eq": 1, "normalize_eq": 1, "mask_fill": 1,
    "mask_filled": 1, "fill": 1, "filled": 1, "nbits": 1, "bit": 1, "bit_normalized": 1, "normalize_bitand": 1,
    "normalize_self_bitand": 1, "normalized_bitand": 1, "normalize_bitor": 1, "normalize_self_bitor": 1,
    "normalized_bitor": 1, "zero": 1, "one": 1, "m_one": 1, "modulus": 1, "square": 1, "squared": 1,
    "small_add_assign": 1, "small_add": 1, "small_sub_assign": 1, "small_sub": 1, "small_mul_assign": 1,
    "small_mul": 1, "invert": 1, "inverted": 1, "legendre": 1, "sqrt": 1, "rand": 1, "clone": 2,
    "fmt:LowerHex": 1, "fmt:UpperHex": 1, "fmt:Debug": 1,
}
PER_CURVE = {"padd": 4, "pzero": 1, "pinit": 1, "pdouble": 1, "pdoubled": 1, "ptriple": 1, "ptripled": 1,
             "scalar_mult_normalized": 1, "scalar_mult": 1, "d_val": 1, "clone": 1}


def ff(op):
    return [a.k for a in op.args] == ["F", "F"]


def keys(*ks):
    return lambda op: op.key in ks


ARITHKEYS = ("add", "sub", "mul", "div", "neg")
VALUE_FORMS = {"squared": "square", "inverted": "invert", "small_add": "small_add_assign",
               "small_sub": "small_sub_assign", "small_mul": "small_mul_assign", "unpacked": "unpack",
               "filled": "fill", "mask_filled": "mask_fill", "pdoubled": "pdouble", "ptripled": "ptriple",
               "add": "add", "sub": "sub", "mul": "mul", "div": "div", "padd": "padd"}


def is_value_form(op):
    """Value-returning variant of an operation that is also offered in place."""
    if op.key not in VALUE_FORMS:
        return False
    if op.key in ("add", "sub", "mul", "div", "padd"):
        return op.ret.k in "FP" and all(a.k in "FP" for a in op.args)
    return True


class Prop:
    def __init__(self, title, select, kinds=FULL, closure=True, floors=(), structural=None, technique=None, rule=""):
        self.title, self.select, self.kinds, self.closure = title, select, kinds, closure
        self.floors, self.structural, self.technique, self.rule = floors, structural, technique, rule


AI = "abstract interpretation of MIR (value numbering over integer polynomials with intervals)"
REL = AI + ", residues compared as polynomials over F_p"
PROPS = {
    "C01": Prop("addition", lambda o: o.key == "add" and ff(o), floors=("add",), technique=REL),
    "C02": Prop("subtraction", lambda o: o.key == "sub" and ff(o), floors=("sub",), technique=REL),
    "C03": Prop("negation", keys("neg"), floors=("neg",), technique=REL),
    "C04": Prop("multiplication", lambda o: o.key == "mul" and ff(o), floors=("mul",), technique=REL),
    "C05": Prop("squaring", keys("square", "squared"), floors=("square", "squared"), technique=REL),
    "C06": Prop("small addition", keys("small_add", "small_add_assign", "small_sub", "small_sub_assign"),
                floors=("small_add", "small_add_assign", "small_sub", "small_sub_assign"), technique=REL),
    "C07": Prop("small multiplication", keys("small_mul", "small_mul_assign"),
                floors=("small_mul", "small_mul_assign"), technique=REL),
    "C08": Prop("operator forms", keys(*ARITHKEYS), floors=ARITHKEYS, technique=REL + "; call summaries"),
    "C09": Prop("normalisation", keys("normalize"), floors=("normalize",),
                technique=AI + ", canonical range by case analysis on the top carries"),
    "C10": Prop("equality", keys("normalize_eq", "normalize_self_eq"), floors=("normalize_eq", "normalize_self_eq"),
                technique=AI + "; conjunction of limb comparisons"),
    "C11": Prop("no overflow", lambda o: True, kinds={"inv", "arith", "analysis"}, closure=False,
                floors=tuple(PER_FIELD) + tuple(PER_CURVE), structural="surface",
                technique="interval analysis of MIR with an inductive representation invariant"),
    "C12": Prop("packing", keys("pack", "pack_normalized", "packed"), floors=("pack", "pack_normalized", "packed"),
                technique=AI + "; bit-slice positions"),
    "C13": Prop("unpacking", keys("unpack", "unpacked", "pack", "pack_normalized", "packed"),
                floors=("unpack", "unpacked", "pack", "pack_normalized", "packed"),
                technique=AI + "; bit-slice positions"),
    "C14": Prop("buffer extent", keys("pack", "pack_normalized", "packed", "unpack", "unpacked", "nbytes"),
                kinds={"io", "arith", "analysis"},
                floors=("pack", "pack_normalized", "packed", "unpack", "unpacked", "nbytes"),
                technique="effect analysis of buffer reads and writes on MIR"),
    "C15": Prop("hex formatting", keys("fmt:LowerHex", "fmt:UpperHex"), floors=("fmt:LowerHex", "fmt:UpperHex"),
                technique=AI + "; effect log of the sink"),
    "C16": Prop("inversion and division", keys("invert", "inverted", "div"), floors=("invert", "inverted", "div"),
                technique="abstract interpretation of addition chains over F_p monomials with call summaries"),
    "C17": Prop("legendre", keys("legendre"), floors=("legendre",),
                technique="abstract interpretation of addition chains over F_p monomials with call summaries"),
    "C18": Prop("square root", keys("sqrt"), floors=("sqrt",),
                technique="abstract interpretation over F_p polynomials modulo the character identities"),
    "C19": Prop("bits", keys("bit", "bit_normalized", "nbits"), floors=("bit", "bit_normalized", "nbits"),
                technique=AI + "; bit-slice positions for every index"),
    "C20": Prop("masks", keys("fill", "filled", "mask_fill", "mask_filled", "normalized_bitand", "normalized_bitor",
                              "normalize_bitand", "normalize_self_bitand", "normalize_bitor", "normalize_self_bitor"),
                floors=("fill", "filled", "mask_fill", "mask_filled", "normalized_bitand", "normalized_bitor",
                        "normalize_bitand", "normalize_self_bitand", "normalize_bitor", "normalize_self_bitor"),
                technique=AI),
    "C21": Prop("constants", keys("zero", "one", "m_one", "modulus"), floors=("zero", "one", "m_one", "modulus"),
                structural="constants", technique="constant evaluation by the compiler, exact arithmetic on the digits"),
    "C22": Prop("curve parameters", lambda o: False, structural="parameters",
                technique="constant evaluation by the compiler, exact curve arithmetic on the digits"),
    "C23": Prop("identity and init", keys("pzero", "pinit"), floors=("pzero", "pinit"),
                technique="abstract interpretation over F_p polynomials modulo the curve equation"),
    "C24": Prop("point addition", keys("padd", "psub"), floors=("padd",),
                technique="abstract interpretation over F_p polynomials modulo the curve equation"),
    "C25": Prop("double and triple", keys("pdouble", "pdoubled", "ptriple", "ptripled"),
                floors=("pdouble", "pdoubled", "ptriple", "ptripled"),
                technique="abstract interpretation over F_p polynomials modulo the curve equation"),
    "C26": Prop("scalar multiplication", keys("scalar_mult", "scalar_mult_normalized"),
                floors=("scalar_mult", "scalar_mult_normalized"),
                technique="abstract interpretation over formal multiples with call summaries"),
    "C27": Prop("secret independence", lambda o: not o.key.startswith("fmt:") and o.key != "rand",
                kinds={"ct", "analysis"}, closure=False, floors=tuple(PER_FIELD) + tuple(PER_CURVE),
                technique="information-flow analysis of MIR (branch, index and division operands)"),
    "C28": Prop("random elements", keys("rand"), floors=("rand",),
                technique=AI + "; positional coverage of the draws"),
    "C35": Prop("platforms", lambda o: True, closure=False, structural="platforms",
                floors=tuple(PER_FIELD) + tuple(PER_CURVE),
                technique=AI + " for 32-bit and big-endian platforms, compared with the host"),
    "C33": Prop("machine code", lambda o: False, structural="machine",
                technique="information-flow analysis of the disassembled release build (constants, pointers, secrets)"),
    "C34": Prop("uniform elements", keys("rand"), kinds={"dist", "analysis"}, floors=("rand",),
                technique=AI + "; positional independence of the draws, exact distance from uniform"),
    "C29": Prop("opaque values", lambda o: True, kinds={"intact"}, closure=False, structural="opaque",
                technique="visibility, effect and ownership rules over the type-checked program"),
    "C30": Prop("curve wiring", keys("d_val"), floors=("d_val",), structural="wiring",
                technique="constant evaluation and trait-impl wiring over the type-checked program"),
    "C31": Prop("in-place and value forms", is_value_form, closure=False,
                floors=("squared", "inverted", "small_add", "small_sub", "small_mul", "unpacked", "filled", "pdoubled",
                        "ptripled", "add", "sub", "mul", "div", "padd"),
                technique=AI + " of one form in terms of the other's summary"),
    "C36": Prop("refused calls", keys("pack", "pack_normalized", "unpack", "unpacked", "bit", "bit_normalized"),
                kinds={"misuse", "analysis"}, closure=False,
                floors=("pack", "pack_normalized", "unpack", "unpacked", "bit", "bit_normalized"),
                technique=AI + "; the states in which a call panics"),
    "C32": Prop("termination", lambda o: True, kinds={"term", "analysis"}, closure=False,
                floors=tuple(PER_FIELD) + tuple(PER_CURVE), structural="heap",
                technique="loop-bound, recursion and allocation analysis of MIR"),
    "C37": Prop("debug formatting", keys("fmt:Debug"), closure=False, floors=("fmt:Debug",),
                technique=AI + "; effect log of the sink"),
}
