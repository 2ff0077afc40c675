"""Type strings: good, odd and broken."""
import itertools

from lib import gen
from lib.gen import rng_for, tstr

WORDS = ["uint", "int", "fixed", "ufixed", "bytes", "byte", "function", "string", "bool", "address", "hash"]
FOREIGN = ["foo", "Uint", "INT", "uInt", "x", "X", "xx", "bytess", "ints", "unt", "tuple", "enum", "mapping", "char", "real",
           "ureal", "uinta", "aint", "bytesbyte", "intint"]
SUFFIXES = ["", "1", "7", "8", "9", "16", "24", "31", "32", "33", "64", "128", "160", "248", "255", "256", "257", "264", "512",
            "1000", "65536", "0", "08", "00", "8x1", "8x0", "0x8", "128x18", "128x80", "128x81", "256x80", "264x1", "7x1", "8x",
            "x8", "8X1", "x", "8x1x1", "4294967304", "18446744073709551624", "256x01", "128x1a", "12a", "8_", "8 x1"]
ARRS = ["", "[]", "[1]", "[2]", "[0]", "[01]", "[][]", "[1][2]", "[][3]", "[4][]", "[10]", "[100][20][3]", "[", "]", "[]]", "[[]]",
        "[ ]", "[1 ]", "[-1]", "[+1]", "[1,2]", "[a]", "[1x2]", "[][", "[1]x", "[]8", "()", "(", "[2][", "[\n]", "[１]", "[1.0]"]


def odd_type_strings():
    return ["", " ", "()", "(", ")", "[]", "[1]", ",", "(,)", "(uint8,)", "(,uint8)", "(uint8", "uint8)", "((uint8)", "(uint8))",
            "((uint8))", "(())", "(uint8,())", "()uint8", "uint8()", "(uint8)(uint8)", "(uint8) ", " uint8", "uint8 ", "uint8\n",
            "\nuint8", "uint8\0", "\tuint8", "uint 8", "(uint8, bool)", "(uint8 ,bool)", "(uint8;bool)", "uint8,bool", "uint8;",
            "uint8[", "uint8]", "tuple(uint8)", "(uint8)tuple", "uint8[]()", "()[]", "()[2]", "(()[])", "()()", "( )", "(uint8,,bool)",
            "é", "uinté", "uint８", "uıint8", "ｕint8", "uint8é", "uint_8", "_uint8", "uint-8", "uint+8", "int8.", "0", "8", "8uint",
            "(8)", "x", "x8", "axb", "uintx8", "fixed8x", "fixedx8", "fixed8x1x2", "fixed8x1", "fixed(8x1)", "uint8[2][", "uint8[2]]",
            "(uint8)[", "(uint8)[]", "(uint8)[2]", "(uint8)8", "(uint8)[2][]", "(uint8)8[]", "(((((uint8)))))", "(uint8,(bool,(string)))",
            "uint8[][][][]", "uint8[1][2][3][]", "bool8", "bool1", "string1", "address20", "address160", "function24", "byte1", "byte8",
            "bytes8x1", "int8x1", "hash", "hash32", "hash8x1", "string[]", "bytes[]", "bytes1[]", "bool[2]", "(bool8)", "(string1)[]",
            "(uint8,foo)", "foo[]", "(foo)", "uint8[99999999999999999999]", "A", "z", "Az", "int8int", "int(uint8)", "(int)", "(byte)", "(function)[]",
            "byte[]", "byte[2]", "function[2][]", "(int,uint,fixed,ufixed,function,byte)", "\u01c5", "\u017ftring", "K", "İnt",
            "uint8\u200b", "uint\u0668", "uint²", "bytes①", "uint8[\u0662]", "uint1\u0666", "int2٥6", "bytes1\u0660", "uint8[1\u0660]",
            "fixed128x1\u0668", "fixed12\u0668x18", "boo\u02e1", "\uff42ool", "addre\u017fs", "by\u0442es"]


def grid():
    for w in WORDS + FOREIGN:
        for s in SUFFIXES:
            yield w + s
    for w in ("uint8", "string", "bytes", "bytes32", "int", "fixed128x18", "(uint8)", "(uint8,bytes)", "((bool)[],int8[3])", "foo"):
        for a in ARRS:
            yield w + a


def small_strings(alphabet, maxlen):
    for n in range(maxlen + 1):
        for c in itertools.product(alphabet, repeat=n):
            yield "".join(c)


def rstr(rng):
    return tstr(gen.rtype(rng, depth=rng.choice([0, 1, 2, 3, 4]), width=4), rng)


def mutate(rng, s):
    """A few random edits."""
    chars = "()[],x0189 aiu\n_é"
    for _ in range(rng.choice([1, 1, 2, 3])):
        i = rng.randrange(len(s) + 1)
        r = rng.random()
        if r < 0.35:
            s = s[:i] + rng.choice(chars) + s[i:]
        elif r < 0.65 and s:
            i = min(i, len(s) - 1)
            s = s[:i] + s[i + 1:]
        elif r < 0.8 and s:
            i = min(i, len(s) - 1)
            s = s[:i] + rng.choice(chars) + s[i + 1:]
        elif r < 0.9:
            j = rng.randrange(len(s) + 1)
            i, j = min(i, j), max(i, j)
            s = s[:j] + s[i:j] + s[j:]
        else:
            s = s[:i] + rng.choice(WORDS) + s[i:]
    return s[:400]


def bad_type_strings(rng, tier):
    """A mix in which broken strings dominate."""
    pool = list(grid())
    yield from (pool if tier == "thorough" else rng.sample(pool, 500))
    for _ in range(400 if tier == "quick" else 8000):
        yield mutate(rng, rstr(rng))


def grammar_strings(tier, seed):
    """For parsing: everything of small length over two small alphabets, the grid, random ones."""
    yield from grid()
    yield from odd_type_strings()
    q = tier == "quick"
    yield from small_strings("a1(),[]", 5 if q else 6)
    yield from small_strings("ax01[]", 5 if q else 6)
    for i in range(2500 if q else 60000):
        rng = rng_for(seed, "grammar", i)
        s = rstr(rng)
        yield s
        yield mutate(rng, s)
    for d in (2, 10, 30, 255, 256, 257, 300):
        yield "(" + ",".join(["uint", "byte[2]", "int", "fixed[]"] * d)[: 6 * d] + ")"
        yield "(" + ",".join(["int"] * d) + ")[]"
        yield "uint8" + "[3]" * d
        yield "b" * d + "[]"
    for d in (10, 30):
        yield "(" * d + "uint8" + ")" * d
        yield "(" * d + "uint8" + ")" * (d - 1)
        yield "uint8" + "[]" * d
        yield "(" + ",".join(["uint8"] * d) + ")"
        yield "a" * d + "1" * d


def odd_words(rng):
    """Strings for normalization: words around the aliases."""
    glue = ["", "_", "1", "a", "é", "λ", "٥", "国", "x", " ", ",", "(", ")", "[", "]", "-", ".", "$", "\n", "[]", "[2]", "(,"]
    words = ["int", "uint", "fixed", "ufixed", "function", "byte", "bytes", "int256", "uint8", "Int", "INT", "in", "nt", "functions",
             "bytebyte", "string", "bool"]
    out = []
    for _ in range(rng.choice([1, 2, 3, 5])):
        out.append(rng.choice(glue))
        out.append(rng.choice(words))
        out.append(rng.choice(glue))
    return "".join(out)
