"""Model-checking runs that go with the properties (besides judging the recorded events)."""
Q, T = ("quick", "thorough"), ("thorough",)


def wire(*flaws):
    """The system as a whole with 2-byte words (Wire.tla), and negative controls."""
    return [
        dict(module="Wire", cfg="WireMC", tiers=("quick",), what="send, tamper once, receive; 2-byte words, one level of containers"),
        dict(module="Wire", cfg="WireMCDeep", tiers=T, workers=4, what="send, tamper once, receive; 2-byte words, two levels of containers"),
        dict(module="Wire", cfg="WireMCTwice", tiers=T, workers=4, heap="8g", what="send, tamper twice, receive; 2-byte words"),
    ] + [dict(module="Wire", cfg="WireFlaw_" + f, tiers=Q, workers=1, expect="Invariant " + i, what="negative control: " + w) for f, i, w in flaws]


def decoder(*slips, main="DecoderMC"):
    """Decoding as a machine (Decoder.tla) arrives at what the payload denotes."""
    what = {"DecoderMC": "all payloads of at most 3 two-byte words from a set of 7", "DecoderEnds": "decoding ends, for all payloads of at most 2 words"}
    return [
        dict(module="Decoder", cfg=main, tiers=Q, what=what[main]),
        dict(module="Decoder", cfg="DecoderMCDeep", tiers=T, workers=4, heap="8g", what="all payloads of at most 4 words"),
    ] + [dict(module="Decoder", cfg="DecoderSlip_" + f, tiers=Q, workers=1, expect="Invariant " + i, what="negative control: " + w) for f, i, w in slips]


def grammar(bend, inv, w):
    return [dict(module="Grammar", cfg="GrammarMC", tiers=Q, what="all strings of at most 4 tokens: automaton, parser, normalization and typing agree"),
            dict(module="Grammar", cfg="GrammarMCDeep", tiers=T, workers=4, heap="8g", what="all strings of at most 5 tokens"),
            dict(module="Grammar", cfg="GrammarBend_" + bend, tiers=Q, expect="Invariant " + inv, what="negative control: " + w)]


def encoder(sets, *slips):
    """Encoding as a machine working on Python values (Encoder.tla) gives the specified bytes or a fault the values have."""
    what = {"num": "all numbers from -260 to 260 and decimals of 3 digits, 8-bit types", "shape": "good and bad values of 60 type lists, 2-byte words",
            "own": "types of the user's own inside tuples and arrays"}
    return [dict(module="Encoder", cfg="EncoderMC_" + s, tiers=Q, what=what[s]) for s in sets] + \
        [dict(module="Encoder", cfg="EncoderSlip_" + f, tiers=Q, workers=1, expect="Invariant " + i, what="negative control: " + w) for f, i, w in slips]


MODELS = {
    "C03": encoder(["num", "shape"], ("anysize", "Emits", "the number of items not looked at"), ("wrap", "Emits", "numbers taken modulo the width"), ("round", "Emits", "excess decimals dropped"),
                   ("coerce", "Emits", "booleans taken for numbers")),
    "C04": encoder(["shape"], ("asklax", "Answers", "only the first item looked at")),
    "C16": encoder(["shape"], ("pkpad", "Emits", "items after the first padded")),
    "C17": encoder(["own"], ("flat", "Emits", "dynamic coders of the user's own laid out in place"), ("oneword", "Emits", "static ones counted as one word")),
    "C01": wire(("headlen", "RoundTripOk", "static items counted as one word in the head")),
    "C02": wire(("nopad", "WholeWords", "byte strings not padded")) + encoder(["shape"], ("tailbase", "Emits", "offsets counted from the end of the head")),
    "C05": wire(("lax", "Detects", "padding not checked"), ("raw", "FaultsNamed", "booleans not checked")),
    "C06": decoder(("backward", "Arrives", "offsets into the head followed"), ("running", "Arrives", "head taken to end too early"),
                   ("count", "Arrives", "offsets counted from the length word")),
    "C07": decoder(main="DecoderEnds"),
    "C08": wire(("swap", "LenientWider", "strictness inverted")),
    "C19": wire(("short", "NoPrefix", "missing bytes read as zeros"), ("whole", "NoSuffix", "the payload's length matters")),
    "C21": wire(("raw2", "Recodes", "values outside the type decoded")),
    "C09": [dict(module="Session", cfg="SessionMC", tiers=Q, what="every response is the pure function of the call")]
    + [dict(module="Session", cfg="SessionKeeps_" + k, tiers=Q, expect="Invariant NoMemory", what="negative control: " + w)
       for k, w in (("flag", "strictness kept on a registered object"), ("onekey", "cache key without strictness"),
                    ("frames", "stream frames kept after a failure"), ("memo", "encodings remembered by equality"), ("wears", "something gives out after a number of calls"),
                    ("coarse", "anything remembered under a key that confuses calls"))],
    "C10": [
        dict(module="RegistryMC", cfg="RegistryRoute", tiers=Q, what="cached lookups equal direct resolution in every history"),
        dict(module="RegistryMC", cfg="RegistryStale", tiers=Q, expect="Invariant Coherent", what="negative control: partial cache clearing"),
        dict(module="RegistryMC", cfg="RegistryRouteDeep", tiers=T, workers=4, heap="8g"),
    ],
    "C11": [dict(module="RegistryMC", cfg="RegistryExact", tiers=Q, what="all reachable registrations: unique lookups and labels, exact changes, undo")],
    "C12": [
        dict(module="RegistryMC", cfg="RegistryCopy", tiers=Q, what="families connected by copies stay separate"),
        dict(module="RegistryMC", cfg="RegistryCopyDeep", tiers=T, workers=4, heap="8g"),
    ],
    "C13": grammar("zero", "SameLanguage", "leading zeros accepted"),
    "C14": grammar("alias", "NormalOnce", "aliases replaced only in whole strings"),
    "C15": grammar("zero", "SameLanguage", "leading zeros accepted")[:2],
    "C18": [dict(module="FrameStreamMC", cfg="FrameStreamMC", tiers=Q, what="frame stack: push/pop restore, origins are sums")]
    + decoder(("noreturn", "Arrives", "position not restored"), ("nopop", "Unwound", "frame not left")),
    "C23": [dict(module="Reader", cfg="ReaderMC", tiers=Q, what="a machine reading byte by byte, all contents of at most 3 bytes of 13, every handler"),
            dict(module="Reader", cfg="ReaderMC4", tiers=Q, what="all contents of at most 4 bytes of 8"),
            dict(module="Reader", cfg="ReaderMCDeep", tiers=T, workers=4, heap="8g", what="all contents of at most 4 bytes of 16")]
    + [dict(module="Reader", cfg="ReaderBend_" + k, tiers=Q, expect="Invariant Reads", what="negative control: " + w)
       for k, w in (("cesu", "surrogates accepted"), ("overlong", "overlong forms accepted"), ("swallow", "a byte lost after a broken sequence"))],
    "C24": [dict(module="ArgsMC", cfg="ArgsMC", tiers=Q, what="all histories of 3 calls on, and changes to, objects the caller keeps"),
            dict(module="ArgsMC", cfg="ArgsMCDeep", tiers=T, workers=4, heap="8g", what="all histories of 4")]
    + [dict(module="ArgsMC", cfg="ArgsWrong_" + k, tiers=Q, workers=1, expect="Invariant " + i, what="negative control: " + w)
       for k, i, w in (("memo", "Stands", "results remembered by the identity of the arguments"), ("alias", "Stands", "an argument given back as the result"),
                       ("inplace", "Kept", "padding added in place"), ("eats", "Kept", "the list of types consumed"))],
    "C20": [dict(module="Strategy", cfg="StrategyMC", tiers=Q, workers=1, what="all draws: values are of the type, and the whole type can be drawn"),
            dict(module="Strategy", cfg="StrategySlack_narrow", tiers=Q, workers=1, expect="Postcondition Spanned", says="Postcondition Spanned",
                 what="negative control: half of the range never drawn")]
    + [dict(module="Strategy", cfg="StrategySlack_" + k, tiers=Q, workers=1, expect="Invariant Fits", what="negative control: " + w)
       for k, w in (("surrogates", "texts without UTF-8 form"), ("unsigned", "range of the unsigned type for the signed one"),
                    ("places", "too many decimal places"), ("shape", "fixed-size arrays of other sizes"))],
    "C25": [dict(module="BuildMC", cfg="BuildMC", tiers=Q, what="all assemblies of coders in 4 steps: named, marked and served by one class"),
            dict(module="BuildMC", cfg="BuildMCDeep", tiers=T, workers=4, heap="8g", what="all assemblies in 6 steps")]
    + [dict(module="BuildMC", cfg="BuildBotch_" + k, tiers=Q, workers=1, expect="Invariant " + i, what="negative control: " + w)
       for k, i, w in (("first", "Flagged", "a tuple marked like its first part"), ("inner", "Flagged", "an array marked like its items"),
                       ("bits", "Named", "sizes that are no whole bytes accepted"))],
    "C22": [dict(module="Overlap", cfg="OverlapMC", tiers=Q, what="all interleavings of three calls: each answers as alone")]
    + [dict(module="Overlap", cfg="OverlapShares_" + k, tiers=Q, expect="Invariant Alone", what="negative control: shared " + k)
       for k in ("flag", "frames", "buffer")],
}
