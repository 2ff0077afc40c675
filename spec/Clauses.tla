------------------------------ MODULE Clauses ------------------------------
EXTENDS FrameStream, Args, Build
Verdict(e) ==
  CASE e.c = "RoundTrip" -> RoundTrip(e)
    [] e.c = "Exact" -> Exact(e)
    [] e.c = "Accepts" -> Accepts(e)
    [] e.c = "Agrees" -> Agrees(e)
    [] e.c = "StrictDec" -> StrictDec(e)
    [] e.c = "Pointers" -> Pointers(e)
    [] e.c = "Total" -> Total(e)
    [] e.c = "Lenient" -> Lenient(e)
    [] e.c = "Suffix" -> Suffix(e)
    [] e.c = "Prefix" -> Prefix(e)
    [] e.c = "Recode" -> Recode(e)
    [] e.c = "TextDec" -> TextDec(e)
    [] e.c = "TextEnc" -> TextEnc(e)
    [] e.c = "Propagates" -> Propagates(e)
    [] e.c = "Sames" -> Sames(e)
    [] e.c = "Sampled" -> Sampled(e)
    [] e.c = "Spans" -> Spans(e)
    [] e.c = "Same" -> Same(e)
    [] e.c = "Parsing" -> Parsing(e)
    [] e.c = "Hole" -> Hole(e)
    [] e.c = "ParseOther" -> ParseOther(e)
    [] e.c = "Normalizing" -> Normalizing(e)
    [] e.c = "Usable" -> Usable(e)
    [] e.c = "AliasSame" -> AliasSame(e)
    [] e.c = "Layout" -> Layout(e)
    [] e.c = "ArgKinds" -> ArgKinds(e)
    [] e.c = "Counts" -> Counts(e)
    [] e.c = "Alike" -> Alike(e)
    [] e.c = "Untouched" -> Untouched(e)
    [] e.c = "History" -> History(e)
    [] e.c = "Family" -> Family(e)
    [] e.c = "ArgsHistory" -> ArgsHistory(e)
    [] e.c = "Builds" -> Builds(e)
    [] e.c = "Settings" -> Settings(e)
    [] e.c = "Lacking" -> Lacking(e)
    [] e.c = "Assembly" -> Assembly(e)
    [] e.c = "Stream" -> Stream(e)
    \* the harness calls the library outside recorded calls only where that must succeed
    [] e.c = "Crashed" -> "the library raised " \o (IF e.e = <<>> THEN "something" ELSE e.e[1]) \o " where it cannot"
    [] e.c = "AfterDecode" -> AfterDecode(e)
=============================================================================
