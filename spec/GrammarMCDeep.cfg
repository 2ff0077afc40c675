SPECIFICATION Spec
CONSTANTS
 W = 32
 MaxTokens = 5
 Bend = ""
 Gen = FALSE
INVARIANTS SameLanguage RendersBack ItemIsPrefix NormalOnce NormalKeepsGrammar NormalKeepsType ValidIsUsable SameClass
CHECK_DEADLOCK FALSE
