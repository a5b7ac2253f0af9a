"""Writes /verif/properties.jsonl (the authored list of properties; run by hand after editing)."""
import json, pathlib

S = "src/mathml_to_latex/"
UC = S + "el_to_tex/usecases.py"
AD = S + "el_to_tex/adapter.py"
WR = S + "el_to_tex/services/wrapper.py"
NO = S + "el_to_tex/services/normalizer.py"
PR = S + "el_to_tex/protocols.py"
SY = S + "syntax.py"
CV = S + "converter.py"
XA = S + "xml_to_mathml/adapter.py"
XE = S + "xml_to_mathml/services/xml_elements_to_mathml_element.py"
XH = S + "xml_to_mathml/services/error_handler.py"
P = []


def p(id, title, statement, over, qtext, why, files, mech, observe="return value or exception of the public conversion call"):
    assert len(title) <= 80, title
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "observe_at": [observe], "hook_needed": None},
    })


p("C01", "Displayed children are rendered exactly once, in document order",
  "For every element that displays all its children as a sequence (math, rows, styles, padding, cells, unknown containers, square roots, errors, enclosures, fences, table rows, tables, toggled actions), the output contains the rendering of each child element exactly once and in document order, however many children there are, whatever they are, and even when two children are identical. "
  "The children of these elements are separated by a single space except where the element's own construct puts separators, row or cell breaks or arrows there, and mphantom renders as nothing.",
  ["inputs"], "all element trees: every container kind, every number of children, every kind of child, every attribute setting, every nesting",
  "The tests use at most a handful of children per container and one fixed child kind per case; loss or reordering that depends on count, on child kind, on equality of children or on nesting is never sampled.",
  [UC, AD], [("join over all children in Math, GenericSpacingWrapper, MSqrt, MError, MEnclose, MFenced, MTable, MTr, MAction", UC), ("default converter for unlisted names", AD)])

p("C02", "Fixed-arity elements reject a wrong number of operands",
  "msup, msub, mfrac, mroot, mover and munder accept exactly two child elements, msubsup and munderover exactly three, and mmultiscripts at least three. "
  "With any other number the conversion raises InvalidNumberOfChildrenError, whose message names the element, says exactly / at least, and gives the required and the actual number; with an accepted number these elements raise nothing.",
  ["inputs"], "all nine elements, every number of children (zero included), at any place in the document",
  "One wrong count per element is tested (three or four children), never zero, one or many, nor the message, nor the nested case.",
  [UC, PR], [("children_length guards before operands are used", UC), ("InvalidNumberOfChildrenError", PR)])

p("C03", "Fractions, roots and scripts keep each operand in its role",
  "With accepted operand counts, mfrac renders \\frac{first}{second}, mroot \\sqrt[second]{first}, msub base_{second}, msup base^{second}, msubsup base_{second}^{third} and munderover base_{second}^{third}, where base is the first child (grouped where grouping applies); msqrt encloses all its children in \\sqrt{} and merror in \\color{red}{}. "
  "Every operand appears exactly once, in that position and completely inside its braces or brackets, whatever the operands contain, including when they render to an empty string or to equal strings.",
  ["inputs"], "all operand subtrees in every operand position",
  "The tests fix one or two operand shapes; the statement quantifies over every operand rendering, including empty, one-character and equal ones.",
  [UC, WR], [("convert methods of MFrac, MRoot, MSub, MSup, MSubsup, MUnderover", UC), ("BracketWrapper", WR)])

p("C04", "Script bases and bevelled operands are parenthesised exactly when needed",
  "The base of msup, msub and msubsup is enclosed in \\left( and \\right) exactly when the base element has at least two child elements and its rendering is longer than one character; otherwise it is emitted bare. "
  "A fraction is written bevelled, numerator/denominator, exactly when its bevelled attribute is \"true\", and then an operand is enclosed in \\left( and \\right) exactly when its rendering is longer than one character.",
  ["inputs"], "all base and operand subtrees (number of children, length of rendering) and all values of the bevelled attribute",
  "Each branch is sampled once per element; the boundary cases (rendering of length 0, 1, 2; base with 0, 1, 2, many children; bevelled=false) are not.",
  [UC, WR], [("_handle_base_child in MSup, MSub, MSubsup", UC), ("MFrac._is_bevelled", UC), ("ParenthesisWrapper.wrap_if_more_than_one_char", WR)])

p("C05", "mfenced puts fences around and separators strictly between its children",
  "An mfenced without any table inside renders as \\left, the open attribute, the children with separators between them, \\right, the close attribute; an absent or empty open means ( and an absent or empty close means ). "
  "The separator between the i-th and the next child is the i-th character of the separators attribute, its last character being repeated when it runs out and a comma being used when it is absent or empty; nothing is put before the first or after the last child, and open and close never influence each other.",
  ["inputs"], "all open, close and separators attribute values and every number of children",
  "Tests try four fence/separator combinations with at most four children; the selection of the i-th separator is an index computation that only all (count, length) combinations settle.",
  [UC, WR], [("MFenced, Vector", UC), ("JoinWithManySeparators, GenericWrapper", WR)])

p("C06", "mfenced around a table chooses the matrix environment from its fences",
  "An mfenced with a table anywhere below it, at any depth and next to any siblings, renders its children in one matrix environment whose \\begin and \\end carry the same name: ( ) pmatrix, [ ] bmatrix, { } Bmatrix, | | vmatrix, || || Vmatrix, any other equal pair (none included) bmatrix. "
  "With any other pair it renders as \\left, open, a matrix environment, \\right, close, with open and close verbatim, and no separators are inserted.",
  ["inputs"], "all pairs of open and close attribute values, all depths and positions of the table, any number of children",
  "Seven fence pairs are sampled, always with the table as the direct only child or one level below.",
  [UC], [("MFenced._is_there_relative_of_name, Matrix, Separators", UC)])

p("C07", "Tables separate rows and cells, and only nested tables get an environment",
  "A table renders its rows in order with exactly one \\\\ between two consecutive rows and a row renders its cells in order with exactly one & between two consecutive cells, with none before the first or after the last. "
  "A table contained at any depth, through any intermediate elements, in another table is enclosed in \\begin{matrix} and \\end{matrix} exactly once, and a table that is in no other table is not.",
  ["inputs"], "all numbers of rows and cells, all nesting depths and all intermediate elements between nested tables",
  "The one nested example has a single nesting pattern; depth, siblings and intermediate elements are unbounded.",
  [UC], [("MTable (innerTable flag propagation), MTr", UC)])

p("C08", "menclose draws the notation that was asked for",
  "menclose renders its space-separated children inside the construct of its notation: actuarial \\overline{\\left. \\right|}, radical \\sqrt{}, box, roundedbox and circle \\boxed{}, left \\left| before, right \\right| after, top \\overline{}, bottom \\underline{}, updiagonalstrike \\cancel{}, downdiagonalstrike \\bcancel{}, updiagonalarrow \\cancelto{}{}, verticalstrike and horizontalstrike \\hcancel{}, madruwb \\underline{ \\right|}, phasorangle {\\angle \\underline{}}. "
  "longdiv, an absent notation and any other value render as \\overline{\\left.\\right) }, and in every case the children are inside the construct.",
  ["inputs"], "all values of the notation attribute and all children",
  "Each notation is sampled with one child; unknown values, empty values, and the independence of the construct from the children are not.",
  [UC], [("MEnclose.convert", UC)])

p("C09", "mathvariant selects the style of identifiers and text",
  "An mi with mathvariant bold, italic, bold-italic, double-struck, bold-fraktur, script, bold-script, fraktur, sans-serif, bold-sans-serif, sans-serif-italic, sans-serif-bold-italic or monospace renders in \\mathbf, \\mathit, \\mathbf{\\mathit}, \\mathbb, \\mathbf{\\mathfrak}, \\mathcal, \\mathbf{\\mathcal}, \\mathfrak, \\mathsf, \\mathbf{\\mathsf}, \\mathsf{\\mathit}, \\mathbf{\\mathsf{\\mathit}} or \\mathtt respectively, around its whole rendering; with any other or no mathvariant it is not styled. "
  "Runs of letters, digits and spaces in mtext render in \\textbf, \\textit, \\textbf{\\textit} (bold-italic), \\mathbb (double-struck), \\mathtt (monospace) or \\mathfrak (fraktur, bold-fraktur), and in \\text for every other or no mathvariant.",
  ["inputs"], "all mathvariant values and all token texts",
  "Only double-struck is tested on mi; nine of the thirteen mi styles and all unknown values are never exercised.",
  [UC], [("MI._wrap_in_math_variant", UC), ("TextCommand._commands", UC)])

p("C10", "Token text reaches the output whole",
  "The text of mi, mo and mn is trimmed and its inner whitespace collapsed to single spaces; when the result is not a known symbol it is emitted verbatim (mi styled as its mathvariant asks), whatever its length, and an empty token renders as nothing. "
  "In particular identifiers, numbers and operator names made of letters, digits or punctuation without a symbol entry are never altered, escaped, split, truncated or dropped.",
  ["inputs"], "all token texts",
  "Tests use about twenty plain texts; the statement is about every string outside the vocabulary.",
  [UC, SY, NO], [("MI.convert, MO.convert, MN.convert, Character, Operator", UC), ("HashUTF8ToLtXConverter", SY), ("WhiteSpaceNormalizer", NO)])

p("C11", "Every known symbol keeps its LaTeX",
  "Each symbol of the vocabulary (operators, arrows, relations, Greek and other letters, digits and fractions, accented and styled letters) renders, in mi, in mo, in mn and as a character of mtext, to the LaTeX established for it there. "
  "No symbol loses its rendering, takes over another symbol's, or depends on where in the document it stands; lookups are exact, so a symbol is never matched by part of a longer text.",
  ["inputs"], "every symbol of the vocabulary (about 2,700) in every token element",
  "About 300 of the symbols are sampled, mostly in one of the four token elements.",
  [SY, UC], [("vocabulary tables and lookup order", SY), ("Character, Operator, MN lookup chains", UC)])

p("C12", "Accented and styled letters keep their own base letter",
  "A precomposed Latin letter that renders as an accent command has exactly its own base letter, in its own case, as the command's argument, and a mathematical alphanumeric letter or digit that renders as a font command has exactly the letter or digit it stands for as the argument. "
  "Two different base letters are therefore never confused by the conversion.",
  ["inputs"], "every accented Latin letter and every mathematical alphanumeric symbol of the vocabulary",
  "About 60 of 300 such letters are sampled by hand-written expectations; the Unicode decomposition gives an independent oracle for all of them.",
  [SY], [("vowels_with_accents, special_font_chars", SY)])

p("C13", "A symbol means the same in every token element",
  "A symbol known both as an identifier and as an operator or number renders to the same LaTeX, up to synonymous commands, whichever of mi, mo and mn carries it. "
  "In particular no operator symbol renders as a different operator, and no superscript or subscript digit loses its script, merely because the author used another token element.",
  ["inputs"], "every symbol that two of the token elements know",
  "Pairs of expectations for the same symbol exist for about fifty symbols only.",
  [SY, UC], [("sibling tables all_math_symbols_by_glyph, all_math_operators_by_glyph, math_number_by_glyph", SY)])

p("C14", "Every LaTeX construct the converter opens is closed",
  "In the LaTeX the converter itself contributes (everything except token text, fence attributes and separators copied verbatim), braces are balanced, every \\begin has its \\end of the same name, every \\left its \\right, and no fragment ends in a lone backslash, switches math mode or contains a line break in the middle of a command. "
  "This holds for every element, every attribute value and every symbol of the vocabulary.",
  ["inputs"], "every element kind, operand count, attribute value and vocabulary symbol",
  "Expected strings are compared for samples; balance for all attribute values, operands and symbols is not.",
  [UC, WR, SY], [("output templates of all converters", UC), ("wrappers", WR), ("vocabulary values", SY)])

p("C15", "Conversion fails only in the documented ways",
  "For every string the conversion either returns a string or raises the XML parser's error or InvalidNumberOfChildrenError. "
  "In particular empty elements, missing or empty attributes, unknown elements, unknown attributes, text where elements are expected, elements where text is expected, comments and deeply nested mixtures never cause an index, attribute, key, type or value error, and the result is never None.",
  ["inputs"], "all documents: every element kind with any number of children, with and without attributes, text, comments",
  "Tests contain no empty elements besides msqrt and no comments; absence of internal errors is a statement about all inputs.",
  [UC, XE, XA, XH], [("guards before indexing", UC), ("element and attribute copying", XE), ("retry loop", XA)])

p("C16", "Malformed XML is reported, never half converted",
  "When the document cannot be parsed even after the attribute repair, the XML parser's error is raised to the caller after at most five parse attempts; no result, empty or partial, is returned in its place. "
  "When an attempt succeeds, parsing stops, the result is computed from that parse alone, and a document that parses at once is never passed through the repair.",
  ["inputs", "fault_sequences"], "every sequence of parser failures and successes over the attempts",
  "One malformed document and one repairable document are tested; which attempt succeeds, and which error comes last, is not varied.",
  [XA, XH], [("XmlToMathMLAdapter._mathml_elements retry loop", XA), ("ErrorHandler.fix_error", XH)])

p("C17", "Repair of malformed XML removes only attributes that have no quoted value",
  "When a document is malformed only because attributes of some tags lack a value or a quoted value, the repair removes just those attributes: element names, text content and every attribute with a quoted value reach the parser unchanged, even when they contain the same words. "
  "A document that is malformed for another reason is not altered into a different well-formed document: nothing of its content is cut off.",
  ["inputs"], "all documents with valueless attributes, whatever names, text and other attributes surround them",
  "The only test has a valueless attribute whose name occurs nowhere else in the document.",
  [XH], [("substitution patterns of the repair", XH)])

p("C18", "Well-formed input reaches the parser unchanged but for two normalisations",
  "Before parsing, each line break (\\n, \\r\\n or \\r) is replaced by one space and each mml: prefix is removed; nothing else of the input is changed, moved, added or dropped. "
  "Hence line breaks between words or between attributes keep separating them, prefixed and unprefixed documents convert alike.",
  ["inputs"], "all input strings: every arrangement of line breaks and prefixes",
  "Test documents are indented, so a line break is always followed by spaces, and only one prefixed document is tried.",
  [XA], [("_remove_line_breaks, _remove_ms_word_prefixes", XA)])

p("C19", "Token text and attributes are read faithfully from the XML",
  "The text of an element without child elements is the concatenation of all its character data, CDATA sections included, trimmed at both ends; comments and processing instructions contribute nothing and split nothing. "
  "Every attribute of every element is available under its own name with its own value, except that a value equal to the attribute's name counts as empty; child elements are kept in order, and no text, attribute or child of one element leaks into another.",
  ["inputs"], "all element contents: any sequence of text, CDATA, comments, processing instructions and child elements, any attributes",
  "No test has a comment, a CDATA section or mixed content inside a token element.",
  [XE], [("ElementsToMathMLAdapter", XE)])

p("C20", "Conversion has no memory",
  "The result of a conversion depends only on the string passed to that call: not on earlier conversions, successful or failed, not on other conversions running at the same time, not on the converter object used. "
  "No call changes anything a later or concurrent call can observe, including the symbol tables and the class and module state of the package.",
  ["histories", "schedules"], "all sequences and interleavings of conversions in one process",
  "Each test converts one document on a fresh converter; histories and concurrent use are never exercised.",
  [CV, AD, UC, XA, XE, SY], [("fresh adapters and element objects per call", CV), ("per-call element attributes (innerTable flag)", UC), ("constant tables", SY)],
  "result of the same call in different histories")

p("C21", "Conversion has no ambient inputs or effects",
  "A conversion reads nothing but its argument and the package's own constants and does nothing but return or raise: no file, network, process, environment, clock, randomness, locale, standard stream or interpreter setting is read or changed, no code is generated or evaluated, no external entity is fetched. "
  "The result never depends on hash seeds, set ordering or object identity, so equal inputs give equal outputs in every process.",
  ["inputs", "configurations"], "all inputs and all process environments",
  "Tests run in one process under a fixed hash seed and cannot see an effect they do not look for.",
  [CV, XA, SY, UC], [("imports and calls of the whole package", CV)],
  "effects of the public conversion call")

p("C22", "The result is one clean line with the formulas in order",
  "The result is trimmed, contains no line break or tab and no run of several spaces. "
  "A document with several formulas gives their renderings in document order, each exactly once, the non-empty ones separated by a single space, and a formula nested in another is rendered only as part of the outer one; a document without a formula gives the empty string.",
  ["inputs"], "all documents with any number and nesting of formulas",
  "No test has more than one formula in a document.",
  [CV, UC, NO, XA], [("final join and strip", CV), ("Math whitespace normalisation", UC), ("selection of the formula elements", XA)])

p("C23", "mmultiscripts puts pre- and postscripts where they belong",
  "mmultiscripts renders as prescripts, base, postscripts: the first pair after the base, unless it is the prescript marker, as _{sub}^{sup} after the base, and the first pair after the prescript marker, when the marker directly follows the base or the first pair, as \\_{sub}^{sup} before the base. "
  "The base is enclosed in \\left( and \\right) exactly when its rendering contains whitespace, and sub and sup are never exchanged; a pair beyond the first on either side is also rendered.",
  ["inputs"], "all arrangements of script pairs and the prescript marker, all operand subtrees",
  "Six arrangements with at most one pair on each side are tested.",
  [UC], [("MMultiscripts", UC)])

p("C24", "mtext keeps every character in order",
  "mtext renders its text as a sequence of maximal runs of ASCII letters, digits and spaces, each inside one text command, and of single other characters, each rendered as the symbol it is (or verbatim when unknown) outside of any text command. "
  "The order of the text is kept and no visible character is lost, duplicated or moved into another run.",
  ["inputs"], "all texts: every arrangement of letters, digits, spaces, symbols and unknown characters",
  "Three texts with at most one symbol are tested; run merging is a state machine over all character sequences.",
  [UC], [("MText.convert", UC)])

p("C25", "maction shows the toggle sequence or only its first child",
  "An maction whose actiontype is toggle, empty or absent renders all its children in order with \\Longrightarrow between consecutive ones; with any other actiontype it renders exactly its first child and nothing of the others. "
  "Such an maction without children is rejected with InvalidNumberOfChildrenError.",
  ["inputs"], "all actiontype values and every number of children",
  "Five samples; empty maction and unknown action types are not tested.",
  [UC], [("MAction", UC)])

p("C26", "Over and under marks become accents only for the accent commands",
  "mover and munder render as accent{content} exactly when the second child renders to \\hat, \\bar, \\underbrace or \\overbrace; otherwise mover renders as \\overset{mark}{content} and munder as \\underset{mark}{content}. "
  "The first child is always the content and the second always the mark.",
  ["inputs"], "all content and mark subtrees",
  "Three marks are sampled; the decision is on the mark's rendering, which ranges over all strings.",
  [UC], [("GenericUnderOver, UnderOverSetter", UC)])

p("C27", "Conversion does a bounded amount of work per element",
  "During one conversion each element is rendered at most once, so the work does not multiply with nesting depth, the document is parsed at most five times, and each attempt is repaired at most once. "
  "No loop or recursion of the conversion can run on without consuming input: recursion only descends from an element to its children, and no regular expression it uses can backtrack exponentially.",
  ["inputs"], "all documents, of any depth and width, well-formed or not",
  "Repeated rendering of a child leaves the result unchanged and costs nothing visible on shallow test documents, but is exponential in nesting depth.",
  [UC, AD, XA, XH], [("one conversion per child in every converter", UC), ("bounded retry loop", XA), ("bounded substitution loop", XH)],
  "number of times an element is rendered, number of parse attempts")

p("C28", "Unknown elements and uninterpreted attributes are transparent",
  "An element the converter does not know renders as the space-separated renderings of its children, like mrow, whatever its name, and exactly the documented presentation elements get their own rendering. "
  "An attribute an element does not interpret never changes the rendering of that element, its children or its neighbours.",
  ["inputs"], "all element names and all attributes on all elements",
  "Two unknown names and hardly any uninterpreted attributes occur in the tests.",
  [AD, UC], [("dispatch table and its default", AD), ("attribute reads of the converters", UC)])

p("N01", "The LaTeX typesets the same formula as the MathML",
  "For every well-formed presentation MathML document the produced LaTeX compiles with the usual packages and typesets to the same formula.",
  ["inputs"], "all well-formed documents",
  "The tests compare strings with hand-written LaTeX and never typeset anything.",
  [UC, SY], [("all converters and tables", UC)])

p("N02", "Conversion time and stack stay proportionate on adversarial documents",
  "For documents of realistic size conversion finishes in time roughly proportional to the document and without exhausting the interpreter stack, even for adversarial nesting or malformed attributes.",
  ["inputs"], "all documents up to a given size",
  "Timing and stack consumption are not tested at all.",
  [XH, XA, UC], [("regular expressions of the repair, recursion over the tree", XH)],
  "wall-clock time and recursion depth")

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(x, ensure_ascii=False) + "\n" for x in P), encoding="utf-8")
print(len(P))
