"""Technique and assurance of each check, for MANIFEST.json."""

AI = "abstract interpretation of the source's syntax tree over abstract documents with trace partitioning, against a rendering specification"
BASE = ("Static: the package is never run. Every function reachable from the public conversion is analysed with unknown texts, attribute values and "
        "names; branches on unknowns split the partition. ")
TRUST = " Trusts the analyser's models of Python, re and minidom, and that strings the source's constants cannot tell apart behave alike."

ABOUT = {
    "C01": (AI, BASE + "Covers every sequence element with 0..K children (K from the source's own integers), identical, empty and structured children, text and comments between them, and nesting of every pair." + TRUST),
    "C02": (AI, BASE + "Covers every fixed-arity element with 0..K operands of every shape in nine contexts, and the message's name, comparison and counts." + TRUST),
    "C03": (AI, BASE + "Covers every pair of operand shapes for two-operand elements, each script position for three-operand ones, equal operands and nesting." + TRUST),
    "C04": (AI, BASE + "Covers bases of every element with 0..4 children and every rendering length the source can distinguish, any bevelled value." + TRUST),
    "C05": (AI, BASE + "Covers 0..K children, unknown fences and unknown separator characters, every fence pair, absent and empty attributes." + TRUST),
    "C06": (AI, BASE + "Covers every fence pair (and unknown ones) with the table at every depth and position tried, every container in between." + TRUST),
    "C07": (AI, BASE + "Covers tables up to K by K, empty rows and cells, every chain of two container elements between tables, up to six nested tables." + TRUST),
    "C08": (AI, BASE + "Covers every documented notation, unknown and absent ones, 0..5 children of every shape, every pair nested." + TRUST),
    "C23": (AI, BASE + "Covers both script sides, every operand shape in each position, every position of the marker; pairs beyond the first are known findings." + TRUST),
    "C25": (AI, BASE + "Covers every action type (unknown ones included), 0..K children of every shape." + TRUST),
    "C26": (AI, BASE + "Covers every pair of operand shapes and every mark that can render as an accent command, in both positions." + TRUST),
    "C28": (AI + "; relational: with and without the element name or attribute", BASE + "Covers an unknown element name, every name and attribute name mentioned in the source, every element as host, unknown attribute values." + TRUST),
    "C09": (AI, BASE + "Covers every documented variant and an unknown one over unknown texts, every symbol and every class of character; mtext runs of every class of character, mixed and repeated." + TRUST),
    "C10": (AI, BASE + "Covers unknown texts of mi, mo and mn with every kind of white space around and inside, every length the source distinguishes, texts built around every table key, every character of Unicode without an entry." + TRUST),
    "C11": ("comparison of the tables and their lookups, as analysed from the source, with the established vocabulary", BASE + "Every symbol of the established vocabulary (3946 entries over mi, mo, mn and mtext), alone, styled, beside others, and inside longer texts." + TRUST),
    "C12": ("comparison of the analysed lookups with Unicode's own decompositions", BASE + "Every precomposed Latin letter and every mathematical alphanumeric of Unicode, in the tables or not; one known finding." + TRUST),
    "C13": ("relational analysis of the three token lookups", BASE + "Every symbol known to two token elements, up to a committed list of synonyms; ten known findings." + TRUST),
    "C14": (AI + "; grammar check of what the converter contributes", BASE + "Every element, attribute value, nesting of two and symbol; eight known findings." + TRUST),
    "C15": ("exception analysis by abstract interpretation with trace partitioning", BASE + "Every element (documented or named in the source) with 0..K children of eight shapes, any text, any value of any attribute, every pair nested, every symbol and character, malformed and unknown input texts." + TRUST),
    "C16": ("typestate analysis of the parse loop by abstract interpretation: parse attempts, repairs, raise or return", BASE + "The parser is modelled by outcomes, all sequences of failures and successes up to seven, errors of every kind, and by the XML grammar for texts with unknown parts." + TRUST),
    "C17": ("dataflow from the input text to the repaired text, compared as documents", BASE + "Every shape of broken attribute in every position of a start tag, alone and in numbers, amid unknown texts, quoted values, comments and sections." + TRUST),
    "C18": ("dataflow from the input text to the parser", BASE + "Every text constant and pattern sample of the source around and inside unknown texts in fourteen positions, long repetitions." + TRUST),
    "C19": (AI, BASE + "Every sequence of up to three (thorough: four) pieces of character data, sections, comments, instructions and blanks in each token element; every interpreted attribute amid others, on neighbours, parents and children." + TRUST),
    "C20": ("effect analysis of every write to shared state, self-composition (B after A as B alone) and interleaving at every shared write", BASE + "Every write to an object, table, class, module, closure or cache that outlives a call is found on every path; only a memo that is a function of its key is accepted. Every pair of about 140 documents that use every feature, sequences, both ways of calling." + TRUST),
    "C21": ("who-may-call rule over the call graph, effect analysis on every path, results compared under reversed set order", BASE + "All functions reachable by name from the public conversion, and every analysed path; the rule is tested against its own positive and negative examples on every run." + TRUST),
    "C22": (AI, BASE + "0..K formulas, at different depths, nested, empty, with every kind of white space in texts, fences and symbols." + TRUST),
    "C24": (AI, BASE + "Every sequence of character classes up to length four, every known symbol and every other class of character; three known findings." + TRUST),
    "C27": ("call-count and growth analysis by abstract interpretation; ambiguity analysis of the automata of all regular expressions", BASE + "Each element is entered once in every operand position of every element; chains of every element and every pair of elements grow polynomially in calls and linearly in depth; at most five parses; no expression has exponential ambiguity. Wall-clock time is not claimed." + TRUST),
}

NOT_APPLICABLE = {
    "N01": "whether two formulas typeset alike is decided by TeX engines and fonts and by human reading, not by anything in this source; the structural parts (arity, roles, grouping, balance, vocabulary) are claimed as C01 to C14 and C23 to C26",
    "N02": "running time and stack use are runtime quantities of the interpreter, the regular-expression engine and the XML parser; no sound static bound is in reach. The structural part (each element rendered once, bounded parses and repairs, recursion only to children) is claimed as C27",
}
