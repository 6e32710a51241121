"""The rules, by property."""
TRUSTED = ["rustc's MIR construction and trait resolution", "the driver's MIR export", "the abstract interpreter", "the models of the standard library and of num, rusqlite, crossterm and clap"]
ASSUME = ["library functions behave as their documentation (the models) says", "text stored by the program in its database is ASCII"]
EXPLAIN = {}


def table():
    from rules import arith, db, depth, display, editing, exprs, history, lexing, registry, session, settings, store, stored, named, total, vars
    return {
        "C01": (arith.c01, "other"),
        "C04": (arith.c04, "other"),
        "C02": (settings.c02, "other"),
        "C03": (total.c03, "other"),
        "C05": (exprs.c05, "other"),
        "C26": (depth.c26, "other"),
        "C06": (lexing.c06, "other"),
        "C28": (exprs.c28, "other"),
        "C07": (display.c07, "other"),
        "C08": (settings.c08, "other"),
        "C09": (registry.c09, "other"),
        "C10": (editing.c10, "other"),
        "C29": (editing.c29, "other"),
        "C33": (editing.c33, "other"),
        "C34": (stored.c34, "other"),
        "C11": (session.c11, "other"),
        "C12": (session.c12, "other"),
        "C13": (session.c13, "other"),
        "C14": (store.c14, "other"),
        "C15": (store.c15, "other"),
        "C16": (db.c16, "other"),
        "C17": (db.c17, "other"),
        "C18": (vars.c18, "other"),
        "C19": (exprs.c19, "other"),
        "C20": (store.c20, "other"),
        "C21": (store.c21, "other"),
        "C22": (history.c22, "other"),
        "C23": (history.c23, "other"),
        "C24": (vars.c24, "other"),
        "C25": (named.c25, "other"),
        "C27": (session.c27, "other"),
    }


TECH = {
    "C01": "abstract interpretation of MIR: zero-divisor obligations on every path",
    "C04": "abstract interpretation of MIR: symbolic result term of every evaluation path compared with the operation",
}
TECH["C02"] = "abstract interpretation of MIR: accepted ranges from the clap declarations and command paths; every obligation on a setting proven for the accepted ranges"
TECH["C08"] = "abstract interpretation of MIR: settings before and after every outcome of every command compared; word conditions decided on the path facts"
TECH["C09"] = "constant propagation through MIR: registry construction, lookup of every declared name and alias, help text constants"
TECH["C11"] = "typestate over the abstract interpretation of a whole session: every place waiting for a key, every kind of event"
TECH["C13"] = "abstract interpretation of MIR: path facts at every call that opens the database; effect analysis of one-shot mode and of evaluation"
TECH["C12"] = "typestate: terminal modes tracked over every path of the entry point, including each failure of a terminal call"
TECH["C21"] = "constant propagation of every statement's text and parameters through MIR; statements compiled against the schema the opener's statements create"
TECH["C14"] = "typestate of the transaction over every path of the opener, split on the comparison of the stored minimum version"
TECH["C15"] = "typestate of the transaction over every path (including each failing statement) of opening, recording and changing the capacity"
TECH["C20"] = "abstract interpretation of MIR, function by function: every failing storage call followed to the function's result"
TECH["C27"] = "abstract interpretation of MIR: output events and result of every one-shot path of the entry point; effect analysis of evaluation"
TECH["C16"] = "shape analysis: every SQL statement of every storage operation interpreted over abstract linked lists (0 to 5 and any larger number of inputs)"
TECH["C17"] = "shape analysis of the stored history with symbolic length and capacity: every storage operation, loops by induction over the list"
TECH["C18"] = "abstract interpretation of MIR over symbolic database tables: the writer's final tables are the reader's initial ones; the value read must be the term stored"
TECH["C25"] = "abstract interpretation of MIR over symbolic database tables and the session's map: which names the purging and reloading commands change, and which value reading gives"
TECH["C23"] = "abstract interpretation of MIR over exact lists of lines with symbolic texts: every operation on the lines of a session, against the walk the property describes"
TECH["C22"] = "abstract interpretation of MIR over exact lists of lines and stored rows with symbolic texts, and an automaton over the trace graph of a whole session"
TECH["C24"] = "abstract interpretation of MIR over symbolic database tables: rows of variables before and after every storage operation and every kind of line"
TECH["C05"] = "abstract interpretation of MIR: parser and evaluation over every operator chain up to a length, with unknown numbers; the resulting term against the one the precedence levels give"
TECH["C26"] = "recursion in the resolved call graph (with library call-backs) and in the data types, classified by what drives it; abstract interpretation of parser and evaluation over token sequences, where each recursion must come to its end"
TECH["C28"] = "abstract interpretation of MIR: parser and evaluation over every sequence of token kinds up to a length and every one-token edit of longer ones, against a reference grammar"
TECH["C19"] = "abstract interpretation of MIR: assignments followed through parser, evaluation, storing and the evaluation of a line: name and value at the storing call, tables and map afterwards"
TECH["C07"] = "abstract interpretation of MIR: the text shown as a term over the value and the settings, on every path, brought to normal form and compared with the text asked for; differences refuted by an instance"
TECH["C06"] = "abstract interpretation of MIR: the splitting into tokens over every text of character classes up to a length, with unknown digits and radix; the number as a term over them against the literal's value"
TECH["C10"] = "abstract interpretation of MIR: a whole session with inferred loop invariants; every index, slice, subtraction and division of editing and drawing proven for every line, cursor, window and event"
TECH["C29"] = "abstract interpretation of MIR: sequences of key presses followed through the session loop with symbolic characters, against a model of a line and its cursor and a model of the terminal"
TECH["C33"] = "abstract interpretation of MIR: the hotkey on every line of parentheses up to a length, every place of the cursor, against the matching parenthesis"
TECH["C34"] = "abstract interpretation of MIR over an abstract database: opening on every size of history; the declared schema and the stored number texts against the format of the version"
TECH["C03"] = "abstract interpretation of MIR: every overflow, index, slice, unwrap and panic obligation met while a line is read, parsed and evaluated, a command runs or the database is used"
NOTE = {
    "default": "Every path of the analysed functions (loops by inferred invariants); trusts the library models and the MIR export. Undecided obligations are listed in the evidence and do not alarm.",
}
NA = {
    "C30": "bounding the error of Newton's iteration over rationals needs numerical reasoning about values that no static analysis in reach performs",
    "C31": "termination and running time depend on the magnitude of arbitrary-precision values; no sound static bound in reach",
    "C32": "the interleavings of several processes on one database file depend on SQLite's locking at run time, which is outside the analysed source",
}
