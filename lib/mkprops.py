#!/usr/bin/env python3
"""Writes properties.jsonl from the table below (kept as one readable source)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in (state or [])],
                          "observe_at": observe, "hook_needed": None}})

p("C01", "VERIFY PROOF never accepts an invalid proof",
  "For every database that READ accepts and every $p statement whose proof (normal, compressed, packed or explicit form) is not a valid Metamath proof of exactly that statement, VERIFY PROOF reports an error, or for a proof containing unknown steps the not-proved warning, naming that statement. It makes no difference whether the statement is verified alone, in a list, with a wildcard or with *, or which statements were verified earlier in the session. The closing line 'All proofs in the database were verified' appears only if no proof is in error or incomplete.",
  ["inputs"], "All databases READ accepts, all proofs in all formats, all label selections.",
  "Golden tests try about a dozen hand-made bad proofs; soundness quantifies over every proof of every database.",
  ["src/mmveri.c", "src/mmpars.c", "src/mmcmds.c"],
  [("RPN stack and label checks while parsing a proof", "src/mmpars.c:parseProof, parseCompressedProof"),
   ("substitution and hypothesis matching", "src/mmveri.c:verifyProof, assignVar"),
   ("summary of VERIFY PROOF", "src/mmcmds.c:verifyProofs")],
  ["output of VERIFY PROOF"])
p("C02", "VERIFY PROOF accepts every valid proof",
  "Every valid Metamath proof, in normal, compressed, packed or explicit form, is accepted by VERIFY PROOF without any error or warning, and VERIFY PROOF * then prints 'All proofs in the database were verified'. This holds for any white space and comments inside the proof, any number of hypotheses, labels and steps, and empty substitutions where the database allows them. (Compressed proofs that contain 'UV' but no 'UU', which the program documents as its obsolete compression, are outside the claim.)",
  ["inputs"], "All well-formed databases with valid proofs.",
  "A dozen valid databases are in the tests; the claim is about all, including proofs with many labels, deep sharing, odd layout.",
  ["src/mmveri.c", "src/mmpars.c"],
  [("decoding of labels, local labels and compressed letters", "src/mmpars.c:parseProof, parseCompressedProof"),
   ("unification with backtracking", "src/mmveri.c:assignVar")],
  ["output of VERIFY PROOF"])
p("C03", "Disjoint-variable restrictions are fully enforced",
  "VERIFY PROOF reports a disjoint-variable violation for a proof step exactly when some pair of variables that the referenced assertion requires to be disjoint is substituted with expressions sharing a variable, or containing two variables not declared disjoint among the $d statements active at the theorem. This covers $d statements in outer scopes, on dummy (non-mandatory) variables, with more than two variables, and split over several $d statements, and each missing pair is named.",
  ["inputs"], "All theorems and all $d layouts over their mandatory and dummy variables.",
  "Three golden files cover three $d layouts.",
  ["src/mmveri.c", "src/mmpars.c"],
  [("$d check on the substitution", "src/mmveri.c:assignVar"),
   ("collection of required and optional disjoint pairs per statement", "src/mmpars.c:parseStatements")],
  ["'There is a disjoint variable ($d) violation' and 'Variables \"x\" and \"y\" do not have' messages of VERIFY PROOF"])
p("C04", "READ accepts exactly the well-formed Metamath sources",
  "READ reports 'No errors were found' for every source that obeys the Metamath language rules (tokens, comments, scoping, declarations before use, active variables with one active $f, unique labels, labels disjoint from math symbols, balanced ${ $}, no missing sections), and reports at least one error for every source that breaks one of them. The first error reported for a source with a single fault gives the line number and file of that fault, and the statement counts printed are the true numbers of statements, $a and $p.",
  ["inputs"], "All source texts.",
  "The tests contain 4 malformed files; each rule of the language can be broken in unboundedly many places.",
  ["src/mmpars.c"],
  [("splitting the source into statements and keyword checks", "src/mmpars.c:parseKeywords"),
   ("label checks", "src/mmpars.c:parseLabels"),
   ("declarations", "src/mmpars.c:parseMathDecl"),
   ("scoping and statement contents", "src/mmpars.c:parseStatements")],
  ["output of READ"])
p("C05", "$[ $] inclusion reads every file exactly once, in place",
  "READ of a file with $[ ... $] inclusions gives the same database as the single file in which the first inclusion of each file is replaced by that file's contents and every further, recursive or self inclusion by nothing; inclusions inside comments are ignored. A missing file or a malformed inclusion is reported as an error, and errors inside included files are reported with that file's name and line number.",
  ["inputs"], "All trees and graphs of included files.",
  "One golden file includes one other file once.",
  ["src/mmpars.c"],
  [("include expansion", "src/mmpars.c:readSourceAndIncludes, readInclude"),
   ("mapping of source positions to file and line", "src/mmpars.c:getFileAndLineNum")],
  ["READ, SHOW SOURCE, VERIFY PROOF, WRITE SOURCE output"])
p("C06", "SHOW STATEMENT reports the true frame of every assertion",
  "For every $a and $p statement, SHOW STATEMENT / FULL lists exactly its mandatory hypotheses in database order, its mandatory disjoint variable pairs, the additional hypotheses and disjoint pairs available to its proof, and its variables, as the scoping rules of the Metamath language define them; the numbers, types, labels and math symbols shown are those of the database.",
  ["inputs"], "All databases and statements, all nestings of scopes.",
  "No golden test looks at frames; only the proofs that happen to depend on them.",
  ["src/mmpars.c", "src/mmcmds.c"],
  [("frame computation", "src/mmpars.c:parseStatements"), ("display", "src/mmcmds.c:typeStatement")],
  ["SHOW STATEMENT /FULL"])
p("C07", "SHOW PROOF listings state what each step proves",
  "For a valid or incomplete proof stored in any format, SHOW PROOF in every listing form (indented or /LEMMON, /ALL or /ESSENTIAL, with /NO_REPEATED_STEPS, /REVERSE, /RENUMBER, /DEPTH and step ranges) shows for each step the right statement label, the right hypothesis step references and exactly the formula that the Metamath proof rules derive at that step; no step that the chosen form should include is lost or duplicated. /DETAILED_STEP states the true source, target, parent and substitutions of the step and /STATEMENT_SUMMARY lists exactly the assertions the proof uses.",
  ["inputs", "configurations"], "All valid proofs and all listing qualifiers.",
  "No golden test lists a proof.",
  ["src/mmcmds.c", "src/mmveri.c", "src/mmpfas.c"],
  [("listing", "src/mmcmds.c:typeProof"), ("step formulas", "src/mmveri.c:verifyProof"),
   ("indentation and essential flags", "src/mmcmds.c, src/mmdata.c")],
  ["SHOW PROOF output"])
p("C08", "Converting a proof between formats preserves the proof",
  "SHOW PROOF and SAVE PROOF with /NORMAL, /COMPRESSED, /PACKED, /EXPLICIT, /FAST and /OLD_COMPRESSION, applied in any order and number to any valid or incomplete proof, always produce text that decodes to the same proof tree (same labels in the same order once local labels are expanded, unknown steps kept) and that verifies exactly as the original did. The database statements other than the saved proofs are unchanged, and a saved database re-reads with the same result.",
  ["inputs", "histories"], "All proofs and all sequences of format conversions.",
  "No golden test saves a proof in more than one format.",
  ["src/mmcmds.c", "src/mmdata.c", "src/mmpars.c", "src/metamath.c"],
  [("compression", "src/mmcmds.c:compressProof"), ("packing and unpacking", "src/mmdata.c:nmbrSquishProof, nmbrUnsquishProof"),
   ("explicit targets", "src/mmdata.c:nmbrGetTargetHyp"), ("SAVE PROOF", "src/metamath.c")],
  ["SHOW PROOF /NORMAL etc., SAVE PROOF followed by WRITE SOURCE"])
p("C09", "WRITE SOURCE reproduces an unmodified database exactly",
  "After READ of a source without errors, WRITE SOURCE writes back the same bytes apart from the documented normalisations (carriage returns turned into plain line ends, a newline added at the end of the file where it is missing). With /SPLIT the set of files written, and with /KEEP_INCLUDES included text and main file, re-read to the identical database, and repeated writing changes nothing further; after SAVE PROOF only the saved proofs differ.",
  ["inputs", "histories"], "All well-formed sources, with and without inclusions.",
  "No golden test writes a source.",
  ["src/mmpars.c", "src/mmcmds.c"],
  [("assembly of the output", "src/mmpars.c:writeSourceToBuffer, outputStatement"),
   ("multiple files", "src/mmpars.c:writeSplitSource"), ("command", "src/mmcmds.c:writeSource")],
  ["files written by WRITE SOURCE"])
p("C10", "WRITE SOURCE /FORMAT and /REWRAP change layout only",
  "WRITE SOURCE with /FORMAT or /REWRAP writes a source with the same sequence of Metamath tokens and the same comment text up to white space as the one that was read (/FORMAT and /REWRAP give each undescribed assertion a placeholder comment; /REWRAP may space ` and ~ markup and end a comment with a full stop); the result reads without errors and verifies like the original. Applying it again changes the layout at most, and nothing at all in a source laid out by the usual conventions; re-wrapped comment paragraphs keep to the line width wherever they can be broken.",
  ["inputs"], "All well-formed sources.",
  "No golden test formats a source.",
  ["src/mmpars.c", "src/mmcmds.c"],
  [("statement reformatting", "src/mmpars.c:outputStatement"), ("comment rewrapping", "src/mmpars.c:rewrapComment")],
  ["files written by WRITE SOURCE /FORMAT, /REWRAP"])
p("C11", "WRITE SOURCE /EXTRACT yields a self-contained equivalent subset",
  "WRITE SOURCE /EXTRACT of any label list writes a database that READ accepts without error and in which every listed assertion is present and verifies as in the full database, with identical formula, hypotheses in the same order, and disjoint-variable conditions that its proof needs. It contains exactly the assertions the listed ones depend on through proofs and grammar (nothing needed is missing, no $a or $p unrelated to them except syntax is added), and the database in memory is unchanged afterwards.",
  ["inputs"], "All databases and label lists.",
  "No golden test extracts.",
  ["src/mmcmds.c"],
  [("extraction", "src/mmcmds.c:writeExtractedSource")],
  ["file written by WRITE SOURCE /EXTRACT"])
p("C12", "The Proof Assistant only completes with a valid proof",
  "After any sequence of Proof Assistant commands (ASSIGN, LET, UNIFY, MATCH, IMPROVE, REPLACE, DELETE, INITIALIZE, EXPAND, MINIMIZE_WITH, UNDO, REDO and so on), if the session claims that the proof is complete, SAVE NEW_PROOF followed by SHOW PROOF gives a proof that an independent verifier accepts, including disjoint-variable conditions that VERIFY PROOF reports when missing. SAVE NEW_PROOF never alters another statement, a proof that is not complete is saved with unknown steps and reported as not proved, and a session that exits without saving leaves the stored proof as it was.",
  ["histories", "inputs"], "All command histories of the Proof Assistant on all databases.",
  "Two golden tests run one MINIMIZE each; no other Proof Assistant command is tested.",
  ["src/mmpfas.c", "src/mmunif.c", "src/metamath.c"],
  [("proof in progress", "src/mmpfas.c"), ("unification", "src/mmunif.c"), ("commands", "src/metamath.c")],
  ["'CONGRATULATIONS' message, SHOW NEW_PROOF, SAVE NEW_PROOF, VERIFY PROOF"],
  [("g_ProofInProgress", "proof steps, targets, sources and user assignments being edited", "src/mmpfas.c")])
p("C13", "UNDO and REDO are exact inverses",
  "In the Proof Assistant, UNDO restores exactly the proof (steps, formulas, assigned and unknown parts) that existed before the last change and REDO exactly the one after it, for any history of changing commands within the UNDO limit. Commands that change nothing do not consume an UNDO level, a new change after UNDO discards the REDO history, and at either end of the history the command reports that there is nothing to undo or redo and changes nothing.",
  ["histories"], "All histories of Proof Assistant commands, UNDO, REDO and SET UNDO.",
  "No golden test uses UNDO or REDO.",
  ["src/mmpfas.c", "src/metamath.c"],
  [("undo stack", "src/mmcmds.c:processUndoStack"), ("commands", "src/metamath.c")],
  ["SHOW NEW_PROOF after each command"])
p("C14", "MINIMIZE_WITH only ever shortens, within its restrictions",
  "MINIMIZE_WITH leaves a proof that still proves the same statement and verifies under an independent verifier, whose compressed size (or step count) is not larger than before, unless /MAY_GROW is given. It never introduces a statement that /FORBID, /EXCEPT or the default restrictions (no new axioms without /ALLOW_NEW_AXIOMS, no discouraged statements without /OVERRIDE, no later statements, no other mathbox without /INCLUDE_MATHBOXES) exclude, nor a disjoint-variable violation; EXPAND removes every reference to the expanded theorem while keeping the proof valid.",
  ["inputs", "configurations"], "All proofs, candidate theorems and qualifier sets.",
  "Two golden tests, one success and one failure.",
  ["src/metamath.c", "src/mmpfas.c"],
  [("candidate loop and size comparison", "src/metamath.c (MINIMIZE_WITH)"),
   ("replacement", "src/mmpfas.c:minimizeProof"), ("EXPAND", "src/mmpfas.c:expandProof")],
  ["MINIMIZE_WITH messages, SHOW NEW_PROOF /NORMAL"])
p("C15", "Dependency reports equal the true dependency graph",
  "SHOW TRACE_BACK (plain, /ESSENTIAL, /AXIOMS, /TO, /MATCH, /DEPTH, /TREE, /COUNT_STEPS) and SHOW USAGE (plain, /RECURSIVE, /ALL) list exactly the statements that the dependency relation defined by the stored proofs yields, and the step counts reported are the true ones. A statement is never missing from, or wrongly in, the list of axioms a theorem depends on.",
  ["inputs"], "All databases, labels and qualifiers.",
  "No golden test shows a trace or usage.",
  ["src/mmcmds.c", "src/metamath.c"],
  [("trace-back", "src/mmcmds.c:traceProof, traceProofWork"), ("usage", "src/mmcmds.c:traceUsage"),
   ("step counts", "src/mmcmds.c:countSteps")],
  ["SHOW TRACE_BACK, SHOW USAGE output"])
p("C16", "Label and symbol patterns match what the manual defines",
  "SHOW LABELS, VERIFY PROOF, SEARCH and every other command taking a label pattern select exactly the statements that the documented pattern language denotes ('*', '?', 'a~b' ranges, '=', '%', '#n', '@n', comma lists). SEARCH returns exactly the statements whose formula (with /COMMENTS, comment; with /JOIN, hypotheses joined to the conclusion) matches the documented '$*' and '$?' symbol patterns.",
  ["inputs"], "All databases, label patterns and symbol patterns.",
  "Golden tests use the pattern * only.",
  ["src/mmdata.c", "src/metamath.c", "src/mmcmds.c"],
  [("matching", "src/mmdata.c:matches, matchesList"), ("SEARCH", "src/metamath.c")],
  ["SHOW LABELS, SEARCH, VERIFY PROOF output"])
p("C17", "Discouragement markers are honoured",
  "A statement whose comment contains '(New usage is discouraged.)' cannot be used by ASSIGN, REPLACE, IMPROVE or MINIMIZE_WITH, and a proof marked '(Proof modification is discouraged.)' cannot be worked on with PROVE or overwritten by SAVE NEW_PROOF, without /OVERRIDE or SET DISCOURAGEMENT OFF; statements without the marker are never blocked. SHOW DISCOURAGED lists exactly the marked statements, with the number of steps of their stored proofs and every use of them.",
  ["inputs", "configurations"], "All comments, statements and commands that use or save them.",
  "No golden test contains a marker.",
  ["src/metamath.c", "src/mmcmds.c", "src/mmdata.c"],
  [("marker detection", "src/mmcmds.c:getMarkupFlag"), ("checks before use", "src/metamath.c"),
   ("report", "src/mmcmds.c:showDiscouraged")],
  ["SHOW DISCOURAGED, ASSIGN, SAVE NEW_PROOF output"])
p("C18", "VERIFY MARKUP reports each documented violation and no other",
  "VERIFY MARKUP prints a warning for each statement that breaks a documented convention (label naming, contributor and date tags, date order and consistency, unbalanced or dangling ~ and ` markup, missing or wrong htmldef, althtmldef or latexdef, missing bibliography entry, over-long lines, trailing or tab white space, discouraged mathbox references) and none for a database that obeys them all; each skip qualifier suppresses its own class of check and no other.",
  ["inputs", "configurations"], "All databases and qualifier sets.",
  "Four golden tests, mainly about missing typesetting and underscores.",
  ["src/mmcmds.c", "src/mmwtex.c"],
  [("checks", "src/mmcmds.c:verifyMarkup"), ("markup parsing", "src/mmwtex.c:printTexComment, readTexDefs")],
  ["VERIFY MARKUP output"])
p("C19", "HTML and TeX output is faithful and well formed",
  "SHOW STATEMENT /HTML and /ALT_HTML write exactly one page per matching statement; the page is well-nested HTML, displays the statement's formula, hypotheses, disjoint variables and every essential proof step as the $t typesetting definitions render their symbols in order, shows its description with the markup translated and < and > escaped, and every link to another statement names an existing statement; the neighbours, the axioms and definitions used and the theorems that refer to it are the right ones. The theorem list lists every $a and $p once, in order, with formulas and descriptions, and TeX output renders the formulas of statements and proof steps with the latexdef of each symbol in a balanced document.",
  ["inputs"], "All databases with typesetting definitions.",
  "Three golden tests produce one small page or TeX file each and do not compare its content with the database.",
  ["src/mmwtex.c", "src/mmcmds.c", "src/metamath.c"],
  [("pages", "src/mmwtex.c:printTexHeader, printTexTrailer, printTexComment, printTexLongMath"),
   ("statement pages", "src/mmcmds.c:typeStatement, typeProof"), ("theorem list", "src/mmwtex.c:writeTheoremList")],
  ["files written by SHOW STATEMENT /HTML, WRITE THEOREM_LIST, SHOW STATEMENT /TEX"])
p("C20", "TOOLS text utilities compute what HELP documents",
  "Each TOOLS command (ADD, TAG, DELETE, CLEAN, SUBSTITUTE, SWAP, INSERT, BREAK, BUILD, MATCH, SORT, UNDUPLICATE, DUPLICATE, UNIQUE, REVERSE, RIGHT, PARALLEL, NUMBER, COUNT, COPY, TYPE) transforms any text file into exactly the lines its documentation defines. Lines that the command does not concern are kept byte for byte and in order.",
  ["inputs"], "All text files and command parameters.",
  "No golden test uses TOOLS.",
  ["src/metamath.c", "src/mmvstr.c", "src/mminou.c"],
  [("command processing", "src/metamath.c (TOOLS section)"), ("string functions", "src/mmvstr.c")],
  ["files written by TOOLS commands"])
p("C21", "Overwriting a file always keeps the previous version",
  "Whenever a command writes an output file that already exists, the previous content survives as file~1, older versions shift to ~2 up to ~9, and no other file is touched, unless /NO_VERSIONING is given. If the file cannot be created or the process dies at any system call during the write, the previous content is still present under the original or a ~n name.",
  ["histories", "crash_points", "fault_sequences"], "All sequences of writing commands, all failure and crash points inside them.",
  "No golden test overwrites a file or injects a fault.",
  ["src/mminou.c", "src/mmcmds.c", "src/metamath.c"],
  [("versioned open", "src/mminou.c:fSafeOpen, fSafeRename"), ("temporary file names", "src/mminou.c:fGetTmpName")],
  ["directory contents after each command"])
p("C22", "Inspection and failed commands leave the database unchanged",
  "No command other than READ, ERASE, SAVE and WRITE SOURCE /FORMAT or /REWRAP (which lay out the text in memory too) changes the database, and the Proof Assistant changes it only by SAVE NEW_PROOF: after any sequence of displaying, searching, verifying, writing, help, settings, rejected or misspelt commands, WRITE SOURCE and VERIFY PROOF * give the same result as before, and each repeated display command prints the same text again.",
  ["histories"], "All command sequences without database-changing commands.",
  "Golden tests run a few commands once.",
  ["src/metamath.c", "src/mmcmds.c", "src/mmpars.c", "src/mmwtex.c"],
  [("commands work on shared global tables and temporarily patch the source buffer", "src/mmpars.c, src/mmdata.c"),
   ("settings", "src/metamath.c")],
  ["WRITE SOURCE, SHOW commands repeated"])
p("C23", "ERASE leaves no trace of the previous database",
  "After ERASE, reading a database gives the same results for every command as reading it in a fresh session: verification, frames, searches, web pages, settings derived from the database, and errors are identical whatever databases were read, edited, typeset or erased before.",
  ["histories"], "All sequences of READ, commands and ERASE.",
  "No golden test uses ERASE.",
  ["src/mmcmds.c", "src/mmdata.c", "src/mmwtex.c"],
  [("ERASE", "src/mmcmds.c:eraseSource"), ("typesetting tables", "src/mmwtex.c:eraseTexDefs")],
  ["session output after ERASE and READ versus fresh session"])
p("C24", "Logs and command files reproduce the session",
  "The file written between OPEN LOG and CLOSE LOG contains everything shown on the screen in between, in order and unaltered, including the commands. A command file run by SUBMIT (nested, with parameters-free lines, comments and blank lines, with or without /SILENT) has the same effect and, unless /SILENT, the same output as typing its lines, and control then returns to the caller's next line.",
  ["histories", "inputs"], "All sessions and command files.",
  "No golden test opens a log or submits a file.",
  ["src/mminou.c", "src/metamath.c", "src/mmcmdl.c"],
  [("print routines", "src/mminou.c:print2, printLongLine"), ("command input stack", "src/mminou.c:cmdInput1, src/metamath.c")],
  ["log file versus standard output; submitted versus typed sessions"])
p("C25", "Command abbreviations never change meaning",
  "Every unambiguous abbreviation of a command's keywords and qualifiers, in any letter case, with / glued or spaced, acts exactly as the full command; an ambiguous or unknown keyword is reported as such and nothing is executed. Quoted arguments reach the command unchanged.",
  ["inputs"], "All commands and all prefixes of their keywords and qualifiers.",
  "Golden tests use a handful of commands spelled out.",
  ["src/mmcmdl.c"],
  [("command parser", "src/mmcmdl.c:processCommandLine, getFullArg")],
  ["output of abbreviated versus full commands"])
p("C26", "Output wrapping never loses or alters content",
  "Whatever SET WIDTH, SET HEIGHT and SET SCROLL say, commands print the same words in the same order: wrapping of long lines only replaces blanks by line breaks and indentation, never drops, duplicates or changes text, and keeps lines within the width wherever a break is possible; prompted scrolling shows the same text page by page, with next page, back, scroll and quit as documented. (Text printed line by line as it is, like SHOW SOURCE, and fixed messages at widths below 79 may be broken inside a word; search and tree excerpts, warnings about long lines, rules of dashes and the order of labels in compressed proofs depend on the width by design.)",
  ["configurations", "inputs"], "All screen settings and output texts.",
  "Golden tests run at width 79 only.",
  ["src/mminou.c"],
  [("line wrapping", "src/mminou.c:printLongLine"), ("paging", "src/mminou.c:print2")],
  ["same session at different widths"])
p("C27", "No input makes the program read or write out of bounds",
  "No database text, proof, command, command file or text file, however malformed, and no sequence of commands makes the program access memory out of bounds, use freed memory, execute undefined behaviour, hit an internal consistency failure ('?BUG CHECK'), or end without being told to. Malformed input is answered with an error message and the session continues. (After READ has reported errors the program itself warns that internal checks may fire falsely: for such databases this covers READ, the plain listings SHOW LABELS and SHOW STATEMENT, and ERASE. Internal consistency checks that fire after the program has reported an error of a proof are not covered either.)",
  ["inputs", "histories"], "All byte sequences as database, proof text, command line or text file.",
  "Tests are not run under sanitizers and give 44 mostly well-formed inputs.",
  ["src/mmpars.c", "src/mmveri.c", "src/mmcmds.c", "src/mmcmdl.c", "src/mmpfas.c", "src/mmunif.c", "src/mmdata.c", "src/mminou.c", "src/mmvstr.c", "src/mmwtex.c", "src/mmword.c", "src/metamath.c"],
  [("buffer sizing and temporary zero-termination of source buffer", "src/mmpars.c"),
   ("string and number-string allocation pools", "src/mmvstr.c, src/mmdata.c"), ("bug()", "src/mminou.c:bug")],
  ["AddressSanitizer and UndefinedBehaviorSanitizer reports, exit status, '?BUG CHECK' messages"])
p("C28", "Results do not depend on uninitialised memory or environment",
  "The output and files a session produces are a function of its inputs alone: repeating the session in another process, with another memory allocator fill pattern, address layout, locale or working directory gives identical text apart from times and dates. No value printed or branch taken depends on uninitialised memory.",
  ["inputs", "configurations"], "All sessions, repeated under different memory contents.",
  "A test runs once in one environment.",
  ["src/mmdata.c", "src/mmpars.c", "src/mmcmds.c", "src/mmwtex.c", "src/mmvstr.c"],
  [("allocation without clearing", "src/mmdata.c:poolMalloc, src/mmpars.c"), ("sorting with comparison functions", "qsort calls")],
  ["MemorySanitizer reports; outputs under MALLOC_PERTURB_ values"])
p("C29", "Memory use stays bounded over long sessions",
  "Repeating any command cycle that returns the session to the same state (READ and ERASE, verify, show, save, proof-assistant sessions, searches, HTML output) any number of times does not make the memory in use, or the number of open files, grow without bound, and after ERASE the memory held by the database is released - also when READ refused the database, or a command failed.",
  ["histories"], "All command cycles, any number of repetitions.",
  "Each test runs its commands once.",
  ["src/mmdata.c", "src/mmvstr.c", "src/mmcmds.c", "src/mmpfas.c"],
  [("pools and temporary stacks", "src/mmdata.c, src/mmvstr.c"), ("ERASE", "src/mmcmds.c:eraseSource")],
  ["heap bytes, heap blocks and open files in use after every repetition"])
p("C30", "IMPROVE and UNIFY find the syntax proofs they promise",
  "With an unambiguous grammar, once every logical step of a proof is assigned and its formulas are known, IMPROVE ALL (and DELETE FLOATING_HYPOTHESES followed by it, and ASSIGN / REPLACE with unique unifiers) completes all remaining syntax-construction steps, and UNIFY ALL determines every formula that is uniquely determined. A step whose formula does not match is left unknown; no already known formula is altered, and no known step is replaced unless / SUBPROOFS asks for it.",
  ["inputs", "histories"], "All valid proofs over unambiguous grammars.",
  "No golden test uses IMPROVE or UNIFY.",
  ["src/mmpfas.c", "src/mmunif.c", "src/metamath.c"],
  [("search for floating proofs", "src/mmpfas.c:proveFloating, proveByReplacement"), ("unification", "src/mmunif.c")],
  ["SHOW NEW_PROOF after IMPROVE ALL"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
for x in P: assert len(x["title"]) <= 80, x["id"]
print(len(P))
