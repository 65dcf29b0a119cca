CLAIMS["C04"] = ("reference-parser oracle over monitored READ sessions on mutated sources", "accept/reject, counts and first error line of ~20000 sources per run compared with an independent parser; trusts lib/mmref.py")
CLAIMS["C05"] = ("differential monitoring of sessions on include trees against a reference expansion", "files read, database, statement and error positions and merged output of ~1200 random include trees per run")
CLAIMS["C06"] = ("offline checker of displayed frames against reference frames", "every field of SHOW STATEMENT (/FULL) for ~23000 assertions per run; trusts lib/mmref.py")
CLAIMS["C07"] = ("runtime monitoring: SHOW PROOF transcripts compared line by line with a reference listing built from independently decoded and evaluated proofs", "every listing qualifier in random combination over generated proofs in all stored formats; sampled")
CLAIMS["C08"] = ("runtime monitoring: proof trees decoded independently before and after random SAVE/SHOW PROOF histories, with text and verdict conservation", "sharing-aware tree comparison for every proof of random databases under every format qualifier; sampled")
CLAIMS["C09"] = ('runtime monitoring: every file written by random WRITE SOURCE histories compared byte for byte with a reference rendition, over include trees, /SPLIT, merging and recovery', '4000 single sources and 1500 include trees per quick run; SAVE PROOF histories only on trees cut between statements')
CLAIMS["C10"] = ('runtime monitoring: token and comment sequences of formatted output compared with the source, with re-reading, verdicts, repetition and line-width monitors', 'about 3900 decorated databases per quick run at widths 40 to 100; idempotence and widths judged on sources laid out by the usual conventions')
CLAIMS["C11"] = ('runtime monitoring: every extract re-read and compared with the dependency closure, frames, proofs, verdicts and descriptions computed by an independent parser and proof decoder', 'about 3900 extracts of random decorated databases with random label lists per quick run')
CLAIMS["C15"] = ('runtime monitoring: every list, tree and number of dependency reports compared with the graph of independently decoded proofs', 'about 120000 report entries per quick run over random databases, queries and SAVE PROOF histories; /ESSENTIAL judged on proofs whose stored steps decode')
CLAIMS["C16"] = ('runtime monitoring: statements selected by random label and symbol patterns compared with reference matchers', 'about 44000 pattern evaluations per quick run; $? judged between its two documented readings')
CLAIMS["C12"] = ('runtime monitoring: random Proof Assistant sessions whose displayed proof is re-derived after every command, with completeness claims, saved proofs and written databases judged by an independent verifier', '4000 sessions (about 80000 observed commands) per quick run on generated databases; one in eight under ASan/UBSan')
CLAIMS["C13"] = ('runtime monitoring: UNDO/REDO histories against a model stack of observed proof states', '4000 histories (about 108000 observed commands) per quick run; the state compared is what SHOW NEW_PROOF displays')
CLAIMS["C14"] = ('monitored MINIMIZE_WITH/EXPAND sessions with an independent proof-tree, size and dependency oracle', 'EXPAND compared with an exact expansion; every MINIMIZE_WITH judged for validity, size, restrictions and (for freshly expanded theorems) that it does shorten; essential steps only for the restrictions')
CLAIMS["C17"] = ('monitored twin sessions on marked and unmarked databases; SHOW DISCOURAGED against an independent reference', 'about 90000 observed effects per run; markers broken over lines, look-alikes, markers elsewhere; PROVE, SAVE NEW_PROOF, ASSIGN, REPLACE, IMPROVE, MINIMIZE_WITH with and without overrides')
CLAIMS["C20"] = ('runtime monitoring: every file and figure produced by random TOOLS sessions compared with reference implementations; ASan/UBSan repeat', '12000 random sessions of the 21 TOOLS commands over hostile text files, whole directory (backups included) compared byte for byte; sampled')
CLAIMS["C21"] = ('runtime monitoring with fault injection: directory snapshots after every writing command judged against the versioning rule; runs killed or failed at chosen file operations (LD_PRELOAD) and without file rights', '1600 histories, 500 writing commands with up to 8 fault points each, 700 unprivileged runs per quick check; kills between library calls, not inside the kernel')
CLAIMS["C22"] = ('runtime monitoring: repeated probes and recurring display commands in random histories of non-modifying commands must give identical bytes', '1500 histories (about 70000 commands) and 1000 page histories per quick run; /FORMAT and /REWRAP, unification_timeout and search_limit changes excluded as they legitimately change later output')
CLAIMS["C23"] = ('runtime monitoring: twin sessions, with and without earlier READ/use/ERASE of other databases, must print and write the same', '2500 twin sessions (about 50000 commands before ERASE, 40000 outputs and 17000 files compared) per quick run; the HTML/ALT_HTML mode chosen by the user is set explicitly; bug checks in databases with reported errors are left to C27')
CLAIMS["C24"] = ('log and command-file transcript monitor: byte-for-byte alignment of screen and log; typed, nested-file and silent runs of the same lines compared', 'dates and run times left out; output of operating system commands is not logged by design; blank lines at the main prompt are not commands')
CLAIMS["C25"] = ('runtime monitoring: twin sessions, complete keywords against random unambiguous abbreviations, letter cases, spacing and quoting; ambiguous and unknown words injected and their reports and harmlessness checked', "the candidates at a keyword position are taken from the program's own list (impossible word typed there) and must contain every keyword of the command table; about 2500 sessions, 40000 commands, 22000 wrong words per quick run")
CLAIMS["C26"] = ('Runtime monitoring: output of the same random commands at different screen widths compared word for word; prompted scrolling with random answers against a reference model of the pager; ASan/UBSan', 'widths 20..9999, heights 2..60; all display, writing and Proof Assistant commands')
CLAIMS["C27"] = ('AddressSanitizer and UndefinedBehaviorSanitizer runs of generated hostile sessions', 'Damaged databases, typesetting comments, proofs, commands, command files and text files; sanitizer reports, internal checks, exit status and a beacon command are the monitors.')
CLAIMS["C28"] = ('runtime monitoring: the same session in two differently prepared processes, and MemorySanitizer', '3000 twin sessions (output and files compared between builds with zero- and pattern-filled automatic variables, different heap fill, locale, environment and directory) and 3000 sessions under MemorySanitizer per quick run; dates and run times are left out.')
CLAIMS["C29"] = ('runtime monitoring: a shim counts heap bytes, blocks and open files after every repetition of a session', '6000 sessions, each repeated 14 times (with ERASE, with refused databases, or with one database kept) per quick run; a level that still rises after the first repetitions, confirmed over 42 repetitions, is a violation.')
CLAIMS["C30"] = ('runtime monitoring: Proof Assistant sessions watched command by command against an independent search for syntax proofs and an independent matcher', '10000 sessions per quick run; completeness is judged for steps with known formulas provable without essential hypotheses, unless the program reports a search limit')
CLAIMS["C19"] = ('runtime monitoring: pages and TeX files written by sessions over generated databases are parsed and compared with a reference rendering of the database', '5000 databases with all pages and theorem lists, 3000 TeX files per quick run; section headings, bibliography, MARKUP and BRIEF_HTML output are left out')
