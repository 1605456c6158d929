T = "contract-based deductive verification: VCs generated from /repo's current Python source, discharged by z3/cvc5"
CLAIMED = {
 "C01": ("proof", T, "Step lemma of the encoder and decoder loops coupled through the bit stream, from an arbitrary position, move-to-front state and item (all counts and block lengths, by loop invariants), plus the contract of get_lz77 (items tile the code, matches are exact) with the representation invariant of its match tables. The composition of steps into whole runs is the induction stated in units/C01.py; cost heuristics are not verified (any choice they make is covered). Bounded suites add end-to-end runs against an independent decoder."),
 "C02": ("proof", T, "As C01, for the old byte-based format: arbitrary item from an arbitrary position through the real encoder and decoder bodies, get_lz77's contract with max_c and no_repeat."),
 "C03": ("proof", T, "Every reader/writer operation against an abstract byte/bit stream of any content and position: value, position and frame (all other bytes unchanged); floats and text codecs only bounded."),
 "C04": ("proof", T, "The per-pixel step of the steganographic writer and reader (any pixel, any byte, only two low bits change) by loop contract, and the rom layout: every byte of memory, code area, version and hash at its place, whatever the contents, read back from it. Compression is used by contract (C01/C02), PIL's load and save are trusted; labels and titles drawn on the carrier, kept compression and tiny roms are bounded."),
 "C05": ("proof", T, "For each data section (gfx, map, flags, sfx, music): the row writer and the row reader coupled at an arbitrary row, column and memory content, the trimming rule (a trimmed row equals the empty row), header recognition, version line, code lines, label cells and section order. Character conversion is used by contract (C06); preprocessing is the identity without #include (bounded); composition over rows is the induction stated in units/C05.py; meta sections and files are bounded."),
 "C06": ("proof", T, "Conversion tables and the per-character step of every conversion at an arbitrary character with arbitrary neighbours; strings follow by the composition stated in units/C06.py. Bounded suites add exhaustive pairs and random strings."),
 "C09": ("proof", T, "One arbitrary element of a value of any length through the real formatter, tokenizer scan and parser (all characters, neighbours, quotes, options, both languages), the escape table against Lua's definition, long brackets with any number of '=' (get_long_brackets_equals proved to pick one that cannot close early). minify_string_literal's choice between these forms and whole programs are covered by bounded suites."),
 "C07": ("proof", T, "Every operator of the folder's tables is proved against PICO-8's 16.16 arithmetic for all 2^32 (x 2^32) operand values; trusted: the VC generator (pyver), z3/cvc5, and the models of Python builtins."),
 "C08": ("proof", T, "For all 2^32 PICO-8 numbers: format_fixnum in every sign and base writes a numeral that parse_fixnum reads back as the same number (hexadecimal executed symbolically, decimal through the loop invariant of float_str_minify and the exact float model), and parse_fixnum of every numeral up to 5 integer and 6 decimal / 4 hexadecimal / 5 binary fraction digits is the numeral's exact value. Never-longer, that six decimals always suffice, whole programs, and Picotron's 64-bit integers and floats are covered by bounded suites only (all 65536 fractions in the first)."),
 "C13": ("proof", T, "The url's run-length coder: an arbitrary run at an arbitrary place of arbitrary graphics through the real writer loops and, chunk by chunk, through the real reader loops (loop invariants on all five), the alphabet (complete), the url text and size limit for opaque values, every label colour and an arbitrary spritesheet cell through image writer and reader. Tiny roms and compression by the contracts of C01/C02/C04; base64, hex and PIL are trusted library code, exercised by the bounded suites."),
 "C14": ("proof", T, "lz4: an arbitrary item with any number of pending literals through the real encoder and decoder bodies (all lengths by loop invariants), pxu: an arbitrary run from an arbitrary position, mapping and move-to-front order through both bodies, header and digits; the containers around a pod's text (lz4, base64, up to two pxu) and PicotronFile's metadata/payload changes over opaque contents. The pod text itself (format_pod/parse_pod over nested values) is bounded."),
 "C15": ("proof", T, "rom and p64: an arbitrary file (any path and contents) through the writer's loop body and back through the reader's, header, version and end; png: an arbitrary pixel; metadata removal: an arbitrary file under any selection. Filters, merges, the directory format and whole carts are bounded."),
 "C16": ("proof", T, "write_cart64_to_fs, recursively: every creation, deletion and recursive call is at a path that passed the containment check, for any cart, path and directory state; the check itself for every relative path up to 7 characters symbolically (its decision depends on the first three). os.path.relpath/basename are trusted library code. Bounded suites write hostile carts under an audit hook."),
 "C17": ("proof", T, "Every Memory accessor over a memory of any size, content, address and value (value, read-back and frame), every address function over all cells, merge_cart for every section name over arbitrary roms (frame of every field), MultidimArray indexing. Code that addresses memory elsewhere is covered by C04/C05/C13."),
 "C18": ("proof", T, "js: an edit at an arbitrary index of any number of carts leaves all other bytes and names in place; number texts and name escapes complete; pod: bytes, positions and count after an edit at an arbitrary entry, written entries through the reader's body; dispatch and refusals; sysrom entries. Regular-expression search, str.split/join and PIL are trusted; html text, whole exports, and full (bin) exports built from a synthetic pico8.dat are bounded."),
 "C19": ("proof", T, "The scanner of preprocess_code per step over any text (what is passed, what is output and mapped, what an include replaces), read_included_cart, trim_cart_to_tab (every position of the tab keeps its source place), get_line_col, get_tab_line_col, get_source_location and CartSource.get_location for any text, map and position. str.find is known by its contract, the long-bracket pattern is trusted; whole include trees, the p8 reader's code line and the message formats are bounded."),
 "C10": ("proof", T, "need_whitespace_between for any two tokens or comments, and the writer (output_node) in all its modes: what it puts between any two tokens, whatever their places, lines and sources, the (kept or dropped) comment between them and the shorthands that end between them. The tokenizer (it decides whether two texts can be joined) and get_orig_wspace are used by contract; whole programs, all pairs of token shapes, kept comments and unminification are bounded, against an independent lexer."),
 "C11": ("proof", T, "Every function of rename_tokens over opaque nodes, variables and scopes: what keeps its name (complete case analysis) and that nothing that meets it is given its name, that every scope around an occurrence knows of the use (any number of scopes), are_vars_compatible against Lua's scoping rule, the selection against any number of variables (loop contracts), the successor step of new identifiers, preserve rules of any number, new names put into the tree. Scope resolution of the parser (who refers to whom) is the assumption under it: with whole programs, it is bounded, against an independent parser; alphabets are proved for sample character counts."),
 "C12": ("proof", T, "parse_expr's precedence climbing loop by contract (any operators, any operands, any limit: everything in the tree binds as Lua's table says and the rest is left), the operator tables, the parentheses removal as a complete case analysis over parent, child and position, signed constants, the print/if/while shorthand conditions over opaque statements. minify_merge_assignments: when it merges, for any values and targets as opaque parts (up to two of each), and that each target keeps its value; expr_is_trivial over any expression part. Branches decided by constants and whole programs (executed before and after by an independent interpreter) are bounded."),
 "C20": ("proof", T, "Both passes of lint_code over any occurrence of any name, as complete case analyses over opaque nodes, variables and scopes of any depth: which names it makes known, used and assigned, and exactly which warnings it then gets, at which place, under all options; hint comments; assignment and function targets; innermost-scope lookup of names and labels (chains of up to four scopes, each declaring or not). Which declaration the parser binds a name to (the scopes around it) is bounded: whole programs against an independent parser and linter."),
 "C21": ("proof", T, "count_tokens over any number of any tokens by loop contract (which count, count::stop, signs of numbers), the character report, and that the compressed size reported by compress_code is the number of bytes it writes (and the number it stores and reads back). Whole programs against an independent counter, and the printed reports, are bounded."),
}
NOT_APPLICABLE = {}
