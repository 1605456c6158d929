# one-off generator kept for reproducibility: writes properties.jsonl
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)
p("C01","New-format compressed code decompresses to exactly the original code",
  "Compressing any PICO-8 code (any sequence of the characters 1 to 255 that fits a cart) in the new (\\0pxa) format and then decompressing it yields exactly the original code, in fast mode and in normal mode. The header states the exact uncompressed length and the exact number of compressed bytes, and the stream uses only encodings that a PICO-8 decoder accepts (offsets of at most 32768, back-references that stay inside the text already produced).",
  ["inputs"],"all code strings, both compression modes, all move-to-front states, match lengths and offsets",
  "The tests compress about five carts and compare with stored files; stream state (bit position, move-to-front order, match lengths/offsets) takes astronomically many values.",
  ["pico_compress.py","utils.py"],
  [("entropy coder (mtf literals, literal blocks, match offsets and lengths)","pico_compress.py compress_code/uncompress_code"),("bit packing","utils.py BinaryBitWriter/BinaryBitReader"),("match finder","pico_compress.py get_lz77")],
  ["pico_compress.compress_code then pico_compress.uncompress_code"])
p("C02","Old-format compressed code decompresses to exactly the original code",
  "Compressing any PICO-8 code in the old (:c:) format and then decompressing it yields exactly the original code, for every character from 1 to 255 and every repetition pattern. The compressed stream contains only well-formed items: the stored length equals the code's length, and back-references have an offset and a length the format can express and stay inside the text already produced.",
  ["inputs"],"all code strings; every item kind, offset and length",
  "Two carts are compressed in the old format by the tests.",
  ["pico_compress.py"],
  [("old-format item coder","pico_compress.py compress_code/uncompress_code"),("code table","pico_compress.py k_old_code_table")],
  ["pico_compress.compress_code(force_compress, old format) then uncompress_code"])
p("C03","Binary and bit-level I/O reads back exactly the values written",
  "Every value written through the binary writer (fixed-width integers of either endianness, signed and unsigned, variable-length naturals and integers, length-prefixed or zero-terminated byte strings, bit fields in either bit order) is read back equal by the matching reader operation, whatever was written before and after it. Writing a value never alters bytes or bits written earlier, a read consumes exactly the bytes or bits that the write produced, the reported byte or bit position is the number of bytes or bits written or consumed, and in-place typed access to a buffer changes only the addressed bytes.",
  ["inputs","histories"],"all values in range, all interleavings of write operations, all bit alignments, both endiannesses",
  "No test exercises the readers/writers directly, and carts only use a few operations at a few alignments.",
  ["utils.py"],
  [("BinaryReader/BinaryWriter","utils.py"),("BinaryBitReader/BinaryBitWriter","utils.py"),("BinaryBuffer","utils.py"),("PartialIO/SegmentedIO/ByteArrayIO","utils.py")],
  ["utils.BinaryWriter/BinaryReader and bit variants"])
p("C04","ROM and PNG carts read back exactly the cart that was written",
  "Writing any cart in rom format or hidden inside a png and reading it back restores the same memory contents, the same code and the same version. The steganographic writer changes no more than the low two bits of each colour channel of the carrier image, and storing one byte never disturbs another byte of the cart.",
  ["inputs"],"all cart contents, versions and carrier pixels",
  "Tests convert a handful of carts to png/rom and compare with stored outputs.",
  ["pico_cart.py","pico_compress.py","utils.py"],
  [("rom layout and version trailer","pico_cart.py write_cart_to_rom/read_cart_from_rom"),("low-bit steganography","pico_cart.py write_cart_to_image/read_cart_from_image")],
  ["pico_cart.write_cart/read_cart with CartFormat.rom / png"])
p("C05","Text (.p8) carts read back exactly the cart that was written",
  "Writing any cart as .p8 text and reading it back restores exactly the same memory contents (graphics, map, flags, sound effects, music), label, meta sections, version and code. Sections the writer leaves out as empty or trims at the end are restored to the very bytes they had.",
  ["inputs"],"all memory contents, labels and meta sections",
  "Tests compare a few carts whose data sections are mostly sparse; the encoding of each of the 0x4300 bytes and the trimming rules depend on the values.",
  ["pico_cart.py","pico_defs.py"],
  [("section writers and readers","pico_cart.py write_cart_to_source/read_cart_from_source"),("memory map helpers","pico_defs.py mem_*_addr")],
  ["pico_cart.write_cart_to_source / read_cart_from_source"])
p("C06","PICO-8 character set conversion is lossless",
  "Every one of the 256 PICO-8 characters converts to unicode text and back to itself, alone and inside any string of PICO-8 characters, also when capitals are written as italic unicode; different PICO-8 characters never share a unicode form. The byte encoding of PICO-8 (and Picotron) code is likewise inverted exactly by its decoding.",
  ["inputs"],"all strings over the PICO-8 character set",
  "One test cart lists the characters once, in one order; variation selectors and capitals interact with neighbouring characters.",
  ["pico_defs.py"],
  [("charset tables and conversions","pico_defs.py to_p8str/from_p8str/encode_p8str/decode_p8str"),("unicode capitals","pico_defs.py unicaps")],
  ["pico_defs.to_p8str(from_p8str(x)) and encode/decode functions"])
p("C07","Folded constants equal what the console would compute",
  "Whenever constant folding replaces an operation on PICO-8 numbers (16.16 signed fixed-point) by its result, that result is the exact value PICO-8's arithmetic defines for these operands: wrapped add/subtract/multiply, floored integer division and modulo, bitwise operations, shifts and rotates with any shift count, comparisons and the pure math built-ins; it is always a representable number. Operations that would fail at run time (e.g. on operands of the wrong type) are not folded.",
  ["inputs"],"all pairs of 32-bit fixed-point operands, all folded operators and functions",
  "Tests fold a few dozen chosen expressions out of 2^64 operand pairs per operator.",
  ["pico_constfold.py"],
  [("fixed-point operator implementations","pico_constfold.py Fixnum helpers and lua_* functions")],
  ["pico_constfold operator functions; folded output of the minifier"])
p("C08","Rewritten numeric literals keep exactly their value",
  "For each of the 2^32 PICO-8 numbers, every spelling the minifier may write (decimal, hexadecimal, binary, negated or complemented, with or without a leading zero, in any allowed form) is read back by the number parser, and so by PICO-8, as exactly the same number. The rewritten literal is never longer than a spelling the minifier was given when it minimises for size.",
  ["inputs"],"all 2^32 fixed-point values (and all Picotron 64-bit integers), all formatting options",
  "Tests contain about a hundred literals.",
  ["pico_constfold.py","pico_output.py","pico_tokenize.py","pico_minify.py"],
  [("number parser","pico_tokenize.py parse_fixnum / parse_luanum"),("number formatter","pico_output.py format_fixnum / format_luanum")],
  ["pico_tokenize.parse_fixnum(pico_output.format_fixnum(v)) == v"])
p("C09","Rewritten string literals keep exactly their contents",
  "For every string value, each literal the minifier may write for it (either quote kind or long brackets, with any combination of escapes) parses back to exactly that value. Parsing handles every escape sequence as Lua defines it, so that re-quoting a literal of the source never changes the program's string.",
  ["inputs"],"all string values over the 256 characters, both quotings, long brackets of all levels",
  "Tests contain a few dozen string literals; escapes interact with the following characters.",
  ["pico_tokenize.py","pico_output.py"],
  [("string parser","pico_tokenize.py parse_string_literal"),("string formatter","pico_output.py format_string_literal")],
  ["pico_tokenize.parse_string_literal(pico_output.format_string_literal(s)) == s"])
p("C10","Minified code reads back as the same sequence of tokens",
  "Whatever whitespace and comments minification removes, the minified code tokenizes to exactly the tokens that were meant to be output: no two neighbouring tokens ever merge into another token, into a comment or into a different number, and line breaks that delimit a one-line shorthand statement (if, while or print shorthand) stay where they are needed. Unminifying likewise changes only whitespace.",
  ["programs"],"all pairs of adjacent tokens, all programs",
  "Tests see only the token pairs that occur in their carts.",
  ["pico_output.py","pico_tokenize.py","pico_minify.py","pico_unminify.py"],
  [("separator decision","pico_output.py output_tokens/need_whitespace"),("tokenizer","pico_tokenize.py tokenize")],
  ["tokenize(minified source) against the syntax tree's tokens"])
p("C11","Renaming never captures, collides or touches preserved names",
  "After renaming, every identifier occurrence still refers to the same variable as before: two different locals, globals or labels visible in the same place never share a name, no local hides a global or an outer local that is used in its scope, and members are renamed consistently. Keywords, built-ins and names the user preserves are never renamed nor chosen as new names.",
  ["programs","configurations"],"all programs, all preserve rules",
  "Tests rename a few carts and compare the text with stored output.",
  ["pico_rename.py","pico_parse.py"],
  [("scope-aware rename","pico_rename.py rename_tokens"),("identifier allocation","pico_rename.py IdGenerator / create_ident_stream")],
  ["pico_rename via the minifier's output"])
p("C12","Minification never changes how expressions are grouped or what is executed",
  "Token-level minification (removing parentheses, turning if/while/print statements into shorthands, merging assignments and local declarations, dropping unneeded semicolons, folding constants and dropping the branches they decide) keeps the grouping of every expression and the order and conditions of everything executed. Parsing the minified output gives the program that the minifier intended, under the language's precedence and associativity.",
  ["programs"],"all expression trees and statement sequences",
  "Tests compare a few programs' text with stored output; combinations of nested operators and statements are unbounded.",
  ["pico_minify.py","pico_parse.py","pico_constfold.py"],
  [("parenthesis removal","pico_minify.py"),("precedence table","pico_parse.py get_precedence"),("shorthand and merge transforms","pico_minify.py")],
  ["parse tree and observable behaviour of minified source against the original's"])
p("C13","URL, clipboard and label carts read back exactly what was written",
  "Writing any cart as a url or clipboard text and reading it back restores its code and the graphics that the format carries, byte for byte, and writing fails with an error, rather than producing a different cart, when the result would not fit the format.",
  ["inputs"],"all carts that fit the format",
  "Two carts are converted by the tests.",
  ["pico_cart.py"],
  [("url coder with run-length encoded graphics","pico_cart.py write_cart_to_url/read_cart_from_url"),("clip coder","pico_cart.py write_cart_to_clip/read_cart_from_clip"),("byte to hex/nybble helpers","pico_cart.py / utils.py")],
  ["pico_cart.write_cart/read_cart with CartFormat.url / clip"])
p("C14","Picotron data encodings are lossless",
  "Compressing any byte string with lz4 and decompressing it gives the same bytes, for every length and content. Any pod value (nil, booleans, numbers, strings, tables, userdata of every type and dimension) written as a pod, in plain, compressed, pxu or base64 form, reads back as the same value.",
  ["inputs"],"all byte strings and pod values, all encoding options",
  "Tests convert two Picotron carts.",
  ["picotron_fs.py"],
  [("lz4 coder","picotron_fs.py lz4_compress/lz4_uncompress"),("pxu coder","picotron_fs.py compress_pxu/uncompress_pxu"),("pod formatter and parser","picotron_fs.py format_pod/parse_pod")],
  ["picotron_fs coder/decoder pairs"])
p("C15","Picotron cart containers keep every file intact",
  "Writing any Picotron cart as p64 text, rom, png or a directory and reading it back restores the same set of paths with the same contents, raw or pod (a png cart without a label file gains the label seen on its picture). Filtering, merging and metadata changes affect only the files they select, and a file's metadata and its payload can be changed independently.",
  ["inputs","configurations"],"all sets of files and contents",
  "Tests convert three carts.",
  ["picotron_cart.py","picotron_fs.py","picotron_defs.py"],
  [("p64/rom/png/fs readers and writers","picotron_cart.py"),("glob filter","picotron_defs.py Cart64Glob"),("file metadata","picotron_fs.py PicotronFile")],
  ["picotron_cart.write_cart64/read_cart64"])
p("C16","Writing a Picotron cart to a directory stays inside that directory",
  "When a cart is written out as files under a target directory, no path stored in the cart, however malicious (absolute, containing .. or drive or root prefixes), makes the tool create, overwrite or delete anything outside the target directory.",
  ["inputs"],"all path strings in a cart",
  "No test contains a hostile path.",
  ["picotron_cart.py","utils.py"],
  [("path containment check","picotron_cart.py write_cart64_to_fs")],
  ["file system effects of writing format dir/fs"])
p("C17","Cart memory accesses are exact and touch only their own bytes",
  "Reading back any 4-, 8-, 16- or 32-bit value written to cart memory gives the same value, and a write changes no other bit of memory; block copies move exactly the given bytes. Sprite, map, flag, sound and music addresses of distinct cells never overlap and stay inside their section, and merging sections of one cart into another replaces exactly these sections and nothing else.",
  ["inputs","histories"],"all addresses, values and sections",
  "Tests see the memory only through whole-cart conversions.",
  ["pico_defs.py","pico_cart.py","utils.py"],
  [("Memory accessors","pico_defs.py Memory"),("address helpers","pico_defs.py mem_*_addr"),("section merge","pico_cart.py merge_cart"),("MultidimArray","utils.py")],
  ["pico_defs.Memory and pico_cart.merge_cart"])
p("C18","Editing an export keeps all other carts and files intact",
  "Inserting, replacing, renaming or deleting a cart in an html/js, pod or bin export, or replacing its main cart, leaves every other cart, name and file of the export byte-for-byte as it was and readable; reading an edited cart back gives the cart that was put in. Exporting and reading back an export that was not edited changes nothing.",
  ["inputs","histories"],"all exports and edit sequences",
  "The exporters need PICO-8's own files, so no stable test covers them.",
  ["pico_export.py","picotron_export.py"],
  [("js/pod containers","pico_export.py"),("sysrom container","picotron_export.py SysRom")],
  ["pico_export / picotron_export objects after edits"])
p("C19","Reported source locations are exact",
  "For every position in the source, the reported line, column and editor tab are exactly those of that character in the file it came from, also behind #include directives, where the included file's name and own line numbers are reported. Preprocessing replaces each #include line by exactly the included text and leaves all other text unchanged.",
  ["inputs"],"all sources, positions and include structures",
  "Tests compare the error output of a few files.",
  ["pico_process.py","pico_preprocess.py"],
  [("position to line/column/tab","pico_process.py get_source_location / CartSource.get_location"),("include mapping","pico_preprocess.py / pico_process.py CartSource")],
  ["error messages' path:line:col and tab"])
p("C20","Lint warnings are exactly the undefined, unused and duplicate variables",
  "The linter warns about every use of a global that is never assigned, every local that is never used and every local that hides another variable in scope, each at the right place, and about nothing else, following Lua's scoping rules; the same holds for unused and hiding labels. A global counts as defined if it is assigned at the top level or in _init, built in, or named by a hint or option; names beginning with _ and parameters that are not the last are not reported as unused. Hints and options silence exactly the warnings they name.",
  ["programs","configurations"],"all programs, hints and options",
  "Tests lint two files.",
  ["pico_lint.py","pico_parse.py"],
  [("lint pass","pico_lint.py lint_code"),("scope resolution","pico_parse.py")],
  ["lint warnings"])
p("C21","Token, character and compressed-size counts are exact",
  "The reported token count follows PICO-8's counting rules and depends only on the tokens (and on whether a minus or complement sign directly touches the number after it), not on other whitespace or on comments (but for a count::stop hint); the reported character count is the number of PICO-8 characters of the code that is written; the reported compressed size is the size of the compressed code that writing the cart produces.",
  ["programs"],"all programs",
  "Tests compare counts of a few carts.",
  ["pico_tokenize.py","pico_compress.py","pico_process.py"],
  [("token counting","pico_tokenize.py count_tokens"),("size reports","pico_compress.py write_code_size/write_compressed_size")],
  ["counts printed by --count"])
with open("properties.jsonl","w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
