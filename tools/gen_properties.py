"""Writes /verif/properties.jsonl (kept as a script so that the texts stay reviewable)."""
import json, os
P = []
BIO = 'kolombos/runner/byteio.py'
def prop(id, title, statement, over, quant, why, files, mech, **kw):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=quant), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], **kw)))
W0 = 'The only unit tests attach/detach a handful of fixed segments; nothing runs the reader-parser-formatter pipeline, and '

prop('K01', 'The binary dump shows every input byte exactly once and in order',
 'In binary mode the hexadecimal column of the output, read row by row, spells exactly the bytes of the input in their order, two lowercase hex digits per byte: no byte is added, lost, duplicated, altered or moved. This holds for any input and any number of columns, read buffer size, focus/ignore option and --decode.',
 ['inputs', 'configurations'], 'all byte strings; all values of -w, -f, -d, focus and ignore options',
 W0 + 'losslessness has to hold for every byte string and every way a row boundary can cut an escape or UTF-8 sequence.',
 ['kolombos/byteio/formatter/binary.py', 'kolombos/byteio/segment/buffer.py', 'kolombos/byteio/parser/parser.py', BIO],
 [('row detaching', 'SegmentBuffer.detach_bytes/_detach, Segment.split'), ('hex printer', 'AbstractFormatter._seg_raw_to_hex'), ('pattern covering all bytes', 'Parser.F_SEPARATOR')],
 observe_at=[dict(name='stdout rows', where='kolombos --binary')] if 0 else 'stdout of kolombos --binary')
prop('K02', 'Binary rows have exact geometry: columns, alignment, offsets, total size',
 'In binary mode every row except the last holds exactly the requested number of bytes, the last row holds the remainder with its hex part padded with spaces so that the character column starts at the same position, and the character column has exactly one character per byte of the row (with and without --decode). With offsets enabled each row starts with the offset of its first byte and the output ends with one line carrying the total number of bytes processed; with --no-offsets neither is printed.',
 ['inputs', 'configurations'], 'all byte strings; all -w >= 1, -d, --no-offsets, --decimal-offsets',
 W0 + 'the interplay of column count, multi-byte sequences, decode padding and remainder is unbounded.',
 ['kolombos/byteio/formatter/binary.py', 'kolombos/byteio/template/template_utf8.py', 'kolombos/console.py'],
 [('row assembling', 'BinaryFormatter.format'), ('decoded char padding', 'Utf8SequenceTemplate._process'), ('offset prefix', 'Console.format_prefix_with_offset')])
prop('K03', 'Printed offsets and sizes are exact however large they are',
 'Every offset and total size the program prints denotes the true byte position, for every non-negative position however large: "0x" followed by an even number (at least four) of lowercase hexadecimal digits, or plain decimal digits with --decimal-offsets. It is right-aligned to at least eight characters and never truncated, wrapped or rounded. The same holds for the line numbers of text mode, which are decimal and right-aligned to at least two characters.',
 ['inputs', 'configurations'], 'all offsets and line numbers (bounded in the check), both notations',
 'No test prints an offset; truncation only shows for inputs of a megabyte and more.',
 ['kolombos/console.py'], [('offset formatting', 'Console.format_prefix_with_offset, Console.format_prefix, Console.format_total_size'), ('line numbers', 'ConsoleOutputBuffer.write_with_line_num')])
prop('K04', 'Each byte belongs to exactly the documented character class',
 'Input bytes are divided into six classes: complete ANSI escape sequences (CSI, nF, Fp, Fe and Fs forms of ECMA-48/ISO-2022, longest CSI/nF form first); valid UTF-8 multi-byte sequences (RFC 3629: no overlongs, surrogates or values above U+10FFFF); other bytes 80-ff (binary data); whitespace (09-0d, 20); printable characters (21-7e); control characters (the remaining 00-1f and 7f, including an ESC that starts no complete sequence). A byte is shown as the "×" placeholder if and only if its class is ignored by the corresponding option, in text and binary mode alike.',
 ['inputs', 'configurations'], 'all byte strings; each of the six --ignore-* options, both modes',
 W0 + 'classification is a function over all byte strings and depends on what follows each byte.',
 ['kolombos/byteio/parser/parser.py', 'kolombos/byteio/template/registry.py', 'kolombos/settings.py'],
 [('tokenizing pattern', 'Parser.F_SEPARATOR, Parser.MGROUP_TO_TPL_MAP'), ('display mode', 'Settings.get_char_class_display_mode, Template.update_settings')])
prop('K05', 'Text mode shows each character by its documented marker',
 'In text mode with marker details 0 every control and whitespace byte, escape sequence, UTF-8 sequence and stray high byte is replaced by its legend marker (NUL Ø, BS ←, DEL →, lone ESC ∌, other controls Ɐ, tab ⇥ followed by a tab, newline ↵ followed by a line break, VT ⤓, FF ↡, CR ⇤, space ␣, SGR reset θ, other SGR ǝ, other CSI Ͻ, nF ꟻ, Fp ꟼ, Fe Ǝ, Fs Ꙅ, valid UTF-8 as the decoded character, any other byte 80-ff as Ḇ), while printable ASCII is shown as itself. The visible text is the concatenation of these representations in input order, nothing else. In binary mode without --decode UTF-8 and stray high bytes are ▯ and an escape sequence is its marker followed by the rest of its bytes.',
 ['inputs', 'configurations'], 'all byte strings, both modes',
 W0 + 'no test checks any marker.',
 ['kolombos/byteio/template/registry.py', 'kolombos/byteio/template/template.py', 'kolombos/byteio/parser/parser.py', 'kolombos/byteio/template/template_escape.py'],
 [('marker table', 'TemplateRegistry'), ('substitution', 'Template.substitute and overrides')])
prop('K06', 'Text mode output has one numbered line per input line',
 'In text mode the input lines (split after each 0a byte; an unterminated last line counts) appear in order, one output line each, prefixed with consecutive numbers starting from 1, right-aligned to at least two characters, and a separator; --no-line-numbers omits the prefix and changes nothing else. There are no blank, merged, split, repeated or missing lines, whatever the read buffer size; only the final empty line printed at exit follows.',
 ['inputs', 'configurations'], 'all byte strings, with and without --no-line-numbers, any buffer size',
 W0 + 'line assembly depends on the history of chunks.',
 ['kolombos/byteio/formatter/text.py', 'kolombos/byteio/segment/buffer.py', 'kolombos/console.py', 'kolombos/byteio/template/template_newline.py'],
 [('line detaching', 'SegmentBuffer.detach_line'), ('line prefix', 'ConsoleOutputBuffer.write_with_line_num'), ('line break', 'NewlineTemplate._process_byte')])
prop('K07', 'The visible output does not depend on the read buffer size',
 'For the same input and options the visible output (everything except SGR sequences) is the same for every read buffer size, in text and binary mode and at all marker detail levels; in particular sequences split between two reads are recognised as a whole. This also holds for a source that returns fewer bytes than requested.',
 ['inputs', 'schedules', 'configurations'], 'all byte strings, all splits of them into consecutive non-empty reads',
 W0 + 'the split points are a schedule no sample of fixed cases covers.',
 ['kolombos/byteio/reader.py', 'kolombos/byteio/parser/parser.py', 'kolombos/byteio/parser/buffer.py', BIO],
 [('incomplete tail kept', 'Parser.parse, ParserBuffer.crop_raw'), ('chunk callback', 'ByteIoRunner._process_chunk_buffered'), ('wait for more data', 'SegmentBuffer.detach_bytes/detach_line')],
 state=[dict(name='parser buffer', meaning='bytes read but not parsed yet'), dict(name='segment chain', meaning='parsed but not printed yet')])
prop('K08', 'Byte and line limits process exactly a prefix of the input',
 'With --max-bytes N (N >= 1) the visible output equals that for an input consisting of the first min(N, length) bytes. With --max-lines N (N >= 1) it equals that for the input cut right before its N-th newline byte, or for the whole input if it has fewer newlines; given both, the shorter prefix applies. This holds for every read buffer size, and a limit of zero means no limit.',
 ['inputs', 'configurations'], 'all byte strings, all positive limits, all buffer sizes, both modes',
 W0 + 'limits interact with chunk boundaries.',
 ['kolombos/byteio/reader.py'], [('limits', 'Reader.read')])
prop('K09', 'No input makes the program fail',
 'For every input and every combination of valid options processing terminates with exit code 0 and no error message: no byte sequence (malformed UTF-8, unusual or private SGR parameters, truncated escape sequences, very long runs) leads to an exception, an endless loop or an early stop. In particular everything up to the last input byte is processed.',
 ['inputs', 'configurations'], 'all byte strings, all valid options including debug levels',
 W0 + 'a crash needs one particular byte pattern.',
 ['kolombos/app.py', 'kolombos/byteio/parser/parser.py', 'kolombos/byteio/template/template_escape_sgr.py', 'kolombos/byteio/segment/segment.py'],
 [('error boundary', 'App.run, Console.on_exception'), ('SGR params parsing', 'EscapeSequenceSGRTemplate.set_details_fmt_str')])
prop('K10', 'Control characters of the input never reach the terminal',
 'No C0 control character or DEL coming from the input is ever written to the output in raw form, in any mode and with any options: besides the SGR sequences the program itself makes up, the output has no bytes below 20 or equal to 7f except the line breaks that end lines and, in text mode, the tabs that follow tab markers. Every ESC in the output starts a complete SGR sequence (ESC [, digits and semicolons, m).',
 ['inputs', 'configurations'], 'all byte strings, all options including --color-markers and debug levels',
 W0 + 'a leak needs a particular byte in a particular context.',
 ['kolombos/byteio/template/template.py', 'kolombos/byteio/template/template_escape.py', 'kolombos/byteio/template/template_escape_sgr.py', 'kolombos/byteio/formatter/_abstract.py'],
 [('substitution', 'Template._process_byte'), ('SGR details', 'EscapeSequenceSGRTemplate.set_details_fmt_str')])
prop('K11', 'Styles never leak across output lines',
 'Interpreting the SGR sequences in the output as a terminal does, all colors and attributes are back to default at the end of every output row or line and at the end of the output, in text and binary mode, for any input, focus/ignore options, marker details and --color-markers. Every style the program turns on is also turned off.',
 ['inputs', 'configurations'], 'all byte strings, all styling options',
 W0 + 'active-style bookkeeping across split segments and lines is history dependent.',
 ['kolombos/byteio/segment/buffer.py', 'pytermor/ansi.py', 'kolombos/console.py'],
 [('active styles', 'SegmentBuffer._detach, SegmentBuffer.attach'), ('closing sequence', '_SgrPairityRegistry.get_closing_seq')],
 state=[dict(name='active SGRs', meaning='styles opened but not closed yet')])
prop('K12', 'Ignoring one character class does not change how the others are shown',
 'Adding one or several --ignore-* options leaves the visible representation of all bytes outside of the ignored classes, the order of everything, row/line structure, offsets and line numbers unchanged. Each byte of an ignored class is replaced by exactly one "×" (an ignored newline in text mode still breaks the line after it).',
 ['inputs', 'configurations'], 'all byte strings, all sets of ignored classes, both modes',
 W0 + 'it relates two runs over all inputs.',
 ['kolombos/byteio/template/template.py', 'kolombos/byteio/template/template_escape.py', 'kolombos/byteio/template/template_newline.py'],
 [('display mode', 'Template.update_settings, LabelPOV'), ('ignored newline', 'NewlineTemplate._process_byte')])
prop('K13', 'Focusing and coloring options change styles only',
 'Options --focus-* and --color-markers never change the visible text (output with SGR sequences removed), with the single exception that a focused space is shown as "·" instead of "␣". Focusing a class changes the styling of bytes of that class only, and it does change it.',
 ['inputs', 'configurations'], 'all byte strings, all sets of focused classes, --color-markers, both modes',
 W0 + 'it relates two runs over all inputs.',
 ['kolombos/byteio/template/template.py', 'kolombos/byteio/template/registry.py', 'kolombos/byteio/partial_override.py', 'kolombos/byteio/template/template_escape_sgr.py'],
 [('override lookup', 'PartialOverride.get'), ('SGR styled markers', 'EscapeSequenceSGRTemplate._get_details_opening_seq')])
prop('K14', 'Marker details levels show exactly the documented information',
 'In text mode, level 1 adds to each generic control marker its caret letter (^A - ^Z, ^\\, ^], ^^, ^_) and to each SGR marker its parameters joined with "･" (leading zeros dropped, empty ones omitted, 38/48 palette and RGB colors folded into F/B followed by the index or six or more uppercase hex digits, non-numeric ones verbatim); level 2 adds two hex digits of the byte and all bytes of the sequence after ESC, respectively. At levels 1 and 2 every escape sequence (not ignored) is enclosed in "⢸" and "⡇" unless --no-separators is set. Level 0 adds nothing; all of this also holds for the last line of an input without trailing newline.',
 ['inputs', 'configurations'], 'all byte strings, levels 0-2, with and without separators',
 W0 + 'details depend on arbitrary parameter bytes.',
 ['kolombos/byteio/template/template_escape_sgr.py', 'kolombos/byteio/template/template_escape.py', 'kolombos/byteio/template/template_control.py', 'kolombos/byteio/segment/buffer.py'],
 [('SGR brief details', 'EscapeSequenceSGRTemplate.set_details_fmt_str'), ('control details', 'ControlCharGenericTemplate._fill_additional_segments'), ('separators', 'Template.wrap_in_separators')])
prop('K15', 'The segment queue hands out what was put in, in order, styled alike',
 'For any history of attaching segments to the segment queue and detaching byte counts from it, the detached pieces concatenated give exactly the attached data in order, each request returns min(requested, available) bytes and the queue length shrinks by that amount. Every piece is output in the style of the segment it came from, even when a segment is split between requests, and each detached portion leaves no style open.',
 ['histories', 'inputs'], 'all sequences of attach/detach operations with arbitrary contents, styles and sizes',
 'The unit tests do one attach and one or two detaches of fixed bytes; the guarantee is about every interleaving of splits and styles.',
 ['kolombos/byteio/segment/buffer.py', 'kolombos/byteio/segment/segment.py'],
 [('attach/detach', 'SegmentBuffer.attach, detach_bytes, _detach'), ('split', 'Segment.split')],
 state=[dict(name='segment chain', meaning='queue of segments and style references')])
prop('K16', 'Automatic columns fit the terminal and never hide data',
 'In binary mode without an explicit column count (or with 0) the number of columns is a positive multiple of four, and printed rows never exceed the terminal width if the terminal is wide enough for the smallest (four-column) row. On narrower terminals all data is still shown, four bytes per row.',
 ['configurations', 'inputs'], 'all terminal widths, all byte strings',
 'No test runs binary mode; the failure only shows on particular widths.',
 ['kolombos/byteio/formatter/binary.py', 'kolombos/common.py'], [('column computing', 'BinaryFormatter._compute_cols_num, get_terminal_width')])
prop('K17', 'A failing read is reported and never corrupts what was shown',
 'If opening or reading the input fails at any point, the program exits with code 1, prints an error message to stderr, closes the file, and everything it printed to stdout before that is a prefix of the regular output for the same input (cut at a row or line boundary). An interruption by the user (Ctrl+C) while the program waits for input ends it quietly: exit code 0, no message, the input is closed and the output is such a prefix as well. If the output fails (closed pipe, full disk) the program stops reading, closes the input and ends with exit code 1. Without failures the input is closed exactly when processing is over and the exit code is 0.',
 ['fault_sequences', 'inputs'], 'all byte strings, a failure or an interruption at any read call (or a failure at opening), a failure at any write, both modes',
 'No test injects a fault.',
 ['kolombos/app.py', 'kolombos/byteio/reader.py', 'kolombos/console.py'], [('error boundary', 'App.run, Console.on_exception'), ('closing', 'Reader.read, Reader.close')])
prop('K18', 'Debug output does not disturb regular output',
 'At any debug level (-D to -DDDD) the regular output rows and lines are present completely, unchanged and in order among the debug lines, apart from the line number prefix format and forced offsets; the exit code is the same. Debug levels never alter how bytes are classified or displayed.',
 ['inputs', 'configurations'], 'all byte strings, debug levels 1-4, both modes',
 W0 + 'debug code paths consult and preview live buffers for every input.',
 ['kolombos/console.py', 'kolombos/byteio/segment/buffer.py', 'kolombos/byteio/parser/parser.py'],
 [('debug printing', 'ConsoleDebugBuffer.write, Console.printd'), ('previews', 'SegmentBuffer.preview')])
prop('K19', 'Options mean the same in every documented spelling, order and place',
 'A set of options gives the same output whether options are written in short or long form, alone or in a cluster of short flags, with the argument attached, separated by a space or by "=", in any order, before or after the file name. Without a mode option text mode is used, and limits of zero, marker details 0 and a buffer of 4096 bytes equal leaving these options out. Contradictory options (text, binary and legend modes; focusing and ignoring the same class; decimal and no offsets; a file with --demo) and malformed usage (unknown option, missing or non-integer argument, two files) are refused with exit code 2, a message to stderr, nothing printed to stdout and nothing read. --help, --legend and --version print the same text whatever other (not contradictory) options are given, read nothing and exit with 0; the help lists every option, the legend does not show its comment lines.',
 ['configurations', 'inputs'], 'all pairs (and some triples) of options in all spellings, orders and places; all small data',
 'No test parses a command line.',
 ['kolombos/arghelp.py', 'kolombos/settings.py', 'kolombos/app.py', 'kolombos/runner/factory.py', 'kolombos/runner/legend.py', 'kolombos/runner/version.py'],
 [('option table', 'AppArgumentParser'), ('defaults', 'Settings.__init__, Settings.read_mode'), ('runner choice', 'RunnerFactory.create')])
prop('K20', 'Demo mode equals an ordinary run on the demo file',
 'With --demo the program prints exactly what it prints for the demo file with the options -b -d -w16 and the other given options, where explicit -t, -b, -w (0 being automatic) take precedence over the implied ones, then a hint mentioning --legend; the file is closed and the exit code is 0. This holds whatever the demo file contains.',
 ['configurations', 'inputs'], 'all demo file contents (bounded), all option combinations',
 'No test runs the demo.',
 ['kolombos/runner/demo.py', 'kolombos/settings.py'], [('implied options', 'DemoRunner.run, Settings.set_default_read_mode')])
prop('K21', 'Every character is drawn in the colors of its class',
 'Whatever the input is, each marker, each shown character and each pair of hex digits has exactly the colors and attributes the legend gives to its class: whitespace bright cyan (focused: black on cyan), printable color 102 (black on white), control red, NUL bright red, ESC bright yellow, binary magenta, UTF-8 bright blue, CSI bright green, nF green, other two-character escape sequences yellow (focused classes inverse), SGR resets 255 on 16, other SGR 210 on 16, ignored classes dim gray. Details (the bytes after the marker of an escape sequence, the caret letter or hex code of a control character) are underlined on color 16 in the color of the marker, those of SGR in no color; separators have color 255. With --color-markers the marker of an SGR sequence has exactly the colors and the dim, italic, overlined and crossed-out attributes the sequence sets, its details in addition the underline. Hex digits in binary mode look like the characters they belong to; the dot between SGR names is not underlined.',
 ['inputs', 'configurations'], 'all byte strings (bounded), all classes, focus, ignore and detail options',
 'The tests look at the library only; no test looks at the colors of the output.',
 ['kolombos/byteio/template/registry.py', 'kolombos/byteio/template/template.py', 'kolombos/byteio/template/template_escape.py', 'kolombos/byteio/template/template_escape_sgr.py', 'kolombos/byteio/template/template_control.py', 'kolombos/byteio/segment/buffer.py', 'kolombos/byteio/partial_override.py'],
 [('color table', 'TemplateRegistry.__init__'), ('details', 'Template._get_details_opening_seq'), ('SGR colors', 'EscapeSequenceSGRTemplate.set_details_fmt_str')])
prop('K22', 'Output keeps up with the input and reading stops at a limit',
 'The input is read in portions of exactly --buffer bytes (4096 by default, 128 in debug mode; possibly fewer under --max-bytes). Before the next portion is requested, every line (text mode) or full row (binary mode) that the data received so far completes has been printed; only an unfinished escape or UTF-8 sequence at its very end may be held back. As soon as the requested number of bytes or lines has been received nothing more is read, so limits also work on endless input. This holds for short reads, any data and any option values.',
 ['histories', 'inputs', 'configurations'], 'all input contents, portion sizes and limits (bounded)',
 'No test runs the reader; the order of reads and output is a property of the whole history.',
 ['kolombos/byteio/reader.py', 'kolombos/byteio/parser/parser.py', 'kolombos/byteio/formatter/text.py', 'kolombos/byteio/formatter/binary.py', 'kolombos/byteio/segment/buffer.py', 'kolombos/runner/byteio.py'],
 [('read loop', 'Reader.read, Reader._get_chunk_size'), ('held back tail', 'Parser.parse'), ('output', 'TextFormatter.format, BinaryFormatter.format')])
prop('P01', 'A span closes exactly the styles it opens',
 'For any list of SGR parameters a span can be built from, printing its opening, a text and its closing sequence on a terminal restores to default every color or attribute group that the opening sequence set (bold and dim are one group, so are the underline kinds, since one code ends both), and leaves all other attributes as they were before the span, except those the opening itself switches off. Multi-parameter colors (38/48 with mode 5 or 2) are treated as one unit, their operands are never interpreted as attributes.',
 ['inputs'], 'all lists of parameters (bounded length), all initial terminal states',
 'Doctests cover four fixed spans; the guarantee is over all parameter combinations.',
 ['pytermor/ansi.py'], [('pairing', '_SgrPairityRegistry.get_closing_seq'), ('wrapping', 'Span.wrap')])
prop('P02', 'SGR sequences assemble, combine, compare and hash consistently',
 'Assembling any SGR sequence gives ESC, "[", its parameters in decimal joined by ";" and "m" (nothing for a sequence without parameters; the lone parameter 0 may be omitted), so that parsing it back restores the parameters. A sequence can be made of numbers, names and other sequences in any order, their parameters following in that order. Adding sequences concatenates their parameters and leaves the operands intact; parts or operands of other kinds are refused with TypeError; sequences are equal if and only if their parameters are, and equal sequences have equal hashes. Spans are equal if and only if both their sequences are; sequences and spans never equal values of other kinds.',
 ['inputs'], 'all lists of non-negative integer parameters (bounded)',
 'Doctests cover three fixed sequences.',
 ['pytermor/ansi.py'], [('assembling', 'SequenceSGR.assemble'), ('operators', 'SequenceSGR.__add__, __eq__, __hash__, Sequence.__init__')])
prop('P03', 'SGR-aware string helpers see only the visible text',
 'Removing SGR sequences from a string deletes exactly the substrings made of ESC, "[", any digits and semicolons, and "m", and keeps everything else in order. Left, right and center justification keep the original string intact including its sequences, add only fill characters on the proper side(s) (center: both sides differing by at most one), and make the visible length exactly max(width, original visible length).',
 ['inputs'], 'all strings over text and escape characters, all widths and fill characters (bounded)',
 'Doctests cover one string.',
 ['pytermor/util/string_filter.py', 'pytermor/util/stdlib_ext.py'], [('SGR pattern', 'SGR_REGEXP, ReplaceSGR'), ('justification', 'ljust_sgr, rjust_sgr, center_sgr')])
prop('P04', 'Color conversions are exact',
 'Splitting any 24-bit color value into channels and joining them back restores the value, each channel being the respective byte; formatting prints exactly six hex digits of the value. The SGR sequence of an RGB color carries exactly its three channels, of an indexed color exactly its code, with 38 (30-37, 90-97) for foreground and 48 (40-47, 100-107) for background; converting to hue, saturation and value gives numbers within [0; 360), [0; 1] and [0; 1] consistent with the standard formula. Palette indexes and channels outside 0-255 are refused with ValueError. Two colors are equal if and only if they are of the same kind (16, 256 or RGB) with the same value and codes.',
 ['inputs'], 'all 2^24 color values, foreground and background, all palette entries',
 'Doctests cover two values.',
 ['pytermor/color.py'], [('channels', 'Color.hex_value_to_rgb_channels, rgb_channels_to_hex_value, hex_value_to_hsv_channels'), ('to_sgr, equality', 'ColorRGB/ColorIndexed16/ColorIndexed256.to_sgr, __eq__')])
prop('P05', 'Nearest color search returns a palette color at minimal distance',
 'For any 24-bit color value and any palette, the search returns a color of the palette whose squared RGB distance to the value is minimal among all registered colors, and a color present in the palette is returned as itself. The answer does not depend on earlier searches nor on the order in which they were made, and takes into account colors registered after an earlier search.',
 ['inputs', 'histories'], 'all color values, all small palettes with arbitrary colors, all short histories of searches and registrations, plus the built-in palettes',
 'No working test exists; caching makes it history dependent.',
 ['pytermor/color.py'], [('search', 'Approximator.find_closest, Approximator.approximate'), ('cache', 'Approximator.add_to_map')],
 state=[dict(name='approximation cache', meaning='results of earlier searches')])
prop('P06', 'Fixed-length float formatting has the exact length and right value',
 'Formatting any finite number to a required length L >= 1 with exponent notation allowed returns a string of exactly L characters, a plain or scientific number padded with blanks on the left. Whenever the number can be shown without exponent (0.01 <= |x| and its integer part with sign fits in L characters) the result reads as the number rounded to as many digits as fit (where rounding would need one digit more than there is, truncated; a single position shows 0 for |x| < 1), keeping its sign; with exponent it reads as the number within one unit of the last digit shown. Forbidding the exponent either gives the exact length too or raises ValueError for numbers that do not fit.',
 ['inputs'], 'all numbers (on a dyadic grid in the check), all lengths (bounded)',
 'Doctests cover seven values; length overflow only shows for values that round up to the next power of ten.',
 ['pytermor/util/auto_float.py'], [('formatting', 'format_auto_float')])
prop('P07', 'SI-prefixed numbers keep their magnitude and maximum length',
 'Formatting a value in the supported range with metric prefixes (base 1000) gives a number with an optional sign of at most four characters, a space, the prefix and the unit, such that number times prefix equals the value up to the rounding of the digits shown (truncation where rounding would need one more digit; at least two significant digits; one for negative values); values of 1 and more never get a fractional prefix and vice versa. The same holds for the binary formatter (base 1024, at most five characters, at most eight in total with the default unit), where bytes without prefix, also those of less than 1, are truncated to an integer.',
 ['inputs'], 'all values in the supported range (on a dyadic grid in the check)',
 'Doctests cover eight values.',
 ['pytermor/util/prefixed_unit.py', 'pytermor/util/auto_float.py'], [('prefix selection', 'PrefixedUnitFormatter.format')])
prop('P08', 'Time deltas are formatted within the limit and with the right amount',
 'For any number of seconds and any allowed maximum length, the result never exceeds the maximum length, and the amounts shown are the true ones rounded down (60 s, 60 min, 24 h, 30 days, 12 months): a single unit or two adjacent units whose total differs from the input by less than one of the smallest unit shown; from length 6 on, hours and days below 10 (from length 10 on, hours below 24) are always shown together with the next smaller unit. Too big values give an overflow mark instead of a wrong or longer result; negative values carry a minus sign where the format supports it.',
 ['inputs'], 'all durations (on a grid in the check), all maximum lengths >= 3',
 'Doctests cover four values.',
 ['pytermor/util/time_delta.py'], [('formatting', 'TimeDeltaFormatter.format_raw'), ('selection by length', '_TimeDeltaFormatterRegistry.find_matching')])
prop('P09', 'Renderers keep the text intact and close what they open',
 'For any text and any style, the SGR renderer output with SGR sequences removed is the text itself, each line of it is styled separately and exactly as the style says, and no attribute remains on after it or at line ends; with styling disabled the text is returned unchanged, as it always is by the no-op renderer. The tmux, HTML and debug renderers likewise contain the text unchanged between their markup.',
 ['inputs', 'configurations'], 'all texts (bounded) and all combinations of style attributes, colors and color capabilities',
 'Doctests render one word in one style.',
 ['pytermor/render.py'], [('renderers', 'SgrRenderer.render, TmuxRenderer.render, NoOpRenderer.render, HtmlRenderer.render, DebugRenderer.render')])
prop('P10', 'Style inheritance fills only what the child leaves unset',
 'A style created with a parent has every attribute and color it sets explicitly (including explicit False), takes the remaining ones from the parent, and the parent is never modified. Flipping a style swaps foreground and background only, and rendering never alters a style.',
 ['inputs'], 'all combinations of attribute values {unset, on, off} and colors of child and parent',
 'No test creates an inherited style.',
 ['pytermor/render.py'], [('inheritance', 'Style.__init__, Style._clone_from, Style.flip')])
prop('P11', 'Padding and digit grouping preserve the values',
 'Distributing a non-empty list of values over a given length returns a string of exactly that length containing all values in order with only spaces between them, at least one space per gap, gap sizes differing by at most one, or raises ValueError exactly when there is not enough space; the given list is left as it was. Grouping thousands in an integer inserts the separator between groups of three digits only: removing it restores the number, and all groups but the first have three digits.',
 ['inputs'], 'all lists of values and lengths, all integers (bounded)',
 'Doctests cover two numbers.',
 ['pytermor/render.py', 'pytermor/util/__init__.py'], [('distribution', 'distribute_padded'), ('grouping', 'format_thousand_sep')])
prop('P12', 'Text concatenation keeps contents and styles of its parts',
 'For any history of appending, prepending and adding strings and texts, the raw content of the resulting text is the concatenation of the parts in that order, its length is the total of theirs, and its rendered form is the concatenation of their rendered forms. Measuring, rendering or formatting a text does not change it, and any value other than None is converted to its string form.',
 ['histories', 'inputs'], 'all short sequences of operations with arbitrary contents and styles',
 'No test concatenates texts.',
 ['pytermor/render.py'], [('runs', 'Text.append, prepend, __add__, __radd__, __len__, raw, __format__')])
prop('P13', 'Custom time delta formatters never exceed their declared length and show true amounts',
 'For any formatter built from a list of units (each but the last with the number of units in the next one, the last with an overflow limit; optionally with a threshold below which an amount is followed by the remainder in the previous unit), no result is longer than its declared max_len, and asking for always_max_len pads the result with spaces on the left to exactly max_len. The amounts shown are the true ones rounded down: the biggest unit whose amount is under its ratio, together with the remainder in the previous unit while under the threshold, or the overflow message cut to max_len when the amount exceeds the limit. A registry of formatters picks the one with the greatest max_len not exceeding the requested length, and none if there is no such formatter.',
 ['inputs', 'configurations'], 'all small unit systems (ratios, thresholds, limits), all durations up to the overflow, all requested lengths',
 'Doctests use the four preset formatters only; the declared length is computed from a few samples and has to cover every duration.',
 ['pytermor/util/time_delta.py'], [('length computing', 'TimeDeltaFormatter._compute_max_len'), ('formatting', 'TimeDeltaFormatter.format, format_raw'), ('selection', '_TimeDeltaFormatterRegistry.find_matching')])
prop('P14', 'String filters replace exactly their targets and compose in order',
 'The whitespace filter replaces every blank (whitespace by Unicode, including tabs and separators) with the given mark, keeps each newline after its mark, and changes nothing else. The CSI filter replaces every sequence of ESC, "[", any digits and :;<=>? and a final "@" or letter with the given replacement (which may refer to groups) and nothing else; the non-ASCII filter replaces each byte 80-ff on its own and keeps all others. Calling a filter equals its apply(). Applying several filters (classes or instances) equals applying them one by one from left to right, each to the result of the previous one; no filters leave the string as it is.',
 ['inputs', 'configurations'], 'all strings and bytes over representative characters (bounded), all short lists of filters',
 'Doctests cover three strings.',
 ['pytermor/util/string_filter.py'], [('filters', 'VisualuzeWhitespace, ReplaceCSI, ReplaceNonAsciiBytes'), ('composition', 'apply_filters')])
prop('P15', 'Presets and colors are found by name in any case and used as given',
 'Looking up any preset of any registry (colors, sequences, spans, styles, codes) by its name in any letter case returns that very preset, any other name raises KeyError. A style created with, or assigned, a foreground or background given as a 24-bit number has an RGB color of exactly that value, given as a name or a color object has that very preset or object, given as None has no color. Picking the foreground automatically sets the dark grey preset if the background brightness (largest channel) is at least 45 % and the bright grey one otherwise, changes nothing else, and does nothing without a background.',
 ['inputs'], 'all presets, all letter cases (bounded), all short names, all 24-bit colors',
 'Doctests cover two lookups.',
 ['pytermor/common.py', 'pytermor/render.py'], [('lookup', 'Registry.resolve'), ('color arguments', 'Style._resolve_color, Style.fg, Style.bg'), ('automatic foreground', 'Style.autopick_fg')])
prop('P16', 'Custom prefixed unit formatters show the right amount, prefix and unit',
 'A formatter made of any list of prefixes, base, number length (long enough for base-1 with sign) and position of the unprefixed unit shows a value as number, separator, prefix and unit, where the unit given to the call takes precedence over that of the formatter; the number has at most the given length, and times the power of the base belonging to the prefix equals the value up to the rounding of the digits shown (truncated to an integer for the unprefixed unit if so requested). The result with the unit of the formatter is never longer than its max_len. Values beyond the list of prefixes never get a prefix of the list: they are shown with "?" in its place or refused with ValueError.',
 ['inputs', 'configurations'], 'several prefix systems, all values on a grid around and beyond their range',
 'Doctests use the two preset formatters only.',
 ['pytermor/util/prefixed_unit.py'], [('prefix selection', 'PrefixedUnitFormatter.format'), ('declared length', 'PrefixedUnitFormatter.max_len')])
prop('P17', 'Formatting settings are obeyed from the moment they are made',
 'For any history of renderer set-ups, changes of the default renderer and changes of the standard output, each rendering follows the settings in force at that moment and no earlier ones: with forced styles the SGR and tmux renderers always format, with force_styles None never, otherwise exactly when the current standard output is a terminal; unformatted text is returned unchanged. RGB colors become the nearest color of the 256 colors if only compatibility_256_colors is set, RGB and 256-colors become the nearest of the 16 colors if compatibility_16_colors is set (whatever the other setting), 16-colors stay. The debug renderer always formats. A setting not given in a set-up returns to its default, and rendering, formatting or printing a text or a style uses the default renderer of that moment, which is the SGR renderer after set_up().',
 ['histories', 'configurations', 'inputs'], 'all short histories of settings, all texts (bounded), styles with one attribute and one color of each kind',
 'Doctests set the renderer up once; what an earlier set-up leaves behind shows in sequences only.',
 ['pytermor/render.py'], [('settings', 'SgrRenderer.set_up, RendererManager.set_up'), ('decision', 'SgrRenderer.is_sgr_usage_allowed, SgrRenderer._render_color, DebugRenderer.is_sgr_usage_allowed'), ('default renderer', 'Renderable.render, Style.render, Text._TextRun.__format__')])
for p in P:
    p['anchors'].pop('observe_at', None) if not isinstance(p['anchors'].get('observe_at'), str) else None
    if 'observe_at' in p['anchors']: p['anchors'].pop('observe_at')
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + '\n')
print(len(P))
