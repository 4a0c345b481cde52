"""How each property is decided (oracle in short); used by gen_design.py."""
HOW = {
 'K01': 'the whole program in binary mode over symbolic input; hex columns of the printed rows are parsed back and must equal the input bytes (obligation per byte).',
 'K02': 'the same runs; row grammar (offset label, separator, hex part, padding, character column, final total) rebuilt by the oracle from the input and compared position by position.',
 'K03': 'Console.format_prefix_with_offset/format_total_size with an offset made of free digits (d hex/decimal digits, the number is their sum); the printed digits must be those digits. ConsoleOutputBuffer.write_with_line_num likewise with a symbolic line number and debug level.',
 'K04': 'one ignore option at a time; the positions of "×" are compared with the classes computed by the reference tokenizer.',
 'K05': 'visible text (SGR removed by the oracle, not by the code) compared with the marker table applied to the reference tokens.',
 'K06': 'output lines compared with the numbered input lines of the reference.',
 'K07': 'self-composition: the program is run twice on the same symbolic input, with one big read and with symbolic buffer sizes/short reads; visible outputs must be equal.',
 'K08': 'self-composition: run with limits against run on the prefix; the cut position is computed by the oracle from the symbolic data.',
 'K09': 'any exception, nonzero exit, stderr text or a path over 20 s is a violation; the total printed in the end must be the length of the input.',
 'K10': 'every byte of the output is checked: only printable, line breaks, tabs after markers and complete SGR sequences.',
 'K11': 'the output is fed to the terminal model; the state must be default at each line end.',
 'K12': 'self-composition with and without the ignore options, token by token.',
 'K13': 'self-composition with and without focus/colour options: same visible text; styles of the cells differ for focused tokens only and do differ for them.',
 'K14': 'visible text against the reference with details (caret table, SGR parameters, raw sequences, separators).',
 'K15': 'SegmentBuffer driven with symbolic operation kinds, contents, lengths and styles; a plain list is the oracle, the terminal model checks styles.',
 'K16': 'terminal width symbolic; computed column number and visible row widths checked.',
 'K17': 'the source (or the output) raises at a symbolic read (write) number; exit code, stderr, closing and prefix relation to the undisturbed run are checked.',
 'K18': 'self-composition with debug level 0 and 1-4: regular rows must be a subsequence of the lines in order.',
 'K19': 'symbolic choice of options, spellings, order and place of the file name (each is a decision of the path) and symbolic data and numbers; compared with the canonical spelling `--name=value ... file`; contradictory sets from an independent table must be refused.',
 'K20': 'self-composition: --demo with the content of the demo file symbolic against the explicit options on a file with the same content.',
 'K21': 'the output is fed to the terminal model; the state of every cell (markers, details, separators, hex digits) is compared with a colour table written from the legend, --color-markers with the terminal model applied to the parameters of the input sequence.',
 'K22': 'the source records size, position and amount of output of every read call; at each of them the lines printed so far are counted against the newlines or full rows of the symbolic data received (minus an unfinished sequence found by the oracle).',
 'P01': 'symbolic parameter lists; terminal model before/after the span, from any initial state of every attribute group.',
 'P02': 'symbolic parameters; strings are parsed back by the oracle; equality/hash over two symbolic lists (hash encoded as the residue modulo 2^61-1).',
 'P03': 'symbolic strings; reference scanner for SGR sequences.',
 'P04': 'all 2^24 values as one symbolic integer, all palette codes.',
 'P05': 'symbolic value, symbolic palettes and histories; minimality as a Z3 obligation against every registered colour.',
 'P06': 'symbolic numerator; the printed text is read back as a rational and compared with the exact one.',
 'P07': 'as P06, with the prefix table of the oracle.',
 'P08': 'symbolic seconds; amounts by integer division in the oracle.',
 'P09': 'symbolic texts and style attributes; SGR by the terminal model, tmux/HTML by small markup readers.',
 'P10': 'symbolic tri-state attributes of child and parent; snapshot of the parent before and after.',
 'P11': 'symbolic value lengths and total length; gaps measured on the result.',
 'P12': 'symbolic operation kinds and contents; list of parts as the oracle.',
 'P13': 'symbolic ratios, thresholds and limits of the units and symbolic seconds; amounts by integer division in the oracle.',
 'P14': 'symbolic strings; reference scanners for blanks, CSI sequences and bytes; symbolic choice of filter lists.',
 'P15': 'symbolic letter case and free short names (found iff such a preset exists), symbolic 24-bit values; brightness compared in integers.',
 'P16': 'symbolic numerator over several prefix systems; the printed number is read back as in P06.',
 'P17': 'symbolic settings, operation kinds, text and style; after each step the output is interpreted by the terminal (or tmux) model and compared with the style due under the settings of that moment.',
}
