"""Texts for the evidence: the bounds of every check, what lies outside of them, and what is assumed."""

SHAPES = ('Input data: every string of up to 2 free bytes; pairs of words from a list of 14/26 word patterns (all kinds of escape and '
          'UTF-8 sequences, controls, blanks, stray high bytes, truncated sequences; free bytes inside the words); '
          'any one byte or any one word repeated 4, 9 or 34 (thorough: 3-260) times; sequences with up to 40 equal parameter and 12 equal '
          'intermediate bytes (K01, K04, K05, K07, K09, K14, K21); ')
BOUNDS = {
 'K01': SHAPES + 'up to 41 equal bytes with 15-17 columns; 4 and 64 KB of constant data around free bytes or a word at the 4096 and '
        '65536 byte boundaries; 0.5 KB of mixed data around a word. Columns 1-4, 15-17, 31, 65, 300, 400; buffer sizes 1-4, 100, default; '
        'decode; ignore options. Thorough: 3 free bytes, 3 words. Outside: more free bytes at once, other column counts.',
 'K02': SHAPES + '3 free bytes 80-ff and 4 bytes around the boundaries of 4-byte UTF-8; up to 40 equal bytes; 64 KB prefix with free '
        'last bytes; mixed data. Columns 1-9, 16, 33, 63, 65, 100, 300; with and without decode, offsets, decimal offsets. Outside: as for K01.',
 'K03': 'All positions below 16^d and 10^d for d = 4, 9, 12 (thorough: all d up to 16, 19, 24, 32), digits symbolic; all line numbers up to 10^6 (10^12).',
 'K04': SHAPES + '3 free bytes 80-ff; 4 bytes around the boundaries of 4-byte UTF-8; ESC and up to 3 free bytes 20-7f; each of six ignore options, text '
        'and binary mode. Outside: longer sequences (their form repeats), other option combinations.',
 'K05': SHAPES + '3 free bytes 80-ff; 4 bytes around the boundaries of 4-byte UTF-8; ESC and up to 3 free bytes 20-7f; a word at the 4096 byte boundary; a '
        'free byte inside 0.5 KB of mixed data. Text mode (details 0) and binary mode.',
 'K06': SHAPES + '5-7 bytes being newline or a letter; up to 120 newlines; 1000 lines with the last 4 bytes free; lines of 250-300 bytes; '
        'buffer sizes 1, 2, 3, 50, 60, default; with and without numbers.',
 'K07': SHAPES + '3-4 bytes 80-ff; ESC sequences up to 4 bytes; words at the 4096 boundary (compared with a 9000 byte buffer) and inside '
        '600 bytes of segments; read buffer 1-4, 50, 64, 200, 256, default; up to three short reads of symbolic sizes. Details 0 and 2.',
 'K08': SHAPES + 'up to 4 bytes being newline or a letter; 5000 bytes with limits around 4096; 80 lines of 64 bytes with line limits around '
        '4096 bytes; -B 0-5, -L 0-4, both together; buffers 1, 2, 100, default; both modes. N = 0 means no limit; negative N outside.',
 'K09': SHAPES + 'one free byte with all combinations of 9 options (two values each, debug 0/4); SGR parameters of up to 3 free bytes '
        '30-3f; lists of up to 5 numbers, colons and odd operands of 38/48; ESC with up to 3 bytes 20-7f; 6 KB of text followed by an SGR sequence with 500 parameters; mixed data. '
        'Termination: each path within 20 s.',
 'K10': SHAPES + 'SGR sequences with up to 2 free parameter bytes or lists of numbers; details 0-2, debug 0, 2, 4, decode, color markers.',
 'K11': SHAPES + 'SGR sequences with any 2 digits, 1dd, 4;dd, 31;dd and lists of numbers as parameters; mixed data; details 0-2; focus; color '
        'markers; 1-5 columns. The terminal model knows all attributes of ECMA-48 including fonts, frames and ideogram marks.',
 'K12': SHAPES + 'all subsets of up to three ignore options; text mode details 0, 2, binary mode 2, 3, 5 columns.',
 'K13': SHAPES + 'all subsets of up to three focus options and --color-markers; details 0-2; SGR sequences with lists of numbers.',
 'K14': SHAPES + 'SGR sequences with up to 3 free parameter bytes; 38/48 colors with up to 3 free digits per operand; parameters of 4-5 digits 0 and 9; details 1 and 2; separators.',
 'K15': 'Histories of up to 4 operations (attach one or 1-3 segments, detach) with symbolic segment lengths up to 4, contents, styles '
        '(12 kinds, two of them with free parameters) and request sizes up to 9; lines: up to 4 operations. Thorough: 5 operations, '
        'free operation kinds. Outside: longer histories.',
 'K16': 'Terminal widths 1-40, 60-500 and 500-1200 (all values), data of 0-18, 90, 600, 700 bytes and pairs of words; with and without offsets.',
 'K17': SHAPES + 'failure (OSError, ValueError, RuntimeError) of or Ctrl+C at any of the first 7 reads, failure of opening or of any of the first 13 writes; debug 0-4; buffers 1, 2, 300; mixed data; file, pipe and "-".',
 'K18': SHAPES + 'debug levels 1-4, text (details 0, 2) and binary mode.',
 'K19': 'All pairs of the 29 options with two spellings each, triples of 3-4 options with all spellings, clusters and places of the file name, numeric values '
        'of two choices each, 16 bytes of data holding every character class; defaults with one free byte or a word; 18 file names (blanks, @, +, %, dashes after --), numbers with up to 3 leading zeros; 27 malformed usages; '
        'three informational modes with any subset of four options. Abbreviated long options are outside.',
 'K20': 'Demo file contents of one free byte, one or two words or 0.5 KB of mixed data; -t/-b/none, -d, -w 0-5 or none, -m 0/2, any one ignore or focus option, '
        'offset notations, buffer sizes.',
 'K21': SHAPES + 'ESC with up to 3 bytes 20-7f; SGR sequences with up to 2 free parameter bytes, any two digits, lists of numbers, 38/48 colors with free '
        'digits; details 0-2; columns 2-9; several sets of focused or ignored classes; color markers of sequences that contain resets, private or malformed parameters are not decided.',
 'K22': SHAPES + 'buffers 1-3, 5, 10, 64, 128, 1000, 4095-5000, 20000, 70000, 1500000, 4096 (default) and 128 (default of debug mode), short reads, limits of 0-5 and 4095-4097 bytes, 0-3 and 63-66 lines; columns 1, 2, 7, 16, 64.',
 'P01': 'Parameter lists of up to 3 free parameters and up to 5 items with 38/48 and free operand bytes; two names; all presets; '
        'explicit spans with symbolic sequences. Thorough: up to 7 items. Outside: longer lists.',
 'P02': 'Up to 4 (thorough: 12) parameters 0-200 (two of them up to 99999), negative ones; sums of up to 5; comparison of sequences of '
        'up to 3 free parameters 0-200 and 9, 24 one-digit ones, spans of up to 2+1 parameters (the hash reduction modulo 2^61-1 is part of the encoding).',
 'P03': 'All strings of up to 4 (5, thorough 8) characters out of a set with ESC, [, digits, ;, m, letters, newline; up to 4 words; '
        'widths 0-20.',
 'P04': 'All 24-bit values; all 256 codes; pairs of colors of the three kinds with 4 values and 3 codes each.',
 'P05': 'All 24-bit values over the real 16 and 256 color palettes; histories of up to 5 (thorough) searches and registrations with '
        'palettes of up to 6 symbolic colors; k nearest.',
 'P06': 'Numbers n / 2^j for n in the stated ranges (fractions with up to 30 binary digits), lengths 1-6 (thorough: 1-12). Other doubles '
        'are outside: rounding of decimal digits of values off the dyadic grid is not encoded.',
 'P07': 'Numbers n * 10^k / 2^j in the stated ranges (every metric prefix from yocto to yotta, binary ones up to peta; single values per path are exact decimals or dyadic).',
 'P08': 'All whole seconds up to 4*10^10 (thorough: 10^12) in magnitude, 1/1024 s grid up to 4000 s; maximum lengths 3-25.',
 'P09': 'Texts of up to 4 (thorough: 6) characters from an alphabet with blanks, line breaks of all kinds, brackets, non-ASCII; all '
        'attribute subsets in groups; all 16 and 240 palette colors, free RGB values; HTML alphabet without "<" (no escaping is done).',
 'P10': 'Styles with two of the ten attributes set to True/False/unset in parent and child, two or three levels, colors.',
 'P11': 'Up to 4 (thorough: 6) values of up to 3 (6) characters, all lengths up to 16 (60), all padding flags; integers of up to 9 (30) digits.',
 'P12': 'Histories of up to 3 operations (append, prepend, add, radd, iadd) with strings, texts and styles; up to 2 characters each.',
 'P13': 'Formatters of 1-4 units with symbolic ratios (2-12, 24, 60), collapse thresholds, overflow limits, suffixes; whole and 1/4-1/16 '
        'seconds up to the overflow; the registry with three formatters.', 'P14': 'Strings of up to 3 (4 for CSI) characters out of ranges around all blanks and around ESC, brackets, parameter and final characters (replacement of CSI and of SGR sequences); up to 3 words; bytes of '
        'up to 6; up to 3 filters out of 8 on strings of 2 characters.',
 'P15': 'All presets of five registries with 4 letters of symbolic case (others all lower or all upper); free names of up to 3 letters, known names with one free character added or replaced, or one removed; all 24-bit values.',
 'P17': 'Histories of up to 3 (thorough: 4) steps (set-ups with all settings, with one setting, other renderer, other output, reset), texts of up to one character, bold, one '
        'color of each kind; via seven ways to render.',
 'P16': 'Seven prefix systems (bases 10, 1000, 1024; decimal, binary, with gaps) with 4-6 positions; values n*10^k/2^j around and beyond the range.',
}

LONGER = {
 'P01': 'Two parameter lists of 11 and 15 items with up to 4 free ones.',
 'P02': 'One sequence of 24 one-digit parameters, one sum of 9 and 12 parameters.',
 'P03': 'The same inside of long texts (around and within up to dozens of sequences), fields of up to 300 columns.',
 'P05': 'All greys over 11 colors with 9 results; searches after 12 and 60 earlier ones.',
 'P06': 'One case with results of 12 characters.',
 'P09': 'One or two free characters inside of a long text of many lines.',
 'P11': 'Eleven values over up to 200 columns, three over up to 400.',
 'P12': 'One operation on a text with 9 parts.',
 'P13': 'Formatters of 5 and 6 units.',
 'P14': 'One or two free characters in long strings with many matches; chains of 4 filters.',
 'P16': 'Systems with 8 and 10 prefixes.',
}
for _p, _t in LONGER.items():
    BOUNDS[_p] += ' ' + _t

ENGINE = ['CPython 3.12 semantics of str/bytes/int/float/re operations on symbolic values are modelled in /verif/symex; a sample of '
          'paths of every run is replayed on the untouched code and must give the same observations',
          'z3 answers are trusted']
KOL = ['standard input/output, open() and the terminal size are in-memory stand-ins given by the harness',
       'numeric option values are injected after argparse has parsed a placeholder number',
       'output is UTF-8']
EXTRA = {
 'K15': ['segments are attached and detached through SegmentBuffer directly'],
 'K03': ['Console.format_prefix_with_offset and Console.format_total_size are called directly'],
 'P04': ['hue/saturation/value are computed as exact rationals and compared with a tolerance of 1e-9'],
 'P06': ['numbers are dyadic rationals, for which the C library formats exactly; scientific notation may differ by one unit of the last digit'],
 'P07': ['numbers are dyadic rationals times powers of ten or two; float multiplication by a prefix is taken as exact'],
 'P08': ['fractions of a second are dyadic'],
}


def assumptions(prop):
    return ENGINE + (KOL if prop[0] == 'K' and prop not in ('K03', 'K15') else []) + EXTRA.get(prop, [])
