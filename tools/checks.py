"""Which harnesses decide which property, within which bounds."""

ASSUMPTIONS = [
    'the model of files, standard streams and process exit used during symbolic execution behaves like the operating system (validated by replaying witnesses natively)',
    'rustc\'s LLVM IR at opt-level 0 with overflow checks, cleaned by opt -O1, means the same as the released binary',
    'freeing the token table is not executed; memory is unbounded',
]


def J(entry, reach=(), cpus=4, thorough=None, tiers=None, app=False, tries=1, t_reach=None, t_time=None, **params):
    j = {'entry': entry, 'params': params, 'reach': list(reach), 'cpus': cpus, 'app': app, 'tries': tries}
    if thorough:
        j['thorough'] = thorough
    if tiers:
        j['tiers'] = tiers
    if t_reach is not None:
        j['thorough_reach'] = t_reach
    if t_time:
        j['thorough_time'] = t_time
    j['thorough_cpus'] = 8
    return j


T = ('thorough',)
ENC = ['encoded']

PROPS = {
    'C01': {
        'bounds': 'h_txt: names of 0..10 arbitrary ASCII bytes (thorough 14), each of the 25 models, 4 file types, 2 destinations, 3 display modes, 3 encode modes, LF and CRLF; h_txt_size: bodies of 27 sizes around every length-field boundary (0..2, 234..257, 510, 511, 65513..65537 bytes) with an arbitrary last letter or digit',
        'outside': 'non-ASCII names (refused by C07); comments of other shapes (C16); other body sizes',
        'jobs': [
            J('h_txt', ['file', 'rejected'], 8, {'max': 14}, max=10),
            J('h_txt_size', ['file', 'refused'], 8),
        ],
    },
    'C02': {
        'bounds': 'every sequence of up to 2 edits (thorough 3) of an 8xp program with 13 arbitrary header, metadata, body and checksum bytes, saved as 8xp, 82p and 83p; programs built from text as in C01, sizes up to the largest that fits; one edit of an 8xp program, saved in the 3 formats: bodies of 31 sizes from 0 to 65516 bytes of letters, line breaks and two-byte tokens with an arbitrary letter at the start, in the middle or at the end',
        'outside': 'longer edit sequences',
        'jobs': [
            J('h_sizes', ['done'], 8, what=7),
            J('h_edit_seq', ['8xp', '82p/83p'], 8, {'steps': 3}, steps=2, exts=1),
            J('h_txt', ['file'], 8, {'max': 10}, max=5),
            J('h_txt_size', ['file'], 8),
        ],
    },
    'C03': {
        'bounds': 'valid 8xp files with windows of arbitrary bytes: signature and product id; comment; name, type, version, destination; 1 body byte (thorough 2); every display mode; for the JSON detour one arbitrary byte anywhere; bodies of 31 sizes from 0 to 65516 bytes of letters, line breaks and two-byte tokens with an arbitrary letter at the start, in the middle or at the end',
        'outside': 'several windows arbitrary at once; longer arbitrary bodies',
        'jobs': [J('h_resave', ['loaded'], 4, {'bwin': 2}, window=w, bwin=1) for w in range(5)] + [J('h_json', ['round'], 8, seal=1), J('h_sizes', ['done'], 8, what=0)],
    },
    'C04': {
        'bounds': 'files of every length 0..100 with fixed content; 8xp/82p/83p files with 1 (thorough 2) arbitrary bytes in each metadata position and body; txt files of up to 4 (thorough 6) arbitrary bytes; a valid txt file with each line replaced by up to 2 (thorough 3) arbitrary bytes; the details and convert commands on truncated files; convert of a txt file with 1 to 3 characters of 2 to 4 bytes after 0..20 (thorough 40) letters in any of its lines; convert of a JSON export with one arbitrary, missing or last byte anywhere, to 8xp, txt, 83p and JSON; loading from and saving to paths with 2 arbitrary bytes',
        'outside': 'longer arbitrary content',
        'jobs': [
            J('h_short', ['done'], 2),
            J('h_any_path', ['works', 'error'], 2),
            J('h_any_meta', ['loaded', 'rejected'], 4, {'max': 2}, max=1),
            J('h_any_txt', ['done'], 2, {'max': 6}, max=4),
            J('h_any_line', ['loaded', 'rejected'], 4, {'max': 3}, max=2),
            J('h_short_cmd', ['works', 'error'], 8, app=True),
            J('h_any_json', ['works', 'error'], 8, app=True),
            J('h_wide', ['works', 'error'], 8, {'max': 40}, app=True, max=20),
        ],
    },
    'C05': {
        'bounds': 'every 74-byte header and variable header, in four windows of arbitrary bytes over a valid file: signature and product id; comment; name; flag, lengths, type, version, destination and checksum; bodies of 31 sizes from 0 to 65516 bytes of letters, line breaks and two-byte tokens with an arbitrary letter at the start, in the middle or at the end',
        'outside': 'windows arbitrary at the same time',
        'jobs': [J('h_fields', ['loaded'] + (['rejected'] if w in (0, 3) else []), 4, window=w) for w in range(4)] + [J('h_sizes', ['done'], 8, what=1)],
    },
    'C06': {
        'bounds': 'one edit with every accepted argument (name of 0..8 letters, comment of 0..42 characters) on a valid file with arbitrary name, type, destination, comment bytes; bodies of 31 sizes from 0 to 65516 bytes of letters, line breaks and two-byte tokens with an arbitrary letter at the start, in the middle or at the end',
        'outside': 'other bodies',
        'jobs': [J('h_edit_one', ['edited'], 4), J('h_sizes', ['done'], 8, what=2)],
    },
    'C07': {
        'bounds': 'names of 0..9 bytes of any UTF-8 text (thorough 12), comments of 0..46 (thorough 64) characters',
        'outside': 'longer names and comments',
        'jobs': [
            J('h_name', ['accepted', 'rejected'], 4, {'max': 12}, max=9),
            J('h_comment', ['accepted', 'rejected'], 4, {'max': 64}, max=46),
        ],
    },
    'C08': {
        'bounds': 'every sequence of up to 2 (thorough 3) edits with arbitrary arguments on an 8xp program with arbitrary name, type, destination and comment bytes; one edit: bodies of 31 sizes from 0 to 65516 bytes of letters, line breaks and two-byte tokens with an arbitrary letter at the start, in the middle or at the end',
        'outside': 'longer histories',
        'jobs': [J('h_edit_seq', ['8xp'], 8, {'steps': 3}, steps=2), J('h_sizes', ['done'], 8, what=3)],
    },
    'C09': {
        'bounds': 'bodies with one arbitrary byte alone, before and after other tokens, for all 9 models a file can name and 3 display modes; two arbitrary bytes beginning with a lead byte for 2 models (thorough 9); bodies of 31 sizes from 0 to 65516 bytes of letters, line breaks and two-byte tokens with an arbitrary letter at the start, in the middle or at the end',
        'outside': 'longer arbitrary bodies; other neighbours',
        'jobs': [
            J('h_sizes', ['done'], 8, what=6),
            J('h_decode', ['decoded', 'rejected'], 8),
            J('h_decode', ['decoded', 'rejected'], 8, {'models': 9, 'around': 3}, max=2, lead=1, models=2, around=1, t_time=3000),
        ],
        'assumptions': ['oracle: harness/src/sheet.rs, generated once from the token sheet 8X.xml of the repository and committed'],
    },
    'C10': {
        'bounds': 'the table of each of the 25 models at its newest OS, looked up at every key of one or two bytes; whole tables for 8 models at an arbitrary OS version of 7 shapes (up to d.ddddd)',
        'outside': 'versions of other shapes',
        'jobs': [
            J('h_table', ['token', 'no token'], 8),
            J('h_table_os', ['table'], 8),
        ],
        'assumptions': ['oracle: harness/src/sheet.rs, generated once from the token sheet 8X.xml of the repository and committed'],
    },
    'C11': {
        'bounds': 'pairs of versions over all 25 models and strings of up to 3 (thorough 4) characters out of digits, dot and "a", empty and latest; triples over 4 models and strings of up to 2 (thorough 3); numbered versions of 6 shapes against the numerical order',
        'outside': 'longer strings',
        'jobs': [
            J('h_order', ['generations'], 8, {'max': 4}, max=3),
            J('h_order', ['chain', 'generations'], 8, {'max': 3}, three=1, max=2),
            J('h_order_numbers', ['less', 'equal', 'greater'], 8),
        ],
    },
    'C12': {
        'bounds': 'selection: tables of 1..3 tokens with arbitrary texts of 1..2 letters arbitrary values of 0..3 (thorough 4) characters, every table order; encoding: the text templates of harness/src/tokens.rs with arbitrary characters (of one byte, and in set 7 of two to four bytes) in them, max and min mode, accessible, pretty and ti display mode, models latest and TI-82; every token of the newest model, at the start and in a literal, followed by an arbitrary character out of 12; lines, literals and numbers of lines of up to 257 (thorough 513) characters around such characters',
        'outside': 'texts of other shapes, longer arbitrary parts, other models',
        'jobs': [
            J('h_select', ['match', 'no match'], 8, {'max': 4}, tries=64),
            J('h_encode', ENC, 8, what=0, set=1),
            J('h_encode', ENC, 8, what=0, set=2),
            J('h_encode', ENC, 8, what=0, set=4, mode=2),
            J('h_encode', ENC, 8, what=0, set=5, mode=0),
            J('h_encode', ENC, 8, what=0, set=8),
            J('h_encode', ENC, 8, {'sizes': 23}, what=0, set=9, sizes=6),
            J('h_encode', ENC, 8, what=0, set=8, mode=0, tiers=T),
            J('h_encode', ENC, 8, what=0, set=8, mode=2, tiers=T),
            J('h_encode', ENC, 8, what=0, set=2, model=1),
            J('h_encode', ENC + ['rejected'], 8, what=0, set=7),
            J('h_encode', ENC + ['rejected'], 8, what=0, set=7, mode=0, tiers=T),
            J('h_encode', ENC, 8, what=0, set=0, tiers=T),
            J('h_encode', ENC, 8, what=0, set=3, tiers=T),
            J('h_encode', ENC, 8, what=0, set=1, model=1, tiers=T),
            J('h_encode', ENC, 8, what=0, set=6, mode=2, tiers=T),
        ],
    },
    'C13': {
        'bounds': 'selection: as in C12, under every table order; encoding: texts of up to 3 arbitrary characters out of 12 in 5 templates (accessible) and pretty templates with ambiguous tokens, 3 encode modes, 4 hash seeds',
        'outside': 'longer texts; for whole texts other hash seeds (selection itself is decided for every order)',
        'jobs': [
            J('h_select', ['match', 'no match'], 8, {'max': 4}, tries=64),
            J('h_encode', ENC, 8, what=3, set=2, tries=16),
            J('h_encode', ENC, 8, what=3, set=5, mode=0, tries=16),
            J('h_encode', ENC, 8, what=3, set=1, tries=16, tiers=T),
        ],
    },
    'C14': {
        'bounds': 'the text templates of harness/src/tokens.rs with arbitrary characters (of one byte, and in set 7 of two to four bytes) in them, 3 encode modes, accessible, pretty and ti display mode, models latest and TI-82; every token of the newest model, at the start and in a literal, followed by an arbitrary character out of 12; lines, literals and numbers of lines of up to 257 (thorough 513) characters around such characters; thorough: any two tokens in a row',
        'outside': 'texts of other shapes; line breaks in the ti display mode',
        'jobs': [
            J('h_encode', ENC, 8, what=1, set=1),
            J('h_encode', ENC, 8, what=1, set=2),
            J('h_encode', ENC, 8, what=1, set=3),
            J('h_encode', ENC, 8, what=1, set=4, mode=2),
            J('h_encode', ENC, 8, what=1, set=5, mode=0),
            J('h_encode', ENC, 8, what=1, set=8),
            J('h_encode', ENC, 8, {'sizes': 23}, what=1, set=9, sizes=20),
            J('h_encode', ENC, 8, what=1, set=8, mode=0, tiers=T),
            J('h_encode', ENC, 8, what=1, set=8, mode=2, tiers=T),
            J('h_encode', ENC, 8, what=1, set=10, tiers=T, t_time=3000),
            J('h_encode', ENC, 8, what=1, set=7),
            J('h_encode', ENC, 8, what=1, set=7, mode=0),
            J('h_encode', ENC, 8, what=1, set=0, tiers=T),
            J('h_encode', ENC, 8, what=1, set=2, model=1, tiers=T),
        ],
    },
    'C15': {
        'bounds': 'the text templates of harness/src/tokens.rs with arbitrary characters in them, accessible, pretty and ti display mode, models latest and TI-82; every token of the newest model, at the start and in a literal, followed by an arbitrary character out of 12; lines, literals and numbers of lines of up to 257 (thorough 513) characters around such characters',
        'outside': 'texts of other shapes',
        'jobs': [
            J('h_smart_quote', ['quoted'], 4),
            J('h_encode', ENC, 8, what=2, set=1),
            J('h_encode', ENC, 8, what=2, set=2),
            J('h_encode', ENC, 8, what=2, set=3),
            J('h_encode', ENC, 8, what=2, set=4, mode=2),
            J('h_encode', ENC, 8, what=2, set=5, mode=0),
            J('h_encode', ENC, 8, what=2, set=8),
            J('h_encode', ENC, 8, {'sizes': 23}, what=2, set=9, sizes=8),
            J('h_encode', ENC, 8, what=2, set=8, mode=0, tiers=T),
            J('h_encode', ENC, 8, what=2, set=8, mode=2, tiers=T),
            J('h_encode', ENC, 8, what=2, set=0, tiers=T),
            J('h_encode', ENC, 8, what=2, set=2, model=1, tiers=T),
        ],
    },
    'C16': {
        'bounds': '8xp files with a window of arbitrary bytes: signature and product id; comment; name of 0..8 letters; type, version, destination; and bodies with every one- or two-byte token, alone and between others, one-byte tokens also with blanks at both ends, for 1 model (thorough 9), in accessible and ti mode with smart or max encoding, in pretty mode with max encoding (min cannot encode lower-case letters on the TI-82; thorough: any two one-byte tokens in a row); bodies of 23 sizes from 0 to 1001 (thorough also 4095, 4096 and 10000) bytes of letters, line breaks and two-byte tokens with an arbitrary letter at the start, in the middle or at the end',
        'outside': 'bodies with more arbitrary tokens next to each other; pretty texts in smart mode (the tool warns that they cannot be accurately encoded)',
        'jobs': [
            J('h_sizes', ['done'], 8, {'sizes': 26}, sizes=23, what=5),
            J('h_text_round', ['round'], 8, window=0),
            J('h_text_round', ['round'], 8, window=1),
            J('h_text_round', ['round'], 8, window=2),
            J('h_text_round', ['round'], 8, window=3),
            J('h_text_round', ['round'], 8, {'models': 9}, window=4, models=1),
            J('h_text_round', ['round'], 8, {'models': 9}, window=4, models=1, mode=0),
            J('h_text_round', ['round'], 8, {'models': 9}, window=4, models=1, mode=2),
            J('h_text_round', ['round'], 8, tiers=T, window=5, models=1),
        ],
    },
    'C17': {
        'bounds': 'a program with one arbitrary byte anywhere in the file; two arbitrary comment bytes; programs built from text for all 25 models, 4 file types, 2 destinations and 3 display modes; the convert command to 8xp, 83p and txt with and without the detour, for one arbitrary name or comment byte, 9 signatures and product ids, 4 types, 2 destinations and 3 display modes; bodies of 31 sizes from 0 to 65516 bytes of letters, line breaks and two-byte tokens with an arbitrary letter at the start, in the middle or at the end',
        'outside': 'other combinations of arbitrary bytes',
        'jobs': [
            J('h_sizes', ['done'], 8, what=4),
            J('h_json', ['round'], 8, window=0),
            J('h_json', ['round'], 8, window=1),
            J('h_json_txt', ['round'], 8),
            J('h_json_cmd', ['round'], 8, app=True),
        ],
    },
    'C18': {
        'bounds': 'every string of 0..14 ASCII characters as a model name, of 0..18 as type, destination and mode names; every byte; every product id with every 8-byte signature; files built for all 25 models, tables compared at every token',
        'outside': 'longer and non-ASCII names',
        'jobs': [
            J('h_bytes', ['type', 'destination'], 2),
            J('h_names', [], 2),
            J('h_model_names', ['known'], 2),
            J('h_model_bytes', ['known', 'unknown'], 2),
            J('h_model_files', ['file'], 8),
            J('h_models_cmd', ['listed'], 2, app=True),
        ],
    },
    'C19': {
        'bounds': 'convert onto a target with each of 8 extensions, absent or with 3 arbitrary bytes in it, answered by end of input or up to 2 (thorough 3) arbitrary bytes with or without a line break; 10 targets in other, absent and same directories; the input a file, a symbolic link, one of two names of a file or in a linked directory, and 11 targets that are it, link to it, to another file, to no file or to themselves, are a second name of it, lie behind a linked directory or have names of 251 to 256 characters, with 4 permissions; with no fault, or the k-th modifying file operation (k < 5) failing or the process dying there; mass conversion over an existing result with 5 answers and ones with an arbitrary byte',
        'outside': 'longer answers; owners and times of files; several faults in one run; other processes changing the files; loss of unsynced data in a power failure',
        'jobs': [
            J('h_save_cmd', ['saved', 'declined', 'failed', 'killed', 'refused'], 8, {'answer': 3}, app=True, answer=2),
            J('h_place', ['done', 'refused', 'failed', 'killed'], 8, app=True),
            J('h_links', ['done', 'declined', 'impossible', 'failed', 'killed'], 8, {'at': 9}, app=True),
            J('h_mass_again', ['kept', 'replaced'], 4, app=True),
        ],
    },
    'C20': {
        'bounds': 'the 6 edit commands with 2 arbitrary name characters, comments of 12 and 43 characters with an arbitrary last one, 7 kinds of new file (none, absent, existing, the input itself by two spellings, unsupported and missing extension), with and without --delete-old, no answer or an arbitrary byte, an arbitrary comment byte; lock, comment and convert with 10 targets in other, absent and same directories; the input a file, a symbolic link, one of two names of a file or in a linked directory, and 11 targets that are it, link to it, to another file, to no file or to themselves, are a second name of it, lie behind a linked directory or have names of 251 to 256 characters, with 4 permissions; with no fault, or the k-th modifying file operation (k < 6) failing or the process dying there; 14 commands on a program with one arbitrary capital letter in the body, with the k-th (k < 16) reading operation (open, read, directory, canonical path), write to standard output or read of standard input failing',
        'outside': 'several faults in one run; loss of unsynced data in a power failure',
        'jobs': [
            J('h_edit_cmd', ['done', 'declined', 'failed', 'killed', 'refused'], 8, app=True),
            J('h_place', ['done', 'refused', 'failed', 'killed'], 8, app=True),
            J('h_links', ['done', 'declined', 'impossible', 'failed', 'killed'], 8, {'at': 9}, app=True),
            J('h_io', ['works', 'failed', 'mass', 'mass failed'], 8, {'at': 40}, app=True),
        ],
    },
    'C21': {
        'bounds': 'a directory with programs in 8xp, 83p, txt and json format, three that cannot be read, a directory named like a program and two other files, in two orders, for a program name of one arbitrary byte (thorough also two) alone and in 8 surroundings with dots, slashes and letters; output directory present, created on request, or declined; results already present with 5 answers and ones with an arbitrary byte; three programs of different formats with an arbitrary capital letter or digit, in 4 display and 4 encode modes, with and without views and output; a directory with one more entry of 12 kinds (2 arbitrary bytes in the file name, 3 as its extension, near misses of an extension, names that begin with dots or dashes, links to programs, directories and nowhere, empty files, 12 more programs, directories, programs without a name, 82p and 83p), listed first or last, with 6 spellings of the output (also inside the input directory) and 5 of the input',
        'outside': 'several arbitrary names at once; output directory equal to the input directory; longer arbitrary names',
        'jobs': [
            J('h_mass', ['named', 'other', 'declined'], 8, {'max': 2}, app=True, max=1),
            J('h_mass_again', ['kept', 'replaced'], 4, app=True),
            J('h_mass_same', ['written', 'shown', 'refused'], 8, app=True),
            J('h_mass_dir', ['inside', 'outside'], 8, app=True),
        ],
    },
    'C22': {
        'bounds': 'the 6 edit commands with value, --new-file and --delete-old in every order and both spellings, values of 2 (or 3) arbitrary ASCII characters, one arbitrary character after -, -h, --hel and --help, and 10 that look like options or commands, 3 inputs and 4 new files of that kind; convert with output, display mode, encode mode, content and preview in every order of up to 3 of them (thorough all), valid, invalid and default values; 20 incomplete command lines; unknown commands of 3 arbitrary characters and one character away from lock; -h and --help at every place of 14 command lines, and the help command; 3 bytes that are not UTF-8 in place of, after or within any argument of 10 command lines',
        'outside': 'longer arbitrary values; repeated options',
        'jobs': [
            J('h_cli_edit', ['done', 'help', 'refused'], 8, app=True),
            J('h_cli_convert', ['written', 'refused'], 8, {'all': 1}, app=True),
            J('h_cli_missing', ['refused'], 8, app=True),
            J('h_cli_help', ['help', 'version'], 4, app=True),
            J('h_cli_bytes', ['refused'], 4, app=True),
        ],
    },
    'C23': {
        'bounds': 'comments, unknown text, output paths and stored names with up to 3 arbitrary ASCII characters in 8 templates of brackets, styling directives and wide characters',
        'outside': 'longer arbitrary text',
        'jobs': [
            J('h_print', ['plain', 'styled'], 8, app=True),
            J('h_print_more', ['name', 'path', 'token'], 8, app=True),
        ],
    },
    'C24': {
        'bounds': 'queries of one arbitrary ASCII character after 8 beginnings, as accessible and pretty text; byte codes of up to 2 (thorough 3) arbitrary hex-like digits after 3 beginnings; the accessible text, pretty text and byte code of every token of the newest table, alone and followed by one of 7 characters',
        'outside': 'longer arbitrary queries; the query "--", which the command line takes for a missing value',
        'jobs': [
            J('h_search', ['found', 'not found'], 8, app=True, kind=0),
            J('h_search', ['found', 'not found'], 8, app=True, kind=1),
            J('h_search', ['found', 'not found'], 8, {'digits': 4}, app=True, kind=2, digits=3),
            J('h_search', ['found', 'not found'], 8, app=True, kind=3),
            J('h_search', ['found', 'not found'], 8, app=True, kind=4),
            J('h_search', ['found', 'not found'], 8, app=True, kind=5),
            J('h_search', ['found', 'not found'], 8, app=True, kind=0, max=2, leads=1, tiers=T, t_time=1500),
        ],
        'assumptions': ['oracle: harness/src/sheet.rs and harness/src/defs.rs, generated once from the token sheet and the token definitions of the repository and committed'],
    },
    'C25': {
        'bounds': '82p and 83p files with their own and a Plus signature, and windows of arbitrary bytes: 2 name bytes at 3 places; 2 comment bytes at 3 places; every file type and bodies of 0..1 (thorough 2) arbitrary one-byte tokens; each with no edit or one edit (thorough 2) with arbitrary arguments; bodies of 14 sizes up to 4096 bytes of one arbitrary letter; saved as 8xp and in the original format and loaded again',
        'outside': 'longer arbitrary windows; longer edit histories; files whose stored lengths or checksum are wrong',
        'jobs': [
            J('h_old', ['loaded', 'edited'], 8, {'steps': 2}, window=0),
            J('h_old', ['loaded', 'edited'], 8, {'steps': 2}, window=1),
            J('h_old', ['loaded', 'edited'], 8, {'max': 2}, window=2),
            J('h_old', ['loaded'], 8, window=3, steps=0),
        ],
        'assumptions': ['oracle: harness/src/sheet.rs, generated once from the token sheet 8X.xml of the repository and committed'],
    },
    'C26': {
        'bounds': '8xp files with windows of arbitrary bytes: 2 comment bytes at 3 places; 2 name bytes at 3 places; 9 signatures and product ids with 4 types and 2 destinations; bodies of 11 sizes up to 5000 bytes of one arbitrary letter; stored lengths, archive flag, version and checksum that say something else; details command and convert --preview',
        'outside': 'longer arbitrary windows; programs loaded from other formats',
        'jobs': [J('h_details', ['details', 'preview'], 8, app=True, window=w) for w in range(5)],
        'assumptions': ['oracle: harness/src/sheet.rs, generated once from the token sheet 8X.xml of the repository and committed'],
    },
    'C27': {
        'bounds': '8xp, 82p, 83p, txt and JSON files of a program with one arbitrary byte in the comment, in the name or an arbitrary capital letter in the body, 15 sizes around the ends of lines and of bytes, blanks at its start and end; 2 file types and 2 destinations; --content, --preview and both',
        'outside': 'several arbitrary bytes; display modes other than accessible (C09); views together with an output path (C21)',
        'jobs': [J('h_view', ['8xp', '82p', '83p', 'txt', 'json'], 8, app=True)],
    },
    'C28': {
        'bounds': '12 commands (the six edits, details, convert with views and outputs, mass conversion) with 14 kinds of failure, each with an arbitrary byte where the kind has one; edits in place or to a new file, with and without --delete-old; 14 commands with the k-th (k < 16, thorough 40) reading operation, write to standard output or read of standard input failing',
        'outside': 'other kinds of failure; write errors (C19)',
        'jobs': [
            J('h_fail', ['edit', 'other'], 8, app=True),
            J('h_io', ['works', 'failed', 'mass', 'mass failed'], 8, {'at': 40}, app=True),
        ],
    },
}

NOT_APPLICABLE = {}
