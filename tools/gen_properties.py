#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for ids, titles, statements)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe or [], state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                     hook_needed=None)))
C='src/calculator/'
p('C01','A text program becomes a well-formed 8xp container',
 "Every 8xp file produced from a text program consists of a 55-byte header (signature and product id of the chosen model, 0x1A 0x0A, a 42-byte NUL-padded comment, total length), a 19-byte variable header, the body and a 2-byte checksum, with every length field equal to the size it describes. The name (NUL-padded to 8 bytes), file-type and destination bytes are the ones the text asked for. A program too large for the 16-bit length fields is refused with an error, never written with wrapped lengths.",
 ['inputs'],'every accepted text file: any name, file type, destination, display mode, model, and body of any length',
 'The tests convert nine fixed programs, all model "latest", type Program, destination RAM, 114 to 10149 body bytes.',
 [C+'file/from_txt.rs',C+'program.rs',C+'models.rs'],[('create_from_txt builds header, metadata, checksum',C+'file/from_txt.rs'),('Program::save_to concatenates the parts',C+'program.rs')],['Program::load_from_txt','Program::save_to','bytes of the written file'])
p('C02','Every calculator file written carries a valid checksum',
 "The last two bytes of every 8xp, 82p or 83p file the tool writes are the little-endian 16-bit sum of all variable-header and body bytes in that file. This holds for programs built from text, for resaved programs, and after any sequence of rename, comment, lock, unlock, archive and unarchive edits.",
 ['inputs','histories'],'every program, every sequence of edits, every body content',
 'Tests never look at the checksum after an edit and only compare it for nine fixed files.',
 [C+'file/from_txt.rs',C+'program.rs'],[('checksum over metadata and body',C+'file/from_txt.rs'),('save_to',C+'program.rs')],['bytes of the written file'])
p('C03','Resaving a valid 8xp file reproduces it byte for byte',
 "Loading a valid 8xp file and saving it as 8xp without editing it, directly or through a JSON export, yields exactly the original bytes. The display mode chosen for loading makes no difference.",
 ['inputs'],'every 8xp file that loads and whose checksum and lengths are consistent; every display mode',
 'No test writes any file at all; the round trip file to file is never exercised.',
 [C+'file/from_8xp.rs',C+'program.rs'],[('raw byte copies kept in Header, Metadata, Body, Checksum',C+'file/from_8xp.rs'),('save_to',C+'program.rs')],['Program::load_from_8xp','Program::save_to','Program::load_from_json'])
p('C04','Loading arbitrary bytes yields a program or an error, never a crash',
 "For a file with an 8xp, 82p, 83p, txt or json extension, whatever its length and content, loading terminates and either returns a program or reports an error; it never panics. The same holds for loading from and saving to any path, and for looking at it with the details command or converting it.",
 ['inputs'],'every file length including empty and truncated files, and every byte content',
 'Tests load only well-formed files.',
 [C+'file/from_8xp.rs',C+'file/from_txt.rs',C+'file/decode.rs',C+'file/encode.rs'],[('split_at on the raw bytes',C+'file/from_8xp.rs'),('line extraction',C+'file/from_txt.rs')],['Program::load_from_8xp','Program::load_from_txt','process exit status'])
p('C05','Loaded 8xp fields are exactly what the file bytes say',
 "After loading an 8xp file, the reported name, comment, file type, destination, version, flag, length fields and checksum are those stored at their documented offsets (text fields without their NUL bytes), and the model is the one identified by the product id and, for product id 0, the signature (**TI83F*: latest, **TI83**: TI-83, any other: TI-82). Files with an unknown file-type, destination or product-id byte are rejected.",
 ['inputs'],'every 74-byte header and variable header content',
 'Tests check only that a few lengths are consistent for nine files with identical type, destination and product id.',
 [C+'file/from_8xp.rs',C+'program.rs',C+'models.rs'],[('header and metadata translation',C+'file/from_8xp.rs'),('from_byte functions',C+'program.rs and '+C+'models.rs')],['Program::load_from_8xp'])
p('C06','An edit changes only its own field in the file',
 "Renaming changes only the 8 name bytes, commenting only the 42 comment bytes, lock/unlock only the file-type byte and archive/unarchive only the destination byte of the saved 8xp file, plus the two checksum bytes. The body and the file size never change.",
 ['inputs','histories'],'every loadable 8xp program, every accepted new name or comment, every edit',
 'Tests apply one edit each to a single program and compare a few slices in memory, never the file.',
 [C+'program.rs'],[('splice/assignment at fixed offsets in Header::comment and Metadata::*',C+'program.rs')],['Header.bytes','Metadata.bytes','written file'])
p('C07','Name and comment validation is exact and atomic',
 "A new name is accepted if and only if it has at most 8 characters, all ASCII letters, and is then stored in upper case; a new comment is accepted if and only if it has at most 42 characters, all below U+0100, and is stored as one byte per character. A rejected name or comment leaves the program completely unchanged.",
 ['inputs'],'every string offered as name or comment',
 'Tests try one good and four bad names and one good and one bad comment.',
 [C+'program.rs'],[('Metadata::rename and Header::comment guards',C+'program.rs')],['Metadata::rename','Header::comment'])
p('C08','Edits persist: any edit history reloads to its final state',
 "After any sequence of rename, comment, lock, unlock, archive and unarchive edits on an 8xp program, what the program object reports and what a fresh load of the saved file reports are the same, namely for each field the value set by the last edit of that field and otherwise the original value.",
 ['histories','inputs'],'every sequence of edits with every accepted argument',
 'Tests never reload an edited program and never combine edits.',
 [C+'program.rs',C+'file/from_8xp.rs'],[('byte and field updated together',C+'program.rs')],['Program::save_to','Program::load_from_8xp'])
p('C09','Decoding maps every token byte sequence to its published text',
 "Decoding a program body yields the concatenation, token by token, of the text that the published TI token sheet gives each one- or two-byte token for the chosen display mode and the file's model. A body that contains a byte sequence that is no token of that model, or ends inside a token, is rejected.",
 ['inputs','configurations'],'every body, every model that a file can identify, every display mode',
 'Tests decode nine programs in one display mode for one model, using a fraction of the 809 tokens.',
 [C+'file/decode.rs',C+'tokens/mod.rs',C+'tokens/standard_tokens/8X.json'],[('greedy one/two byte lookup',C+'file/decode.rs'),('token table',C+'tokens/mod.rs')],['Program::load_from_8xp','Body.translation'])
p('C10','A model gets exactly the tokens its newest OS supports',
 "For every calculator model the available token table contains a token exactly when the token was introduced no later than that model's newest OS and not withdrawn before it, and where a token's text changed over time it has the text current for that model.",
 ['configurations','inputs'],'every model and every since/until combination in the token data',
 'Tests only load the table for the "latest" model and only check that loading succeeds.',
 [C+'tokens/mod.rs',C+'models.rs'],[('since/until filters in load_tokens',C+'tokens/mod.rs'),('Model::model_order',C+'models.rs')],['load_tokens'])
p('C11','OS versions are totally ordered',
 "Comparison of OS versions is a total order: comparing a version with itself gives equal, swapping the operands reverses the result, and the relation is transitive. It orders by model generation first, then numerically by dotted version component, with an empty version before and the newest (\"latest\") version after all numbered ones.",
 ['inputs'],'every pair and triple of versions over all models',
 'No test compares two versions.',
 [C+'tokens/mod.rs',C+'models.rs'],[('impl Ord for OsVersion',C+'tokens/mod.rs')],['OsVersion::cmp','OsVersion::partial_cmp'])
p('C12','Max and min encoding always take the longest or shortest token',
 "When encoding in max mode, at every position the longest token text that the remaining line starts with is consumed, and in min mode the shortest one; the token's bytes are appended; of several tokens sharing a text the one with the lowest bytes is taken. Lines are separated by the newline token (a line break that ends the last line is no separator), and encoding fails exactly when at some position no token text matches.",
 ['inputs','configurations'],'every text, every display mode, every model, every possible token table',
 'Tests only encode nine texts in smart mode.',
 [C+'file/encode.rs',C+'tokens/mod.rs'],[('get_longest_matching_token / get_shortest_matching_token',C+'tokens/mod.rs'),('encode loop',C+'file/encode.rs')],['Map::get_longest_matching_token','Map::get_shortest_matching_token','Program::load_from_txt'])
p('C13','Encoding is deterministic',
 "Encoding the same text with the same model, display mode and encode mode gives the same bytes in every run, also when several tokens share the same text; nothing depends on the process's hash seed or on table order.",
 ['inputs','configurations'],'every text and token table, every hash seed (iteration order)',
 'A test run sees one hash seed per process and no ambiguous text.',
 [C+'tokens/mod.rs',C+'file/encode.rs'],[('selection over an unordered map',C+'tokens/mod.rs')],['Map::get_longest_matching_token','Map::get_shortest_matching_token'])
p('C14','Encoding never alters the program text',
 "Whenever a text is encoded successfully, in any encode mode, decoding the resulting body for the same model and display mode gives the text back, apart from theta look-alikes being unified, CRLF becoming LF, and the line break that ends the last line being dropped. (In the ti display mode the newline token has the text D6, so this concerns texts without line breaks there.)",
 ['inputs','configurations'],'every text, encode mode, display mode and model',
 'Tests compare fixed texts with fixed bytes.',
 [C+'file/encode.rs',C+'file/decode.rs',C+'file/from_txt.rs'],[('encode consumes exactly the matched text',C+'file/encode.rs'),('decode',C+'file/decode.rs')],['Program::load_from_txt','Program::load_from_8xp'])
p('C15','Smart encoding keeps literal words literal and code tokenized',
 "In smart mode the letters directly after an opening quote, prgm or the list marker are encoded with the shortest tokens, up to and including the first token that is not made of letters, the next quote, a store arrow or the end of the line. Everywhere else, including after a closing quote and on the next line, the longest tokens are used.",
 ['inputs','histories'],'every line of text: any nesting of quotes, Send(, program and list names and store arrows',
 'Tests contain few string literals and none holding token names after a space or code right after a closing quote.',
 [C+'file/encode.rs'],[('EncodeState and mode switching in encode',C+'file/encode.rs')],['Program::load_from_txt'],
 [('EncodeState','tokenisation context of the current line',C+'file/encode.rs')])
p('C16','Decoding to text and encoding back keeps the program',
 "Saving a loaded 8xp program (whose name the tool allows) as text in the accessible or ti display mode and loading that text gives a program with the same name, file type, destination, model generation and program text (line breaks at its end included), whatever control characters the comment contains and whether the text is encoded in smart or max mode. In the pretty display mode the same holds for max mode.",
 ['inputs','configurations'],'every loadable 8xp program with an alphabetic name',
 'The tests never save a text file and never reload one they produced.',
 [C+'program.rs',C+'file/from_txt.rs',C+'file/from_8xp.rs',C+'models.rs'],[('TXT branch of save_to',C+'program.rs'),('line parsing',C+'file/from_txt.rs')],['Program::save_to','Program::load_from_txt'])
p('C17','A JSON export loses nothing',
 "A program exported to JSON and imported again is the same program: same header, metadata, body, checksum, display mode, model and language, so that every later export gives the same file as without the detour.",
 ['inputs','configurations'],'every program, every model, file type, destination and display mode',
 'No test touches JSON.',
 [C+'program.rs',C+'models.rs',C+'tokens/mod.rs'],[('serde derives and the hand-written Model deserializer',C+'models.rs, '+C+'tokens/mod.rs')],['Program::save_to','Program::load_from_json'])
p('C18','Model registry is consistent',
 "Every model the tool lists can be selected by its printed name, maps back to that name, and determines a signature, product id and language (an unknown name selects the latest model); a file built for a model is recognised on loading as a model with the same signature, product id and token generation. File types, destinations and modes likewise convert to bytes or names and back without loss, and unknown bytes or names are refused.",
 ['configurations','inputs'],'every model, file type, destination, display and encode mode, and every byte or string offered in their place',
 'Tests use only the "latest" model and two of four file types.',
 [C+'models.rs',C+'program.rs',C+'mod.rs'],[('ModelDetails::from_model/from_byte, Model::from_string/to_string',C+'models.rs')],['ModelDetails','Model','FileType','Destination','DisplayMode','EncodeMode'])
p('C19','Saving never destroys an existing file without consent or purpose',
 "A save whose target already exists leaves it untouched unless the user answers y or Y (any other answer, readable or not, declines without crashing), and a save that is refused because the target has no or an unsupported extension never removes or alters an existing file, whatever was answered. A declined or refused save creates no file. A file that is replaced keeps its permissions, and a symbolic link to it stays one.",
 ['inputs','fault_sequences'],'every answer, target extension, target state and failing file operation',
 'No test saves a file.',
 [C+'program.rs'],[('overwrite prompt and type check in save_to',C+'program.rs')],['Program::save_to','file system'])
p('C20','Edit commands never lose the program',
 "When rename, comment, lock, unlock, archive or unarchive exits, either the original file is intact or the edited program is stored at the requested place; --delete-old removes the original only after the new file has been written to a different path. A command that fails reports a non-zero exit status and leaves the original file in place. (Declining to overwrite is no failure.)",
 ['inputs','fault_sequences'],'every combination of options, paths (including new file equal to old file), answers and failing file operations',
 'Tests never run a command.',
 ['src/commands/edit/mod.rs',C+'program.rs','src/main.rs'],[('save_edits',"src/commands/edit/mod.rs")],['file system after the command','exit status'])
p('C21','Mass conversion writes one result per program inside the output directory',
 "With an output directory other than the input directory and programs of distinct names, mass conversion writes only files directly inside the output directory, named after the program with the converted extension, one for every convertible program in the input directory, and never modifies the input files. Each result, and each view that is shown, is the one that converting that program alone with the same options gives. A program name taken from a file cannot make it write anywhere else.",
 ['inputs','configurations'],'every directory content and every program name stored in the files',
 'Tests never run the convert command.',
 ['src/commands/convert.rs',C+'program.rs'],[('output path built by joining the program name','src/commands/convert.rs')],['file system after the command'])
p('C22','Command line values reach the command they were given to',
 "For every command, a positional value, option value or flag given on the command line is used as given, in short or long spelling and in any option order, documented defaults apply exactly when an option is absent, and a missing required value or an argument that is not valid UTF-8 ends the command with a message and a non-zero exit status before any file is touched. -h or --help anywhere among the arguments of a command prints its help and does nothing else. (An option given last, without its value, counts as absent.)",
 ['inputs','configurations'],'every command and every arrangement and content of its arguments',
 'Tests never run the binary.',
 ['src/cli.rs','src/main.rs'],[('Command::get_option/get_arg/has','src/cli.rs'),('dispatch in main','src/main.rs')],['process behaviour'])
p('C23','Styled messages print any text without crashing',
 "Printing a status message that includes user-supplied text (names, comments, paths) never crashes, whatever characters the text contains, so that a command which did its work also reports success. Text without styling directives is printed unchanged.",
 ['inputs'],'every user-supplied text, including brackets and non-ASCII characters',
 'Tests never print anything.',
 ['src/styles.rs','src/commands/edit/comment.rs','src/commands/convert.rs'],[('prints! macro','src/styles.rs')],['standard output','exit status'])
p('C24','Token search describes the token asked for',
 "Searching for a token's accessible or pretty text, or for its byte code, prints exactly the definitions recorded for that token (the longest token the query starts with, when searching by text), and reports an error with a non-zero exit status when there is no such token or no definition.",
 ['inputs'],'every query text and byte code',
 'No test searches.',
 ['src/commands/search.rs',C+'tokens/mod.rs',C+'tokens/token_definitions.json'],[('byte format conversion and definition lookup','src/commands/search.rs')],['standard output','exit status'])
p('C25','82p and 83p programs convert to well-formed files',
 "A program loaded from an 82p or 83p file has the name, body and text of that file; saving it as 8xp gives a well-formed 8xp file for it, editing it behaves as for 8xp, and saving it in the format it came from gives a file of that format that loads back to the same program.",
 ['inputs','histories'],'every valid 82p or 83p file, name length, body and edit',
 'The 82p and 83p fixtures are not used by any test.',
 [C+'file/from_8xp.rs',C+'program.rs'],[('metadata synthesis for 17-byte headers',C+'file/from_8xp.rs'),('save_to',C+'program.rs')],['Program::load_from_8xp','Program::save_to'])
p('C26','Reported details match the file',
 "The details command and the text preview report the name, comment, model, language, destination and file type stored in the file, the size of its body and the total size of the 8xp file in bytes.",
 ['inputs'],'every loadable 8xp file',
 'Tests never look at the output.',
 ['src/commands/details.rs',C+'program.rs'],[('details_command','src/commands/details.rs'),('Program::to_string',C+'program.rs')],['standard output'])
p('C27','Content and preview views show exactly the program',
 "Looking at a program with convert --content or --preview and no output shows exactly what is stored. For an 8xp, 82p or 83p file, --content prints every byte of the program as an 8xp file, in order, as upper-case two-digit hexadecimal, 16 to a line separated by commas, and --preview prints the details (the nine lines the details command prints) and, after a line '----- Program -----', the program text. For a txt file --content prints the details and text and --preview the bytes of the 8xp file it becomes. For a JSON file --content prints the JSON of the export and --preview the bytes and then the details and text. With both options the content comes first, each view ends with an empty line, nothing is asked and no file changes or appears.",
 ['inputs','configurations'],'every program in every input format; every combination of the two views',
 'Tests never look at the output of the program.',
 ['src/commands/convert.rs',C+'program.rs'],[('convert_program prints the views','src/commands/convert.rs'),('Program::to_string',C+'program.rs')],['standard output','files'])
p('C28','Failures are reported and change nothing',
 "A command that cannot do its work, because its input is missing, is a directory, has no or the wrong extension or cannot be read, or not as a program, or because there is nowhere to save the result (a missing directory, a directory, a path below a file, a wrong extension, or for mass conversion an output path that is a file or cannot be created), prints a message, exits with a non-zero status without crashing, and creates, changes and deletes no file.",
 ['inputs','faults'],'every editing, details and conversion command, every kind of unusable input and output path',
 'Tests call library functions on usable files; no test runs a command, let alone a failing one.',
 ['src/commands/edit/','src/commands/convert.rs','src/commands/details.rs',C+'program.rs'],[('error exits of the commands','src/commands/'),('Program::save_to',C+'program.rs')],['standard output','process exit status','files'])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
