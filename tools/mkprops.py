#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the list stays readable)."""
import json, os
P = []
W, B, L_, C, G, M, T, U = ('src/pygcode/words.py', 'src/pygcode/block.py', 'src/pygcode/line.py', 'src/pygcode/comment.py',
    'src/pygcode/gcodes.py', 'src/pygcode/machine.py', 'src/pygcode/transform.py', 'src/pygcode/utils.py')
D = 'src/pygcode/dialects/linuxcnc.py'
N, K = 'scripts/pygcode-norm', 'scripts/pygcode-crop'
def p(id, title, statement, over, text, why, files, mech):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
        why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=mech, where=files[0])])))

p('C01', 'Word values survive being parsed and printed',
  'Reading a word (letter and plain decimal value) and printing it gives plain decimal text, with no exponent, that denotes the same letter and the same value to within 0.0005 for numeric letters, exactly for integer letters (N, L) and for G/M codes, and the identical text for T. This holds for values of any magnitude up to 10^9, negative or positive, however many digits were written.',
  ['inputs'], 'every word letter of the linuxcnc dialect x every plain decimal value up to 10^9',
  'Tests print a handful of words with small values; precision loss depends on magnitude and digit count.',
  [W, D], 'Word value class and value cleaning functions per letter')
p('C02', 'A printed line reads back as the same line',
  'For every valid program line, printing the parsed line and parsing that text again gives the same codes with the same parameters (to the printed 0.001 resolution), the same modal parameters, the same comment text and the same macro. Printing the second parse gives exactly the first printed text.',
  ['inputs'], 'every line built from supported codes, parameters (written after their code), comments and macros',
  'Tests parse a few fixed lines and rarely re-parse what was printed.',
  [L_, B, W, C], 'Line/Block/GCode/Word __str__ and the parser')
p('C03', 'Layout, letter case and leading zeros never change what a line means',
  'Two texts of the same words in the same order that differ only in letter case, in white space before, between or inside words (after the letter), or in leading zeros of numbers other than T and zeros at the end of decimal fractions parse to equal codes, parameters and modal parameters.',
  ['inputs'], 'every valid line x every layout of it',
  'Tests fix one layout per line.', [W, B, D], 'tokeniser and per-letter value expressions')
p('C04', 'Comments and macros never alter the code around them',
  'Inserting bracket comments between words, a semicolon comment at the end, or a %macro% at the end of a valid line leaves its codes, parameters and modal parameters unchanged, whatever characters the comment holds (except its own terminator, newlines and, for semicolon comments, %). The parsed comment contains the text of every inserted comment, in order, and the macro text is returned as written.',
  ['inputs'], 'every valid line x every placement and text of comments',
  'Tests use a few benign comment texts with a single comment style per line.',
  [C, L_], 'split_line and the line expression')
p('C05', 'Every word of a line ends up in exactly one place',
  'When a line parses, each of its words is exactly one of: a code, a parameter of one code, or a modal parameter; none is lost, invented or duplicated. A word belongs to the last code before it that accepts its letter; if there is none it is a code if it denotes a supported code, otherwise a modal parameter.',
  ['inputs'], 'every sequence of words over all letters and all supported and unsupported codes',
  'Tests check a few fixed word sequences; the assignment depends on the order and combination of all words on the line.',
  [G, B], 'words2gcodes grouping of words')
p('C06', 'Any single line of text is parsed or refused with a documented error',
  'Reading any single line of up to 256 characters terminates and either gives a line or raises one of the documented parsing errors (invalid word, invalid parameter) or the block verification assertion; no other exception escapes. A line that parses can be printed, and its comment, macro and block can be inspected, without an exception.',
  ['inputs'], 'every single line string up to 256 characters, including non-ASCII',
  'Tests feed only well formed text.', [L_, C, B, W], 'tokeniser, comment splitter, word grouping')
p('C07', 'A line is refused exactly when its codes conflict',
  'A line whose words are individually valid is refused if the same code occurs twice, or two codes of one modal group occur, or one code is given the same parameter letter twice; otherwise it is accepted. With verification switched off only the repeated parameter is refused.',
  ['inputs'], 'every combination of supported codes on one line',
  'Tests try a few pairs; the rule is about all pairs of about 100 codes.',
  [B, G], 'Block._assert_gcodes, GCode.add_parameter, modal group table')
p('C08', 'Codes built in Python equal the same codes parsed from text',
  'Constructing a code from its class with parameters, reading and setting its parameters as attributes, and listing them as a dict behaves as if the resulting code had been parsed from text: it compares equal to, and prints the same as, the parsed code. Giving a code (when constructing it, or adding to it) a parameter letter it does not accept, or a parameter twice, is refused with the parameter error and leaves the code unchanged.',
  ['inputs', 'histories'], 'every code class x every sequence of parameter reads and writes',
  'Tests build a few codes with one or two parameters.', [G], 'GCode constructor and attribute protocol')
p('C09', 'Words and codes compare, sort and hash consistently',
  'Words are equal exactly when letter and value are equal, equal words hash alike and act as one key in sets and dicts, and the six comparisons form a total order by letter then value; a word is equal (or unequal) to text exactly when it is to the word the text denotes. Codes are equal exactly when their word and all parameters are equal.',
  ['inputs'], 'every pair/triple of words and codes',
  'Tests sort one short list.', [W, G], 'rich comparison and hash methods')
p('C10', 'The machine ends every program at the right position',
  'Processing any program of rapid, linear, arc, spline (G5, G5.1), synchronized (G33) and canned moves, explicit or modal, under G90 or G91, in any of the planes XY, ZX and YZ, leaves the machine after each line at the position the G-code standard defines: absolute words replace coordinates, incremental words add to them, unmentioned axes stay. Non-motion codes never move it.',
  ['programs', 'histories'], 'every program over these codes',
  'Tests check one or two short absolute programs.', [M, G], 'Machine.move_to, GCode processing, modal handling')
p('C11', "The machine's mode always reflects the last code of each modal group",
  'After any program, the mode of every modal group (motion, plane, distance, arc distance, feed mode, units, cutter and length compensation, return level, coordinate system, path control, spindle mode and state, coolant, overrides, stopping, feed, speed, tool) is the last code executed in that group, or the default if none was. G80 leaves no motion mode, non-modal codes change nothing, and a canned cycle retains its R, Z, X, Y and P or Q parameters for later modal lines.',
  ['programs', 'histories'], 'every program over the supported codes',
  'Tests look at the default mode and a couple of changes.', [M, G], 'Mode.set_mode, modal groups, modal_copy')
p('C12', 'Codes of a line execute in the standard order, not text order',
  'For any line, the codes are processed in the LinuxCNC order of execution (feed mode, feed, speed, tool, I/O, tool change, spindle, coolant, overrides, dwell, plane, units, cutter compensation, length compensation, coordinate system, path control, distance mode, return mode, reference/offset codes, motion with G80 before other motion, stop), whatever their order in the text. Every code is processed exactly once.',
  ['inputs', 'programs'], 'every line of mutually compatible codes x every order of them',
  'Tests sort one fixed list of codes.', [G, M], 'exec_order, process_gcodes sorting')
p('C13', 'Work and absolute coordinates stay consistent with the coordinate system',
  'For any coordinate system selected with G54 to G59.3, any offsets set on the systems and any temporary offset, the work position is the absolute position minus both offsets (the temporary one alone when no system is selected), converting there and back is the identity, and selecting another system changes the work position but not the absolute one. Absolute-mode moves set the work position, incremental moves displace both by the same amount.',
  ['histories', 'configurations'], 'every sequence of selections, offset changes and moves',
  'Tests do not set offsets.', [M], 'State, abs2work/work2abs, coordinate system codes')
p('C14', 'The recorded motion range is the exact bounding box of positions reached',
  'After any program the recorded minimum and maximum corners are, for every axis of the machine, exactly the smallest and largest absolute coordinate at any line end so far, the start included. The range never shrinks and covers exactly the axes of the machine.',
  ['programs', 'histories'], 'every program, for machines with any set of axes',
  'Tests check the range once.', [M], 'Machine._update_abs_range, Position.min/max')
p('C15', 'A copied machine is equal and fully independent',
  'A copy of a machine taken at any point of any program has the same mode, position, motion range, coordinate systems and selection and treats invalid modal words alike, and processing the rest of the program on the original, the copy or both gives each the result it would have had alone.',
  ['histories', 'programs'], 'every program x every point of copying',
  'Copying is not tested.', [M], 'Machine/State/Mode/Position __copy__')
p('C16', 'Canned cycles leave the machine at the right return level and hole',
  'Processing a canned cycle leaves the planar axes at the hole (L times the increment under G91), and the plane-normal axis where it was under G98 or at the R level under G99 (R absolute under G90, relative to the level before the cycle under G91, however many repeats), for any plane. Repeating the cycle modally with some words omitted uses the retained ones, and G80 or any other motion ends it.',
  ['programs', 'histories'], 'every drilling/boring cycle x planes x distance and return modes x repeats',
  'Tests process no canned cycles on the machine.', [G, M], 'GCodeCannedCycle processing and retained parameters')
p('C17', 'Filling in the modal code is equivalent to processing the line',
  'The full list of codes a machine reports for a line (the line\'s own codes plus the modal motion carrying the line\'s modal parameters) has exactly the effect, on position and mode, of processing the line itself, is in execution order, and asking for it changes neither the machine nor the line. Processing text, a parsed block, or its codes and modal parameters are all the same.',
  ['programs', 'histories'], 'every line in every reachable machine state',
  'Tests process whole lines only.', [M], 'block_modal_gcodes, modal_gcode, process_block/process_str')
p('C18', 'Lines that cannot be processed are refused; cleaning removes only those words',
  'A line whose modal parameters cannot be assigned in the current motion mode is refused with the machine state error and leaves position, mode and range unchanged. Cleaning a block, or a machine told to ignore invalid modal words, drops exactly the words that cannot be assigned and the line then acts as if they had not been written.',
  ['inputs', 'histories'], 'every line x every motion mode',
  'Tests cover none of the refusal paths.', [M], 'modal_gcode, clean_block, ignore_invalid_modal')
p('C19', 'Position arithmetic, comparison and unit conversion are exact and pure',
  'Adding, subtracting, scaling, dividing, per-axis minimum and maximum, comparing and converting positions act on every axis separately, keep the axes, unit and value of the left operand\'s system, convert units by 25.4 when operands differ, and never change their operands. Axes a position does not have are refused when set, and when adding positions with different axes.',
  ['inputs'], 'every pair of positions over every set of axes and both units',
  'Tests use a couple of fixed positions.', [M], 'Position class')
p('C20', 'Linearised arcs join up and end exactly at the arc end',
  'For any valid arc (G2 or G3; centre or radius form; absolute or incremental distances and centre; any of the three planes; helical or flat; full circles), executing the generated straight moves in the given distance mode goes from the start position to the arc\'s end position, to 0.001 per axis, and only straight feed moves are generated. Motion along the plane normal progresses linearly with the swept angle.',
  ['inputs'], 'every valid arc x mode x plane x method x precision',
  'Tests linearise a few XY arcs and mostly inspect counts.', [T, G], 'linearize_arc and vertex generators')
p('C21', 'Linearised arcs follow the arc: within tolerance, right way, all of it',
  'Every point of the generated path is within the requested tolerance of the true arc\'s radius about its centre, the path turns monotonically in the commanded direction (G2 clockwise, G3 counter-clockwise seen from the positive normal), and it sweeps the commanded angle: the minor arc for positive R, the major arc for negative R, the full turn when the end is the start, and a full turn more for each further turn its P word asks for.',
  ['inputs'], 'every valid arc x plane x method x tolerance up to the radius',
  'Tests check a few arcs in the XY plane by sampling.', [T], 'linearize_arc centre/angle maths, wedge angles')
p('C22', 'Inside, outside and mid linearisation stay on their promised side',
  'With the inside method every vertex lies on the arc and no point is outside it; with the outside method no point of the path is inside the arc; with the mid method the path stays within half the tolerance on either side. In all three the number of segments is no more than needed for the tolerance (plus one for the half segments).',
  ['inputs'], 'every valid arc x tolerance',
  'Tests sample a few arcs.', [T], 'ArcLinearizeInside/Outside/Mid radii and phases')
p('C23', 'Impossible arcs are refused, never approximated',
  'An arc without a destination, with neither or both of centre and radius, with radius zero, whose radius is too small to reach the destination, in radius form ending where it starts, or with a number of turns that is no positive integer, is refused with the parameter error before any move is generated; those that are impossible wherever they start are refused by the code\'s own assert_params too. Valid arcs, exact semicircles included, are not refused.',
  ['inputs'], 'every arc parameter combination',
  'Tests try no invalid arcs.', [G, T], 'GCodeArcMove.assert_params, linearize_arc checks')
p('C24', 'Expanded canned cycles drill the same hole safely',
  'The moves replacing a canned cycle travel across only at or above the R level, approach that level at rapid, go down below it at feed (rapids descend only into already drilled depth), reach exactly the bottom depth once per repeat and never go below it, peck cycles advance by at most Q each, dwell cycles dwell at the bottom for P, boring cycles retract at feed, and each repeat ends at the level G98 or G99 demands. Each of the L repeats drills at its own place under G91 and at the given place under G90, the other axes the cycle names (U, V, W) included; axes it does not name stay where they are.',
  ['inputs'], 'every drilling/boring cycle in the XY plane, parameters, start position (not below the bottom under G98), modes',
  'Tests expand a couple of cycles and compare one literal output.', [T, G], 'simplify_canned_cycle')
p('C25', 'Canned cycle expansion agrees with the machine and across distance modes',
  'Executing the expansion, in the distance mode it was made for, ends at the position where the machine ends after processing the canned cycle itself. The same hole written under G90 and G91 expands to the same absolute toolpath.',
  ['inputs'], 'every drilling/boring cycle, start position and mode',
  'Tests compare literals for single cases.', [T, G], 'simplify_canned_cycle, absolute to relative conversion')
p('C26', 'Omitting redundant motion words preserves the program',
  'Filtering any sequence of codes through the redundant mode filter and printing it gives text which, line by line, parses and executes to the same positions and modes as the unfiltered sequence; the only words blanked are motion codes equal to the motion mode in force. The codes passed in are not modified.',
  ['programs'], 'every sequence of codes',
  'Untested beyond use in the scripts.', [U, G], 'omit_redundant_modes')
p('C27', 'Splitting codes at a code loses and reorders nothing',
  'Splitting a list of codes at a class gives the codes before the first instance of the class, that instance, and the codes after it, in execution order by default and in the given order if sorting is off, so that joining the three parts gives the (sorted) list; without an instance everything is in the first part. The input list is unchanged.',
  ['inputs'], 'every list of codes x every splitter class', 'Tests split one list.', [G], 'split_gcodes')
p('C28', 'Vector alignment and plane projection do what they promise',
  'The alignment rotation maps the first vector\'s direction on the second\'s and the coordinate system rotation maps both given axes on their targets, preserving lengths, for any non-zero vectors including parallel and opposite ones. Projection on a plane is perpendicular to the normal, leaves vectors of the plane unchanged, and is independent of the length of the normal; each plane code\'s rotation maps the XY plane and its normal on that plane.',
  ['inputs'], 'every non-zero vector pair / orthogonal frame',
  'Tests use a few axis aligned vectors.', [U, G], 'quat2align, quat2coord_system, plane_projection, plane classes')
p('C29', "A mode's text restores the mode",
  'Feeding the printed mode of a machine, after any program (without G96), to another machine gives that machine the same mode in every modal group the text mentions, with the same retained parameters of non-motion codes. The text mentions every group that has a mode.',
  ['programs', 'histories'], 'every reachable mode', 'Tests compare the default mode text.', [M, G], 'Mode.__str__, gcodes, set_mode')
p('C30', 'Normalising without conversions never changes what the program does',
  'For any valid program and any combination of --singles, --full, --rm_comments, --rm_blanks and --rm_whitespace, the output of pygcode-norm executes the same moves, codes and parameters in the same order as the input. --singles puts one code per line, --full leaves no line relying on a modal motion word, the removal options remove exactly what they name, comments and macros are otherwise kept, and normalising the output again with the same options changes nothing.',
  ['programs', 'configurations'], 'every valid program x option combination',
  'The scripts have no tests.', [N, M, L_], 'pygcode-norm write()')
p('C31', 'Normalising with arc linearisation preserves everything but the arcs',
  'With --arc_linearize, pygcode-norm\'s output contains no arc, every arc is replaced by feed moves that stay within the precision (plus output rounding) of it and end where it ended, with the method chosen per direction, and all other moves, codes, comments and macros remain, in order.',
  ['programs', 'configurations'], 'every program with arcs x precision x method x other options',
  'The scripts have no tests.', [N, T], 'pygcode-norm arc branch')
p('C32', 'Normalising with canned expansion preserves everything but the cycles',
  'With --canned_expand, pygcode-norm\'s output contains none of the selected canned cycles, each is replaced by plain moves and dwells that drill the same holes to the same depth and end at the same position (under the active return mode), cycles not selected are kept, and all other moves, codes, comments and macros remain, in order.',
  ['programs', 'configurations'], 'every program with canned cycles x selection x other options',
  'The scripts have no tests.', [N, T], 'pygcode-norm canned branch')
p('C33', 'Final actions leave the machine where they promise, safely',
  'With --zero_xy the output first rises to the safety height (the given one, or the highest Z reached at the end of any line) and only then moves to X0 Y0, with --zero_z it ends at Z0, with --spindle_off the spindle is off, all in absolute mode whatever mode the program ended in; without these options nothing is appended. The program itself is unchanged before them.',
  ['programs', 'configurations'], 'every program without program-end code (M2, M30) x option combination',
  'The scripts have no tests.', [N, M], 'pygcode-norm finalising')
p('C34', 'Removing codes or invalid words removes those and nothing else',
  'With --rm_gcodes the output executes what the program without those codes (and their parameters) executes; with --full that includes motion repeated by modal parameters. With --rm_invalid_modal words that cannot be assigned are dropped and the rest of the program is executed unchanged.',
  ['programs', 'configurations'], 'every program x set of codes to remove',
  'The scripts have no tests.', [N, M], 'pygcode-norm write(), clean_block')
p('C35', 'Cropping selects exactly the lines the range says',
  'pygcode-crop outputs, after its entry section, exactly the lines from the first line (the first for which all "from" conditions hold after executing it) up to but excluding the first line from there on for which all "to" conditions hold, in order, meaning what they meant; an empty "from" starts at line 1, an empty "to" runs to the end. Conditions compare line number or machine position on any of the axes X Y Z A B C.',
  ['programs', 'configurations'], 'every program x every range expression',
  'The scripts have no tests.', [K, M], 'pygcode-crop range parsing and loop')
p('C36', 'A cropped program enters with the same state and does the same moves',
  'The entry section of pygcode-crop restores the mode in every modal group except motion and stopping, and positions the machine where it was before the first cropped line, first to the highest position reached along the plane normal, then across, then down. The cropped lines then execute exactly the moves they execute in the full program.',
  ['programs', 'configurations'], 'every program x every cropping line',
  'The scripts have no tests.', [K, M], 'pygcode-crop entry section')
p('C37', 'Machines do not share state and processing does not alter its inputs',
  'Any number of machines processing interleaved programs each behave as if alone, and later changes to a processed code or block do not change a machine, nor does a machine\'s later processing change a code or block it has processed.',
  ['histories', 'programs'], 'every interleaving of programs over several machines',
  'Tests use one machine at a time.', [M, G], 'mode/state ownership, modal copies')
p('C38', 'The selected default dialect is the one used',
  'After selecting a default dialect it is reported as the default, and words, blocks and text parsed without an explicit dialect use its word definitions, while an explicitly given dialect always wins.',
  ['configurations', 'histories'], 'every sequence of selections and parses',
  'Only the linuxcnc default is ever used in tests.', ['src/pygcode/dialects/__init__.py', W, B], 'get_default/set_default, dialect parameters')

p('C39', 'A line is processed, or refused with a documented error and no effect',
  'Any line of text given to a machine, in any state the machine has reached, is either processed or refused with one of the documented exceptions (GCodeWordStrError, GCodeParameterError, MachineInvalidState, MachineInvalidAxis, or the AssertionError of block verification). A line refused when it is read, or for words that cannot be assigned, leaves the machine (position, range, mode, coordinate systems, offset) exactly as it was, so the history without the refused lines gives the same machine. A canned cycle that needs an R (G99) and has none is refused when it comes to execute, without any motion.',
  ['inputs', 'histories'], 'every history of lines, valid or not, on machines of any set of axes; repeats (L) up to 5000; lines mixing modal words with a new motion code excluded from the last clause',
  'Tests give a machine valid lines; which errors can escape, and what they leave behind, depends on the combination of text, axes and state.',
  [M, B, G, 'src/pygcode/exceptions.py'], 'Machine.process_str/process_block, clean_block, modal_gcode')
p('C40', 'All ways of reading text agree',
  'For every text of words in any layout, Word, str2word, text2words, words2dict, words2gcodes, text2gcodes, Block and Line give the same words, codes, parameters and unassigned words, in the same order, and looking a letter up in the block gives the first word written with it, or None when there is none.',
  ['inputs'], 'every sequence of word (other than O) x every layout; lines giving a parameter twice are compared as words only',
  'Tests check each reader on its own few strings.',
  [W, B, G, L_], 'text2words, words2gcodes, text2gcodes, Block.__getattr__')
p('C41', 'Exactly the documented codes are supported, with their parameters',
  'Each G and M number of the supported table has its class, modal group, parameter letters (each readable as an attribute, no others), a default word that is a code of that class, and a description, and sets the mode of its own group only; every other number is no code and stays a plain word; G and M numbers with more than one decimal are refused. F, S, T and N words of any value are codes of their letter.',
  ['inputs'], 'every G and M number from 0 to 250 with up to six decimals; every value of F, S, T, N; every parameter letter',
  'Tests instantiate some of the codes with some of their parameters.',
  [G, D], 'GCode subclasses (word_key, word_matches, param_letters, modal_group), word_gcode_class, build_maps')
p('C42', 'A malformed number is refused, never read as another number',
  'When the number of any word in a line is malformed for its letter (missing, only a sign or dot, two dots, comma, operator or sign inside, plus sign, white space after the sign, digits after white space that do not continue the number, a fraction or sign where the letter takes none, a second decimal of a G or M number, or anything left over at the end of the line), Block, Line, text2words, text2gcodes, str2word and a machine all refuse the text with GCodeWordStrError, and the machine is unchanged.',
  ['inputs'], 'every valid line x every word in it x every malformed number that leaves a non-zero digit or nothing; text that spells other words is not malformed',
  'Tests check a single malformed word.',
  [W, D, B], 'text2words tokeniser, value expressions per letter')
p('C43', 'Copies are equal to their original and independent of it',
  'A copy (copy or deepcopy) of a word, position, coordinate system, state, mode, code, block, line, comment or machine equals its original, and deep copies (and shallow copies of words, positions, systems, states and modes) are independent: changing either afterwards in any way leaves the other as it was.',
  ['inputs', 'histories'], 'every object reached by any changes, then every changes to original and copy; copy() of a code, block or line is only claimed equal',
  'Tests copy nothing but a word and a position.',
  [M, W, G, B], '__copy__ / __deepcopy__ / __getattr__ of the classes')
p('C44', "A mode's groups can only be set to codes of that group",
  'Assigning a mode group a code of that group (with only the parameters the mode keeps) or None succeeds and changes only that group; anything else is refused with MachineInvalidState and changes nothing. set_mode sets exactly the groups of the codes given and reports those. Unknown groups raise AttributeError. The mode holds its own objects: later changes to the codes given do not change it, nor does setting it change them.',
  ['histories', 'inputs'], 'every sequence of assignments of any code, None, or something that is no code, set_mode calls, changes to given codes, and copies',
  'Tests set the mode with a few valid codes.',
  [M, G], 'Mode.__setattr__, set_mode, modal_copy')
p('C45', 'Moving a machine directly is the same as processing the equivalent move',
  'move_to(...), assigning a whole work position (given in either unit) and processing the equivalent G0/G1 text or code leave machines with the same position, absolute position, range, unit and axes, in either distance mode, with any coordinate system selected and any offsets, whether the machine starts in millimetres or inches. Coordinates of axes the machine lacks are refused with MachineInvalidAxis without effect. Neither the mode nor the arguments are changed.',
  ['histories', 'configurations'], 'every sequence of moves, position assignments, distance modes, coordinate systems and offsets on machines of six sets of axes and three initial units',
  'Tests move machines of three axes in millimetres.',
  [M], 'Machine.move_to, pos setter, Position, unit conversion')
p('C46', 'User-defined codes behave like built-in ones',
  'After a user defines code classes (any G or M word, parameters, modal group or none, or a range of numbers) they are recognised in text, take their own parameters and no others, print and read back, conflict with codes of the same modal group, execute in the documented order, are called exactly once per occurrence with the machine that processes them, and set the mode of their group, while built-in codes around them behave as before.',
  ['programs', 'configurations'], 'every program mixing ten kinds of user-defined codes with built-in codes',
  'No test defines a code.',
  [G, M, B], 'GCodeUserDefined, word_gcode_class, build_maps, exec_order')
p('C47', 'The scripts read every form of the same file alike',
  'pygcode-norm and pygcode-crop give the same output and exit code for a program whether its lines end with LF or CRLF, whether or not the last line has an end, and whether it is given as a file or on standard input, with any options.',
  ['inputs', 'configurations'], 'every program x option combination x form of the file',
  'The scripts have no tests.', [N, K, L_], 'script input loops, Line')
p('C48', 'Malformed script options are refused before anything is output',
  'A range of pygcode-crop with any malformed condition or wrong number of colons, and a malformed value of any option of pygcode-norm (linearising method, precision, safety height, code lists, unknown options), is refused as a usage error: exit code 2, a usage message naming the problem, and no output. The same arguments without the malformed part are accepted.',
  ['configurations'], 'every malformed condition or value among valid ones',
  'The scripts have no tests.', [N, K], 'argparse type functions, range parsing')
p('C49', 'Conversions are repeatable, lazy-safe and leave their inputs alone',
  'Linearising arcs, expanding canned cycles, omitting redundant modes, splitting code lists and chaining these give the same codes every time they are given equal input, whatever was converted before and however several conversions are interleaved, and change neither the codes, positions, planes and modes they are given nor the lists holding them. Changing what a conversion returned changes neither its input nor what it returns the next time.',
  ['inputs', 'histories', 'schedules'], 'every arc, cycle and code list x every interleaving of two conversions x every change of the result',
  'Tests run each conversion once on objects they then drop.',
  [T, U, G], 'linearize_arc, simplify_canned_cycle, omit_redundant_modes, split_gcodes')
p('C50', 'Looking at things never changes them',
  'Reading attributes and texts, comparing, sorting, doing arithmetic, converting between work and absolute positions, asking for modal codes, copying or splitting changes nothing observable of machine, mode, state, positions, codes, words, blocks or lines, gives the same answer when repeated, and never changes what a machine does afterwards. What is returned for it (positions, dicts, lists, codes and words made for the purpose) is the caller\'s own: changing it changes nothing else.',
  ['histories', 'inputs'], 'every program x every sequence of looks between its lines, on five kinds of machines',
  'Tests look at each thing once and then drop it; a side effect shows only in what is done later.',
  [M, G, W, B, L_, U], 'properties, comparisons and converters without side effects')
p('C51', 'The scripts never skip a line they cannot read',
  'When a line of the program is malformed, has conflicting codes, gives a parameter twice or has words that cannot be assigned (and ignoring these was not asked for), pygcode-norm and pygcode-crop end with exit code 1 and a message, having output exactly what they output for the lines before it, and no final actions. A line beyond the end of the range of pygcode-crop is not read.',
  ['programs', 'configurations'], 'every program x place x kind of unreadable line x options',
  'The scripts have no tests.', [N, K, B], 'script main loops')
p('C52', 'A machine starts as its class says',
  'A new machine is in exactly the modes its class\'s default mode text lists (any layout over lines, with comments), with their retained parameters, in the coordinate system and units these select, at zero position, range and offsets on all its axes; and from there does what a machine in those modes does. What one machine does never changes how the next one starts.',
  ['configurations', 'programs'], 'every default mode text x axes x program',
  'Tests use the built-in default mode.',
  [M], 'Mode.__init__, Machine.__init__')
p('C53', 'What a text means depends on the text alone, and is the reader\'s own',
  'Reading a text (as a line, block, words, codes, one word, or split into code and comment) gives the same result, or the same refusal, whatever was read before and however what was read has been changed since. Changing what one reading returned never changes what another reading returned, nor what the text reads as the next time.',
  ['histories', 'inputs'], 'every sequence of readings of a few texts (valid or refused) in ten ways, with any changes to what they returned in between',
  'Tests read each text once, in a fixed order, and drop what they read.',
  [W, B, L_, G], 'Line, Block, text2words, text2gcodes, words2gcodes, split_line')
p('C54', 'Machines in one process do not influence each other',
  'Any number of machines, of the same or different classes, axes and default modes, that process programs in one process in any interleaving, each go through the same states and refuse the same lines with the same messages as when they are the only machine of a process.',
  ['histories', 'schedules', 'configurations'], 'every set of machines x programs x interleavings',
  'Tests run one machine at a time and never compare with a fresh process.',
  [M, G, L_], 'class attributes, module state, shared defaults of Machine, Mode, State, Position, GCode')
p('C55', 'Impossible conversions are refused, with nothing put out instead',
  'A canned cycle without its R word or its depth, a peck cycle without a non-zero Q (GCodeParameterError), a cycle drilling upward or in a plane other than XY, or a threading cycle (NotImplementedError) is refused by the expansion before any code is generated, and left as it was. pygcode-norm asked to convert such a cycle, or an impossible arc, fails with a message and a non-zero status, having put out no part of the code it could not convert, and all that it puts out for the lines before it; not asked to convert it, it keeps the code and carries on. Conversions given codes, positions, planes, modes, methods or tolerances other than they take refuse them with AssertionError.',
  ['inputs', 'configurations'], 'every canned cycle that lacks what it needs or is not supported; every program continued by one or by an impossible arc, x options',
  'Tests expand valid cycles only; the scripts are not tested.',
  [T, G, N], 'simplify_canned_cycle, linearize_arc, split_and_process of pygcode-norm')
p('C56', 'Arcs are divided evenly, as the linearisation method says',
  'A linearised arc is cut at equal angles (with offset methods the first and last piece are half as wide), every vertex between its ends lies at the outer radius of the method and rises in proportion to the angle turned, and the number of pieces is the least for which none is wider than the largest angle of the method. This holds for the methods given, for classes derived from them (which give the same moves), and for methods a user makes by giving largest angle, radii and offset. The wedge count, wedge angle, inner and outer radius a method reports are those of the moves.',
  ['inputs', 'configurations'], 'every valid arc x every method (given, derived or made by the user)',
  'Tests plot a few arcs with the methods given, and never make one.', [T], 'ArcLinearizeMethod: wedge_count, wedge_angle, iter_vertices, inner_radius, outer_radius')
p('C57', 'No line makes reading or printing it take for ever',
  'Reading any line of up to 4000 characters (or refusing it), printing it and reading what was printed each end within seconds, whatever is repeated in it: brackets, semicolons, percent signs, white space, digits, words or any mixture of those.',
  ['inputs'], 'every line of text, to 4000 characters',
  'Tests read short lines only; the time pattern matching takes can explode with length.', [L_, B, C, W, D], 'regular expressions of Line, Block, comments and word values')
p('C58', 'The scripts compose: normalising again, and cropping, agree',
  'Normalising what pygcode-norm has put out, with the same options, changes no word, comment or macro of it. Normalising a program and cropping the result gives the same lines as cropping the program and normalising that. Cropping to all lines keeps all lines.',
  ['programs', 'configurations'], 'every program with arcs and canned cycles (XY plane where those are expanded) x options; every range of lines',
  'The scripts are not tested.', [N, K], 'pygcode-norm, pygcode-crop')

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
print(len(P))
