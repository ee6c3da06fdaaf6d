"""What each harness leaves open (symbolic or enumerated by the engine); sizes come from the defines of the tier."""
T = {
'h_ops': 'one line of up to N commands joined by every combination of & && ||, each succeeding or failing, with any blanks around the operators',
'h_blocks': 'every nesting of blocks of depth DEPTH with up to M commands each, every operator, every success or failure',
'h_script': 'the same lines in a script, blocks spread over several lines',
'h_chain': 'a chain of 14 commands, the kind of operator and the place of the failure open',
'h_level': 'any error level of two digits and either sign, in every chain of three',
'h_red': 'a block writing two symbolic bytes to output and errors, every combination of > >> 2> 2>> 2>&1 1>&2, in front or behind',
'h_red_pos': 'every position of the redirection in a command, with and without blanks',
'h_red_quoted': 'quoted and escaped < > with symbolic text around them',
'h_red_nest': 'redirected blocks around redirected commands, depth DEPTH',
'h_red_in': 'input redirection of 1 to 3 reads in blocks, symbolic lines',
'h_red_bad': 'a file that can not be opened at each place, then further commands',
'h_red_look': 'redirections in front of, inside and behind IF and FOR',
'h_pipe_filter': 'pipes of 2 and 3 stages passing up to 3 symbolic lines',
'h_pipe_iso': 'every change of state (variable, directory, definition, redirection) on the left and on the right of a pipe',
'h_pipe_ops': 'lines of 4 commands with & && || and |, every success and failure',
'h_pipe_err': 'errors through a pipe, merged or not',
'h_args_label': 'CALL :label with up to NA arguments of 2 symbolic bytes, quoted or not, any delimiters between',
'h_args_file': 'CALL file and file as a command with up to NA such arguments',
'h_args_many': '9 to 12 arguments with a symbolic byte each: %1..%9, %+ and %*',
'h_args_argv': 'the arguments of the process itself: every vector of 2 strings of up to 3 bytes of the list of special and plain bytes',
'h_args_nest': 'calls nested four deep, symbolic arguments at every level',
'h_exp_sub': '%v:~b,l% and !v:~b,l! for values of up to NV symbolic bytes, every b and l in -NV-1..NV+1',
'h_exp_sub_huge': 'b and l around and beyond the limits of integers',
'h_exp_rep': '%v:a=b% for values of up to NV bytes, patterns of 1 or 2, replacements of up to 2 bytes over a three-letter alphabet (all overlaps)',
'h_exp_def': '%v:default%, defined or not, symbolic values',
'h_exp_line': 'lines of NT pieces: text, %name%, %%, %n, single %, unknown names, with symbolic bytes',
'h_exp_line_delayed': 'the same with ! in delayed mode',
'h_exp_when': 'a variable changed between reading and running, in a block, FOR and IF; symbolic values',
'h_exp_once': 'values of 3 bytes of "%!^ijV\\"~:1", put into FOR bodies, SET, DEF and IF',
'h_exp_inert': 'values of 3 arbitrary bytes in ECHO, IF ==, SET and CALL',
'h_exp_dyn': '%CD% %ERRORLEVEL% %RANDOM% and %0 in every state of a list',
'h_text': 'texts of NT pieces: plain byte, ^ and any byte, quoted special, blank, ^%; in a script or a line, with delayed expansion on or off',
'h_text_nested': 'the same of 2 pieces in a block, behind an operator, in IF and FOR',
'h_text_comment': 'comments of 3 arbitrary bytes in the four spellings',
'h_text_onoff': 'ECHO with every word of two more letters, blanks or dots',
'h_text_at': '11 commands with @ in front or not, in 9 surroundings',
'h_env_ops': 'every sequence of NOP assignments, removals and reads of 4 names in every case, symbolic values',
'h_env_list': 'SET and SET prefix listing, every set of 4 variables, symbolic values',
'h_env_bytes': 'names and values of 3 arbitrary bytes',
'h_env_init': 'every initial environment of 3 strings, malformed ones included',
'h_env_many': 'more variables than one block of the store holds, any one removed',
'h_env_unknown': 'names that were never set, symbolic',
'h_loc_ops': 'every sequence of NOP of SET, removal, SETLOCAL with each option and ENDLOCAL over 3 variables',
'h_loc_call': 'the same around and inside of calls nested twice',
'h_loc_keep': 'ENDLOCAL & SET v=%v%, with up to 2 superfluous ENDLOCALs, symbolic value',
'h_loc_bad': 'SETLOCAL with every bad option of the list',
'h_forf_tok': 'every tokens= specification of up to 3 numbers, ranges, and *, on every line of NT bytes of the delimiters and letters',
'h_forf_lines': 'texts of NC symbolic bytes as file, string and command output; skip and eol open',
'h_forf_files': 'up to 3 files, missing or not, symbolic lines',
'h_forf_vars': 'every first variable letter with up to 3 tokens, nested loops',
'h_forbad': 'headers with an error of every kind of the list',
'h_forl': 'start, step and end: every value of -4..4 and the limits of integers; last iteration open',
'h_forlist': 'lists of NS items, plain or quoted, symbolic bytes, any delimiter between',
'h_forglob': 'lists with wildcards over every set of 3 files and a directory',
'h_forbody': 'bodies left by GOTO and EXIT /B at any iteration, nested loops, commands behind',
'h_if_level': 'every sequence of NL_ of 13 IF and FOR commands from any error level, thresholds symbolic',
'h_if_dec': 'all pairs of integers of ND symbolic digits with sign, 6 operators, NOT',
'h_if_tab': 'all pairs of 31 edge values (limits, bases, floats, text) with 7 operators',
'h_if_str': 'pairs of strings of NS symbolic bytes, with and without /I',
'h_if_eq': '== with quoted, empty and symbolic sides, both orders of NOT and /I',
'h_if_obj': 'EXIST, DEFINED and ERRORLEVEL with symbolic names and levels, NOT',
'h_if_branch': 'every layout of IF and ELSE of the list, nested twice, with operators behind',
'h_if_val': 'symbolic values in nested conditions',
'h_if_exp': 'every expression of depth EDEPTH with up to ELEN further tests, and/or/not and brackets',
'h_if_flat': 'every chain of NT tests with & | ! in [ ]',
'h_if_expval': 'symbolic values inside [ ]',
'h_if_badexp': 'every malformed expression of the list',
'h_seta_ops': 'NOPS binary operators with one bracket pair and unary operators, every 32-bit operand (8-bit below * / %, 0..7 as shift count)',
'h_seta_float': 'one float operand among them',
'h_seta_num': 'literals of 4 symbolic digits in bases 8, 10 and 16',
'h_seta_name': 'names of NNM symbolic letters',
'h_seta_assign': 'every op= with two symbolic digits, three spellings',
'h_seta_list': 'several and inner assignments of symbolic values',
'h_seta_store': 'results of up to ten digits, of either sign, stored through 5 kinds of assignment',
'h_shift_one': 'every start and step of -2..10 in every spelling, 10 to 12 arguments',
'h_shift_seq': 'every sequence of NOP shifts',
'h_shift_loop': 'a loop over up to 12 symbolic arguments',
'h_shift_bad': 'every wrong parameter of the list',
'h_goto_find': 'label names of NL symbolic bytes among 3 label lines',
'h_goto_walk': 'scripts of NS sections jumping in any way from 8 kinds of places',
'h_call_ret': 'every way a called label or script ends, at every place of the caller',
'h_call_deep': 'recursion of 2 to 12 levels',
'h_goto_file': 'GOTO and CALL into other files',
'h_read': 'scripts of NS pieces: blocks over lines, ^ at line ends, CR LF, empty lines, missing newline at the end, symbolic bytes',
'h_read_long': 'lines around every buffer size',
'h_reload': 'the script appends to itself at any step',
'h_replace': 'the script is replaced while it runs, equal up to the current line',
'h_def_params': 'bodies of NT pieces with every symbol, called with up to 2 symbolic arguments, quoted or not',
'h_def_nine': 'up to eleven arguments',
'h_def_local': 'every sequence of NOP SET/LOCAL operations in two procedures calling each other',
'h_def_names': 'NDEF definitions and redefinitions over 11 names that shadow commands',
'h_def_list': 'DEF listing',
'h_def_run': 'bodies that jump, loop, redirect and end the script',
'h_def_bad': 'every malformed definition of the list',
'h_cd_path': 'paths of NC components of the list, absolute and relative',
'h_cd_seq': 'every sequence of NOP of CD, PUSHD, POPD, MD, RD, a directory that disappears',
'h_cd_scope': 'directory changes in pipes, scripts and calls',
'h_cd_canon': 'canonical form of paths of NC pieces, symbolic bytes',
'h_wild_match': 'every pattern of NR bytes against every name of NM bytes over letters, * ? and .',
'h_wild_dir': 'every pattern of the list against every tree of files of the harness, attributes, /S',
'h_wild_abs': 'absolute and relative directories in front of the pattern',
'h_mod_path': '%~flags of NF letters on values of NV symbolic bytes',
'h_mod_quote': 'values of NV bytes with quotes anywhere',
'h_mod_greedy': 'every variable letter that is a flag as well, NF flags',
'h_mod_info': 'size and attributes of every kind of entry, NF flags',
'h_mod_zero': '%0 with flags at every call depth',
'h_mod_long': 'values around every buffer size',
'h_copy_one': 'COPY, MOVE and REN of one of every entry to each of the targets, answers open',
'h_copy_many': 'several sources, patterns and +',
'h_copy_fault': 'files larger than the buffers, short reads and writes and failures at any transfer',
'h_copy_tree': 'whole directories, missing and existing targets',
'h_ren': 'every pattern of the list on both sides',
'h_del': 'every pattern, /S, /P, /Q with symbolic answers over the tree of the harness',
'h_rd': 'RD of every entry, /S, /Q, answers open',
'h_md': 'MD of every path of the list, existing or not',
'h_type': 'up to NT files of symbolic bytes, missing names and directories among them',
'h_typein': 'TYPE of its input, symbolic bytes',
'h_find': 'texts of NF symbolic bytes, needles of 1 or 2 bytes, every combination of /I /N /C /V',
'h_finde': 'wildcards of the list on lines of NF symbolic bytes',
'h_findn': 'several files, missing ones and directories',
'h_wc': 'texts of NW symbolic bytes, every combination of switches, up to 3 files',
'h_xargs': 'input of NX symbolic bytes',
'h_more': 'texts of NM symbolic bytes at the edges of the line, +n and /S',
'h_more2': 'several files and input',
'h_long': 'contents longer than every buffer of the commands',
'h_exec_args': 'up to NP parameters of 7 forms with symbolic bytes',
'h_exec_path': 'every subset of the files of 3 directories and 3 extensions, PATHEXT set or not, 3 spellings',
'h_exec_env': 'variables set and removed, symbolic values, directory changed or not',
'h_exec_io': '9 layouts of redirections, symbolic input',
'h_exec_status': 'every wait status, a start that fails, in 5 lines',
'h_exit': 'codes of NC symbolic digits and negative ones, 8 surroundings',
'h_exit_b': 'the same with /B, at 3 levels, 8 surroundings, 4 ends of line',
'h_iso': '9 changes of state in a script run in 3 ways, left in 4 ways, symbolic code',
'h_sees': 'state of the caller as seen by a script run as a command, symbolic values',
'h_rob_line': 'every line of up to NB bytes (any value but NUL and newline), then a further line',
'h_rob_cmd': 'about 100 command shapes, each with two bytes of any value but NUL and newline at its sensitive places',
'h_rob_script': '31 script shapes, each with two bytes of any value but NUL (newline included)',
'h_rob_text': 'every script file of up to NT bytes of any value',
'h_prompt_fmt': 'formats of up to NT pieces: each of the 17 codes in either case, $M with a depth of 0 to 2, colors, any other byte, with or without a lone $ at the end; shown in front of the line of a script',
'h_prompt_pecho': 'the same formats as the text of PECHO (bytes plain to the parser)',
'h_prompt_set': 'the same formats as the text of PROMPT, or none, over an old value or none',
'h_prompt_lines': 'every script of 3 lines out of 14 kinds (marked by @ or not, switching, with a symbolic expansion, blocks over several lines, labels, empty, IF, FOR)',
'h_prompt_call': 'ECHO on or off before, switched or not in a script or label called',
'h_dump_val': 'one element of each of the 8 integral types, all of its bytes symbolic, decimal and hexadecimal',
'h_dump_rows': 'every combination of type, /H, and the four parts of the format, for 0, 1 and every length next to one and two full rows, a file or the input, first and last byte symbolic',
'h_dump_pieces': 'input of 21 or 100 bytes that comes in up to 3 short pieces of 1 to 7 bytes, or whose 1st to 3rd read fails',
'h_dump_files': 'up to 3 parameters out of 8: files with a symbolic byte, missing files, directories, options between them, bad types',
'h_dump_float': 'one or two floats or doubles out of 7 values, decimal and hexadecimal',
'h_pbz_cmd': 'each of the 14 commands in either case, behind any plain byte or a blank, with NSW switches of any byte, alone or with further lines',
'h_pbz_text': 'any NB bytes but carriage returns behind the beginning of a command, with a switch or nothing behind',
'h_pbz_file': 'files of 0 to 320 bytes around the borders of the buffers, with and without end of line; output to the standard output, a file, or the input itself; missing input, bad output, no parameters',
'h_mo_find': 'catalogues of 0 to 3 messages of up to 2 arbitrary bytes with translations of up to 2, any key of up to 2 bytes, looked up twice in either way',
'h_mo_bad': 'one or two fields of the header and the tables replaced by any of 24 edge values (limits of integers, borders of the file)',
'h_mo_cut': 'a catalogue cut off at any byte, and files of 0 to 32 bytes with arbitrary magic number',
'h_mo_which': '15 names of locales, one to three catalogues of other domains and languages around',
'h_cu8_write': 'texts of up to 4 arbitrary bytes (thorough: 5) cut in any three calls of fputs or fputc, to the console or to files in code pages 28591, 65001 and a two byte one',
'h_cu8_long': 'the same with up to 2 bytes (3) behind 253 to 256 letters (125 to 128 on the console), so that the chunk of 256 bytes ends at each place',
'h_cu8_read': 'files of up to 3 arbitrary characters (4) in the three code pages, whole or with half a character at the end, read with two sizes from 2 to 5 (6) by fgets or fgetc in three patterns',
'h_cu8_print': 'texts of 4 to 1104 bytes around the buffer of 512, three of them arbitrary',
'h_cu8_conv': 'up to 2 arbitrary characters (3) of 1 to 4 bytes behind none or 126 to 128 letters, before none or 127',
'h_cu8_name': 'names of up to 2 arbitrary characters (3), any letter of mode, found or not',
'h_cu8_dir': 'directories of up to 3 entries of one arbitrary character, some longer, closed early or read to the end',
'h_con_edit': 'up to 2 arbitrary characters below U+10000, then up to 3 keys (thorough: 4) of eight kinds or characters, some repeated by the console, at two places of a screen of 8 columns; the screen is compared before each key',
'h_con_history': 'up to 2 lines of up to 2 arbitrary characters, then up to 4 keys (5) of up, down and letters',
'h_con_many': '48 to 53 lines before (50 are kept), the up key pressed 1 to 4 or 47 to 51 times',
'h_con_tab': 'lines of up to 4 characters (5) of letters, blanks, quotes, & and |, the cursor up to 2 to the left, four completions',
'h_con_short': 'lines of up to 3 arbitrary characters of 1 to 4 bytes, read with two sizes from 2 to 6',
}
