"""Text of the properties; `python3 props.py` writes properties.jsonl and MANIFEST.json."""
import json, os
L = []
def P(id, title, statement, over, text, why, files, mech, observe, state=(), note='', tech=None):
    L.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state], mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None), _note=note, _tech=tech))
TECH = 'symbolic execution of the LLVM IR of the current sources; branch feasibility and every assertion decided by z3 (bit-vectors) over all inputs within the bounds; counterexamples replayed on a native sanitizer build'
NA = []   # (id, reason)

P('P01', 'Operators decide which commands run, in order, each once',
  'In a line or block of commands joined by &, && and ||, commands run left to right, each at most once: after & always, after && exactly when the last command that ran succeeded, after || exactly when it failed; a skipped command changes nothing and evaluation goes on with the next operator. A block in parentheses counts as one command wherever it stands, on one line or over several, and a block is executed completely before what follows it.',
  ['programs', 'inputs'], 'every sequence of commands (succeeding or failing), operators and nested blocks within the stated lengths, from a command line or a script',
  'the tests sample two operator lines; which commands run depends on the outcome of every earlier one, which grows exponentially with the line',
  ['pbat/core/pBat_Parse.c', 'pbat/core/pBat_ParseBlock.c', 'pbat/core/pBat_Run.c', 'pbat/core/pBat_Read.c', 'pbat/core/pBat_ReadScript.c'],
  [('line splitting into typed nodes', 'pbat/core/pBat_Parse.c: pBat_ParseLine, pBat_ParseOutput'), ('operator dispatch', 'pbat/core/pBat_Run.c: pBat_RunParsedLine'), ('block delimiting', 'pbat/core/pBat_ParseBlock.c')],
  ['standard output and error of the line', 'error level after the line'], [('error level', 'outcome of the last command that ran', 'pbat/core/pBat_Globals.h: iErrorLevel')],
  note='bounds: flat lines of 4 (quick) / 5 commands with any mix of outcomes and operators, nested blocks, a 12-command chain; outside: longer lines, external programs')
P('P02', 'Redirections send each stream where stated, and only for that command',
  'Output of a command or block with >, >>, 1>, 1>>, 2>, 2>>, 2>&1 or 1>&2 goes, complete and in order, to the named file (truncated or appended to) or stream and nowhere else; < makes it read exactly the bytes of the file, in order, also across several reads. Afterwards (and after an error) the three streams are what they were before, including what was left to read, and no descriptor stays open; redirections nest, the innermost deciding, and a quoted or escaped sign is plain text.',
  ['programs', 'inputs'], 'every combination of redirection kinds, order and position around commands and nested blocks within bounds, every text',
  'no test redirects at all beyond an echo into nul; the restore path depends on the nesting and on the error that happened',
  ['pbat/core/pBat_Stream.c', 'pbat/core/pBat_Parse.c', 'pbat/core/pBat_Run.c'],
  [('stream stack', 'pbat/core/pBat_Stream.c: pBat_ApplyStreams, pBat_UnApplyStreams'), ('redirection parsing', 'pbat/core/pBat_Parse.c: pBat_ParseOutput')],
  ['content of the target files', 'what later commands print and read', 'number of open descriptors'],
  note='bounds: blocks of two commands nested to depth 1 (quick) / 2, all combinations of the redirections on one block, 6-byte inputs; excluded: a redirection before a block')
P('P03', 'A pipe carries the whole output of its left side to its right side',
  'In a | b, b reads exactly the bytes a wrote to its standard output, in order and complete, then end of file; the error output of a is not part of it and the output of b goes where the whole command sends it. The left side runs in its own copy of the interpreter state, so what it sets, moves to or ends is not visible afterwards, and a pipe counts as one command for &, && and ||, its result being that of its right side.',
  ['programs', 'inputs'], 'every text within bounds through pipes of one to three stages, with state-changing left sides and every operator around them',
  'two tests pipe one fixed text; nothing checks that state set on the left stays there or what follows a failing stage',
  ['pbat/core/pBat_Run.c', 'pbat/core/pBat_Clone.c', 'pbat/core/pBat_Stream.c', 'libpbat/thread/libpBat_Thread.c'],
  [('pipe set-up', 'pbat/core/pBat_Run.c: pBat_LaunchPipe, pBat_ExecOutput'), ('cloned interpreter state', 'pbat/core/pBat_Clone.c')],
  ['output of the right side', 'variables and directory afterwards'],
  note='bounds: texts of a few symbolic bytes, up to 3 stages; the threads of a pipe are run one after the other (left first), not interleaved byte by byte, which is enough because they share only the pipe; outside: external programs, outputs beyond the pipe capacity')

P('P04', 'Arguments arrive whole, in order, with quotes and escapes resolved',
  'A label, procedure or script that is called gets its arguments exactly as they were written: separated by blanks, commas or semicolons, with what is quoted or escaped kept together and the outer quotes removed, in %1 to %9 in order, missing ones empty, %0 naming what runs, %* the whole text and %+ what follows the ninth. An inner call has its own arguments and the outer ones are back when it returns; arguments of the pbat program itself reach the script the same way.',
  ['inputs', 'programs'], 'every list of quoted, escaped and plain arguments with every separator, every character within bounds',
  'one test passes fixed arguments; what an argument becomes depends on the mix of quoting, escapes and separators around it',
  ['pbat/core/pBat_Args.c', 'pbat/command/pBat_Call.c', 'pbat/core/pBat_Var.c', 'pbat/init/pBat_Init.c'],
  [('argument splitting', 'pbat/core/pBat_Args.c: pBat_GetNextParameterEsD'), ('argument variables', 'pbat/command/pBat_Call.c: pBat_CmdCallFile'), ('command line of the program', 'pbat/init/pBat_Init.c')],
  ['%0 to %9, %* and %+ inside what is called'], note='bounds: 2 (quick) / 3 symbolic arguments of up to 3 characters with any separator and quoting, up to 12 arguments for %+; outside: empty arguments of the program itself')
P('P05', 'Expansion of %...% replaces each form by exactly its value',
  'Before a line is run every %name% is replaced by the current value of that variable (any case of the name), an undefined one by nothing, %% by %, %1 to %9 and %* by the arguments; %name:~a,b% gives exactly the characters asked for, negative numbers counted from the end, %name:a=b% the value with every a replaced by b, %name:text% the value or the default. The rest of the line is untouched, no form reads outside of the value whatever the numbers, and no variable changes.',
  ['inputs'], 'every value, every start and length including extreme ones, every search and replacement, every sequence of pieces within bounds',
  'tests expand a handful of fixed variables; substring and replace arithmetic goes wrong only for particular lengths, signs and overlaps',
  ['pbat/core/pBat_Var.c', 'pbat/core/pBat_Expand.c', 'libpbat/string/libpBat_String.c'],
  [('variable expansion', 'pbat/core/pBat_Var.c: pBat_ExpandVar'), ('substring and replacement', 'pbat/core/pBat_Var.c')],
  ['text of the line as the command sees it'], note='bounds: values up to 3 (quick) / 5 bytes of any character a line can hold, positions from -6 to 6 and ten extreme numbers, replacements of up to 2 characters in values of up to 4, lines of 3 / 4 pieces; substrings outside of the value are only required to be part of it')
P('P06', 'Delayed expansion takes the value at run time, and it stays plain text',
  'With delayed expansion on, !name! (and its substring, replacement and default forms) stands for the value at the moment the command runs, while %name% was replaced when the line or block was read; whatever characters such a value holds (operators, redirections, quotes, separators, wildcards), it never ends the command, redirects, or splits into several arguments.',
  ['inputs', 'programs'], 'every value of arbitrary bytes within bounds in commands, comparisons, assignments and calls; loops and blocks that change the variable in between',
  'the tests use one variable with one harmless value',
  ['pbat/core/pBat_Expand.c', 'pbat/core/pBat_Var.c', 'pbat/core/pBat_Parse.c', 'pbat/core/pBat_Args.c'],
  [('delayed expansion', 'pbat/core/pBat_Expand.c: pBat_DelayedExpand')], ['what the command prints, compares, stores or passes on'],
  note='bounds: values of 3 symbolic bytes, lines of 3 (quick) / 4 pieces; excluded: values holding == or quotes in an unquoted IF ==')
P('P07', 'Quoted and escaped text is taken literally; comments do nothing',
  'A character that is quoted or follows ^ is an ordinary character wherever it stands: it never separates commands, redirects, opens or closes a block or expands (except % and ! as documented), on one line, in a block or behind IF and FOR. REM and :: lines have no effect whatever they contain, and @ and ECHO ON/OFF only control whether lines are shown.',
  ['inputs', 'programs'], 'every line of plain, quoted and escaped pieces within bounds, at every nesting position, every text in a comment',
  'the tests have a few quoted characters at fixed places',
  ['pbat/core/pBat_Parse.c', 'pbat/core/pBat_ParseBlock.c', 'pbat/core/pBat_Expand.c', 'pbat/command/pBat_Echo.c', 'pbat/core/pBat_Read.c'],
  [('recognition of special characters', 'pbat/core/pBat_Parse.c'), ('block delimiting', 'pbat/core/pBat_ParseBlock.c'), ('escape removal', 'pbat/core/pBat_Expand.c')], ['what is printed', 'which commands run'],
  note='bounds: lines of 3 (quick) / 4 pieces, comments of 4 symbolic bytes')

P('P08', 'Variables behave as one case-insensitive store that keeps exactly what was set',
  'After any sequence of SET commands every variable has the value last given to it and no other variable is affected: names match in any case, trailing blanks of the name do not count, a value keeps every character (a leading quote before the name trims at the last quote), an empty value removes the variable. SET alone or with a prefix lists every matching variable once with its value. Variables of the environment pbat is started with are there unchanged, whatever their number.',
  ['histories', 'inputs'], 'every sequence of assignments, replacements and deletions over a set of names within bounds, any bytes in names and values, stores that outgrow their block',
  'no test sets more than one or two variables or deletes any; a lookup that misses a variable needs a particular order of earlier insertions and deletions',
  ['pbat/core/pBat_Env.c', 'pbat/command/pBat_Set.c'],
  [('sorted variable table', 'pbat/core/pBat_Env.c: pBat_SetEnvEx, pBat_UnSetEnv, pBat_GetEnv'), ('SET', 'pbat/command/pBat_Set.c: pBat_CmdSetS')], ['value of each variable', 'output of SET'],
  [('variable table', 'sorted array of variables, deleted entries last', 'pbat/core/pBat_Env.h: ENVBUF')], note='bounds: 3 operations over 4 (quick) / 6 names after a start environment of 3, names of 2 and values of 4 arbitrary bytes, one store of 132 variables')
P('P09', 'ENDLOCAL brings back exactly what the matching SETLOCAL saved',
  'ENDLOCAL restores all variables and options (delayed expansion, compatibility) to what they were at the matching SETLOCAL, and nothing else; they nest to any depth, an ENDLOCAL without SETLOCAL does nothing, inside a CALL only what was saved in that CALL is reverted, a line expanded before ENDLOCAL keeps its values, the error level is not changed, and a SETLOCAL with a bad option saves and changes nothing.',
  ['histories'], 'every sequence of SET, DELETE, SETLOCAL (with any option) and ENDLOCAL within bounds, across calls',
  'no test uses SETLOCAL at all',
  ['pbat/core/pBat_EnvStack.c', 'pbat/command/pBat_Setlocal.c', 'pbat/core/pBat_Env.c', 'pbat/command/pBat_Call.c'],
  [('environment stack', 'pbat/core/pBat_EnvStack.c'), ('scope of a CALL', 'pbat/command/pBat_Call.c: pBat_CmdCallFile')], ['variables and options after each step'],
  note='bounds: 5 (quick) / 6 steps over 3 variables; calls nested twice with up to 3 saved environments')
P('P12', 'IF runs exactly the branch its comparison selects',
  'IF compares as integers when both sides are 32-bit integers (decimal, octal, hexadecimal), otherwise as numbers when both are numbers, otherwise character by character (/I ignoring case); EQU, NEQ, LSS, LEQ, GTR, GEQ and == have their usual meaning, NOT inverts, DEFINED, EXIST and ERRORLEVEL hold exactly when the variable is set, a matching file or directory exists, or the error level is at least the number. Exactly the selected branch runs, completely and once, in every layout of blocks and ELSE, and what follows runs. Its error level is the one of the last command it ran, unchanged when it ran none.',
  ['inputs', 'programs'], 'every pair of integers, numbers and strings within bounds with every operator, every nesting of IF and ELSE within bounds',
  'tests have a few fixed equal or different words; mixed kinds, limits, signs and layouts are not covered',
  ['pbat/command/pBat_If.c', 'pbat/command/pBat_If.h', 'pbat/core/pBat_ParseBlock.c'],
  [('kind of comparison', 'pbat/command/pBat_If.c: pBat_GetCmpValue, pBat_PerformExtendedTest'), ('branch selection', 'pbat/command/pBat_If.c: pBat_CmdIf')], ['what the branches print', 'error level'],
  note='bounds: integers of 2 (quick) / 3 symbolic digits with sign, all pairs of 31 edge values, strings of 2 / 3 symbolic bytes; excluded: octal or hexadecimal against a float, == with sides that hold == or quotes')
P('P13', 'IF [ expression ] has the value of its logical expression',
  'In IF [ ... ] tests are combined as written: NOT applies to the test behind it, AND binds stronger than OR, brackets group to any depth, /I reaches every test, and the branch that runs is the one the value of the whole expression selects. A malformed expression is reported, nothing of the IF runs, and the script goes on.',
  ['programs', 'inputs'], 'every expression shape and every combination of test outcomes within bounds', 'no test uses this form; precedence errors show only for particular mixes of operators and outcomes',
  ['pbat/command/pBat_IfExp.c', 'pbat/command/pBat_If.c'], [('expression tree', 'pbat/command/pBat_IfExp.c: pBat_IfExp_Parse, pBat_IfExp_Evaluate')], ['branch that runs', 'error output'],
  note='bounds: chains of 4 (quick) / 5 tests, bracket depth 1 / 2, 13 malformed shapes')

P('P10', 'FOR /F gives its variables exactly the selected tokens of every selected line',
  'FOR /F runs its body once for every line of its input (one or more files, a quoted one-line string, or the output of a command), in order, empty lines included unless CMDLYCORRECT is on, except the first skip= lines and lines starting with an eol= character. The tokens of a line are its longest pieces without delims= characters; every entry of tokens= (n, n-p, n.p, n*, *, n.*) gives the next variables the token, tokens or text it names, empty when missing. Variables go through the printable characters, wrapping from ~ to !; assigning one that is in use, a malformed option or a missing file is reported, and afterwards no variable and no descriptor is left.',
  ['inputs', 'programs'], 'every line and tokens specification within bounds, every skip, eol and delims choice, every kind of input, every variable letter',
  'tests use one or two specifications on a fixed text; what is selected depends on the mix of entries, delimiters at the ends and missing tokens',
  ['pbat/command/pBat_For.c', 'libpbat/estr/pBat_Estr.c'], [('tokens= parsing', 'pbat/command/pBat_For.c: pBat_ForMakeTokens'), ('token selection', 'pbat/command/pBat_For.c: pBat_ForGetToken'), ('input', 'pbat/command/pBat_For.c: pBat_ForGetInputLine')],
  ['variables as seen by the body', 'open descriptors'], note='bounds: lines of 5 (quick) / 6 characters, one or two entries over tokens 1 to 4, inputs of 4 / 5 bytes, 3 files; strings over several lines are outside (block splitting ends quotes at a newline)')
P('P11', 'FOR and FOR /L run their body once for every item, in order',
  'FOR %a IN (list) runs its body once for every item of the list, in order, separated by blanks, commas, semicolons, colons or newlines, what is quoted kept together with its quotes; an item with a wildcard stands for the matching files (not directories), each exactly once, and for nothing when there are none. FOR /L runs it for start, start+step, ... as long as the value is not beyond end, for all 32-bit values and positive steps. The error level afterwards is the one of the last command run (unchanged when there was none). GOTO or EXIT /B in the body ends all enclosing loops at once; loops nest, commands behind the loop run after it, and no loop variable stays assigned.',
  ['inputs', 'programs'], 'every list of items and separators, every set of files, every start, step and end within bounds and at the integer limits, every way of leaving the loop at any item',
  'the tests run fixed short loops; a loop that skips, repeats or never ends needs particular separators, limits or an exit at a particular item',
  ['pbat/command/pBat_For.c', 'pbat/core/pBat_Args.c', 'pbat/core/pBat_Run.c', 'libpbat/dir/pBat_Dir.c'], [('list splitting', 'pbat/command/pBat_For.c: pBat_CmdForSimple'), ('counting', 'pbat/command/pBat_For.c: pBat_CmdForL'), ('leaving a loop', 'pbat/core/pBat_Run.c: bAbortCommand')],
  ['values seen by the body', 'what runs after the loop'], note='bounds: lists of 2 (quick) / 3 items, 16 directory contents against 6 patterns, ranges from -3 to 4 and 6 limits; negative or zero steps are outside')

P('P14', 'SET /A computes the documented value and stores it under the given name',
  'The value of a SET /A expression is that of its operators applied with the documented precedence (unary - ! ~; = ; * / %; + -; << >>; &; ^; |; &&; ||), left to right within a level, on whole numbers unless a float literal, function or constant occurs, in which case the whole expression is computed on doubles. Numbers are read in decimal, 0x hexadecimal or 0 octal, every other name is the variable of that name, 0 when undefined; a division by zero gives nan or inf and never ends the interpreter. The result is stored under the name left of =, op= combines it with the old value, several assignments run in order, and a script prints nothing.',
  ['inputs', 'programs'], 'all 32-bit operand values (8-bit below * / %), every operator combination within bounds, every short literal and name',
  'no test evaluates an expression; wrong precedence, sign or rounding shows only for particular operator mixes and operands',
  ['libfasteval/lib/parser.y', 'libfasteval/lib/scanner.l', 'libfasteval/lib/fasteval.c', 'pbat/command/pBat_Set.c'], [('grammar', 'libfasteval/lib/parser.y: expression'), ('tokens', 'libfasteval/lib/scanner.l'), ('assignment', 'pbat/command/pBat_Set.c: pBat_CmdSetEval')],
  ['value returned by fasteval_evaluate', 'variables stored by SET /A'], note='bounds: expressions of 2 (quick) / 3 binary operators with one bracket pair and unary operators, shift counts 0 to 7, literals of 4 digits, names of 2 / 3 characters; the values of the functions (sin, exp...) are not checked')

P('P15', 'SHIFT moves the arguments down and refills them',
  'SHIFT moves %1 into %0, %2 into %1 and so on, or, with a start s and a step d, every %n from s on takes the argument d places further; the places that become free take, in order, the arguments that follow the ninth until none is left, and are empty then, so that shifting again and again brings up every argument exactly once, in order and whole. %*, the arguments below the start and those of the caller stay, and an invalid SHIFT reports an error and changes nothing.',
  ['inputs', 'histories'], 'every number of arguments, every start and step in every spelling, every sequence of shifts within bounds',
  'no test shifts; the arguments past the ninth and the order of the moves matter only in longer lists and repeated shifts',
  ['pbat/command/pBat_Shift.c', 'pbat/command/pBat_Call.c', 'pbat/core/pBat_Args.c'],
  [('moving and refilling', 'pbat/command/pBat_Shift.c: pBat_CmdShift'), ('what follows the ninth argument', 'pbat/core/pBat_Args.c: pBat_CatParameterEs')],
  ['%0 to %9 as printed by the script'], [('arguments', '%0 to %9, %+ and %*', 'pbat/core/pBat_Globals.h: lpvArguments')],
  note='bounds: 2, 9 or 12 arguments, all starts and steps with start+step up to 10 once, a selection twice (quick) / three times in sequence; a start and step that reach past %9 by more than one are outside')

P('P16', 'GOTO, CALL and the script reader run exactly the lines they should',
  'A script runs its lines from top to bottom; labels, :: comments, a first line with #! and empty lines do nothing. GOTO goes on behind the first label of that name (in any case, whatever follows the name after a separator) and skips the rest of its line, block and loops; CALL runs from a label or a file, also of another one with /e, and when that ends, by :eof, EXIT /B or the end of the file, goes on directly behind the call, at every depth. A missing label is reported (with /q silently) and the script goes on; a script that changes while it runs goes on at the same place with what the file says now.',
  ['programs', 'histories'], 'every arrangement of labels, jumps, calls and kinds of lines within bounds, every label name, every way of ending a callee, every change behind the current line',
  'the tests run straight-line scripts; a wrong target or return position depends on the history of jumps, calls and changes to the file',
  ['pbat/core/pBat_Jump.c', 'pbat/core/pBat_ReadScript.c', 'pbat/core/pBat_Read.c', 'pbat/command/pBat_Goto.c', 'pbat/command/pBat_Call.c'],
  [('label search', 'pbat/core/pBat_Jump.c: pBat_JumpToLabel'), ('script as a list of lines and labels', 'pbat/core/pBat_ReadScript.c: pBat_LoadBatchScript, pBat_ReloadBatchScript'), ('position of the caller', 'pbat/command/pBat_Call.c: pBat_CmdCallFile')],
  ['which lines run, in which order'], [('position in the script', 'next line to run', 'pbat/core/pBat_Globals.h: ifIn.batch.curr')],
  note='bounds: 2 (quick) / 3 labels of 3 characters, walks of 5 jumps over 3 / 4 sections, 2 nested calls in 7 forms and 5 endings each, recursion to 5, scripts of 3 / 4 lines of 10 kinds, lines up to 500 bytes; a changed script is recognised by its size, changes before the current line are outside')

P('P17', 'DEF procedures run their text with their arguments and keep _names to themselves',
  'After DEF name=text, the command name, in any case and followed by any separator, runs the text with $1 to $9 and $* standing for the arguments of that call (missing ones empty), whatever characters those contain, and nothing else in the text changed; only that name is taken over, an existing one only with /f, and DEF /l lists the definitions. A procedure counts as one command with the result of its last one, may call itself, and what it does to variables starting with _ ends with it, at every depth, unless set with /x for its caller; removing them counts too.',
  ['programs', 'inputs', 'histories'], 'every text of symbols, every argument, every set of names, every sequence of assignments in nested procedures within bounds',
  'the tests define no procedure; substitution depends on what the arguments contain, lookup on the other names defined, scoping on the nesting',
  ['pbat/command/pBat_Def.c', 'pbat/core/pBat_ExpandDef.c', 'pbat/core/pBat_Env.c', 'libpbat/cmdlist/pBat_CmdList.c', 'pbat/core/pBat_Run.c'],
  [('substitution', 'pbat/core/pBat_ExpandDef.c: pBat_ExpandDef'), ('command table', 'libpbat/cmdlist/pBat_CmdList.c: pBat_GetCommandProc, pBat_ReplaceCommand'), ('local variables', 'pbat/core/pBat_Env.c: pBat_PushEnvLocals, pBat_PopEnvLocals')],
  ['output of the procedures', 'variables afterwards'], [('locals', 'chain of values of a _name, one per procedure', 'pbat/core/pBat_Env.h: ENVVAR.previous')],
  note='bounds: texts of 2 (quick) / 3 pieces, 3 arguments, 2 / 3 definitions over 11 names, 5 assignments over 3 scopes; SETLOCAL inside a procedure is outside')

P('P18', 'CD, PUSHD and POPD lead where the path says and nowhere when it leads nowhere',
  'CD and PUSHD make the current directory the one the path leads to, from the root when the path starts with / and from the current directory otherwise, over any mixture of names, . and .. , repeated and trailing separators and quotes; %CD% is then that directory without . .. and repeated or trailing separators (/ for the root), and names in redirections, IF EXIST and other commands are relative to it. A path that leads nowhere or to a file gives an error and changes nothing. PUSHD stacks the previous directory, once per path, PUSHD alone lists the stack from its top, POPD goes back to the top one and fails when there is none. What is left of a pipe works on copies.',
  ['inputs', 'histories'], 'every path of the given pieces from every start, every sequence of changes within bounds, every short string of / . and letters for the canonical form',
  'the tests change the directory once; dots that climb past the root, doubled separators and a stack emptied and refilled are combinations',
  ['pbat/command/pBat_Cd.c', 'pbat/command/pBat_Pushd.c', 'pbat/core/pBat_DirStack.c', 'pbat/core/pBat_Clone.c', 'libpbat/libpBat.h'],
  [('canonical form', 'pbat/command/pBat_Cd.c: pBat_Canonicalize'), ('change of directory', 'pbat/command/pBat_Cd.c: pBat_SetCurrentDir'), ('stack', 'pbat/core/pBat_DirStack.c: pBat_PushDir, pBat_PopDir, pBat_DirStackCopy')],
  ['%CD%', 'the directory stack', 'files found and created'], [('current directory', 'absolute canonical path', 'pbat/core/pBat_Globals.h: lpCurrentDir'), ('directory stack', 'earlier directories', 'pbat/core/pBat_Globals.h: dsDirStack')],
  note='bounds: paths of 2 (quick) / 3 pieces out of 9, sequences of 3 / 4 commands, strings of 6 / 8 characters for the canonical form; symbolic links and directories removed while they are on the stack are outside')

P('P19', 'Wildcards and attributes select exactly the files they describe',
  'A * stands for any, possibly empty, sequence of characters, a ? for exactly one, however many bytes it has, every other character for itself (in either case for file names). A search over a pattern with one or more levels finds every file and directory it describes, each once, and no other; with /S the last level is looked for in all directories below; naming a directory lists what is in it; /A keeps exactly those with all the given attributes (D, R, I, each possibly negated with -). DIR writes each as one line with the name as the pattern leads to it, and the totals agree.',
  ['inputs'], 'every pattern and name within bounds, every pattern of the list over the tree with every attribute filter',
  'the tests search by one or two patterns; empty matches, several stars and characters of more than one byte are corner cases',
  ['libpbat/dir/pBat_Dir.c', 'libpbat/dir/pBat_Attr.c', 'libpbat/enc/pBat_Enc.c', 'pbat/command/pBat_Dir.c'],
  [('matching', 'libpbat/dir/pBat_Dir.c: pBat_RegExpMatch, pBat_RegExpCaseMatch'), ('search', 'libpbat/dir/pBat_Dir.c: pBat_GetMatch'), ('attributes', 'libpbat/dir/pBat_Attr.c: pBat_CheckFileAttributes')],
  ['names listed'], note='bounds: patterns of 3 (quick) / 4 and names of 4 characters of one or two bytes; 15 patterns, 10 filters, a tree of 13 entries, 3 levels deep; a ? behind characters behind a * is documented as greedy and only checked to select nothing wrong; ?* is outside, as is /S without a joker in the last level')

P('P20', 'The ~ modifiers of arguments and loop variables give exactly the parts of the path',
  '%~ removes the quotes around the value and nothing else. With options it stands for exactly the named parts of the full path (the current directory followed by the value, when that is relative): f everything, p the directories up to the last /, n the name up to its last dot, x the rest, z the size, a the attributes; dp, pn and nx join, other options are separated by a tab; files that do not exist have no size and no attributes. The longest possible list of options is taken, and when no variable follows it the last option is the variable. Options on %0 are about the running script. Values of any length are handled without touching memory outside.',
  ['inputs'], 'every value within bounds, every list of options within bounds, each variable, every set of defined variables',
  'the tests use one or two lists of options on ordinary names; the split depends on the position of each / and dot, the greedy rule on which variables are defined',
  ['pbat/core/pBat_Var.c', 'pbat/core/pBat_SplitPath.c', 'pbat/core/pBat_FilePath.c', 'pbat/core/pBat_Expand.c'],
  [('options', 'pbat/core/pBat_Var.c: pBat_GetLocalVar'), ('splitting', 'pbat/core/pBat_SplitPath.c: pBat_SplitPath'), ('full path', 'pbat/core/pBat_FilePath.c: pBat_EsToFullPath')],
  ['output', 'text of the expansion'], note='bounds: values of 3 (quick) / 4 characters out of / . - and letters, lists of 2 / 3 options; values of 4 / 6 characters with quotes; 5 variables, each defined or not; lengths 110 to 4100; the time (t) is outside, as are backslashes and values that start with //')

P('P21', 'COPY, MOVE and REN put exactly the content of their sources at the destination and lose nothing',
  'After COPY or MOVE the destination (the named file, or the file of the same name in the named directory) has the byte-exact content of its source; joined files (+, or several sources for one file) have the content of all of them in order; MOVE and REN leave no copy behind. An existing file is only replaced after a yes or with /Y. When the source is missing, the destination impossible, one of the sources, or the file itself, or when several files would have to become one by MOVE, no file loses its content. A transfer that the system cuts short is continued, one that fails is reported by the status, and what was written is a prefix of the right content. /R copies or moves whole trees. Nothing else in the file system changes.',
  ['inputs', 'faults'], 'every combination of source, destination, switches and answers of the lists, symbolic contents, every point of failure of the transfers within bounds',
  'the tests do not run COPY, MOVE or REN at all; losses appear for destinations that are also sources, failed moves, partial writes, and counts of matching files',
  ['pbat/command/pBat_Copy.c', 'pbat/command/pBat_Ren.c', 'pbat/command/pBat_Ask.c', 'libpbat/dir/pBat_Dir.c'],
  [('copying', 'pbat/command/pBat_Copy.c: pBat_CmdCopy, pBat_CmdCopyFile, pBat_CopyFile, pBat_CatFile, pBat_MoveFile'), ('trees', 'pbat/command/pBat_Copy.c: pBat_CmdCopyRecursive'), ('renaming', 'pbat/command/pBat_Ren.c'), ('answers', 'pbat/command/pBat_Ask.c')],
  ['all files and directories', 'status of the command'], note='bounds: files of up to 4100 bytes (chunk borders symbolic), 4 sources, 12 destinations, 7 answers, 3 switches; up to 3 sources; a tree of 3 levels; read or write number 1 to 3 fails or is short; REN onto an existing file replaces it on Unix and is outside')
P('P22', 'DEL and RD remove exactly what they name, after a yes where one is due; MD creates exactly what it names',
  'DEL removes exactly the files its names select (a file, the files in a named directory, those that match a pattern, with /S below it too) that have the attributes asked for and, without /F or /A, are not read-only; a pattern without /Q, and /P always, ask for each file, "all" answers for the rest, no or the end of the input keeps the file. When a name selects nothing, an error is reported and nothing is deleted. RD removes empty directories, with /S whole trees, never files; MD makes the directory and those above it. Everything else keeps its content.',
  ['inputs'], 'every combination of switches, one or two names and answers of the lists over a tree of ten entries',
  'the tests do not run these commands; the asking and the selection depend on combinations of switches',
  ['pbat/command/pBat_Del.c', 'pbat/command/pBat_Rmdir.c', 'pbat/command/pBat_Mkdir.c', 'pbat/command/pBat_Ask.c', 'libpbat/dir/pBat_Dir.c'],
  [('deleting', 'pbat/command/pBat_Del.c: pBat_CmdDel, pBat_CmdDelFile'), ('directories', 'pbat/command/pBat_Rmdir.c: pBat_CmdRmdir; pbat/command/pBat_Mkdir.c: pBat_CmdMakeDirs')],
  ['all files and directories', 'status of the command'], note='bounds: 12 names, up to two per command, 5 sequences of answers, attributes r and -r')

P('P23', 'TYPE, FIND, WC, MORE and XARGS show the files and lines they are asked for',
  'TYPE writes the bytes of every named file (or of its input) in the order of the names, directories left out. FIND writes exactly the lines that contain the string (with /I whatever the case, with /E the lines the wildcard matches in full, with /V the others), with /N after their number, with /C only how many; of several files each under a heading with its name; the status is 0 when a line was found in the file, and not 0 otherwise. WC writes the numbers of lines, words, bytes and UTF-8 characters asked for (bytes by default) in that order, one line for each file and a total for several. MORE, when its output is not a terminal, writes the whole text, tabs as blanks and lines broken at 79 columns, +n leaving out the first n lines and /S keeping one of several blank lines. XARGS runs its command once, with one parameter for each line of its input, quoted when the line has a delimiter. A name that nothing has is an error.',
  ['inputs'], 'every content of files and input of the lengths given, and every combination of switches and names of the lists',
  'the tests run these commands on one or two fixed texts; boundaries of words, lines and columns depend on the content',
  ['pbat/command/pBat_Type.c', 'pbat/command/pBat_Find.c', 'pbat/command/pBat_Wc.c', 'pbat/command/pBat_More.c', 'pbat/command/pBat_Xargs.c'],
  [('printing', 'pbat/command/pBat_Type.c: pBat_CmdType; pbat/command/pBat_More.c: pBat_MoreWriteLine'), ('searching', 'pbat/command/pBat_Find.c: pBat_FileFind'), ('counting', 'pbat/command/pBat_Wc.c: pBat_FileCounts'), ('parameters from input', 'pbat/command/pBat_Xargs.c: pBat_CmdXargs')],
  ['standard output', 'status of the command'], note='bounds: files of 3 or 4 arbitrary bytes (ASCII for FIND /E; for MORE after 0, 77 or 79 columns of text, without escape codes and carriage returns), needles of 1 or 2 bytes, 8 wildcards, up to 3 names')

P('P24', 'External programs get exactly what the line says, and their result comes back',
  'A command that is not built in is looked for as the line names it, in the current directory, then in the directories of PATH in order, in each with the extensions of PATHEXT in order and then as it is; the first file found is started, once, and nothing else. It is given exactly the parameters of the line after expansion, each one as a single string without its outer quotes and escapes; exactly the variables that are set at that moment, with their values; the current directory; and as its three streams the files the line, its blocks and its pipes redirect them to, every other file of the interpreter being closed to it. What the script wrote before is out before the program starts. The interpreter waits for it and its exit status becomes the error level (not 0 when a signal ended it), which &&, || and IF see; a program that can not be started is reported and fails.',
  ['inputs','faults'], 'every parameter of the forms given with any bytes, every set of files along the path, every exit status, a failing start',
  'the tests start one or two programs with fixed words; quotes, removed variables, PATHEXT, signals and failures to start are not covered',
  ['pbat/core/pBat_Run.c', 'pbat/core/pBat_Args.c', 'pbat/core/pBat_EnvStack.c', 'pbat/core/pBat_Env.c'],
  [('search along PATH', 'pbat/core/pBat_Run.c: pBat_GetFilePath'), ('start, streams and status', 'pbat/core/pBat_Run.c: pBat_RunFile'), ('parameters', 'pbat/core/pBat_Run.c: pBat_RunExternalCommand; pbat/core/pBat_Args.c'), ('variables handed over', 'pbat/core/pBat_Env.c: pBat_ApplyEnv')],
  ['the parameters of fork, execv and waitpid (replaced by recorders)', 'environment, streams and directory at execv', 'error level and output afterwards'], note='bounds: up to 2 (quick) / 3 parameters of 7 forms with symbolic bytes; 3 directories, 3 extensions, every subset of the files; every wait status; 9 layouts of redirections')
P('P25', 'EXIT ends what it says with the code it gives, and scripts run as commands stay apart',
  'EXIT ends the interpreter, wherever it stands (blocks, IF, FOR, CALL, scripts called), giving its code back, and nothing after it runs. EXIT /B ends only the script or CALL it stands in, whatever blocks, IF or FOR surround it, with its code as the error level, and the caller goes on after the call. A script run as a command (without CALL) works on its own copy: variables, definitions, current directory and directory stack of the caller are unchanged by it, EXIT in it only ends it, and its code is the error level. CALL of a script shares all of these with its caller.',
  ['programs'], 'every code within bounds in every combination of surrounding blocks, calls and following commands given',
  'no test uses EXIT with a code, nor inside blocks or calls',
  ['pbat/command/pBat_Exit.c', 'pbat/command/pBat_Call.c', 'pbat/core/pBat_Clone.c', 'pbat/core/pBat_Run.c', 'pbat/core/pBat_ExitInt.c', 'pbat/command/pBat_If.c', 'pbat/command/pBat_For.c'],
  [('ending', 'pbat/command/pBat_Exit.c: pBat_CmdExit'), ('leaving blocks and calls', 'pbat/core/pBat_Run.c: pBat_RunBatch, pBat_RunParsedLine; pbat/command/pBat_Call.c'), ('own copy of a script', 'pbat/core/pBat_Clone.c')],
  ['argument of exit()', 'output', 'error level', 'variables, definitions and directories afterwards'], note='bounds: codes of 2 (quick) / 4 symbolic digits, 8 surroundings, 9 changes of state in the script')

P('P26', 'No line and no script makes the interpreter crash, hang or lose a stream',
  'Whatever bytes a command line or a script holds, however malformed its quotes, parentheses, escapes, variables, options or numbers, the interpreter reads and writes only its own memory, comes to an end of every command that does not itself ask for an endless loop, closes every file and pipe it opened for it, and then runs the next line as if nothing had happened, with its output at its usual place.',
  ['inputs', 'programs'], 'every line of up to three (thorough: four) arbitrary bytes, every script of up to three (four) arbitrary bytes, and about 130 command and script shapes that cover every command and every construct with two arbitrary bytes at their sensitive places',
  'malformed input is not sampled by the tests at all, and what it does to the parser shows only for particular byte combinations',
  ['pbat/core/pBat_Parse.c', 'pbat/core/pBat_ParseBlock.c', 'pbat/core/pBat_Args.c', 'pbat/core/pBat_Expand.c', 'pbat/core/pBat_Var.c', 'pbat/core/pBat_Run.c', 'pbat/core/pBat_Stream.c', 'pbat/core/pBat_ReadScript.c', 'pbat/command/pBat_For.c', 'pbat/command/pBat_If.c', 'pbat/command/pBat_Set.c', 'libpbat/cmdlib/pBat_String.c', 'libpbat/estr/pBat_Estr.c', 'libfasteval/lib/evaluator.c', 'pbat/lang/pBat_ShowHelp.c'],
  [('parsing of lines and blocks', 'pbat/core/pBat_Parse.c, pbat/core/pBat_ParseBlock.c'), ('argument splitting', 'pbat/core/pBat_Args.c'), ('running of a line', 'pbat/core/pBat_Run.c: pBat_RunLine'), ('stack of redirections', 'pbat/core/pBat_Stream.c')],
  ['sanitizer-clean end of the line', 'number of open descriptors', 'output of the following line'],
  note='bounds: three symbolic bytes in free lines and scripts (thorough four), two symbolic bytes per shape; FOR /L with step 0, GOTO to itself and a procedure that calls itself are endless because they say so and are left out; external programs are not found')

P('P27', 'PROMPT codes and shown lines: each code stands for what is documented, and exactly the lines asked for are shown',
  'In the prompt and in PECHO each documented code ($A $B $C $E $F $G $H $L $M $N $P $Q $S $U $W $_ $$ $+, in either case, and colors, which show only on terminals) stands for what is documented and every other byte for itself; PROMPT with a text stores it, PROMPT alone makes it $P$G. With ECHO ON every line of a script that is not marked by @ is shown behind the prompt, expanded, before it runs; with ECHO OFF none is. A switch holds from the next line on, in scripts and labels called too, until the next switch.',
  ['inputs','programs'], 'every format within bounds over every byte, every script of three lines of the kinds given',
  'no test looks at the prompt, as the tests all switch it off',
  ['pbat/core/pBat_Prompt.c', 'pbat/command/pBat_Pecho.c', 'pbat/command/pBat_Echo.c', 'pbat/core/pBat_Run.c'],
  [('formats', 'pbat/core/pBat_Prompt.c: pBat_PrintPrompt'), ('shown lines', 'pbat/core/pBat_Run.c: pBat_RunBatch')],
  ['standard output', 'variable PROMPT'], note='bounds: formats of 2 pieces (thorough 3), USERNAME of two bytes, the first arbitrary, 14 kinds of lines')

P('P28', 'The DUMP program shows every byte of its files, in order and once, as what is asked',
  'DUMP prints all bytes of each file it is given (of its input when there is none), in order and each once: as elements of the type /T asks for (signed and unsigned integers of 1, 2, 4 and 8 bytes in decimal, floats and doubles), with /H as their bits in hexadecimal, each padded with zeros to one width. Rows of as many elements as fit 80 columns begin with the address of their first byte and end with their characters, unprintable ones as dots; the last element is completed with zeros and nothing else is made up, however the input arrives in pieces. /B chooses among titles, addresses, characters and blanks. Options hold for the files behind them. A file that can not be opened or read, or a bad type, is an error told by the status, and the program always ends.',
  ['inputs','faults'], 'every value of the integral types, every length next to the borders of rows, every combination of options, every cutting into pieces within bounds',
  'one test dumps one text in one format; values of the other types, ends of rows, pipes in pieces and errors are not covered',
  ['dump/dump.c', 'dump/dump_h_gen.c'],
  [('formats', 'dump/dump.c: fill_context'), ('printing', 'dump/dump.c: dump_fd, dump_file'), ('options', 'dump/dump.c: main')],
  ['standard output', 'exit status'], note='bounds: integral elements fully symbolic; files up to two rows and one byte; up to three short reads, one failing read; up to 3 parameters; floating values of a list of 7')

P('P29', 'PBATIZE puts the blanks where they belong and changes nothing else',
  'PBATIZE writes its input file with exactly one blank added between each of the command names it knows and a switch of that command attached to it, and between two different switches of one of these commands attached to each other, whatever the case. Everything else in the text (apart from the case of the names and switches and the kind of line ends) stays as it is. The result goes to the standard output or the file named, also when that is the input file itself; otherwise the input file is not changed. What can not be opened is an error told by the status.',
  ['inputs'], 'every text of the shapes given over all byte values',
  'no test runs PBATIZE',
  ['pbatize/pbatize.c', 'pbatize/pairs.c', 'libpbat/estr/pBat_Estr.c'],
  [('pairs', 'pbatize/pairs.c: pair_next, pair_replace_exps'), ('replacing', 'libpbat/estr/pBat_Estr.c: pBat_EsReplaceI, stristr'), ('files', 'pbatize/pbatize.c: main, read_file')],
  ['content of output and input files', 'exit status'], note='bounds: one command with two (thorough three) attached switches of any byte; free texts of three (four) arbitrary bytes; files up to 320 bytes')

P('P30', 'Message catalogues give each message its translation, and a damaged one does no harm',
  'With a catalogue (.mo file) for the language of the locale, each message it lists is shown as exactly its translation and every other message as it is; which file is read follows from the directory bound, the language (two letter code, also for locales named by the English name of the language) and the domain. A catalogue that is missing, cut off or damaged in any way leaves messages as they are, without reading outside the file, and looking a message up keeps no memory.',
  ['inputs','faults'], 'every catalogue of up to three messages of two arbitrary bytes, every damage by edge values in one or two fields, every cut',
  'no test loads a catalogue',
  ['microgettext/microgettext.c'],
  [('loading', 'microgettext/microgettext.c: microgettext_load_mofile, microgettext_make_array'), ('looking up', 'microgettext/microgettext.c: dcgettext, microgettext_get_index'), ('choice of the file', 'microgettext/microgettext.c: microgettext_make_domain_path, microgettext_get_lang')],
  ['text returned', 'memory accesses', 'live memory'], note='bounds: up to 3 messages of 2 bytes; damaged fields take 24 edge values; 15 locale names')

P('P31', 'On Windows, text survives the way between UTF-8 and the encoding of files or the console', 
  'libcu8 lets programs use UTF-8 with the C library of Windows. What a program writes with fputs, fputc or fprintf arrives in a file in its encoding and on the console as UTF-16, complete and in order, however the text is cut into calls (also inside a character) and however long it is; bytes that are no UTF-8 and characters the encoding lacks are left out, nothing else. What fgets and fgetc give of a file is its text in UTF-8, cut only by the size asked for and by ends of lines, and the end of file is told once everything was given. Conversion there and back gives the same text; names of files and entries of directories are passed on converted, a file that cannot be opened gives NULL. Nothing is read or written outside its memory, and no call keeps memory or open searches.',
  ['inputs','histories'], 'every text of up to four arbitrary bytes cut in any three calls and by buffers of 256 bytes, every file of three characters in a one byte, a two byte and the UTF-8 encoding read in any two sizes',
  'the tests convert five fixed texts',
  ['libcu8/src/encoding.c', 'libcu8/src/write.c', 'libcu8/src/read.c', 'libcu8/src/fdio.c', 'libcu8/src/dirent.c', 'libcu8/src/iconv/iconv.c'],
  [('conversion', 'libcu8/src/encoding.c: libcu8_convert, libcu8_xconvert; libcu8/src/iconv/iconv.c'), ('writing', 'libcu8/src/write.c: libcu8_fputs, libcu8_vfprintf, libcu8_write_file, libcu8_write_console'), ('reading', 'libcu8/src/read.c: libcu8_fgets, libcu8_readfile, libcu8_read_buffered'), ('names', 'libcu8/src/fdio.c: libcu8_fopen; libcu8/src/dirent.c')],
  ['bytes written', 'bytes read', 'live memory', 'open searches'], note='bounds: texts of up to 4 bytes (5 thorough) behind none or 253 to 256 more; files of up to 3 characters (4 thorough), sizes up to 5 (6); the calls to Windows (code pages, console, directories, _vsnprintf) are models')

P('P32', 'The line edited on the Windows console is the line the program gets', 
  'While a line is typed on the console of Windows (libcu8), the screen always shows exactly the line with the cursor at its place: characters, left, right, home, end, delete, backspace and escape each do to it what they do in an editor, for characters of any length in UTF-8 and over the end of a screen row. Up and down fetch the last 50 lines in their order, tab asks completion for the word before the cursor and inserts what it offers. Enter ends the line, and the program gets what the screen showed, in parts when it asked for less. Nothing is read or written outside the line.',
  ['inputs','histories'], 'every line of two characters edited with three keys, every history of two lines walked with four keys, fuller histories, every completion of four characters',
  'the only test of it does not pass here: it needs a real keyboard',
  ['libcu8/src/read.c'],
  [('editing', 'libcu8/src/read.c: libcu8_readconsole, libcu8_refresh_console_line'), ('keys', 'libcu8/src/read.c: libcu8_get_console_input, libcu8_get_console_wchar'), ('history', 'libcu8/src/read.c: libcu8_history_add_entry'), ('completion', 'libcu8/src/read.c: libcu8_completion_get_item, libcu8_completion_insert')],
  ['screen', 'cursor', 'line read', 'memory accesses'], note='bounds: 2 characters and 3 keys (4 thorough), characters below U+10000 on the screen; the screen does not scroll; the console is a model')

def main():
    here = os.path.dirname(os.path.abspath(__file__))
    import checks
    ids = {p['id'] for p in L}; na = dict(NA)
    assert set(checks.P) | set(na) == ids, (set(checks.P) ^ ids)
    with open(here + '/properties.jsonl', 'w') as f:
        for p in L: f.write(json.dumps({k: v for k, v in p.items() if k[0] != '_'}) + '\n')
    m = dict(version=1, setup_cmd='python3 engine/run.py setup',
        checks=[dict(property=p['id'], quick_cmd='python3 engine/run.py check %s --tier quick' % p['id'], thorough_cmd='python3 engine/run.py check %s --tier thorough' % p['id'],
                     technique=p['_tech'] or TECH, level='model_checking', level_note=p['_note']) for p in L if p['id'] not in na],
        not_applicable=[dict(property=a, reason=b) for a, b in NA],
        notes='One engine (engine/vse.cpp, written for this task on LLVM 18 and z3) decides every property; see DESIGN.md.')
    json.dump(m, open(here + '/MANIFEST.json', 'w'), indent=1)
if __name__ == '__main__': main()
