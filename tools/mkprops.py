#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (run by hand when the list of properties changes)."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'observe_at': observe,
         'hook_needed': hook}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why, 'anchors': a})


prop('P01', 'Expressions have the values B gives them',
     "Every expression of a compiled program has the value that B's operators define on 64-bit two's-complement words: "
     "wrap-around + - and *, / and % truncating toward zero, >> keeping the sign, bitwise & and |, and exactly 0 or 1 from comparisons and !. "
     "Operands are grouped by the published precedence (postfix, unary, * / %, + -, << >>, < <= > >=, == !=, &, |, ?:, assignment), binary operators to the left, unless parentheses say otherwise. "
     "A conditional expression has the value of the chosen operand and evaluates only that one.",
     ['programs', 'inputs'],
     'for every expression (any nesting and length, any mixture of operators, literal, variable, vector-element and call operands) and all operand values for which it is defined (no division by zero or of the most negative number by -1, shift counts 0..63)',
     'The tests evaluate a few dozen fixed expressions on small values; the precedence table alone has hundreds of operator pairs, and values at the word boundary are barely sampled.',
     ['expressions.go', 'lexer.go'],
     [('parseExpressionWithLevel (precedence climbing, one level per operator class)', 'expressions.go'),
      ('parseUnary / parsePostfix / parsePrimary', 'expressions.go')],
     ['event log of the running program (values passed to a linked-in observer)'])

prop('P02', 'Assignments and increments store once, in the designated word',
     "An assignment, compound assignment (=+ =- =* =/ =% =& =| =<< =>> =< =<= => =>= =!= ===), increment or decrement changes exactly the word its left operand designates (a variable, an element of a vector, the target of a pointer), to exactly the value defined, and no other storage. "
     "Its operands are evaluated exactly once, also when they have side effects of their own. "
     "As an expression it has the value stored (postfix ++ and --: the old value), and assignments group to the right.",
     ['programs'],
     'for every lvalue form, operator, operand value and nesting in larger expressions and statements of a program without order-dependent side effects',
     'The tests apply each operator to one or two scalars and look at the result, not at the rest of the storage nor at the number of evaluations of a computed lvalue.',
     ['expressions.go'],
     [('assignment and compound assignment', 'expressions.go: parseExpressionWithLevel'),
      ('prefix and postfix ++/--', 'expressions.go: parseUnary, parsePostfix')],
     ['event log of the running program, with a dump of all storage after each operation'])

prop('P03', 'Control flow takes exactly the path the source prescribes',
     "Statements of a function execute in exactly the sequence prescribed by if/else (an else belonging to the nearest if), while, switch (to the matching case, falling through into the following ones, past the statement when none matches), goto and labels (forward, backward, into and out of blocks and loops), and return. "
     "Code that control does not reach, such as what follows a return or goto or precedes the first case, has no effect.",
     ['programs'],
     'for every nesting and number of these statements, any case values and any conditions',
     'The tests run a handful of short programs; combinations (a switch in a loop in a switch, gotos across them, hundreds of cases, unbraced else chains, code after return) are not sampled.',
     ['parser_stmt.go', 'irbuilder.go'],
     [('parseIf, parseWhile, parseSwitch, parseCase, parseGoto, parseReturn', 'parser_stmt.go'),
      ('GetOrCreateLabel, EndFunction', 'irbuilder.go')],
     ['event log of the running program (a tag per statement reached)'],
     [('labels', 'basic blocks of the labels of the current function', 'irbuilder.go: Compiler.labels')])

prop('P04', 'Calls pass every argument and return the right value',
     "A call executes the function it names, or that the called value points to, exactly once, with parameter i initialised to the value of argument i for any number of parameters; surplus arguments have no effect, and parameters without an argument disturb nothing else. "
     "The call has the value of the return executed, or 0 when the function ends or returns without a value. "
     "Every activation, however deeply recursive, has its own parameters and automatic variables, and it makes no difference whether the function is defined before or after the call. The name of a function used as a value, anywhere in an expression, designates that function and compares equal only to itself.",
     ['programs'],
     'for every number of parameters and arguments, call form (by name, through a variable, parameter, vector element or parenthesised expression), recursion pattern and order of definitions',
     'The tests call functions with up to a few arguments in one or two forms; parameters are fetched through a variable-argument protocol whose behaviour changes with their number (registers, then stack).',
     ['irbuilder.go', 'expressions.go', 'parser_decls.go'],
     [('StartFunction (first parameter fixed, the others by va_arg)', 'irbuilder.go'),
      ('call construction in parsePostfix, callee lookup in parsePrimary', 'expressions.go')],
     ['event log of the running program'])

prop('P05', 'Storage has the declared size, layout and initial contents',
     "Global variables and vectors start with exactly the initial values of their declaration (numbers, negated numbers, character constants, strings), zero for the rest; a name with several values occupies that many consecutive words, and a vector has max(declared size, number of values, 1) consecutive words that the word called by its name points to. "
     "Automatic variables start as zero each time their declaration is executed, and automatic vectors have their declared number of words. "
     "Distinct objects never share storage, a global keeps its last value between calls, and an element or pointed-to word is the same whether reached by index, indirection or address.",
     ['programs', 'inputs'],
     'for every list of declarations, sizes (including 0, absent, octal or character sizes, and large ones) and initial values, global and automatic',
     'The tests check a few fixed declarations; overlap or a wrong bound shows only for particular sizes and orders of declarations.',
     ['irbuilder.go', 'parser_decls.go', 'parser_stmt.go'],
     [('DeclareGlobal, DeclareGlobalWithMultipleValues, DeclareGlobalArray (two layouts)', 'irbuilder.go'),
      ('DeclareLocal, DeclareLocalArray', 'irbuilder.go'), ('parseGlobal, parseVector, parseIvalConst', 'parser_decls.go'),
      ('parseAuto', 'parser_stmt.go')],
     ['event log of the running program (contents, address differences and overlap of all objects)'])

prop('P06', 'A name means what its scope says',
     "Inside a function a name denotes its parameter or automatic variable if there is one, else the global its own extrn declaration names; another function's extrn, locals, labels or order of definition never change that, and locals and labels of different functions may share names. "
     "When a global variable, vector or function is defined again, the last definition is the one every function of the file uses. "
     "Any identifier (letters, digits, underscores, any length, case sensitive) can name a variable, function, parameter or label without colliding with names the compiler, the C library or LLVM use.",
     ['programs'],
     'for every assignment of names to globals, functions, parameters, autos and labels, and every order of definitions',
     'The tests use short conventional names and few functions; name clashes need particular names in particular roles.',
     ['irbuilder.go', 'parser_decls.go', 'parser_stmt.go', 'options.go'],
     [('globalName prefix, find/removeGlobalByName, find/removeFuncByName, ClearTopLevelContext', 'irbuilder.go'),
      ('parseExtrn', 'parser_stmt.go'), ('GetAddress, parsePrimary lookup order', 'irbuilder.go, expressions.go')],
     ['event log of the running program'],
     [('symbol tables', 'what the current function can see', 'irbuilder.go: Compiler.locals/globals/functions')])

prop('P07', 'Optimization, -g and the output route never change behaviour',
     "A program with defined behaviour links and behaves the same (events, output bytes, exit status) at -O0, -O1, -O2 and -O3, with and without -g or --save-temps. "
     "It also behaves the same when it is compiled in one step or through --emit-llvm, -S or -c with the intermediate file handed back to the compiler.",
     ['configurations', 'programs'],
     'for every such program and every combination of these options and routes',
     'The tests compile at one level by one route; undefined or ill-typed code in the generated module shows only once the optimizer exploits it.',
     ['driver.go', 'irbuilder.go', 'expressions.go'],
     [('clang argument lists of the four pipelines', 'driver.go'),
      ('generated IR free of undefined behaviour the optimizer could exploit', 'irbuilder.go, expressions.go')],
     ['event logs of the same program built in all configurations'])

prop('P08', 'The compiler ends normally on any input',
     "For every content of its .b input file the compiler terminates by itself, without crashing: either with exit status 0 and the requested output, or with exit status 1, a message 'blang: error: ...' on standard error and no output file. "
     "The same holds for every prefix of a valid program.",
     ['inputs'],
     'for every byte sequence up to 64 KiB (random bytes, token soup, truncated or mutated programs, deep nesting up to a thousand levels, very long tokens)',
     'The tests feed some fifteen malformed programs; the hand-written parser has hundreds of places where an early end of file or odd byte can arrive.',
     ['lexer.go', 'parser_decls.go', 'parser_stmt.go', 'expressions.go', 'irbuilder.go', 'driver.go'],
     [('error returns throughout the parser, io.EOF handling in the lexer', 'lexer.go, parser_*.go, expressions.go'),
      ('Compile error path', 'main.go, driver.go')],
     ['exit status, standard error and output directory of the compiler; panics and input consumption in process'])

prop('P09', 'Whatever the compiler accepts becomes a valid module',
     "If the compiler accepts a source file, the LLVM module it emits is well formed: it parses, passes the LLVM verifier and can be turned into an object file. "
     "No accepted program, however unusual, makes the back end reject the compiler's own output.",
     ['programs', 'inputs'],
     'for every accepted source file, including odd but accepted ones obtained by mutating programs (unused or duplicate declarations, unreachable code, empty bodies, calls with any number of arguments)',
     'The tests compile some hundred well-behaved programs; invalid modules come from interactions (terminators, dominance, duplicate symbols, type mismatches) the parser does not reject.',
     ['irbuilder.go', 'parser_stmt.go', 'parser_decls.go', 'expressions.go'],
     [('block terminators', 'parser_stmt.go'), ('symbol bookkeeping', 'irbuilder.go')],
     ['emitted module, judged by the LLVM verifier'])

prop('P10', 'White space and comments between tokens do not matter',
     "Two source files with the same sequence of tokens produce the same module and the same verdict, however the tokens are separated: by nothing where the tokens stay distinct, or by any mixture of blanks, tabs, line ends (LF, CR LF), form feeds and comments of any content. "
     "Separators are never needed except where two tokens would otherwise merge, and they never join or split tokens.",
     ['inputs', 'programs'],
     'for every program and every layout of it',
     'The tests use one conventional layout per program; the scanner-less parser decides about white space at each of more than a hundred places separately.',
     ['lexer.go', 'parser_decls.go', 'parser_stmt.go', 'expressions.go'],
     [('Whitespace / Comment calls at every token boundary, push-back buffer', 'lexer.go and all parsers')],
     ['emitted module for differently laid-out copies of one program'])

prop('P11', 'Constants denote exactly the written value',
     "A decimal constant, or an octal one (leading 0), denotes its value (modulo 2 to the 64th); a character constant of one to eight characters the word with these bytes, the last one least significant; a string the address of exactly these bytes followed by a zero byte. "
     "The escapes *0 *e *( *) *t *n *r ** *' *\" denote NUL, NUL, {, }, tab, newline, carriage return and the escaped character itself, in strings and character constants alike. "
     "The same constant means the same in expressions, case labels, initial values and vector sizes.",
     ['inputs'],
     'for every constant of ASCII characters, any length of string, any value below 2^63 (octal: any 64-bit pattern), in every place where a constant is allowed',
     'The tests cover a few constants of each kind; lengths, digits, escapes at either end and constants in less usual places are not swept.',
     ['lexer.go', 'irbuilder.go', 'parser_decls.go', 'parser_stmt.go'],
     [('Number, Character, String, Escape', 'lexer.go'), ('CreateStringConstant', 'irbuilder.go'),
      ('parseIvalConst', 'parser_decls.go'), ('parseCase', 'parser_stmt.go')],
     ['event log and output bytes of the running program'])

prop('P12', 'Compilation is deterministic and inputs do not influence each other',
     "Compiling the same source gives a byte-identical module every time, whatever the file is called, whatever directory it is in, whatever was compiled before and whatever else is compiled together with it, in the same command or concurrently in the same process. "
     "In particular each of several inputs of one command yields the module it yields alone.",
     ['histories', 'schedules', 'programs'],
     'for every program, every sequence or set of other programs, valid or not, and every interleaving of concurrent compilations',
     'The tests compile each program once, alone; leaked state or map iteration order shows only over repetitions and particular neighbours.',
     ['driver.go', 'irbuilder.go', 'lexer.go'],
     [('fresh Compiler and Lexer per input file', 'driver.go: compileToIR'), ('per-compiler state only', 'irbuilder.go: NewCompiler')],
     ['emitted modules; Go race detector over concurrent compilations'],
     [('Compiler', 'all state of one compilation', 'irbuilder.go')])

prop('P13', 'Formatted output writes exactly the right bytes',
     "printf writes its format with %d, %o, %c, %s replaced by the signed decimal value, the octal value (a minus sign and the magnitude for negative values), the characters packed in the word, and the bytes of the string up to its end, each consuming the next argument; %% writes a percent sign, and any other sequence is written unchanged and consumes nothing. "
     "printd and printo write one word in signed decimal and unsigned octal, write the characters packed in a word (leading zero bytes omitted, at least one byte), writeb its low byte. "
     "All of it appears in call order on the stream fout selects (0 standard output, 1 standard error), and nothing else is written or modified.",
     ['inputs'],
     'for every 64-bit value, every ASCII string of any length, and every format with any number and mixture of conversions and arguments',
     'The tests print small values with short formats; widths, extreme values, many arguments and unusual sequences are not covered.',
     ['runtime/printf.c', 'runtime/printd.c', 'runtime/printo.c', 'runtime/write.c', 'runtime/writeb.c', 'runtime/nwrite.c'],
     [('digit loops with fixed buffers', 'runtime/printd.c, runtime/printo.c'), ('format scan with va_arg', 'runtime/printf.c'),
      ('big-endian unpacking', 'runtime/write.c')],
     ['bytes on file descriptors 1 and 2; AddressSanitizer and UndefinedBehaviorSanitizer in the runtime'],
     [('fout', 'selected output stream', 'runtime/writeb.c')])

prop('P14', 'Byte input, byte access and block transfers are exact and memory safe',
     "read returns the next ASCII byte of standard input (0 for NUL or a byte above 127) and 4 at the end of the input or on an error; nread and nwrite transfer at most the given number of bytes between descriptor and buffer and return the number transferred, or a negative value on an error. "
     "char returns byte i of a string (0 to 255), and lchar stores one byte there, without touching any neighbouring byte. "
     "None of them reads or writes memory outside the given range, loses, duplicates or reorders a byte.",
     ['inputs', 'fault_sequences'],
     'for every input byte sequence (any bytes, any length, files, pipes delivering any chunks, closed and invalid descriptors), buffer, count and index',
     'The tests read a few characters; short transfers, errors, NUL and high bytes, and indexes at word boundaries are not driven.',
     ['runtime/read.c', 'runtime/nread.c', 'runtime/nwrite.c', 'runtime/char.c', 'runtime/lchar.c'],
     [('direct system calls', 'runtime/x86_64.h'), ('byte access', 'runtime/char.c, runtime/lchar.c')],
     ['values returned, bytes transferred, guard bytes around buffers; sanitizers in the runtime'])

prop('P15', 'A successful command leaves exactly the requested files',
     "A successful command creates exactly the files it is asked for: the -o name, or the base name of each input (of the first, for an executable) in the current directory with .ll, .s, .o or no extension for --emit-llvm, -S, -c or linking; each contains what the name promises, for its own input. "
     "Inputs and all other files stay untouched, also when several commands run in one directory at the same time, and intermediate files are gone afterwards unless --save-temps asks to keep them. "
     "Nothing else is printed without -v, the options may be given in any order, long or short, before or after the inputs. Unknown options or values, inputs of a kind the mode does not accept, and -o with several inputs unless linking are refused with a non-zero status and no output.",
     ['configurations', 'inputs'],
     'for every combination of options, number and kinds of inputs, names (with dots, blanks, directories, absolute or relative) and existing files in the directory',
     'The tests look at a dozen command lines in one directory and check only that the expected file exists.',
     ['main.go', 'driver.go', 'options.go'],
     [('flag parsing and validation', 'main.go'), ('output and temporary names, removal of temporaries', 'driver.go')],
     ['directory snapshots before and after, exit status, output of the command, file contents'])

prop('P16', 'A failing step fails the command cleanly',
     "When any step fails (an input that cannot be read or does not compile, an output that cannot be created, clang missing, failing or killed at any of its invocations), the command exits with status 1 and a message 'blang: error: ...' on standard error, never with status 0. "
     "No temporary file stays behind (unless --save-temps), inputs and unrelated files are untouched, and no output file appears for the step that failed.",
     ['fault_sequences', 'configurations'],
     'for every step of every pipeline and number of inputs, and every kind of failure at that step',
     'The tests provoke three or four errors in single-input commands and look at the message only.',
     ['driver.go', 'main.go'],
     [('cleanup on the error paths of compileToAssembly, compileToObject, compileToExecutable', 'driver.go')],
     ['exit status, standard error and directory snapshots under an instrumented clang that fails on command'])

prop('P17', 'Separately compiled files link into the same program',
     "A program split over several files behaves as in one file, whichever functions and globals are defined where: functions called and globals named by extrn in one file are those defined in another, in any order of the inputs, each given as .b, .ll, .s, .o or inside a library (.a, or -l with -L) that may itself need the runtime. "
     "Globals and functions are visible to assembly and C as 'b.' followed by the name, main as 'main'; names that are only local to a file's functions never clash with another file's.",
     ['programs', 'configurations'],
     'for every partition of a program into files, every order and every choice of input kinds',
     'The tests link two files in one or two ways; sharing variables between files was not tested at all.',
     ['driver.go', 'irbuilder.go', 'parser_stmt.go'],
     [('symbol naming and linkage', 'irbuilder.go: globalName, CreateStringConstant; parser_stmt.go: parseExtrn'),
      ('link command', 'driver.go: compileToExecutable')],
     ['event log of the linked program compared with the one-file program; symbol tables'])

prop('P18', 'Ill-formed programs are refused',
     "A source file that is not a B program is refused with a diagnostic and exit status 1, and no output file is made: unbalanced or missing brackets, semicolons, commas or operands, malformed statements and declarations, characters that belong to no token, a file that ends early, unclosed comments, strings or character constants, undefined escapes, a character constant longer than eight characters, a keyword used as a name, assignment to, increment or address of something that has no storage or of an undeclared name. "
     "Also refused are gotos to undefined labels, labels or case values defined twice in one function or switch, case outside switch, two parameters of one name, an automatic variable declared twice or with the name of a parameter, one name defined or declared as both function and variable, and vector sizes, case values or initial values that are not constants.",
     ['programs', 'inputs'],
     'for every program and every way of introducing one such error into it',
     'The tests contain one sample of about fifteen errors; whether an error is noticed depends on where in a program it occurs.',
     ['parser_decls.go', 'parser_stmt.go', 'expressions.go', 'lexer.go', 'irbuilder.go'],
     [('diagnostics of the parsers', 'parser_decls.go, parser_stmt.go, expressions.go'), ('lexer diagnostics', 'lexer.go')],
     ['verdict of the compiler on a valid program and on the same program with one error'])

prop('P19', 'Compiled programs stay inside their own storage',
     "A compiled program that stays within the declared sizes of its variables never reads or writes memory outside its own objects, never uses a variable before it is set to zero or a parameter that was passed, and never uses storage of an activation that has ended. "
     "The stack space of an activation is fixed: loops, however many iterations, blocks and declarations inside them do not use up the stack.",
     ['programs', 'histories'],
     'for every such program and every number of iterations and calls',
     'The tests look at results only: a stray write into padding or an uninitialised read that happens to be zero goes unnoticed.',
     ['irbuilder.go', 'expressions.go', 'parser_stmt.go'],
     [('sizes of generated allocations and address computations', 'irbuilder.go, expressions.go'),
      ('zero initialisation of autos', 'irbuilder.go: DeclareLocal')],
     ['AddressSanitizer and MemorySanitizer reports on instrumented builds of the emitted modules; stack pointer range'])

prop('P20', 'Programs start and end as the operating system expects',
     "Every linked program starts in main with a stack aligned as the platform's calling convention requires (also in every function called, whatever its arguments), and ends with the low eight bits of main's value as its exit status, 0 if main ends or returns without one or calls exit anywhere. "
     "Everything written before the end, however it ends, is delivered in order; nothing is written, read or otherwise done that the program did not ask for, and nothing after exit is executed.",
     ['programs', 'histories'],
     'for every program, depth of calls and point of exit, value of main, and state of the descriptors it inherits',
     'The tests check the exit status of one or two programs; alignment and stray system calls are invisible to them.',
     ['runtime/start.c', 'runtime/exit.c', 'runtime/x86_64.h', 'driver.go'],
     [('_start', 'runtime/start.c'), ('exit', 'runtime/exit.c'), ('static link without C library', 'driver.go')],
     ['wait status, output bytes, alignment counter of the linked-in observer, system-call log'])

prop('P21', 'Programs of any size compile correctly, at a moderate cost',
     "No construct has a built-in limit on how often it may occur or how long it may be: definitions, initial values, functions, parameters, arguments, local variables, labels, statements, cases, operators, strings and calls may be thousands or more; names, strings, escape sequences, numbers, comments and blank space of any length are read completely; vectors may have any size that fits the memory; expressions, statements and blocks may be nested tens of thousands deep. "
     "A large program means what the corresponding small one means. "
     "The time and memory to compile it stay moderate: a program of some 10^4 elements, or a text of some 10^6 characters, takes seconds, not minutes, in every way a program can be large.",
     ['programs', 'inputs'],
     'for every construct and every number, length or depth of it (one at a time and in combination), as far as the memory of the machine and of the program run allows',
     'The tests compile programs of at most some dozen lines; a table, buffer or counter that overflows at 64, 256 or 65536 elements, or work that doubles with each level of nesting, never shows.',
     ['lexer.go', 'expressions.go', 'parser_stmt.go', 'parser_decls.go', 'irbuilder.go'],
     [('recursive descent with a depth limit of 100000', 'lexer.go: Enter; expressions.go, parser_stmt.go'),
      ('symbol tables of module and function', 'irbuilder.go: findGlobalByName, GetOrDeclareFunction'),
      ('initialisers', 'parser_decls.go')],
     ['event log of the running program against a closed form; processor time and memory of the compiler'])

prop('P22', 'Libraries are found, searched and linked as asked',
     "Each -l names a library lib<name>.a that is looked up in the default directories ($HOME/.local/lib if it exists, /usr/local/lib, /usr/lib) and then in those given by -L, in the order given; the first directory that has it provides it. "
     "Inputs are linked in the order given, each archive among them searched where it stands; libraries are searched after all inputs, in the order given and as often as named, and the runtime library libb.a, looked up in the same way, after them; a library contributes exactly the members that define names still missing, so that the user's own definitions win over later ones. "
     "Library names and directories are taken literally (blanks, commas, quotes, dots, relative or absolute, by way of symbolic links; directories that do not exist are ignored), in every spelling of the options and wherever these stand among the inputs. "
     "A command with a library that cannot be found, or with names that stay undefined or are defined twice, is refused with status 1 and leaves no output.",
     ['configurations', 'inputs'],
     'for every set of library directories and contents, state of HOME, order and repetition of -L and -l, and mixture of inputs',
     'The tests pass -L once and never link a library of their own; order of search and resolution cannot be seen with a single candidate.',
     ['main.go', 'driver.go'],
     [('default directories and -L', 'main.go'), ('link command', 'driver.go: compileToExecutable')],
     ['output of linked programs whose parts say which file they come from; exit status and directory snapshots'])

prop('P23', "A command's result depends on its inputs and options only",
     "The outputs of a command (byte for byte), its exit status and its messages are determined by its options and the contents of its inputs: not by other environment variables, locale, time zone, TMPDIR, the name or place of the working directory or of the program itself, standard streams being closed or connected to something (messages are coloured when standard output is a terminal, and otherwise the same), inherited descriptors and signal settings, umask (but for file permissions), resource limits that suffice, other files in the directory, earlier outputs, file times, or the way an input is named or reached (path, symbolic or hard link, FIFO). "
     "Nothing is read from standard input. "
     "-v adds a report on standard output, naming each input, each external command in the order run with its arguments, and each output generated, and changes nothing else; --save-temps only keeps the intermediate files.",
     ['configurations', 'histories'],
     'for every command, valid or not, and all such surroundings, alone and combined',
     'The tests always run in one directory of one account with one environment.',
     ['main.go', 'driver.go'],
     [('flags, HOME lookup', 'main.go'), ('temporary directory, output names, external commands, verbose report', 'driver.go')],
     ['files, status and messages compared between runs; log of a recording stand-in for clang'])

prop('P24', 'Options mean the same in every documented form and place, and take effect',
     "Every option has the same meaning in its short, long, attached, '=' and grouped forms, before, between or after the inputs and in any order, with '--' ending the options; of several -o or -O, and of several settings of one flag, the last counts, while -L and -l add up. Commands of the same meaning have the same status, messages and output files. "
     "The code generated for every .b and .ll input, whether it becomes assembly, an object file or part of a program, is optimized at exactly the level given by -O (0 to 3), and at level 1 when none is given; any other level is refused. "
     "-g, -v and --save-temps do not alter the code.",
     ['configurations'],
     'for every combination, order and spelling of options, number and kind of inputs',
     'The tests try each option in one spelling and one place, and none looks at whether a level takes effect.',
     ['main.go', 'options.go', 'driver.go'],
     [('flags', 'main.go'), ('clang arguments', 'driver.go: buildClangArgs, compileToExecutable')],
     ['status, messages and files of commands; code in the outputs'])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(p) + '\n')
print(len(P))
