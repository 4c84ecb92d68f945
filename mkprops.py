#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the wording is reviewable)."""
import json
P = []


def add(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, title
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files, 'state': state or [],
                          'mechanism': [{'name': a, 'where': b} for a, b in mech],
                          'observe_at': observe, 'hook_needed': None}})


add('P01', 'VM code computes what the source program means',
    'For every accepted program whose meaning the language description fixes, executing the virtual-machine file '
    'produced for it performs exactly the output of the source program: same values, same order, same control flow, '
    'same calls. While it runs, the machine stack, frames, jumps and memory accesses stay consistent: no operand '
    'outside its frame, no jump outside the code, no use of a cell that was never written.',
    ['programs', 'inputs'],
    'all well-formed programs over integers, characters, booleans, floats, arrays, structures, pointers, strings, '
    'enumerations, functions and function parameters, with any nesting of statements and expressions',
    'The suite only checks that a VM file is produced; no VM file is ever executed, so any wrong but printable code passes.',
    ['libs/compiler/codegen.c', 'libs/compiler/instructions.c', 'libs/compiler/builder.c', 'libs/compiler/parser.c',
     'libs/compiler/AST.c', 'libs/compiler/syntax.c', 'libs/compiler/operations.c'],
    [('encoder of each AST node into VM instructions', 'libs/compiler/codegen.c'),
     ('choice of typed, address and void versions of an instruction', 'libs/compiler/instructions.c'),
     ('displacement allocation of variables, parameters and scopes', 'libs/compiler/codegen.c'),
     ('chains of unresolved break, continue, case and call addresses', 'libs/compiler/codegen.c')],
    ['output file of -VM'])
add('P02', 'LLVM IR computes what the source program means',
    'For every program built from the constructs the LLVM target supports, the emitted IR is accepted by the LLVM '
    'toolchain and the resulting executable prints exactly what the source program means, and exits successfully.',
    ['programs', 'inputs'],
    'all well-formed programs over integers, floats, booleans, characters, arrays, structures, pointers and functions '
    'with any nesting of loops, branches and expressions inside the supported subset',
    'About 300 fixed programs are run; operator, type, nesting and control-flow combinations outside them are unseen.',
    ['libs/compiler/llvmgen.c', 'libs/compiler/builder.c', 'libs/compiler/parser.c', 'libs/compiler/AST.c'],
    [('information about the pending result (register, constant, logic)', 'libs/compiler/llvmgen.c'),
     ('numbering of registers and labels', 'libs/compiler/llvmgen.c')],
    ['output file of -LLVM', 'stdout of the linked executable'])
add('P03', 'Literals and constant expressions keep their exact value',
    'Every literal (decimal, binary, octal, hexadecimal, floating, character, string with escapes, boolean) denotes exactly '
    'the value its spelling defines, and an expression made of constants has exactly the value the same expression '
    'has when its operands are variables. This holds in every place a constant may stand: initialisers, array bounds, '
    'case labels, enumeration values, arguments and operands.',
    ['inputs', 'programs'],
    'all spellings of literals within range and all constant expressions without overflow or division by zero',
    'Tests use a few dozen literals and fold a handful of expressions; value ranges, bases, exponents, operators and '
    'positions cannot be enumerated.',
    ['libs/compiler/lexer.c', 'libs/compiler/builder.c', 'libs/compiler/token.c', 'libs/utils/item.c', 'libs/utils/utf8.c'],
    [('numeric, character and string literal scanning', 'libs/compiler/lexer.c'),
     ('constant folding of unary and binary operators', 'libs/compiler/builder.c'),
     ('splitting of wide values into target words', 'libs/utils/item.c')],
    ['operands in the -VM file', 'stdout of the linked -LLVM executable'])
add('P04', 'No input makes the compiler touch invalid memory or undefined behaviour',
    'Whatever bytes the source files contain, and whatever target is chosen, the compiler never reads or writes outside its objects, '
    'never uses freed or uninitialised memory and never executes undefined arithmetic: it ends normally, with '
    'either an output file or an error message.',
    ['inputs', 'configurations'],
    'all byte sequences as source text (valid, mutated, truncated, oversized, non-UTF-8), for the VM and LLVM targets',
    'The suite runs uninstrumented builds on about 700 mostly valid files; silent corruption passes.',
    ['libs/compiler/lexer.c', 'libs/compiler/parser.c', 'libs/compiler/builder.c', 'libs/compiler/syntax.c',
     'libs/compiler/codegen.c', 'libs/compiler/llvmgen.c', 'libs/macro/parser.c', 'libs/macro/computer.c',
     'libs/macro/storage.c', 'libs/utils/uniio.c', 'libs/utils/strings.c'],
    [('error recovery of the parser and broken-node propagation', 'libs/compiler/parser.c'),
     ('bounds of fixed buffers and tables', 'libs/compiler/syntax.c')],
    ['process under AddressSanitizer, UndefinedBehaviorSanitizer and MemorySanitizer'])
add('P05', 'Every compilation ends in bounded time and gives back its memory',
    'For every input the compiler terminates, its running time grows at most quadratically and its memory in proportion with the size of '
    'the source and of its macro expansion, and when it ends all memory it allocated has been released, on success and on every error path.',
    ['inputs', 'configurations', 'fault_sequences'],
    'all sources, including erroneous ones, deeply nested ones and long ones, for every target',
    'Tests never look at the heap, and their inputs are too small to show non-termination or superlinear growth.',
    ['libs/compiler/compiler.c', 'libs/compiler/syntax.c', 'libs/macro/macro.c', 'libs/macro/linker.c',
     'libs/macro/parser.c', 'libs/macro/storage.c', 'libs/utils/vector.c', 'libs/utils/map.c', 'libs/utils/workspace.c'],
    [('clear functions on all exits', 'libs/compiler/compiler.c'), ('recursion and iteration limits', 'libs/macro/parser.c'),
     ('amortised growth of tables', 'libs/utils/vector.c')],
    ['LeakSanitizer report', 'instruction and allocation counts of the process'])
add('P06', 'Programs that break a language rule are rejected, all others accepted',
    'A program that violates a constraint of the language description (types, declarations, scopes, lvalues, calls, '
    'control flow, constants, syntax) makes the compiler fail with at least one error message and puts no '
    'code into the output file; a program that obeys them all compiles without any error. One violation anywhere is enough, '
    'wherever it stands in however large a program.',
    ['programs'],
    'all well-formed programs and all single rule violations planted anywhere in them',
    'Tests contain about 300 small erroneous programs, each with the violation at one place; a check skipped in another context is unseen.',
    ['libs/compiler/parser.c', 'libs/compiler/builder.c', 'libs/compiler/syntax.c', 'libs/compiler/errors.c',
     'libs/compiler/reporter.c', 'libs/compiler/lexer.c', 'libs/compiler/compiler.c'],
    [('operand, assignment and declaration checks', 'libs/compiler/builder.c'),
     ('scope and identifier tables', 'libs/compiler/syntax.c'), ('error counting', 'libs/compiler/reporter.c')],
    ['exit code', 'stderr', 'existence of the output file'])
add('P07', 'Every diagnostic names the file and line of its cause',
    'An error or warning message gives the name of the source file and the line at which its cause stands in the '
    'text the user wrote, and shows the code of that line, however many comments, directives, includes, macro expansions '
    'or non-ASCII characters come before it.',
    ['programs', 'inputs'],
    'all placements of one erroneous construct inside programs with includes, macros, conditionals and comments',
    'Tests compare only the exit code of erroneous programs, never the reported place.',
    ['libs/utils/locator.c', 'libs/utils/commenter.c', 'libs/compiler/reporter.c', 'libs/macro/error.c',
     'libs/macro/parser.c', 'libs/utils/logger.c'],
    [('line marks in preprocessed text', 'libs/macro/parser.c'), ('mapping of offsets back to marks', 'libs/utils/locator.c')],
    ['stderr'])
add('P08', 'Macro expansion yields exactly the substituted text',
    'Every use of an object-like, function-like or multi-line macro is replaced by its current definition with the arguments substituted '
    'as written in the use, nested uses and redefinitions and undefinitions taking effect in text order; text inside string and character '
    'literals and comments, and names that are not macros, is passed through unchanged.',
    ['inputs', 'histories'],
    'all sequences of definitions, redefinitions, undefinitions and uses, with any nesting and any argument text',
    'Tests contain about 200 fixed preprocessor inputs, mostly checking acceptance; the expanded text is only observed through the final program.',
    ['libs/macro/parser.c', 'libs/macro/storage.c', 'libs/macro/macro.c', 'libs/utils/strings.c', 'libs/utils/map.c'],
    [('argument masking and substitution', 'libs/macro/parser.c'), ('macro table', 'libs/macro/storage.c')],
    ['preprocessed text (macro_form_io, -E style output)', 'meaning of the compiled program'])
add('P09', 'Conditional and loop directives follow their integer conditions',
    'Exactly the text of the first group whose condition holds is compiled, skipped groups have no effect of any kind, '
    'a loop directive repeats its text while its condition holds, and every condition and evaluated expression has the '
    'value integer arithmetic with the usual precedence gives it.',
    ['inputs', 'histories'],
    'all nestings of conditional and loop directives and all preprocessor expressions over defined and undefined names',
    'Tests hold a few dozen fixed conditions; operator precedence, nesting and skipping interact combinatorially.',
    ['libs/macro/parser.c', 'libs/macro/computer.c', 'libs/macro/keywords.c'],
    [('directive recursion and skipping', 'libs/macro/parser.c'), ('expression evaluation', 'libs/macro/computer.c')],
    ['preprocessed text'])
add('P10', 'Several files and includes compile like the one text they stand for',
    'Naming several source files, or including files through quoted names and search directories, compiles the same '
    'program as the single text with every file put at its place once: later includes of a file already '
    'included add nothing, names are searched in the documented order, and a missing file is an error.',
    ['programs', 'configurations'],
    'all partitions of a program into files, directories and include orders',
    'Tests use a handful of fixed directory layouts.',
    ['libs/macro/linker.c', 'libs/macro/macro.c', 'libs/utils/workspace.c', 'libs/macro/parser.c'],
    [('path search and included-file table', 'libs/macro/linker.c'), ('workspace file and directory lists', 'libs/utils/workspace.c')],
    ['output file', 'exit code'])
add('P11', 'Spelling, layout and comments never change the program',
    'Replacing keywords and built-in names by their Russian or upper-case spellings, renaming identifiers consistently '
    '(ASCII or Cyrillic), and changing white space, line breaks, comments or redundant parentheses leaves the produced code the same.',
    ['programs'],
    'all well-formed programs and all such rewritings of them',
    'Tests fix one spelling and layout per program.',
    ['libs/compiler/lexer.c', 'libs/compiler/syntax.c', 'libs/compiler/token.c', 'libs/utils/map.c', 'libs/utils/utf8.c',
     'libs/utils/uniscanner.c', 'libs/macro/parser.c', 'libs/utils/commenter.c'],
    [('keyword table and identifier scanning', 'libs/compiler/syntax.c'), ('comment and blank skipping', 'libs/compiler/lexer.c')],
    ['-VM file', '-LLVM file'])
add('P12', 'Compilation is deterministic and independent of circumstances',
    'The same sources and options always give byte-identical output files, messages and exit code: in debug and '
    'release builds, from any working directory, whatever memory held before, and however many '
    'compilations the same process has already done.',
    ['histories', 'configurations', 'programs'],
    'all sequences of compilations and all build, environment and heap configurations',
    'Each test compiles once in a fresh process and does not compare outputs between runs.',
    ['libs/compiler/compiler.c', 'libs/utils/logger.c', 'libs/utils/vector.c', 'libs/compiler/syntax.c', 'libs/macro/macro.c'],
    [('state created and cleared per compilation', 'libs/compiler/compiler.c'), ('process-wide logger state', 'libs/utils/logger.c')],
    ['output files', 'stderr', 'exit code'])
add('P13', 'Every emitted file is structurally valid for its consumer',
    'Every VM file written is loadable: the sizes in its header match its tables, every word fits the target, every '
    'instruction decodes, every jump and call lands on an instruction, every reference to a type, an identifier or its spelling lies in its table, and the evaluation stack is consistent '
    'on every path; no code is ever left in the output file of a failed compilation.',
    ['programs', 'inputs'],
    'all accepted programs of any size, and all failed compilations',
    'The suite never loads a VM file.',
    ['libs/compiler/codegen.c', 'libs/compiler/compiler.c', 'libs/utils/item.c', 'libs/utils/uniio.c'],
    [('table export', 'libs/compiler/codegen.c'), ('removal of output on failure', 'libs/compiler/compiler.c')],
    ['-VM file'])
add('P14', 'Command-line options and files have their documented effect',
    'The chosen target, output name, include directories and macro definitions on the command line take effect as documented, '
    'independently of the order and mixture in which they are given; missing or unreadable inputs and unwritable outputs end with an error code and message.',
    ['configurations', 'fault_sequences'],
    'all combinations and orders of options, files and file-system faults',
    'Tests always use one fixed command-line shape.',
    ['src/main.c', 'libs/compiler/compiler.c', 'libs/utils/workspace.c', 'libs/macro/linker.c', 'libs/macro/macro.c'],
    [('parsing of arguments into a workspace', 'libs/utils/workspace.c'), ('dispatch on flags', 'libs/compiler/compiler.c')],
    ['exit code', 'stderr', 'files created'])
add('P15', 'Containers behave like their mathematical models under any history',
    'For every sequence of operations, the vector, stack, string collection, associative map, hash table and tree give the results their '
    'mathematical models give: no element is lost, duplicated, reordered or changed by growth, collision, insertion, '
    'removal or traversal, and misuse the headers document is reported instead of corrupting them.',
    ['histories'],
    'all sequences of operations with any keys, values and sizes',
    'There are no unit tests of the containers; the suite reaches them only through small compilations.',
    ['libs/utils/vector.c', 'libs/utils/stack.c', 'libs/utils/strings.c', 'libs/utils/map.c', 'libs/utils/hash.c',
     'libs/utils/tree.c', 'libs/utils/node_vector.c'],
    [('growth policies', 'libs/utils/vector.c'), ('ternary-tree style name lookup and rehash', 'libs/utils/map.c')],
    ['return values of the container functions'])
add('P16', 'Universal input/output and UTF-8 handling lose nothing',
    'Text written through the universal output (file, memory buffer or user function) arrives unchanged and complete, formatted exactly like the C '
    'library formats it, whatever its length; text read back through the universal input is the same characters in the same '
    'order at the same positions; and UTF-8 encoding and decoding are inverse for every Unicode character.',
    ['inputs', 'histories'],
    'all texts, formats, lengths and sequences of reads, writes, seeks and redirections',
    'No test drives these functions directly; compilations only use short texts.',
    ['libs/utils/uniio.c', 'libs/utils/uniprinter.c', 'libs/utils/uniscanner.c', 'libs/utils/utf8.c'],
    [('buffer growth and format scanning', 'libs/utils/uniio.c'), ('UTF-8 tables', 'libs/utils/utf8.c')],
    ['contents of files and buffers', 'return values'])
add('P17', 'Both code generators accept the same programs',
    'Whether a program is accepted, and which messages it gets, is decided by the language alone: a program '
    'rejected for one target is rejected with the same messages for every other, and a program of the common '
    'subset is accepted for all, the target only changing the output file.',
    ['programs', 'configurations'],
    'all programs, valid and invalid, and all targets',
    'Each test is checked per target against its directory name only.',
    ['libs/compiler/compiler.c', 'libs/compiler/parser.c', 'libs/compiler/codegen.c', 'libs/compiler/llvmgen.c'],
    [('shared front end', 'libs/compiler/compiler.c')],
    ['exit code', 'stderr'])
add('P18', 'Wide numbers survive their storage in tables of any word size',
    'Storing an integer or floating value into table words of any supported target width and reading it back gives the same value, '
    'and a value is reported as fitting a width exactly when it does.',
    ['inputs', 'configurations'],
    'all 64-bit integers, all doubles, all target widths',
    'Only one width is used by the suite, with few values.',
    ['libs/utils/item.c', 'libs/utils/item.h', 'libs/compiler/AST.c'],
    [('splitting and joining of values', 'libs/utils/item.c')],
    ['return values of the conversion functions'])

with open('properties.jsonl', 'w') as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
print(len(P))
