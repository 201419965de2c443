#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the table below"""
import json
import sys
from pathlib import Path
ROOT = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(ROOT))
sys.dont_write_bytecode = True
S = 'src/mccode_antlr/'
T = S + 'translators/'
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, note):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=observe, hook_needed=None), note=note))


GEN = 'The baseline tests never run the C generator to the end (its library files cannot be fetched offline), and an ' \
      'instrument is an unbounded object: '
TRUST = ' Assumes grammar identifiers are C identifiers and that raw C blocks written by users are balanced on their own. ' \
        'The abstract interpreter (sa/absint.py) is trusted; loops are summarised, and one level of recursion of ' \
        '%include handling is followed.'
OUT = ['text returned by translating an instrument to C']

prop('C01', 'Generated C text is well formed for every instrument',
     'For every instrument that can be assembled, the generated C program is lexically and structurally well formed: '
     'every string, character and comment is closed, every bracket is matched, every preprocessor conditional has '
     'its end, neighbouring operands have an operator or separator between them, every statement is ended, and functions are called with '
     'as many arguments as they have. This holds whatever sections, parameters, components or modifiers are present, absent, repeated or empty.',
     ['programs', 'configurations'], 'all instruments (any number of components, types, parameters, sections, groups, '
     'jumps, splits), both program flavours, trace/main/embedding options',
     GEN + 'each optional section doubles the number of shapes the output can take.',
     [T + x for x in ('c.py', 'c_header.py', 'c_decls.py', 'c_initialise.py', 'c_trace.py', 'c_raytrace.py', 'c_save.py',
                      'c_finally.py', 'c_display.py', 'c_macros.py')],
     [('text assembly', T + 'c.py:CTargetVisitor.translate')], OUT,
     'Decides lexical closure, bracket matching and conditional pairing of the template for every choice of optional '
     'pieces and repetition counts; not that the program type-checks as C.' + TRUST)
prop('C02', 'Every macro defined for a section is in force there and gone after it',
     'In the generated program every macro that stands for a component parameter, user variable, particle member, '
     'instrument parameter or display function is defined where the user code that relies on it is pasted, expands to '
     'the member of the same name, and is undefined again on every way past that code, before another component\'s code.',
     ['programs', 'configurations'], 'all instruments and all component types, in every section',
     GEN + 'a macro that leaks only breaks programs in which a later component happens to use the same word.',
     [T + x for x in ('c_macros.py', 'c_initialise.py', 'c_trace.py', 'c_save.py', 'c_finally.py', 'c_display.py',
                      'c_raytrace.py')],
     [('define/undef emission around sections', T + 'c_macros.py')], OUT,
     'Typestate of every macro over the template; a define counts as closed only by an undef that is emitted under a '
     'condition implied by the define\'s.' + TRUST)
prop('C03', 'Component indices and array sizes in generated code agree with their order',
     'In the generated program every component number is the 1-based position of that component, per-component arrays '
     'have room for one more than the number of components, counts equal the number of things counted, and jump and '
     'group targets are the positions of the components the instrument names.',
     ['programs'], 'all instruments, any number of components, every group and jump',
     GEN + 'an index that is off by one is right for some positions and wrong for others.',
     [T + x for x in ('c_decls.py', 'c_initialise.py', 'c_raytrace.py', 'target.py')] + [S + 'instr/instr.py',
      S + 'instr/group.py', S + 'instr/jump.py'],
     [('index arithmetic in the generators', T + 'c_initialise.py, c_raytrace.py'),
      ('jump resolution', T + 'target.py:TargetVisitor.set_jump_absolute_targets'),
      ('group membership', S + 'instr/instr.py:Instr.determine_groups')], OUT,
     'Decides where each index and size comes from (symbolic provenance of every number written), not numeric values '
     'at run time.' + TRUST)
prop('C04', 'Every raw C block reaches its own place in the program exactly once',
     'Every C block written in an instrument section, component section or EXTEND is emitted exactly once per '
     'instrument, component type or component, inside the C function of that section, and never dropped, duplicated, '
     'truncated or filtered by anything but its being empty.',
     ['programs'], 'all instruments, component types and sections, any number of blocks per section',
     GEN + 'blocks accumulate through inheritance and includes, so sections hold any number of blocks.',
     [T + x for x in ('c_decls.py', 'c_initialise.py', 'c_trace.py', 'c_save.py', 'c_finally.py', 'c_display.py')],
     [('section emission loops', T + 'c_initialise.py, c_trace.py, c_save.py, c_finally.py, c_display.py, c_decls.py')], OUT,
     'Emission sites, enclosing C function, guards and loops of each section in the template.' + TRUST)
prop('C05', 'Each component section function is defined and called for exactly its components',
     'For every section a component type has, the generated program defines one function and its driver calls it, in '
     'instrument order, for exactly the components of types that have the section; all components are placed before any '
     'is initialised, after the instrument\'s own initialisation.',
     ['programs'], 'all instruments and all subsets of sections present in their component types',
     GEN + 'a call guard and a definition guard only disagree for particular combinations of empty sections.',
     [T + x for x in ('c_initialise.py', 'c_trace.py', 'c_raytrace.py', 'c_save.py', 'c_finally.py', 'c_display.py')],
     [('drivers init, raytrace, save, finally, display', T + 'c_initialise.py, c_raytrace.py, c_save.py, c_finally.py, '
       'c_display.py')], OUT,
     'Definitions, call sites, their guards, loops and order in the template.' + TRUST)
prop('C06', 'Text placed in C string literals is escaped exactly once',
     'Every text of an instrument, component, metadata block or file that the generated program carries as a string '
     'literal is either incapable of containing quotes, backslashes and line breaks (an identifier, a number, a type '
     'name) or has each of them escaped exactly once, so the literal denotes the original text.',
     ['inputs', 'programs'], 'all metadata values, names, MIME types and sources, file names, source texts, expressions, '
     'parameter values and units',
     GEN + 'only texts with quotes, backslashes or line breaks tell an escaped hole from a bare one.',
     [T + x for x in ('c_decls.py', 'c_header.py', 'c_initialise.py', 'c_raytrace.py')] +
     [S + 'common/utilities.py', S + 'common/block.py'],
     [('escape function', S + 'common/utilities.py:escape_str_for_c'), ('metadata table', T + 'c_decls.py')], OUT,
     'Abstract escape state (raw, escaped once, spoiled) of quotes, backslashes and line breaks for every hole inside a '
     'literal. Instrument parameter values are trusted to contain no interior quotes.' + TRUST)
prop('C07', 'The generated program and its compiler flags are the same in every run',
     'Translating the same instrument with the same libraries gives the same program text and the same compiler flags '
     'in the same order in every process, apart from the date in the header comment.',
     ['programs', 'schedules'], 'all instruments; all string hash seeds, process identities and clock values',
     'Tests run in one process with one hash seed; an order that comes from a set is stable within it.',
     [S + x for x in ('instr/instr.py', 'translators/c.py', 'compiler/c.py', 'reader/registry.py', 'assembler/assembler.py')],
     [('ordered de-duplication with dict.fromkeys', S + 'instr/instr.py, translators/c.py'),
      ('single-match lookups', S + 'reader/registry.py:LocalRegistry.fullname')],
     OUT + ['compiler command line'],
     'Interprocedural, flow-sensitive dataflow over every function of the package; call resolution by name (so values '
     'can only be over-approximated); environment variables and library contents count as input.')
prop('C08', 'Every identifier the generator composes is declared before it is used',
     'Every identifier the generated program composes from an instrument, component, type, group or jump name is '
     'declared at file level or in the same function before its first use, under no condition its uses do not imply, and '
     'every parameter it reads through a parameter structure is a member of that structure.',
     ['programs'], 'all instruments; every combination of groups, splits, jumps, component types and parameter kinds',
     GEN + 'a declaration guarded by a narrower condition than its use only fails for some instruments.',
     [T + x for x in ('c_decls.py', 'c_header.py', 'c_initialise.py', 'c_raytrace.py', 'c_macros.py')],
     [('declarations of logic, split and group variables', T + 'c_decls.py'), ('uses', T + 'c_raytrace.py')], OUT,
     'Provenance of names in identifiers, positions, guards and loops. OUTPUT parameters are trusted to be declared in '
     'the DECLARE section.' + TRUST)
prop('C09', 'Particle access tables, the particle structure and its macros agree',
     'The particle structure of each program flavour, the macros that stand for its members, and the functions that get '
     'or set a member by name or number all cover the same members with the same C types, including every user variable '
     'of the instrument and of every component type.',
     ['programs', 'configurations'], 'both flavours, any set of user variables',
     GEN + 'the tables are written out separately, and differ only for the member that was forgotten.',
     [T + x for x in ('c_header.py', 'c_particle.py', 'c_macros.py')],
     [('particle structure and access functions', T + 'c_header.py, c_particle.py')], OUT,
     'Agreement of member lists, types and loops between the structure, macros and access functions of the template.' + TRUST)
prop('C10', 'WHEN, SPLIT, GROUP, JUMP and EXTEND control the raytrace as written',
     'For every component the generated raytrace code tests its WHEN condition around its trace call, repeats the rest '
     'of the trajectory for its SPLIT, leaves its GROUP after the last member or on scattering, restores the '
     'event when the component asks for it and jumps under its JUMP condition, in that order, and does none of this for '
     'components without the modifier.',
     ['programs', 'configurations'], 'all instruments and all combinations of modifiers on any component, in both the '
     'per-particle and the FUNNEL layout',
     GEN + 'modifiers interact only in instruments that combine them on neighbouring components.',
     [T + 'c_raytrace.py', T + 'c_trace.py', S + 'instr/group.py', S + 'instr/jump.py'],
     [('raytrace emission', T + 'c_raytrace.py:cogen_raytrace, cogen_funnel')], OUT,
     'Presence, guards, order and operands of each control construct in the per-component block of the template.' + TRUST)
prop('C11', 'Components are placed by the coordinates and references the instrument gives',
     'For every component the generated placement code uses its own AT and ROTATED values in order, relative to the '
     'component each names (or absolute when none is named), converts angles with one factor, and computes the relative '
     'placement from the most recent component that has a relative transform.',
     ['programs'], 'all instruments, every mixture of absolute and relative references',
     GEN + 'swapped coordinates or references cancel out for symmetric or single-component instruments.',
     [T + 'c_initialise.py'],
     [('placement emission', T + 'c_initialise.py:cogen_comp_init_position')], OUT,
     'Provenance of each coordinate, angle and reference in the placement code; not the numerical composition of '
     'rotations at run time.' + TRUST)

PY = 'The baseline tests need downloaded component libraries for almost everything beyond expressions, so they sample ' \
     'none of this offline; '
prop('C12', 'Saving an instrument to HDF5 and loading it gives every field back',
     'Every object an instrument can contain (component types, instances, groups, jumps, expressions, orientations, raw C, '
     'metadata, registries, and lists, tuples and dictionaries of them) can be saved to an HDF5 file, and each of its '
     'fields is stored under its own name and restored from there into the same field, element for element and in order; '
     'a field is left out only when it is None. A group written by another version of the package, or holding another '
     'type of object than the one asked for, is refused.',
     ['programs', 'histories'], 'every object that can be reached from an instrument, whatever its field values',
     PY + 'and a round-trip of one instrument exercises only the types and the non-default field values it contains: a '
     'forgotten field comes back as its default, which compares equal in most instruments.',
     [S + x for x in ('io/hdf5.py', 'instr/instr.py', 'instr/instance.py', 'common/expression.py', 'reader/registry.py')],
     [('table of handlers', S + 'io/hdf5.py:HDF5IO._handlers'), ('generic save and load', S + 'io/hdf5.py:_standard_save, '
      '_standard_read')], ['object returned by load_hdf5 after save_hdf5'],
     'For every handled type: constructor argument -> stored key -> field of the saved object, guards, element names of '
     'containers, type header, refusal on load, context of nested loads. Trusts h5py to store what it is given and '
     'sa/absint.py; expressions inside constructors (__post_init__) are outside.')

prop('C13', 'Everything the grammar accepts in a clause is read by its visitor',
     'For every production of the instrument, component and expression grammars the code that reads it consults each '
     'name, literal, block, sub-clause and modifier keyword the production can contain, handles one or many of them as '
     'the production allows, tells its alternatives apart, asks the parse tree only for children the production has, and '
     'reads no attribute of the reader that is never set. No accepted clause is silently skipped and none makes the '
     'reader fail by its form alone; every kind of expression is read by every reader of expressions. The generated '
     'parsers have exactly the productions of the grammar files.',
     ['inputs', 'programs'], 'all files the grammars accept: every production, every subset of its optional parts',
     PY + 'and a grammar rule with a handful of optional parts already has more forms than the tests parse files.',
     ['src/grammar/McInstr.g4', 'src/grammar/McComp.g4', 'src/grammar/McCommon.g4', S + 'instr/visitor.py',
      S + 'comp/visitor.py', S + 'common/visitor.py'],
     [('parse tree visitors', S + 'instr/visitor.py, comp/visitor.py, common/visitor.py')],
     ['Instr and Comp objects built from a parsed file', 'errors while reading'],
     'Syntax-tree queries per visitor method against the production it reads, following the node through helper '
     'functions. Says that a part is consulted and how, not what is made of it.')

prop('C14', 'Clauses of a file become the fields they stand for, with their operands in order',
     'Every clause of an instrument or component file ends up in the object read from it with its operands where they '
     'belong: names, types, units and default values of parameters; the three coordinates or angles and the reference of '
     'AT and ROTATED; the direction, count, condition and target of a JUMP; WHEN, SPLIT, GROUP, EXTEND, CPU and REMOVABLE '
     'on the component they follow; parameter assignments, raw C blocks with their file and line, metadata with its name, '
     'type and source, search paths, dependency and NOACC flags. A COPY starts from the original and takes only the '
     'clauses that are given, a REMOVABLE component is left out of an instrument that is included, and nothing is '
     'recorded twice, conditionally, or before what it depends on.',
     ['inputs', 'programs'], 'all instrument and component files; every subset of optional clauses of every production',
     PY + 'swapped or dropped operands show only in a file that uses the clause, in the form that goes wrong.',
     [S + 'instr/visitor.py', S + 'comp/visitor.py', S + 'instr/instance.py', S + 'common/metadata.py', S + 'common/block.py'],
     [('instrument reader', S + 'instr/visitor.py:InstrVisitor'), ('component reader', S + 'comp/visitor.py:CompVisitor'),
      ('parameter reader', S + 'instr/visitor.py:InstrParametersVisitor')],
     ['Instr and Comp objects built from a parsed file'],
     'Each visitor method is interpreted abstractly to a normal form of what it returns and does, per subset of optional '
     'clauses, and compared with the normal form the language prescribes. Expressions are the subject of C15; what an '
     '%include merges is outside.')

prop('C15', 'Expressions keep their meaning from source text through simplification to printed text',
     'Every expression in an instrument or component file is read as the operation written there, of its operands in the '
     'order of the source, with instrument parameters recognised among identifiers. Combining expressions with Python '
     'operators, simplifying them and substituting known values gives an expression of the same value. An expression is '
     'printed, into C and into instrument text, such that reading the text again by the grammar gives the same expression, '
     'with the parameter prefix on exactly the instrument parameters. Asking whether an expression depends on or contains a '
     'name, and marking its parameters, reaches every operand.',
     ['inputs', 'programs'], 'all expressions: every operator with every kind of operand on either side, nested without bound',
     'Tests evaluate some dozens of expressions; the pairs of operator and operand alone number a thousand, and a wrong '
     'parenthesis or a lost sign changes a simulation without any error.',
     [S + 'common/expression.py', S + 'common/visitor.py', 'src/grammar/McCommon.g4'],
     [('expression readers', S + 'common/visitor.py'), ('expression nodes', S + 'common/expression.py:Value, UnaryOp, '
       'BinaryOp, TrinaryOp, Expr')],
     ['Expr objects and their printed text'],
     'Readers and methods are interpreted abstractly; results are compared by value for every kind of operand (zero, one, '
     'number, identifier, operation, negation, ...). Printing is decided for every operator with every operand (thorough: '
     'three levels) by reading the text with the levels of the grammar. Strings as numbers and data types of results are '
     'outside.')


prop('C16', 'Copying or splitting an instrument keeps everything and shares nothing that changes',
     'A copy of an instrument, and of each thing it is made of (component instances, parameters, expressions, C blocks, jumps, '
     'groups, metadata), has every field of the original, and nothing that can be changed in place is shared between the two: '
     'changing the copy never changes the original. References between components of a copy, and its groups, are to components '
     'of the copy. A component instance made with COPY takes type, parameters, WHEN, GROUP, EXTEND, JUMP, metadata and mode from '
     'the one it copies. Splitting gives one instrument with the components up to and including the split point and one with '
     'those from there on, where a reference to a component that is left out becomes the absolute position or rotation; '
     'parameters are removed only when asked. In a split with MCPL files the components that replace the split point keep its name, '
     'position and place in the order, and both parts have the file name as a parameter.',
     ['inputs', 'histories'], 'all instruments; any sequence of changes to an instrument and its copies',
     'Sharing shows only when a copy is changed later and the original used again; the baseline tests copy nothing.',
     [S + 'instr/instr.py', S + 'instr/instance.py', S + 'instr/jump.py', S + 'instr/group.py', S + 'common/parameters.py',
      S + 'common/metadata.py', S + 'common/block.py', S + 'common/expression.py'],
     [('instrument copies', S + 'instr/instr.py:Instr.copy, Instr.split, Instr.mcpl_split'),
      ('component copies', S + 'instr/instance.py:Instance.copy, Instance.from_instance')],
     ['Instr objects returned by copy, split and mcpl_split'],
     'Which fields can change in place is a table in sa/rules/copies.py. Component types, registries, coordinates (Vector, Angles) '
     'and orientations are shared by design. What copy.deepcopy or pickle do is outside.')

prop('C17', 'Instrument parameters are recognised and counted as used wherever their names can stand',
     'An identifier that names an instrument parameter is recognised as that parameter in every expression of a component '
     'instance before the instrument is translated: in its parameters, WHEN, SPLIT, JUMP conditions, coordinates and angles, at '
     'any depth of the expression; other identifiers are not. An instrument parameter counts as used if its name is in any of these '
     'or in any C block of the instrument or an instance, and only then; parameters are removed only when asked, and only unused '
     'ones.',
     ['inputs', 'programs'], 'all instruments, all expressions of any depth',
     'A missed place shows only in an instrument that uses a parameter exactly there, as C that does not compile or a parameter '
     'that is silently removed.',
     [S + 'instr/instr.py', S + 'instr/instance.py', S + 'common/expression.py', S + 'translators/target.py'],
     [('search', S + 'instr/instance.py:Instance.verify_parameters'), ('use', S + 'instr/instr.py:Instr.parameter_used')],
     ['text returned by translating an instrument', 'Instr.parameters after check_instrument_parameters'],
     'Fields that can hold a name are taken from the annotations of the data classes. Names inside C blocks are found as text.')


prop('C18', 'Included, loaded and assembled instruments contain everything they are put together from',
     'An instrument that includes another has, after what was there already, everything of the included one: parameters (a name '
     'already present keeps its first definition), metadata, the C blocks of every section, C flags and every component not marked '
     'REMOVABLE, in order. An instrument that was read from a file or text has its source, the C flags of all its component types '
     'and of included files, and the registries used, including those of SEARCH statements; each component type is read once, '
     'from the file of exactly its name. Each call of the assembler adds what it is given, with its position, rotation and options, '
     'to the part of the instrument it is named for, and drops nothing that was there.',
     ['inputs', 'histories'], 'all instruments, included files, libraries and sequences of assembler calls',
     'What is lost shows only for the combination of parts a test does not have; the baseline tests include no file and load no '
     'component library.',
     [S + 'instr/visitor.py', S + 'reader/reader.py', S + 'loader/loader.py', S + 'assembler/assembler.py', S + 'instr/instr.py'],
     [('%include', S + 'instr/visitor.py:InstrVisitor.visitInstrument_trace_include'),
      ('reading', S + 'reader/reader.py:Reader'), ('assembler', S + 'assembler/assembler.py:Assembler')],
     ['Instr objects', 'text returned by translating an instrument'],
     'Each method is interpreted in worlds of argument types and flags. How registries find files and recursive inclusion are outside.')


prop('C19', 'Names are unique and a lookup gives exactly the object of that name',
     'In an instrument no two components and no two parameters have the same name, in a component type no two DEFINE or SETTING '
     'parameters: adding under a taken name is an error, and adding under a free one puts the new object last and leaves the '
     'others. A lookup by name (component, instrument parameter, parameter of a type, parameter of an instance with the default of its '
     'type) gives the object of exactly that name and changes nothing; a reference to a component that does not exist, by name or '
     'by PREVIOUS, is an error. A parameter of an instance must be one of its type and fit it, and is set once. Metadata of the '
     'same name replaces the earlier one. Each modifier and section call changes the field it is named for and only that, sections '
     'by adding their non-empty blocks.',
     ['inputs', 'histories'], 'all instruments, component types and sequences of these calls',
     'A name that is part of another, or is in the other list, decides; tests use a few unrelated names.',
     [S + 'instr/instr.py', S + 'instr/instance.py', S + 'instr/visitor.py', S + 'comp/comp.py', S + 'common/parameters.py',
      S + 'common/block.py'],
     [('instrument', S + 'instr/instr.py:Instr'), ('instance', S + 'instr/instance.py:Instance'), ('type', S + 'comp/comp.py:Comp'),
      ('references', S + 'instr/visitor.py:InstrVisitor.visitComponent_ref')],
     ['Instr, Instance and Comp objects', 'errors raised'],
     'Each method is interpreted for free and taken names. That Instance.collect_metadata replaces by name is not decided (a dict), '
     'nor what Expr.compatible accepts (C15).')

prop('C20', 'The text an instrument is printed as defines the same instrument, and its HTML form is that text escaped',
     'The text of an instrument (str, to_file, to_string) is an instrument definition by the grammar of instr files, in which every '
     'part is said in its place and as often as the instrument has it: name, parameters with type, unit and default, metadata, '
     'dependency flags, DECLARE, USERVARS, INITIALIZE, SAVE and FINALLY blocks, and for every component REMOVABLE, CPU, SPLIT, its '
     'name and type, parameters, WHEN, position and rotation with what they are relative to, GROUP, EXTEND, JUMPs with target, '
     'count and condition, and metadata. A clause that the component does not have is not said; a clause is left out only when '
     'leaving it out means the same. In the HTML form, text that can contain anything (expressions, C code, metadata, units, '
     'positions, file names) is escaped.',
     ['inputs'], 'all instruments, for every clause of a component alone, together with all others and missing',
     'Each clause is printed by its own statement with its own condition; a test that prints some instrument settles few of them.',
     [S + 'instr/instr.py', S + 'instr/instance.py', S + 'instr/jump.py', S + 'common/parameters.py', S + 'common/metadata.py',
      S + 'common/textwrap.py', S + 'instr/orientation.py', 'src/grammar/McInstr.g4'],
     [('instrument', S + 'instr/instr.py:Instr.to_file'), ('component', S + 'instr/instance.py:Instance.to_file'),
      ('jump', S + 'instr/jump.py:Jump.to_file'), ('HTML', S + 'common/textwrap.py:HTMLWrapper')],
     ['text of str(instrument)', 'text of to_string(HTMLWrapper())'],
     'Expressions and vectors are printed as one piece each (how an expression is printed is C15); blank lines inside of code blocks '
     'may differ; what the parser makes of the text is C14. SEARCH statements are only in a comment of the text.')
prop('C21', 'A file asked for by name is the one of exactly that name in the first registry that has it',
     'A registry (remote, local folder or in memory) knows a file, when asked strictly, if and only if it has one of exactly the name '
     'asked for (with the extension, in whatever folder), and the full name, path, contents and availability it gives are those of that '
     'file, whatever other files it has. A reader gives the file of the first of its registries that knows the name (strictly, if so '
     'asked; only those that are allowed), and an error if none does. The registries of a new reader are in the order of their '
     'priority, the standard library is used if there are none, and a SEARCH statement puts the registry that it specifies (a folder, '
     'a named folder, a named URL with a list of files or with version and list) before all others, once; a specification of '
     'no registry is an error. Component files, instrument files and included C files are asked for strictly; the C library is '
     'among the registries of each translation.',
     ['inputs'], 'all names, sets of files and orders of registries',
     'Which file is found depends on what other files and registries there are; tests have the one library that is installed.',
     [S + 'reader/registry.py', S + 'reader/reader.py', S + 'translators/target.py', S + 'translators/c.py'],
     [('registries', S + 'reader/registry.py:RemoteRegistry'), ('local', S + 'reader/registry.py:LocalRegistry'),
      ('reader', S + 'reader/reader.py:Reader.locate'), ('SEARCH', S + 'reader/registry.py:registry_from_specification')],
     ['path and contents of the file found', 'registries of the reader', 'error'],
     'Paths of the file system and the network are stand-ins for pathlib and pooch; names with glob characters and folders that are '
     'named like a file are not covered. Non-strict questions may also be answered by similar names.')


prop('C22', 'An instrument is compiled and run as was asked for, and each point of a scan with the values of this point',
     'A binary target asked for with or without MPI, OpenACC and NeXus is of exactly that kind (also after an update, which changes only '
     'what it is given), and has the compiler, the flags and the linker flags that are configured for that kind. On Linux the command that '
     'compiles an instrument has every flag of the target and every word of the flags of the instrument, those to link with after the '
     'source, and writes to the file (or in the folder) asked for; a file that exists is kept unless it is to be replaced; a compiler '
     'that fails, or leaves no file, is an error. The command that runs a binary has the options it is given, is started by mpirun with '
     'the asked number of processes if and only if the target is MPI, is only printed in a dry run, and its failure is an error. Each '
     'runtime argument (seed, ncount, directory, trace, gravitation, bufsiz, format) and each instrument parameter reaches the binary '
     'with its value if and only if it was given. A range a:s:b has the values a, a+s, ... up to and including b, as many as its length. A linear scan '
     'has one point per value of its longest parameter, single values are repeated, other lengths are an error; a mesh scan has each '
     'combination once; each point is run with exactly its values in its own folder, and the parameters given are left unchanged. Each '
     'option of the shell commands and each argument of the Python functions that run or compile is handed on to what it controls.',
     ['inputs', 'configuration'], 'all instruments, kinds of target, options, parameters and scans',
     'The command depends on the combination of kind of target, options and parameters; the tests that run a compiler need one, and '
     'the network.',
     [S + 'compiler/c.py', S + 'run/runner.py', S + 'run/range.py', S + 'cli/commands.py'],
     [('compile', S + 'compiler/c.py:_compile_instrument'), ('run', S + 'compiler/c.py:run_compiled_instrument'),
      ('scan', S + 'run/range.py:parameters_to_scan'), ('points', S + 'run/runner.py:mccode_run_scan'), ('command line', S + 'run/runner.py:mccode_run_cmd')],
     ['command lines started', 'values of each point', 'error'],
     'The summaries are folded for listed kinds of target, options, ranges and scans. Not covered: Windows; the order in which words of the command '
     'line are sorted; parameter values with white space; numbers that are written in unusual forms; what subprocess, pathlib and argparse do.')

prop('C23', 'Positions and orientations are put together as rigid transformations in the convention of McCode',
     'Products, sums and differences of vectors, angles, matrices, rotations and Seitz matrices are those of linear algebra; the inverse '
     'of a rotation or of a Seitz matrix, or of any part of a chain, undoes it, and has the same unit of angles. The sine and cosine of '
     'an angle are those of the angle in its unit, degrees or radian, for the values that are special to the code too. The rotation for '
     'ROTATED (a, b, c) is around x by a, then around the new y by b, then around the new z by c, and the three matrices of single '
     'rotations multiply to it; a chain made of AT and ROTATED, alone or dependent on another, stands for the product of its parts, '
     'also after it is copied, inverted or reduced; what is not moved or rotated has no part. An orientation placed AT ... RELATIVE a '
     'and ROTATED ... RELATIVE b has its position in the frame of a and its rotation in that of b; ABSOLUTE is relative to nothing, '
     'for each of AT and ROTATED alone; the orientation of an instance is that of its AT and ROTATED.',
     ['inputs'], 'all angles and coordinates, numbers or expressions, and all chains of RELATIVE',
     'Placement is composed symbolically along chains of any length; tests take a few angles and lengths.',
     [S + 'instr/orientation.py', S + 'instr/instance.py'],
     [('algebra', S + 'instr/orientation.py:Seitz.__mul__'), ('angle', S + 'instr/orientation.py:sin_value'), ('chain', S + 'instr/orientation.py:Parts.from_dependent_chain'),
      ('relative', S + 'instr/orientation.py:Orient.from_dependent_orientations'), ('instance', S + 'instr/instance.py:Instance.__post_init__')],
     ['expressions of the matrix elements, as polynomials', 'number and order of the parts of a chain'],
     'Exact for all values: the expressions are compared as polynomials. Not covered: the angles recovered from a matrix '
     '(numeric, ambiguous), rotation_axis_angle and specialization, sums and differences of two whole orientations, printed '
     'forms, and that a symbolic angle in degrees is handed to C without conversion.')

prop('C24', 'Parameters and variables of components and of the instrument have their values and types in the generated program',
     'Each parameter of a component is assigned exactly once, before its position and rotation are found: its own value if the '
     'instrument gives one and the default of the type otherwise, in the form of its kind (number, text copied with its end, text of '
     'an expression only if it is not NULL, vector with each of its elements); it is recorded in a NeXus file with its name, default, '
     'value and type. Each parameter and each variable of a DECLARE block is a member with its own C type of the structure of the '
     'type of component, and the code of the type reaches it by name; a declared variable has its initial value, each element of an '
     'array its own, and a pointer without one is NULL. Each instrument parameter is in the table of parameters with name, address, '
     'type, value and unit. Each USERVARS variable is a member of the particle and is read, written, numbered and initialised by '
     'name, for components of one type under a name of each component; those of all blocks are found, and an error is raised for '
     'two declarations that contradict each other.',
     ['inputs'], 'all kinds of parameters and variables, in any component',
     'A generated program holds hundreds of such lines, and no test reads them; a wrong one is a wrong number in a simulation.',
     [S + 'translators/c_initialise.py', S + 'translators/c_decls.py', S + 'translators/c_header.py', S + 'translators/c_trace.py', S + 'translators/c.py'],
     [('assigned', S + 'translators/c_initialise.py:cogen_comp_setpos'), ('recorded', S + 'translators/c_initialise.py:cogen_comp_setpos'),
      ('member', S + 'translators/c_decls.py:declarations_pre_libraries'), ('table', S + 'translators/c_decls.py:declarations_pre_libraries'),
      ('user', S + 'translators/c_header.py:header_pre_runtime'), ('declaration', S + 'translators/c.py:CTargetVisitor._determine_uservars')],
     ['assignments, structure members and tables of the generated C file'],
     'The template is written out for model instruments with each kind of parameter and variable (26 kinds of parameters, 9 of variables, three '
     'configurations). Not covered: how C declarations are parsed, values of expressions, what the runtime library does with the members.')

prop('C25', 'Declarations of C variables in user code are read as what they declare',
     'From a block of C declarations each declared variable is found, in order, with its name, pointer, array sizes, extensions, type and '
     'initial value as they are written, also after a type that the reader does not know; a pointer to a function keeps its modifiers and '
     'arguments; a typedef adds its name to the types that are known and declares nothing. Two declarations are equal if and only if all that '
     'they say is equal, whichever of the two lacks something. A copy is equal but for the suffix of its name. As a member of a structure '
     'a variable has its type, pointer, name and its array sizes; a size that is left out is that of the initial value, or else the '
     'largest text. Each element of the initial value of an array is found with its subscripts.',
     ['inputs'], 'all C declarations', 'A variable that is missed or misread shows as a C program that does not compile or corrupts memory; tests have a few declarations.',
     [S + 'translators/c_listener.py'],
     [('read', S + 'translators/c_listener.py:DeclaresCVisitor.visitDeclarator'), ('found', S + 'translators/c_listener.py:DeclaresCVisitor.visitDeclaration'),
      ('equal', S + 'translators/c_listener.py:CDeclarator.__eq__'), ('copied', S + 'translators/c_listener.py:CDeclarator.copy'),
      ('member', S + 'translators/c_listener.py:CDeclarator.as_struct_member')],
     ['variables and types that are found', 'text of the structure member'],
     'The terms are folded for listed kinds of declarations. Not covered: the C grammar, text of errors, sizes that have '
     'brackets in them, evaluation of assignments.')

prop('C26', 'Libraries, included files and the runtime are put together into one program',
     'Every %include of a C block of the instrument, its component types and its instances is found and taken out of the text: a name without '
     'a dot is a library, whose header is included once in the program, after the headers of those that it includes, and otherwise in the '
     'order of the requests; a file is put in place of its include, with what it includes in turn. With the runtime in the program, the source '
     'of each library follows the declarations once, and libraries that only sources need come with their header and source, also once. A '
     'file is what the first registry that has it has, whole; in a configured header each @MCCODE_...@ has its value. The program has '
     'its parts in the order that they need each other and starts and ends with the files of its runtime for the flavour. The types of all libraries and of '
     'all SHARE blocks are known to the reader of C, each also to those after it.',
     ['inputs'], 'all instruments', 'A library that is missing, twice or too late shows as an error of the C compiler for some combination of components; tests have none with nested libraries.',
     [S + 'translators/c.py', S + 'translators/target.py'],
     [('read', S + 'translators/c.py:CTargetVisitor._handle_raw_c_include'), ('hierarchy', S + 'translators/c.py:sort_include_hierarchy'),
      ('blocks', S + 'translators/c.py:CTargetVisitor.__post_init__'), ('placed', S + 'translators/c.py:CTargetVisitor.visit_declare'),
      ('located', S + 'translators/target.py:TargetVisitor.locate'), ('frame', S + 'translators/target.py:TargetVisitor.translate')],
     ['order and number of headers and sources in the program', 'text of the blocks'],
     'The terms are folded for listed blocks, relations of libraries and registries. Not covered: libraries that include each other in a circle, comments after an '
     'include, the contents of the C library.')

prop('N01', 'Angles recovered from a rotation give the rotation back',
     'For every rotation matrix, the three angles that are found for it give the same matrix, also where one of the angles is a '
     'right angle, to the precision of floating point numbers.',
     ['inputs'], 'all rotation matrices', 'Tests take a few matrices; the hard ones are those next to the singular ones.',
     [S + 'instr/orientation.py'], [('angles', S + 'instr/orientation.py:axes_euler_angles')], ['angles and the matrix made of them'], '')

prop('N02', 'Reading an instrument ends, also when instruments include each other',
     'For every set of files, reading an instrument ends with an instrument or an error: no chain of %include of instruments or '
     'of COPY of component types goes round forever.',
     ['inputs'], 'all sets of files', 'Tests have no files that include each other.',
     [S + 'reader/reader.py', S + 'instr/visitor.py'], [('include', S + 'instr/visitor.py:InstrVisitor.visitInstrument_trace_include')],
     ['the call that reads the instrument'], '')

prop('N03', 'The generated C program compiles and does what the instrument says with any C code of the user',
     'For every instrument with valid C blocks, the generated program compiles without errors and its transport is that of the blocks '
     'of the user in the order of the instrument.',
     ['inputs'], 'all instruments with valid C code', 'The program is compiled by no test.',
     [S + 'translators/c.py'], [('translate', S + 'translators/c.py:CTargetVisitor')], ['compiler of C, neutron events'], '')


def main():
    from sa.rules import CHECKS
    missing = [x['id'] for x in P if x['id'] not in CHECKS and x['id'] not in NA]
    assert not missing, missing
    (ROOT / 'properties.jsonl').write_text(''.join(json.dumps({k: v for k, v in x.items() if k != 'note'}) + '\n' for x in P))
    checks = []
    for x in P:
        if x['id'] in NA:
            continue
        checks.append(dict(property=x['id'], quick_cmd=f'python3 check.py {x["id"]} --tier quick',
                           thorough_cmd=f'python3 check.py {x["id"]} --tier thorough',
                           technique=TECH.get(x['id'], TECH['']), level='other', level_note=x['note']))
    man = dict(version=1, setup_cmd='python3 -c "import ast, sys; assert sys.version_info >= (3, 9)"', checks=checks,
               not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
               notes='Static analysis only: every check reads /repo/src with the ast module; nothing of /repo is imported '
                     'or run. Known findings: known_findings.txt.')
    (ROOT / 'MANIFEST.json').write_text(json.dumps(man, indent=1) + '\n')


TECH = {'C15': 'static analysis: abstract interpretation of expression readers and methods, compared by value; printed forms re-read by the grammar',
        '': 'static analysis: abstract interpretation of the generator into a template of the C file, structural rules on it',
        'C02': 'static analysis: macro typestate over the abstractly interpreted template of the generated file',
        'C13': 'static analysis: syntax-tree queries of parse tree visitors against the grammar productions',
        'C14': 'static analysis: abstract interpretation of parse tree visitors to normal forms per clause',
        'C16': 'static analysis: abstract interpretation of copying methods, field and alias agreement with the original',
        'C17': 'static analysis: abstract interpretation of parameter searches, reachability of every field that can hold a name',
        'C18': 'static analysis: abstract interpretation of include, read and assembly methods to normal forms of what they add',
        'C19': 'static analysis: abstract interpretation of adding, lookup and modifying methods to normal forms per world of free and taken names',
        'C20': 'static analysis: templates of the printed text matched with the grammar; taint of HTML text',
        'C22': 'static analysis: abstract interpretation of compiler, runner and scan functions to guarded terms, folded over kinds of target, options and scans',
        'C21': 'static analysis: abstract interpretation of registry and reader questions, folded over the relations of a path to a name',
        'C23': 'static analysis: abstract interpretation of the orientation algebra to expressions, compared as polynomials',
        'C25': 'static analysis: abstract interpretation of the visitor of C declarations, folded over kinds of declarators, specifiers and initializers',
        'C26': 'static analysis: abstract interpretation of include handling, ordering and the writing of the program, folded over relations of libraries and files',
        'C24': 'static analysis: template of the generated program by abstract interpretation, written out for model instruments with each kind of parameter and variable',
        'C12': 'static analysis: abstract interpretation of save and load handlers, field-to-key-to-field agreement',
        'C06': 'static analysis: escape-state dataflow into string literals of the template',
        'C07': 'static analysis: interprocedural dataflow of arbitrary order and run-dependent values'}
NA = {
    'N01': 'The property is about rounding and the branch that arc functions take at run time; C23 decides the algebra that leads there, '
           'but no static argument in reach bounds the numeric result of atan2, acos and sqrt next to the singular angles.',
    'N02': 'Whether it ends depends on the contents of files that are read at run time; the source has no bound on the chain, and does '
           'not claim one.',
    'N03': 'It is about C text of the user and the runtime library of McStas, which is not in this tree; C01-C11 decide what the '
           'translator itself adds to the program.',
}

if __name__ == '__main__':
    main()
