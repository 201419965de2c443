"""property id -> (module, function, one-line description of the deciding method)"""
CHECKS = {
    'C01': ('gen_text', 'c01', 'Abstract interpretation of CTargetVisitor.translate gives the generated C file as a '
            'template (literal text, holes with provenance, repetitions, guarded alternatives); the template is lexed '
            'and its brackets and preprocessor conditionals are balanced for every choice of alternatives and '
            'repetition counts.'),
}
_G = 'Abstract interpretation of CTargetVisitor.translate gives the generated C file as a template; '
CHECKS.update({
    'C02': ('gen_rules', 'c02', _G + 'typestate of every preprocessor macro over the template.'),
    'C04': ('gen_rules', 'c04', _G + 'emission sites, guards and loops of every raw-C section.'),
    'C05': ('gen_rules', 'c05', _G + 'definitions and calls of per-component functions, their guards and loops.'),
})
CHECKS.update({
    'C03': ('gen_trace', 'c03', _G + 'provenance of every component index and array size.'),
    'C09': ('gen_trace', 'c09', _G + 'agreement of the particle structure with the functions that access it by name.'),
})
CHECKS.update({
    'C10': ('gen_control', 'c10', _G + 'structure, guards and order of the per-component raytrace blocks.'),
    'C11': ('gen_control', 'c11', _G + 'provenance of every value and reference in the placement code.'),
})
CHECKS.update({
    'C06': ('gen_names', 'c06', _G + 'escape state of every text placed inside a string literal.'),
    'C07': ('det', 'c07', 'Interprocedural dataflow of set order, listing order and run-dependent values over the '
            'whole package, plus the template of the generated C file.'),
    'C08': ('gen_names', 'c08', _G + 'every identifier composed with instrument names is declared before use.'),
})
CHECKS.update({
    'C12': ('store', 'c12', 'Abstract interpretation of every HDF5 handler gives the keys it writes from which field and '
            'the keys it reads into which field; the two maps are compared.'),
})
CHECKS.update({
    'C13': ('parse', 'c13', 'Syntax-tree queries over the visitors compared with the grammar files and the contexts of the '
            'generated parsers.'),
})
CHECKS.update({
    'C14': ('visit', 'c14', 'Abstract interpretation of every visitor method over an arbitrary parse tree node; what it returns, '
            'stores and passes on is compared, for every choice of clauses, with what the clause means.'),
})
CHECKS.update({
    'C15': ('expr', 'c15', 'Abstract interpretation of the visitors of expressions and of every method of the expression classes; the terms '
            'are compared by value for every kind of operand, and every printed form is read again with the levels of the grammar.'),
})
CHECKS.update({
    'C16': ('copies', 'c16', 'Abstract interpretation of every copy() and of the splitting of instruments; what each field of the '
            'result holds is compared with the same field of the original, by value and by identity.'),
})
CHECKS.update({
    'C17': ('params', 'c17', 'Abstract interpretation of the searches for instrument parameters over arbitrary instances and expressions; '
            'each field that can hold a name is followed to the answer.'),
})
CHECKS.update({
    'C18': ('whole', 'c18', 'Abstract interpretation of %include handling, the loaders, the component library and the assembler; what '
            'each field of the instrument is put together from is compared with what went in.'),
    'C19': ('model', 'c19', 'Abstract interpretation of the methods that add to, look up in and modify instruments, component '
                            'instances and component types, compared as normal forms for free and taken names'),
    'C20': ('printing', 'c20', 'Templates of the printed text by abstract interpretation of the to_file methods, cut into tokens and '
            'matched with the rules of McInstr.g4; every value has its place in the grammar. HTML: values reach the text through escape.'),
    'C22': ('running', 'c22', 'Abstract interpretation of the compiler, runner and scan functions; the commands they run and the values they give are folded for every kind of target and way to ask'),
    'C21': ('registries', 'c21', 'Abstract interpretation of the registries and the reader; what they answer is folded for every way in '
            'which a path can have to do with a name (the same, in a folder, end, start or middle of it) and every order of registries.'),
})
CHECKS.update({
    'C23': ('geometry', 'c23', 'Abstract interpretation of the orientation classes; the expressions they make are compared as polynomials '
            'of the unknown angles, coordinates and matrix elements with the algebra of rigid transformations.'),
})
CHECKS.update({
    'C25': ('declared', 'c25', 'Abstract interpretation of the reader of C declarations (DeclaresCVisitor, CDeclarator, CFuncPointer); the terms are folded '
            'for every kind of declarator, specifier and initializer and compared with what is declared.'),
    'C24': ('values', 'c24', 'Abstract interpretation of the translator; the template of the program is written out for small instruments whose '
            'components have parameters and variables of every kind, and the assignments, members and tables in it are compared with the '
            'ones that the instrument asks for; user variables by folding the terms of _determine_uservars for agreeing and contradicting blocks.'),
    'C26': ('files', 'c26', 'Abstract interpretation of the code that collects, orders and writes the files of a program (CTargetVisitor, sort_include_hierarchy, '
            'TargetVisitor); the terms are folded for blocks and libraries that include each other in every way that matters, and compared with what the includes say'),
})
# a second way to decide the property: the program written out for an instrument with everything in it
_W = 'The template is also written out for instruments with a mixture of all modifiers, sections and references: '
PARTS = {
    'C02': ('program', 'macros', _W + 'the macros that are in force at each block of code are those of its names.'),
    'C03': ('program', 'numbers', _W + 'every number in the program is that of the instrument.'),
    'C04': ('program', 'code', _W + 'every function has exactly the blocks of its section.'),
    'C05': ('program', 'calls', _W + 'every driver calls exactly the functions of its components.'),
    'C06': ('program', 'literals', 'The template is also written out for an instrument whose texts have quotes, backslashes and line breaks: the literals '
            'of the program are read as C reads them and compared with the texts.'),
    'C08': ('program', 'identifiers', _W + 'the identifiers in it are looked up among the declarations before them.'),
    'C09': ('program', 'members', 'The template is also written out for an instrument with user variables of every kind: the structure, the macros and '
            'the functions by name and number are read and compared with the members there are.'),
    'C10': ('program', 'control', _W + 'the steps of each component are compared with those its modifiers ask for.'),
    'C11': ('program', 'places', _W + 'the placement of each component is compared with its coordinates and references.'),
}
