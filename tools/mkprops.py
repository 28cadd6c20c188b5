import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=m[0],where=m[1]) for m in mech],observe_at=observe,hook_needed=None,**({'state':[dict(name=s[0],meaning=s[1],where=s[2]) for s in state]} if state else {}))))
DB='libs/databases/infrastructure/files/application.go'
CTX='libs/databases/infrastructure/files/context.go'
REF='libs/databases/domain/references/'
HT='libs/cryptography/domain/hashtrees/'
AST='libs/asts/applications/application.go'
TR='libs/asts/domain/trees/'
INT='libs/interpreters/applications/application.go'
Q='libs/queries/applications/application.go'
ctxstate=[('open contexts','per context: the connection, the committed reference, the offset of the data and the pending contents','context in '+CTX)]
p('D01','Committed contents read back exactly, through any later history',
 'Once a commit succeeds, each content it contained is returned byte for byte when it is read by its hash (the most recently committed content of that hash) or by its pointer, and is listed exactly once under its kind, through its own context and through every context opened later. This stays true after any sequence of later writes, commits, cancels, closes and re-opens, whatever the sizes, hashes and kinds of the contents: no content is lost, duplicated, reordered or altered. Reading several hashes or pointers at once returns what reading each of them in order returns, and an unknown hash or a pointer outside of the data is an error.',
 ['histories','inputs'],'all operation histories (open, write, commit, cancel, close, re-open) and all content sizes, hashes and kinds',
 'The tests do one write/commit/read history on one small content and one re-open; they never vary chunk/offset boundaries nor chain several commits of several contents.',
 [DB,REF+'contentkeys.go',REF+'contentkeys_builder.go'],[('commit copies the previous data then appends the new one','Commit/updateReference/writeDataAndReferenceOnDestinationFile in '+DB),('pointers are relative to the end of the reference','Read in '+DB)],
 ['Read, ReadByHash, ReadAll, ReadAllByHashes, ContentKeysByKind of the database application'],ctxstate)
p('D02','A commit contains exactly the pending writes of its own context',
 'A successful commit adds exactly the contents written on its context since the last successful commit or cancel of that context, in order, with the bytes, hash and kind they had when Write was called, even if the caller changes its slice afterwards. Before that they are not visible through any context, and Cancel and Close discard them for good. A commit with nothing pending, a Write that is refused (no data, or a hash that is not 64 bytes) and a commit that is refused change nothing.',
 ['histories'],'all interleavings of writes, commits, cancels and closes on several contexts',
 'The tests cancel once and commit once; no test commits twice on a context, mutates a buffer, or mixes pending writes of several contexts.',
 [DB,CTX],[('the pending contents are kept per context and cleared by commit and cancel','Write, Cancel, Commit in '+DB)],['ReadByHash, ContentKeysByKind and Commits after each operation'],ctxstate)
p('D03','Contexts and databases are independent of each other',
 'Each opened context gets an identifier that no other context of the application has or had, an operation only affects the context or database it names, and an operation on an identifier that is not open is an error without any effect. An application opens a database at most once at a time, and can open it again once closed. Creating a database that exists, or whose name ends with one of the temporary extensions, is an error that changes nothing; deleting or opening one that does not exist is an error, and Exists tells exactly which databases were created and not deleted since.',
 ['histories'],'all histories of create, delete, exists, open, close and content operations on several databases and contexts',
 'The tests use one database and one context at a time, so identifier reuse, cross-context effects and name collisions are out of their reach.',
 [DB],[('contexts are kept by identifier','Open, Close in '+DB),('reserved extensions and exclusive creation','New in '+DB)],['results of every database operation and the content of the directory'],ctxstate)
p('D04','The commits form a hash-linked chain that accounts for every content',
 'After any history, a database has one commit per successful commit, in order: the first has no parent, every other has the hash of the one before as parent, and all have different hashes. The tree of a commit is the hash tree of the hashes of the contents it added, in the order they were written, and each content key names the commit that added it. Commits can be fetched by hash, and their hash, time, parent and tree are the same after later commits and re-opens.',
 ['histories'],'all histories of commits, cancels and re-opens',
 'The tests look at a single commit and never at parents, trees or commit hashes after a re-open.',
 [DB,REF+'commits.go',REF+'commit_builder.go',REF+'commit_adapter.go'],[('parent is the latest commit of the reference','updateReference in '+DB)],['Commits, CommitByHash, ContentKeysByKind'],ctxstate)
p('D05','A crash at any point leaves the old or the new database, never a mixture',
 'If the process is stopped at any instant of a creation, commit, cancel or close, including in the middle of a write to disk, opening the database again shows exactly the contents and commits it had before that operation, or those it has after it; what was committed before is always there and readable. Once a commit has returned success the new state is the one that is found. After the crash, whatever temporary files are left, the database can be opened, written and committed again normally.',
 ['crash_points','histories'],'every point between and inside the file operations of every history',
 'No test stops a commit; the result depends on the order of the file operations and on what each leaves on disk.',
 [DB],[('the new database is written aside then renamed over the old one','updateDatabaseOnFile in '+DB)],['the directory as seen by a new application after each crash point'])
p('D06','An I/O error never loses data and is never reported as a success',
 'When a file operation fails (I/O error, disk full, short write), once or from then on, the operation that needed it either returns an error or really had its whole effect: a commit that returns success can be read back in full through the context and after a re-open. A commit that returns an error leaves all that was committed before readable and unaltered, and its pending contents stay pending, so that committing again once the fault is gone stores each of them exactly once. A read never returns bytes that are not those of the content, and a failed Open or New can be repeated once the fault is gone.',
 ['fault_sequences','histories'],'every file operation of every history failing, with every failure kind, once or persistently',
 'No test injects a fault; error paths depend on which of the file operations fails.',
 [DB],[('errors of the writes, the copy and the rename abort the commit before the database is replaced','updateDatabaseOnFile in '+DB)],['results of the operations, and the directory as seen by a new application'])
p('D07','Concurrent applications never lose an acknowledged commit',
 'When several applications (or processes) work on the same database at the same time, in any interleaving of their file operations, the database ends with exactly the contents and commits of the commits that returned success, each complete, and none of those that returned an error. An application that opens and reads the database at any moment finds exactly the state left by some number of these commits, never a partial one. When several applications create the same database at the same time, exactly one succeeds.',
 ['schedules'],'all interleavings of the file operations of the applications',
 'The tests run one application; the races need a switch between two specific file operations.',
 [DB],[('lock on the database file, and check that the path still is the opened file','updateDatabaseOnFile, verifyConnection in '+DB),('exclusive creation','New in '+DB)],['results of the operations of each application and the final database'])
p('D08','The read chunk size never changes any result',
 'Applications that only differ by their read chunk size (zero, one, smaller than, equal to, a divisor of, or bigger than what is read) give the same results for the same operations, and leave databases that read back the same whatever the chunk size used to read them. This holds for references and data smaller than, equal to, a multiple of and bigger than the chunk size. A chunk size of zero means that everything is read at once.',
 ['configurations','histories'],'all chunk sizes, for all histories and content sizes',
 'The tests use a single chunk size bigger than everything they store, so the chunked loops run once.',
 [DB],[('chunked read of the reference and chunked copy of the data','retrieveReference, writeDataAndReferenceOnDestinationFile, makeChunkSize in '+DB)],['results of the operations under each chunk size'])
p('D09','Opening a damaged database is an error or is safe, never a panic or a hang',
 'Opening a file that was truncated, extended or altered in any way either returns an error, in which case the file is untouched and nothing stays open, or gives a context on which every operation returns a result or an error. It never panics, never hangs and never asks for much more memory than the size of the file. A file that is cut anywhere inside its reference is always refused, and only an empty file is a new database.',
 ['inputs'],'all truncations, extensions and byte alterations of database files',
 'No test opens a damaged file; the lengths found in the file drive slices, allocations and loops.',
 [DB,REF+'adapter.go',REF+'commits_adapter.go',REF+'contentkeys_adapter.go',HT+'leaf_adapter.go'],[('the lengths are checked against the available bytes','retrieveReference in '+DB+', adapters')],['Open and every operation of the context'])
p('D10','No operation leaves behind an open file, a lock or a temporary file',
 'After every operation, whether it succeeds, is refused (unknown context, nothing to commit, locked, replaced, deleted or damaged database) or fails at any of its file operations, an application has at most one file open per context that is open, none once they are closed, and holds no lock. As long as no file operation failed, its directory contains exactly the databases created and not deleted since; otherwise at most the temporary files of the commits that failed as well, which the next successful commit of that database removes. Any number of operations keeps it so.',
 ['histories','fault_sequences'],'all operation histories, all failures at any file operation, all damaged databases',
 'No test looks at the files that stay open nor at the directory; a leak only shows after a refusal, a failure at a specific operation, or many operations.',
 [DB],[('connections are closed on each way out, and replaced by a commit','Open, Close, updateDatabaseOnFile, writeDataAndReferenceOnDestinationFile in '+DB),('the lock is released at the end of the commit','updateDatabaseOnFile in '+DB)],['the files opened by the process, the locks and the files of the directory, after each operation'],ctxstate)
p('K01','Decoding what was encoded gives back an equal instance',
 'For every instance the builders accept, converting it to bytes and back gives an instance equal in all its observable parts, and converting that one again gives the same bytes: contents, pointers, content keys, commits (with or without parent and proof), references, hash trees, leaves and compact hash trees, and hashes to and from their string. It holds for any number of elements and for extreme values: kinds, offsets and lengths up to 2^64-1, any proof, times to the nanosecond. Each instance keeps its order and its repetitions. All hashes have 64 bytes, and times are within the range of nanoseconds since 1970 in 64 bits.',
 ['inputs'],'all instances that the builders accept',
 'The tests round-trip one instance of some types with tiny values.',
 [REF+'commit_adapter.go',REF+'adapter.go',REF+'commits_adapter.go',REF+'contentkey_adapter.go',REF+'contentkeys_adapter.go',REF+'pointer_adapter.go','libs/databases/domain/contents/adapter.go','libs/databases/domain/contents/content_adapter.go',HT+'adapter.go',HT+'leaf_adapter.go',HT+'leaves_adapter.go',HT+'compact_adapter.go','libs/cryptography/domain/hash/adapter.go'],[('length-prefixed encodings','the adapters')],['the adapters'])
p('K02','Decoders are total: any bytes give an instance or an error',
 'Given any bytes, each decoder (contents, pointers, content keys, commits, references, hash trees, leaves, compact hash trees, hashes from a string) returns an instance or an error: it never panics, hangs, or asks for memory out of proportion with its input. An input that is too short for what it announces is an error. What is returned without error can be used and converted to bytes again without a panic.',
 ['inputs'],'all byte strings; in particular all truncations and all changes of the bytes of valid encodings',
 'The tests only decode valid bytes.',
 [REF+'commit_adapter.go',REF+'adapter.go',REF+'commits_adapter.go',REF+'contentkeys_adapter.go','libs/databases/domain/contents/adapter.go','libs/databases/domain/contents/content_adapter.go',HT+'leaf_adapter.go',HT+'leaves_adapter.go',HT+'compact_adapter.go'],[('bounds checks on announced lengths','the adapters')],['the adapters'])
p('K03','A hash tree is the canonical Merkle tree of its blocks',
 'The leaves of the tree of blocks b1..bn are, in order, the SHA-512 of each block (a block of 64 bytes is already a hash and is its own), followed by SHA-512 of nothing up to the next power of two, at least two. Each inner node, up to the head, is the SHA-512 of its left then right children, and the height and length are those of that tree. The result only depends on the blocks, building never changes them or their slice, no later operation on the tree changes it, and zero block is an error.',
 ['inputs'],'all lists of blocks',
 'The tests build trees of a few blocks and compare a tree with itself, never with the definition.',
 [HT+'builder.go',HT+'leaves_adapter.go',HT+'leaf_adapter.go',HT+'adapter.go',HT+'hashtree.go',HT+'leaf.go'],[('pairwise merging of leaves','ToHashTree in '+HT+'leaves_adapter.go')],['Head, Height, Parent, ToLength, ToCompact'])
p('K04','Re-ordering blocks by a hash tree restores exactly the original order',
 'Given the blocks of a hash tree in any order, re-ordering them by the tree returns them in the order of the tree, each exactly as many times as given, including repeated and empty blocks. Blocks with the same hash (a block and its own SHA-512) are interchangeable. If some given block is not in the tree, or is given more often than the tree has it, the result is an error. The given list and the tree are not modified.',
 ['inputs'],'all trees and all permutations, repetitions and alterations of their blocks',
 'The tests shuffle one list of distinct blocks.',
 [HT+'adapter.go'],[('blocks are matched to leaves by hash','ToOrder in '+HT+'adapter.go')],['ToOrder'])
p('K05','The hash of a commit binds all that it contains, and its score its proof',
 'Two commits that differ by their tree, creation time, parent or proof have different hashes, and the hash of a commit is always the same for the same parts, however it was built or decoded. The result of a proof is the hash of the hash of the commit and the bytes of the proof (SHA-512, but 64 bytes are already a hash: a proof of zero), and the score is the number of leading bytes of the result equal to the mining value. A commit without tree or creation time cannot be built.',
 ['inputs'],'all pairs of commits',
 'The tests build one commit and compare nothing.',
 [REF+'commit_builder.go',REF+'mine.go',REF+'commit_adapter.go'],[('the hash covers the concatenated parts','Now in '+REF+'commit_builder.go')],['Hash, Mine of a commit'])
p('A01','Parsing gives exactly the tree that the grammar denotes',
 'The lines of a token are tried in order, and the first that matches is the one of the tree; the elements of a line must match in order, each as many times as possible within its minimum and maximum (at least the minimum, or the line does not match), and a value matches that very byte. A token can refer to an enclosing token by name, at any depth, and a line that an enclosing use of the same token already tried, or is trying, on the same data is skipped. Parsing succeeds, with that tree and the unconsumed bytes as remaining, exactly when a line of the root matches.',
 ['inputs','programs'],'all grammars and all inputs',
 'The tests parse a handful of inputs with a handful of grammars.',
 [AST,TR+'line.go',TR+'block.go',TR+'element.go'],[('ordered choice of lines, greedy elements','block, line, element in '+AST)],['Execute and the whole tree'])
p('A02','A parse neither loses nor invents any byte',
 'For every successful parse, the bytes of the tree with its channels, followed by its remaining, are the input, except for the escapes of an everything, which are dropped. The bytes without the channels are those same bytes without what the channels matched. The same holds for each sub-tree on the part of the input that it covers, each content and element reports the bytes of its parts in order, and the input itself is never modified.',
 ['inputs','programs'],'all grammars (with and without channels, externals, composes and everythings) and all inputs',
 'The tests check the bytes of a few trees.',
 [AST,TR+'tree.go',TR+'element.go',TR+'content.go',TR+'trees.go'],[('each step returns what it consumed and what remains','token, channels, external in '+AST)],['Bytes(true), Bytes(false), Remaining on each node'])
p('A03','Parsing always terminates, whatever the grammar',
 'Parsing any input with any grammar returns a tree or an error after a bounded number of steps and a bounded nesting: left-recursive and mutually recursive tokens, elements that can match nothing, channels, conditions, externals and everythings included. A recursive reference to a token that is not being parsed fails that element and nothing else. Empty input, and a root that matches nothing, are reported without a panic.',
 ['inputs','programs'],'all grammars and inputs, in particular cyclic ones',
 'The tests have one recursive grammar and one input for it.',
 [AST],[('a line is not tried again on the same data within the same token','stack in '+AST)],['Execute, number of accesses to the grammar'])
p('A04','An everything takes all up to its exception, honouring its escape',
 'An everything matches all the bytes before the first place where any line of its exception matches, or up to the end of the data, and must match at least one byte. Where its escape matches right before the exception, the exception that follows is part of the content, without the bytes of the escape; an escape that is not before the exception is plain content. Channels do not apply inside, and parsing continues right at the exception.',
 ['inputs','programs'],'all exceptions, escapes and inputs',
 'The tests have one everything with one single-byte exception and escape.',
 [AST],[('byte by byte scan','everything and reverse parsing in '+AST)],['Execute, the contents of the reversed line, Remaining'])
p('A05','Channels are skipped exactly where and when their conditions allow it',
 'The text matched by the channels of a grammar, in any order and repetition, is skipped before each value and after each token, kept as the prefix of the value or the suffix of the tree, and never counted as content; text matched by no channel is never skipped. A channel with a previous (next) condition only applies when the condition matches the text that begins at the value parsed before (right after the channel). Channels do not apply inside of channels, conditions and everythings, and an external grammar only uses its own.',
 ['inputs','programs'],'all lists of channels and conditions, grammars and inputs',
 'The tests have two channels and two inputs.',
 [AST],[('channels are applied until none matches','channels, channel, channelCondition in '+AST)],['Execute, prefixes and suffixes, Remaining'])
p('A06','An external grammar parses exactly as its own grammar does',
 'An element made of an external grammar matches exactly what that grammar matches on its own at that place, with its own channels and its own enclosing tokens, and the tree is the one of that grammar under the name of the external, with the same suffix. Parsing then continues with exactly what that grammar left. Externals can be repeated, optional and nested like any other element.',
 ['inputs','programs'],'all pairs of grammars and all inputs',
 'The tests use one external, at the end of the data.',
 [AST],[('the external runs on a fresh stack and its own channels','external in '+AST)],['Execute on both grammars'])
p('A07','A compose is matched by exactly what it composes',
 'A compose has at least one byte. Composing a token made of composes gives the bytes of its values, in order, each repeated by its occurences. Used inside of a line, a compose matches exactly these bytes (and what the channels skip before them), keeps each of them as a content, and makes its line fail otherwise. What a token composes, the same token parses completely, without remaining; a token with several lines, or with an element that is not a compose, cannot be composed.',
 ['inputs','programs'],'all composes and inputs',
 'The tests compose one token and parse none with it.',
 [AST,TR+'line.go'],[('Compose and the compose containers of a line','Compose, line in '+AST)],['Compose, Execute'])
p('A08','Coverage reports exactly what the suites of a grammar exercise',
 'Every suite of every token that can be reached from the root or a channel, through instances and everythings, is executed exactly once, on the data it composes, and reported with the outcome that parsing that data with that token gives; those of an external grammar each time that it is used. Covered names each element of the lines that these outcomes matched and that has contents, by token, line and place in the line, and nothing else (text skipped by channels covers nothing); Uncovered names exactly the other elements of the grammar. The reports never fail on cyclic or shared tokens, nor on grammars without suites.',
 ['inputs','programs'],'all grammars and suites',
 'The tests cover a couple of grammars, with fully covered tokens.',
 [AST,'libs/asts/domain/grammars/coverages/result.go','libs/asts/domain/grammars/coverages/executions.go'],[('walk of the grammar','Coverages, Covered, Uncovered in '+AST)],['Coverages, Covered, Uncovered'])
p('A09','Fetch finds the element or tree of a name if and only if the tree has it',
 'Fetching a name at index zero in a tree returns the first tree or element of that name in document order, and is an error exactly when the tree contains none. Fetching it at index n, in a tree whose matches are direct elements of its line, returns the (n+1)-th, and is an error when there are fewer. Fetching never modifies the tree.',
 ['inputs'],'all trees, names and indexes',
 'The tests fetch a few names of one tree.',
 [TR+'tree.go',TR+'element.go',TR+'elements.go'],[('depth-first search','Fetch in '+TR+'tree.go and element.go')],['Fetch on trees, elements'])
p('A10','Shared applications give each concurrent call the result it would have alone',
 'A parser, a query or an interpreter application can be shared: calls that run at the same time on it, with the same or different grammars, queries and programs, or that are made from inside its own callbacks, each return what they would return alone, in any interleaving. No call leaves anything behind that changes a later one. The grammars, trees, queries and programs given are not modified.',
 ['schedules'],'all interleavings of concurrent and re-entrant calls',
 'The tests make one call at a time.',
 [AST,INT,Q],[('builders are re-created for each instance and the applications keep no state','the three applications')],['Execute, Coverages, Compile, Execute of programs and queries'])
p('A11','The shipped grammar accepts the documented forms, and only complete ones',
 'The shipped grammar of grammars parses completely each documented form, as what it is: a root, channels with their previous and next conditions, values (a number), everythings with and without escape, composes with an amount, tokens of several lines with each cardinality, external tokens, suites with valid and invalid composes, with spaces, tabs, new lines and (not empty) comments between their parts, in the order in which the instruction token lists them. A form with a mandatory part missing is not parsed completely by its token. The shipped tokens (variable name, hash, number, letter, byte, any or all characters) match exactly the texts they name, and its own suites have the outcome they announce.',
 ['inputs'],'all the documents made of the documented forms',
 'The tests parse one script and run the suites; the alternatives, orders and separators are not varied.',
 ['instances/grammars/grammars/grammar.go','instances/grammars/tokens/token.go','instances/grammars/components/channels/channels.go','instances/grammars/components/elements/element.go','instances/grammars/components/tokens/token.go'],[('the tokens of the grammar','Grammar in instances/grammars/grammars/grammar.go')],['Execute and Coverages on the shipped grammar'])
p('I01','A program computes what its instructions denote',
 'Executing a compiled program runs the instructions in order and returns one value per assignment to a declared output, in the order of the assignments: a constant gives its bytes, a variable the input declared under that name (inputs are numbered in the order of their declarations), an execution what the module of the application returns, and a list of instructions the outputs of that sub-program on the same inputs. The same program executed again with the same inputs gives the same values. A missing input that is used, or an error of a module, makes the execution fail, and inputs in excess are ignored.',
 ['programs','inputs'],'all valid lists of instructions and all inputs',
 'There is no test of the interpreter at all; the meaning of a program depends on the order and combination of its instructions.',
 [INT,'libs/interpreters/domain/programs/value_builder.go','libs/interpreters/domain/programs/program.go'],[('inputs by index, outputs by instruction index','Compile, Execute in '+INT)],['Compile and Execute'])
p('I02','Compiling rejects exactly the ill-formed lists of instructions',
 'A list of instructions compiles if and only if each name it uses was declared before in the same scope and is used as what it is: modules exist in the given modules and are loaded once, applications are declared once with a loaded module, parameters are declared once, a value comes from an input parameter or a declared application, and only assigned variables and input parameters are attached, to declared applications. Sub-programs are their own scope, and obey the same rules. The program holds one instruction for each assignment and execution, in their order, the positions of those that are assigned to an output, and each application with its module and its number in the order of the declarations. A list that produces no code is an error, and no list makes the compiler panic.',
 ['programs'],'all lists of instructions',
 'There is no test of the compiler at all; its rules depend on what each of the earlier instructions declared.',
 [INT],[('the declared names are collected while compiling','compileInstruction in '+INT)],['Compile'])
p('I03','Each execution runs exactly once, in order, with the values then attached',
 'The function of a module is called exactly once for each execution instruction and each assignment of an execution, in the order of the instructions, and never for anything else: attaching a variable assigned from an execution passes the value that was computed. Each call receives exactly the values attached to its application when the instruction was compiled, the last one attached winning for each target, and a variable attached is the value assigned to it at that moment. Two applications of the same module never share their attachments.',
 ['programs','histories'],'all programs with several modules, applications and attachments',
 'There is no test of the interpreter at all; the calls depend on the order and combination of executions and attachments.',
 [INT],[('values are cached by assignment','Execute, execute in '+INT)],['the recorded calls of the modules'])
p('Q01','A query returns exactly the contents that it selects',
 'A query applied to a tree of its token selects the contents of the (index+1)-th element of the given name in the matched line (or of the reverse element), all of them or the one at the given index, and passes them, in order, to its function (the first one to a function of a single content), or, when they are trees, to the queries of its inside, each content to each of them, and their valid results, in order, to its own (the first one to a function of a single instance). A recursive fetcher applies the enclosing query of that name. It returns what its function returns, with the remaining of the tree; when nothing is obtained its function is not called and the result is not valid, and another token, an index too big for the contents, or an unknown recursive name is an error.',
 ['inputs','programs'],'all trees and queries',
 'There is no test of the queries at all; the result depends on the combination of the selections, insides and trees.',
 [Q,'libs/queries/domain/queries/token_builder.go'],[('selection by name and index then recursion','queryFetch, queryContents, insideInstances in '+Q)],['Execute of a query'])
p('Q02','Executing a query never panics and never changes the tree',
 'Whatever the query and the tree (from a successful or an unsuccessful parse), executing the query returns a result or an error: any element name, index, content index, reverse name, single or multiple function, and nested or recursive fetchers. An error returned by one of its functions is returned, and no other function is called after it. The tree and the query can be used again with the same result.',
 ['inputs','programs'],'all trees and queries, valid or not',
 'There is no test of the queries at all, and least of those that do not match their tree.',
 [Q],[('checks before each access','queryContents, tokenRefine in '+Q)],['Execute of a query'])
G='libs/asts/domain/grammars/'
p('B01','A domain instance is built exactly when its mandatory parts were given',
 'Building any instance of the domain (grammar, tree, coverage, hash tree, content, reference, instruction, program, query, and each of their parts) returns an instance when every mandatory part, and at least one of its alternatives, was given to the builder, and otherwise an error and no instance. A part given as nothing (nil, an empty name, an empty list, an amount of zero where there must be one) is not given; a zero that is a value (an index, a byte, a kind, a minimum) is given. No order of the calls, repeated call or missing part makes a builder panic.',
 ['inputs','histories'],'all the sets of parts, values and orders in which they are given to each builder',
 'The tests build a handful of complete instances; they never omit a part, and no test covers the builders of programs, instructions, queries and coverages.',
 [G+'token_builder.go',TR+'tree_builder.go',REF+'contentkey_builder.go','libs/interpreters/domain/programs/value_builder.go','libs/queries/domain/queries/token_builder.go'],[('each builder checks its parts in Now','the *builder.go files of libs')],['Now of each builder'])
p('B02','A domain instance holds exactly what was given to its builder',
 'The accessors of a built instance return each part that was given last, unchanged, its lists in the order given, and its flags (Has..., Is...) tell exactly which optional parts and which alternative it holds: one of those that were given. Its lookups (by name, hash, index or kind) find exactly the elements of its list, its name is that of what it holds, and the successful line of a block is its first successful one: one whose elements give each container of its grammar, in order, an amount of contents that it accepts.',
 ['inputs'],'all the values of all the parts given to each builder',
 'The tests read a few accessors of a few instances; a part that is swapped, dropped or flagged wrongly in one constructor among a hundred goes unseen.',
 [G+'element_builder.go',TR+'tree_builder.go',TR+'block_builder.go',REF+'contentkeys.go',REF+'commits.go','libs/interpreters/domain/programs/modules/modules.go'],[('each constructor receives the parts of the builder','create... of each instance')],['the accessors of each instance'])
p('B03','A builder shares no state with the builders and instances it makes',
 'Create returns a builder to which nothing was given, whatever was given to the one it comes from, which keeps its own parts. Building again gives an instance with the same parts, and an instance that was built is not changed by anything done later to a builder: giving parts, building or creating. A part given again replaces the previous one.',
 ['histories'],'all sequences of operations on a builder and on those that it creates',
 'The tests use each builder once; the applications keep one builder of each kind and call Create on it for each instance, so a part left behind appears in another instance, far from its cause.',
 [G+'builder.go',TR+'builder.go',REF+'commit_builder.go','libs/interpreters/domain/programs/builder.go','libs/queries/domain/queries/builder.go'],[('Create makes a new builder','Create of each builder')],['Now of each builder, and the accessors of the instances built before'])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
