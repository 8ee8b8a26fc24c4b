import json
G="asn1_parser/generators/"
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))

prop("C01","Success is only reported when every artefact is complete on disk",
"When a generate-cfs, generate-c, generate-binary or generate-cosmos invocation exits with status 0, every file it is responsible for exists in the output directory with exactly the bytes an undisturbed run writes there, whatever system call (stat, mkdir, open, read, write, close) failed, returned short or was interrupted on the way. If an artefact was not written completely because of an error or an interruption, the exit status is not 0. Harmless disturbances (short reads and writes, EINTR) do not make a run fail.",
["fault_sequences","inputs","crash_points"],
"every valid project, each of the four commands, every sequence of I/O errors (EIO, ENOSPC, EACCES, ...), short transfers, EINTR and signals at any system call of the run",
"The tests run every command on a healthy file system only; no test makes a stat, mkdir, open, write or close fail.",
["asn1_parser/main.py","asn1_parser/c_printer.py",G+"cosmos/generator.py",G+"cfs/generator.py",G+"c/generator.py",G+"binary/generator.py","asn1_parser/asn1/parser.py"],
[("exceptions of file operations propagate to the process exit status","main.main / CPrinter.print_to_file"),("with-blocks close (and thereby flush) every artefact before the run ends","CPrinter.print_to_file, COSMOSGenerator.generate_cosmos")],
observe=["exit status","contents of the output directory"])

prop("C02","A clean re-run repairs whatever earlier runs left in the output directory",
"One undisturbed successful run leaves each artefact it generates byte-identical to what it generates into an empty directory, whatever is in the output directory beforehand: artefacts of older versions of the model, torn, truncated or garbage files left by runs that were killed, lost power or failed half-way, in any combination and with any time stamps. Running it again changes nothing.",
["histories","crash_points","fault_sequences"],
"every history of edits to the model, completed, failed and killed runs, power losses and clock jumps before the final run",
"Every integration test generates once into a fresh directory.",
["asn1_parser/c_printer.py",G+"cosmos/generator.py",G+"cfs/generator.py",G+"c/generator.py",G+"binary/generator.py"],
[("every artefact is opened for overwriting","CPrinter.print_to_file, COSMOSGenerator.generate_cosmos"),("an existing output directory is reused","CFSGenerator.generate_cfs, CGenerator.generate_c, BinaryGenerator.generate_binary, COSMOSGenerator.generate_cosmos")],
observe=["contents of the output directory after the final run"])

prop("C03","Same inputs, same outcome: no dependence on the environment",
"For the same input texts and command line, the exit status, the bytes of every artefact and the diagnostics printed are the same on every run: they do not depend on hash randomisation, memory addresses, garbage-collection timing, the clock or how fast time passes, process ids, random numbers, directory listing order, time stamps, the working directory, where the project lies in the file system, or environment variables.",
["schedules","inputs","configurations"],
"every project, valid or not, and every pair of environments",
"The test suite fixes PYTHONHASHSEED=0 and one directory layout, and compares a few expected files.",
["asn1_parser/main.py","asn1_parser/asn1/asn1_bundle_builder.py","asn1_parser/asn1/validation/asn1_bundle_validator.py",G+"cfs/generator.py",G+"cfs/module_sorter.py",G+"cosmos/generator.py"],
[("sets are used for membership and sorted before they are rendered","ASN1BundleBuilder, ASN1BundleValidator, CFSGenerator"),("definitions and modules are processed in textual order","ModuleSorter")],
observe=["exit status","artefacts","stdout and stderr"])

prop("C04","The order of input files and of the module list does not matter",
"Permuting the input files on the command line, or the names in the list of modules, changes neither whether the project is accepted nor the bytes of any artefact.",
["inputs","configurations"],
"every project and every order in which a shell glob or a directory listing may present its files",
"The tests pass each project in one order (that of a glob or one written out).",
["asn1_parser/asn1/asn1_bundle_builder.py","asn1_parser/asn1/asn1_bundle.py","asn1_parser/asn1/validation/asn1_bundle_validator.py",G+"cfs/module_sorter.py",G+"cosmos/generator.py"],
[("all modules are parsed before dependencies are resolved by name","ASN1BundleBuilder.build"),("modules are ordered by their imports","ModuleSorter.create_ordered_import_list")],
observe=["exit status","artefacts"])

prop("C05","A run touches nothing but its own artefacts in the output directory",
"Whether it succeeds, fails, is interrupted or killed, a run creates, changes or deletes nothing except the artefacts it is asked to generate, inside the output directory (and missing directories on the path to it): the ASN.1 inputs, other files in the output directory and everything outside it keep their content, and a successful run leaves no additional files behind.",
["fault_sequences","crash_points","inputs"],
"every project, command and output location (relative, nested, not yet existing, containing foreign files), every fault and kill point",
"The tests look at the expected files only, never at what else changed, and never after a failure.",
["asn1_parser/c_printer.py",G+"cosmos/generator.py",G+"cfs/generator.py",G+"c/generator.py",G+"binary/generator.py","asn1_parser/asn1/parser.py"],
[("artefact paths are built from the output directory and the module, sequence or target name","CPrinter.print_to_file, COSMOSGenerator.generate_cosmos"),("inputs are opened for reading only","Asn1Parser.parse_from_files")],
observe=["every mutating system call of the process","directory trees before and after"])

prop("C06","An inconsistent project is rejected before anything is written",
"If a module file is missing, unreadable, truncated or duplicated, if a module or type is defined twice, if an imported module, imported type, used type or WITH COMPONENTS key is not defined, if imports or types are circular, if a range is reversed, does not fit into 64 bits or does not match its POSIX type name, if NULL is used, if the positions of an enumeration are given (not all 0) but are not a permutation of 0..n-1, if the module list does not match the modules supplied (generate-cfs, -c, -binary), or if generate-cosmos is asked for a module or message that does not exist, then the command prints a diagnostic and exits with non-zero status. In that case the output directory is exactly as it was before: nothing created, truncated or changed. A project with none of these defects that uses the supported constructs is accepted.",
["inputs","fault_sequences","histories"],
"every project, every mutation of it of the listed kinds (alone or together), every read fault on an input, every previous state of the output directory",
"The tests try one hand-written example of most kinds and check only the message or exit status; none looks at artefacts that were there before, and none makes a read fail.",
["asn1_parser/asn1/asn1_bundle_builder.py","asn1_parser/asn1/validation/asn1_bundle_validator.py","asn1_parser/asn1/processor.py","asn1_parser/asn1/parser.py","asn1_parser/main.py"],
[("all inputs are read, parsed and validated before a generator starts","main.main, ASN1BundleBuilder.build_from_*"),("validation raises instead of repairing","ASN1BundleValidator, processor.*")],
observe=["exit status","stdout/stderr","every mutating system call","output directory before and after"])

prop("C07","Concurrent invocations do not disturb each other",
"Invocations running at the same time and sharing input files, the output directory or missing parents of it all succeed in every interleaving of their system calls, and the result is the same as running them one after the other. An invocation that fails or is killed does not change the outcome of others that write different artefacts.",
["schedules","crash_points"],
"every set of two to four invocations that write different artefacts or are identical, every interleaving of their system calls, every kill point of one of them (where their artefacts differ)",
"The tests run one invocation at a time.",
[G+"cfs/generator.py",G+"c/generator.py",G+"binary/generator.py",G+"cosmos/generator.py","asn1_parser/c_printer.py"],
[("directory creation tolerates that another process was faster","pathlib.Path(...).mkdir(parents=True, exist_ok=True) in the four generators"),("no shared temporary files","CPrinter.print_to_file")],
observe=["exit status of every process","final output tree"])

prop("C08","A run works on one version of each input file",
"If input files are replaced atomically while a run is in progress, the run behaves exactly as if each file had, for the whole run, either its old or its new content; it never combines parts of two versions of the same file.",
["schedules","histories"],
"every project, every edit of one or two module files placed between any two system calls of the run",
"No test changes an input during a run.",
["asn1_parser/asn1/parser.py","asn1_parser/asn1/asn1_bundle_builder.py"],
[("every input is opened and read once, all later work uses that text","Asn1Parser.parse_from_files")],
observe=["exit status","artefacts"])

prop("C09","Every invocation ends",
"Every invocation terminates, successfully or not, after a number of steps in proportion to the size of its inputs (and, for generate-cosmos, of its output): for every finite set of input files, including circular imports, types defined in terms of themselves, deep and diamond-shaped imports and truncated files, and whichever I/O calls fail or keep failing.",
["inputs","fault_sequences"],
"every project, valid or not, and every transient or persistent I/O fault",
"A test that hangs is only noticed for the inputs tried; no test has circular imports or types, or persistent faults.",
[G+"cfs/module_sorter.py","asn1_parser/asn1/validation/asn1_bundle_validator.py",G+"cosmos/generator.py",G+"generator.py","asn1_parser/asn1/parser.py"],
[("circular dependencies are rejected before the sorting loops run","ASN1BundleValidator.validate_bundle"),("each pass of the sorting loops removes at least one element","ModuleSorter"),("no retry loops around I/O","Asn1Parser, CPrinter")],
observe=["executed interpreter steps","system calls issued"])

prop("C10","The outcome does not depend on what was processed before or alongside",
"The artefacts and exit status of an invocation are the same whether it runs in a fresh process or after any number of other invocations (successful, rejected or failed by I/O errors) in the same process. The definition of a COSMOS packet is the same whichever other packets are requested with it, before or after it, and repeating a packet gives the same text again.",
["histories","inputs","fault_sequences"],
"every sequence of invocations of the four commands, on different projects and with faults, in one interpreter; every selection and order of messages",
"Each integration test starts one process per command; unit tests do not compare with a fresh interpreter, and no test requests a packet in several combinations.",
["asn1_parser/main.py",G+"cosmos/generator.py",G+"binary/generator.py",G+"generator.py","asn1_parser/asn1/parser.py","asn1_parser/c_data.py"],
[("a new metamodel and model per file","Asn1Parser.parse_from_text"),("accumulators are created per invocation, module and packet","CData.create_empty, COSMOSGenerator.generate_cosmos"),("class-level state is set at the start of every invocation","BinaryGenerator.generate_binary")],
observe=["artefacts","exit status"])

prop("C11","Flight software and ground station agree on every telemetry value",
"Every value that flight software writes into a field of a message struct from the generated cFS header is decoded by a ground station from the generated COSMOS definition of that message as the same value of the same named item, for every field the model declares (integers of 1 to 64 bits, floating point, enumerations of one or more values, booleans, strings, nested sequences, numeric arrays). Enumeration and boolean states, units, descriptions, limits of restricted reals, byte order flags and fixed values shown on the ground are those declared in the model, and the headers compile. This holds for models whose nested sequences, arrays and multi-byte fields start on byte boundaries and whose comments contain no double quote, no */ and no trailing backslash, after any history of edits and interrupted or failed generator runs that ends with a successful one on both sides, and over a link that loses, duplicates, reorders or corrupts packets: what arrives intact decodes to what was sent.",
["inputs","histories","fault_sequences"],
"every such model and every sequence of field values, every history of regeneration with kills in between, every pattern of link faults",
"The tests compare generated text with expected files for a dozen models; no test compiles the headers, and none compares the two sides.",
[G+"generator.py",G+"cfs/generator.py",G+"cosmos/generator.py",G+"cosmos/templates.py","asn1_parser/utils/size.py","asn1_parser/asn1/processor.py","asn1_parser/asn1/asn1_bundle_builder.py"],
[("both generators derive the width of a field from the same function","utils.size.get_bit_size"),("enumerations are numbered once, in the parsed model","processor.check_enumerated"),("structs and enums are packed","CFSGenerator, Generator._convert_enumerated_to_c")],
observe=["packets on the simulated link","values decoded by the simulated ground station"])

prop("C12","Messages are identified by the header values declared in the model",
"For every message definition that fixes its primary CCSDS header, the generated message ID is the first 16 bits (version, type, secondary header flag, application id) a packet of that message has on the link, and the ground station using the generated COSMOS file recognises a received packet as exactly the messages whose declared fixed values it carries. Other fixed values appear as constants with the declared value (unless a definition fixes two components of one name differently); no field the model leaves open is used for identification.",
["inputs","histories","fault_sequences"],
"every set of messages with distinct headers in one or several modules, every interleaving, loss, duplication and header corruption of their packets on the link",
"The tests compare the ids of a handful of messages with expected text; no packet is ever built or identified.",
[G+"cfs/generator.py",G+"cosmos/generator.py",G+"cosmos/templates.py","asn1_parser/asn1/processor.py","asn1_parser/c_printer.py"],
[("message id computed from the declared components","CFSGenerator._ccsds_primary_header_to_msg_id"),("declared values become ID items","COSMOSGenerator._create_telemetry_item_data, cosmos_telemetry")],
observe=["message ids","packets routed by the simulated ground station"])

prop("C13","Stored data read by flight code has the values declared in the model",
"Reading a binary file produced by generate-binary into the struct of the generated header, on a target of the chosen byte order, yields for every declared component exactly the declared value; so does the variable defined by the C source produced by generate-c. The headers and sources compile, and this holds for data files and sources found in the output directory after any history of edits and interrupted or failed runs that ends with a successful one.",
["inputs","histories","configurations","fault_sequences"],
"every stored-data model (byte-sized integers and reals, nested sequences) that fixes values in WITH COMPONENTS of its top-level sequences, both byte orders, every history of regeneration with kills in between",
"The tests compare one binary file per byte order; no generated header or source is compiled.",
[G+"binary/generator.py",G+"c/generator.py",G+"generator.py","asn1_parser/c_printer.py","asn1_parser/c_data.py","asn1_parser/utils/size.py"],
[("format and size of a value derive from the declared type","BinaryGenerator.FORMAT, utils.size"),("designated initialisers follow the declared nesting","CGenerator._process_with_components")],
observe=["values read by compiled flight code"])

prop("C14","What is generated for a module depends on it and its imports only",
"For every module of a project, the headers, sources and data files generated for it (and, for generate-cosmos, its packet definitions) are exactly those generated from the module and the modules it imports, directly or indirectly, alone. Adding, removing or editing any other module, including ones that import it or whose type names resemble its own, changes none of them and does not make the run fail, whatever runs on such projects succeeded, failed or were killed before in the same output directory. (The notes in C headers that list which modules use a simple type speak about the whole project and are excepted.)",
["inputs","histories","fault_sequences"],
"every project, every module of it, every history of other modules coming, going and changing, with interrupted and failed runs in between",
"The tests generate fixed projects as a whole and never compare the artefacts of a module between two projects.",
["asn1_parser/asn1/asn1_bundle_builder.py","asn1_parser/c_data.py",G+"cfs/generator.py",G+"c/generator.py",G+"binary/generator.py",G+"cosmos/generator.py",G+"generator.py"],
[("definitions are looked up in a module and its imports","COSMOSGenerator._get_definitions_recurs, BinaryGenerator, CFSGenerator"),("accumulators are created per module","CData.create_empty")],
observe=["artefacts of one module in different projects"])

prop("N01","The accepted language is exactly the documented ASN.1 subset",
"Every text that follows the documented subset of ASN.1 is accepted, and every other text is rejected with a syntax error naming the position.",
["inputs"],"every input text","The tests sample the grammar.",
["asn1_parser/asn1/grammar.py"],[("textX grammar","grammar.GRAMMAR")])
prop("N02","Documentation in the model is carried into the C headers",
"Module, import, type and field comments of the model appear at the corresponding place of the generated headers, unchanged.",
["inputs"],"every model with comments","The tests compare a few expected files.",
[G+"generator.py","asn1_parser/c_printer.py"],[("comments are attached to the element they follow","grammar.Asn1Comment, Generator")])
prop("N03","A CHOICE becomes a C union of its alternatives",
"For every CHOICE the generated C contains a union with one member per alternative, of the C type of that alternative.",
["inputs"],"every CHOICE definition","The tests compare a few expected files.",
[G+"generator.py"],[("conversion of CHOICE","Generator._convert_choice_to_c")])
open('/verif/properties.jsonl','w').write("".join(json.dumps(p)+"\n" for p in P))
print(len(P))
