#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=(), state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=n, meaning=m) for n, m in state],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=list(observe), hook_needed=hook)))
CG = "scripts/ccpp_capgen.py"; SO = "scripts/suite_objects.py"; CS = "scripts/ccpp_suite.py"
HC = "scripts/host_cap.py"; MV = "scripts/metavar.py"; VP = "scripts/var_props.py"
MT = "scripts/metadata_table.py"; CO = "scripts/constituents.py"; DL = "scripts/ddt_library.py"
CP = "src/ccpp_constituent_prop_mod.F90"; HT = "src/ccpp_hash_table.F90"
ST = "scripts/mkstatic.py"; PB = "scripts/ccpp_prebuild.py"; MC = "scripts/mkcap.py"

prop("C01", "Capgen caps deliver each scheme argument the host datum of its standard name",
 "For every host model, scheme set and suite that capgen accepts, the generated caps compile, and at every scheme call each dummy argument is associated with the data the host (or the suite) holds under the argument's standard name, whatever local names, argument order, derived-type nesting or array-element references the host, suite and schemes use. Values a scheme writes to an out or inout argument are in the host's variable after the call and visible to every later scheme that asks for the standard name; host data not named by a scheme's out/inout argument are unchanged.",
 ["programs", "inputs", "configurations"], "all host/scheme/suite metadata combinations accepted by capgen and all host data values",
 "The repository's end-to-end tests run four fixed host/suite combinations; routing must hold for every combination of names, dimensions, DDT references and intents.",
 [CG, SO, CS, HC, MV, DL], [("call list construction", SO+": CallList.call_string, Scheme.analyze"), ("host variable matching", MV+": VarDictionary.find_variable, find_loop_dim_match"), ("DDT references", DL+": VarDDT.call_string"), ("host cap calls", HC+": write_host_cap")],
 ["per-scheme-call event log in generated executables"])
prop("C02", "Capgen runs exactly the suite's schemes, in suite order, once each per phase",
 "Calling a suite part in the run phase executes exactly the run entry points listed for that part in the suite definition file, in document order, each subcycle body repeated its loop count (constant or the host variable of that standard name) of times. Calling the register, initialize, timestep-initial, timestep-final or finalize phase executes that phase's entry point of every scheme in the suite exactly once, even when a scheme appears several times in the suite, and skips schemes without such an entry point. A call of an entry point whose arguments lack the vertical dimension of the variables they match is made once for each level, in order, on the data of that level.",
 ["programs", "configurations"], "all suite definition files over all scheme sets, including repeated schemes, multiple groups, subcycles and nested subcycles",
 "Tests contain no subcycle under capgen and each scheme at most a few fixed times; order and multiplicity must hold for every suite document.",
 [CS, SO, CG], [("suite XML to group tree", CS+": Suite.parse"), ("phase groups", CS+": Suite.analyze"), ("subcycle loop", SO+": Subcycle.write"), ("vertical loop", SO+": VerticalLoop.analyze, VerticalLoop.write")], ["per-scheme-call event log"])
prop("C03", "A capgen suite only runs a phase from its legal lifecycle state",
 "For any sequence of lifecycle calls (register, initialize, timestep-initial, run, timestep-final, finalize) over any set of suites, a call made in a state where it is not allowed returns a nonzero error code with a message, executes no scheme and leaves the suite's state unchanged. Every call made in its legal state executes and moves that suite (and no other) to the next state, so a suite can go through any number of time steps and can be initialized again after it was finalized.",
 ["histories"], "all call sequences over one or more suites in one executable",
 "The existing hosts call the phases once in the right order; illegal orders, several time steps with re-initialization and interleaved suites are histories no test samples.",
 ["scripts/state_machine.py", "scripts/ccpp_state_machine.py", CS, SO], [("state transitions table", "scripts/ccpp_state_machine.py"), ("state check code", SO+": Group.write, "+CS+": write_state_check")], ["error code and event log of each cap call"], [("suite state", "uninitialized, initialized or in_time_step per suite")])
prop("C04", "Scheme errors and unknown suite or part names reach the capgen host as errors",
 "If a scheme sets a nonzero error code, no later scheme of that call executes and the host's call returns that nonzero code and the scheme's message. A call naming a suite or suite part that does not exist returns a nonzero error code and a nonempty message and executes no scheme, while a call in which nothing fails returns error code zero.",
 ["fault_sequences", "programs"], "every scheme position, phase and invocation at which an error may be raised, and every unknown suite or part name",
 "Tests never make a scheme fail at run time; the guarantee quantifies over every failing position in every suite.",
 [SO, HC, CS], [("error guard around scheme calls", SO+": Scheme.write"), ("dispatch else-branch", HC+": write_host_cap"), ("error variables", SO+": Group.write")], ["error code and message returned by host cap, event log"])
prop("C05", "Capgen unit conversion is value preserving in both directions",
 "When a scheme's units differ from the host's (or from another scheme's for a suite-held variable) and a conversion is known, a scheme receives the physical quantity expressed in its own units and the value it writes is stored back expressed in the holder's units. Variables with equal units are passed unchanged, input-only variables are never modified in the host, and unit pairs without a known conversion are rejected when the caps are generated.",
 ["programs", "inputs"], "all supported unit pairs, intents, kinds, ranks and holders, and all values",
 "Existing tests exercise a couple of conversions for one host; the conversion must be right for every supported pair and argument shape.",
 ["scripts/conversion_tools/unit_conversion.py", VP, SO], [("conversion table", "scripts/conversion_tools/unit_conversion.py"), ("forward/reverse transform", VP+": VarCompatObj.forward_transform/reverse_transform"), ("transform emission", SO+": Scheme.match_variable / write_var_transform")], ["scheme-entry and post-call values in the event log"])
prop("C06", "Capgen kind and vertical-order conversions preserve the data",
 "When a scheme declares a different kind of a real, integer or logical variable or the opposite vertical ordering from the holder of a variable, it sees the same values in its own kind and ordering at every column and level, and what it writes is stored at the matching level of the holder, also when combined with a unit conversion. Variables that agree are passed without any reordering or loss of precision.",
 ["programs", "inputs"], "all combinations of kinds, vertical orderings, ranks, intents and units",
 "Only one flipped variable and one kind mismatch exist in the tests; combinations and ranks are unbounded.",
 [VP, SO], [("vertical flip", VP+": VarCompatObj.reverse_transform, _get_dim_transforms"), ("kind transform", VP+": VarCompatObj._get_kind_convstrs"), ("local copies", SO+": Scheme.add_var_transform")], ["scheme-entry and post-call values in the event log"])
prop("C07", "Capgen passes an optional argument as present exactly when it is active",
 "An optional scheme argument matching a host variable with an activity condition is present in the call exactly when the condition, evaluated on the host's current values, is true; when present it is associated with the right data and updates reach the host, and when absent the host's inactive storage is neither read nor written. A mandatory argument that would use conditionally active host storage is rejected, and arguments without a condition are always present.",
 ["programs", "inputs", "histories"], "all activity conditions, host values and changes of those values between calls",
 "Tests have a few fixed conditions evaluated with fixed host values.",
 [SO, MV, "scripts/parse_tools/fortran_conditional.py"], [("pointer association", SO+": Scheme.associate_optional_var, assign_pointer_to_var"), ("condition translation", MV+": Var.conditional")], ["present() and value events in instrumented schemes"])
prop("C08", "A capgen run-phase call confines schemes to the requested columns",
 "In the run phase a scheme argument dimensioned over the horizontal loop receives exactly the columns from the requested loop start to loop end, in order, and the extent the scheme is given equals their number, for every chunking of the horizontal domain; columns outside the request are never modified. In the other phases such arguments receive the complete horizontal dimension.",
 ["inputs", "programs"], "all loop bounds, chunk sequences, array lower bounds and ranks",
 "The tests use one fixed chunk size with two chunks.",
 [MV, SO, HC], [("horizontal dimension substitution", MV+": CCPP_HORIZONTAL_DIMENSIONS, VarLoopSubst"), ("host slice", HC+": write_host_cap; "+DL+", call_string")], ["sizes and values in event log; host arrays after each call"])
prop("C09", "Capgen rejects inconsistent inputs instead of generating caps for them",
 "If a scheme needs an input variable nobody provides, or a variable's type, kind, units, rank, dimensions or intent cannot be reconciled with its provider (including writing to a protected variable), or the suite definition file names an unknown scheme, repeats a group, or is malformed, then generation terminates with a diagnostic and a nonzero exit status. Inputs free of such conflicts are accepted.",
 ["programs", "configurations"], "all single and multiple metadata and suite-definition inconsistencies in any host/scheme/suite set",
 "Tests check a handful of hand-written error files.",
 [VP, MV, SO, CS, CG], [("compatibility test", VP+": VarCompatObj"), ("missing variable errors", SO+": SuiteObject.match_variable"), ("suite validation", CS+": Suite.parse; scripts/parse_tools/xml_tools.py: validate_xml_file")], ["generator exit status and output directory"])
prop("C10", "Variables passed between schemes live in the suite with the right lifetime",
 "A variable that no host provides and that one scheme of a suite produces and later ones consume keeps its values from the producing call to every later consuming call of the suite, also across groups and phases, with the extents the metadata declares, until the suite is finalized (or until the end of the time step for values a time-step phase produces). Such variables of different suites are separate and arrays are allocated when first needed and released by finalization, so that repeated initialize/finalize cycles work. An input variable that neither the host nor another scheme provides and that has a default value is received with that value.",
 ["programs", "histories"], "all producer/consumer placements over schemes, groups and phases and all legal lifecycles",
 "Tests contain two promoted variables and one lifecycle.",
 [CS, SO, MV], [("promotion of group variables to suite", CS+": Suite.analyze/find_variable"), ("allocation and deallocation", SO+": Group.write allocate/deallocate")], ["values received by consumers in the event log"])
prop("C11", "Regenerating caps gives the same tree as generating from scratch",
 "After any sequence of edits to the host, scheme or suite inputs, running a code generator into its existing output directory leaves every file it reports or generates with the same content a run into an empty directory gives. Files whose content would not change are not rewritten, and cleaning removes the generated files and nothing else.",
 ["histories", "configurations"], "all sequences of input edits and reruns",
 "No test reruns a generator on a populated output directory with changed inputs.",
 ["scripts/file_utils.py", CG, "scripts/ccpp_datafile.py"], [("stage and move modified files", "scripts/file_utils.py: move_modified_files"), ("datatable clean", CG+": clean_capgen")], ["output directory contents and modification times"])
prop("C12", "Code generation is deterministic",
 "Running a generator twice with the same inputs gives byte-identical generated files, independent of the hash seed of the interpreter, the working environment and the enumeration order of the file system. The order in which independent host files are listed does not change what the schemes receive.",
 ["configurations", "schedules"], "all inputs and all hash seeds, directory orders and locations of the output directory",
 "The test suite fixes a single hash seed and never compares two runs.",
 [SO, DL, CS, HC, ST, PB], [("sorting of sets before output", SO+": Group.write; "+DL+": write_ddt_use_statements; "+ST)], ["byte comparison of generated trees"])
prop("C13", "The datatable written by capgen reports the truth about the generated build",
 "Every report obtainable from the datatable agrees with the generation it describes: the file lists name exactly the files that were generated or are needed, the capgen, suite, process, module and dependency lists match the inputs, and the required, input and output variable lists of a suite match the host-provided variables its schemes read and write. Compiling the listed files yields an executable host.",
 ["programs", "configurations"], "all accepted inputs and all report options",
 "Tests compare the reports of a few fixed suites with stored lists.",
 ["scripts/ccpp_datafile.py", "scripts/ccpp_database_obj.py", CG], [("datatable generation", "scripts/ccpp_datafile.py: generate_ccpp_datatable"), ("reports", "scripts/ccpp_datafile.py: datatable_report")], ["report output versus model of inputs"])
prop("C14", "Generated suite introspection routines answer exactly",
 "At run time the generated query routines return exactly the generated suites, the parts of a suite, its schemes and its host-supplied variables, for every combination of the input, output and structure-element options: input lists hold what schemes read from the host (except for its protected variables), output lists what they write to it, each name once. Queries about unknown suites return an error.",
 ["programs", "inputs"], "all accepted suites and all option combinations",
 "The tests query fixed suites with a few of the option combinations.",
 [CS, HC], [("suite_variables routine", CS+": API.write_req_vars_sub"), ("lists", CS+": API.write_inspection_routines, write_suite_part_list_sub, write_suite_schemes_sub")], ["returned lists in generated executables"])
prop("C15", "Differences between a Fortran interface and its metadata are detected",
 "Whenever the argument list or module data in a Fortran source differ from its metadata in argument set, order, name, type, kind, rank, intent or optional attribute, capgen (and the offline checker) reports an error; source that agrees with its metadata is accepted, whatever its layout, case, continuation, comment or declaration style.",
 ["programs", "inputs"], "all interfaces, all single differences and all equivalent source layouts",
 "Unit tests have a few fixed mismatches and layouts.",
 [CG, "scripts/fortran_tools/parse_fortran.py", "scripts/fortran_tools/parse_fortran_file.py", "scripts/fortran_tools/offline_check_fortran_vs_metadata.py"], [("comparison", CG+": check_fortran_against_metadata, compare_fheader_to_mheader, dims_comp"), ("Fortran parsing", "scripts/fortran_tools/parse_fortran_file.py")], ["accept/reject verdict of the generator"])
prop("C16", "Host-level constituent interfaces agree with the declared constituents",
 "For every set of suites and host constituents, the generated registration interfaces yield exactly the union of the host's, the suites' declared and their run-time-registered constituents, each once, with the properties they were declared with, or an error when definitions conflict. Index queries, the constituent and advected arrays, gather and update, and the constituent arguments of schemes all refer to the same storage for the same standard name, and the interfaces can be torn down and set up again without invalid memory use.",
 ["programs", "histories", "inputs"], "all sets of declared constituents, host constituents and registration results over several suites",
 "The one advection test uses one suite with a fixed set of constituents.",
 [CO, HC, CP], [("constituent interface generation", CO+": ConstituentVarDict.write_host_routines, write_constituent_use_statements"), ("constituent object", CP)], ["values of the constituent API in generated executables; address sanitizer"])
prop("C17", "The constituents object maps names, indices, properties and data consistently",
 "For every sequence of instantiating, adding, locking, querying, copying and resetting, the constituent object gives every registered standard name one distinct index in 1..N with all advected constituents first, its data and properties are reached by that index, gathering and updating move the data of each field to and from the matching index, and incompatible duplicates and additions after locking are reported as errors, queries of unknown names are reported as an error or as having no index. After a reset the object and its properties behave as new, and no operation accesses invalid memory.",
 ["histories", "inputs"], "all operation sequences and constituent definitions, including zero constituents and reuse after reset",
 "Only exercised through one advection test with a fixed sequence.",
 [CP, HT, "src/ccpp_hashable.F90"], [("field table and lock", CP+": ccp_model_const_add_metadata, ccp_model_const_table_lock, ccp_model_const_data_lock"), ("property life cycle", CP+": ccp_instantiate, ccp_deallocate, ccp_model_const_reset")], ["results of each operation in a driver compared with a reference model; sanitizers"], [("table/data lock", "fields can only be added before the table is locked; data exists after the data is locked")])
prop("C18", "The hash table is a map from keys to the values stored under them",
 "After any sequence of initialize, add, look up, iterate and clear operations with any keys and table sizes, looking up a key yields exactly the value stored under it or reports that it is missing, adding a present key is reported, the number of values is the number of distinct stored keys, and an iteration visits each stored value exactly once and then ends, also for an empty table. No sequence accesses invalid memory, whatever the collisions.",
 ["histories", "inputs"], "all operation sequences, keys and table sizes, with and without collisions",
 "The hash table test stores and fetches about ten fixed keys.",
 [HT, "src/ccpp_hashable.F90"], [("buckets and chains", HT+": hash_table_add_hash_key, hash_table_table_value"), ("iterator", HT+": hash_iterator_initialize, hash_iterator_next_entry")], ["operation results compared with a reference map; bounds checks and sanitizers"])
prop("C19", "Debug checks catch mis-sized host data and never disturb correct runs",
 "With debug checks enabled, a generated cap reports an error before calling a scheme whose array argument does not have the size its metadata dimensions promise, for every argument the scheme uses. With correctly sized data the debug caps compile, raise no error and give the same results as the caps without debug checks.",
 ["inputs", "programs"], "all array arguments, dimension bounds, activity conditions and host sizes",
 "Tests run the debug caps only with correct sizes.",
 [SO, ST], [("size checks", SO+": Scheme.add_var_debug_check, write_var_debug_check; "+ST+": Group.write debug blocks")], ["error code of cap calls with wrong host extents; event log equality"])
prop("C20", "Metadata tables are parsed to exactly what they say, and faults are rejected",
 "Reading a metadata file yields every table and variable in it with exactly the property values written there (defaults where a property may be omitted), independent of spacing, blank lines, comments, case of keywords and property order. Files with unknown properties, invalid values, missing mandatory properties, duplicate variables or tables, or misplaced lines are rejected with an error that names the file.",
 ["inputs"], "all well-formed metadata files in all layouts and all single faults",
 "Unit tests use a fixed set of sample files.",
 [MT, MV, "scripts/parse_tools/parse_object.py", "scripts/parse_tools/parse_checkers.py"], [("table parser", MT+": MetadataTable, MetadataSection"), ("property checks", "scripts/parse_tools/parse_checkers.py")], ["parsed objects versus the generating model"])
prop("C21", "Fortran declarations are read the same however they are written",
 "For every scheme interface or module data section, the argument names, order, types, kinds, ranks, bounds, intents and attributes read from the source are those the Fortran standard assigns to it, independent of source form (free or fixed), layout, continuation lines, comments, string contents, case, attribute order, entity-specific dimensions and surrounding code.",
 ["inputs", "programs"], "all declarations in the supported subset of Fortran and all equivalent layouts",
 "Unit tests and doctests hold a few dozen fixed fragments.",
 ["scripts/fortran_tools/parse_fortran.py", "scripts/fortran_tools/parse_fortran_file.py"], [("statement assembly", "scripts/fortran_tools/parse_fortran_file.py: read_file, scan_free_line"), ("declarations", "scripts/fortran_tools/parse_fortran.py: parse_fortran_var_decl")], ["parsed variables versus the generating model"])
prop("C22", "Preprocessor conditionals in Fortran sources are resolved as cpp would",
 "For every nesting of preprocessor conditionals, definitions and undefinitions and every set of predefined macros, the lines of a Fortran source considered active are exactly those a C preprocessor keeps; unbalanced conditionals are errors.",
 ["inputs", "configurations"], "all conditional nestings and predefined macro sets",
 "Doctests hold a few single-level examples.",
 ["scripts/parse_tools/preprocess.py", "scripts/fortran_tools/parse_fortran_file.py"], [("conditional stack", "scripts/parse_tools/preprocess.py: PreprocStack, PreprocSection")], ["active lines versus cpp"])
prop("C23", "Generated lines never exceed the limit and keep their meaning when wrapped",
 "However long a statement, comment or string literal a generator emits, each line of the written file is within the line length the compiler accepts, and joining the continuation lines as Fortran does gives back the intended statement, including the contents of character literals.",
 ["inputs"], "all statements, indent levels, string contents and line lengths",
 "Unit tests compare two fixed files.",
 ["scripts/fortran_tools/fortran_write.py"], [("line breaking", "scripts/fortran_tools/fortran_write.py: FortranWriter.write, find_best_break, _in_quote")], ["written file re-joined and compiled"])
prop("C24", "Unit strings are compared and converted consistently",
 "Equivalent spellings of a unit are treated as equal, each supported conversion has an inverse such that converting forth and back gives the original value, and chains of conversions between units of one quantity agree with the direct conversion and with the physical definition of the units. A tendency is accepted exactly when its units are those of its state variable per second. Malformed unit strings are rejected.",
 ["inputs"], "all supported unit pairs and unit spellings",
 "Unit tests check single pairs, no inverses or cycles.",
 ["scripts/conversion_tools/unit_conversion.py", "scripts/parse_tools/parse_checkers.py", VP, ST], [("conversion functions", "scripts/conversion_tools/unit_conversion.py"), ("unit equality", VP+": VarCompatObj._get_unit_convstrs"), ("unit syntax", "scripts/parse_tools/parse_checkers.py: check_units")], ["conversion formulas evaluated numerically against an independent unit model"])
prop("C25", "Prebuild caps deliver each scheme argument the host datum of its standard name",
 "For every host model, scheme set and suites that prebuild accepts, the generated static interface and caps compile and each scheme argument is associated with the host variable of its standard name, through the registered derived-type instances, with updates visible to the host and later schemes and unrelated data unchanged. Run-phase calls on blocked data use the block the caller selects, and other stages process all blocks.",
 ["programs", "inputs", "configurations"], "all host/scheme/suite combinations accepted by prebuild, all block layouts and values",
 "Tests run four fixed suites with one or two variables each.",
 [PB, ST, MC, "scripts/metadata_parser.py"], [("argument resolution", ST+": Group.write"), ("metadata gathering", PB+": gather_variable_definitions, compare_metadata")], ["per-scheme-call event log"])
prop("C26", "Prebuild stages run a suite's schemes in order under the init protocol",
 "A stage call for a suite or group executes that stage's entry point of the listed schemes in suite order: in the run stage subcycle bodies are repeated their loop count, in the other stages every listed occurrence is called once. For each instance independently, a group must be initialized before its time-step or run stages are accepted, repeated initialization is a no-op and finalization re-enables initialization; violations, unknown suites or groups, and scheme errors return a nonzero code and a message and stop the call.",
 ["histories", "fault_sequences", "programs"], "all stage call sequences over several instances, groups and suites, with and without scheme errors",
 "Tests call each stage once in order for a single instance with no errors.",
 [ST, PB], [("initialized flags and error returns", ST+": Group.write, CCPP_SUITE caps and API templates")], ["return codes and event log"], [("initialized", "per suite group and instance flag")])
prop("C27", "Prebuild converts units and passes optional arguments faithfully",
 "When a scheme's units differ from the host's, it receives the quantity in its own units and its results are stored in the host's units; equal units pass the host data unchanged. An optional argument of a conditionally active host variable is present exactly when the condition holds at the call, and its updates then reach the host.",
 ["programs", "inputs", "histories"], "all supported unit pairs, intents, ranks, kinds, activity conditions and values",
 "Tests use two conversions and two optional variables.",
 [ST, MC, "scripts/conversion_tools/unit_conversion.py"], [("temporary variables", ST+": Group.write actions before/after"), ("conditional pointers", ST+": Group.write")], ["scheme-entry and post-call values"])
prop("C28", "Prebuild regeneration updates everything that changed and is deterministic",
 "Rerunning prebuild after any edit of the inputs leaves all generated caps, interfaces, makefile, cmake and shell snippets with the content a fresh run gives, leaves unchanged files untouched, and two runs over the same inputs give identical files whatever the hash seed or directory order. The snippets list exactly the type definition, scheme and cap files of the build.",
 ["histories", "configurations"], "all edit sequences, hash seeds and directory orders",
 "No test reruns prebuild or compares runs.",
 [PB, ST, MC, "scripts/common.py"], [("write-if-different", PB+": generate_*_makefile, "+ST+": write"), ("order of suites and schemes", PB)], ["byte comparison of generated trees"])
prop("C29", "Prebuild rejects inconsistent inputs with an error",
 "If a scheme in a suite requires a variable the host does not define, or its type, kind, rank or units cannot be reconciled with the host's, or it uses the horizontal dimension of the wrong stage, or files, schemes, suites or tables named in the configuration do not exist, prebuild exits nonzero with a diagnostic.",
 ["programs", "configurations"], "all single inconsistencies in configuration, metadata, sources and suite definition files",
 "Tests cover a few metadata errors.",
 [PB, "scripts/metadata_parser.py", MC, ST], [("comparison", PB+": compare_metadata; "+MC+": Var.compatible"), ("parsing", "scripts/metadata_parser.py")], ["exit status"])
prop("C30", "The variable tracker lists exactly the users of a variable, in call order",
 "For every suite and standard name, the tracker reports exactly the scheme entry points in the suite whose metadata use that standard name, with the right intent, per group and scheme by scheme in the order the suite calls them (subcycle repetitions included; entry points of one scheme in the order of its metadata file); for names no scheme uses it says so and offers only names that are in use and contain the request.",
 ["programs", "inputs"], "all suites, metadata sets and requested names",
 "One fixed suite is tested.",
 ["scripts/ccpp_track_variables.py"], [("call tree", "scripts/ccpp_track_variables.py: create_var_graph")], ["tracker output versus the generating model"])
prop("C31", "Converting Fortran to metadata yields metadata the generators accept",
 "For every Fortran source with marked argument tables, the metadata written from it contains each marked table once with the variables of the source in order, with their type, kind, rank, intent and optional attribute, and once its placeholders are filled in is accepted by the metadata reader and consistent with the source.",
 ["inputs", "programs"], "all supported interfaces, types and dimension styles",
 "No test runs the conversion tool on its output.",
 ["scripts/ccpp_fortran_to_metadata.py", MV, "scripts/fortran_tools/parse_fortran_file.py"], [("conversion", "scripts/ccpp_fortran_to_metadata.py: parse_fortran_files, write_metadata_file")], ["written metadata re-read and compared"])
prop("C32", "Documents made from metadata list exactly the variables as described",
 "The page metadata2html writes for a table has one row per variable in the order of the metadata, and each cell shows the attribute's text as written or its default. The HTML table of prebuild lists every host variable once with its attributes, source and full local name; its LaTeX table lists every variable that is provided by the host or requested by the suites' schemes, with the provider's attributes and exactly the scheme entry points that request it. Text with special characters does not break or change a document.",
 ["inputs", "programs", "configurations"], "all metadata tables, attribute texts, hosts, scheme pools and suites",
 "No test looks at a generated document.",
 ["scripts/metadata2html.py", "scripts/mkdoc.py", "scripts/metadata_table.py", "scripts/common.py"], [("pages", "scripts/metadata_table.py: MetadataSection.to_html"), ("tables", "scripts/mkdoc.py")], ["documents read back and compared with the metadata"])
prop("C33", "Threads may call the run phase of the caps at the same time",
 "The run phase of capgen and prebuild caps may be called by several threads at once, each for its own columns, chunk or block with its own error variables (prebuild: its own control structure): every call enters the schemes, passes the data, presence of optional arguments, unit conversions and errors and leaves the host variables as if the calls had been made one after the other, without any data race between the calls. Calling another phase of a capgen cap from inside an OpenMP parallel region is refused with an error and runs no scheme.",
 ["schedules", "histories", "programs"], "all interleavings of run-phase calls, suites, optional, converted and suite-held variables",
 "Tests of the repository run at most a fixed host with OpenMP off; no test can settle all interleavings.",
 [SO, ST, MC, MV], [("local variables and pointers of a suite part", SO+": Group.write, "+MV+": Var.write_def, write_ptr_def"), ("thread check", SO+": Group __thread_check"), ("prebuild suite part caps", ST+": Group.write, "+MC+": Var.print_def_local")], ["memory accesses of all threads", "per-thread event logs"], [("local pointers", "pointers to optional data, one set per call"), ("initialized", "flags read by all threads")])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
