"""Writes properties.jsonl and MANIFEST.json from the table below and the obligations registered in rules/.

Run by hand after changing either; the checks themselves do not use this file.
"""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

from sa.driver import load_rules  # noqa: E402

V = "variantlib/"
VAR, VI, PRO = V + "models/variant.py", V + "models/variant_info.py", V + "models/provider.py"
CON, VJ, DI, PY = V + "constants.py", V + "variants_json.py", V + "variant_dist_info.py", V + "pyproject_toml.py"
LO, SU = V + "plugins/loader.py", V + "plugins/_subprocess.py"
API, FI, SO, LIB = V + "api.py", V + "resolver/filtering.py", V + "resolver/sorting.py", V + "resolver/lib.py"
UT, CFG, CM = V + "utils.py", V + "configuration.py", V + "models/configuration.py"
KT, VB, VC = V + "validators/keytracking.py", V + "validators/base.py", V + "validators/combining.py"
MK, UM = V + "commands/make_variant.py", V + "commands/unmake_variant.py"
AW, GI, AN = V + "commands/add_wheel_to_index_json.py", V + "commands/generate_index_json.py", V + "commands/analyze_wheel.py"
MAIN, UP = V + "commands/main.py", V + "commands/update_pyproject_toml.py"

# id: (title, statement, over, quantifier text, why tests cannot settle it, files, [(mechanism, where)])
P = {
 "C01": ("Variant hash is a canonical function of the property set",
  "The hash of a variant is the first 8 hex digits of the SHA-256 of its properties' text forms, each followed by a newline, in "
  "sorted order. It depends only on the set of properties, never on the order or the container they were given in.",
  ["inputs"], "all lists of valid properties, in any order",
  "The tests compare a few dozen hashes; separators, ordering and encoding matter for every combination of names.",
  [VAR], [("sorted properties at construction", VAR + ": VariantDescription.__post_init__"), ("digest", VAR + ": VariantDescription.hexdigest")]),
 "C02": ("Identifier grammar is enforced on every construction",
  "No feature, property or description object exists whose namespace or feature name is not a full match of [a-z0-9_]+, whose value is "
  "not a full match of [a-z0-9_.]+, or whose fields have the wrong type; every construction path raises a validation error instead.",
  ["inputs"], "all field values of all types, through every constructor",
  "Tests try a handful of malformed strings; the grammar must hold for every string, including trailing newlines and non-ASCII letters.",
  [VAR, CON, VB, V + "models/base.py"], [("field validators", VAR + ": VariantFeature, VariantProperty, VariantDescription"), ("validator calls", V + "models/base.py: BaseModel.__post_init__"), ("regexes", CON)]),
 "C03": ("Descriptions and provider configurations hold no duplicates or gaps",
  "A variant description never holds the same property twice; a provider's feature configuration always has a name, a multi-value flag and a non-empty list of distinct, "
  "well-formed values; and a provider configuration always has a non-empty list of features with distinct names. Anything else is "
  "refused with a validation error.",
  ["inputs"], "all lists given to the constructors",
  "Tests use one duplicate per class; every position, length and value must be covered.",
  [VAR, PRO, VB], [("validators", PRO + ": VariantFeatureConfig, ProviderConfig"), ("uniqueness and length", VB + ": validate_list_all_unique, validate_list_min_len")]),
 "C04": ("Text form and parser of features and properties are inverse and strict",
  "Parsing the text form of a feature or property gives back an equal object. The parser accepts exactly two (three) identifiers separated by "
  "'::' with optional white space around, assigns each to its own field, and refuses everything else with a validation error.",
  ["inputs"], "all strings and all objects",
  "Tests parse some examples; inversion and strictness quantify over all strings.",
  [VAR, CON], [("text forms and parsers", VAR + ": to_str, from_str"), ("regexes", CON + ": VALIDATION_FEATURE_REGEX, VALIDATION_PROPERTY_REGEX")]),
 "C05": ("Variant labels: null reserved, grammar and default",
  "The label of the null variant is always 'null' and no other variant may use it; a custom label must be 1 to 16 characters of [0-9a-z._]; without "
  "a custom label a non-null variant's label is its hash. Any other request is refused with a validation error.",
  ["inputs"], "all descriptions and all label strings",
  "Tests try a few labels; boundary lengths and characters are quantified over all strings.",
  [API, CON], [("label choice", API + ": get_variant_label"), ("regex", CON + ": VALIDATION_VARIANT_LABEL_REGEX")]),
 "C06": ("Wheel file names split unambiguously into base name and label",
  "A wheel file name is recognised exactly when it has the shape name-version[-build]-python-abi-platform[-label].whl with a build tag that starts "
  "with a digit and a label of 1 to 16 characters of [0-9a-z._]. The parts recovered from a recognised name are the ones it is made of.",
  ["inputs"], "all file names",
  "Tests use fixed names; the ambiguity between build tag, platform and label depends on every part.",
  [CON], [("regex", CON + ": VALIDATION_WHEEL_NAME_REGEX")]),
 "C07": ("Metadata documents: every leaf is checked, unknown keys are refused",
  "When variant metadata is read from a project file, an index file or a wheel, every key of the tables it defines has its type checked, every namespace, feature name, "
  "value, label, requirement, plugin reference and marker must match its grammar in full, unknown keys inside those tables are refused, and what is stored equals "
  "what the document says. A violation raises a validation error.",
  ["inputs"], "all documents", "Tests mutate a few keys of one or two sample documents; each leaf and each combination needs checking.",
  [VI, KT, PY, VJ], [("common tables", VI + ": VariantInfo._process_common"), ("key tracking", KT + ": KeyTrackingValidator"), ("variants table", VJ + ": VariantsJson._process")]),
 "C08": ("Metadata documents: cross-section consistency",
  "A metadata document is accepted only if the prioritised namespaces are exactly the declared providers, install-time providers have requirements, the namespaces with static properties are "
  "exactly the build-time providers (in a project file: those of them without requirements), features of a multi-feature static table all have priorities, the null variant and only it is labelled 'null', and a wheel's "
  "document has exactly one variant carrying the label of its file name.",
  ["inputs"], "all documents", "Tests show one failing document per rule; each rule relates several tables of any size.",
  [VI, VJ, DI, PY], [("cross checks", VI + ": VariantInfo._process_common, ProviderInfo.__post_init__"), ("variants and label", VJ + ": VariantsJson._process"), ("single variant", DI + ": VariantDistInfo.__init__")]),
 "C09": ("Writer and reader of variant metadata agree",
  "Writing variant metadata puts every table and every field of every provider under the key, and with the polarity, that reading uses; a field is omitted only where "
  "the reader's default restores the same value. The property tables of a variant round-trip, grouped by namespace and feature, without losing or reordering values.",
  ["inputs"], "all metadata objects", "Tests round-trip a few objects; each optional field has to be considered in each state.",
  [VJ, VI, VAR], [("writer", VJ + ": VariantsJson.to_str, providers_dict, _provider_info_to_json, _priorities_to_json"), ("reader", VI + ": VariantInfo._process_common"), ("variant tables", VAR + ": VariantDescription.to_dict, from_dict")]),
 "C10": ("Converting metadata copies everything and shares nothing",
  "Converting one kind of variant metadata into another yields the same priorities, providers and static properties, with no variants, and in "
  "objects of its own: no list, table or provider entry is shared with the source.",
  ["inputs", "histories"], "all metadata objects, and all later mutations of either copy", "Tests mutate a few fields of one sample; every nested container must be distinct.",
  [VI, VJ, DI, PY], [("copy", VI + ": VariantInfo.copy_as_kwargs"), ("conversions", VJ + ": VariantsJson.__init__")]),
 "C11": ("Merging metadata is all-or-nothing and only for consistent wheels",
  "Merging a wheel's metadata into an index is refused with a validation error if any priority, provider field or static property differs or a label is reused for different "
  "properties. A refused merge adds no variant; an accepted one adds exactly the wheel's variants.",
  ["inputs", "histories"], "all pairs of metadata objects, all sequences of merges", "Tests merge a few hand-made pairs.",
  [VJ], [("merge", VJ + ": VariantsJson.merge")]),
 "C12": ("Index commands take exactly the variant wheels' metadata",
  "The index written for a project name and version contains the metadata of exactly those wheels of that name and version whose file name carries a label and whose own metadata is readable and "
  "agrees with that label, and whose metadata can be merged. Adding a wheel to an index never overwrites an existing output unless asked to, and refuses anything that is not a variant wheel.",
  ["inputs", "configurations"], "all directories of wheels and all command lines", "Tests index two or three sample directories.",
  [GI, AW, AN], [("index", GI + ": generate_index_json"), ("incremental", AW + ": add_wheel_to_index_json"), ("analysis", AN + ": analyze_wheel")]),
 "C13": ("Plugins are only ever run in a separate interpreter",
  "Plugin code is never imported into the library's own process: it is loaded and queried only by a child started from the chosen interpreter, which gets its commands on standard input and "
  "answers on standard output. The temporary files of that child are removed and the loader is left when its context ends, also after a failed load.",
  ["inputs", "fault_sequences"], "all loaders and all plugin failures", "Tests load well-behaved sample plugins.",
  [LO, SU], [("child process", LO + ": BasePluginLoader._call_subprocess"), ("enter and exit", LO + ": BasePluginLoader.__enter__, __exit__"), ("child", SU)]),
 "C14": ("Which providers are queried follows from the metadata and the options",
  "A provider is loaded exactly if its namespace is among the requested ones, its environment marker holds, it is not an optional provider that was not enabled, and it "
  "is an install-time provider or build-time providers are being included. No other provider is loaded, and the requirements of no other provider are asked for.",
  ["inputs", "configurations"], "all metadata objects, environments and options", "The combination of four flags and markers is sampled by a few tests.",
  [LO, VI], [("gating", LO + ": PluginLoader._load_all_plugins, _optional_provider_enabled, _provider_marker_applies"), ("requirements", VI + ": VariantInfo.get_provider_requires")]),
 "C15": ("Plugin failures and malformed answers are never silent",
  "A plugin that cannot be loaded, is missing a required attribute, raises, returns the wrong type, an empty list or duplicate features, or shares its namespace with another plugin, makes the request "
  "fail with an error; it is never treated as a plugin without configurations.",
  ["inputs", "fault_sequences"], "all plugin behaviours", "Tests contain a dozen misbehaving sample plugins.",
  [LO, SU], [("child checks", SU + ": load_plugins, process_configs"), ("parent checks", LO + ": BasePluginLoader._load_all_plugins_from_tuple, get_all_configs, get_supported_configs")]),
 "C16": ("Cached plugin answers are only reused for the same question",
  "A cached plugin answer is reused only for a request with the same command, the same parameters, the same plugins and the same interpreter; any other request "
  "queries the plugins again, and a failed request leaves no cached answer behind.",
  ["inputs", "histories"], "all sequences of plugin queries", "Tests query the same loader twice.",
  [LO, V + "cache.py"], [("cache key", LO + ": BasePluginLoader._get_configs"), ("cache", V + "cache.py")]),
 "C17": ("Plugin child and parent agree on the protocol",
  "Every command, field and value that one side of the plugin process boundary writes is what the other side reads: plugins are keyed by the reference they were requested with, "
  "configurations by the plugin's namespace, and name, multi-value flag, values and build-time flag arrive unchanged.",
  ["inputs"], "all plugins and requests", "Tests exercise a few sample plugins.",
  [LO, SU, PRO], [("parent", LO + ": BasePluginLoader._get_configs, _load_all_plugins_from_tuple"), ("child", SU + ": main")]),
 "C18": ("A variant is supported exactly when each of its features is",
  "Filtering by supported properties keeps a variant exactly if, for every feature it uses, at least one of its values for that feature is among the allowed properties and not among the forbidden ones. The variants kept stay in their order.",
  ["inputs"], "all lists of variants and properties", "Tests sample some sets; multi-value features and mixed namespaces need every combination.",
  [FI], [("filter", FI + ": filter_variants_by_property")]),
 "C19": ("Forbidden namespaces, features and duplicates are removed exactly",
  "A variant is removed exactly if it repeats an earlier variant of the list, uses a forbidden namespace, or uses a forbidden feature; the other variants are kept once, in order. "
  "Each given restriction is applied and an absent one has no effect.",
  ["inputs", "configurations"], "all lists and restrictions", "Tests use a few fixed variants.",
  [FI, LIB], [("filters", FI + ": remove_duplicates, filter_variants_by_namespaces, filter_variants_by_features"), ("pipeline", LIB + ": filter_variants")]),
 "C20": ("The null variant is always available and ranks last",
  "The result of resolving variants always contains the null variant exactly once, whatever the supported properties and restrictions, and every other supported variant ranks before it.",
  ["inputs", "configurations"], "all lists of variants, priorities and restrictions", "Tests look at samples that mostly contain several variants.",
  [LIB, SO, FI], [("injection", LIB + ": sort_and_filter_supported_variants"), ("ranking", SO + ": sort_variants_descriptions")]),
 "C21": ("Variants are ranked lexicographically by their best properties",
  "Properties are ordered by namespace rank, then feature rank, then value rank, each rank being the position in its priority list, and those without a rank come last, in the order given; a property of a namespace without a priority is refused. "
  "Variants are compared feature by feature in that order, by the best position any of their values has; having a feature beats not having it, and equal variants keep their order.",
  ["inputs"], "all lists and priorities", "Tests sort fixed samples and permutations of them.",
  [SO], [("ranks", SO + ": get_property_priorities, get_feature_priorities, get_namespace_priorities"), ("sorts", SO + ": sort_variant_properties, sort_variants_descriptions")]),
 "C22": ("Resolving never modifies the caller's lists and tables",
  "Filtering, sorting, aggregating and resolving leave every list, table and metadata object that they were given exactly as it was; results never share a container with an argument that a later step would modify.",
  ["inputs", "histories"], "all arguments and repeated calls with the same arguments", "Tests call each function once with fresh arguments.",
  [LIB, SO, FI, UT, API], [("copies", LIB + ": sort_and_filter_supported_variants"), ("aggregation", UT + ": aggregate_feature_priorities, aggregate_property_priorities")]),
 "C23": ("User priorities come before the defaults, entry by entry",
  "Aggregated namespace, feature and value priorities list the first source's entries first, then each later source's entries that are not already there, in order, "
  "per namespace and per feature; an absent source has no effect, nothing else is in them, and a later source never repeats or moves an entry of an earlier one.",
  ["inputs", "configurations"], "all lists of sources", "Tests merge small fixed dictionaries.",
  [UT], [("aggregation", UT + ": aggregate_namespace_priorities, aggregate_feature_priorities, aggregate_property_priorities")]),
 "C24": ("Resolution and the supported check use all of the inputs",
  "Resolving the variants of an index uses the index's own providers, the user's configuration before the index's defaults, every restriction in its own role, and returns the labels of the "
  "resolved variants in order. Checking one variant for support uses the same supported properties, including ABI dependencies.",
  ["inputs", "configurations"], "all indexes, configurations and restrictions", "Tests resolve some sample indexes with mocked plugins.",
  [API], [("resolution", API + ": get_variants_by_priority"), ("support check", API + ": check_variant_supported")]),
 "C25": ("Validation verdicts: valid, invalid, unknown",
  "A property is valid if its value is among its provider's values for that feature, invalid if the provider is known but the feature or value is not, and unknown if the namespace is not known; several values of a single-value feature are a violation. "
  "A variant is accepted only without violations, without invalid properties and, where asked for, without unknown ones.",
  ["inputs"], "all variants and provider configurations", "Tests validate a few variants against sample plugins.",
  [API, VAR], [("validation", API + ": validate_variant"), ("verdict", VAR + ": VariantValidationResult")]),
 "C26": ("Build-time providers are expanded into the wheel's metadata",
  "The metadata of a built wheel has every build-time provider among the used namespaces, and only those, listed with its supported values and in its order as static properties, with feature priorities covering all of its features and those already given first; "
  "providers of unused namespaces are dropped from every table.",
  ["inputs", "configurations"], "all project metadata, variants and provider configurations", "Tests build one sample project.",
  [API, MK], [("metadata of a wheel", API + ": make_variant_dist_info")]),
 "C27": ("Building a variant wheel writes nothing before all validation passed",
  "No output file is opened until the input wheel, the label, the properties and (unless skipped) the plugins' verdict on them are accepted; a file without a wheel's name, an invalid property, an unknown property of a non-null "
  "variant, a violated single-value feature, and an output that would overwrite the input are refused.",
  ["inputs", "configurations", "fault_sequences"], "all wheels, command lines and plugin verdicts", "Tests build some wheels and try a few bad inputs.",
  [MK], [("build", MK + ": make_variant, _make_variant")]),
 "C28": ("A built variant wheel contains the input plus one recorded metadata file",
  "The built wheel contains every entry of the input wheel unchanged except a previous variant metadata file and RECORD, which keeps its entries except a previous one of the metadata file, and has one new entry with the path, SHA-256 and size of the metadata file added; that file "
  "is stored in the wheel's own dist-info directory. The output is named after the input's base name with the new label added.",
  ["inputs"], "all wheels", "Tests build one or two small wheels.",
  [MK, UM], [("build", MK + ": _make_variant")]),
 "C29": ("Turning a variant wheel back removes exactly what was added",
  "The wheel made from a variant wheel contains every entry of it except the variant metadata of its dist-info directory, and its RECORD is the same except that the row of that file is gone. It is named without the label; a wheel that is not a "
  "variant produces no output.",
  ["inputs"], "all wheels", "Tests convert one or two small wheels.",
  [UM], [("conversion", UM + ": _unmake_variant")]),
 "C30": ("Configuration: first existing file wins, and it is read strictly",
  "The configuration comes from the first existing file in the order working directory, virtual environment, user, global, and is empty when there is none; each kind of priority is taken from its own key. Unknown keys, "
  "missing required keys, wrong types and malformed namespace names are refused.",
  ["inputs", "configurations"], "all sets of existing files and all their contents", "Tests mock one file at a time.",
  [CFG, CM], [("search order", CFG + ": ConfigEnvironments, get_configuration_files, VariantConfiguration"), ("model", CM + ": VariantConfiguration")]),
 "C31": ("Equal inputs give equal results, independent of hash and directory order",
  "No result, file or order of the library depends on the iteration order of a set, on the order in which a directory is listed, or on object identities; the same inputs give the same "
  "outputs in every process.",
  ["inputs", "schedules"], "all inputs, all hash seeds and directory orders", "Tests run with one order, and compare to one expectation.",
  [GI, VJ, API, LIB, LO, MK], [("sorted directory listing", GI), ("sorted keys", VJ + ": VariantsJson.to_str")]),
 "C32": ("The marker environment describes exactly the variant at hand",
  "The environment made for evaluating a dependency's markers holds the label, the set of namespaces, the set of features and the set of properties of the variant, in text form, each under its own name, and is "
  "empty of all of them for a non-variant.",
  ["inputs"], "all variants and labels", "Tests compare it for one variant.",
  [API], [("environment", API + ": get_variant_environment_dict")]),
 "C33": ("Every documented command dispatches to its own function",
  "Each command name of the command line tool leads to the function that implements it, with the remaining arguments passed on unchanged, and each function accepts the arguments it is called with. Listing commands offer exactly the registered ones.",
  ["inputs", "configurations"], "all command lines", "Tests call the functions directly, or main with a few commands.",
  [MAIN, V + "commands/utils.py", V + "commands/plugins/main.py", V + "commands/config/main.py"], [("dispatch", MAIN + ": main"), ("registry", "pyproject.toml: [project.entry-points]")]),
 "C34": ("Installed packages appear as ABI dependency properties",
  "Each installed package, or override given in the environment, contributes exactly its major, major.minor and major.minor.micro version under its normalised name to the supported properties, overrides win, malformed overrides are ignored, "
  "and the ABI dependency namespace ranks last.",
  ["inputs", "configurations"], "all sets of installed packages and overrides", "Tests inject some fixed packages.",
  [LIB], [("injection", LIB + ": inject_abi_dependency")]),
 "C35": ("Updating a project file keeps its tables in step",
  "Deleting a namespace removes all of its occurrences in the namespace priorities and its provider table; adding one appends it to the priorities if absent and sets its plugin reference, in the form the reader of metadata accepts, and the requirement of the distribution that provides the plugin, leaving requirements that are already there. Nothing else "
  "in the file changes (missing variant tables are created), and nothing is written if a namespace is unknown or there is nothing to do.",
  ["inputs", "configurations"], "all project files and command lines", "Tests update a few sample files.",
  [UP], [("update", UP + ": update_pyproject_toml")]),
 "C36": ("Reporting commands show exactly what was asked for",
  "The reporting commands print what they name and nothing else of its kind: the hash of the given properties, the properties of the analysed wheel's own variant metadata, the configuration paths or the active (or named) "
  "configuration with every table, the loaded plugins, and the all-or-supported configurations filtered by namespace and feature. They write to no file.",
  ["inputs", "configurations"], "all inputs, configurations and plugins", "Tests compare the output for one or two samples.",
  [V + "commands/get_variant_hash.py", AN, V + "commands/analyze_platform.py", V + "commands/config/show.py", V + "commands/config/list_paths.py", V + "commands/plugins/get_configs.py",
   V + "commands/plugins/list_plugins.py"], [("configuration", V + "commands/config/show.py: show"), ("plugin configurations", V + "commands/plugins/get_configs.py: get_configs"), ("wheel", AN + ": analyze_wheel")]),
 "C37": ("An omitted optional argument means its documented default",
  "Leaving out an optional argument of a public function is the same as giving its documented default: no optional providers, no restriction, no priorities, no custom label, no requested "
  "namespaces, unknown plugins tolerated, supported values not limited to fixed ones, build-time values expanded into the wheel, build-time providers asked for requirements but not loaded, and the current "
  "interpreter. A provider is an install-time, non-optional one without marker, reference and requirements unless said otherwise, and metadata objects start empty.",
  ["inputs", "configurations"], "all calls of the public functions with any subset of their optional arguments",
  "Tests mostly pass the arguments they are about; what happens without each of them, for every other argument, is not looked at.",
  [API, VI, LO, FI, LIB, SO], [("signatures", API), ("loaders", LO + ": PluginLoader.__init__"), ("resolving", LIB + ": sort_and_filter_supported_variants"), ("fields", VI + ": ProviderInfo, VariantInfo")]),
}

NA = {
 "N01": ("Different variants never share a hash",
  "Two different sets of properties never have the same variant hash.",
  ["inputs"], "all pairs of variants", "Tests compare a few hashes.", [VAR], [("digest", VAR + ": VariantDescription.hexdigest")],
  "The hash is 32 bits of SHA-256, so collisions exist; how likely they are is a property of the hash function, not of the code. C01 covers that the input of the digest is injective."),
 "N02": ("Output files are never left incomplete by a crash",
  "A crash while a wheel or an index is being written never leaves a partial file under its final name.",
  ["crash_points"], "all crash points of the writing commands", "Tests never interrupt a command.", [MK, UM, GI, AW], [("writes", MK + ": _make_variant")],
  "The code does not claim it: outputs are written in place under their final names, so the property does not hold by design and there is nothing to check statically (C27 covers that nothing is opened before validation)."),
 "N03": ("Plugins answer truthfully",
  "What a plugin reports as supported is supported by the machine, and a build-time plugin answers the same on every machine.",
  ["inputs", "histories"], "all plugins and machines", "Tests use sample plugins.", [SU], [("query", SU + ": process_configs")],
  "Plugins are third-party code outside this repository; no source of theirs is here to be analysed."),
 "N04": ("Environment markers are evaluated per PEP 508",
  "A provider's environment marker is true exactly when PEP 508 says so for the interpreter at hand.",
  ["inputs", "configurations"], "all markers and environments", "Tests use a few markers.", [LO], [("markers", LO + ": PluginLoader._provider_marker_applies")],
  "Evaluation is done by the packaging library and depends on the running interpreter; C14 covers that the marker's value is what decides."),
 "N05": ("Archive entries are byte-identical after the round trip",
  "The compressed bytes and archive headers of unchanged wheel entries are identical after building and un-building a variant.",
  ["inputs"], "all wheels", "Tests compare contents of one wheel.", [MK, UM], [("copy", MK + ": _make_variant")],
  "Compression and header encoding happen inside the standard library's zipfile at run time; C28 and C29 cover which entries are copied from where to where."),
 "N06": ("Using the library from several threads is safe",
  "Concurrent use of loaders and of the plugin answer cache from several threads gives the same results as sequential use.",
  ["schedules"], "all interleavings", "Tests are single-threaded.", [LO, V + "cache.py", CFG], [("cache", LO + ": BasePluginLoader._get_configs")],
  "The library has no threads and no locks and makes no claim about threads; there is no synchronisation discipline for a static analysis to check."),
}


NORMAL = "static analysis: value-graph normal forms of the current source compared with a specification"
TECHNIQUE = {
    "C06": NORMAL + "; regular expressions compared as automata",
    "C10": "static analysis: ownership dataflow (which containers a result shares with its source), and value-graph normal forms",
    "C13": "static analysis: import and call lint of the parent and child modules, constant evaluation of the child's source transformation, and value-graph normal forms",
    "C22": "static analysis: ownership and mutation dataflow through the call graph, and value-graph normal forms",
    "C31": "static analysis: order dataflow (set iteration, directory listing, identity hashes) to results and files",
    "C33": "static analysis: entry point table checked against the modules it names, and value-graph normal forms of the dispatchers",
    "C37": "static analysis: default terms of the signatures compared with the stated ones, through the value-graph normal form of the function where they differ",
}


def main():
    props = load_rules()
    with open(os.path.join(HERE, "properties.jsonl"), "w", encoding="utf8") as f:
        for pid, row in [*P.items(), *NA.items()]:
            title, stmt, over, text, why, files, mech = row[:7]
            assert len(title) <= 80, (pid, len(title))
            f.write(json.dumps({
                "id": pid, "title": title, "statement": stmt, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
                "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}) + "\n")
    checks, na = [], []
    for pid in P:
        if props.get(pid):
            checks.append({
                "property": pid, "quick_cmd": f"python3 run.py {pid}", "thorough_cmd": f"python3 run.py {pid} --tier thorough",
                "technique": TECHNIQUE.get(pid, NORMAL),
                "level": "other",
                "level_note": "Sound for the modelled subset of Python under the listed assumptions; a comparison the normaliser cannot settle and no "
                              "finite interpretation separates is reported as undecided, not as a violation. "
                              "Obligations: " + ", ".join(props[pid])})
        else:
            na.append({"property": pid, "reason": "No sound static argument built for it in this framework (yet)."})
    na += [{"property": p, "reason": r[7]} for p, r in NA.items()]
    m = {"version": 1, "setup_cmd": "python3 run.py --selftest", "checks": checks, "not_applicable": na,
         "notes": "Pure static analysis with the Python standard library only; /repo is parsed on every run and never executed. See DESIGN.md."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf8") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(checks), "claimed,", len(na), "not:", [x["property"] for x in na])


main()
