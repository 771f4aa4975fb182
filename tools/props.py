#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one list below.

`python3 tools/props.py` in /verif; the two files are committed.
"""
import json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LIB, BLD, CM = "src/lib.rs", "src/builder.rs", "src/cm.rs"
FEAT, IDX, CMD, MCMD = "src/builder/features.rs", "src/builder/index.rs", "src/builder.rs", "src/cm/cmd.rs"

SIM = "The 74 tests look at about twenty fixed projects, mostly through snapshots; "
P = []


def prop(id, title, statement, over, quant, why, files, mech, technique, note):
    assert statement.count(". ") <= 2, (id, statement)
    assert len(title) <= 80, id
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files,
                  mech=[dict(name=n, where=w) for n, w in mech], technique=technique, note=note))


prop("C01", "The graph has exactly the crates the roots reach through what is active",
     "For every metadata document cargo can print and every builder configuration, the graph contains exactly the packages that can be reached from the root packages (that are not excluded) over dependency declarations that cargo resolved, that the kind, target and exclusion filters let pass, and that are not optional or are turned on by an enabled feature of the dependent; each of them once. "
     "If no root is left, building fails with the error that says there are no root crates, and in no other case.",
     ["inputs", "configurations"],
     "all metadata documents (package sources, renames, several versions of one name, several kinds or targets per dependency, optional dependencies, the four forms of feature entries, cycles through dev dependencies) and all builder configurations",
     SIM + "reachability, the feature fixed point and each filter interact, and only a search over generated dependency graphs meets the interactions.",
     [BLD, LIB, FEAT],
     [("Builder::build_with_metadata (work list over crates and features)", BLD + ": build_with_metadata"),
      ("DepTarget/renames resolution", BLD)],
     "property-based testing against a fixed-point reference model", "")

prop("C02", "Every package is either in the graph or reported as filtered, once",
     "For every document and configuration, each package of the document is either in the graph or handed to the filter callback, exactly once, with its data unchanged; exactly those in the graph are converted to the user's node type, and the id of a node is the id of its package. "
     "The crates come in the order of name, then version, then source, the first nodes of the graph are the crates and all others are features, and the workspace root is the document's. "
     "A graph with the user's own edge type, built without a callback, has the same links.",
     ["inputs", "configurations"], "all documents, configurations, node and edge types",
     SIM + "no test gives a callback and counts, none converts packages or edges to types of its own.",
     [BLD, LIB],
     [("split of packages into nodes and OnFilter::filtered", BLD + ": build_with_metadata, end"), ("Krates::krates, len, workspace_root", LIB)],
     "property-based testing: conservation invariant over generated documents", "")

prop("C03", "Links between crates carry just the declared kind, target and features",
     "For every document and configuration, there is a link from one crate of the graph to another for exactly those (kind, target condition) pairs under which the first has an active declaration, in its manifest, of the second; the link carries exactly the features that declaration asks for, with `default` among them only if the declaration wants default features and the dependency has that feature enabled by cargo. "
     "A crate's dependencies as navigated from its node are the same links, each once.",
     ["inputs", "configurations"], "all documents (one dependency declared several times, for different kinds, targets, versions, under different names) and configurations",
     SIM + "declarations that resemble each other (two versions, two kinds, two targets, renamed) only get mixed up in combinations that no project of the tests has.",
     [BLD, LIB],
     [("matching NodeDep/DepKindInfo with Package::dependencies", BLD + ": build_with_metadata"), ("Krates::get_deps", LIB), ("Edge::{Dep, DepFeature}", LIB)],
     "property-based testing against a reference model", "")

prop("C04", "A crate has exactly the features that the crates of the graph enable",
     "For every document and configuration, the enabled features of a root are those cargo resolved for it; those of any other crate of the graph are the least set that contains what active declarations of crates in the graph ask for (including `default`, where declared and resolved), what enabled features of those crates turn on in it, and what its own enabled features imply.",
     ["inputs", "configurations"], "all documents with any feature tables (chains, cycles, features named like dependencies, renamed dependencies, features of dependencies) and configurations",
     SIM + "the enabled set is a fixed point over the whole graph; tests pin it for a handful of projects.",
     [BLD, FEAT],
     [("feature work list", BLD + ": build_with_metadata"), ("get_enabled_features", LIB)],
     "property-based testing against a fixed-point reference model", "")

prop("C05", "Optional dependencies and weak features take effect exactly when they should",
     "For every document and configuration, an optional dependency is followed exactly if an enabled feature of the dependent asks for it (`dep:name`, `name/feature`, or the implicit feature of its name), whatever order features are discovered in, and a weak entry `name?/feature` never activates it. "
     "A strong or weak entry of an enabled feature turns on the named feature of every active dependency of that name, and of nothing else.",
     ["inputs", "configurations"], "all documents with optional dependencies (several kinds, targets or versions under one name) and all feature entries; all orders of discovery",
     SIM + "chained weak features have one test project; order of discovery, several declarations under one name and partial activation are met only by generation.",
     [BLD, FEAT],
     [("optional and weak handling in the work list", BLD + ": build_with_metadata"), ("ParsedFeature", FEAT)],
     "property-based testing against a fixed-point reference model", "")

prop("C06", "Ignoring a dependency kind equals never having had those dependencies",
     "For every document and set of ignored (kind, scope) pairs, the graph is the one of the document in which the dependencies of those kinds, of workspace members, of other packages or of all of them according to the scope, were never resolved; no ignored link is in it. "
     "The scopes add up (all is workspace plus non-workspace), and order and repetition do not matter.",
     ["inputs", "configurations"], "all documents and all lists of (kind, scope) pairs, on top of any other configuration",
     SIM + "tests/kind.rs tries each pair on one workspace.",
     [BLD], [("Builder::ignore_kind, scopes", BLD + ": ignore_kind"), ("kind filter", BLD + ": build_with_metadata")],
     "metamorphic property-based testing (cut documents) and a reference model", "")

prop("C07", "Target filters keep just the dependencies that can apply to a given target",
     "For every document and list of targets with target features, a dependency under a condition (a triple or a cfg() expression) is followed exactly if some target of the list satisfies it or the list is empty: a triple by equality, an expression by cargo's meaning of all, any, not and of the target's properties, with unknown targets and predicates that a target alone does not settle as documented. "
     "The graph is that of the document without the other dependencies; order and repetition of targets, and whether they are given in one call or several, do not matter, adding a target never removes a crate, and a target is shown as the triple it was given as.",
     ["inputs", "configurations"], "all triples and cfg() expressions (nested) and all lists of targets, known and unknown, with features",
     SIM + "tests/cfg.rs has two projects and a handful of expressions.",
     [BLD], [("Target, MdTarget, TargetFilter", BLD + ", " + LIB + ": MdTarget"), ("target filter", BLD + ": build_with_metadata")],
     "metamorphic property-based testing with an independent cfg evaluator and a reference model", "")

prop("C08", "Excluded packages, and what only they lead to, are not in the graph",
     "For every document and list of package specs, no package that matches one of them is in the graph, each is reported as filtered, and the graph is the one of the document in which nothing depends on those packages; an excluded root is no root, and if every root is excluded building fails with the error for no roots. "
     "Giving the specs in one call or several, in any order, makes no difference.",
     ["inputs", "configurations"], "all documents and lists of specs in every documented form",
     SIM + "tests/exclude.rs excludes two or three packages by name.",
     [BLD, "src/pkgspec.rs"], [("Builder::exclude", BLD + ": exclude"), ("PkgSpec::matches", "src/pkgspec.rs")],
     "metamorphic property-based testing (cut documents) and a reference model", "")

prop("C09", "The roots are those the workspace and the options call for",
     "For every document, with no paths given the roots are the root package, or, if there is none or the whole workspace is asked for, all members. "
     "With paths given they are exactly the members whose manifest or directory is named, however the path is written (directory or Cargo.toml, relative, with dots, through symbolic links), and all members if the one path is that of a virtual workspace itself. "
     "Only what these roots lead to is in the graph, and each root has the features cargo resolved for it.",
     ["inputs", "configurations"], "all workspaces (virtual or with a root package), all member subsets and spellings of their paths, on real file systems and with documents from elsewhere",
     SIM + "tests/workspace.rs has two workspaces with plainly written paths.",
     [BLD], [("Builder::workspace, include_workspace_crates", BLD), ("root selection", BLD + ": build_with_metadata, start")],
     "property-based testing with generated workspaces on disk and a reference model", "")

prop("C10", "Enabled features have nodes, and links only where the manifests have them",
     "For every document and configuration, each enabled feature that is in its package's feature table has a node, linked with its crate, with the features of that crate its entries name, and with the crate of the graph, or the feature of it, that a `dep:` or strong entry names. "
     "Every link that starts at a feature node comes from an entry of that feature, and there is no more than one node per feature of a crate.",
     ["inputs", "configurations"], "all documents with any feature tables, and configurations",
     SIM + "feature nodes are seen in a few snapshots.",
     [BLD, LIB], [("feature part of the graph", BLD + ": build_with_metadata, feature nodes")],
     "property-based testing: soundness and completeness of feature links against the manifests", "")

prop("C11", "Package ids of both of cargo's formats are taken apart correctly",
     "For every package name, version and source (registry, sparse registry, git with any reference, path), the id in cargo's opaque format and in its package id spec format is taken apart into just this name, version and source; the ids of one package in the two formats are taken apart into the same. "
     "An id is shown as the text it was given as, with an encoded git reference decoded.",
     ["inputs"], "all names, versions (pre-release and build metadata), sources and references, in both formats",
     "misc.rs parses five fixed ids.",
     [LIB], [("impl From<PackageId> for Kid", LIB), ("Kid::{name, version, source}", LIB)],
     "property-based testing: round trip from generated parts through both id formats", "")

prop("C12", "Equality, order and hashes of ids all follow (name, version, source)",
     "For any package ids, in either format, equality, all comparison operators and hashes agree with comparing the tuple of name, version and source: the order is total and transitive, equal ids have equal hashes and replace one another in maps and sets, and different ones do not.",
     ["inputs"], "all sets of ids of mixed formats",
     "No test compares or hashes ids of different formats.",
     [LIB], [("impl Ord, PartialOrd, Eq, PartialEq, Hash for Kid", LIB)],
     "property-based testing of algebraic laws over generated id sets", "")

prop("C13", "The graph does not depend on the id format or the order of the document",
     "For every document and configuration, writing its package ids in the other format, its packages, nodes and lists in another order, its paths as they are on Windows, or its text out and reading it again gives the same graph: the same crates in the same order, the same enabled features, feature nodes and links, and the same filtered packages. "
     "An id of either format finds the same node in both graphs.",
     ["inputs", "configurations"], "all documents and configurations, and all permutations of the document's lists",
     SIM + "one project is compared in both formats (pid-opaque.json, pid-stable.json), none in another order.",
     [BLD, LIB, CM], [("sorting, binary searches, id parsing", BLD + ", " + LIB)],
     "metamorphic property-based testing", "")

prop("C14", "Restrictions only ever take away, and the order of calls does not matter",
     "For every document and configuration, ignoring one more kind, excluding one more package, beginning to filter by target, or dropping one of several targets or paths never adds a crate, a link, a requested feature or an enabled feature to the graph. "
     "Builder calls in any order give an identical graph, calls made again or with nothing change nothing, and of several settings of `workspace` the last one counts.",
     ["inputs", "configurations", "histories"], "all documents, configurations, chains of further restrictions and orders of calls",
     SIM + "no test compares two configurations.",
     [BLD], [("filters in build_with_metadata, Builder methods", BLD)],
     "metamorphic property-based testing over sequences of builder calls", "")

prop("C15", "Package specs parse as documented and match by name, version and source",
     "Every spec in a documented form (name; name:version or name@version; url; url#name, url#version, url#name:version) parses to just the parts it is made of, a spec with a character that is in no name, a version that is none, nothing after `#`, `:` or `@`, or a url without path or package is refused with the error for invalid specs, no text at all makes parsing panic, and what is accepted means the same when written out again from its parts. "
     "A spec matches a package exactly if each part it gives equals the package's name, version or source url (without source kind, query and fragment).",
     ["inputs"], "all texts, and all packages",
     "pkgspec.rs has unit tests for about ten specs.",
     ["src/pkgspec.rs"], [("impl FromStr for PkgSpec", "src/pkgspec.rs"), ("PkgSpec::matches", "src/pkgspec.rs")],
     "property-based testing: round trip from parts, spoilt specs, random text, matching model", "")

prop("C16", "Every metadata document cargo prints is read, with nothing lost or changed",
     "For every document in cargo's metadata format (any fields, in any order, optional ones left out, unknown ones added, any text), reading it from text, bytes, a reader or a value gives a structure with exactly the document's data. "
     "A document in which a needed field is missing, doubled or of the wrong type is refused with an error, and no text at all makes reading panic.",
     ["inputs"], "all JSON texts",
     SIM + "the documents come from a few versions of cargo and are never malformed.",
     [CM, "src/cm/de.rs", "src/cm/cmd.rs"], [("deserialization of Metadata", "src/cm/de.rs"), ("MetadataCommand::parse", MCMD)],
     "property-based testing of a decoder: generated documents, single-point corruption, random mutation", "")

prop("C17", "Writing metadata gives back the document, under cargo's own names",
     "With the serialize feature, for every document that can be read, what is written is that document: each field that was there under the name cargo uses, once, with the same value. "
     "Reading it again gives an equal structure.",
     ["inputs"], "all metadata documents",
     "No test serializes.",
     ["src/cm/ser.rs", CM], [("impl Serialize", "src/cm/ser.rs")],
     "property-based testing: serialize/deserialize round trip", "")

prop("C18", "The cargo command asks for exactly what was configured",
     "For every sequence of calls on the two command builders, the command that is run has the configured program (or $CARGO, or `cargo`), `metadata --format-version 1`, and just the arguments, working directory and environment that the calls asked for, with features, default features, manifest path, lock options and other options each passed on once, in a form cargo reads, whatever order the calls came in and whatever the values contain. "
     "Setters that replace a value keep the last one, and ones that add keep all.",
     ["inputs", "histories"], "all sequences of builder calls with values of every kind",
     "misc.rs has no test of the command line; others run one or two fixed ones.",
     [BLD, MCMD], [("Cmd, impl From<Cmd> for MetadataCommand", BLD), ("MetadataCommand::cargo_command", MCMD)],
     "stateful property-based testing of a command builder against a model of cargo's argument parser", "")

prop("C19", "Running cargo yields its document or an error that says what went wrong",
     "Whatever cargo does, running it gives the document if it succeeds and prints one (found in the first line of standard output that starts with an opening brace), and otherwise the error for just that case: it cannot be started, it fails (with its standard error as text), its output or error output is no UTF-8, there is no JSON, or the JSON is unreadable. "
     "Cargo is run once, with the arguments, directory and environment of the command, however much it prints on either stream; building from a command gives the same graph as building from that document.",
     ["fault_sequences", "inputs"], "all exit codes, signals and outputs of the child process",
     "The tests run the real cargo only, which does not fail.",
     [MCMD, "src/cm/errors.rs", "src/errors.rs", BLD], [("MetadataCommand::exec", MCMD), ("Builder::build", BLD), ("Error conversions", "src/cm/errors.rs")],
     "fault injection with generated child process behaviour", "")

prop("C20", "Looking something up finds exactly what is in the graph",
     "For every graph and every package id, feature name, crate name, version requirement and index, the lookups by id, by id and feature, by name, and by name and requirement return exactly the matching nodes of the graph (the matches in node order, with the right node, id and data), the enabled features of a crate that is there, and nothing for what is not. "
     "The name and version of a node are those its own type gives. The workspace members returned are exactly the document's members in the graph, and indexing gives the crate of that node.",
     ["inputs", "configurations"], "all graphs and arguments, present or absent",
     SIM + "lookups use a few present crates.",
     [LIB], [("nid_for_kid, node_for_kid, get_node, get_enabled_features, workspace_members, search_matches, krates_by_name, Index", LIB)],
     "property-based testing against a linear-scan oracle", "")

prop("C21", "Direct dependencies and dependents are the crates linked with a crate",
     "For every graph and crate in it, the direct dependencies are exactly the crates that active declarations of the crate link it with (be the link to the crate or to features of it), and the direct dependents exactly the crates that are so linked with it, each once. "
     "The node and the edge reported with each are those of that crate and of such a link.",
     ["inputs", "configurations"], "all graphs and crates",
     SIM + "one test looks at the direct dependencies and dependents of one project.",
     [LIB], [("direct_dependencies, direct_dependents", LIB)],
     "property-based testing against a reference model", "")

prop("C22", "A manifest dependency is resolved to the package cargo chose for it",
     "For every graph, crate in it and index into the crate's dependency list, the resolved dependency is the package of the graph that cargo resolved exactly this declaration to, if the declaration is active and nothing filtered it or the package, and nothing otherwise. "
     "It is nothing as well for an index past the end and for a node that is no crate.",
     ["inputs", "configurations"], "all graphs, nodes and indices, with several versions, renames, kinds and targets for one name",
     SIM + "one test resolves the dependencies of one project.",
     [LIB, BLD], [("resolved_dependency", LIB), ("dep_mapping", BLD + ": build_with_metadata")],
     "property-based testing against a reference model", "")

prop("C23", "Filtering a finished graph by kind leaves what is reached without it",
     "For every graph whose roots are all its members and every dependency kind, the crates left when the kind is filtered out of the finished graph are those of a graph that was built with this kind ignored from the start, in node order, each once, as long as no feature of a removed crate had enabled anything elsewhere.",
     ["inputs", "configurations"], "all graphs and kinds",
     SIM + "one test filters one project.",
     [LIB], [("krates_filtered", LIB)],
     "differential property-based testing (filtering after against filtering while building)", "")

prop("C24", "Features lost from the document are restored from the index",
     "If an index is provided, then for every document whose crates.io packages lack some of their features, the index is asked once, for the names of all packages, and the graph and the packages are those of the complete document, taking lost features from just the index entry of that name and version, adding the features implied by optional dependencies that old entries leave out, keeping what the document has, and leaving packages of other sources alone. "
     "Names and versions that the index does not know change nothing.",
     ["inputs", "configurations"], "all documents, sets of lost features and indices",
     "The tests have one project for this, without a real index.",
     [IDX, BLD], [("CachingIndex", IDX), ("fix_features", BLD + ", " + IDX)],
     "metamorphic property-based testing (damaged document plus index against whole document)", "")

prop("C25", "Building never panics, and the same input always gives the same result",
     "For every consistent document and configuration, also without packages, without a resolution, with features lost from the packages, or with hundreds of crates in chains, fans or trees, building ends with a graph or with the documented error (no resolution, no roots), and never with a panic, an overflow of the stack, or not at all. "
     "Building twice gives identical graphs, and a document that lost features gives a graph with no more crates and features than the whole one.",
     ["inputs", "configurations"], "all documents, damaged ones and very large ones, and configurations",
     SIM + "all of them small and undamaged.",
     [BLD, LIB], [("build_with_metadata", BLD)],
     "property-based testing and fuzzing for panics, determinism and monotonicity", "")

prop("C27", "Feature entries are taken apart as cargo reads them",
     "For every feature entry, `dep:name`, `name/feature`, `name?/feature` and a plain name are told apart as cargo does, with exactly these names. "
     "For any text at all the pieces put together again are the text, and nothing panics.",
     ["inputs"], "all texts",
     "No test looks at the parser itself.",
     [FEAT], [("ParsedFeature::from, feat", FEAT)],
     "property-based testing: compose and parse round trip", "")

prop("C26", "What comes out of a real cargo run is what cargo itself says",
     "For every project on disk that cargo accepts, the document that `cargo metadata` prints when run through the crate's command with some set of feature flags is read without loss, and the graph built from it has just the packages, links of each kind, and enabled features that `cargo tree` lists for the same project and flags (and the document has resolved), for the root package or the whole workspace. "
     "With some dependency kinds ignored or for one target it never has a package, link or feature that `cargo tree` does not have for them.",
     ["inputs", "configurations"], "all projects (members, path packages, registries, patches, renames, optional and platform-specific dependencies, all forms of feature entries) and flags",
     SIM + "the documents of the tests were recorded once, or come from this repository itself.",
     [BLD, LIB, CM, MCMD], [("Cmd, MetadataCommand", BLD + ", " + MCMD), ("Builder::build_with_metadata", BLD), ("Metadata", CM)],
     "differential property-based testing: generated projects, real cargo metadata through krates against cargo tree", "")

prop("C28", "With target-lexicon, custom triples are evaluated by their parts",
     "With the `targets` feature, every triple rustc knows is taken for that target and every other one that can be taken apart for a custom target: a dependency under a cfg() expression is kept for it exactly if the expression holds for its architecture, vendor, system, environment, family, pointer width and byte order, and one under a triple exactly if that is the triple itself, however that is written. "
     "All that holds for lists of builtin targets (see the target filters) holds for lists with custom ones too, and the feature changes nothing for the builtin ones.",
     ["inputs", "configurations"], "all triples put together from parts, all cfg() expressions and lists of targets, with the crate built with that feature",
     "No test has a custom triple, and the feature is off in the test suite's default run.",
     [BLD], [("Target::from, Target::matches", BLD), ("target-lexicon triples", BLD)],
     "metamorphic property-based testing with an independent cfg evaluator, harness built with the feature", "")

prop("C29", "Helpers of the metadata types report what the document says",
     "For every document, the root package, the workspace members and look-ups by id give exactly the packages the document names (nothing for ids that are not there), the readme and license files of a package are its paths joined with its manifest's directory, a source is recognised as crates.io exactly if it is, and the questions about a target's kind answer by its kinds. "
     "Kinds, crate types and editions are read from and shown as exactly cargo's names, and any other name is refused.",
     ["inputs"], "all documents and names",
     "No test calls them, except on one or two projects.",
     [CM], [("Metadata, Package, Target, Source helpers", CM)],
     "property-based testing against the document itself", "")

prop("C30", "Graphs, ids, kinds and errors are shown as what they are",
     "For every graph, a crate's node is shown as `crate` and what its user data is shown as, a feature's as `feature` and its name, and a link as its kind in parentheses if it is a build or dev dependency, followed by its condition in single quotes if it has one; the dot graph printed from it has just the graph's nodes and links with these labels, and nodes and ids shown for debugging have the id's text, and its name, version and (other than crates.io) source. "
     "Every error's text has cargo's own words or the text of the error that underlies it, and that error is its source.",
     ["inputs"], "all graphs and node types, all errors over all texts",
     "Snapshots show some graphs; no test looks at errors or at a node type of its own.",
     [LIB, "src/errors.rs", "src/cm/errors.rs"], [("Display and Debug of Node, Edge, DepKind, Kid", LIB), ("Error", "src/errors.rs, src/cm/errors.rs")],
     "property-based testing: texts and dot output read back against the graph", "")

EXTRA = []
ex = os.path.join(HERE, "tools", "props_extra.py")
if os.path.exists(ex):
    exec(open(ex).read())

P.sort(key=lambda p: p["id"])
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                                quantifier=dict(over=p["over"], text=p["quant"]), why_tests_cant=p["why"],
                                anchors=dict(files=p["files"], mechanism=p["mech"]))) + "\n")
NOTE = ("Seeded generation with shrinking (proptest); counts, classes and samples in the evidence file. "
        "Sampling, not proof: a violation that needs a combination outside the generators' reach (see DESIGN.md) stays unseen.")
m = dict(version=1, setup_cmd="bash setup.sh",
         checks=[dict(property=p["id"], quick_cmd=f"bash check.sh {p['id']}",
                      thorough_cmd=f"VERIF_TIER=thorough bash check.sh {p['id']}",
                      technique=p["technique"], level="exploration",
                      level_note=(p["note"] + " " if p["note"] else "") + NOTE) for p in P],
         not_applicable=[])
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    f.write(json.dumps(m, indent=1) + "\n")
