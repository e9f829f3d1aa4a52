"""What the evidence files, MANIFEST.json and DESIGN.md say besides the measured numbers."""
TRUSTED = [
    "pyvc (/verif/pyvc): symbolic executor with loop summaries; it reads the functions' source from /repo on every run",
    "z3 (python3-vt's z3-solver); CBMC 6.11 for the C reader (C17, C18)",
    "the models of Python built-ins and of the library calls listed under assumptions",
    "the specifications themselves (/verif/specs/s_*.py): that they say what the property says is argued in DESIGN.md and tested by the oracles",
]
ASSUMPTIONS = [
    "log and print calls are dropped, with the evaluation of their arguments; exception messages are not compared (the class is)",
    "floats are real numbers (infinity and NaN are not numbers of the model); integers are mathematical, as in Python",
    "termination and recursion depth are not proved",
    "attributes are the classes' own (no monkey patching of /repo's modules), and objects handed in are not aliased",
    "generators run eagerly; the file system does not change while the tool runs",
    "click delivers the declared option types; the option declarations themselves are exercised by the bounded oracle only",
]

# property -> (level, what the obligations establish, what only the bounded oracle sees, how its cases are made)
PROP = {
    "C01": ("proof", "load_vspec merges the contents of all files in order, each over the ones before; VSpec.update / deep_update replace scalars and "
            "lists, merge mappings key by key and leave everything else alone; get_trees hands the files over in that order",
            "YAML parsing, anchors shared between nodes, the command line", "random models with a sequence of random overlays / type files"),
    "C02": ("proof", "Include.__init__ and resolve_path pick the first existing file of the documented search path; get_vspecs loads statements depth "
            "first and prefixes every key by the chain of prefixes; load_vspec merges them so that the included file wins",
            "the file system, the regular text form of include statements in comments", "random include graphs with clashing file names"),
    "C03": ("proof", "build_tree / connect / find_children_ids: the tree has exactly the given names, each below the node of its parent path, plus "
            "branches for missing names; no root, several roots and unconnected nodes raise; get_fqn and get_node_with_fqn read it back",
            "anytree's NodeMixin (modelled), the exit status", "random mappings with orphans, missing and repeated intermediate names"),
    "C04": ("proof", "expand_string, fill_instances, expand_instance, get_instance_nodes, get_child, the body of expand_instances' loop and expand_instances",
            "that repeated expansion ends; deepcopy (modelled as a function of the node it is given)", "random instance declarations, enumerated by a reference expansion"),
    "C05": ("proof", "expand_instance, add_expanded_instance_children, copy, merge, the body of expand_instances' loop and expand_instances",
            "that repeated expansion ends; deepcopy (modelled as a function of the node it is given)", "random models with nested instances and explicit instance nodes"),
    "C06": ("proof", "every is_* predicate, is_datatype and is_subtype_of against the mathematical ranges and the value-set inclusion; the two "
            "validators that apply them to default and allowed", "nothing of the property; the oracle enumerates all pairs of datatypes",
            "boundary values of every width, all pairs of datatypes"),
    "C07": ("proof", "each validator of VSSDataDatatype and VSSData.check_const_uid_format accepts exactly the stated combinations; resolve_vss_raw "
            "runs them", "that pydantic runs the validators in order (modelled from the class definitions)", "random leaf definitions near the constraints"),
    "C08": ("proof", "load_units / load_quantities / load_quantities_and_units and the validators of VSSUnit and of the unit of a node",
            "YAML parsing of the unit files", "random sets of unit and quantity files with defects"),
    "C09": ("proof", "get_fqn_namespaced_datatypes and resolve_datatype choose the innermost enclosing struct; build_tree resolves with the structs of "
            "get_types_root; check_datatype rejects what is left", "the command line", "random type trees and references"),
    "C10": ("proof", "get_invalid_node_msgs reports exactly the nodes with a parent of the wrong kind, validate_tree fails on them, get_trees calls it "
            "on both trees; resolve and get_vss_raw reject what is no node", "the exit status", "random trees with misplaced nodes"),
    "C11": ("proof", "delete_nodes detaches exactly the nodes marked for deletion, get_trees calls it after overlays and expansion",
            "the interplay with expand_instances", "random models, overlays and instances with delete"),
    "C12": ("proof", "get_naming_violations, get_extra_attributes and the two checks of main, and get_trees' use of the abort options",
            "click's parsing of --strict / --aborts", "random models with violations under every option combination"),
    "C13": ("proof", "as_dict, as_flat_dict, get_data: exactly the set attributes at every depth; the two cli functions write them",
            "json.dump / yaml.dump (modelled as pure functions of their arguments)", "random models, exports parsed back"),
    "C14": ("proof", "add_uuids gives every node of the tree the v5 UUID of its own name; get_trees calls it after expansion, only when requested",
            "uuid.uuid5 (library)", "random models, UUIDs recomputed"),
    "C15": ("proof", "fnv1_32_hash for every byte string (loop summary over the bytes), get_node_identifier_bytes, generate_split_id, export_node, cli",
            "yaml.dump", "random models, IDs recomputed"),
    "C16": ("proof", "validate_static_uids with check_semantics (the categories of the messages it logs, and the name in each, in order, for every pair "
            "of exports), the hash, the cli", "the wording of the messages; what is reported before a run that fails with an exception",
            "pairs of models, classified independently"),
    "C17": ("exploration", "the exporter: every length prefix and every record, for every tree; in the C reader, with CBMC, the hex digits, "
            "the type names, the validation texts and the accessors (complete)", "reading and writing whole nodes and trees in C (its allowed-value "
            "functions have a bounded CBMC check), and all of the Go reader",
            "random trees written, read and written back by both libraries"),
    "C18": ("exploration", "in the C reader, with CBMC: the validation join (strictest value, independent of order), the comparison of a segment with "
            "a name for every name a tree can hold, the accessors",
            "the traversal itself (countSegments, getPathSegment and the matched path have a bounded CBMC check), and all of the Go search", "random trees and queries against a reference search"),
    "C19": ("proof", "get_header, add_rows, write_csv, cli: one row per node in pre-order, each cell the node's attribute",
            "the csv module", "random models, CSV parsed back"),
    "C20": ("proof", "print_messages numbers and types the fields and aborts on the stated conditions; the traversals emit one message per node, "
            "every package and import", "the file system; the known finding on message names", "random models, proto files parsed back"),
    "C21": ("proof", "the map of instances to names, the structs and members made from both trees, the prefixes, that a prefix is taken off only where "
            "the number of distinct written names stays the same, that names and references lose it alike, and the file written after any "
            "number of rounds", "distinctness of the names made before shortening (a known finding), members whose type is outside the models",
            "random models, Go files parsed back"),
    "C22": ("proof", "export_node's schema of every node, with the constraints it has and the options' effect; cli",
            "json.dump", "random models, schemas parsed back and compared"),
    "C23": ("proof", "field, leaf_fields, branch_fields, to_gql_type, get_schema_from_tree, cli over abstract graphql constructors",
            "graphql-core's printing", "random models, SDL parsed back by graphql-core"),
    "C24": ("proof", "getAllowedName, get_allowed_enum_literal, export_node, StructExporter, export_idl, cli: the exact text",
            "nothing of the property", "random models, IDL parsed back"),
    "C25": ("proof", "print_franca_content / header, get_rendered_tree and the cli functions: the exact text",
            "anytree's RenderTree (modelled)", "random models, output parsed back"),
    "C26": ("exploration", "for every function under contract, on every path: no value of the outcome depends on the order of a set, and no file opened "
            "for appending keeps contents the run did not write", "the functions without contract, the C level of libraries",
            "every exporter under several hash seeds, twice in a process, over existing output"),
    "C27": ("proof", "types, literals, names, the interfaces, structures and enumerations built by export_node and export_data_type_node (by induction "
            "over the trees), generate_module, generate_solution, export_apigear and the command", "nothing of its own; the YAML library's text",
            "random models, the module file parsed back"),
    "C28": ("exploration", "the decisions behind the export: which characteristic a signal gets, its XSD type, its unit, whether it is constrained, whether a "
            "selection covers it, the names' first letters", "the graph built from these decisions (rdflib), the camel-case names, the files",
            "random models, the Turtle files parsed back and walked from the root's property"),
}
LEVEL = {k: v[0] for k, v in PROP.items()}
RULE = {k: v[3] for k, v in PROP.items()}


def explain(prop):
    _, proved, bounded, _ = PROP[prop]
    return f"proved for all inputs: {proved}. Seen by the bounded oracle only: {bounded}."


def technique(prop):
    if prop == "C18":
        return "CBMC function contracts on the C reader; labelled bounded oracle for the traversal and the Go reader"
    return ("contract-based deductive verification of the real Python functions (obligations from the AST of /repo, z3)"
            + (", CBMC function contracts on the C reader" if prop == "C17" else "") + ", labelled bounded oracle for the rest")
