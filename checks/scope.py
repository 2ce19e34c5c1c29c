"""Which functions' contracts belong to which property.

Each entry is (file regex, function regex or None, exclude regex or None); file
is the path below /repo, function the id.  Private helpers, methods of private
types and closures are covered through the functions that use them."""
C, P, L = "hugr-core/src/", "hugr-passes/src/", "hugr-llvm/src/"
ANY = None

SCOPE = {
    "P01": [
        (C + r"hugr/validate\.rs", ANY, ANY),
        (C + r"ops/validate\.rs", ANY, ANY),
        (C + r"types/(check|poly_func|signature|row_var|custom)\.rs", r"valid|check|validate", ANY),
        (C + r"types\.rs", r"valid|check", ANY),
        (C + r"types/type_param\.rs", ANY, r"fmt|serial"),
        (C + r"ops/(custom|constant|module|controlflow|dataflow)\.rs", r"valid|check|compute_signature|validate", ANY),
        (C + r"ops/constant(/custom)?\.rs", r"check|valid|get_type", ANY),
        (C + r"extension/(op_def|type_def)\.rs", r"valid|check|compute_signature|instantiate", ANY),
        (C + r"extension\.rs", r"valid", ANY),
        (C + r"hugr\.rs", r"valid", ANY),
        (C + r"hugr/views\.rs", r"valid", ANY),
        (C + r"types\.rs", r"EdgeKind|is_linear|is_value|is_static|is_const", ANY),
        (C + r"ops/tag\.rs", r"superset|parent_tags", ANY),
    ],
    "P02": [
        (C + r"types\.rs", r"bound|Bound|copyable|sum|Sum|new_|least_upper|contains|union", ANY),
        (C + r"types/type_param\.rs", ANY, r"fmt|serial"),
        (C + r"types/custom\.rs", ANY, r"fmt|serial|name"),
        (C + r"types/(row_var|type_row|serialize|signature)\.rs", r"bound|Bound|copyable|new|subst", ANY),
        (C + r"extension/type_def\.rs", ANY, r"description|::name$|serial"),
        (C + r"ops/constant(/custom)?\.rs", r"get_type|copyable|bound", ANY),
        (C + r"import\.rs", r"bound|import_type|custom_type|linear|copyable", ANY),
        (C + r"types/.*\.rs", r"least_upper|copyable|bound_if", ANY),
    ],
    "P03": [
        (C + r"hugr/patch(/.*)?\.rs", ANY, r"fmt|serial|port_types"),
        (C + r"hugr/linking\.rs", ANY, r"fmt"),
        (C + r"hugr/hugrmut\.rs", r"insert", ANY),
        (r"hugr-persistent/src/.*\.rs", r"try_add|apply", ANY),
    ],
    "P04": [
        (C + r"hugr\.rs", ANY, r"validate|load|store|envelope|model|fmt"),
        (C + r"hugr/(hugrmut|internal|ident)\.rs", ANY, r"fmt"),
        (C + r"hugr/patch(/.*)?\.rs", ANY, r"fmt|serial|port_types"),
        (C + r"hugr/views/(impls|rerooted)\.rs", r"metadata", ANY),
        (C + r"hugr/views\.rs", r"extract_hugr|metadata", ANY),
    ],
    "P05": [
        (C + r"hugr/serialize(/.*)?\.rs", ANY, ANY),
        (C + r"(types|ops|ops/constant|extension/op_def)/serialize(_signature_func)?\.rs", ANY, ANY),
        (C + r"(types|ops|ops/constant|extension)/.*\.rs", r"serde|Serialize|Ser[A-Z]|serialize", ANY),
        (C + r"(hugr|package|extension|types|ops|core)\.rs", r"serde|Serialize|Ser[A-Z]|serialize", ANY),
        (C + r"envelope/(serde_with|package_json)\.rs", ANY, ANY),
        (C + r"hugr/patch/simple_replace/serial\.rs", ANY, ANY),
        (C + r"hugr\.rs", r"canonical", ANY),
        (C + r"(hugr/ident|core)\.rs", ANY, r"fmt"),
    ],
    "P06": [
        (C + r"envelope(/.*)?\.rs", ANY, r"description"),
        (C + r"package\.rs", ANY, ANY),
        (C + r"(hugr|extension)\.rs", r"load|store|envelope", ANY),
        (C + r"import\.rs", r"import_package|import_described|check_", ANY),
    ],
    "P07": [
        (r"hugr-model/src/(lib|v0/.*)\.rs", ANY, r"pest|Rule|fmt::Debug"),
        (r"hugr-py/rust/.*\.rs", ANY, r"__pyo3|_PYO3|pyo3::|PyMethods"),
    ],
    "P08": [
        (C + r"(export|import|module_graph)\.rs", ANY, ANY),
        (C + r"hugr/views\.rs", r"model", ANY),
    ],
    "P10": [
        (C + r"types(/.*)?\.rs", r"transform|subst|Transform|Subst|rename|instantiate|shift", ANY),
        (C + r"ops(/.*)?\.rs", r"transform|subst|Subst", ANY),
        (C + r"extension/op_def\.rs", r"subst|instantiate", ANY),
        (C + r"types(/.*)?\.rs", ANY, r"fmt|serial|Ser|serde|name|description"),
    ],
    "P11": [
        (C + r"extension/resolution(/.*)?\.rs", ANY, ANY),
        (C + r"hugr\.rs", r"resolve|used_ext|extensions", ANY),
        (C + r"(ops/custom|types|types/.*)\.rs", r"resol|used_ext|extension", ANY),
        (C + r"extension\.rs", r"weak|Weak|resol|used_ext|new_cyclic", ANY),
        (C + r"package\.rs", r"exten|resolv", ANY),
        (C + r"(hugr/hugrmut|ops|ops/custom|ops/constant)\.rs", r"exten|resolv|upgrade", ANY),
        (C + r"extension/(op_def|type_def)\.rs", r"extension|resolv|mut$", ANY),
    ],
    "P12": [
        (C + r"extension\.rs", ANY, r"weak|Weak|resol"),
        (C + r"extension/(op_def|type_def|simple_op|const_fold)\.rs", ANY, r"serial"),
        (C + r"extension/declarative(/.*)?\.rs", ANY, ANY),
        (C + r"envelope(/reader)?\.rs", r"check_|version|compat", ANY),
    ],
    "P13": [
        (C + r"ops\.rs", ANY, r"subst"),
        (C + r"ops/(tag|controlflow|dataflow|module|sum|handle|custom)\.rs", ANY, r"subst|serial"),
        (C + r"ops/validate\.rs", r"validity_flags", ANY),
        (C + r"ops/constant\.rs", ANY, r"serial"),
        (C + r"ops(/.*)?\.rs", ANY, r"subst|serial|serde|fmt"),
        (C + r"types\.rs", r"EdgeKind", ANY),
    ],
    "P14": [
        (C + r"hugr/views\.rs", ANY, r"model"),
        (C + r"hugr/views/(impls|rerooted|root_checked|petgraph|nodes_iter|render)\.rs", ANY, ANY),
        (C + r"hugr/views/root_checked/.*\.rs", ANY, ANY),
        (C + r"core\.rs", ANY, ANY),
        (C + r"hugr/internal\.rs", ANY, r"fmt"),
    ],
    "P15": [
        (P + r"replace_types(/.*)?\.rs", ANY, ANY),
        (P + r"(linearize_array|lower)\.rs", ANY, ANY),
    ],
    "P16": [
        (P + r"(call_graph|composable|dead_code|dead_funcs|force_order|half_node|inline_dfgs|inline_funcs|lib|monomorphize|untuple|normalize_cfgs|nest_cfgs|non_local|const_fold)\.rs", ANY, ANY),
        (P + r"(non_local|const_fold)/.*\.rs", ANY, ANY),
        (C + r"module_graph\.rs", ANY, ANY),
        (P + r".*\.rs", ANY, r"dataflow|replace_types|fmt"),
        (C + r"hugr/patch/(inline_.*|peel_loop|consts|outline_cfg)\.rs", ANY, r"fmt"),
    ],
    "P17": [
        (C + r"std_extensions/(arithmetic/.*|logic)\.rs", ANY, ANY),
        (L + r"extension/(int|float|logic|conversions)\.rs", ANY, ANY),
        (L + r"utils/.*\.rs", ANY, ANY),
        (C + r"extension/const_fold\.rs", ANY, ANY),
        (L + r"emit/ops\.rs", ANY, ANY),
    ],
    "P18": [
        (L + r"(custom|emit|sum|types|lib)(/.*)?\.rs", ANY, r"test"),
        (L + r"extension/(prelude|collections/.*)\.rs", ANY, ANY),
        (L + r"utils/.*\.rs", ANY, ANY),
        (L + r"extension(/.*)?\.rs", ANY, r"test"),
    ],
    "P19": [(r"hugr-persistent/src/.*\.rs", ANY, ANY)],
    "P20": [(r"hugr-cli/src/.*\.rs", ANY, ANY)],
    "P23": [
        (C + r"std_extensions(/.*)?\.rs", ANY, ANY),
        (C + r"extension/prelude(/.*)?\.rs", ANY, ANY),
    ],
    "P24": [(C + r"builder(/.*)?\.rs", ANY, ANY)],
    "P25": [
        (P + r"dataflow(/.*)?\.rs", ANY, ANY),
        (P + r"const_fold(/.*)?\.rs", ANY, ANY),
    ],
    "P26": [
        (C + r"hugr/linking\.rs", ANY, r"fmt"),
        (C + r"package\.rs", r"link", ANY),
        (C + r"hugr/hugrmut\.rs", r"insert|link", ANY),
        (C + r"hugr/internal\.rs", r"insert", ANY),
        (C + r"builder/.*\.rs", r"link", ANY),
    ],
    "P27": [
        (C + r"hugr/views/sibling_subgraph\.rs", ANY, ANY),
        (C + r"hugr/patch/(simple_replace|replace|outline_cfg|peel_loop|port_types|inline_dfg|inline_call|insert_identity|insert_cut|consts)\.rs", ANY, r"fmt|serial"),
        (C + r"hugr/patch(/.*)?\.rs", ANY, r"fmt|serial"),
        (r"hugr-persistent/src/(subgraph|walker|wire|parents_view)\.rs", ANY, r"fmt"),
    ],
}
