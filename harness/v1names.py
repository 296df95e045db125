"""The v1 names and their v2 counterparts, as documented by the migration of the pinned commit."""

NAMES = {
    'district42': {
        'd42': 'schema optional'.split(),
        'd42.declaration': 'GenericSchema Props PropsType SchemaVisitor SchemaVisitorReturnType'.split(),
        'd42.utils': 'from_native make_required'.split(),
        'd42.custom_type': 'register_type'.split(),
        'd42.representation': 'represent'.split(),
    },
    'district42.errors': {
        'd42.declaration': 'DeclarationError'.split(),
        'd42.declaration.errors': 'make_invalid_type_error make_already_declared_error make_incorrect_min_error make_incorrect_max_error make_incorrect_len_error make_incorrect_min_len_error make_incorrect_max_len_error make_incorrect_precision_error'.split(),
    },
    'district42.representor': {
        'd42.representation': 'Representor'.split(),
    },
    'district42.types': {
        'd42.declaration.types': 'AnySchema AnyProps BoolSchema BoolProps BytesSchema BytesProps DateSchema DateProps DateTimeSchema DateTimeProps DictSchema DictProps FloatSchema FloatProps IntSchema IntProps ListSchema ListProps NoneSchema NoneProps StrSchema StrProps UUID4Schema UUID4Props GenericTypeAliasSchema TypeAliasSchema TypeAliasProps TypeAliasPropsType'.split(),
        'd42.declaration': 'GenericSchema Schema'.split(),
        'd42': 'optional'.split(),
        'd42.utils': 'make_required'.split(),
    },
    'district42.utils': {
        'd42.utils': 'is_ellipsis EllipsisType TypeOrEllipsis rollout'.split(),
    },
    'blahblah': {
        'd42': 'fake'.split(),
        'd42.generation': 'generate Generator Random RegexGenerator'.split(),
    },
    'valera': {
        'd42': 'validate validate_or_fail ValidationException'.split(),
        'd42.validation': 'eq format_result Validator ValidationResult Formatter AbstractFormatter'.split(),
    },
    'valera.errors': {
        'd42.validation.errors': 'ValidationError TypeValidationError ValueValidationError MinValueValidationError MaxValueValidationError LengthValidationError MinLengthValidationError MaxLengthValidationError AlphabetValidationError SubstrValidationError RegexValidationError MissingElementValidationError ExtraElementValidationError MissingKeyValidationError ExtraKeyValidationError SchemaMismatchValidationError InvalidUUIDVersionValidationError'.split(),
    },
    'revolt': {
        'd42': 'substitute'.split(),
        'd42.substitution': 'Substitutor SubstitutorValidator'.split(),
    },
    'revolt.errors': {
        'd42.substitution.errors': 'SubstitutionError make_substitution_error'.split(),
    },
}
TABLE = {old: {n: (new, n) for new, ns in by.items() for n in ns} for old, by in NAMES.items()}
