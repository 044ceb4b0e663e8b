// `use` items of paths that must exist, written by the check.
include!(env!("VERIF_PATHS"));
