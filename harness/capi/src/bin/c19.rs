// Uses of the interface macros, written by the check.
include!(env!("VERIF_C19"));
