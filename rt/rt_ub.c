/* Handlers of clang's minimal undefined-behaviour runtime: mark the sub-case. */
void ub_mark(void);
#define H(n) void __ubsan_handle_##n##_minimal(void) { ub_mark(); } \
             void __ubsan_handle_##n##_minimal_abort(void) { ub_mark(); }
H(type_mismatch) H(alignment_assumption) H(add_overflow) H(sub_overflow) H(mul_overflow)
H(negate_overflow) H(divrem_overflow) H(shift_out_of_bounds) H(out_of_bounds)
H(local_out_of_bounds) H(builtin_unreachable) H(missing_return) H(vla_bound_not_positive)
H(float_cast_overflow) H(load_invalid_value) H(invalid_builtin) H(invalid_objc_cast)
H(function_type_mismatch) H(implicit_conversion) H(nonnull_arg) H(nonnull_return)
H(nullability_arg) H(nullability_return) H(pointer_overflow) H(cfi_check_fail)
