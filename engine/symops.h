#pragma once
enum SymOp {
  SYM_ADD, SYM_SUB, SYM_MUL, SYM_DIV, SYM_FMODOP,
  SYM_NEG, SYM_FABS, SYM_SQRT, SYM_SIN, SYM_COS, SYM_TAN, SYM_ASIN, SYM_ACOS, SYM_ATAN,
  SYM_EXP, SYM_LOG, SYM_LOG10, SYM_LOG2, SYM_FLOOR, SYM_CEIL, SYM_ROUND, SYM_TRUNC, SYM_RINT,
  SYM_CBRT, SYM_SINH, SYM_COSH, SYM_TANH, SYM_EXP2, SYM_LOG1P, SYM_EXPM1,
  SYM_ATAN2, SYM_POW, SYM_HYPOT, SYM_FMOD, SYM_FMIN, SYM_FMAX, SYM_COPYSIGN, SYM_FDIM, SYM_REMAINDER
};
