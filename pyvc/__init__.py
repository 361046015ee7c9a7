"""pyvc: a contract-based verification-condition generator for a subset of Python/numpy (and,
through clang's AST, of C++).  See /verif/DESIGN.md."""
