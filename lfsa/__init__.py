"""lfsa: repository-specific static analyses for lf-lang/reactor-c, over LLVM IR."""
