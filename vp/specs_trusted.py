TRUSTED = ["vcir: the symbolic executor of this repository (LLVM IR semantics, memory model, verification-condition generation)",
           "clang 20 front end at -O0 (the verified object is the LLVM IR it emits for the current /repo sources)",
           "libLLVM 20 bitcode reader", "z3 5.3 and cvc5 1.1"]
