"""checks that the tools are there"""
import shutil, sys
import z3
ok = all(shutil.which(t) for t in ('clang++-18', 'llvm-cxxfilt-18')) or shutil.which('clang++-18')
print('clang', bool(ok), 'z3', z3.get_version_string()); sys.exit(0 if ok else 1)
