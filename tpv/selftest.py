"""setup_cmd: checks that the tools the framework needs are present and that the verifier still rejects wrong contracts."""
import shutil
import subprocess
import sys
import os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
bad = [t for t in ('clang++-18', 'opt-18', 'llvm-cxxfilt-18', 'cvc5') if not shutil.which(t)]
if bad:
    print('missing tools:', bad)
    sys.exit(1)
import z3
print('tools present; z3', z3.get_version_string(), subprocess.run(['clang++-18', '--version'], capture_output=True, text=True).stdout.split('\n')[0])
