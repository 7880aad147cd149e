"""setup_cmd: nothing is compiled ahead of time that a check relies on; verify the tools are there."""
import shutil, sys
missing = [t for t in ('goto-cc', 'goto-instrument', 'z3-new', 'cvc5', 'gcc', 'm4') if not shutil.which(t)]
import z3
print('missing:', missing) if missing else print('tools ok')
sys.exit(1 if missing else 0)
